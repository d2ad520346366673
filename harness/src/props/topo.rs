//! Properties of the topology: winding numbers, n-ary sets, and output positions.

use super::curves::t_range;
use super::util::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use kurbo::{BezPath, CubicBez, ParamCurve, PathSeg, Point, Vec2};
use linesweeper::topology::{BinaryWindingNumber, Contours, Topology, WindingNumber};

pub const TAGS: usize = 4;

/// One winding number per tag.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Wn(pub [i32; TAGS]);
impl std::ops::Add for Wn {
    type Output = Wn;
    fn add(self, o: Wn) -> Wn {
        let mut r = self;
        for i in 0..TAGS {
            r.0[i] += o.0[i];
        }
        r
    }
}
impl std::ops::AddAssign for Wn {
    fn add_assign(&mut self, o: Wn) {
        *self = *self + o;
    }
}
impl WindingNumber for Wn {
    type Tag = u8;
    fn single(tag: u8, positive: bool) -> Wn {
        let mut r = Wn::default();
        r.0[tag as usize] = if positive { 1 } else { -1 };
        r
    }
}

pub struct NCase {
    pub paths: Vec<(BezPath, u8)>,
    pub eps: f64,
    pub mag: f64,
}

impl NCase {
    pub fn tol(&self) -> f64 {
        tol_for(self.eps, self.mag)
    }
    pub fn show(&self) -> String {
        let mut t = String::new();
        for (p, k) in &self.paths {
            t.push_str(&format!("{k}=\"{}\" ", p.to_svg()));
        }
        format!("{t}eps={:e}", self.eps)
    }
    pub fn pieces(&self) -> Vec<Vec<Piece>> {
        let mut v = vec![vec![]; TAGS];
        for (p, k) in &self.paths {
            v[*k as usize].extend(pieces(p));
        }
        v
    }
    pub fn topology(&self) -> Result<Topology<Wn>, String> {
        Topology::from_paths(self.paths.iter().map(|(p, k)| (p, *k)), self.eps)
            .map_err(|e| format!("closed paths were rejected: {e:?}"))
    }
}

pub fn n_case(s: &mut Src, ctx: &mut Ctx, o: Opts) -> NCase {
    let c = pair_case(s, o);
    label_case(ctx, &c);
    let mut paths = vec![];
    if s.chance(1, 4) {
        paths.push((c.a, 0));
        paths.push((c.b, 1));
    } else {
        let mut subs = subpaths(&c.a);
        subs.extend(subpaths(&c.b));
        while !subs.is_empty() {
            let k = s.usize(1, 2.min(subs.len()));
            let part: Vec<_> = subs.drain(..k).collect();
            let p = subpaths_to_path(&part);
            paths.push((p, s.below(TAGS as u64) as u8));
        }
        if s.chance(1, 8) {
            paths.push((BezPath::new(), s.below(TAGS as u64) as u8));
        }
    }
    NCase { paths, eps: c.eps, mag: c.mag }
}

/// The winding numbers at a point, if it is farther than `tol` from all the curves.
fn wn_at(ps: &[Vec<Piece>], p: Point, tol: f64) -> Option<Wn> {
    let mut r = Wn::default();
    for i in 0..TAGS {
        r.0[i] = winding(&ps[i], p, tol)?;
    }
    Some(r)
}

/// An output segment together with its position.
struct Out {
    west: Wn,
    east: Wn,
    p0: Point,
    p1: Point,
    segs: Vec<CubicBez>,
    pieces: Vec<Piece>,
    path: BezPath,
    copied: Option<usize>,
    own: Piece,
}

fn cubic_of(seg: &PathSeg) -> CubicBez {
    match *seg {
        PathSeg::Line(l) => CubicBez::new(l.p0, l.p0.lerp(l.p1, 1.0 / 3.0), l.p0.lerp(l.p1, 2.0 / 3.0), l.p1),
        _ => seg.to_cubic(),
    }
}

fn outputs(t: &Topology<Wn>) -> Result<Vec<Out>, String> {
    let pos = t.compute_positions();
    let mut v = vec![];
    for idx in t.segment_indices() {
        let (a, b) = (idx.first_half(), idx.second_half());
        let (cw, ccw) = (*t.winding_clockwise(a), *t.winding_counter_clockwise(a));
        let (cw2, ccw2) = (*t.winding_clockwise(b), *t.winding_counter_clockwise(b));
        ensure!(
            cw == ccw2 && ccw == cw2,
            "the first half has {cw:?} clockwise and {ccw:?} counter-clockwise, the second {cw2:?} and {ccw2:?}"
        );
        ensure!(a.other_half() == b && b.other_half() == a && a.is_first_half() && !b.is_first_half(), "halves of {idx:?}");
        let (p0, p1) = (t.point(a).to_kurbo(), t.point(b).to_kurbo());
        let path = &pos[idx].path;
        v.push(Out {
            west: cw,
            east: ccw,
            p0,
            p1,
            segs: path.segments().map(|s| cubic_of(&s)).collect(),
            pieces: pieces(path),
            path: path.clone(),
            copied: pos[idx].copied_idx,
            own: Piece::new(t.segments[t.orig_seg[idx]].to_kurbo_cubic(), false),
        });
    }
    Ok(v)
}

/// The horizontal position at a height strictly between the end heights.
fn x_at(o: &Out, y: f64) -> Option<f64> {
    if !(o.p0.y < y && y < o.p1.y) {
        return None;
    }
    let c = o.segs.iter().find(|c| c.p0.y <= y && y <= c.p3.y && c.p0.y < c.p3.y)?;
    let (a, b) = t_range(c, y, y);
    Some(c.eval(0.5 * (a + b)).x)
}

/// Heights to look at: between the vertices' heights.
fn scan_heights(s: &mut Src, outs: &[Out], n: usize) -> Vec<f64> {
    let mut ys: Vec<f64> = outs.iter().flat_map(|o| [o.p0.y, o.p1.y]).collect();
    ys.sort_by(f64::total_cmp);
    ys.dedup();
    if ys.len() < 2 {
        return vec![];
    }
    let (lo, hi) = (ys[0], ys[ys.len() - 1]);
    (0..n)
        .map(|_| {
            if s.bool() {
                lo + (hi - lo) * s.unit()
            } else {
                let i = s.usize(0, ys.len() - 2);
                ys[i] + (ys[i + 1] - ys[i]) * *s.pick(&[0.5, 0.1, 0.9])
            }
        })
        .filter(|y| !ys.contains(y))
        .collect()
}

fn c05(s: &mut Src, ctx: &mut Ctx, o: Opts) -> Res {
    let c = n_case(s, ctx, o);
    ctx.describe(c.show());
    let t = c.topology()?;
    let outs = outputs(&t)?;
    let ps = c.pieces();
    let tol = c.tol();
    for o in &outs {
        ensure!(
            (o.p0.y, o.p0.x) <= (o.p1.y, o.p1.x),
            "an output segment goes from {:?} to {:?}", o.p0, o.p1
        );
    }
    // Walk along horizontal lines.
    let mut decided = 0;
    for y in scan_heights(s, &outs, 12) {
        let mut row: Vec<(f64, usize)> = vec![];
        for (i, o) in outs.iter().enumerate() {
            if o.p0.y < y && y < o.p1.y {
                let Some(x) = x_at(o, y) else {
                    return Err(format!("the output segment {:?} -- {:?} has no position at height {y:?}", o.p0, o.p1));
                };
                row.push((x, i));
            }
        }
        row.sort_by(|a, b| a.0.total_cmp(&b.0));
        // Groups between gaps in which the winding numbers can be told from the input.
        let mut left = Wn::default();
        let mut group: Vec<usize> = vec![];
        for k in 0..=row.len() {
            let gap = if k == row.len() {
                Some(Wn::default())
            } else if k == 0 {
                None
            } else {
                let (x0, x1) = (row[k - 1].0, row[k].0);
                if x1 - x0 < 2.0 * tol {
                    None
                } else {
                    let mut w = None;
                    for f in [0.5, 0.2, 0.8] {
                        w = w.or_else(|| wn_at(&ps, Point::new(x0 + f * (x1 - x0), y), tol));
                    }
                    w
                }
            };
            if let Some(w) = gap {
                check_group(ctx, &outs, &group, left, w, y)?;
                if group.len() == 1 && left != w {
                    decided += 1;
                }
                group.clear();
                left = w;
            }
            if k < row.len() {
                group.push(row[k].1);
            }
        }
    }
    // Isolated segments, looking to both sides of them.
    for _ in 0..12 {
        if outs.is_empty() {
            break;
        }
        let i = s.usize(0, outs.len() - 1);
        let o = &outs[i];
        let seg = s.pick(&o.segs);
        let u = s.f64(0.05, 0.95);
        let p = seg.eval(u);
        let d = seg.eval((u + 1e-3).min(1.0)) - seg.eval((u - 1e-3).max(0.0));
        if d.hypot() == 0.0 {
            continue;
        }
        let d = d / d.hypot();
        // Facing along the segment, the right-hand side is the clockwise one.
        let right = Vec2::new(-d.y, d.x);
        let delta = tol * s.logf(1.2, 30.0);
        if outs.iter().enumerate().any(|(j, q)| j != i && within(&q.pieces, p, 1.3 * delta)) {
            continue;
        }
        // No folds nearby: every part of this segment close to the point goes the same way.
        if !o.segs.iter().all(|c| straight_near(c, p, d, 1.3 * delta)) {
            continue;
        }
        for (side, want_cw) in [(right, true), (-right, false)] {
            let q = p + side * delta;
            let Some(w) = wn_at(&ps, q, tol) else { continue };
            ctx.probes += 1;
            decided += 1;
            if o.p0.y == o.p1.y {
                ctx.label("horizontal");
            }
            let got = if want_cw { o.west } else { o.east };
            ensure!(
                got == w,
                "the output segment {:?} -- {:?} claims {:?} on its {} side, but at ({:?}, {:?}) the input winds {:?}",
                o.p0, o.p1, got.0, if want_cw { "clockwise" } else { "counter-clockwise" }, q.x, q.y, w.0
            );
        }
    }
    ctx.nontrivial = decided > 0;
    Ok(())
}

/// Do all parts of a curve that are within `r` of `p` go in the direction `d`, more or less?
fn straight_near(c: &CubicBez, p: Point, d: Vec2, r: f64) -> bool {
    let ps = [c.p0, c.p1, c.p2, c.p3];
    let (mut x0, mut x1, mut y0, mut y1) = (f64::MAX, f64::MIN, f64::MAX, f64::MIN);
    for q in ps {
        x0 = x0.min(q.x);
        x1 = x1.max(q.x);
        y0 = y0.min(q.y);
        y1 = y1.max(q.y);
    }
    if x0 > p.x + r || x1 < p.x - r || y0 > p.y + r || y1 < p.y - r {
        return true;
    }
    let ok = ps.windows(2).all(|w| {
        let v = w[1] - w[0];
        v.dot(d) >= 0.5 * v.hypot()
    });
    if ok {
        return true;
    }
    if (x1 - x0).max(y1 - y0) < 1e-4 * r {
        return false;
    }
    let (a, b) = c.subdivide();
    straight_near(&a, p, d, r) && straight_near(&b, p, d, r)
}

/// The segments of a group must lead from the winding numbers on its left to those on its right,
/// in some order.
fn check_group(ctx: &mut Ctx, outs: &[Out], group: &[usize], left: Wn, right: Wn, y: f64) -> Res {
    ctx.probes += 1;
    let show = || {
        group
            .iter()
            .map(|&i| format!("[{:?} | {:?}]", outs[i].west.0, outs[i].east.0))
            .collect::<Vec<_>>()
            .join(" ")
    };
    let mut vals: Vec<Wn> = vec![left, right];
    for &i in group {
        vals.push(outs[i].west);
        vals.push(outs[i].east);
    }
    for v in vals {
        let from = group.iter().filter(|&&i| outs[i].west == v).count() as i64;
        let to = group.iter().filter(|&&i| outs[i].east == v).count() as i64;
        let want = (v == left) as i64 - (v == right) as i64;
        ensure!(
            from - to == want,
            "at height {y:?} the input winds {:?} to the left and {:?} to the right, but the output segments in between have {}",
            left.0, right.0, show()
        );
    }
    Ok(())
}

fn c05_std(s: &mut Src, ctx: &mut Ctx) -> Res {
    c05(s, ctx, COARSE)
}
fn c05_auto(s: &mut Src, ctx: &mut Ctx) -> Res {
    c05(s, ctx, AUTO)
}
fn c05_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    c05(s, ctx, Opts { min_shapes: 4, max_shapes: 10, ..COARSE })
}
fn c05_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    c05(s, ctx, WIDE)
}

pub fn c05_prop() -> Prop {
    Prop {
        id: "C05",
        rule: "a case counts when the winding numbers of at least one single output segment were compared with the input's on both sides",
        parts: &[("std", c05_std, 120000, 1000000), ("auto", c05_auto, 60000, 400000), ("many", c05_many, 4500, 40000), ("wide", c05_wide, 1200, 10000)],
        assumptions: &[
            "the input's winding numbers are only read off at points farther than 6 tolerances from every input curve (plus 1e-8 of the largest coordinate when the tolerance is below 1e-6 of it)",
            "output segments that are closer together than that are judged as a group",
        ],
    }
}

// ---------------------------------------------------------------- C06

/// A predicate given by a table over small winding numbers.
#[derive(Clone)]
struct Table {
    seed: u64,
    kind: u64,
    outside: bool,
}

impl Table {
    fn gen(s: &mut Src) -> Table {
        Table { seed: s.below(1 << 30), kind: s.below(7), outside: false }
    }
    fn eval(&self, w: &Wn) -> bool {
        if *w == Wn::default() {
            return self.outside;
        }
        let n = w.0;
        let k = (self.seed % TAGS as u64) as usize;
        let l = (self.seed / 7 % TAGS as u64) as usize;
        match self.kind {
            // a random truth table
            0 | 1 => {
                let mut h = self.seed ^ 0x9e37_79b9_7f4a_7c15;
                for v in n {
                    h = (h ^ (v as i64 as u64)).wrapping_mul(0xff51_afd7_ed55_8ccd);
                    h ^= h >> 29;
                }
                h % 2 == 0
            }
            // one of them, by the sign or parity
            2 => n[k] > 0,
            3 => n[k] % 2 != 0,
            // all but one
            4 => (0..TAGS).filter(|i| n[*i] != 0).count() == 1,
            // a threshold on the sum
            5 => n.iter().sum::<i32>().abs() > (self.seed % 3) as i32,
            // a difference
            _ => n[k] != 0 && n[l] == 0 || n[(k + 1) % TAGS] > 1,
        }
    }
}

fn same_contours(a: &Contours, b: &Contours) -> bool {
    let (x, y): (Vec<_>, Vec<_>) = (a.contours().collect(), b.contours().collect());
    x.len() == y.len()
        && x.iter().zip(&y).all(|(p, q)| {
            p.path.elements() == q.path.elements() && p.parent == q.parent && p.outer == q.outer
        })
}

fn c06(s: &mut Src, ctx: &mut Ctx, o: Opts) -> Res {
    let c = n_case(s, ctx, o);
    let n = s.usize(1, 3);
    let tables: Vec<Table> = (0..n).map(|_| Table::gen(s)).collect();
    ctx.describe(format!(
        "{} predicates {}",
        c.show(),
        tables.iter().map(|t| format!("{}:{}", t.kind, t.seed)).collect::<Vec<_>>().join(",")
    ));
    let t = c.topology()?;
    let ps = c.pieces();
    let tol = c.tol();
    let all = join(&ps.iter().map(|v| &v[..]).collect::<Vec<_>>());
    let probes = probe_points(s, &all, tol, 40);
    let wn: Vec<Option<Wn>> = probes.iter().map(|p| wn_at(&ps, *p, tol)).collect();
    let mut results = vec![];
    for table in &tables {
        let r = t.contours(|w| table.eval(w));
        let out = contour_pieces(&r);
        let mut i = 0;
        check_pointwise(ctx, &out, &probes, tol, &mut |_, _| {
            i += 1;
            wn[i - 1].map(|w| table.eval(&w))
        })
        .map_err(|e| format!("predicate {}:{}: {e}", table.kind, table.seed))?;
        results.push(r);
    }
    // The same query again, after the others.
    let i = s.usize(0, n - 1);
    let again = t.contours(|w| tables[i].eval(w));
    ensure!(same_contours(&results[i], &again), "the same predicate gives different contours after other queries");
    Ok(())
}

fn c06_std(s: &mut Src, ctx: &mut Ctx) -> Res {
    c06(s, ctx, COARSE)
}
fn c06_auto(s: &mut Src, ctx: &mut Ctx) -> Res {
    c06(s, ctx, AUTO)
}
fn c06_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    c06(s, ctx, Opts { min_shapes: 4, max_shapes: 10, ..COARSE })
}

/// Polygons as polylines and as paths, and the one-path topology.
fn c06_ways(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = *s.pick(&[COARSE, AUTO]);
    let polygons = s.chance(2, 3);
    let c = pair_case(s, Opts { curves: Some(!polygons), ..o });
    let is_poly = |p: &BezPath| subpaths(p).iter().flatten().all(|s| matches!(s, PathSeg::Line(_)));
    label_case(ctx, &c);
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    ctx.describe(format!("{} rule={rule:?} op={op:?}", c.show()));
    let tol = c.tol();
    let (pa, pb) = (pieces(&c.a), pieces(&c.b));
    let all = join(&[&pa, &pb]);
    let probes = probe_points(s, &all, tol, 40);
    // One path.
    let one = Topology::<i32>::from_path(&c.a, c.eps).map_err(|e| format!("{e:?}"))?;
    let k = s.range(-2, 3) as i32;
    let kind = s.below(3);
    let pred = |w: i32| match kind {
        0 => w != 0 && w % 2 == k % 2,
        1 => w > k.max(0),
        _ => w < k.min(0),
    };
    let out = contour_pieces(&one.contours(|w| pred(*w)));
    check_pointwise(ctx, &out, &probes, tol, &mut |p, tol| winding(&pa, p, tol).map(pred))
        .map_err(|e| format!("one path, predicate {kind}:{k}: {e}"))?;
    if is_poly(&c.a) && is_poly(&c.b) {
        ctx.label("polylines");
        let lines = |p: &BezPath| -> Vec<Vec<linesweeper::Point>> {
            subpaths(p)
                .iter()
                .map(|sub| sub.iter().map(|s| linesweeper::Point::from_kurbo(s.p_start())).collect())
                .collect()
        };
        let t = Topology::<BinaryWindingNumber>::from_polylines_binary(lines(&c.a), lines(&c.b), c.eps);
        let out = contour_pieces(&t.contours(|w| combine(op, inside(rule, w.shape_a), inside(rule, w.shape_b))));
        check_pointwise(ctx, &out, &probes, tol, &mut |p, tol| {
            Some(combine(op, inside(rule, winding(&pa, p, tol)?), inside(rule, winding(&pb, p, tol)?)))
        })
        .map_err(|e| format!("polylines: {e}"))?;
    }
    Ok(())
}

pub fn c06_prop() -> Prop {
    Prop {
        id: "C06",
        rule: "a case counts when at least one probe that must be inside and one that must be outside a result were decided",
        parts: &[
            ("std", c06_std, 80000, 1000000),
            ("auto", c06_auto, 40000, 400000),
            ("many", c06_many, 3000, 40000),
            ("ways", c06_ways, 60000, 600000),
        ],
        assumptions: &[
            "points within 6 tolerances of an input curve are not judged (plus 1e-8 of the largest coordinate when the tolerance is below 1e-6 of it)",
            "predicates that are false for the winding numbers of the unbounded region",
        ],
    }
}

// ---------------------------------------------------------------- C07

/// The horizontal extent between two heights.
fn x_extent(o: &Out, y0: f64, y1: f64) -> (f64, f64) {
    let (mut lo, mut hi) = (f64::MAX, f64::MIN);
    for c in &o.segs {
        if c.p3.y < y0 || c.p0.y > y1 {
            continue;
        }
        let (a, b) = t_range(c, y0, y1);
        let s = c.subsegment(a..b);
        for x in [s.p0.x, s.p1.x, s.p2.x, s.p3.x] {
            lo = lo.min(x);
            hi = hi.max(x);
        }
    }
    (lo, hi)
}

/// Is there an input segment near `p` that spans a wide horizontal range within a small height?
fn beside_flat(t: &Topology<Wn>, p: Point, r: f64) -> bool {
    t.segments.segments().any(|seg| {
        let (y0, y1) = (seg.start().y, seg.end().y);
        if p.y < y0 - r || p.y > y1 + r {
            return false;
        }
        let (lo, hi) = if seg.is_horizontal() {
            (seg.min_x() - r, seg.max_x() + r)
        } else {
            let y = p.y.clamp(y0, y1);
            (seg.lower(y, r), seg.upper(y, r))
        };
        lo - r <= p.x && p.x <= hi + r && hi - lo > 6.0 * r
    })
}

fn c07(s: &mut Src, ctx: &mut Ctx, o: Opts) -> Res {
    let c = n_case(s, ctx, o);
    ctx.describe(c.show());
    let t = c.topology()?;
    let outs = outputs(&t)?;
    let ps = c.pieces();
    let all = join(&ps.iter().map(|v| &v[..]).collect::<Vec<_>>());
    let tol = c.tol();
    let rnd = 1e-13 * c.mag;
    let delta = c.eps + rnd;
    let mut close = false;
    for o in &outs {
        let name = || format!("the position of the output segment {:?} -- {:?}", o.p0, o.p1);
        let els = o.path.elements();
        ensure!(
            matches!(els.first(), Some(kurbo::PathEl::MoveTo(p)) if *p == o.p0),
            "{} starts with {:?}", name(), els.first()
        );
        ensure!(
            els.len() >= 2 && els[1..].iter().all(|e| !matches!(e, kurbo::PathEl::MoveTo(_) | kurbo::PathEl::ClosePath)),
            "{} is not one open piece: {:?}", name(), o.path.to_svg()
        );
        let end = o.segs.last().unwrap().p3;
        ensure!(end == o.p1, "{} ends at {end:?}", name());
        for g in &o.segs {
            // Up to the tolerance (the ends of curves are moved without adjusting the rest of the curve).
            ensure!(g.p0.y <= g.p3.y + c.eps, "{} goes up from {:?} to {:?}", name(), g.p0, g.p3);
            let mut y = g.p0.y;
            for k in 1..=16 {
                let q = g.eval(k as f64 / 16.0);
                ensure!(q.y >= y - c.eps - 100.0 * rnd, "{} goes up from height {y:?} to {:?}", name(), q.y);
                y = y.max(q.y);
            }
        }
        // Close to the input.
        let n = if outs.len() > 60 { 2 } else { 6 };
        for _ in 0..n {
            let g = s.pick(&o.segs);
            let q = g.eval(s.unit());
            ctx.probes += 1;
            ensure!(within(&all, q, 2.0 * tol), "{} passes through {q:?}, {:e} from all inputs", name(), distance(&all, q, tol * 0.1));
        }
        for _ in 0..n {
            let g = s.pick(&o.segs);
            let q = g.eval(s.unit());
            if q.y > o.p0.y + 3.0 * c.eps && q.y < o.p1.y - 3.0 * c.eps {
                let d = distance(&[o.own], q, c.eps * 0.05);
                // Beside almost-horizontal pieces, positions may be pushed sideways.
                if d > 4.0 * c.eps + 1e-9 * c.mag && beside_flat(&t, q, 3.0 * c.eps) {
                    ctx.label("beside-flat");
                    continue;
                }
                ctx.max("own/eps", d / c.eps);
                ensure!(
                    d <= 4.0 * c.eps + 1e-9 * c.mag,
                    "{} passes through {q:?}, {d:e} from its own input segment",
                    name()
                );
            }
        }
        // The part that is said to be a copy.
        if let Some(k) = o.copied {
            ensure!(k < o.segs.len(), "{} has {} parts, and number {k} is said to be copied", name(), o.segs.len());
            let g = &o.segs[k];
            if g.p3.y - g.p0.y > 1.01 * c.eps && matches!(els[k + 1], kurbo::PathEl::CurveTo(..)) {
                ctx.label("copied");
                for f in [0.25, 0.5, 0.75] {
                    let q = g.eval(f);
                    let r = 0.3 * c.eps + 1e-9 * c.mag;
                    ensure!(within(&all, q, r), "{} passes through {q:?} on a copied part, {:e} from all inputs", name(), distance(&all, q, r * 0.1));
                }
            }
        }
    }
    // The order.
    let mut ys = scan_heights(s, &outs, 8);
    if !outs.is_empty() {
        for _ in 0..8 {
            let o = s.pick(&outs);
            let g = s.pick(&o.segs);
            ys.push(g.eval(*s.pick(&[0.0, 0.5, 0.1, 0.9])).y);
        }
    }
    ys.retain(|y| outs.iter().all(|o| o.p0.y != *y && o.p1.y != *y));
    for y in ys {
        let mut row: Vec<((f64, f64), usize)> = outs
            .iter()
            .enumerate()
            .filter(|(_, o)| o.p0.y < y && y < o.p1.y)
            .map(|(i, o)| (x_extent(o, y - delta, y + delta), i))
            .collect();
        row.sort_by(|a, b| a.0.0.total_cmp(&b.0.0));
        let mut left = Wn::default();
        let mut group: Vec<usize> = vec![];
        let mut hi = f64::MIN;
        for k in 0..=row.len() {
            if k == row.len() || row[k].0.0 > hi + delta {
                let mut right = left;
                for &i in &group {
                    for q in 0..TAGS {
                        right.0[q] += outs[i].east.0[q] - outs[i].west.0[q];
                    }
                }
                ctx.probes += 1;
                close |= group.len() > 1;
                check_group(ctx, &outs, &group, left, right, y).map_err(|e| format!("not in order: {e}"))?;
                left = right;
                group.clear();
            }
            if k < row.len() {
                hi = hi.max(row[k].0.1);
                group.push(row[k].1);
            }
        }
        ensure!(left == Wn::default(), "the winding numbers at height {y:?} end with {:?}", left.0);
    }
    ctx.nontrivial = close || outs.iter().any(|o| o.segs.len() > 1);
    Ok(())
}

fn c07_std(s: &mut Src, ctx: &mut Ctx) -> Res {
    c07(s, ctx, COARSE)
}
fn c07_auto(s: &mut Src, ctx: &mut Ctx) -> Res {
    c07(s, ctx, AUTO)
}
/// Without curves, positions are made of lines only.
fn c07_polygons(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = *s.pick(&[COARSE, AUTO]);
    c07(s, ctx, Opts { curves: Some(false), ..o })
}
fn c07_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    c07(s, ctx, Opts { min_shapes: 4, max_shapes: 10, ..COARSE })
}
fn c07_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    c07(s, ctx, WIDE)
}

pub fn c07_prop() -> Prop {
    Prop {
        id: "C07",
        rule: "a case counts when at least one output segment's position was perturbed (consists of more than one piece), or when two positions come closer together than the tolerance at a height that was judged",
        parts: &[("std", c07_std, 80000, 1000000), ("auto", c07_auto, 40000, 400000), ("many", c07_many, 3000, 40000), ("wide", c07_wide, 450, 5000), ("polygons", c07_polygons, 40000, 400000)],
        assumptions: &[
            "positions that are closer together than the tolerance (horizontally, or vertically for almost horizontal ones) are judged as a group",
        ],
    }
}
