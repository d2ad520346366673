//! Structure of the contours, algebraic laws, invariances.

use super::util::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use kurbo::{Affine, BezPath, PathEl, Point, Rect, Vec2};
use linesweeper::topology::{ContourIdx, Contours, Topology};
use linesweeper::{binary_op, binary_op_with_eps, BinaryOp, Error, FillRule};

// ---------------------------------------------------------------- C03

/// Is `path` one explicit closed loop?
fn check_closed(path: &BezPath) -> Res {
    let els = path.elements();
    ensure!(els.len() >= 3, "a contour has only {} elements", els.len());
    ensure!(
        matches!(els[0], PathEl::MoveTo(_)),
        "a contour does not begin with a move"
    );
    ensure!(
        els[els.len() - 1] == PathEl::ClosePath,
        "a contour does not end with a close"
    );
    for e in &els[1..els.len() - 1] {
        ensure!(
            !matches!(e, PathEl::MoveTo(_) | PathEl::ClosePath),
            "a contour has several subpaths"
        );
        for p in el_points(e) {
            ensure!(p.is_finite(), "a contour has a non-finite point");
        }
    }
    Ok(())
}

/// A contour has no repeated points, says the documentation.
///
/// Only for input without close calls: otherwise positions may put additional points of two strands
/// in the same place.
fn check_simple(cs: &Contours) -> Res {
    for (i, k) in cs.contours().enumerate() {
        let ends: Vec<Point> = k.path.elements().iter().filter_map(|e| el_points(e).last().copied()).collect();
        let closing = ends.len() > 1 && ends[ends.len() - 1] == ends[0];
        let mut seen = std::collections::HashSet::new();
        for q in &ends[..ends.len() - closing as usize] {
            // (+ 0.0 makes the zeros equal)
            ensure!(
                seen.insert(((q.x + 0.0).to_bits(), (q.y + 0.0).to_bits())),
                "contour {i} passes twice through ({}, {})",
                q.x,
                q.y
            );
        }
    }
    Ok(())
}

/// Points just off the curve of one contour, on both sides.
fn side_points(s: &mut Src, ps: &[Piece], tol: f64, n: usize) -> Vec<Point> {
    let mut v = vec![];
    for _ in 0..n {
        let q = s.pick(ps);
        let t = s.unit();
        let p = q.eval(t);
        let a = s.f64(0.0, std::f64::consts::TAU);
        let r = tol * s.logf(1.1, 300.0);
        v.push(p + Vec2::new(a.cos(), a.sin()) * r);
    }
    v
}

pub fn check_contours(
    s: &mut Src,
    ctx: &mut Ctx,
    cs: &Contours,
    input: &[Piece],
    tol: f64,
) -> Res {
    let list: Vec<_> = cs.contours().collect();
    let n = list.len();
    for (i, c) in list.iter().enumerate() {
        check_closed(&c.path).map_err(|e| format!("contour {i}: {e}"))?;
        match c.parent {
            None => ensure!(c.outer, "contour {i} has no parent but is not outer"),
            Some(p) => {
                ensure!(p.0 < n && p.0 != i, "contour {i} has the bad parent {}", p.0);
                ensure!(
                    list[p.0].outer != c.outer,
                    "contour {i} and its parent {} are both outer={}",
                    p.0,
                    c.outer
                );
            }
        }
        // No cycles.
        let mut k = i;
        for step in 0.. {
            match list[k].parent {
                None => break,
                Some(p) => k = p.0,
            }
            ensure!(step <= n, "the parents of contour {i} form a cycle");
        }
        ensure!(
            std::ptr::eq(&cs[ContourIdx(i)], *c),
            "indexing and iteration disagree"
        );
    }
    let ancestors = |i: usize| {
        let mut v = vec![];
        let mut k = i;
        while let Some(p) = list[k].parent {
            v.push(p.0);
            k = p.0;
        }
        v
    };
    // grouped()
    let mut seen = vec![0; n];
    let groups = cs.grouped();
    for g in &groups {
        ensure!(!g.is_empty(), "empty group");
        let root = g[0].0;
        ensure!(list[root].parent.is_none(), "group begins with a child");
        for c in g {
            seen[c.0] += 1;
            ensure!(
                c.0 == root || ancestors(c.0).last() == Some(&root),
                "contour {} is in the group of {root}, which is not its root",
                c.0
            );
        }
    }
    ensure!(
        seen.iter().all(|x| *x == 1),
        "the groups do not contain every contour exactly once: {seen:?}"
    );

    // Geometry.
    let ps: Vec<Vec<Piece>> = list.iter().map(|c| pieces(&c.path)).collect();
    let boxes: Vec<Rect> = ps.iter().map(|p| bbox(p)).collect();
    for i in 0..n {
        let anc = ancestors(i);
        let mut decided = false;
        for p in side_points(s, &ps[i], tol, 12) {
            if within(input, p, tol) {
                continue;
            }
            ctx.probes += 1;
            let own = winding(&ps[i], p, tol * 0.05).unwrap_or(0);
            let want = if list[i].outer { 1 } else { -1 };
            ensure!(
                own == 0 || own == want,
                "contour {i} (outer={}) winds {own} times around ({}, {})",
                list[i].outer,
                p.x,
                p.y
            );
            if own == 0 {
                continue;
            }
            if !decided {
                decided = true;
                ctx.label(if list[i].outer { "outer" } else { "hole" });
                if anc.len() >= 2 {
                    ctx.label("nested-twice");
                }
                if anc.len() >= 3 {
                    ctx.label("nested-three-times");
                }
                if anc.is_empty() && i > 0 {
                    ctx.label("several-roots");
                }
            }
            for j in 0..n {
                if j == i {
                    continue;
                }
                let w = if boxes[j].inflate(tol, tol).contains(p) {
                    winding(&ps[j], p, tol * 0.05)
                } else {
                    Some(0)
                };
                let Some(w) = w else { continue };
                if anc.contains(&j) {
                    ensure!(
                        w != 0,
                        "contour {j} is an ancestor of {i} but does not contain the point ({}, {}) inside {i}",
                        p.x,
                        p.y
                    );
                } else if w != 0 {
                    ensure!(
                        ancestors(j).contains(&i),
                        "point ({}, {}) is inside contours {i} and {j}, but neither is an ancestor of the other",
                        p.x,
                        p.y
                    );
                }
            }
        }
        if decided {
            ctx.nontrivial = true;
        }
    }
    // The whole: 0 or 1 everywhere.
    let all: Vec<Piece> = ps.concat();
    for p in probe_points(s, input, tol, 25) {
        if within(input, p, tol) {
            continue;
        }
        if let Some(w) = winding(&all, p, tol * 0.05) {
            ctx.probes += 1;
            ensure!(
                w == 0 || w == 1,
                "the contours wind {w} times around ({}, {})",
                p.x,
                p.y
            );
        }
    }
    Ok(())
}

fn c03(s: &mut Src, ctx: &mut Ctx, o: Opts) -> Res {
    let c = pair_case(s, o);
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    ctx.describe(format!("{} rule={rule:?} op={op:?}", c.show()));
    label_case(ctx, &c);
    let out = run_op(&c, rule, op)?;
    let all = join(&[&pieces(&c.a), &pieces(&c.b)]);
    check_contours(s, ctx, &out, &all, c.tol())
}
fn c03_std(s: &mut Src, ctx: &mut Ctx) -> Res {
    c03(s, ctx, COARSE)
}
fn c03_auto(s: &mut Src, ctx: &mut Ctx) -> Res {
    c03(s, ctx, AUTO)
}
fn c03_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    c03(
        s,
        ctx,
        Opts {
            min_shapes: 4,
            max_shapes: 10,
            ..COARSE
        },
    )
}

/// Squares (and diamonds, circles) in rings: deep nesting, touching children.
fn c03_nested(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut paths = [BezPath::new(), BezPath::new()];
    fn ring(s: &mut Src, out: &mut [BezPath; 2], r: Rect, depth: u32) {
        let k = s.below(5);
        let mut p = BezPath::new();
        match k {
            0 => {
                let c = r.center();
                p.move_to((c.x, r.y0));
                p.line_to((r.x1, c.y));
                p.line_to((c.x, r.y1));
                p.line_to((r.x0, c.y));
                p.close_path();
            }
            1 => {
                let c = r.center();
                let kk = 0.5522847498307936;
                let (rx, ry) = (r.width() / 2.0, r.height() / 2.0);
                let q = |x: f64, y: f64| Point::new(c.x + rx * x, c.y + ry * y);
                p.move_to(q(1.0, 0.0));
                p.curve_to(q(1.0, kk), q(kk, 1.0), q(0.0, 1.0));
                p.curve_to(q(-kk, 1.0), q(-1.0, kk), q(-1.0, 0.0));
                p.curve_to(q(-1.0, -kk), q(-kk, -1.0), q(0.0, -1.0));
                p.curve_to(q(kk, -1.0), q(1.0, -kk), q(1.0, 0.0));
                p.close_path();
            }
            _ => p = rect_path(r),
        }
        if s.bool() {
            p = reverse_path(&p);
        }
        let w = s.below(2) as usize;
        out[w].extend(p.elements().iter().copied());
        if depth == 0 {
            return;
        }
        // children: in a grid of cells inside, sometimes touching the walls
        let nx = s.range(1, 3);
        let ny = s.range(1, 2);
        let m = if k < 2 { 0.3 } else { *s.pick(&[0.0, 0.1, 0.2]) };
        let (w, h) = (
            r.width() * (1.0 - 2.0 * m) / nx as f64,
            r.height() * (1.0 - 2.0 * m) / ny as f64,
        );
        if w < 0.5 || h < 0.5 {
            return;
        }
        for i in 0..nx {
            for j in 0..ny {
                if s.chance(3, 4) {
                    let g = *s.pick(&[0.0, 0.05, 0.1]);
                    let x = r.x0 + r.width() * m + i as f64 * w;
                    let y = r.y0 + r.height() * m + j as f64 * h;
                    let rr = Rect::new(x + g * w, y + g * h, x + w - g * w, y + h - g * h);
                    ring(s, out, rr, depth - 1);
                }
            }
        }
    }
    let depth = s.range(1, 4) as u32;
    ring(s, &mut paths, Rect::new(0.0, 0.0, 100.0, 80.0), depth);
    let [a, b] = paths;
    let rule = if s.chance(3, 4) {
        FillRule::EvenOdd
    } else {
        FillRule::NonZero
    };
    let op = *s.pick(&[BinaryOp::Xor, BinaryOp::Union, BinaryOp::Difference, BinaryOp::Intersection]);
    let f = if s.bool() {
        Frame::identity()
    } else {
        Frame {
            rot: s.f64(0.0, 1.5),
            ..Frame::identity()
        }
    };
    let (a, b) = (f.map_path(&a), f.map_path(&b));
    let eps = 1e-4;
    let mag = magnitude(&[&a, &b]);
    let c = PairCase {
        a,
        b,
        eps: eps * s.range(1, 20) as f64,
        auto: false,
        mag,
        classes: vec![],
    };
    ctx.describe(format!("{} rule={rule:?} op={op:?}", c.show()));
    let out = run_op(&c, rule, op)?;
    let all = join(&[&pieces(&c.a), &pieces(&c.b)]);
    check_contours(s, ctx, &out, &all, c.tol())
}

/// Cells of a grid, in an exact affine image: corners touch exactly, and nothing else comes near.
fn c03_cells(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (w, h) = (s.range(2, 9), s.range(2, 9));
    let shear = s.range(-2, 2) as f64;
    let tilt = if s.bool() { 0.0 } else { s.range(-2, 2) as f64 };
    let scale = (2.0f64).powi(s.range(-4, 4) as i32);
    let (ox, oy) = (s.range(-9, 9) as f64, s.range(-9, 9) as f64);
    let f = |x: i64, y: i64| {
        let (x, y) = (x as f64, y as f64);
        let x = x + shear * y;
        Point::new((x + ox) * scale, (y + tilt * x + oy) * scale)
    };
    let density = s.range(1, 4) as u64;
    let mut paths = [BezPath::new(), BezPath::new()];
    for x in 0..w {
        for y in 0..h {
            for p in &mut paths {
                if s.chance(density, 5) {
                    let mut c = [f(x, y), f(x + 1, y), f(x + 1, y + 1), f(x, y + 1)];
                    c.rotate_left(s.below(4) as usize);
                    if s.chance(1, 8) {
                        c.reverse();
                    }
                    p.move_to(c[0]);
                    for q in &c[1..] {
                        p.line_to(*q);
                    }
                    p.close_path();
                }
            }
        }
    }
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    let [a, b] = paths;
    let mag = magnitude(&[&a, &b]).max(1e-9);
    let c = PairCase {
        eps: 1e-4 * scale * s.range(1, 100) as f64,
        a,
        b,
        auto: false,
        mag,
        classes: vec![],
    };
    ctx.describe(format!("{} rule={rule:?} op={op:?}", c.show()));
    let out = run_op(&c, rule, op)?;
    let all = join(&[&pieces(&c.a), &pieces(&c.b)]);
    check_simple(&out)?;
    check_contours(s, ctx, &out, &all, c.tol())
}

pub fn c03_prop() -> Prop {
    Prop {
        id: "C03",
        rule: "a case counts when at least one contour had a decided probe strictly inside it (nesting, orientation and ancestors are judged there)",
        parts: &[
            ("std", c03_std, 120000, 1500000),
            ("auto", c03_auto, 40000, 400000),
            ("many", c03_many, 6000, 60000),
            ("cells", c03_cells, 40000, 800000),
            ("nested", c03_nested, 40000, 500000),
        ],
        assumptions: &[
            "nesting and orientation are judged at points farther than 6 tolerances from every input curve; slivers thinner than that are only checked for closedness and the parent/outer bookkeeping",
        ],
    }
}

// ---------------------------------------------------------------- C04

/// Area enclosed (each point counted with its winding number).
fn area(ps: &[Piece]) -> f64 {
    let o = bbox(ps).center();
    -signed_area(ps, o)
}

fn c04(s: &mut Src, ctx: &mut Ctx, o: Opts) -> Res {
    let c = pair_case(s, o);
    let rule = *s.pick(&RULES);
    ctx.describe(format!("{} rule={rule:?}", c.show()));
    label_case(ctx, &c);
    let run = |a: &BezPath, b: &BezPath, op| -> Result<Vec<Piece>, String> {
        let r = if c.auto {
            binary_op(a, b, rule, op)
        } else {
            binary_op_with_eps(a, b, rule, op, c.eps)
        };
        r.map(|r| contour_pieces(&r)).map_err(|e| format!("{e:?}"))
    };
    use BinaryOp::*;
    let empty = BezPath::new();
    let (pa, pb) = (pieces(&c.a), pieces(&c.b));
    let all = join(&[&pa, &pb]);
    let len = poly_length(&all);
    // Both sides of a law may move every boundary by the tolerance.
    let slack = 2.0 * (len + 20.0 * c.tol() * (all.len() as f64 + 2.0)) * c.tol();
    let na = run(&c.a, &empty, Union)?;
    let nb = run(&empty, &c.b, Union)?;
    let u = run(&c.a, &c.b, Union)?;
    let i = run(&c.a, &c.b, Intersection)?;
    let d = run(&c.a, &c.b, Difference)?;
    let x = run(&c.a, &c.b, Xor)?;
    let (aa, ab, au, ai, ad, ax) = (area(&na), area(&nb), area(&u), area(&i), area(&d), area(&x));
    let close = |name: &str, l: f64, r: f64| -> Res {
        ensure!(
            (l - r).abs() <= slack,
            "{name}: {l} vs {r}, allowed difference {slack:e}"
        );
        Ok(())
    };
    for (n, v) in [("A", aa), ("B", ab), ("union", au), ("intersection", ai), ("difference", ad), ("xor", ax)] {
        ensure!(v >= -slack, "negative area {v} of {n}");
    }
    close("area(A|B) + area(A&B) = area(A) + area(B)", au + ai, aa + ab)?;
    close("area(A-B) = area(A) - area(A&B)", ad, aa - ai)?;
    close("area(A^B) = area(A|B) - area(A&B)", ax, au - ai)?;
    close("area(A|B) = area(B) + area(A-B)", au, ab + ad)?;
    // Symmetry and idempotence, with areas.
    let law = s.below(8);
    match law {
        0 => close("area(B|A) = area(A|B)", area(&run(&c.b, &c.a, Union)?), au)?,
        1 => close("area(B&A) = area(A&B)", area(&run(&c.b, &c.a, Intersection)?), ai)?,
        2 => close("area(B^A) = area(A^B)", area(&run(&c.b, &c.a, Xor)?), ax)?,
        3 => close("area(A&A) = area(A)", area(&run(&c.a, &c.a, Intersection)?), aa)?,
        4 => close("area(A|A) = area(A)", area(&run(&c.a, &c.a, Union)?), aa)?,
        5 => close("area(A^A) = 0", area(&run(&c.a, &c.a, Xor)?), 0.0)?,
        6 => close("area(A-A) = 0", area(&run(&c.a, &c.a, Difference)?), 0.0)?,
        _ => {
            close("area(A&0) = 0", area(&run(&c.a, &empty, Intersection)?), 0.0)?;
            close("area(0-A) = 0", area(&run(&empty, &c.a, Difference)?), 0.0)?;
            close("area(A^0) = area(A)", area(&run(&c.a, &empty, Xor)?), aa)?;
            close("area(A-0) = area(A)", area(&run(&c.a, &empty, Difference)?), aa)?;
        }
    }
    // The laws hold pointwise too.
    for p in probe_points(s, &all, c.tol(), 20) {
        if within(&all, p, c.tol()) {
            continue;
        }
        let f = |ps: &[Piece]| winding(ps, p, c.tol() * 0.05).map(|w| w != 0);
        let (Some(a), Some(b), Some(u), Some(i), Some(d), Some(x)) =
            (f(&na), f(&nb), f(&u), f(&i), f(&d), f(&x))
        else {
            return Err(format!("an output curve passes through ({}, {})", p.x, p.y));
        };
        ctx.probes += 1;
        ensure!(
            u == (a || b) && i == (a && b) && d == (a && !b) && x == (a != b),
            "at ({}, {}): in A {a}, in B {b}, but union {u}, intersection {i}, difference {d}, xor {x}",
            p.x,
            p.y
        );
    }
    if ai > 4.0 * slack && ad > 4.0 * slack {
        ctx.nontrivial = true;
    }
    Ok(())
}
fn c04_std(s: &mut Src, ctx: &mut Ctx) -> Res {
    c04(s, ctx, COARSE)
}
fn c04_auto(s: &mut Src, ctx: &mut Ctx) -> Res {
    c04(s, ctx, AUTO)
}
fn c04_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    c04(
        s,
        ctx,
        Opts {
            min_shapes: 3,
            max_shapes: 10,
            ..COARSE
        },
    )
}

/// Results fed back in: re-normalising changes nothing, and (A|B)-B, (A-B)|(A&B) etc. come out.
fn c04_nested(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = pair_case(s, COARSE);
    let rule = *s.pick(&RULES);
    let out_rule = *s.pick(&RULES);
    ctx.describe(format!("{} rule={rule:?} second-rule={out_rule:?}", c.show()));
    label_case(ctx, &c);
    let run = |a: &BezPath, b: &BezPath, rule, op| -> Result<BezPath, String> {
        let r = binary_op_with_eps(a, b, rule, op, c.eps).map_err(|e| format!("{e:?}"))?;
        let mut p = BezPath::new();
        for k in r.contours() {
            p.extend(k.path.elements().iter().copied());
        }
        Ok(p)
    };
    use BinaryOp::*;
    let empty = BezPath::new();
    let na = run(&c.a, &empty, rule, Union)?;
    let nb = run(&c.b, &empty, rule, Union)?;
    let (l, r, name) = match s.below(6) {
        // The output means the same under both fill rules.
        0 => {
            let op = *s.pick(&OPS);
            let x = run(&c.a, &c.b, rule, op)?;
            (run(&x, &empty, out_rule, Union)?, x, "normalising a result changes nothing")
        }
        1 => {
            let u = run(&c.a, &c.b, rule, Union)?;
            (
                run(&u, &nb, out_rule, Difference)?,
                run(&c.a, &c.b, rule, Difference)?,
                "(A|B)-B = A-B",
            )
        }
        2 => {
            let d = run(&c.a, &c.b, rule, Difference)?;
            let i = run(&c.a, &c.b, rule, Intersection)?;
            (run(&d, &i, out_rule, Union)?, na, "(A-B)|(A&B) = A")
        }
        3 => {
            let x = run(&c.a, &c.b, rule, Xor)?;
            (run(&x, &nb, out_rule, Xor)?, na, "(A^B)^B = A")
        }
        4 => {
            // De Morgan inside a frame.
            let bb = bbox(&join(&[&pieces(&c.a), &pieces(&c.b)])).inflate(0.1 * c.mag + 1.0, 0.1 * c.mag + 1.0);
            let f = rect_path(bb);
            let ca = run(&f, &na, out_rule, Difference)?;
            let cb = run(&f, &nb, out_rule, Difference)?;
            let u = run(&c.a, &c.b, rule, Union)?;
            (
                run(&ca, &cb, out_rule, Intersection)?,
                run(&f, &u, out_rule, Difference)?,
                "complement(A) & complement(B) = complement(A|B)",
            )
        }
        _ => {
            let u = run(&c.a, &c.b, rule, Union)?;
            let i = run(&c.a, &c.b, rule, Intersection)?;
            (
                run(&u, &i, out_rule, Difference)?,
                run(&c.a, &c.b, rule, Xor)?,
                "(A|B)-(A&B) = A^B",
            )
        }
    };
    let (pl, pr) = (pieces(&l), pieces(&r));
    let all = join(&[&pieces(&c.a), &pieces(&c.b)]);
    let tol = 3.0 * c.tol();
    for p in probe_points(s, &all, tol, 30) {
        if within(&all, p, tol) {
            continue;
        }
        let (Some(wl), Some(wr)) = (winding(&pl, p, c.eps * 0.1), winding(&pr, p, c.eps * 0.1)) else {
            continue;
        };
        ctx.probes += 1;
        if wl != 0 {
            ctx.nontrivial = true;
        }
        ensure!(
            (wl != 0) == (wr != 0),
            "{name} fails at ({}, {}): {wl} vs {wr}",
            p.x,
            p.y
        );
    }
    Ok(())
}

pub fn c04_prop() -> Prop {
    Prop {
        id: "C04",
        rule: "a case counts when the intersection and the difference both have an area clearly above the tolerance (part nested: when a probe inside the result was decided)",
        parts: &[
            ("std", c04_std, 30000, 800000),
            ("auto", c04_auto, 12000, 200000),
            ("many", c04_many, 1500, 40000),
            ("nested", c04_nested, 25000, 600000),
        ],
        assumptions: &[
            "areas are compared up to (total input length) x 16 tolerances; the reference areas come from the library's own normalisation of each operand, which C01 judges separately",
        ],
    }
}

// ---------------------------------------------------------------- C08

fn breaks_closure(s: &mut Src, p: &BezPath) -> Option<(BezPath, Point, Point)> {
    // Turns one subpath into an open one (drops its closing) and reports its ends.
    let subs = subpaths(p);
    let k = s.below(subs.len().max(1) as u64) as usize;
    let sub = subs.get(k)?;
    if sub.len() < 2 {
        return None;
    }
    let mut out = BezPath::new();
    let mut ends = None;
    for (i, sb) in subs.iter().enumerate() {
        let mut sb = sb.clone();
        if i == k {
            sb.pop();
            let (a, b) = (sb[0].p_start(), sb.last().unwrap().p_end());
            if a == b {
                return None;
            }
            ends = Some((a, b));
        }
        out.move_to(sb[0].p_start());
        for q in &sb {
            match *q {
                kurbo::PathSeg::Line(l) => out.line_to(l.p1),
                kurbo::PathSeg::Quad(q) => out.quad_to(q.p1, q.p2),
                kurbo::PathSeg::Cubic(c) => out.curve_to(c.p1, c.p2, c.p3),
            }
        }
        if i != k {
            out.close_path();
        }
    }
    let (a, b) = ends?;
    Some((out, a, b))
}

/// Replaces one number of the path.
fn poison(s: &mut Src, p: &BezPath, v: f64) -> Option<BezPath> {
    let mut els = p.elements().to_vec();
    let idx: Vec<usize> = (0..els.len())
        .filter(|i| !matches!(els[*i], PathEl::ClosePath))
        .collect();
    if idx.is_empty() {
        return None;
    }
    let i = *s.pick(&idx);
    let y = s.bool();
    let set = |q: &mut Point| {
        if y {
            q.y = v
        } else {
            q.x = v
        }
    };
    let k = s.below(3);
    match &mut els[i] {
        PathEl::MoveTo(a) | PathEl::LineTo(a) => set(a),
        PathEl::QuadTo(a, b) => set(if k == 0 { a } else { b }),
        PathEl::CurveTo(a, b, c) => set(match k {
            0 => a,
            1 => b,
            _ => c,
        }),
        PathEl::ClosePath => {}
    }
    Some(BezPath::from_vec(els))
}

fn c08_open(s: &mut Src, ctx: &mut Ctx) -> Res {
    let auto = s.bool();
    let c = pair_case(s, if auto { AUTO } else { COARSE });
    let second = s.bool();
    let Some((bad, start, end)) = breaks_closure(s, if second { &c.b } else { &c.a }) else {
        return Ok(());
    };
    let (a, b) = if second { (&c.a, &bad) } else { (&bad, &c.b) };
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    ctx.describe(format!(
        "a=\"{}\" b=\"{}\" eps={:e} rule={rule:?} op={op:?}",
        a.to_svg(),
        b.to_svg(),
        c.eps
    ));
    ctx.nontrivial = true;
    ctx.probes += 1;
    let r = if c.auto {
        binary_op(a, b, rule, op)
    } else {
        binary_op_with_eps(a, b, rule, op, c.eps)
    };
    match r {
        Ok(_) => Err("an open path was accepted".into()),
        Err(Error::NonClosedPath(e)) => {
            ensure!(
                e.start_point == start && e.end_point == end,
                "the error names {:?} -> {:?}, but the open subpath goes {start:?} -> {end:?}",
                e.start_point,
                e.end_point
            );
            let t = Topology::from_paths([(a, true), (b, false)], c.eps)
                .map(|_: Topology<linesweeper::topology::BinaryWindingNumber>| ());
            ensure!(t.as_ref() == Err(&e), "the topology reports {t:?} instead of {e:?}");
            let t = Topology::from_path(&bad, c.eps).map(|_| ());
            ensure!(t.as_ref() == Err(&e), "the topology of this path alone reports {t:?} instead of {e:?}");
            let r = linesweeper::Segments::default().add_bez_path(&bad);
            ensure!(r.as_ref() == Err(&e), "the arena reports {r:?} instead of {e:?}");
            let r = linesweeper::Segments::default().add_non_closed_bez_path(&bad);
            ensure!(r.is_ok(), "the arena rejects the open path: {r:?}");
            Ok(())
        }
        Err(e) => Err(format!("an open path was reported as {e:?}")),
    }
}

fn c08_nonfinite(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = pair_case(s, AUTO);
    let v = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    let second = s.bool();
    let Some(bad) = poison(s, if second { &c.b } else { &c.a }, v) else {
        return Ok(());
    };
    let (a, b) = if second { (&c.a, &bad) } else { (&bad, &c.b) };
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    ctx.describe(format!("a=\"{}\" b=\"{}\" rule={rule:?} op={op:?}", a.to_svg(), b.to_svg()));
    ctx.label(if v.is_nan() { "nan" } else { "infinity" });
    ctx.nontrivial = true;
    ctx.probes += 1;
    let r = if s.bool() {
        binary_op(a, b, rule, op)
    } else {
        binary_op_with_eps(a, b, rule, op, c.eps)
    };
    match r {
        Ok(_) => Err(format!("{v} was accepted")),
        Err(Error::NaN) if v.is_nan() => Ok(()),
        Err(Error::Infinity) if v.is_infinite() => Ok(()),
        Err(e) => Err(format!("{v} was reported as {e:?}")),
    }
}

/// Well-formed but odd inputs: must be accepted and not panic.
fn c08_odd(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut g = Gen::new(s);
    g.tiny = 1e-6;
    let mut paths = vec![];
    for _ in 0..2 {
        let mut p = BezPath::new();
        for _ in 0..g.s.usize(0, 3) {
            let q = match g.s.below(4) {
                0 => g.shape(),
                1 => g.sliver(),
                2 => {
                    // all points from a tiny pool: everything overlaps
                    let n = g.s.usize(2, 9);
                    let k = g.s.usize(1, 3);
                    let pool: Vec<Point> = (0..k).map(|_| g.pt()).collect();
                    let mut q = BezPath::new();
                    q.move_to(pool[0]);
                    for _ in 0..n {
                        let t = |g: &mut Gen| *g.s.pick(&pool);
                        match g.s.below(3) {
                            0 => q.line_to(t(&mut g)),
                            1 => q.quad_to(t(&mut g), t(&mut g)),
                            _ => q.curve_to(t(&mut g), t(&mut g), t(&mut g)),
                        }
                    }
                    q.close_path();
                    q
                }
                _ => g.degenerate(),
            };
            p.extend(q.elements().iter().copied());
        }
        paths.push(p);
    }
    let scale = 10f64.powi(g.s.range(-3, 4) as i32);
    let f = Frame {
        scale,
        ..Frame::identity()
    };
    let (a, b) = (f.map_path(&paths[0]), f.map_path(&paths[1]));
    let rel = *s.pick(&[1e-6, 1e-4, 1e-2, 0.1, 1.0]);
    let mag = magnitude(&[&a, &b]);
    let auto = s.chance(1, 3);
    let eps = if auto { auto_eps(&[&a, &b]) } else { (rel * mag).max(1e-9) };
    let c = PairCase { a, b, eps, auto, mag, classes: vec![] };
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    ctx.describe(format!("{} rule={rule:?} op={op:?}", c.show()));
    let out = run_op(&c, rule, op)?;
    ctx.probes += 1;
    ctx.nontrivial = !c.a.elements().is_empty() || !c.b.elements().is_empty();
    for k in out.contours() {
        check_closed(&k.path)?;
    }
    out.grouped();
    Ok(())
}

pub fn c08_prop() -> Prop {
    Prop {
        id: "C08",
        rule: "a case counts when it reached the library with an open, non-finite or odd (degenerate, overlapping, huge-tolerance) input",
        parts: &[
            ("open", c08_open, 160000, 800000),
            ("nonfinite", c08_nonfinite, 240000, 1000000),
            ("odd", c08_odd, 160000, 1000000),
        ],
        assumptions: &["every generated path has at most one non-finite number; infinite loops are reported as no answer, not as a violation"],
    }
}

// ---------------------------------------------------------------- C20

fn c20(s: &mut Src, ctx: &mut Ctx, o: Opts) -> Res {
    let c = pair_case(s, o);
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    let k = s.below(9);
    let mut eps = c.eps;
    let mut back = Affine::IDENTITY;
    let both = |f: &dyn Fn(&BezPath) -> BezPath| (f(&c.a), f(&c.b));
    let affine = |m: Affine| (m * c.a.clone(), m * c.b.clone());
    let center = bbox(&join(&[&pieces(&c.a), &pieces(&c.b)])).center();
    let ((a2, b2), name) = match k {
        0 => (both(&reverse_path), "reversing the direction of every path"),
        1 => {
            let r = s.below(64);
            (
                both(&|p| {
                    let mut subs = subpaths(p);
                    let n = subs.len().max(1);
                    subs.rotate_left(r as usize % n);
                    subs.reverse();
                    subpaths_to_path(&subs)
                }),
                "reordering the subpaths",
            )
        }
        2 => {
            let r = s.below(64);
            (
                both(&|p| {
                    let mut subs = subpaths(p);
                    for sub in &mut subs {
                        let n = sub.len().max(1);
                        sub.rotate_left(r as usize % n);
                    }
                    subpaths_to_path(&subs)
                }),
                "starting the subpaths elsewhere",
            )
        }
        3 => {
            let n = 1 + s.below(4) as usize;
            (both(&|p| split_path(p, n)), "splitting segments")
        }
        4 => (both(&|p| elevate(p)), "raising the degree of segments"),
        5 => {
            let m = Affine::new([-1.0, 0.0, 0.0, 1.0, 2.0 * center.x, 0.0]);
            back = m.inverse();
            (affine(m), "mirroring left-right")
        }
        6 => {
            let m = Affine::new([1.0, 0.0, 0.0, -1.0, 0.0, 2.0 * center.y]);
            back = m.inverse();
            (affine(m), "mirroring top-bottom")
        }
        7 => {
            // swap x and y
            let m = Affine::new([0.0, 1.0, 1.0, 0.0, 0.0, 0.0]);
            back = m;
            (affine(m), "transposing")
        }
        _ => {
            let f = 2f64.powi(s.range(-4, 4) as i32);
            let m = Affine::scale(f);
            back = m.inverse();
            eps *= f;
            (affine(m), "scaling by a power of two")
        }
    };
    ctx.label(name);
    label_case(ctx, &c);
    ctx.describe(format!(
        "{name}: {} -> a=\"{}\" b=\"{}\" eps={eps:e} rule={rule:?} op={op:?}",
        c.show(),
        a2.to_svg(),
        b2.to_svg()
    ));
    let r1 = binary_op_with_eps(&c.a, &c.b, rule, op, c.eps).map_err(|e| format!("{e:?}"))?;
    let r2 = binary_op_with_eps(&a2, &b2, rule, op, eps).map_err(|e| format!("{e:?}"))?;
    let p1 = contour_pieces(&r1);
    let p2: Vec<Piece> = r2
        .contours()
        .flat_map(|k| pieces(&(back * k.path.clone())))
        .collect();
    let all = join(&[&pieces(&c.a), &pieces(&c.b)]);
    let tol = c.tol();
    let slack = 2.0 * (poly_length(&all) + 20.0 * tol * (all.len() as f64 + 2.0)) * tol;
    let (mut s1, s2) = (area(&p1), area(&p2));
    // A reflection turns the interior to the right.
    if (5..=7).contains(&k) {
        s1 = -s1;
    }
    ensure!(
        (s1 - s2).abs() <= slack,
        "{name} changes the area of the result from {s1} to {s2} (allowed difference {slack:e})"
    );
    if area(&p1).abs() > 4.0 * slack {
        ctx.nontrivial = true;
    }
    for p in probe_points(s, &all, tol, 25) {
        if within(&all, p, tol) {
            continue;
        }
        let (Some(w1), Some(w2)) = (winding(&p1, p, tol * 0.05), winding(&p2, p, tol * 0.05)) else {
            return Err(format!("an output curve passes through ({}, {})", p.x, p.y));
        };
        ctx.probes += 1;
        ensure!(
            (w1 != 0) == (w2 != 0),
            "{name} changes whether ({}, {}) is in the result: {w1} vs {w2}",
            p.x,
            p.y
        );
    }
    Ok(())
}

/// The same path with quadratics written as cubics (and lines as degenerate quadratics).
fn elevate(p: &BezPath) -> BezPath {
    let mut subs = subpaths(p);
    for sub in &mut subs {
        for (i, q) in sub.iter_mut().enumerate() {
            *q = match *q {
                kurbo::PathSeg::Line(l) if i % 2 == 0 => {
                    kurbo::QuadBez::new(l.p0, l.p0.midpoint(l.p1), l.p1).into()
                }
                kurbo::PathSeg::Line(l) => kurbo::CubicBez::new(
                    l.p0,
                    l.p0.lerp(l.p1, 1.0 / 3.0),
                    l.p0.lerp(l.p1, 2.0 / 3.0),
                    l.p1,
                )
                .into(),
                kurbo::PathSeg::Quad(q) => q.raise().into(),
                c => c,
            };
        }
    }
    subpaths_to_path(&subs)
}

fn c20_std(s: &mut Src, ctx: &mut Ctx) -> Res {
    c20(s, ctx, COARSE)
}
fn c20_auto(s: &mut Src, ctx: &mut Ctx) -> Res {
    c20(s, ctx, AUTO)
}

pub fn c20_prop() -> Prop {
    Prop {
        id: "C20",
        rule: "a case counts when the result has an area clearly above the tolerance",
        parts: &[("std", c20_std, 100000, 1200000), ("auto", c20_auto, 50000, 400000)],
        assumptions: &["the two results are compared away from the input curves and by area, not element by element"],
    }
}

// ---------------------------------------------------------------- C21

fn same(a: &Contours, b: &Contours) -> Res {
    let (x, y): (Vec<_>, Vec<_>) = (a.contours().collect(), b.contours().collect());
    ensure!(x.len() == y.len(), "{} contours, then {}", x.len(), y.len());
    for (i, (p, q)) in x.iter().zip(&y).enumerate() {
        ensure!(
            p.path.elements() == q.path.elements(),
            "contour {i} differs: {} then {}",
            p.path.to_svg(),
            q.path.to_svg()
        );
        ensure!(
            p.parent == q.parent && p.outer == q.outer,
            "nesting of contour {i} differs"
        );
    }
    Ok(())
}

fn c21(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = *s.pick(&[COARSE, AUTO]);
    let c = pair_case(s, o);
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    ctx.describe(format!("{} rule={rule:?} op={op:?}", c.show()));
    label_case(ctx, &c);
    let r1 = run_op(&c, rule, op)?;
    // Something else in between, then again; and on another thread.
    let o2 = run_op(&c, *s.pick(&RULES), *s.pick(&OPS))?;
    drop(o2);
    let r2 = run_op(&c, rule, op)?;
    same(&r1, &r2)?;
    if s.chance(1, 8) {
        ctx.label("other-thread");
        let r3 = std::thread::scope(|sc| sc.spawn(|| run_op(&c, rule, op)).join())
            .map_err(|_| "panic on another thread".to_string())??;
        same(&r1, &r3)?;
    }
    // One topology serves every operation, in any order, with the same result.
    let t = Topology::from_paths_binary(&c.a, &c.b, c.eps).map_err(|e| format!("{e:?}"))?;
    let ins = |w: &linesweeper::topology::BinaryWindingNumber| {
        combine(op, inside(rule, w.shape_a), inside(rule, w.shape_b))
    };
    let _ = t.contours(|w| w.shape_b != 0);
    same(&r1, &t.contours(ins))?;
    same(&r1, &t.clone().contours(ins))?;
    ctx.probes += 1;
    ctx.nontrivial = r1.contours().next().is_some();
    Ok(())
}

pub fn c21_prop() -> Prop {
    Prop {
        id: "C21",
        rule: "a case counts when the result is not empty",
        parts: &[("repeat", c21, 40000, 800000)],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------- C22

/// Parameters strictly inside (0, 1) where the height turns around.
fn y_splits(p: &Piece) -> Vec<f64> {
    if p.line {
        return vec![];
    }
    let c = &p.c;
    let (a, b, d) = (c.p1.y - c.p0.y, c.p2.y - c.p1.y, c.p3.y - c.p2.y);
    let (qa, qb, qc) = (a - 2.0 * b + d, 2.0 * (b - a), a);
    let disc = qb * qb - 4.0 * qa * qc;
    let mut v = vec![];
    if disc > 0.0 {
        let q = -0.5 * (qb + disc.sqrt().copysign(qb));
        for t in [q / qa, qc / q] {
            if t > 0.0 && t < 1.0 {
                v.push(t);
            }
        }
    }
    v.sort_by(f64::total_cmp);
    v
}

/// Closed curves, each star-shaped around its own center in a cell of its own.
fn c22(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.usize(1, 6);
    let cell = 10.0;
    let scale = *s.pick(&[1.0, 1.0, 0.5, 16.0, 100.0]);
    let off = Vec2::new(s.f64(-50.0, 50.0), s.f64(-50.0, 50.0));
    let mut a = BezPath::new();
    let mut b = BezPath::new();
    let mut inputs: Vec<Vec<kurbo::PathSeg>> = vec![];
    for i in 0..n {
        let c = Point::new((i % 3) as f64 * cell, (i / 3) as f64 * cell);
        let k = s.usize(3, 7);
        let rot = s.f64(0.0, std::f64::consts::TAU);
        // 3k control polygon vertices at increasing angles.
        let m = 3 * k;
        let rmin = *s.pick(&[3.9, 3.3, 2.5, 1.5]);
        let smooth = s.bool();
        let mut pts: Vec<Point> = (0..m)
            .map(|j| {
                let ang = rot + (j as f64 + s.f64(-0.25, 0.25)) / m as f64 * std::f64::consts::TAU;
                let r = s.f64(rmin, 4.5);
                let p = c + Vec2::new(ang.cos(), ang.sin()) * r;
                Point::new(p.x * scale, p.y * scale) + off
            })
            .collect();
        if smooth {
            for j in (0..m).step_by(3) {
                pts[j] = pts[(j + m - 1) % m].midpoint(pts[j + 1]);
            }
        }
        let mut p = BezPath::new();
        p.move_to(pts[0]);
        let mut j = 0;
        while j < m {
            let e = |d: usize| pts[(j + d) % m];
            match s.weighted(if smooth { &[0, 0, 1] } else { &[1, 2, 4] }) {
                0 => {
                    p.line_to(e(3));
                }
                1 => {
                    let q = if s.bool() { e(1) } else { e(2) };
                    p.quad_to(q, e(3));
                }
                _ => p.curve_to(e(1), e(2), e(3)),
            }
            j += 3;
        }
        p.close_path();
        if s.bool() {
            p = reverse_path(&p);
        }
        inputs.extend(subpaths(&p));
        let dst = if s.bool() { &mut a } else { &mut b };
        dst.extend(p.elements().iter().copied());
    }
    let mag = magnitude(&[&a, &b]);
    let auto = s.bool();
    let eps = if auto {
        auto_eps(&[&a, &b])
    } else {
        mag * s.logf(1e-6, 1e-5)
    };
    let cse = PairCase { a, b, eps, auto, mag, classes: vec![] };
    let rule = *s.pick(&RULES);
    let op = *s.pick(&[BinaryOp::Union, BinaryOp::Xor]);
    ctx.describe(format!("{} rule={rule:?} op={op:?}", cse.show()));
    // Corners as sharp as the tolerance would make the curve come near itself.
    for sub in &inputs {
        for i in 0..sub.len() {
            let (p, q) = (piece_of(&sub[i]), piece_of(&sub[(i + 1) % sub.len()]));
            let u = (p.eval(0.999) - p.c.p3).normalize();
            let v = (q.eval(0.001) - q.c.p0).normalize();
            if u.dot(v) > 0.2 {
                ctx.label("sharp-corner-skipped");
                return Ok(());
            }
            // Neither may a monotone piece be as low as the tolerance.
            let mut last = 0.0;
            for t in y_splits(&p).into_iter().chain([1.0]) {
                if (p.eval(t).y - p.eval(last).y).abs() < 0.05 * scale {
                    ctx.label("flat-piece-skipped");
                    return Ok(());
                }
                last = t;
            }
        }
    }
    let out = run_op(&cse, rule, op)?;
    let outs: Vec<Vec<kurbo::PathSeg>> = out.contours().flat_map(|c| subpaths(&c.path)).collect();
    ensure!(
        outs.len() == inputs.len(),
        "{} separate closed curves came back as {} contours",
        inputs.len(),
        outs.len()
    );
    let tol = mag * 1e-6;
    let same_seg = |p: &kurbo::PathSeg, q: &kurbo::PathSeg| {
        let (c, d) = (piece_of(p).c, piece_of(q).c);
        [(c.p0, d.p0), (c.p1, d.p1), (c.p2, d.p2), (c.p3, d.p3)]
            .iter()
            .all(|(a, b)| (*a - *b).hypot() <= tol)
    };
    for (i, sub) in inputs.iter().enumerate() {
        let rev: Vec<kurbo::PathSeg> = sub.iter().rev().map(|s| s.reverse()).collect();
        let found = outs.iter().any(|o| {
            o.len() == sub.len()
                && [sub, &rev].iter().any(|want| {
                    (0..o.len()).any(|r| (0..o.len()).all(|j| same_seg(&want[j], &o[(j + r) % o.len()])))
                })
        });
        ctx.probes += 1;
        ensure!(
            found,
            "the closed curve {i} ({} segments), which comes near nothing, did not come back as the same segments; the result is {:?}",
            sub.len(),
            out.contours().map(|c| c.path.to_svg()).collect::<Vec<_>>()
        );
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn c22_prop() -> Prop {
    Prop {
        id: "C22",
        rule: "a case counts when its curves are simple, apart from each other and without very sharp corners (by construction star-shaped around the cell centers)",
        parts: &[("isolated", c22, 1600000, 4800000)],
        assumptions: &["control points are compared to within 1e-6 of the largest coordinate"],
    }
}

// ---------------------------------------------------------------- C23

fn c23(s: &mut Src, ctx: &mut Ctx) -> Res {
    let o = *s.pick(&[COARSE, AUTO]);
    let c = pair_case(s, o);
    ctx.describe(c.show());
    label_case(ctx, &c);
    let t = Topology::from_paths_binary(&c.a, &c.b, c.eps).map_err(|e| format!("{e:?}"))?;
    // Zero-length lines are not segments, and curves along a horizontal line are their chords.
    let all: Vec<Piece> = join(&[&pieces(&c.a), &pieces(&c.b)])
        .into_iter()
        .map(|p| if p.bbox.height() == 0.0 { Piece::new(p.c, true) } else { p })
        .filter(|p| !(p.c.p0 == p.c.p3 && p.line))
        .collect();
    let got = t.bounding_box();
    ctx.probes += 1;
    match tight_bbox(&all, c.mag * 1e-12) {
        None => ensure!(
            got.x0 > got.x1 && got.y0 > got.y1,
            "the bounding box of nothing is {got:?}"
        ),
        Some(want) => {
            ctx.nontrivial = want.width() > 0.0 && want.height() > 0.0;
            let tol = c.mag * 1e-7;
            ensure!(
                (got.x0 - want.x0).abs() <= tol
                    && (got.y0 - want.y0).abs() <= tol
                    && (got.x1 - want.x1).abs() <= tol
                    && (got.y1 - want.y1).abs() <= tol,
                "bounding box {got:?}, but the curves span {want:?}"
            );
            // Results stay within it.
            let big = got.inflate(c.tol(), c.tol());
            for k in t.contours(|w| w.shape_a != 0 || w.shape_b % 2 != 0).contours() {
                for q in pieces(&k.path) {
                    for i in 0..=4 {
                        let p = q.eval(i as f64 / 4.0);
                        ensure!(big.contains(p), "output point {p:?} is outside the bounding box {got:?}");
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn c23_prop() -> Prop {
    Prop {
        id: "C23",
        rule: "a case counts when the input spans a box of positive width and height",
        parts: &[("box", c23, 180000, 1500000)],
        assumptions: &["boxes are compared to within 1e-7 of the largest coordinate"],
    }
}
