//! The data structures: the segment arena (C09) and the tree vector (C18).

use crate::engine::{Ctx, Prop, Res, Src};
use crate::gen::*;
use crate::oracle::*;
use kurbo::{BezPath, ParamCurve, PathSeg, Point};
use linesweeper::treevec::TreeVec;
use linesweeper::{SegIdx, Segments};

// ---------------------------------------------------------------- C09

/// A subpath that was added.
struct Sub {
    segs: Vec<PathSeg>,
    /// `None`: closed if, and only if, its ends coincide.
    closed: Option<bool>,
}

fn polyline_segs(ps: &[Point], closed: bool) -> Vec<PathSeg> {
    let mut v: Vec<PathSeg> = ps.windows(2).map(|w| kurbo::Line::new(w[0], w[1]).into()).collect();
    if closed && ps.len() > 1 {
        v.push(kurbo::Line::new(ps[ps.len() - 1], ps[0]).into());
    }
    v
}

fn lib_points(ps: &[Point]) -> Vec<linesweeper::Point> {
    ps.iter().map(|p| linesweeper::Point::new(p.x, p.y)).collect()
}

fn open_subpath(g: &mut Gen) -> BezPath {
    let mut p = BezPath::new();
    p.move_to(g.pt());
    let n = g.s.usize(0, 5);
    for _ in 0..n {
        let k = if g.curves { g.s.weighted(&[2, 1, 2]) } else { 0 };
        let (a, b, c) = (g.pt(), g.pt(), g.pt());
        match k {
            0 => p.line_to(a),
            1 => p.quad_to(a, b),
            _ => p.curve_to(a, b, c),
        }
    }
    p
}

fn all_controls_level(seg: &PathSeg) -> bool {
    let c = seg.to_cubic();
    c.p0.y == c.p1.y && c.p1.y == c.p2.y && c.p2.y == c.p3.y
}

/// Are these pieces (in this order) the curve `seg`, up to rounding?
fn traces(seg: &PathSeg, chain: &[Piece], r: f64) -> Res {
    let whole = [piece_of(seg)];
    for (k, p) in chain.iter().enumerate() {
        for j in 1..8 {
            let q = p.eval(j as f64 / 8.0);
            ensure!(within(&whole, q, r), "piece {k} passes through {q:?}, off the added curve {seg:?}");
        }
    }
    let mut at = 0;
    for j in 0..=32 {
        let q = whole[0].eval(j as f64 / 32.0);
        while at < chain.len() && !within(&chain[at..at + 1], q, r) {
            at += 1;
        }
        ensure!(at < chain.len(), "the point {q:?} (at {}) of the added curve {seg:?} is not on its pieces {chain:?}", j as f64 / 32.0);
    }
    Ok(())
}

/// Does this chain of segments consist of pieces of the wanted curves, in order?
fn match_chain(arena: &Segments, want: &[&PathSeg], rest: &[SegIdx], r: f64) -> Res {
    let Some(&seg) = want.first() else {
        ensure!(rest.is_empty(), "there are {} more segments than were added", rest.len());
        return Ok(());
    };
    if all_controls_level(seg) && seg.start() == seg.end() {
        return match_chain(arena, &want[1..], rest, r);
    }
    // A loop that's as small as rounding may be left out.
    let c = seg.to_cubic();
    if c.p0 == c.p3 && (c.p1 - c.p0).hypot() + (c.p2 - c.p0).hypot() < 1e-6 * r {
        if let Ok(()) = match_chain(arena, &want[1..], rest, r) {
            return Ok(());
        }
    }
    ensure!(!rest.is_empty(), "there is no segment for {seg:?}");
    let level = all_controls_level(seg);
    let flat = !level && [c.p1, c.p2, c.p3].iter().all(|p| (p.y - c.p0.y).abs() < 1e-5 * r);
    let single = level || matches!(seg, PathSeg::Line(_));
    let mut res = Ok(());
    // (A curve may pass through its end before its end.)
    for n in 1..=if single { 1 } else { rest.len().min(3) } {
        let (a, b) = (arena.oriented_start(rest[0]).to_kurbo(), arena.oriented_end(rest[n - 1]).to_kurbo());
        if (a, b) != (seg.start(), seg.end()) {
            if res.is_ok() {
                res = Err(format!("{:?} goes from {a:?} to {b:?}, instead of {seg:?}", &rest[..n]));
            }
            continue;
        }
        if flat {
            // Becomes a chord, maybe in several pieces.
        } else if level {
            ensure!(arena[rest[0]].is_horizontal(), "{:?} isn't horizontal, but {seg:?} is", rest[0]);
        } else {
            let ps: Vec<Piece> = rest[..n].iter().map(|i| oriented_piece(arena, *i)).collect();
            if let Err(e) = traces(seg, &ps, r) {
                res = Err(e);
                continue;
            }
        }
        match match_chain(arena, &want[1..], &rest[n..], r) {
            Ok(()) => return Ok(()),
            Err(e) => res = Err(e),
        }
    }
    res
}

fn oriented_piece(arena: &Segments, i: SegIdx) -> Piece {
    let c = arena[i].to_kurbo_cubic();
    let c = if arena.positively_oriented(i) { c } else { kurbo::CubicBez::new(c.p3, c.p2, c.p1, c.p0) };
    Piece::new(c, arena[i].is_line())
}

fn c09(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut arena = Segments::default();
    let n = s.usize(1, 6);
    let frame = gen_frame(s);
    let mut g = Gen::new(s);
    g.tiny = *g.s.pick(&[1e-3, 1e-9, 1e-14]);
    let mut desc = vec![];
    let mut mag: f64 = 0.0;
    let mut seen_kinds = 0u32;
    let mut split = false;
    let mut boundaries: Vec<usize> = vec![0];
    let mut all_subs = 0;
    // What each call added: it must still be there at the end.
    let mut calls: Vec<(Vec<Sub>, usize)> = vec![];
    for _ in 0..n {
        let kind = g.s.weighted(&[2, 2, 1, 4, 3]);
        seen_kinds |= 1 << kind;
        let n0 = arena.len();
        let poly = |g: &mut Gen| -> Vec<Point> {
            let n = g.s.usize(0, 6);
            (0..n)
                .map(|_| {
                    let p = g.pt();
                    frame.map(p)
                })
                .collect()
        };
        let subs: Vec<Sub> = match kind {
            0 => {
                let ps = poly(&mut g);
                desc.push(format!("points {ps:?}"));
                arena.add_points(lib_points(&ps));
                vec![Sub { segs: polyline_segs(&ps, false), closed: Some(false) }]
            }
            1 => {
                let ps = poly(&mut g);
                desc.push(format!("polyline {ps:?}"));
                arena.add_closed_polyline(lib_points(&ps));
                vec![Sub { segs: polyline_segs(&ps, true), closed: Some(true) }]
            }
            2 => {
                let k = g.s.usize(0, 3);
                let lines: Vec<Vec<Point>> = (0..k).map(|_| poly(&mut g)).collect();
                desc.push(format!("polylines {lines:?}"));
                arena.add_closed_polylines(lines.iter().map(|l| lib_points(l)));
                lines.iter().map(|l| Sub { segs: polyline_segs(l, true), closed: Some(true) }).collect()
            }
            3 => {
                let k = g.s.usize(1, 2);
                let p = frame.map_path(&g.shapes_path(k));
                desc.push(format!("closed {}", p.to_svg()));
                if let Err(e) = arena.add_bez_path(&p) {
                    return Err(format!("a closed path is rejected: {e:?}"));
                }
                subpaths(&p).into_iter().map(|segs| Sub { segs, closed: Some(true) }).collect()
            }
            _ => {
                let mut p = BezPath::new();
                let k = g.s.usize(1, 3);
                for _ in 0..k {
                    let q = if g.s.chance(1, 3) { g.shape() } else { open_subpath(&mut g) };
                    p.extend(q.elements().iter().copied());
                }
                let p = frame.map_path(&p);
                desc.push(format!("open {}", p.to_svg()));
                if let Err(e) = arena.add_non_closed_bez_path(&p) {
                    return Err(format!("an open path is rejected: {e:?}"));
                }
                subpaths(&p).into_iter().map(|segs| Sub { segs, closed: None }).collect()
            }
        };
        for sub in &subs {
            for seg in &sub.segs {
                let c = seg.to_cubic();
                for p in [c.p0, c.p1, c.p2, c.p3] {
                    mag = mag.max(p.x.abs()).max(p.y.abs());
                }
            }
        }
        ensure!(arena.len() >= n0, "segments disappeared");
        calls.push((subs, n0));
        boundaries.push(arena.len());
    }
    ctx.describe(desc.join("; "));
    let rnd = 1e-13 * mag;
    let r = 1e-7 * mag;
    let ids: Vec<SegIdx> = arena.indices().collect();
    ensure!(ids.len() == arena.len() && arena.segments().count() == ids.len(), "inconsistent lengths");
    let pos = |i: SegIdx| ids.iter().position(|j| *j == i);

    for (k, (subs, n0)) in calls.iter().enumerate() {
        let n1 = boundaries[k + 1];
        let mut unvisited: Vec<usize> = (*n0..n1).collect();
        for sub in subs {
            // What the segments' chain must trace.
            let want: Vec<&PathSeg> = sub
                .segs
                .iter()
                .filter(|s| match s {
                    PathSeg::Line(l) => l.p0 != l.p1,
                    _ => true,
                })
                .collect();
            // A subpath without any extent needs not be there.
            let trivial = want.iter().all(|s| {
                let c = s.to_cubic();
                s.start() == s.end()
                    && (all_controls_level(s) || (c.p1 - c.p0).hypot() + (c.p2 - c.p0).hypot() < 1e-6 * r)
            });
            let head = unvisited.first().copied();
            let chain: Vec<SegIdx> = match head {
                None => {
                    ensure!(trivial, "nothing was added for {:?}", sub.segs);
                    continue;
                }
                Some(h) => {
                    let mut v = vec![ids[h]];
                    while let Some(j) = arena.contour_next(*v.last().unwrap()) {
                        if j == v[0] {
                            break;
                        }
                        ensure!(pos(j).is_some_and(|j| j >= *n0 && j < n1), "contour_next leads to {j:?}, outside of the added path");
                        ensure!(v.len() <= n1 - n0, "endless contour");
                        v.push(j);
                    }
                    v
                }
            };
            let degenerate = |i: SegIdx| arena[i].start() == arena[i].end();
            let rest: Vec<SegIdx> = chain.iter().copied().filter(|i| !degenerate(*i)).collect();
            if trivial && !rest.is_empty() && match_chain(&arena, &want, &rest, r).is_err() {
                // (It wasn't added, and the chain belongs to the next subpath.)
                continue;
            }
            for i in &chain {
                unvisited.retain(|u| ids[*u] != *i);
            }
            // Links.
            let (first, last) = (chain[0], *chain.last().unwrap());
            let start = arena.oriented_start(first);
            let end = arena.oriented_end(last);
            let closed = sub.closed.unwrap_or(start == end);
            for w in chain.windows(2) {
                ensure!(arena.contour_prev(w[1]) == Some(w[0]), "contour_prev({:?}) is {:?}, not {:?}", w[1], arena.contour_prev(w[1]), w[0]);
                ensure!(
                    arena.oriented_end(w[0]) == arena.oriented_start(w[1]),
                    "{:?} ends at {:?} but {:?} starts at {:?}", w[0], arena.oriented_end(w[0]), w[1], arena.oriented_start(w[1])
                );
            }
            if closed {
                ensure!(start == end, "the closed path ends at {end:?}, not at its start {start:?}");
                ensure!(
                    arena.contour_next(last) == Some(first) && arena.contour_prev(first) == Some(last),
                    "the closed path isn't a cycle: {last:?} -> {:?}, {:?} -> {first:?}", arena.contour_next(last), arena.contour_prev(first)
                );
            } else {
                ensure!(
                    arena.contour_next(last).is_none() && arena.contour_prev(first).is_none(),
                    "the open path continues: {last:?} -> {:?}, {:?} -> {first:?}", arena.contour_next(last), arena.contour_prev(first)
                );
            }
            // Shape.
            all_subs += 1;
            ctx.probes += want.len() as u64;
            let n_rest = rest.len();
            let n_want = want.len();
            match_chain(&arena, &want, &rest, r)?;
            split |= n_rest > n_want;
        }
        ensure!(
            unvisited.iter().all(|u| arena[ids[*u]].start() == arena[ids[*u]].end()),
            "segments that are not part of any added path: {unvisited:?}"
        );
    }
    // Every segment.
    for &i in &ids {
        let seg = &arena[i];
        let (a, b) = (seg.start(), seg.end());
        ensure!((a.y, a.x) <= (b.y, b.x), "{i:?} goes from {a:?} up to {b:?}");
        let (p, q) = if arena.positively_oriented(i) { (a, b) } else { (b, a) };
        ensure!(arena.oriented_start(i) == p && arena.oriented_end(i) == q, "{i:?} is oriented inconsistently");
        ensure!(seg.is_horizontal() == (a.y == b.y), "{i:?}: is_horizontal is {}", seg.is_horizontal());
        let c = seg.to_kurbo_cubic();
        let mut y = a.y;
        for j in 0..=16 {
            let v = c.eval(j as f64 / 16.0).y;
            ensure!(v >= y - 1e-9 * mag - rnd, "{i:?} isn't monotone: {v:?} after {y:?} in {c:?}");
            y = y.max(v);
        }
    }
    // The entrances and exits.
    for (name, list, wanted) in [
        ("entrances", arena.entrances(), ids.clone()),
        ("exits", arena.exits(), ids.iter().copied().filter(|i| !arena[*i].is_horizontal()).collect()),
    ] {
        ensure!(list.windows(2).all(|w| w[0].0 <= w[1].0), "the {name} are not sorted");
        let mut got: Vec<SegIdx> = list.iter().map(|x| x.1).collect();
        got.sort();
        let mut wanted = wanted;
        wanted.sort();
        ensure!(got == wanted, "the {name} are {got:?} instead of {wanted:?}");
        for (y, i) in list {
            let h = if name == "exits" { arena[*i].end().y } else { arena[*i].start().y };
            ensure!(*y == h, "{i:?} is listed at {y:?} in the {name}, but is at {h:?}");
        }
    }
    arena.check_invariants();
    if split {
        ctx.label("split-at-extrema");
    }
    if seen_kinds & 0b10001 != 0 {
        ctx.label("open");
    }
    ctx.nontrivial = all_subs >= 2 && (split || seen_kinds.count_ones() > 1);
    Ok(())
}

/// Near-degenerate single curves: extrema close to the ends, almost flat, almost linear.
fn c09_flat(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut arena = Segments::default();
    let near = |s: &mut Src, y: f64| -> f64 {
        y + *s.pick(&[0.0, 1e-3, -1e-3, 1e-8, -1e-8, 1e-15, -1e-15, 1e-17, 1.0, -1.0])
    };
    let scale = 10f64.powi(s.range(-6, 6) as i32);
    let base = *s.pick(&[0.0, 1.0, 100.0, -3.0]);
    let y0 = base;
    let dy = *s.pick(&[0.0, 1.0, 1e-3, 1e-9, 1e-15]);
    let y3 = near(s, y0 + dy);
    let pick = |s: &mut Src| {
        let f = *s.pick(&[0.0, 1.0, 1.0 / 3.0, 2.0 / 3.0, 0.5, 4.0, -1.0]);
        near(s, y0 + f * (y3 - y0))
    };
    let (y1, y2) = (pick(s), pick(s));
    let x: Vec<f64> = (0..4).map(|_| s.range(0, 8) as f64).collect();
    let mk = |x: f64, y: f64| Point::new(x * scale, y * scale);
    let mut p = BezPath::new();
    p.move_to(mk(x[0], y0));
    if s.chance(1, 3) {
        p.quad_to(mk(x[1], y1), mk(x[3], y3));
    } else {
        p.curve_to(mk(x[1], y1), mk(x[2], y2), mk(x[3], y3));
    }
    ctx.describe(p.to_svg());
    let seg = subpaths(&p)[0][0];
    arena.add_non_closed_bez_path(&p).map_err(|e| format!("rejected: {e:?}"))?;
    let mag = magnitude(&[&p]);
    let r = 1e-7 * mag;
    let ids: Vec<SegIdx> = arena.indices().collect();
    if ids.is_empty() {
        let c = seg.to_cubic();
        let ext = [c.p1, c.p2].iter().map(|q| (q.y - c.p0.y).abs()).fold(0.0, f64::max);
        ensure!(c.p0.y == c.p3.y && ext <= 1e-13 * mag, "the curve is not there");
        return Ok(());
    }
    let ps: Vec<Piece> = ids.iter().map(|i| oriented_piece(&arena, *i)).collect();
    ensure!(ps[0].c.p0 == seg.start(), "starts at {:?}", ps[0].c.p0);
    ensure!(ps.last().unwrap().c.p3 == seg.end(), "ends at {:?}", ps.last().unwrap().c.p3);
    for w in ps.windows(2) {
        ensure!(w[0].c.p3 == w[1].c.p0, "a piece ends at {:?}, and the next one starts at {:?}", w[0].c.p3, w[1].c.p0);
    }
    // The extent of flat parts is not preserved horizontally: what's flatter than rounding is a chord.
    let flat = {
        let c = seg.to_cubic();
        let (lo, hi) = [c.p0.y, c.p1.y, c.p2.y, c.p3.y].iter().fold((f64::MAX, f64::MIN), |a, y| (a.0.min(*y), a.1.max(*y)));
        hi - lo < 1e-6 * mag
    };
    for i in &ids {
        let (a, b) = (arena[*i].start(), arena[*i].end());
        ensure!((a.y, a.x) <= (b.y, b.x), "goes up");
        let c = arena[*i].to_kurbo_cubic();
        let mut y = a.y;
        for j in 0..=32 {
            let v = c.eval(j as f64 / 32.0).y;
            ensure!(v >= y - 1e-13 * mag, "a piece isn't monotone: {v:?} after {y:?} in {c:?}");
            y = y.max(v);
        }
    }
    if !flat {
        traces(&seg, &ps, r)?;
        ctx.nontrivial = ps.len() > 1;
    }
    ctx.probes += 1;
    Ok(())
}

pub fn c09_prop() -> Prop {
    Prop {
        id: "C09",
        rule: "a case counts when at least two subpaths were traced in the arena and either a curve was split or different kinds of additions were mixed (part flat: when the curve was split)",
        parts: &[("history", c09, 900000, 3000000), ("flat", c09_flat, 900000, 3000000)],
        assumptions: &[
            "curves are compared up to 1e-7 of the largest coordinate; curves whose control points all have the same height may be replaced by their chord or, when closed, left out",
            "segments are numbered in the order in which they were added",
        ],
    }
}

// ---------------------------------------------------------------- C18

fn tree<const B: usize>(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t: TreeVec<u64, B> = TreeVec::new();
    let mut v: Vec<u64> = vec![];
    let mut next = 0u64;
    if s.chance(1, 3) {
        let n = s.usize(0, 6 * B);
        v = (0..n as u64).collect();
        next = n as u64;
        t = v.iter().copied().collect();
    }
    let n_ops = s.usize(1, 40 + 12 * B.min(32));
    let mut grow = 2u64;
    let mut desc = format!("B={B} initially {}:", v.len());
    let mut deep = false;
    let mut shrunk = false;
    let mut peak = v.len();
    for _ in 0..n_ops {
        if s.chance(1, 12) {
            grow = s.range(0, 4) as u64;
        }
        // Runs of operations, so that trees get deep and empty again.
        match s.weighted(&[1 + 2 * grow, 9 - 2 * grow, 2, 2, 1, 1, 1]) {
            0 => {
                let run = if s.chance(1, 4) { s.usize(1, 3 * B) } else { 1 };
                let mode = s.below(4);
                for _ in 0..run {
                    let i = match mode {
                        0 => 0,
                        1 => v.len(),
                        2 => v.len() / 2,
                        _ => s.usize(0, v.len()),
                    };
                    t.insert(i, next);
                    v.insert(i, next);
                    next += 1;
                }
                desc += &format!(" +{run}@{mode}");
            }
            1 => {
                let run = if s.chance(1, 4) { s.usize(1, 3 * B) } else { 1 };
                let mode = s.below(4);
                for _ in 0..run {
                    if v.is_empty() {
                        break;
                    }
                    let i = match mode {
                        0 => 0,
                        1 => v.len() - 1,
                        2 => v.len() / 2,
                        _ => s.usize(0, v.len() - 1),
                    };
                    let (a, b) = (t.remove(i), v.remove(i));
                    ensure!(a == b, "remove({i}) returned {a}, not {b}");
                }
                desc += &format!(" -{run}@{mode}");
            }
            2 => {
                let i = s.usize(0, v.len() + 1);
                ensure!(t.get(i) == v.get(i), "get({i}) is {:?}, not {:?}", t.get(i), v.get(i));
                if i < v.len() {
                    ensure!(t[i] == v[i], "[{i}] is {}, not {}", t[i], v[i]);
                    if s.bool() {
                        t[i] = next;
                    } else {
                        *t.get_mut(i).unwrap() = next;
                    }
                    v[i] = next;
                    next += 1;
                } else {
                    ensure!(t.get_mut(i).is_none(), "get_mut({i}) is beyond the end");
                }
            }
            3 => {
                let a = s.usize(0, v.len());
                let b = s.usize(a, v.len());
                let (got, want): (Vec<u64>, Vec<u64>) = match s.below(6) {
                    0 => (t.range(a..b).copied().collect(), v[a..b].to_vec()),
                    1 if b > a => (t.range(a..=b - 1).copied().collect(), v[a..=b - 1].to_vec()),
                    2 => (t.range(a..).copied().collect(), v[a..].to_vec()),
                    3 => (t.range(..b).copied().collect(), v[..b].to_vec()),
                    4 => {
                        use std::ops::Bound::*;
                        let a = a.max(1);
                        if a > v.len() || b < a {
                            (vec![], vec![])
                        } else {
                            (t.range((Excluded(a - 1), Excluded(b))).copied().collect(), v[a..b].to_vec())
                        }
                    }
                    _ => (t.range(..).copied().collect(), v.clone()),
                };
                ensure!(got == want, "range({a}, {b}) has {got:?} instead of {want:?}");
                ctx.probes += 1;
            }
            4 => {
                let a = s.usize(0, v.len());
                let b = s.usize(a, v.len());
                let d = s.range(1, 9) as u64 * 1_000_000;
                let mut n = 0;
                for x in t.range_mut(a..b) {
                    ensure!(n < b - a, "range_mut({a}..{b}) is too long");
                    ensure!(*x == v[a + n], "range_mut({a}..{b}) visits {} instead of {}", *x, v[a + n]);
                    *x += d;
                    v[a + n] += d;
                    n += 1;
                }
                ensure!(n == b - a, "range_mut({a}..{b}) stopped after {n}");
            }
            5 => {
                let mut n = 0;
                for x in t.iter_mut() {
                    ensure!(n < v.len() && *x == v[n], "iter_mut differs at {n}");
                    *x += 1;
                    v[n] += 1;
                    n += 1;
                }
                ensure!(n == v.len(), "iter_mut stopped after {n} of {}", v.len());
                next += 1;
            }
            _ => {
                let u = t.clone();
                if !v.is_empty() {
                    // The clone is independent.
                    let i = s.usize(0, v.len() - 1);
                    t.remove(i);
                    ensure!(u.iter().copied().eq(v.iter().copied()), "the clone changed");
                    v.remove(i);
                }
            }
        }
        // Binary search, with any split of the elements.
        if s.chance(1, 3) {
            let k = s.usize(0, v.len());
            let rank: std::collections::HashMap<u64, usize> = v.iter().copied().enumerate().map(|(i, x)| (x, i)).collect();
            if rank.len() == v.len() {
                let got = t.partition_point(|x| rank[x] < k);
                ensure!(got == k, "partition_point is {got}, not {k}, of {}", v.len());
                ctx.probes += 1;
            }
            // With an arbitrary predicate, the answer is a boundary.
            let h = s.below(1 << 20);
            let pred = |x: &u64| (x.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20 ^ h) % 3 != 0;
            let got = t.partition_point(pred);
            ensure!(got <= v.len() && (got == 0 || pred(&v[got - 1])) && (got == v.len() || !pred(&v[got])), "partition_point is {got}, where the predicate doesn't change");
        }
        ensure!(t.len() == v.len() && t.is_empty() == v.is_empty(), "the length is {}, not {}", t.len(), v.len());
        ensure!(t.iter().copied().eq(v.iter().copied()), "the contents are {:?} instead of {v:?}", t.iter().collect::<Vec<_>>());
        ctx.probes += 1;
        peak = peak.max(v.len());
        deep |= v.len() > B * B;
        shrunk |= peak > 2 * B && v.len() <= B;
        t.check_invariants();
    }
    for i in 0..v.len() {
        ensure!(t.get(i) == Some(&v[i]), "get({i}) is {:?}", t.get(i));
    }
    if deep {
        ctx.label("three levels or more");
    }
    if shrunk {
        ctx.label("shrunk to one leaf");
    }
    ctx.nontrivial = peak > B;
    ctx.describe(desc);
    Ok(())
}

fn c18_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(5) {
        0 => tree::<4>(s, ctx),
        1 => tree::<5>(s, ctx),
        2 => tree::<6>(s, ctx),
        3 => tree::<7>(s, ctx),
        _ => tree::<8>(s, ctx),
    }
}
fn c18_large(s: &mut Src, ctx: &mut Ctx) -> Res {
    match s.below(3) {
        0 => tree::<16>(s, ctx),
        1 => tree::<17>(s, ctx),
        _ => tree::<128>(s, ctx),
    }
}

pub fn c18_prop() -> Prop {
    Prop {
        id: "C18",
        rule: "a case counts when the vector did not fit into a single node at some point of the history",
        parts: &[("small", c18_small, 900000, 3000000), ("large", c18_large, 15000, 50000)],
        assumptions: &["branching factors of at least 4, and indices that an ordinary vector accepts"],
    }
}
