//! The sweep: comparisons of many segments (C12, C15), and the sweep line itself (C16, C17).

use super::curves::{another, fix_mono, mono_unit, sub, x_extent};
use super::util::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use kurbo::{BezPath, CubicBez, Point};
use linesweeper::curve::{CurveOrder, Order};
use linesweeper::order::ComparisonCache;
use linesweeper::sweep::{
    sweep, OutputEvent, SegmentsConnectedAtX, SweepLineBuffers, SweepLineRangeBuffers, Sweeper,
};
use linesweeper::{SegIdx, Segments};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- families of segments

struct Family {
    segs: Segments,
    ids: Vec<SegIdx>,
    cs: Vec<CubicBez>,
    eps: f64,
    mag: f64,
    desc: String,
}

/// Monotone segments that are close to one another, with a common scale.
fn family(s: &mut Src, ctx: &mut Ctx) -> Family {
    let rel = *s.pick(&[1e-2, 1e-3, 1e-4, 1e-6, 0.1]);
    let scale = *s.pick(&[1.0, 1.0, 100.0, 1e-3, 1e4]);
    let n = s.usize(3, 7);
    let mut cs: Vec<CubicBez> = vec![];
    let mut tries = 0;
    while cs.len() < n && tries < 40 {
        tries += 1;
        let c = if cs.is_empty() || s.chance(1, 6) {
            mono_unit(s)
        } else {
            let b = *s.pick(&cs);
            match s.weighted(&[4, 3, 3, 2]) {
                0 => another(s, &b, rel, ctx),
                // moved a little
                1 => {
                    let d = kurbo::Vec2::new(rel * s.f64(-3.0, 3.0), rel * s.f64(-3.0, 3.0));
                    CubicBez::new(b.p0 + d, b.p1 + d, b.p2 + d, b.p3 + d)
                }
                // almost horizontal, starting near it
                2 => {
                    let y = b.p0.y + (b.p3.y - b.p0.y) * *s.pick(&[0.0, 0.5, 1.0, 0.25, 0.75]);
                    let x = b.p0.x + (b.p3.x - b.p0.x) * s.unit();
                    let w = *s.pick(&[1.0, 0.3, 10.0 * rel, -1.0, -0.3]);
                    let h = rel * s.f64(0.0, 6.0);
                    let y = y + rel * s.f64(-3.0, 3.0);
                    let l = Point::new(x, y);
                    let r = Point::new(x + w, y + h);
                    CubicBez::new(l, l.lerp(r, 1.0 / 3.0), l.lerp(r, 2.0 / 3.0), r)
                }
                // a part of it, slightly bent
                _ => {
                    let (a, z) = (s.f64(0.0, 0.5), s.f64(0.5, 1.0));
                    let mut c = sub(&b, a, z);
                    c.p1.x += rel * s.f64(-4.0, 4.0);
                    c.p2.x += rel * s.f64(-4.0, 4.0);
                    c
                }
            }
        };
        if let Some(c) = fix_mono(c) {
            if c.p0.y < c.p3.y {
                cs.push(c);
            }
        }
    }
    let k = |p: Point| Point::new(p.x * scale, p.y * scale);
    let cs: Vec<CubicBez> = cs.iter().map(|c| CubicBez::new(k(c.p0), k(c.p1), k(c.p2), k(c.p3))).collect();
    let mag = super::curves::mag_of(&cs.iter().collect::<Vec<_>>());
    let eps = (rel * scale).max(1e-6 * mag);
    let mut segs = Segments::default();
    let mut desc = format!("eps={eps:e}");
    for c in &cs {
        let mut p = BezPath::new();
        p.move_to(c.p0);
        p.curve_to(c.p1, c.p2, c.p3);
        desc += &format!(" {}", p.to_svg());
        let _ = segs.add_non_closed_bez_path(&p);
    }
    let ids: Vec<SegIdx> = segs.indices().collect();
    // (What the arena holds is what's compared.)
    let cs = ids.iter().map(|i| segs[*i].to_kurbo_cubic()).collect();
    Family { segs, ids, cs, eps, mag, desc }
}

fn ranges(o: &CurveOrder) -> Vec<(f64, f64, Order)> {
    o.iter().collect()
}

// ---------------------------------------------------------------- C12

fn c12(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = family(s, ctx);
    ctx.describe(f.desc.clone());
    let n = f.ids.len();
    let mut cache = ComparisonCache::new(f.eps, f.eps / 2.0);
    // Heights of interest: the ends, and where comparisons change.
    let mut ys: Vec<f64> = vec![];
    let mut orders: BTreeMap<(usize, usize), CurveOrder> = BTreeMap::new();
    for i in 0..n {
        ys.push(f.cs[i].p0.y);
        ys.push(f.cs[i].p3.y);
        for j in 0..n {
            if i != j && f.cs[i].p0.y.max(f.cs[j].p0.y) < f.cs[i].p3.y.min(f.cs[j].p3.y) {
                let o = cache.compare_segments(&f.segs, f.ids[i], f.ids[j]);
                for (a, b, _) in o.iter() {
                    ys.push(a);
                    ys.push(b);
                }
                orders.insert((i, j), o);
            }
        }
    }
    ys.sort_by(f64::total_cmp);
    ys.dedup();
    let mids: Vec<f64> = ys.windows(2).map(|w| 0.5 * (w[0] + w[1])).collect();
    ys.extend(mids);
    ctx.label(if f.cs.iter().any(|c| c.p3.y - c.p0.y < 3.0 * f.eps) { "with-flat-ones" } else { "steep" });
    let mut strict = 0;
    let mut triples = false;
    for y in ys {
        let here: Vec<usize> = (0..n).filter(|&i| f.cs[i].p0.y <= y && y <= f.cs[i].p3.y).collect();
        if here.len() < 3 {
            continue;
        }
        let mut left = vec![vec![]; n];
        for &i in &here {
            for &j in &here {
                let Some(o) = orders.get(&(i, j)) else { continue };
                let (a, b) = (o.order_at(y), orders[&(j, i)].order_at(y));
                ctx.probes += 1;
                ensure!(a == b.flip(), "at {y:?}, {i} is {a:?} compared with {j}, which is {b:?}");
                if a == Order::Left {
                    left[i].push(j);
                    strict += 1;
                }
            }
        }
        // Look for a cycle.
        let mut state = vec![0u8; n];
        fn visit(i: usize, left: &[Vec<usize>], state: &mut [u8], path: &mut Vec<usize>) -> bool {
            state[i] = 1;
            path.push(i);
            for &j in &left[i] {
                if state[j] == 1 {
                    path.push(j);
                    return true;
                }
                if state[j] == 0 && visit(j, left, state, path) {
                    return true;
                }
            }
            path.pop();
            state[i] = 2;
            false
        }
        for &i in &here {
            let mut path = vec![];
            if state[i] == 0 && visit(i, &left, &mut state, &mut path) {
                return Err(format!("at height {y:?}, each of these is to the left of the next: {path:?}"));
            }
        }
        let ish = here.iter().any(|&i| here.iter().any(|&j| i < j && !left[i].contains(&j) && !left[j].contains(&i)));
        triples |= ish && strict > 0;
    }
    ctx.nontrivial = triples;
    Ok(())
}

pub fn c12_prop() -> Prop {
    Prop {
        id: "C12",
        rule: "a case counts when, at some height with at least three segments, some pair was in a definite order and another pair was close",
        parts: &[("family", c12, 800000, 2400000)],
        assumptions: &["families of 3 to 7 segments, compared with tolerance eps and accuracy eps/2 as in the sweep"],
    }
}

// ---------------------------------------------------------------- C15

fn c15(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = family(s, ctx);
    let n = f.ids.len();
    let slop = s.bool();
    let accuracy = f.eps / *s.pick(&[2.0, 2.0, 8.0, 3.0]);
    let new = || {
        if slop {
            ComparisonCache::new(f.eps, accuracy)
        } else {
            ComparisonCache::new_without_y_slop(f.eps, accuracy)
        }
    };
    let mut cache = new();
    let mut seen: BTreeMap<(usize, usize), Vec<(f64, f64, Order)>> = BTreeMap::new();
    let n_ops = s.usize(2, 24);
    let mut desc = format!("{} slop={slop} accuracy={accuracy:e} pairs", f.desc);
    let mut repeats = 0;
    let mut definite = false;
    for _ in 0..n_ops {
        let (i, j) = (s.usize(0, n - 1), s.usize(0, n - 1));
        if i == j || f.cs[i].p0.y.max(f.cs[j].p0.y) > f.cs[i].p3.y.min(f.cs[j].p3.y) {
            continue;
        }
        desc += &format!(" {i}-{j}");
        let got = cache.compare_segments(&f.segs, f.ids[i], f.ids[j]);
        let (g, flipped) = (ranges(&got), ranges(&got.flip()));
        definite |= g.iter().any(|r| r.2 != Order::Ish);
        // It covers the common heights.
        let (lo, hi) = (f.cs[i].p0.y.max(f.cs[j].p0.y), f.cs[i].p3.y.min(f.cs[j].p3.y));
        ensure!(g[0].0 == lo && g.last().unwrap().1 == hi, "{desc}: covers {:?} to {:?} instead of {lo:?} to {hi:?}", g[0].0, g.last().unwrap().1);
        for (k, f2) in flipped.iter().enumerate() {
            ensure!(f2.0 == g[k].0 && f2.1 == g[k].1 && f2.2 == g[k].2.flip(), "{desc}: flip() gives {flipped:?} for {g:?}");
        }
        // A comparison without any history.
        let fresh = ranges(&new().compare_segments(&f.segs, f.ids[i], f.ids[j]));
        let first = match seen.get(&(i, j)) {
            Some(w) => {
                repeats += 1;
                ensure!(*w == g, "{desc}: the answer was {w:?} before, and is now {g:?}");
                false
            }
            None => true,
        };
        // Whichever way it was computed first, there must be no contradiction.
        for a in &fresh {
            for b in &g {
                let (lo, hi) = (a.0.max(b.0), a.1.min(b.1));
                ensure!(
                    lo >= hi || a.2 == b.2 || a.2 == Order::Ish || b.2 == Order::Ish,
                    "{desc}: {g:?} with history, {fresh:?} without"
                );
            }
        }
        if first && !seen.contains_key(&(j, i)) {
            ensure!(fresh == g, "{desc}: {g:?} with history, {fresh:?} without");
        }
        ctx.probes += 1;
        // With slop, the definite parts without slop are shortened at most.
        seen.insert((i, j), g.clone());
        match seen.get(&(j, i)) {
            Some(w) => ensure!(*w == flipped, "{desc}: {g:?}, but the other way round {w:?}"),
            None => {
                // Leave it open sometimes, so that the other direction is asked for later.
                if s.bool() {
                    let back = ranges(&cache.compare_segments(&f.segs, f.ids[j], f.ids[i]));
                    ensure!(back == flipped, "{desc}: {g:?}, but the other way round {back:?}");
                    seen.insert((j, i), back);
                } else {
                    seen.insert((j, i), flipped);
                }
            }
        }
        // What the slop does.
        if slop {
            let plain = ComparisonCache::new_without_y_slop(f.eps, accuracy).compare_segments(&f.segs, f.ids[i], f.ids[j]);
            let want = ranges(&plain.clone().with_y_slop(f.eps));
            ensure!(fresh == want, "{desc}: {fresh:?} with slop, but {:?} without", ranges(&plain));
        }
    }
    let _ = f.mag;
    ctx.describe(desc);
    ctx.nontrivial = repeats > 0 && definite;
    Ok(())
}

/// Many comparisons in an arena of very many segments.
fn c15_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = family(s, ctx);
    let total = match s.weighted(&[10, 6, 1]) {
        0 => s.range(20, 600),
        1 => s.range(600, 6000),
        _ => s.range(60000, 140000),
    } as usize;
    let (mut y0, mut y1, mut x0, mut x1) = (f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NEG_INFINITY);
    for c in &f.cs {
        y0 = y0.min(c.p0.y);
        y1 = y1.max(c.p3.y);
        let e = x_extent(c, c.p0.y, c.p3.y);
        x0 = x0.min(e.0);
        x1 = x1.max(e.1);
    }
    let mut segs = Segments::default();
    let mut special: Vec<usize> = vec![];
    let mut left = total;
    for (k, c) in f.cs.iter().enumerate() {
        let fill = if k + 1 == f.cs.len() { left } else { s.usize(0, left) };
        left -= fill;
        if fill >= 2 {
            let mut pts = vec![];
            for i in 0..=fill {
                let t = (i % 97) as f64 / 97.0;
                let y = if i % 2 == 0 { y0 + (y1 - y0) * 0.25 * t } else { y1 - (y1 - y0) * 0.25 * t };
                pts.push((x0 + (x1 - x0) * ((i * 29) % 101) as f64 / 101.0, y));
            }
            segs.add_points(pts);
        }
        special.push(segs.indices().count());
        let mut p = BezPath::new();
        p.move_to(c.p0);
        p.curve_to(c.p1, c.p2, c.p3);
        let _ = segs.add_non_closed_bez_path(&p);
    }
    let ids: Vec<SegIdx> = segs.indices().collect();
    let n = ids.len();
    special.retain(|i| *i < n);
    // Segments whose numbers are related to each other.
    let mut of_interest = special.clone();
    for _ in 0..s.usize(4, 16) {
        let base = *s.pick(&of_interest);
        let d = *s.pick(&[1usize, 2, 16, 64, 100, 128, 255, 256, 257, 512, 1000, 1024, 4096, 65535, 65536, 65537]);
        for i in [base.wrapping_add(d), base.wrapping_sub(d)] {
            if i < n {
                of_interest.push(i);
            }
        }
        of_interest.push(s.usize(0, n - 1));
    }
    of_interest.sort();
    of_interest.dedup();
    let accuracy = f.eps / *s.pick(&[2.0, 2.0, 8.0, 3.0]);
    let mut cache = ComparisonCache::new(f.eps, accuracy);
    let mut seen: BTreeMap<(usize, usize), Vec<(f64, f64, Order)>> = BTreeMap::new();
    let n_ops = match s.weighted(&[4, 2, 1]) {
        0 => s.usize(10, 60),
        1 => s.usize(60, 200),
        _ => s.usize(200, 900),
    };
    let desc = format!("{} among {n} segments, comparing some of {of_interest:?}", f.desc);
    ctx.describe(desc.clone());
    let span = |i: usize| {
        let e = &segs[ids[i]];
        (e.start().y, e.end().y)
    };
    let wild = s.bool();
    for _ in 0..n_ops {
        let any = |s: &mut Src| if wild && s.bool() { s.usize(0, n - 1) } else { *s.pick(&of_interest) };
        let (i, j) = (any(s), any(s));
        let ((a0, a1), (b0, b1)) = (span(i), span(j));
        if i == j || a0 >= a1 || b0 >= b1 || a0.max(b0) > a1.min(b1) {
            continue;
        }
        let got = ranges(&cache.compare_segments(&segs, ids[i], ids[j]));
        if let Some(w) = seen.get(&(i, j)) {
            ensure!(*w == got, "{desc}: {i}-{j} was {w:?} before, and is now {got:?}");
            continue;
        }
        let fresh = ranges(&ComparisonCache::new(f.eps, accuracy).compare_segments(&segs, ids[i], ids[j]));
        ensure!(fresh == got, "{desc}: {i}-{j}: {got:?} with history, {fresh:?} without");
        let flipped: Vec<_> = got.iter().map(|r| (r.0, r.1, r.2.flip())).collect();
        seen.insert((i, j), got);
        seen.insert((j, i), flipped);
        ctx.probes += 1;
    }
    let mut keys: Vec<(usize, usize)> = seen.keys().copied().collect();
    // In some other order.
    for k in (1..keys.len()).rev() {
        let r = s.usize(0, k);
        keys.swap(k, r);
    }
    for (i, j) in keys {
        let got = ranges(&cache.compare_segments(&segs, ids[i], ids[j]));
        ensure!(seen[&(i, j)] == got, "{desc}: {i}-{j} was {:?} before (either way round), and is {got:?} at last", seen[&(i, j)]);
    }
    ctx.nontrivial = seen.len() > 40;
    Ok(())
}

pub fn c15_prop() -> Prop {
    Prop {
        id: "C15",
        rule: "a case counts when a pair was compared again after other comparisons (in either direction), and some comparison had a definite order; of the large arenas, when more than twenty pairs were compared",
        parts: &[("history", c15, 600000, 1800000), ("many", c15_many, 30000, 150000)],
        assumptions: &["answers that were first computed in the other direction may differ from fresh ones, but only between close and definite"],
    }
}

// ---------------------------------------------------------------- inputs of the sweep

fn p_start(seg: &kurbo::PathSeg) -> Point {
    match seg {
        kurbo::PathSeg::Line(l) => l.p0,
        kurbo::PathSeg::Quad(q) => q.p0,
        kurbo::PathSeg::Cubic(c) => c.p0,
    }
}

struct SweepCase {
    segs: Segments,
    ids: Vec<SegIdx>,
    pieces: Vec<Piece>,
    eps: f64,
    tol: f64,
}

fn sweep_case(s: &mut Src, ctx: &mut Ctx, o: Opts) -> Result<SweepCase, String> {
    let c = pair_case(s, o);
    label_case(ctx, &c);
    let mut segs = Segments::default();
    let mut desc = String::new();
    let open = s.chance(1, 3);
    for p in [&c.a, &c.b] {
        if !open {
            desc += &format!("\"{}\" ", p.to_svg());
            segs.add_bez_path(p).map_err(|e| format!("rejected: {e:?}"))?;
            continue;
        }
        for sub in subpaths(p) {
            let n = sub.len();
            let (i, j) = match s.below(4) {
                0 => (0, n),
                1 => (0, s.usize(1, n)),
                2 => (s.usize(0, n - 1), n),
                _ => {
                    let i = s.usize(0, n - 1);
                    (i, s.usize(i + 1, n))
                }
            };
            let mut q = BezPath::new();
            q.move_to(p_start(&sub[i]));
            for seg in &sub[i..j] {
                match *seg {
                    kurbo::PathSeg::Line(l) => q.line_to(l.p1),
                    kurbo::PathSeg::Quad(c) => q.quad_to(c.p1, c.p2),
                    kurbo::PathSeg::Cubic(c) => q.curve_to(c.p1, c.p2, c.p3),
                }
            }
            desc += &format!("open \"{}\" ", q.to_svg());
            segs.add_non_closed_bez_path(&q).map_err(|e| format!("rejected: {e:?}"))?;
        }
    }
    if open {
        ctx.label("open");
    }
    ctx.describe(format!("{desc}eps={:e}", c.eps));
    let ids: Vec<SegIdx> = segs.indices().collect();
    let pieces = ids.iter().map(|i| Piece::new(segs[*i].to_kurbo_cubic(), segs[*i].is_line())).collect();
    Ok(SweepCase { segs, ids, pieces, eps: c.eps, tol: c.tol() })
}

// ---------------------------------------------------------------- C16

/// No segment of the list may be clearly to the left of one listed before it.
/// Is there a chain of segments, each within the tolerance of the next, from
/// `x0` to `x1` in the band of heights around `h`? (Almost-horizontal segments
/// can be moved across everything that they're close to, and drag it along.)
fn bridged(c: &SweepCase, h: f64, x0: f64, x1: f64) -> bool {
    let (lo, hi) = (x0.min(x1), x0.max(x1));
    let mut spans: Vec<(f64, f64)> = (0..c.ids.len())
        .filter(|&i| {
            let g = &c.segs[c.ids[i]];
            g.start().y <= h + c.tol && g.end().y >= h - c.tol
        })
        .map(|i| x_extent(&c.pieces[i].c, h - c.tol, h + c.tol))
        .collect();
    spans.sort_by(|a, b| a.0.total_cmp(&b.0));
    let mut reach: Option<f64> = None;
    for (a, b) in spans {
        match reach {
            None if a - c.tol <= lo && lo <= b + c.tol => reach = Some(b + c.tol),
            Some(r) if a - c.tol <= r => reach = Some(r.max(b + c.tol)),
            _ => {}
        }
    }
    reach.is_some_and(|r| hi <= r)
}

fn check_order(c: &SweepCase, list: &[usize], h: f64, between: bool) -> Res {
    let what = if between { "(between sweep lines)" } else { "(on a sweep line)" };
    let mut worst: Option<(f64, usize)> = None;
    for &i in list {
        let (lo, hi) = x_extent(&c.pieces[i].c, h - c.tol, h + c.tol);
        if let Some((l, j)) = worst {
            ensure!(
                l <= hi + c.tol || bridged(c, h, l, hi),
                "at height {h:?} {what}, {:?} (at {:?} or more) is listed before {:?} (at {hi:?} or less)", c.ids[j], l, c.ids[i]
            );
        }
        if worst.is_none_or(|w| lo > w.0) {
            worst = Some((lo, i));
        }
    }
    Ok(())
}

fn c16(s: &mut Src, ctx: &mut Ctx, o: Opts) -> Res {
    let c = sweep_case(s, ctx, o)?;
    let n = c.ids.len();
    let index: BTreeMap<SegIdx, usize> = c.ids.iter().copied().enumerate().map(|(i, j)| (j, i)).collect();
    let mut events: Vec<BTreeMap<Height, Vec<OutputEvent>>> = vec![BTreeMap::new(); n];
    let mut last_y = f64::NEG_INFINITY;
    let mut prev: Vec<usize> = vec![];
    {
        let mut sweeper = Sweeper::new(&c.segs, c.eps);
        let mut range_bufs = SweepLineRangeBuffers::default();
        let mut line_bufs = SweepLineBuffers::default();
        while let Some(mut line) = sweeper.next_line(&mut line_bufs) {
            let y = line.y();
            ensure!(y > last_y, "a sweep line at {y:?} follows the one at {last_y:?}");
            // The previous line's order is valid up to here.
            if !prev.is_empty() {
                check_order(&c, &prev, 0.5 * (last_y + y), true)?;
            }
            let mut here = vec![];
            let mut i = 0;
            while let Some(id) = line.line_segment(i) {
                here.push(index[&id]);
                i += 1;
            }
            check_order(&c, &here, y, false)?;
            // Those that continue below.
            prev = here.into_iter().filter(|&i| c.segs[c.ids[i]].end().y > y).collect();
            let mut got = prev.clone();
            got.sort();
            let want: Vec<usize> = (0..n)
                .filter(|&i| {
                    let g = &c.segs[c.ids[i]];
                    g.start().y <= y && y < g.end().y
                })
                .collect();
            ensure!(got == want, "at height {y:?}, the sweep line has the segments {got:?} instead of {want:?}");
            ctx.probes += 1;
            while let Some(mut range) = line.next_range(&mut range_bufs, &c.segs) {
                while let Some(evs) = range.events() {
                    for ev in evs {
                        events[index[&ev.seg_idx]].entry(Height(y)).or_default().push(ev);
                    }
                }
            }
            last_y = y;
        }
        ensure!(prev.is_empty(), "segments {prev:?} remain at the end");
    }
    // The callback interface reports the same.
    let mut count = 0usize;
    let mut err = None;
    sweep(&c.segs, c.eps, |y, ev| {
        count += 1;
        let there = events[index[&ev.seg_idx]].get(&Height(y)).is_some_and(|v| v.contains(&ev));
        if !there && err.is_none() {
            err = Some(format!("sweep() reports {ev:?} at {y:?}, which the sweep lines don't have"));
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    let total: usize = events.iter().flat_map(|m| m.values()).map(|v| v.len()).sum();
    ensure!(count == total, "sweep() reports {count} events, the sweep lines have {total}");

    let mut subdivided = false;
    let mut connectors = false;
    let mut bridges = false;
    for i in 0..n {
        let seg = &c.segs[c.ids[i]];
        let (a, b) = (seg.start(), seg.end());
        let name = format!("{:?} ({a:?} to {b:?})", c.ids[i]);
        // A segment alone at a height is evaluated there, ends included.
        let round = 8.0 * f64::EPSILON * a.x.abs().max(b.x.abs());
        ensure!(!events[i].is_empty(), "nothing is reported for {name}");
        let heights: Vec<f64> = events[i].keys().map(|h| h.0).collect();
        if seg.is_horizontal() {
            ensure!(heights == [a.y], "the horizontal segment {name} is reported at {heights:?}");
        } else {
            ensure!(
                heights[0] == a.y && *heights.last().unwrap() == b.y,
                "{name} is reported from {:?} to {:?}", heights[0], heights.last().unwrap()
            );
        }
        subdivided |= heights.len() > 2;
        let piece = &c.pieces[i..i + 1];
        for (k, (h, evs)) in events[i].iter().enumerate() {
            let y = h.0;
            // The parts at one height follow one another horizontally.
            let mut evs = evs.clone();
            let right = evs.iter().any(|e| e.x0 < e.x1);
            let left = evs.iter().any(|e| e.x0 > e.x1);
            ensure!(!(right && left), "at {y:?}, {name} goes both ways: {evs:?}");
            evs.sort_by(|e, f| e.x0.min(e.x1).total_cmp(&f.x0.min(f.x1)));
            if left {
                evs.reverse();
            }
            for w in evs.windows(2) {
                ensure!(w[0].x1 == w[1].x0, "at {y:?}, {name} jumps from {:?} to {:?}", w[0].x1, w[1].x0);
                ensure!(!w[0].connected_below && !w[1].connected_above, "at {y:?}, {name} is connected in the middle: {evs:?}");
            }
            let (f, l) = (&evs[0], &evs[evs.len() - 1]);
            connectors |= f.x0 != l.x1;
            let (first, last) = (k == 0, k + 1 == heights.len());
            ensure!(
                f.connected_above != first,
                "at {y:?} (height {k} of {}), {name} is{} connected above", heights.len(), if f.connected_above { "" } else { " not" }
            );
            ensure!(
                l.connected_below != last,
                "at {y:?} (height {k} of {}), {name} is{} connected below", heights.len(), if l.connected_below { "" } else { " not" }
            );
            if first {
                ensure!((f.x0 - a.x).abs() <= round, "{name} starts at {:?}", f.x0);
            }
            if last {
                ensure!((l.x1 - b.x).abs() <= round, "{name} ends at {:?}", l.x1);
            }
            for e in &evs {
                for x in [e.x0, e.x1, 0.5 * (e.x0 + e.x1)] {
                    ctx.probes += 1;
                    let p = Point::new(x, y);
                    if within(piece, p, c.tol) {
                        continue;
                    }
                    let (lo, hi) = x_extent(&piece[0].c, y - c.tol, y + c.tol);
                    let ok = within(&c.pieces, p, c.tol) && bridged(&c, y, x, if x < lo { lo } else { hi });
                    bridges |= ok;
                    ensure!(ok, "{name} is reported at {p:?}, {:e} away from it", distance(piece, p, 0.01 * c.tol));
                }
            }
        }
    }
    ctx.nontrivial = subdivided || connectors;
    if connectors {
        ctx.label("perturbed");
    }
    if bridges {
        ctx.label("bridged");
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
struct Height(f64);
impl Eq for Height {}
impl PartialOrd for Height {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Height {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        // (0 and -0 are the same height)
        self.0.partial_cmp(&o.0).unwrap()
    }
}

fn c16_std(s: &mut Src, ctx: &mut Ctx) -> Res {
    c16(s, ctx, COARSE)
}
fn c16_auto(s: &mut Src, ctx: &mut Ctx) -> Res {
    c16(s, ctx, AUTO)
}
fn c16_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    c16(s, ctx, Opts { min_shapes: 4, max_shapes: 10, ..COARSE })
}
fn c16_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    c16(s, ctx, WIDE)
}

pub fn c16_prop() -> Prop {
    Prop {
        id: "C16",
        rule: "a case counts when at least one segment was subdivided between its ends, or given a horizontal connector",
        parts: &[("std", c16_std, 40000, 1000000), ("auto", c16_auto, 20000, 400000), ("many", c16_many, 1500, 40000), ("wide", c16_wide, 300, 10000)],
        assumptions: &["distances and orders are judged with a slack of 6 tolerances (plus 1e-8 of the largest coordinate when the tolerance is below 1e-6 of it), horizontally and vertically"],
    }
}

// ---------------------------------------------------------------- C17

fn c17(s: &mut Src, ctx: &mut Ctx, o: Opts) -> Res {
    let c = sweep_case(s, ctx, o)?;
    let mut one = Sweeper::new(&c.segs, c.eps);
    let mut two = Sweeper::new(&c.segs, c.eps);
    let (mut rb1, mut lb1) = (SweepLineRangeBuffers::default(), SweepLineBuffers::default());
    let (mut rb2, mut lb2) = (SweepLineRangeBuffers::default(), SweepLineBuffers::default());
    let mut at_x = SegmentsConnectedAtX::default();
    let (mut horizontals, mut several) = (false, false);
    loop {
        let (Some(mut l1), Some(mut l2)) = (one.next_line(&mut lb1), two.next_line(&mut lb2)) else {
            break;
        };
        let y = l1.y();
        ensure!(y == l2.y(), "two sweeps of the same segments differ: {y:?}, {:?}", l2.y());
        loop {
            let (Some(mut r1), Some(mut r2)) = (l1.next_range(&mut rb1, &c.segs), l2.next_range(&mut rb2, &c.segs)) else {
                break;
            };
            let old: Vec<SegIdx> = r2.old_segment_range().collect();
            let new: Vec<SegIdx> = r2.segment_range().collect();
            let place = |v: &[SegIdx], i: SegIdx| v.iter().position(|j| *j == i);
            // The event lists.
            let mut batches: Vec<(f64, Vec<OutputEvent>)> = vec![];
            loop {
                let Some(x) = r1.x() else {
                    ensure!(r1.events().is_none(), "at {y:?}: events() continues after the last position");
                    break;
                };
                let Some(evs) = r1.events() else {
                    return Err(format!("at {y:?}: events() stops at {x:?}"));
                };
                if let Some((px, _)) = batches.last() {
                    ensure!(*px < x, "at {y:?}: the position {x:?} follows {px:?}");
                }
                let from = batches.last().map(|b| b.0);
                for e in &evs {
                    ensure!(
                        e.x0.max(e.x1) == x && (e.x0 == e.x1 || Some(e.x0.min(e.x1)) == from),
                        "at {y:?}: the event {e:?} is reported when going from {from:?} to {x:?}"
                    );
                }
                batches.push((x, evs));
            }
            let all: Vec<&OutputEvent> = batches.iter().flat_map(|b| &b.1).collect();
            // Every position is needed by some segment.
            let mut want_xs: Vec<f64> = all.iter().flat_map(|e| [e.x0, e.x1]).collect();
            want_xs.sort_by(f64::total_cmp);
            want_xs.dedup_by(|a, b| a == b);
            ensure!(
                want_xs == batches.iter().map(|b| b.0).collect::<Vec<_>>(),
                "at {y:?}: the positions are {:?}, but the events have {want_xs:?}", batches.iter().map(|b| b.0).collect::<Vec<_>>()
            );
            several |= batches.len() > 1;
            // What the events say about themselves.
            let range = r2.segment_range().count() > 0;
            for e in &all {
                ensure!(
                    e.smaller_x() == e.x0.min(e.x1) && e.larger_x() == e.x0.max(e.x1),
                    "at {y:?}: {e:?} spans {:?}..{:?}", e.smaller_x(), e.larger_x()
                );
                for x in [e.x0, e.x1, want_xs[0]] {
                    ensure!(
                        e.connected_above_at(x) == (e.connected_above && x == e.x0)
                            && e.connected_below_at(x) == (e.connected_below && x == e.x1),
                        "at ({x:?}, {y:?}): {e:?} answers {:?}, {:?}", e.connected_above_at(x), e.connected_below_at(x)
                    );
                }
                if e.connected_below {
                    let at = e.sweep_idx.and_then(|k| r2.line().line_segment(k));
                    ensure!(range && at == Some(e.seg_idx), "at {y:?}: {e:?} leads to {at:?} on the sweep line");
                }
            }
            let mut up: Vec<(Option<usize>, usize)> = all
                .iter()
                .filter(|e| e.connected_above)
                .map(|e| (e.old_sweep_idx, place(&old, e.seg_idx).unwrap_or(usize::MAX)))
                .collect();
            up.sort();
            ensure!(
                up.windows(2).all(|w| w[0].0 < w[1].0 && w[0].1 < w[1].1) && up.iter().all(|u| u.0.is_some()),
                "at {y:?}: the old indices (and places in the range) are {up:?}"
            );
            // Now step by step.
            for (k, (x, evs)) in batches.iter().enumerate() {
                ensure!(r2.x() == Some(*x), "at {y:?}: position {k} is {:?} stepwise, {x:?} with events()", r2.x());
                r2.update_segments_at_x(&mut at_x);
                let mut up: Vec<SegIdx> = all.iter().filter(|e| e.connected_above && e.x0 == *x).map(|e| e.seg_idx).collect();
                let mut down: Vec<SegIdx> = all.iter().filter(|e| e.connected_below && e.x1 == *x).map(|e| e.seg_idx).collect();
                for (list, order, name) in [(&mut up, &old, "above"), (&mut down, &new, "below")] {
                    for i in list.iter() {
                        ensure!(place(order, *i).is_some(), "at ({x:?}, {y:?}): {i:?} is connected {name}, but isn't in that order: {order:?}");
                    }
                    list.sort_by_key(|i| place(order, *i));
                }
                let got_up: Vec<SegIdx> = at_x.connected_up().collect();
                let got_down: Vec<SegIdx> = at_x.connected_down().collect();
                ensure!(got_up == up, "at ({x:?}, {y:?}): connected above are {got_up:?} stepwise, {up:?} with events()");
                ensure!(got_down == down, "at ({x:?}, {y:?}): connected below are {got_down:?} stepwise, {down:?} with events()");
                // Horizontal parts that lead here.
                let mut want: Vec<(SegIdx, bool)> = evs.iter().filter(|e| e.x0 != e.x1).map(|e| (e.seg_idx, e.x0 < e.x1)).collect();
                let mut got: Vec<(SegIdx, bool)> = r2.active_horizontals_and_orientations().collect();
                let mut plain: Vec<SegIdx> = r2.active_horizontals().collect();
                want.sort();
                got.sort();
                plain.sort();
                ensure!(got == want, "before ({x:?}, {y:?}): the horizontals are {got:?} stepwise, {want:?} with events()");
                ensure!(plain == want.iter().map(|w| w.0).collect::<Vec<_>>(), "before ({x:?}, {y:?}): active_horizontals is {plain:?}");
                horizontals |= !want.is_empty();
                ctx.probes += 1;
                r2.increase_x();
            }
            ensure!(r2.x().is_none(), "at {y:?}: stepwise, there is another position {:?}", r2.x());
            r2.update_segments_at_x(&mut at_x);
            ensure!(
                at_x.connected_up().next().is_none() && at_x.connected_down().next().is_none(),
                "at {y:?}: something is connected after the last position"
            );
            // Each segment of the range is accounted for.
            for (list, name) in [(&old, "above"), (&new, "below")] {
                for i in list {
                    let n = all.iter().filter(|e| e.seg_idx == *i && if name == "above" { e.connected_above } else { e.connected_below }).count();
                    ensure!(n == 1, "at {y:?}: {i:?} of the range is connected {name} {n} times");
                }
            }
        }
    }
    ctx.nontrivial = horizontals && several;
    Ok(())
}

fn c17_std(s: &mut Src, ctx: &mut Ctx) -> Res {
    c17(s, ctx, COARSE)
}
fn c17_auto(s: &mut Src, ctx: &mut Ctx) -> Res {
    c17(s, ctx, AUTO)
}
fn c17_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    c17(s, ctx, Opts { min_shapes: 4, max_shapes: 10, ..COARSE })
}
fn c17_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    c17(s, ctx, WIDE)
}

pub fn c17_prop() -> Prop {
    Prop {
        id: "C17",
        rule: "a case counts when some range had several positions with a horizontal part between them",
        parts: &[("std", c17_std, 120000, 2000000), ("auto", c17_auto, 40000, 600000), ("many", c17_many, 9000, 80000), ("wide", c17_wide, 2000, 15000)],
        assumptions: &["two sweeps of the same arena behave identically (checked as far as heights and positions are concerned)"],
    }
}
