//! Properties of the curve comparison and of solving monotone curves.

use crate::engine::*;
use crate::oracle::*;
use kurbo::{Affine, CubicBez, ParamCurve, Point};
use linesweeper::curve::{
    intersect_cubics, solve_t_for_y, solve_x_for_y, y_subsegment, CurveInteraction, CurveOrder,
    EstParab, Order, Quadratic,
};
use linesweeper::Segment;

/// The parameter range where the (increasing) height is in `lo..=hi`, by bisection.
pub fn t_range(c: &CubicBez, lo: f64, hi: f64) -> (f64, f64) {
    let y = |t: f64| y_at(c, t);
    let bis = |before: &dyn Fn(f64) -> bool| {
        if !before(0.0) {
            return (0.0, 0.0);
        }
        if before(1.0) {
            return (1.0, 1.0);
        }
        let (mut a, mut b) = (0.0f64, 1.0f64);
        for _ in 0..80 {
            let m = 0.5 * (a + b);
            if before(m) {
                a = m
            } else {
                b = m
            }
        }
        (a, b)
    };
    let (a, _) = bis(&|t| y(t) < lo);
    let (_, b) = bis(&|t| y(t) <= hi);
    (a, b.max(a))
}

/// de Casteljau (monotone in floating point up to rounding).
fn y_at(c: &CubicBez, t: f64) -> f64 {
    let l = |a: f64, b: f64| a * (1.0 - t) + b * t;
    let (a, b, d) = (l(c.p0.y, c.p1.y), l(c.p1.y, c.p2.y), l(c.p2.y, c.p3.y));
    l(l(a, b), l(b, d))
}

pub fn sub(c: &CubicBez, a: f64, b: f64) -> CubicBez {
    if a == 0.0 && b == 1.0 {
        return *c;
    }
    c.subsegment(a..b)
}

/// The horizontal extent of the part of the curve with height in `lo..=hi`.
pub fn x_extent(c: &CubicBez, lo: f64, hi: f64) -> (f64, f64) {
    let (a, b, tol) = x_extent_in(c, lo, hi);
    (a - tol, b + tol)
}

/// A possibly slightly too small horizontal extent, and by how much it may be too small.
pub fn x_extent_in(c: &CubicBez, lo: f64, hi: f64) -> (f64, f64, f64) {
    let (a, b) = t_range(c, lo, hi);
    let q = sub(c, a, b);
    let hull = hull_box(&q);
    let tol = 1e-14 * (hull.x0.abs() + hull.x1.abs());
    if hull.width() <= tol {
        return (hull.x0, hull.x1, 0.0);
    }
    let tol = (hull.width() * 1e-7).max(tol);
    let r = tight_bbox(&[Piece::new(q, false)], tol).unwrap();
    (r.x0, r.x1, tol)
}

pub fn mag_of(cs: &[&CubicBez]) -> f64 {
    cs.iter()
        .flat_map(|c| [c.p0, c.p1, c.p2, c.p3])
        .fold(0.0f64, |m, p| m.max(p.x.abs()).max(p.y.abs()))
}

pub fn show(c: &CubicBez) -> String {
    format!(
        "M{:?},{:?} C{:?},{:?} {:?},{:?} {:?},{:?}",
        c.p0.x, c.p0.y, c.p1.x, c.p1.y, c.p2.x, c.p2.y, c.p3.x, c.p3.y
    )
}

/// A cubic that is increasing in height, inside the unit square (or a bit outside horizontally).
pub fn mono_unit(s: &mut Src) -> CubicBez {
    let lattice = s.chance(1, 3);
    let x = |s: &mut Src| {
        if lattice {
            s.range(0, 8) as f64 / 8.0
        } else {
            s.f64(0.0, 1.0)
        }
    };
    let (mut y0, mut y1) = (0.0, 1.0);
    if s.chance(1, 2) {
        y0 = if lattice { s.range(0, 6) as f64 / 8.0 } else { s.f64(0.0, 0.8) };
        y1 = if lattice { y0 + 0.25 } else { y0 + s.f64(0.05, 1.0 - y0) };
    }
    // flat ones
    match s.weighted(&[8, 1, 1]) {
        1 => y1 = y0 + (y1 - y0) * s.logf(1e-6, 0.1),
        2 => y1 = y0 + (y1 - y0) * s.logf(1e-3, 0.3),
        _ => {}
    }
    let h = y1 - y0;
    let p0 = Point::new(x(s), y0);
    let p3 = Point::new(x(s), y1);
    let c = match s.weighted(&[5, 2, 2, 2, 2, 1, 1]) {
        // increasing control polygon
        0 => {
            let (a, b) = (s.unit(), s.unit());
            CubicBez::new(p0, Point::new(x(s), y0 + h * a.min(b)), Point::new(x(s), y0 + h * a.max(b)), p3)
        }
        // control heights exchanged (still increasing when the discriminant says so)
        1 => {
            let (a, b) = (s.f64(0.4, 1.0), s.f64(0.0, 0.6));
            CubicBez::new(p0, Point::new(x(s), y0 + h * a), Point::new(x(s), y0 + h * b), p3)
        }
        // a line
        2 => CubicBez::new(p0, p0.lerp(p3, 1.0 / 3.0), p0.lerp(p3, 2.0 / 3.0), p3),
        // horizontal tangents
        3 => {
            let (u, v) = (s.bool(), s.bool());
            let a = if u { 0.0 } else { s.unit() };
            let b = if v { 1.0 } else { s.unit() };
            CubicBez::new(p0, Point::new(x(s), y0 + h * a.min(b)), Point::new(x(s), y0 + h * b.max(a)), p3)
        }
        // a quadratic
        4 => {
            let q = Point::new(x(s), y0 + h * s.unit());
            CubicBez::new(p0, p0.lerp(q, 2.0 / 3.0), p3.lerp(q, 2.0 / 3.0), p3)
        }
        // coincident controls
        5 => {
            let q = Point::new(x(s), y0 + h * s.unit());
            CubicBez::new(p0, q, q, p3)
        }
        _ => {
            let q = Point::new(x(s), y0 + h * s.unit());
            match s.below(3) {
                0 => CubicBez::new(p0, p0, q, p3),
                1 => CubicBez::new(p0, q, p3, p3),
                _ => CubicBez::new(p0, p0, p3, p3),
            }
        }
    };
    // Check the discriminant of the derivative (with a margin); straighten if not increasing.
    let (a, b, d) = (c.p1.y - c.p0.y, c.p2.y - c.p1.y, c.p3.y - c.p2.y);
    if a >= 0.0 && d >= 0.0 && (b >= 0.0 || b * b <= 0.98 * a * d) {
        c
    } else {
        CubicBez::new(p0, Point::new(c.p1.x, p0.y + h / 3.0), Point::new(c.p2.x, p0.y + 2.0 * h / 3.0), p3)
    }
}

pub struct Place {
    scale: f64,
    dx: f64,
    dy: f64,
}
impl Place {
    pub fn gen(s: &mut Src) -> Self {
        let scale = *s.pick(&[1.0, 1.0, 0.01, 10.0, 1000.0, 1e5, 1e-4, 3e6]);
        let (dx, dy) = match s.below(4) {
            0 => (-0.5 * scale, -0.5 * scale),
            1 => (s.f64(-5.0, 5.0) * scale, s.f64(-5.0, 5.0) * scale),
            _ => (0.0, 0.0),
        };
        Place { scale, dx, dy }
    }
    pub fn map(&self, c: &CubicBez) -> CubicBez {
        let f = |p: Point| Point::new(p.x * self.scale + self.dx, p.y * self.scale + self.dy);
        let mut r = CubicBez::new(f(c.p0), f(c.p1), f(c.p2), f(c.p3));
        // Rounding must not undo the monotonicity.
        r.p1.y = r.p1.y.max(r.p0.y);
        r.p2.y = r.p2.y.min(r.p3.y);
        r
    }
}

/// Another monotone cubic, often close to the first in one way or another.
pub fn another(s: &mut Src, a: &CubicBez, tiny: f64, ctx: &mut Ctx) -> CubicBez {
    let nud = |s: &mut Src| {
        let m = match s.below(4) {
            0 => tiny,
            1 => tiny * s.f64(0.0, 3.0),
            2 => tiny * s.logf(0.01, 100.0),
            _ => 0.0,
        };
        if s.bool() {
            -m
        } else {
            m
        }
    };
    match s.weighted(&[5, 3, 2, 3, 3, 2, 2]) {
        0 => mono_unit(s),
        1 => {
            ctx.label("shifted-copy");
            let (dx, dy) = (nud(s), if s.bool() { nud(s) } else { 0.0 });
            let f = |p: Point| Point::new(p.x + dx, p.y + dy);
            CubicBez::new(f(a.p0), f(a.p1), f(a.p2), f(a.p3))
        }
        2 => {
            ctx.label("wobbled-copy");
            let mut c = *a;
            c.p0.x += nud(s);
            c.p1.x += nud(s);
            c.p2.x += nud(s);
            c.p3.x += nud(s);
            c
        }
        3 => {
            // crosses or touches somewhere
            ctx.label("meeting");
            let mut c = mono_unit(s);
            let (lo, hi) = (a.p0.y.max(c.p0.y), a.p3.y.min(c.p3.y));
            if lo < hi {
                let y = lo + (hi - lo) * *s.pick(&[0.0, 0.5, 0.25, 1.0, 0.9, 0.999]);
                let xa = x_extent(a, y, y).0;
                let xc = x_extent(&c, y, y).0;
                let d = xa - xc + nud(s);
                c.p0.x += d;
                c.p1.x += d;
                c.p2.x += d;
                c.p3.x += d;
            }
            c
        }
        4 => {
            ctx.label("same-start");
            let c = mono_unit(s);
            let d = a.p0 - c.p0;
            let mut r = CubicBez::new(a.p0, c.p1 + d, c.p2 + d, c.p3 + d);
            if s.bool() {
                // same tangent too
                r.p1 = a.p1;
                r.p2.y = r.p2.y.max(r.p1.y);
                r.p3.y = r.p3.y.max(r.p2.y);
            }
            if r.p3.y <= r.p0.y {
                return mono_unit(s);
            }
            r
        }
        5 => {
            ctx.label("same-end");
            let c = mono_unit(s);
            let d = a.p3 - c.p3;
            CubicBez::new(c.p0 + d, c.p1 + d, c.p2 + d, a.p3)
        }
        _ => {
            ctx.label("part-of-it");
            let (u, v) = (s.unit(), s.unit());
            let (u, v) = (u.min(v), u.max(v));
            if v - u < 0.01 {
                return *a;
            }
            let mut c = sub(a, u, v);
            let dx = nud(s);
            c.p0.x += dx;
            c.p1.x += dx;
            c.p2.x += dx;
            c.p3.x += dx;
            c
        }
    }
}

/// Straightens what rounding made decreasing; `None` when the result is horizontal.
pub fn fix_mono(mut c: CubicBez) -> Option<CubicBez> {
    if !(c.p0.y < c.p3.y) {
        return None;
    }
    c.p1.y = c.p1.y.max(c.p0.y);
    c.p2.y = c.p2.y.min(c.p3.y);
    let (a, b, d) = (c.p1.y - c.p0.y, c.p2.y - c.p1.y, c.p3.y - c.p2.y);
    if a >= 0.0 && d >= 0.0 && (b >= 0.0 || b * b <= 0.999 * a * d) {
        Some(c)
    } else {
        let h = c.p3.y - c.p0.y;
        c.p1.y = c.p0.y + h / 3.0;
        c.p2.y = c.p0.y + 2.0 * h / 3.0;
        Some(c)
    }
}

pub struct CurvePair {
    pub a: CubicBez,
    pub b: CubicBez,
    pub tol: f64,
    pub acc: f64,
    pub mag: f64,
}

pub fn curve_pair(s: &mut Src, ctx: &mut Ctx) -> Option<CurvePair> {
    let rel = *s.pick(&[1e-6, 1e-7, 1e-5, 1e-4, 1e-3, 1e-2]);
    let a0 = mono_unit(s);
    let b0 = another(s, &a0, rel, ctx);
    let pl = Place::gen(s);
    // Curves that are about as high as the accuracy.
    let low = s.chance(1, 10);
    let (a, b) = if low {
        let f = Affine::scale_non_uniform(1.0, s.logf(1e-6, 1e-2));
        (fix_mono(f * pl.map(&a0))?, fix_mono(f * pl.map(&b0))?)
    } else {
        (fix_mono(pl.map(&a0))?, fix_mono(pl.map(&b0))?)
    };
    if a.p0.y.max(b.p0.y) > a.p3.y.min(b.p3.y) {
        return None;
    }
    let (a, b) = if s.bool() { (b, a) } else { (a, b) };
    let mag = mag_of(&[&a, &b]);
    let tol = rel * mag;
    let acc = tol * *s.pick(&[0.5, 0.25, 1.0]);
    let (mut tol, mut acc) = (tol, acc);
    if low {
        let h = a.p3.y.min(b.p3.y) - a.p0.y.max(b.p0.y);
        let e = h * *s.pick(&[1.0, 0.5, 0.25, 0.125, 2.0, 0.3]);
        let f = *s.pick(&[2.0, 4.0, 1.0]);
        if e * f > 1e-7 * mag && e * f < 1e-2 * mag {
            ctx.label("low");
            acc = e;
            tol = e * f;
        }
    }
    ctx.describe(format!("c0=\"{}\" c1=\"{}\" tolerance={tol:e} accuracy={acc:e}", show(&a), show(&b)));
    Some(CurvePair { a, b, tol, acc, mag })
}

// ---------------------------------------------------------------- C11

type Iv = Vec<(f64, f64, Order)>;

/// The definite order at `y` after widening the close parts of `iv` by `slop`, from first principles.
fn widened_at(iv: &Iv, slop: f64, y: f64) -> Option<Order> {
    let (lo, hi) = (iv[0].0, iv[iv.len() - 1].1);
    for &(s, e, o) in iv {
        let s2 = if s == lo { s } else { s + slop };
        let e2 = if e == hi { e } else { e - slop };
        if o != Order::Ish && s2 < y && y < e2 {
            return Some(o);
        }
    }
    None
}

fn heights(s: &mut Src, iv: &Iv) -> Vec<f64> {
    let mut ys = Vec::new();
    for &(a, b, _) in iv {
        ys.extend([a, b, 0.5 * (a + b), a.next_up(), a.next_down(), b.next_up(), b.next_down()]);
        ys.push(a + (b - a) * s.unit());
    }
    let (lo, hi) = (iv[0].0, iv[iv.len() - 1].1);
    ys.retain(|y| *y >= lo && *y <= hi);
    ys
}

fn check_queries(s: &mut Src, ctx: &mut Ctx, o: &CurveOrder) -> Res {
    let iv: Iv = o.iter().collect();
    ensure!(!iv.is_empty(), "an order without intervals");
    let (lo, hi) = (iv[0].0, iv[iv.len() - 1].1);
    for w in iv.windows(2) {
        ensure!(w[0].1 == w[1].0, "a gap in {iv:?}");
        ensure!(
            w[0].2 != w[1].2 && (w[0].2 == Order::Ish || w[1].2 == Order::Ish),
            "neighboring intervals with orders {:?} and {:?} in {iv:?}",
            w[0].2,
            w[1].2
        );
    }
    for w in &iv {
        ensure!(w.0 <= w.1, "a backwards interval in {iv:?}");
    }
    let ys = heights(s, &iv);
    for &y in &ys {
        ctx.probes += 1;
        // The first interval that ends at or after y.
        let mut want = None;
        for w in iv.iter().rev() {
            if w.1 >= y {
                want = Some(w.2);
            }
        }
        let got = o.order_at(y);
        ensure!(Some(got) == want, "order_at({y:?}) is {got:?} but the intervals are {iv:?}");
        let later: Iv = iv.iter().copied().filter(|w| w.1 > y).collect();
        let want = if y == hi {
            iv[iv.len() - 1].2
        } else {
            let mut d = Order::Ish;
            for w in later.iter().rev() {
                if w.2 != Order::Ish {
                    d = w.2;
                }
            }
            d
        };
        let got = o.order_after(y);
        ensure!(got == want, "order_after({y:?}) is {got:?} but the intervals are {iv:?}");
        if y < hi {
            let got = o.entry_at(y);
            ensure!(got == later[0], "entry_at({y:?}) is {got:?} but the intervals are {iv:?}");
        }
        // The next touch or crossing.
        let got = o.next_touch_after(y);
        let right = later.iter().position(|w| w.2 == Order::Right);
        let meet = |i: usize| {
            let w = later[i];
            let mid = (w.0 + w.1) / 2.0;
            if mid > y {
                mid
            } else {
                w.1
            }
        };
        match got {
            None => {
                ensure!(right.is_none(), "next_touch_after({y:?}) is None but the intervals are {iv:?}");
                if later.iter().skip_while(|w| w.2 == Order::Ish).filter(|w| w.2 == Order::Left).count() >= 2 {
                    return Err(format!("next_touch_after({y:?}) misses a touch in {iv:?}"));
                }
            }
            Some(CurveInteraction::Cross(h)) => {
                ensure!(h >= y, "next_touch_after({y:?}) crosses earlier, at {h:?}, in {iv:?}");
                let Some(r) = right else {
                    return Err(format!("next_touch_after({y:?}) is Cross({h:?}) but the intervals are {iv:?}"));
                };
                let want = if r == 0 { y } else { meet(r - 1) };
                ensure!(h == want, "next_touch_after({y:?}) is Cross({h:?}), not {want:?}, for the intervals {iv:?}");
                ctx.label("cross");
                let n = later[..r].iter().filter(|w| w.2 == Order::Ish && w.0 > y).count();
                ensure!(n <= 1, "next_touch_after({y:?}) is Cross({h:?}) but there is a touch before that in {iv:?}");
            }
            Some(CurveInteraction::Touch(h)) => {
                ctx.label("touch");
                let i = later.iter().position(|w| w.2 == Order::Ish && w.0 > y);
                let Some(i) = i else {
                    return Err(format!("next_touch_after({y:?}) is Touch({h:?}) but the intervals are {iv:?}"));
                };
                ensure!(
                    h == meet(i) && i + 1 < later.len() && later[i + 1].2 == Order::Left,
                    "next_touch_after({y:?}) is Touch({h:?}) but the intervals are {iv:?}"
                );
                ensure!(right.is_none_or(|r| r > i), "next_touch_after({y:?}) ignores a crossing in {iv:?}");
            }
        }
    }
    let _ = lo;
    Ok(())
}

fn c11(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(mut p) = curve_pair(s, ctx) else { return Ok(()) };
    if s.bool() {
        p.tol = p.mag * s.logf(1e-3, 0.2);
        p.acc = p.tol * s.logf(0.02, 1.0);
        let text = format!("c0=\"{}\" c1=\"{}\" tolerance={:e} accuracy={:e}", show(&p.a), show(&p.b), p.tol, p.acc);
        ctx.describe(text);
    }
    let order = intersect_cubics(p.a, p.b, p.tol, p.acc);
    let iv: Iv = order.iter().collect();
    let (lo, hi) = (p.a.p0.y.max(p.b.p0.y), p.a.p3.y.min(p.b.p3.y));
    ensure!(iv.len() > 0 && iv[0].0 == lo && iv[iv.len() - 1].1 == hi, "the intervals {iv:?} do not span {lo:?}..{hi:?}");
    ctx.nontrivial = iv.len() >= 3;
    if iv.len() >= 5 {
        ctx.label("5+intervals");
    }
    if iv.len() >= 7 {
        ctx.label("7+intervals");
    }
    check_queries(s, ctx, &order)?;

    // Flipping.
    let f = order.flip();
    let fv: Iv = f.iter().collect();
    ensure!(fv.len() == iv.len(), "flipping {iv:?} gives {fv:?}");
    for (a, b) in iv.iter().zip(&fv) {
        ensure!(a.0 == b.0 && a.1 == b.1 && a.2.flip() == b.2, "flipping {iv:?} gives {fv:?}");
        ensure!(a.2.flip().flip() == a.2 && (a.2.flip() == a.2) == (a.2 == Order::Ish), "flip of {:?}", a.2);
    }
    let ff: Iv = f.flip().iter().collect();
    ensure!(ff == iv, "flipping twice turns {iv:?} into {ff:?}");
    check_queries(s, ctx, &f)?;

    // Widening, possibly more than once.
    let mut cur = order;
    let mut cv = iv;
    for _ in 0..s.range(1, 3) {
        let slop = match s.below(6) {
            0 => 0.0,
            1 => p.tol,
            2 => p.tol * s.logf(0.1, 10.0),
            // as long as one of the intervals
            3 => {
                let w = *s.pick(&cv);
                (w.1 - w.0) * *s.pick(&[0.5, 0.25, 1.0, 0.51, 0.49])
            }
            _ => (hi - lo) * s.logf(1e-6, 1.0),
        };
        let flip_first = s.bool();
        let next = if flip_first { cur.flip().with_y_slop(slop).flip() } else { cur.clone().with_y_slop(slop) };
        let nv: Iv = next.iter().collect();
        ensure!(
            !nv.is_empty() && nv[0].0 == lo && nv[nv.len() - 1].1 == hi,
            "widening {cv:?} by {slop:?} gives {nv:?}, which does not span {lo:?}..{hi:?}"
        );
        if lo == hi || slop == 0.0 {
            ensure!(nv == cv, "widening {cv:?} by {slop:?} gives {nv:?}");
        } else {
            let mut ys = heights(s, &nv);
            for w in &cv {
                for y in [w.0 - slop, w.0 + slop, w.1 - slop, w.1 + slop, 0.5 * (w.0 + w.1)] {
                    ys.extend([y.next_down().next_down().next_down(), y.next_up().next_up().next_up()]);
                }
            }
            for y in ys {
                if !(y > lo && y < hi) || nv.iter().any(|w| w.0 == y || w.1 == y) {
                    continue;
                }
                ctx.probes += 1;
                let want = widened_at(&cv, slop, y).unwrap_or(Order::Ish);
                let got = next.order_at(y);
                ensure!(
                    got == want,
                    "widening {cv:?} by {slop:?} gives {nv:?}, with order {got:?} at {y:?} and not {want:?}"
                );
            }
        }
        if nv.len() != cv.len() {
            ctx.label("slop-swallows-intervals");
        }
        check_queries(s, ctx, &next)?;
        cur = next;
        cv = nv;
    }
    Ok(())
}

pub fn c11_prop() -> Prop {
    Prop {
        id: "C11",
        rule: "a case counts when the computed order has at least three intervals",
        parts: &[("orders", c11, 1800000, 10000000)],
        assumptions: &[
            "the orders are those that comparing curves produces, and what flipping and widening make of them",
        ],
    }
}

// ---------------------------------------------------------------- C10

/// Judges the order claimed at one height.
#[allow(clippy::too_many_arguments)]
fn judge(ctx: &mut Ctx, p: &CurvePair, y: f64, o: Order, ish: bool, dy: f64, slack: f64) -> Res {
    let (lo0, hi0) = x_extent(&p.a, y - dy, y + dy);
    let (lo1, hi1) = x_extent(&p.b, y - dy, y + dy);
    ctx.probes += 1;
    let far_left = lo1 - hi0; // c0 is at least this far to the left of c1
    let far_right = lo0 - hi1;
    match o {
        Order::Left => {
            let best = hi1 - lo0;
            ctx.max("shortfall/acc", (p.tol - p.acc - best) / p.acc);
            ensure!(
                best >= p.tol - p.acc - slack,
                "at height {y:?} c0 is said to be left of c1, but c1 - c0 is at most {best:e}"
            );
        }
        Order::Right => {
            let best = hi0 - lo1;
            ctx.max("shortfall/acc", (p.tol - p.acc - best) / p.acc);
            ensure!(
                best >= p.tol - p.acc - slack,
                "at height {y:?} c0 is said to be right of c1, but c0 - c1 is at most {best:e}"
            );
        }
        Order::Ish if ish => {
            let far = far_left.max(far_right);
            ctx.max("excess/acc", (far - p.tol - p.acc) / p.acc);
            ensure!(
                far <= p.tol + p.acc + slack,
                "at height {y:?} the curves are said to be close, but they are {far:e} apart"
            );
        }
        _ => {}
    }
    Ok(())
}

/// No part of the curve is 16 times as wide as high.
fn never_flat(c: &CubicBez) -> bool {
    [(c.p0, c.p1), (c.p1, c.p2), (c.p2, c.p3)].iter().all(|(a, b)| (b.x - a.x).abs() <= 15.0 * (b.y - a.y))
}

fn c10(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(p) = curve_pair(s, ctx) else { return Ok(()) };
    let order = intersect_cubics(p.a, p.b, p.tol, p.acc);
    let (y0, y1) = (p.a.p0.y.max(p.b.p0.y), p.a.p3.y.min(p.b.p3.y));
    let iv: Vec<(f64, f64, Order)> = order.iter().collect();
    ensure!(!iv.is_empty(), "no intervals");
    ensure!(iv[0].0 == y0 && iv[iv.len() - 1].1 == y1, "the intervals {iv:?} do not span {y0:?}..{y1:?}");
    for w in &iv {
        ensure!(w.0 <= w.1, "backwards interval in {iv:?}");
    }
    order.check_invariants();
    let (mut def, mut close) = (false, false);
    for w in &iv {
        if w.2 == Order::Ish {
            close = true
        } else {
            def = true
        }
    }
    ctx.nontrivial = def && close || iv.len() > 2;
    if iv.windows(2).any(|w| w[0].2 == Order::Ish && w[1].0 == w[1].1) {
        ctx.label("swapped-at-once");
    }
    if iv.len() > 5 {
        ctx.label("many-intervals");
    }
    if iv.iter().any(|w| w.2 == Order::Left) && iv.iter().any(|w| w.2 == Order::Right) {
        ctx.label("crossing");
    }
    // Almost-horizontal curves are compared after a rotation, which moves heights by up to the
    // tolerance.
    // That cannot happen when one of them is never flat.
    let dy = if never_flat(&p.a) || never_flat(&p.b) {
        ctx.label("never-flat");
        p.acc + 1e-10 * p.mag
    } else {
        p.tol + p.acc + 1e-10 * p.mag
    };
    let slack = 1e-9 * p.mag;
    if y0 == y1 {
        ctx.label("single-height");
        let (_, _, o) = iv[0];
        return judge(ctx, &p, y0, o, true, 0.0, slack);
    }
    for _ in 0..24 {
        let (a, b, o) = *s.pick(&iv);
        let y = a + (b - a) * *s.pick(&[0.5, 0.0, 1.0, 0.1, 0.9, 0.01, 0.99, 0.3]);
        // In the very short intervals anything goes (the boundaries are not exact).
        judge(ctx, &p, y, o, true, dy, slack)?;
    }
    for _ in 0..16 {
        let y = y0 + (y1 - y0) * s.unit();
        let (_, _, o) = *iv.iter().find(|w| w.1 >= y).unwrap();
        judge(ctx, &p, y, o, true, dy, slack)?;
    }
    // The flipped question has the flipped answer, up to what is allowed to vary.
    let back = intersect_cubics(p.b, p.a, p.tol, p.acc);
    let q = CurvePair { a: p.b, b: p.a, ..p };
    let iv: Vec<(f64, f64, Order)> = back.iter().collect();
    for _ in 0..6 {
        let y = y0 + (y1 - y0) * s.unit();
        let (_, _, o) = *iv.iter().find(|w| w.1 >= y).unwrap();
        judge(ctx, &q, y, o, true, dy, slack)?;
    }
    Ok(())
}

pub fn c10_prop() -> Prop {
    Prop {
        id: "C10",
        rule: "a case counts when the order has both a definite and a close interval, or more than two intervals",
        parts: &[("pairs", c10, 1000000, 15000000)],
        assumptions: &[
            "heights are granted an error of the accuracy plus 1e-10 of the largest coordinate, positions one of 1e-9 of it",
            "tolerances between 1e-7 and 1e-2 of the largest coordinate",
        ],
    }
}

// ---------------------------------------------------------------- C13

/// A single placed monotone cubic.
fn one_curve(s: &mut Src) -> Option<CubicBez> {
    let c = mono_unit(s);
    let pl = Place::gen(s);
    fix_mono(pl.map(&c))
}

fn height_in(s: &mut Src, lo: f64, hi: f64) -> f64 {
    let h = hi - lo;
    let y = match s.below(8) {
        0 => lo,
        1 => hi,
        2 => lo.next_up(),
        3 => hi.next_down(),
        4 => lo + h * s.logf(1e-14, 1e-2),
        5 => hi - h * s.logf(1e-14, 1e-2),
        6 => lo + h * (s.range(0, 16) as f64 / 16.0),
        _ => lo + h * s.unit(),
    };
    y.clamp(lo, hi)
}

/// The distance of a point from the curve near the parameter `t`.
fn dist_near(c: &CubicBez, p: Point) -> f64 {
    distance(&[Piece::new(*c, false)], p, 1e-15 * mag_of(&[c]))
}

fn c13(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some(c) = one_curve(s) else { return Ok(()) };
    let mag = mag_of(&[&c]);
    let h = c.p3.y - c.p0.y;
    ctx.describe(format!("c=\"{}\"", show(&c)));
    let (lo, hi) = (c.p0.y, c.p3.y);
    // The parameter is found to within 1e-12, and the height can't change faster than 3h.
    let ytol = 4e-12 * h + 1e-14 * mag;
    for _ in 0..12 {
        let y = height_in(s, lo, hi);
        ctx.probes += 1;
        if y > lo && y < hi {
            ctx.nontrivial = true;
        }
        let t = solve_t_for_y(c, y);
        ensure!((0.0..=1.0).contains(&t), "the parameter for height {y:?} is {t:?}");
        if y == lo {
            ensure!(t == 0.0, "the parameter for the first height is {t:?}");
        } else if y == hi {
            ensure!(t == 1.0, "the parameter for the last height is {t:?}");
        }
        let p = c.eval(t);
        let e = (p.y - y).abs();
        ctx.max("height error / tolerated", e / ytol);
        ensure!(e <= ytol, "the point for height {y:?} (t={t:?}) has height {:?}, off by {e:e}", p.y);
        let x = solve_x_for_y(c, y);
        let (xa, xb) = x_extent(&c, y - ytol, y + ytol);
        let off = (xa - x).max(x - xb);
        ctx.max("x error / mag", off / mag);
        ensure!(off <= 1e-13 * mag, "the curve is at {xa:?}..{xb:?} at height {y:?}, not at {x:?}");
    }
    for _ in 0..4 {
        let (a, b) = (height_in(s, lo, hi), height_in(s, lo, hi));
        let (a, b) = (a.min(b), a.max(b));
        if !(a < b) {
            continue;
        }
        ctx.probes += 1;
        let q = y_subsegment(c, a, b);
        ensure!(q.p0.y == a && q.p3.y == b, "the part {a:?}..{b:?} goes from {:?} to {:?}", q.p0.y, q.p3.y);
        for i in 0..=8 {
            let p = q.eval(i as f64 / 8.0);
            let d = dist_near(&c, p);
            ctx.max("part off by / mag", d / mag);
            ensure!(d <= ytol + 1e-13 * mag, "the part {a:?}..{b:?} passes through {p:?}, which is {d:e} from the curve");
        }
        // ... and all of it.
        let (a2, b2) = (a + 2.0 * ytol, b - 2.0 * ytol);
        if a2 >= b2 {
            continue;
        }
        let i = s.range(0, 8) as f64 / 8.0;
        let y = (a2 + (b2 - a2) * i).clamp(a2, b2);
        let (t0, t1) = t_range(&c, y, y);
        let p = c.eval(0.5 * (t0 + t1));
        let d = dist_near(&q, p);
        ctx.max("part misses by / mag", d / mag);
        ensure!(d <= ytol + 1e-13 * mag, "the part {a:?}..{b:?} misses {p:?} by {d:e}");
    }
    Ok(())
}

pub fn c13_prop() -> Prop {
    Prop {
        id: "C13",
        rule: "a case counts when a height strictly inside the range was solved for",
        parts: &[("solve", c13, 1000000, 5000000)],
        assumptions: &["heights may be off by 4e-12 of the curve's height plus 1e-14 of the largest coordinate"],
    }
}

// ---------------------------------------------------------------- C14

fn coeff(s: &mut Src) -> f64 {
    let m = match s.below(8) {
        0 => 0.0,
        1 => 1.0,
        2 => s.range(0, 16) as f64 / 4.0,
        3 => s.logf(1e-12, 1e12),
        4 => s.logf(1e-3, 1e3),
        5 => s.logf(1e-70, 1e160),
        6 => s.logf(1e150, 1e300),
        _ => s.unit(),
    };
    if s.bool() {
        -m
    } else {
        m
    }
}

fn c14_signs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let q = match s.below(3) {
        0 => Quadratic { c2: coeff(s), c1: coeff(s), c0: coeff(s) },
        1 => {
            // with known roots
            let k = coeff(s).clamp(-1e100, 1e100);
            let (a, b) = (s.f64(-2.0, 2.0), s.f64(-2.0, 2.0));
            let b = if s.chance(1, 4) { a + s.logf(1e-12, 1e-3) } else { b };
            Quadratic { c2: k, c1: -k * (a + b), c0: k * a * b }
        }
        _ => {
            let r = |s: &mut Src| s.range(-8, 8) as f64;
            Quadratic { c2: r(s), c1: r(s), c0: r(s) }
        }
    };
    ctx.describe(format!("{q:?}"));
    // So that evaluation can't overflow.
    let m = q.max_coeff();
    ensure!(m == q.c0.abs().max(q.c1.abs()).max(q.c2.abs()), "max_coeff is {m:?}");
    let sg = q.signs();
    if m == 0.0 {
        ensure!(sg.initial_sign == 0.0, "the zero polynomial has initial sign {:?}", sg.initial_sign);
        return Ok(());
    }
    ensure!(!(sg.smaller_root > sg.bigger_root), "the roots of {q:?} are in the wrong order: {sg:?}");
    let n = Quadratic { c2: q.c2 / m, c1: q.c1 / m, c0: q.c0 / m };
    let mut ts = vec![0.0, 1.0, -1.0, 0.5];
    for r in [sg.smaller_root, sg.bigger_root] {
        if r.is_finite() {
            let d = r.abs().max(1e-3);
            ts.extend([r - 0.1 * d, r + 0.1 * d, r - 1e-3 * d, r + 1e-3 * d, r + 1e-6 * d, r - 1e-6 * d]);
            ctx.nontrivial = true;
        }
    }
    for _ in 0..6 {
        let t = s.logf(1e-6, 1e6);
        ts.push(if s.bool() { t } else { -t });
    }
    for t in ts {
        if !(t.abs() < 1e80) {
            continue;
        }
        let parts = [n.c2 * t * t, n.c1 * t, n.c0];
        let v: f64 = parts[0] + parts[1] + parts[2];
        let size = parts.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        if v.abs() <= 1e-11 * size || size < 1e-290 {
            continue;
        }
        ctx.probes += 1;
        let claimed = if t > sg.smaller_root && t < sg.bigger_root { -sg.initial_sign } else { sg.initial_sign };
        ensure!(
            claimed != 0.0 && (claimed > 0.0) == (v > 0.0),
            "at {t:?} the sign is claimed to be that of {claimed:?} (by {sg:?}), but the value is {:e} * {m:e}",
            v
        );
    }
    // Evaluation and shifting.
    if m < 1e100 && m > 1e-100 {
        let t = s.f64(-4.0, 4.0);
        let d = s.f64(-4.0, 4.0);
        let want = q.c2 * t * t + q.c1 * t + q.c0;
        let got = q.eval(t);
        ensure!((got - want).abs() <= 1e-12 * m * 64.0, "the value at {t:?} is {want:?}, not {got:?}");
        let got = q.shift(d).eval(t + d);
        ensure!((got - want).abs() <= 1e-12 * m * 256.0, "shifted by {d:?}, the value is {got:?} and not {want:?}");
        let got = (q + d).eval(t);
        ensure!((got - want - d).abs() <= 1e-12 * (m + 4.0) * 64.0, "with {d:?} added, the value is {got:?}");
    }
    Ok(())
}

fn c14_parab(s: &mut Src, ctx: &mut Ctx) -> Res {
    let c = mono_unit(s);
    let mut c = fix_mono(c).unwrap();
    // Short pieces too, like the ones that subdivision makes.
    if s.bool() {
        let (a, b) = (s.unit(), s.unit());
        let (a, b) = (a.min(b), a.max(b));
        if b - a > 1e-3 {
            match fix_mono(sub(&c, a, b)) {
                Some(q) => c = q,
                None => return Ok(()),
            }
        }
    }
    // Centered, as its documentation recommends.
    let mid = 0.5 * (c.p0.y + c.p3.y);
    let h = c.p3.y - c.p0.y;
    if !(h > 1e-5) {
        return Ok(());
    }
    let k = *s.pick(&[1.0, 1.0, 1.0, 0.01, 100.0]);
    for p in [&mut c.p0, &mut c.p1, &mut c.p2, &mut c.p3] {
        p.y = (p.y - mid) * k;
        p.x *= k;
    }
    let Some(c) = fix_mono(c) else { return Ok(()) };
    let h = c.p3.y - c.p0.y;
    ctx.describe(format!("c=\"{}\"", show(&c)));
    let e = EstParab::from_cubic(c);
    ensure!(e.dmin <= 0.0 && e.dmax >= 0.0, "the error interval is {:?}..{:?}", e.dmin, e.dmax);
    let big = e.c0.abs().max(e.c1.abs() * h).max(e.c2.abs() * h * h).max(mag_of(&[&c]));
    let mut worst = 0.0f64;
    let (mut lo, mut hi) = (0.0f64, 0.0f64);
    for i in 0..=64 {
        let t = i as f64 / 64.0;
        let p = c.eval(t);
        let d = p.x - (e.c0 + e.c1 * p.y + e.c2 * p.y * p.y);
        worst = worst.max(e.dmin - d).max(d - e.dmax);
        lo = lo.min(d);
        hi = hi.max(d);
        ctx.probes += 1;
    }
    ctx.nontrivial = hi - lo > 1e-6 * big;
    ctx.max("outside / width", if e.dmax - e.dmin > 1e-9 * big { worst / (e.dmax - e.dmin) } else { 0.0 });
    ctx.max("outside / size", worst / big);
    ctx.max("width / true width", if hi - lo > 1e-6 * big { (e.dmax - e.dmin) / (hi - lo) } else { 0.0 });
    // The interval comes from two quadratics that the curve lies between; it can't be wider than
    // these are apart.
    let d = (c.p0.lerp(c.p1, 1.5)) - (c.p3.lerp(c.p2, 1.5));
    let slope = e.c1.abs() + 2.0 * e.c2.abs() * h;
    let gap = 0.5 * (d.x.abs() + slope * d.y.abs()) + 5e-3 * (hi - lo) + 1e-9 * big;
    ctx.max("needless width / gap", (lo - e.dmin).max(e.dmax - hi) / gap);
    ensure!(
        e.dmin >= lo - gap && e.dmax <= hi + gap,
        "the error interval {:e}..{:e} is needlessly wide for errors between {lo:e} and {hi:e}", e.dmin, e.dmax
    );
    ensure!(
        worst <= 1e-12 * big,
        "the curve strays {worst:e} outside the error interval {:e}..{:e}", e.dmin, e.dmax
    );
    Ok(())
}

pub fn c14_prop() -> Prop {
    Prop {
        id: "C14",
        rule: "a quadratic counts when it has a root, a curve when it is not a parabola (by 1e-6 of its size)",
        parts: &[("signs", c14_signs, 1500000, 10000000), ("parab", c14_parab, 1000000, 5000000)],
        assumptions: &["signs are not judged where the value is below 1e-11 of its largest term"],
    }
}

// ---------------------------------------------------------------- C19

fn seg_at(s: &mut Src) -> Option<(Segment, CubicBez)> {
    let c = one_curve(s)?;
    let p = linesweeper::Point::from_kurbo;
    Some(if s.chance(1, 4) {
        (Segment::straight(p(c.p0), p(c.p3)), c)
    } else if s.bool() {
        (Segment::from_kurbo_cubic(c), c)
    } else {
        (Segment::monotonic_cubic(p(c.p0), p(c.p1), p(c.p2), p(c.p3)), c)
    })
}

fn c19(s: &mut Src, ctx: &mut Ctx) -> Res {
    let Some((seg, given)) = seg_at(s) else { return Ok(()) };
    let c = seg.to_kurbo_cubic();
    let mag = mag_of(&[&given]);
    let h = given.p3.y - given.p0.y;
    ctx.describe(format!("line={} c=\"{}\"", seg.is_line(), show(&c)));
    let (p0, p1) = (seg.start(), seg.end());
    ensure!(p0.to_kurbo() == given.p0 && p1.to_kurbo() == given.p3, "the ends {p0:?}, {p1:?} are not those it was made with");
    if seg.is_line() {
        // As a cubic, the line goes straight from one end to the other.
        let d = given.p3 - given.p0;
        let mut last = 0.0;
        for i in 1..=8 {
            let v = c.eval(i as f64 / 8.0) - given.p0;
            let t = v.dot(d) / d.hypot2();
            let off = (v - d * t).hypot();
            ensure!(t >= last - 1e-9 && t <= 1.0 + 1e-9 && off <= 1e-12 * mag, "the line's cubic is {:?}", show(&c));
            last = t;
        }
    } else {
        ensure!(c == given, "the cubic is {:?}, made from {:?}", show(&c), show(&given));
    }
    ensure!(p0.to_kurbo() == c.p0 && p1.to_kurbo() == c.p3, "the ends {p0:?}, {p1:?} are not those of the cubic");
    ensure!(!seg.is_horizontal(), "not horizontal");
    let ulp = 1e-15 * mag;
    let ytol = 4e-12 * h + 1e-14 * mag;
    let exact_at = |y: f64, want: f64| -> Res {
        let x = seg.at_y(y);
        let e = (x - want).abs();
        ensure!(e <= if seg.is_line() { ulp } else { 0.0 }, "at the end height {y:?} the position is {x:?} and not {want:?}");
        Ok(())
    };
    exact_at(p0.y, p0.x)?;
    exact_at(p1.y, p1.x)?;
    let full = x_extent_in(&c, p0.y, p1.y);
    ensure!(
        seg.min_x() <= full.0 + ulp && seg.max_x() >= full.1 - ulp,
        "the segment reaches from {:?} to {:?}, not just {:?} to {:?}", full.0, full.1, seg.min_x(), seg.max_x()
    );
    for _ in 0..8 {
        let y = height_in(s, p0.y, p1.y);
        ctx.probes += 1;
        let x = seg.at_y(y);
        let (a, b) = x_extent(&c, y - ytol, y + ytol);
        ensure!(x >= a - 4.0 * ulp - 1e-13 * mag && x <= b + 4.0 * ulp + 1e-13 * mag, "at height {y:?} the curve is at {a:?}..{b:?}, not at {x:?}");
        ensure!(x >= seg.min_x() - 4.0 * ulp && x <= seg.max_x() + 4.0 * ulp, "at height {y:?} the position {x:?} is outside the segment's extent");
        let eps = match s.below(4) {
            0 => mag * s.logf(1e-8, 1e-3),
            1 => h * s.logf(1e-8, 2.0),
            2 => h * (s.range(0, 8) as f64 / 8.0),
            _ => 1e-6 * mag,
        };
        let (l, u) = (seg.lower(y, eps), seg.upper(y, eps));
        let (a, b) = x_extent(&c, y - eps, y + eps);
        if b - a > 1e-6 * mag {
            ctx.nontrivial = true;
        }
        let slack = 1e-12 * mag;
        // The heights where the bounds apply are exact up to `ytol`.
        let (a2, b2) = x_extent(&c, y - eps - ytol, y + eps + ytol);
        if eps > ytol {
            let (a1, b1, _) = x_extent_in(&c, y - eps + ytol, y + eps - ytol);
            ctx.max("lower / mag", (l - (a1 - eps)) / mag);
            ensure!(l <= a1 - eps + slack, "lower({y:?}, {eps:e}) is {l:?}, but the segment gets to {a:?}");
            ensure!(u >= b1 + eps - slack, "upper({y:?}, {eps:e}) is {u:?}, but the segment gets to {b:?}");
        }
        ensure!(l >= a2 - eps - slack, "lower({y:?}, {eps:e}) is {l:?}, but the segment gets no further than {a:?}");
        ensure!(u <= b2 + eps + slack, "upper({y:?}, {eps:e}) is {u:?}, but the segment gets no further than {b:?}");
    }
    Ok(())
}

fn c19_horizontal(s: &mut Src, ctx: &mut Ctx) -> Res {
    let y = s.f64(-10.0, 10.0);
    let (a, b) = (s.f64(-10.0, 10.0), s.f64(-10.0, 10.0));
    let (a, b) = (a.min(b), a.max(b));
    if !(a < b) {
        return Ok(());
    }
    ctx.nontrivial = true;
    ctx.describe(format!("{a:?},{y:?} -- {b:?},{y:?}"));
    let p = |x| linesweeper::Point::new(x, y);
    let seg = if s.bool() {
        Segment::straight(p(a), p(b))
    } else {
        // control points are ignored
        Segment::monotonic_cubic(p(a), p(s.f64(-20.0, 20.0)), p(s.f64(-20.0, 20.0)), p(b))
    };
    ensure!(seg.is_horizontal() && seg.is_line(), "not a horizontal line");
    ensure!(seg.at_y(y) == b, "at_y is {:?}", seg.at_y(y));
    ensure!(seg.min_x() == a && seg.max_x() == b, "extent {:?} {:?}", seg.min_x(), seg.max_x());
    ensure!(seg.start() == p(a) && seg.end() == p(b), "ends {:?} {:?}", seg.start(), seg.end());
    Ok(())
}

/// Points are ordered from top to bottom, and from left to right within a row.
fn c19_points(s: &mut Src, ctx: &mut Ctx) -> Res {
    use linesweeper::Point as LP;
    let coord = |s: &mut Src| match s.below(3) {
        0 => s.range(-2, 2) as f64,
        1 => s.f64(-10.0, 10.0),
        _ => s.range(-2, 2) as f64 * 1e-9,
    };
    let (x0, y0, x1, y1) = (coord(s), coord(s), coord(s), coord(s));
    let (p, q) = (LP::new(x0, y0), LP::from((x1, y1)));
    ctx.describe(format!("{x0:?},{y0:?} and {x1:?},{y1:?}"));
    ctx.nontrivial = x0 != x1 && y0 != y1;
    let want = if y0 != y1 { y0.partial_cmp(&y1) } else { x0.partial_cmp(&x1) };
    ensure!(Some(p.cmp(&q)) == want && p.partial_cmp(&q) == want, "{p:?} compares {:?} to {q:?}", p.cmp(&q));
    ensure!(q.cmp(&p) == p.cmp(&q).reverse(), "comparing the other way around gives {:?}", q.cmp(&p));
    ensure!((p == q) == (x0 == x1 && y0 == y1), "equality of {p:?} and {q:?}");
    ensure!((p < q, p > q, p <= q) == (want == Some(std::cmp::Ordering::Less), want == Some(std::cmp::Ordering::Greater), want != Some(std::cmp::Ordering::Greater)), "the comparison operators disagree on {p:?} and {q:?}");
    let k: Point = p.to_kurbo();
    ensure!(k == Point::new(x0, y0) && Point::from(p) == k && LP::from_kurbo(k) == p && LP::from(k) == p, "{p:?} becomes {k:?}");
    let t = s.range(0, 8) as f64 / 8.0;
    let m = p.affine(&q, t);
    let near = |a: f64, u: f64, v: f64| (a - (u + (v - u) * t)).abs() <= 1e-15 * (u.abs() + v.abs());
    ensure!(near(m.x, x0, x1) && near(m.y, y0, y1), "{t} of the way from {p:?} to {q:?} is {m:?}");
    Ok(())
}

pub fn c19_prop() -> Prop {
    Prop {
        id: "C19",
        rule: "a case counts when a bound was asked for where the segment spans more than 1e-6 of the largest coordinate",
        parts: &[("segments", c19, 900000, 4000000), ("horizontal", c19_horizontal, 120000, 360000), ("points", c19_points, 120000, 360000)],
        assumptions: &["positions may be off by what a height error of 4e-12 of the segment's height makes"],
    }
}
