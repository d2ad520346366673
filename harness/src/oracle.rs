//! Independent geometric oracles: winding numbers and distances, straight from the
//! control polygons, by subdivision.

use kurbo::{BezPath, CubicBez, ParamCurve, PathSeg, Point, Rect};

#[derive(Clone, Copy, Debug)]
pub struct Piece {
    pub c: CubicBez,
    pub line: bool,
    pub bbox: Rect,
}

impl Piece {
    pub fn new(c: CubicBez, line: bool) -> Self {
        Piece {
            c,
            line,
            bbox: if line {
                Rect::from_points(c.p0, c.p3)
            } else {
                hull_box(&c)
            },
        }
    }
    pub fn eval(&self, t: f64) -> Point {
        if self.line {
            self.c.p0.lerp(self.c.p3, t)
        } else {
            self.c.eval(t)
        }
    }
}

pub fn hull_box(c: &CubicBez) -> Rect {
    Rect::new(
        c.p0.x.min(c.p1.x).min(c.p2.x).min(c.p3.x),
        c.p0.y.min(c.p1.y).min(c.p2.y).min(c.p3.y),
        c.p0.x.max(c.p1.x).max(c.p2.x).max(c.p3.x),
        c.p0.y.max(c.p1.y).max(c.p2.y).max(c.p3.y),
    )
}

pub fn piece_of(seg: &PathSeg) -> Piece {
    match *seg {
        PathSeg::Line(l) => Piece::new(
            CubicBez::new(l.p0, l.p0.lerp(l.p1, 1.0 / 3.0), l.p0.lerp(l.p1, 2.0 / 3.0), l.p1),
            true,
        ),
        PathSeg::Quad(q) => Piece::new(
            CubicBez::new(
                q.p0,
                q.p0 + (q.p1 - q.p0) * (2.0 / 3.0),
                q.p2 + (q.p1 - q.p2) * (2.0 / 3.0),
                q.p2,
            ),
            false,
        ),
        PathSeg::Cubic(c) => Piece::new(c, false),
    }
}

pub fn pieces(p: &BezPath) -> Vec<Piece> {
    crate::gen::subpaths(p)
        .iter()
        .flatten()
        .map(piece_of)
        .collect()
}

/// Splits at the parameter middle; both halves share the middle point exactly.
pub fn halves(p: &Piece) -> (Piece, Piece) {
    let c = &p.c;
    if p.line {
        let m = c.p0.midpoint(c.p3);
        let f = |a: Point, b: Point| Piece {
            c: CubicBez::new(a, a, b, b),
            line: true,
            bbox: Rect::from_points(a, b),
        };
        (f(c.p0, m), f(m, c.p3))
    } else {
        let a = c.p0.midpoint(c.p1);
        let b = c.p1.midpoint(c.p2);
        let d = c.p2.midpoint(c.p3);
        let ab = a.midpoint(b);
        let bd = b.midpoint(d);
        let m = ab.midpoint(bd);
        (
            Piece::new(CubicBez::new(c.p0, a, ab, m), false),
            Piece::new(CubicBez::new(m, bd, d, c.p3), false),
        )
    }
}

/// The winding number of the pieces around `p`, or `None` if `p` is (almost) within
/// `delta` of one of them (in the max norm).
pub fn winding(ps: &[Piece], p: Point, delta: f64) -> Option<i32> {
    let mut w = 0;
    for q in ps {
        w += wind1(q, p, delta, 0)?;
    }
    Some(w)
}

fn wind1(q: &Piece, p: Point, delta: f64, depth: u32) -> Option<i32> {
    let b = &q.bbox;
    if p.y < b.y0 - delta || p.y > b.y1 + delta || p.x < b.x0 - delta {
        // Above, below, or wholly to the right of p: a ray to the left does not meet it.
        return Some(0);
    }
    if p.x > b.x1 + delta {
        // Wholly to the left of p: the piece is homotopic to its chord in the complement of p.
        let (a, e) = (q.c.p0.y, q.c.p3.y);
        return Some(if a <= p.y && p.y < e {
            1
        } else if e <= p.y && p.y < a {
            -1
        } else {
            0
        });
    }
    if b.width().max(b.height()) <= delta || depth > 80 {
        return None;
    }
    let (l, r) = halves(q);
    Some(wind1(&l, p, delta, depth + 1)? + wind1(&r, p, delta, depth + 1)?)
}

fn box_dist2(b: &Rect, p: Point) -> f64 {
    let dx = (b.x0 - p.x).max(p.x - b.x1).max(0.0);
    let dy = (b.y0 - p.y).max(p.y - b.y1).max(0.0);
    dx * dx + dy * dy
}

/// Squared distance from a point to a line segment.
pub fn seg_dist2(a: Point, b: Point, p: Point) -> f64 {
    let d = b - a;
    let l2 = d.hypot2();
    if l2 == 0.0 {
        return (p - a).hypot2();
    }
    let t = ((p - a).dot(d) / l2).clamp(0.0, 1.0);
    (p - (a + d * t)).hypot2().min((p - b).hypot2())
}

/// Is some point of the pieces within (about) `r` of p?
pub fn within(ps: &[Piece], p: Point, r: f64) -> bool {
    fn go(q: &Piece, p: Point, r2: f64, depth: u32) -> bool {
        if box_dist2(&q.bbox, p) > r2 {
            return false;
        }
        if q.line {
            return seg_dist2(q.c.p0, q.c.p3, p) <= r2;
        }
        if (q.c.p0 - p).hypot2() <= r2 || (q.c.p3 - p).hypot2() <= r2 {
            return true;
        }
        if depth > 60 {
            return true;
        }
        // Tiny piece whose box is within reach: close enough to call.
        let (w, h) = (q.bbox.width(), q.bbox.height());
        if w * w + h * h < r2 * 1e-6 {
            return true;
        }
        let (a, b) = halves(q);
        go(&a, p, r2, depth + 1) || go(&b, p, r2, depth + 1)
    }
    ps.iter().any(|q| go(q, p, r * r, 0))
}

/// The distance from p to the pieces, up to a relative error of about 1e-6 and an absolute
/// one of `abs`; infinity when there are no pieces.
pub fn distance(ps: &[Piece], p: Point, abs: f64) -> f64 {
    let mut best = f64::INFINITY;
    for q in ps {
        best = best.min((q.c.p0 - p).hypot()).min((q.c.p3 - p).hypot());
    }
    fn go(q: &Piece, p: Point, best: &mut f64, abs: f64, depth: u32) {
        if q.line {
            *best = best.min(seg_dist2(q.c.p0, q.c.p3, p).sqrt());
            return;
        }
        let lb = box_dist2(&q.bbox, p).sqrt();
        if lb >= *best * (1.0 - 1e-6) - abs || depth > 70 {
            return;
        }
        let (a, b) = halves(q);
        *best = best.min((a.c.p3 - p).hypot());
        let (da, db) = (box_dist2(&a.bbox, p), box_dist2(&b.bbox, p));
        if da <= db {
            go(&a, p, best, abs, depth + 1);
            go(&b, p, best, abs, depth + 1);
        } else {
            go(&b, p, best, abs, depth + 1);
            go(&a, p, best, abs, depth + 1);
        }
    }
    let mut order: Vec<(f64, usize)> = ps
        .iter()
        .enumerate()
        .map(|(i, q)| (box_dist2(&q.bbox, p), i))
        .collect();
    order.sort_by(|a, b| a.0.total_cmp(&b.0));
    for (_, i) in order {
        go(&ps[i], p, &mut best, abs, 0);
    }
    best
}

/// Signed area by exact integration of the control polygons (Green).
pub fn signed_area(ps: &[Piece], origin: Point) -> f64 {
    let mut s = 0.0;
    for q in ps {
        let f = |p: Point| (p - origin).to_point();
        let (p0, p1, p2, p3) = (f(q.c.p0), f(q.c.p1), f(q.c.p2), f(q.c.p3));
        if q.line {
            s += 0.5 * (p0.x * p3.y - p3.x * p0.y);
        } else {
            // standard formula (as in kurbo), recomputed
            s += (p0.x * (6.0 * p1.y + 3.0 * p2.y + p3.y)
                + 3.0 * (p1.x * (-2.0 * p0.y + p2.y + p3.y) - p2.x * (p0.y + p1.y - 2.0 * p3.y))
                - p3.x * (p0.y + 3.0 * p1.y + 6.0 * p2.y))
                / 20.0;
        }
    }
    s
}

/// Total length upper bound (control polygon).
pub fn poly_length(ps: &[Piece]) -> f64 {
    ps.iter()
        .map(|q| {
            if q.line {
                (q.c.p3 - q.c.p0).hypot()
            } else {
                (q.c.p1 - q.c.p0).hypot() + (q.c.p2 - q.c.p1).hypot() + (q.c.p3 - q.c.p2).hypot()
            }
        })
        .sum()
}

pub fn bbox(ps: &[Piece]) -> Rect {
    let mut r: Option<Rect> = None;
    for q in ps {
        r = Some(match r {
            None => q.bbox,
            Some(b) => b.union(q.bbox),
        });
    }
    r.unwrap_or(Rect::ZERO)
}

/// A tight bounding box (by subdivision to `tol`).
pub fn tight_bbox(ps: &[Piece], tol: f64) -> Option<Rect> {
    fn go(q: &Piece, r: &mut Rect, tol: f64, depth: u32) {
        *r = r.union_pt(q.c.p0).union_pt(q.c.p3);
        let b = &q.bbox;
        if b.x0 >= r.x0 - tol && b.x1 <= r.x1 + tol && b.y0 >= r.y0 - tol && b.y1 <= r.y1 + tol {
            return;
        }
        if depth > 60 {
            return;
        }
        let (a, c) = halves(q);
        go(&a, r, tol, depth + 1);
        go(&c, r, tol, depth + 1);
    }
    let first = ps.first()?;
    let mut r = Rect::from_points(first.c.p0, first.c.p0);
    for q in ps {
        r = r.union_pt(q.c.p0).union_pt(q.c.p3);
    }
    for q in ps {
        go(q, &mut r, tol, 0);
    }
    Some(r)
}

/// Total arc length, to within about `abs` per piece.
pub fn arc_length(ps: &[Piece], abs: f64) -> f64 {
    use kurbo::ParamCurveArclen;
    ps.iter()
        .map(|q| {
            if q.line {
                (q.c.p3 - q.c.p0).hypot()
            } else {
                q.c.arclen(abs)
            }
        })
        .sum()
}
