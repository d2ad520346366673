//! Things shared by the properties.

use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use kurbo::{BezPath, Point, Rect, Vec2};
use linesweeper::topology::Contours;
use linesweeper::{binary_op, binary_op_with_eps, BinaryOp, FillRule};

pub const OPS: [BinaryOp; 4] = [
    BinaryOp::Union,
    BinaryOp::Intersection,
    BinaryOp::Difference,
    BinaryOp::Xor,
];
pub const RULES: [FillRule; 2] = [FillRule::EvenOdd, FillRule::NonZero];

pub fn inside(rule: FillRule, w: i32) -> bool {
    match rule {
        FillRule::EvenOdd => w % 2 != 0,
        FillRule::NonZero => w != 0,
    }
}

pub fn combine(op: BinaryOp, a: bool, b: bool) -> bool {
    match op {
        BinaryOp::Union => a || b,
        BinaryOp::Intersection => a && b,
        BinaryOp::Difference => a && !b,
        BinaryOp::Xor => a != b,
    }
}

pub fn run_op(c: &PairCase, rule: FillRule, op: BinaryOp) -> Result<Contours, String> {
    let r = if c.auto {
        binary_op(&c.a, &c.b, rule, op)
    } else {
        binary_op_with_eps(&c.a, &c.b, rule, op, c.eps)
    };
    r.map_err(|e| format!("finite closed paths were rejected: {e:?}"))
}

pub fn contour_pieces(c: &Contours) -> Vec<Piece> {
    c.contours().flat_map(|k| pieces(&k.path)).collect()
}

pub fn join(ps: &[&[Piece]]) -> Vec<Piece> {
    ps.iter().flat_map(|p| p.iter().copied()).collect()
}

pub fn rect_path(r: Rect) -> BezPath {
    let mut p = BezPath::new();
    p.move_to((r.x0, r.y0));
    p.line_to((r.x1, r.y0));
    p.line_to((r.x1, r.y1));
    p.line_to((r.x0, r.y1));
    p.close_path();
    p
}

/// Points to probe: uniform ones, ones near the curves (at distances from the smallest decidable
/// one up), ones halfway between curves, and ones near curve endpoints.
pub fn probe_points(s: &mut Src, ps: &[Piece], tol: f64, n: usize) -> Vec<Point> {
    let bb = bbox(ps).inflate(tol * 10.0, tol * 10.0);
    let size = bb.width().max(bb.height());
    let mut out = vec![];
    for _ in 0..n {
        let k = s.weighted(&[3, 3, 4, 2, 2]);
        let p = if ps.is_empty() || k == 0 {
            Point::new(s.f64(bb.x0, bb.x1), s.f64(bb.y0, bb.y1))
        } else {
            match k {
                1 => {
                    let q = s.pick(ps);
                    let t = s.unit();
                    let a = s.f64(0.0, std::f64::consts::TAU);
                    let r = s.logf(tol, (size * 0.3).max(2.0 * tol));
                    q.eval(t) + Vec2::new(a.cos(), a.sin()) * r
                }
                2 => {
                    let q = s.pick(ps);
                    let t = s.unit();
                    let a = s.f64(0.0, std::f64::consts::TAU);
                    let r = tol * s.logf(1.1, 10.0);
                    q.eval(t) + Vec2::new(a.cos(), a.sin()) * r
                }
                3 => {
                    let q = *s.pick(ps);
                    let r = *s.pick(ps);
                    q.eval(s.unit()).midpoint(r.eval(s.unit()))
                }
                _ => {
                    let q = *s.pick(ps);
                    let e = if s.bool() { q.c.p0 } else { q.c.p3 };
                    let a = s.f64(0.0, std::f64::consts::TAU);
                    let r = tol * s.logf(1.1, 100.0);
                    e + Vec2::new(a.cos(), a.sin()) * r
                }
            }
        };
        out.push(p);
    }
    out
}

/// Compares the filled output with a predicate at the probe points. Points closer than `tol` to
/// the input curves are not judged.
pub fn check_pointwise(
    ctx: &mut Ctx,
    out: &[Piece],
    probes: &[Point],
    tol: f64,
    want: &mut dyn FnMut(Point, f64) -> Option<bool>,
) -> Res {
    let (mut ins, mut outs) = (0, 0);
    for &p in probes {
        let Some(want) = want(p, tol) else { continue };
        ctx.probes += 1;
        if want {
            ins += 1;
        } else {
            outs += 1;
        }
        // The output's own curves stay within the tolerance of the input's, so this is decidable;
        // when it is not, the output has a curve where there is no input.
        match winding(out, p, tol * 0.05) {
            Some(w) => {
                ensure!(
                    (w != 0) == want && (w % 2 != 0) == want,
                    "point ({}, {}) should be {}, but the output winds {} times around it",
                    p.x,
                    p.y,
                    if want { "inside" } else { "outside" },
                    w
                );
            }
            None => {
                return Err(format!(
                    "output curve passes through ({}, {}), which is farther than {:e} from the input",
                    p.x, p.y, tol
                ))
            }
        }
    }
    if ins > 0 {
        ctx.label("probed-inside");
    }
    if outs > 0 {
        ctx.label("probed-outside");
    }
    if ins > 0 && outs > 0 {
        ctx.nontrivial = true;
    }
    Ok(())
}

/// A short list of the classes of a case.
pub fn label_case(ctx: &mut Ctx, c: &PairCase) {
    for l in &c.classes {
        ctx.label(l);
    }
    ctx.label(if c.auto { "auto-tolerance" } else { "explicit-tolerance" });
}

pub fn perturb_none(_: &mut Src) {}

/// Splits pieces from an output path into the vertices it visits.
pub fn vertices(p: &BezPath) -> Vec<Point> {
    let mut v = vec![];
    for e in p.elements() {
        if let Some(q) = el_points(e).last() {
            v.push(*q);
        }
    }
    v
}
