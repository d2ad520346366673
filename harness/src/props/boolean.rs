//! Properties of the boolean operations as a whole.

use super::util::*;
use crate::engine::*;
use crate::gen::*;
use crate::oracle::*;
use kurbo::{BezPath, Point};

// ---------------------------------------------------------------- C01

fn pointwise(s: &mut Src, ctx: &mut Ctx, o: Opts, n: usize) -> Res {
    let c = pair_case(s, o);
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    ctx.describe(format!("{} rule={rule:?} op={op:?}", c.show()));
    label_case(ctx, &c);
    let out = run_op(&c, rule, op)?;
    let (pa, pb) = (pieces(&c.a), pieces(&c.b));
    let all = join(&[&pa, &pb]);
    let out = contour_pieces(&out);
    let probes = probe_points(s, &all, c.tol(), n);
    check_pointwise(ctx, &out, &probes, c.tol(), &mut |p, tol| {
        let (wa, wb) = (winding(&pa, p, tol)?, winding(&pb, p, tol)?);
        Some(combine(op, inside(rule, wa), inside(rule, wb)))
    })
}

fn c01_polygons(s: &mut Src, ctx: &mut Ctx) -> Res {
    pointwise(s, ctx, Opts { curves: Some(false), ..COARSE }, 60)
}
fn c01_curves(s: &mut Src, ctx: &mut Ctx) -> Res {
    pointwise(s, ctx, Opts { curves: Some(true), ..COARSE }, 60)
}
fn c01_auto(s: &mut Src, ctx: &mut Ctx) -> Res {
    pointwise(s, ctx, AUTO, 60)
}
fn c01_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    pointwise(
        s,
        ctx,
        Opts {
            min_shapes: 5,
            max_shapes: 14,
            ..COARSE
        },
        150,
    )
}

fn c01_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    pointwise(s, ctx, WIDE, 150)
}

/// Small integer polygons, judged everywhere on a fine grid, for all operations and rules.
fn c01_lattice(s: &mut Src, ctx: &mut Ctx) -> Res {
    let g = s.range(2, 6);
    let mut paths = vec![];
    for _ in 0..2 {
        let mut p = BezPath::new();
        for _ in 0..s.usize(1, 3) {
            let n = s.usize(3, 6);
            for i in 0..n {
                let q = Point::new(s.range(0, g) as f64, s.range(0, g) as f64);
                if i == 0 {
                    p.move_to(q)
                } else {
                    p.line_to(q)
                }
            }
            p.close_path();
        }
        paths.push(p);
    }
    let b = paths.pop().unwrap();
    let a = paths.pop().unwrap();
    let mag = g as f64;
    let auto = s.bool();
    let eps = if auto { auto_eps(&[&a, &b]) } else { *s.pick(&[1e-5, 1e-4, 1e-3]) };
    let c = PairCase { a, b, eps, auto, mag, classes: vec![] };
    ctx.describe(c.show());
    label_case(ctx, &c);
    let (pa, pb) = (pieces(&c.a), pieces(&c.b));
    let mut probes = vec![];
    // Offsets that keep clear of lines between lattice points for most of the grid.
    let k = 4;
    for i in 0..k * g {
        for j in 0..k * g {
            probes.push(Point::new(
                (i as f64 + 0.37 + 0.01 * (j % 3) as f64) / k as f64,
                (j as f64 + 0.59 - 0.013 * (i % 3) as f64) / k as f64,
            ));
        }
    }
    let tol = c.tol();
    let w: Vec<Option<(i32, i32)>> = probes
        .iter()
        .map(|p| Some((winding(&pa, *p, tol)?, winding(&pb, *p, tol)?)))
        .collect();
    let rule = *s.pick(&RULES);
    for op in OPS {
        let out = contour_pieces(&run_op(&c, rule, op)?);
        let mut i = 0;
        check_pointwise(ctx, &out, &probes, tol, &mut |_, _| {
            i += 1;
            w[i - 1].map(|(wa, wb)| combine(op, inside(rule, wa), inside(rule, wb)))
        })
        .map_err(|e| format!("{rule:?} {op:?}: {e}"))?;
    }
    Ok(())
}

/// Lattice polygons of very different sizes (or one of them missing), with the automatic tolerance.
fn c01_scales(s: &mut Src, ctx: &mut Ctx) -> Res {
    let g = s.range(2, 9);
    let mut paths = vec![];
    let mut heights = vec![];
    for k in 0..2 {
        let mut p = BezPath::new();
        let scale = 10f64.powi(s.range(-3, 13) as i32) * *s.pick(&[1.0, 1.0, 0.7, 1.0 / 3.0]);
        // Sometimes much smaller in one direction.
        let (mut sx, mut sy) = (scale, scale);
        if s.chance(1, 3) {
            let k = 10f64.powi(-s.range(1, 12) as i32);
            if s.bool() {
                sx *= k
            } else {
                sy *= k
            }
        }
        let (ox, oy) = (*s.pick(&[0, 0, -g / 2, -g]), *s.pick(&[0, 0, -g / 2, -g]));
        let n = if k == 0 && s.chance(1, 8) { 0 } else { s.usize(1, 3) };
        let curves = s.chance(1, 3);
        for _ in 0..n {
            let n = s.usize(3, 6);
            for i in 0..n {
                let q = Point::new((s.range(0, g) + ox) as f64 * sx, (s.range(0, g) + oy) as f64 * sy);
                if i == 0 {
                    p.move_to(q)
                } else if curves && s.bool() {
                    let m = Point::new((s.range(0, g) + ox) as f64 * sx, (s.range(0, g) + oy) as f64 * sy);
                    if s.bool() {
                        p.quad_to(m, q)
                    } else {
                        p.curve_to(m, Point::new(q.x, m.y), q)
                    }
                } else {
                    p.line_to(q)
                }
            }
            p.close_path();
        }
        paths.push(p);
        heights.push((sx > sy).then_some(sy));
    }
    // Wide shapes hardly higher than the tolerance, or lower, are a known finding (of C08): leave
    // those out.
    let eps = 1e3 * auto_eps(&[&paths[0], &paths[1]]);
    for (p, h) in paths.iter_mut().zip(heights) {
        if let Some(h) = h.filter(|h| *h < eps) {
            p.apply_affine(kurbo::Affine::scale_non_uniform(1.0, eps / h));
        }
    }
    if s.bool() {
        paths.swap(0, 1);
    }
    let b = paths.pop().unwrap();
    let a = paths.pop().unwrap();
    let mag = magnitude(&[&a, &b]);
    let eps = auto_eps(&[&a, &b]);
    let c = PairCase { a, b, eps, auto: true, mag, classes: vec![] };
    ctx.describe(c.show());
    label_case(ctx, &c);
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    let out = contour_pieces(&run_op(&c, rule, op)?);
    let (pa, pb) = (pieces(&c.a), pieces(&c.b));
    let all = join(&[&pa, &pb]);
    let tol = c.tol();
    let mut probes = probe_points(s, &pa, tol, 30);
    probes.extend(probe_points(s, &pb, tol, 30));
    check_pointwise(ctx, &out, &probes, tol, &mut |p, tol| {
        let (wa, wb) = (winding(&pa, p, tol)?, winding(&pb, p, tol)?);
        Some(combine(op, inside(rule, wa), inside(rule, wb)))
    })?;
    for piece in &out {
        for i in 0..=4 {
            let q = piece.eval(i as f64 / 4.0);
            let d = distance(&all, q, tol * 0.01);
            ctx.max("deviation/eps", d / eps);
            ensure!(d <= tol, "output point {q:?} is {d:e} away from the input, allowed {tol:e}");
        }
    }
    Ok(())
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "a case counts when at least one probe that must be inside and one that must be outside the result were decided (both farther from every input curve than the tolerance)",
        parts: &[
            ("polygons", c01_polygons, 100000, 1500000),
            ("curves", c01_curves, 100000, 1500000),
            ("auto", c01_auto, 60000, 600000),
            ("many", c01_many, 3000, 40000),
            ("wide", c01_wide, 900, 10000),
            ("lattice", c01_lattice, 24000, 400000),
            ("scales", c01_scales, 60000, 600000),
        ],
        assumptions: &[
            "points within 6 tolerances of an input curve are not judged (plus 1e-8 of the largest coordinate when the tolerance is below 1e-6 of it)",
            "finite closed paths with coordinates up to 1e14",
        ],
    }
}

// ---------------------------------------------------------------- C02

fn near_input(s: &mut Src, ctx: &mut Ctx, o: Opts) -> Res {
    let c = pair_case(s, o);
    let rule = *s.pick(&RULES);
    let op = *s.pick(&OPS);
    ctx.describe(format!("{} rule={rule:?} op={op:?}", c.show()));
    label_case(ctx, &c);
    let out = run_op(&c, rule, op)?;
    let all = join(&[&pieces(&c.a), &pieces(&c.b)]);
    let out = contour_pieces(&out);
    let tol = c.tol();
    for q in &out {
        for i in 0..=8 {
            let p = q.eval(i as f64 / 8.0);
            ctx.probes += 1;
            if !within(&all, p, tol) {
                let d = distance(&all, p, tol * 1e-3);
                ensure!(
                    d <= tol,
                    "output point ({}, {}) is {:e} away from the input curves, allowed {:e}",
                    p.x,
                    p.y,
                    d,
                    tol
                );
            }
        }
    }
    ctx.nontrivial = !out.is_empty();
    Ok(())
}

fn c02_polygons(s: &mut Src, ctx: &mut Ctx) -> Res {
    near_input(s, ctx, Opts { curves: Some(false), ..COARSE })
}
fn c02_curves(s: &mut Src, ctx: &mut Ctx) -> Res {
    near_input(s, ctx, Opts { curves: Some(true), ..COARSE })
}
fn c02_auto(s: &mut Src, ctx: &mut Ctx) -> Res {
    near_input(s, ctx, AUTO)
}
fn c02_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    near_input(
        s,
        ctx,
        Opts {
            min_shapes: 5,
            max_shapes: 14,
            ..COARSE
        },
    )
}
fn c02_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    near_input(s, ctx, WIDE)
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "a case counts when the output is not empty (every output segment is sampled at nine parameters)",
        parts: &[
            ("polygons", c02_polygons, 60000, 1500000),
            ("curves", c02_curves, 60000, 1500000),
            ("auto", c02_auto, 40000, 600000),
            ("many", c02_many, 4000, 40000),
            ("wide", c02_wide, 600, 6000),
        ],
        assumptions: &[
            "nine samples per output segment stand for the whole segment",
            "6 tolerances allowed (plus 1e-8 of the largest coordinate when the tolerance is below 1e-6 of it)",
        ],
    }
}

