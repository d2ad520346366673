//! Structured generators of Bézier paths.

use crate::engine::Src;
use kurbo::{Affine, BezPath, PathEl, Point, Shape, Vec2};

/// Maps "unit" coordinates to final ones.
#[derive(Clone, Copy, Debug)]
pub struct Frame {
    pub scale: f64,
    pub off: Vec2,
    pub rot: f64,
}

impl Frame {
    pub fn identity() -> Self {
        Frame {
            scale: 1.0,
            off: Vec2::ZERO,
            rot: 0.0,
        }
    }
    pub fn map(&self, p: Point) -> Point {
        let (x, y) = if self.rot == 0.0 {
            (p.x, p.y)
        } else {
            let (s, c) = self.rot.sin_cos();
            (p.x * c - p.y * s, p.x * s + p.y * c)
        };
        Point::new(x * self.scale + self.off.x, y * self.scale + self.off.y)
    }
    pub fn map_path(&self, p: &BezPath) -> BezPath {
        let f = |q: Point| self.map(q);
        p.elements()
            .iter()
            .map(|e| match *e {
                PathEl::MoveTo(p) => PathEl::MoveTo(f(p)),
                PathEl::LineTo(p) => PathEl::LineTo(f(p)),
                PathEl::QuadTo(a, b) => PathEl::QuadTo(f(a), f(b)),
                PathEl::CurveTo(a, b, c) => PathEl::CurveTo(f(a), f(b), f(c)),
                PathEl::ClosePath => PathEl::ClosePath,
            })
            .collect()
    }
}

/// Generator of paths in unit space: coordinates are mostly small integers in `0..=g`.
pub struct Gen<'a> {
    pub s: &'a mut Src,
    pub g: i64,
    pub pool: Vec<Point>,
    /// 0: integers, 1: integers and halves, 2: floats
    pub coord_mode: u8,
    /// Tiny displacement (unit space) for near-coincidences.
    pub tiny: f64,
    pub curves: bool,
    pub shapes: Vec<BezPath>,
    pub classes: Vec<&'static str>,
}

impl<'a> Gen<'a> {
    pub fn new(s: &'a mut Src) -> Self {
        let g = *s.pick(&[4i64, 8, 16, 100]);
        let coord_mode = s.weighted(&[4, 2, 3]) as u8;
        let curves = s.chance(2, 3);
        Gen {
            s,
            g,
            pool: vec![],
            coord_mode,
            tiny: 0.0,
            curves,
            shapes: vec![],
            classes: vec![],
        }
    }

    pub fn coord(&mut self) -> f64 {
        match self.coord_mode {
            0 => self.s.range(0, self.g) as f64,
            1 => self.s.range(0, 2 * self.g) as f64 * 0.5,
            _ => self.s.f64(0.0, self.g as f64),
        }
    }

    pub fn pt(&mut self) -> Point {
        if !self.pool.is_empty() && self.s.chance(1, 5) {
            let p = *self.s.pick(&self.pool.clone());
            if self.tiny > 0.0 && self.s.chance(1, 3) {
                let d = self.tiny_vec();
                return p + d;
            }
            return p;
        }
        let p = Point::new(self.coord(), self.coord());
        if self.pool.len() < 40 {
            self.pool.push(p);
        }
        p
    }

    pub fn tiny_vec(&mut self) -> Vec2 {
        let k = self.s.weighted(&[3, 2, 2, 2]);
        let m = match k {
            0 => self.tiny,
            1 => self.tiny * self.s.f64(0.0, 2.0),
            2 => self.tiny * 0.1,
            _ => self.tiny * self.s.f64(0.0, 20.0),
        };
        match self.s.below(3) {
            0 => Vec2::new(m, 0.0),
            1 => Vec2::new(0.0, m),
            _ => Vec2::new(m * self.s.f64(-1.0, 1.0), m * self.s.f64(-1.0, 1.0)),
        }
    }

    fn close(&mut self, mut p: BezPath, start: Point) -> BezPath {
        match self.s.below(3) {
            0 => p.close_path(),
            1 => p.line_to(start),
            _ => {
                p.line_to(start);
                p.close_path();
            }
        }
        p
    }

    pub fn polygon(&mut self, n: usize) -> BezPath {
        let mut p = BezPath::new();
        let s = self.pt();
        p.move_to(s);
        let mut last = s;
        for _ in 1..n {
            let mut q = self.pt();
            // Axis-aligned steps are the interesting ones for a sweep.
            match self.s.weighted(&[5, 2, 2]) {
                1 => q.y = last.y,
                2 => q.x = last.x,
                _ => {}
            }
            p.line_to(q);
            last = q;
        }
        self.close(p, s)
    }

    pub fn rect(&mut self) -> BezPath {
        let a = self.pt();
        let b = self.pt();
        let mut p = BezPath::new();
        p.move_to(a);
        if self.s.bool() {
            p.line_to((b.x, a.y));
            p.line_to(b);
            p.line_to((a.x, b.y));
        } else {
            p.line_to((a.x, b.y));
            p.line_to(b);
            p.line_to((b.x, a.y));
        }
        self.close(p, a)
    }

    pub fn ellipse(&mut self) -> BezPath {
        let c = self.pt();
        let g = self.g as f64;
        let rx = if self.coord_mode == 2 {
            self.s.f64(0.05, 0.6) * g
        } else {
            self.s.range(1, self.g / 2) as f64
        };
        let ry = if self.s.bool() {
            rx
        } else if self.coord_mode == 2 {
            self.s.f64(0.01, 0.6) * g
        } else {
            self.s.range(1, self.g / 2) as f64
        };
        // Four exact-extremum arcs.
        let k = 0.5522847498307936;
        let mut p = BezPath::new();
        let pt = |x: f64, y: f64| Point::new(c.x + rx * x, c.y + ry * y);
        let rev = self.s.bool();
        let f = if rev { -1.0 } else { 1.0 };
        p.move_to(pt(1.0, 0.0));
        p.curve_to(pt(1.0, f * k), pt(k, f), pt(0.0, f));
        p.curve_to(pt(-k, f), pt(-1.0, f * k), pt(-1.0, 0.0));
        p.curve_to(pt(-1.0, -f * k), pt(-k, -f), pt(0.0, -f));
        p.curve_to(pt(k, -f), pt(1.0, -f * k), pt(1.0, 0.0));
        p.close_path();
        if self.s.chance(1, 3) {
            let a = self.s.f64(0.0, 3.2);
            p = Affine::rotate_about(a, c) * p;
        }
        p
    }

    /// A closed path of random lines, quads and cubics.
    pub fn curvy(&mut self, n: usize) -> BezPath {
        let mut p = BezPath::new();
        let s = self.pt();
        p.move_to(s);
        let mut last = s;
        for i in 0..n {
            let end = if i + 1 == n { s } else { self.pt() };
            match self.s.weighted(&[2, 3, 5]) {
                0 => p.line_to(end),
                1 => {
                    let c = self.pt();
                    p.quad_to(c, end);
                }
                _ => {
                    let (a, b) = match self.s.weighted(&[6, 1, 1, 1, 2, 1]) {
                        0 => (self.pt(), self.pt()),
                        1 => (last, self.pt()),
                        2 => (self.pt(), end),
                        3 => (last, end),
                        4 => {
                            // horizontal / vertical tangents
                            let w = self.pt();
                            if self.s.bool() {
                                (Point::new(w.x, last.y), Point::new(w.x, end.y))
                            } else {
                                (Point::new(last.x, w.y), Point::new(end.x, w.y))
                            }
                        }
                        _ => {
                            let w = self.pt();
                            (w, w)
                        }
                    };
                    p.curve_to(a, b, end);
                }
            }
            last = end;
        }
        if self.s.bool() {
            p.close_path();
        }
        p
    }

    pub fn star(&mut self) -> BezPath {
        let n = self.s.usize(5, 9);
        let k = self.s.usize(2, 3);
        let c = self.pt();
        let r = self.s.f64(0.2, 0.6) * self.g as f64;
        let ph = self.s.f64(0.0, 1.0);
        let mut p = BezPath::new();
        // gcd(n, k) may be > 1; then go around the sub-polygon only
        let mut pts = vec![];
        let mut i = 0;
        loop {
            let a = ph + i as f64 / n as f64 * std::f64::consts::TAU;
            pts.push(Point::new(c.x + r * a.cos(), c.y + r * a.sin()));
            i = (i + k) % n;
            if i == 0 {
                break;
            }
        }
        p.move_to(pts[0]);
        for q in &pts[1..] {
            p.line_to(*q);
        }
        p.close_path();
        p
    }

    /// A row or grid of cells, optionally of alternating orientation.
    pub fn grid(&mut self) -> BezPath {
        let nx = self.s.usize(1, 5);
        let ny = self.s.usize(1, 5);
        let o = self.pt();
        let w = self.s.range(1, 3) as f64;
        let gap = *self.s.pick(&[0.0, 0.0, 1.0, 0.5]);
        let alt = self.s.bool();
        let checker = self.s.bool();
        let mut p = BezPath::new();
        for i in 0..nx {
            for j in 0..ny {
                if checker && (i + j) % 2 == 1 {
                    continue;
                }
                let x = o.x + i as f64 * (w + gap);
                let y = o.y + j as f64 * (w + gap);
                p.move_to((x, y));
                if alt && (i + j) % 2 == 0 {
                    p.line_to((x, y + w));
                    p.line_to((x + w, y + w));
                    p.line_to((x + w, y));
                } else {
                    p.line_to((x + w, y));
                    p.line_to((x + w, y + w));
                    p.line_to((x, y + w));
                }
                p.close_path();
            }
        }
        p
    }

    /// The same polygon wound around several times (one subpath).
    pub fn multiwound(&mut self) -> BezPath {
        let n = self.s.usize(3, 5);
        let k = self.s.usize(2, 4);
        let pts: Vec<Point> = (0..n).map(|_| self.pt()).collect();
        let mut p = BezPath::new();
        p.move_to(pts[0]);
        for r in 0..k {
            for (i, q) in pts.iter().enumerate() {
                if r + i > 0 {
                    p.line_to(*q);
                }
            }
        }
        p.close_path();
        p
    }

    pub fn degenerate(&mut self) -> BezPath {
        let mut p = BezPath::new();
        let a = self.pt();
        let b = self.pt();
        match self.s.below(7) {
            0 => {}
            1 => p.move_to(a),
            2 => {
                p.move_to(a);
                p.close_path();
            }
            3 => {
                // there and back
                p.move_to(a);
                p.line_to(b);
                p.close_path();
            }
            4 => {
                // horizontal there and back
                p.move_to(a);
                p.line_to((b.x, a.y));
                p.line_to(a);
            }
            5 => {
                // repeated points
                p.move_to(a);
                p.line_to(a);
                p.line_to(b);
                p.line_to(b);
                let c = self.pt();
                p.line_to(c);
                p.line_to(c);
                p.close_path();
            }
            _ => {
                // several drawings continuing after a close without a move
                let c = self.pt();
                let d = self.pt();
                p.move_to(a);
                p.line_to(b);
                p.line_to(c);
                p.close_path();
                p.line_to(d);
                p.line_to(c);
                p.close_path();
                p.move_to(d);
                p.move_to(b);
                p.line_to(d);
                p.line_to(a);
                p.close_path();
            }
        }
        p
    }

    /// A polygon with collinear points and T-junctions against the pool.
    pub fn subdivided(&mut self) -> BezPath {
        let n = self.s.usize(3, 5);
        let pts: Vec<Point> = (0..n).map(|_| self.pt()).collect();
        let mut p = BezPath::new();
        p.move_to(pts[0]);
        for i in 0..n {
            let a = pts[i];
            let b = pts[(i + 1) % n];
            let k = self.s.usize(1, 4);
            for j in 1..=k {
                let q = a + (b - a) * (j as f64 / k as f64);
                if j < k || i + 1 < n {
                    p.line_to(if j == k { b } else { q });
                }
            }
        }
        p.close_path();
        p
    }

    /// Thin sliver triangles or long nearly-horizontal pieces.
    pub fn sliver(&mut self) -> BezPath {
        let a = self.pt();
        let b = self.pt();
        let h = if self.tiny > 0.0 {
            self.tiny * self.s.f64(0.1, 30.0)
        } else {
            self.s.f64(1e-6, 1e-2)
        };
        let mut p = BezPath::new();
        p.move_to(a);
        p.line_to(b);
        let m = a.midpoint(b);
        match self.s.below(4) {
            0 => p.line_to((m.x, m.y + h)),
            1 => p.line_to((m.x + h, m.y)),
            2 => {
                p.line_to((b.x, b.y + h));
                p.line_to((a.x, a.y + h));
            }
            _ => {
                p.line_to((b.x + h, b.y));
                p.line_to((a.x + h, a.y));
            }
        }
        p.close_path();
        p
    }

    /// Something derived from an earlier shape: a copy, reversed, nudged, re-started, ...
    pub fn derived(&mut self) -> BezPath {
        if self.shapes.is_empty() {
            return self.rect();
        }
        let base = self.s.pick(&self.shapes.clone()).clone();
        match self.s.weighted(&[3, 2, 3, 2, 2, 2, 1, 4]) {
            7 => self.probe(&base),
            0 => {
                self.classes.push("copy");
                base
            }
            1 => {
                self.classes.push("reversed-copy");
                reverse_path(&base)
            }
            2 => {
                self.classes.push("nudged-copy");
                let d = self.tiny_vec();
                Affine::translate(d) * base
            }
            3 => {
                // shifted along the grid
                let d = Vec2::new(self.s.range(-2, 2) as f64, self.s.range(-2, 2) as f64);
                Affine::translate(d) * base
            }
            4 => {
                self.classes.push("split-copy");
                split_path(&base, 1 + self.s.below(3) as usize)
            }
            5 => {
                let c = base.bounding_box().center();
                let a = *self.s.pick(&[
                    std::f64::consts::FRAC_PI_2,
                    std::f64::consts::PI,
                    1e-3,
                    1e-6,
                    1e-9,
                ]);
                Affine::rotate_about(a, c) * base
            }
            _ => {
                let c = base.bounding_box().center();
                let k = *self.s.pick(&[0.5, 2.0, 1.0 + 1e-6, -1.0]);
                Affine::scale_about(k, c) * base
            }
        }
    }

    /// A triangle with an edge (or a corner) at a place of another shape that is very near the
    /// end of a segment, or near a point where a curve turns around.
    pub fn probe(&mut self, base: &BezPath) -> BezPath {
        let segs: Vec<kurbo::PathSeg> = base.segments().collect();
        if segs.is_empty() {
            return self.rect();
        }
        self.classes.push("near-end");
        let seg = *self.s.pick(&segs);
        let d = self.s.logf(1e-6, 0.05);
        let mut ts = vec![0.0, 1.0];
        ts.extend(kurbo::ParamCurveExtrema::extrema(&seg));
        let t0 = *self.s.pick(&ts);
        let t = if t0 == 0.0 {
            d
        } else if t0 == 1.0 || self.s.bool() {
            t0 - d
        } else {
            t0 + d
        };
        let q = kurbo::ParamCurve::eval(&seg, t.clamp(0.0, 1.0));
        let r = self.s.logf(0.05, 4.0);
        let dir = match self.s.below(4) {
            0 => Vec2::new(1.0, 0.0),
            1 => Vec2::new(0.0, 1.0),
            _ => Vec2::from_angle(self.s.f64(0.0, std::f64::consts::TAU)),
        };
        let apex = q + Vec2::from_angle(self.s.f64(0.0, std::f64::consts::TAU)) * r;
        let (u, v) = if self.s.chance(1, 4) {
            // A corner at the place itself.
            (q, q + dir * r)
        } else {
            (q - dir * (r * self.s.f64(0.1, 1.0)), q + dir * r)
        };
        let mut p = BezPath::new();
        p.move_to(u);
        p.line_to(v);
        p.line_to(apex);
        p.close_path();
        p
    }

    pub fn shape(&mut self) -> BezPath {
        let w: [u64; 12] = if self.curves {
            [4, 3, 3, 6, 1, 2, 1, 1, 1, 1, 5, 1]
        } else {
            [6, 4, 0, 0, 2, 2, 2, 1, 2, 2, 5, 2]
        };
        let p = match self.s.weighted(&w) {
            0 => {
                let n = self.s.usize(3, 7);
                self.polygon(n)
            }
            1 => self.rect(),
            2 => self.ellipse(),
            3 => {
                let n = self.s.usize(1, 5);
                self.curvy(n)
            }
            4 => self.star(),
            5 => self.grid(),
            6 => self.multiwound(),
            7 => self.degenerate(),
            8 => self.subdivided(),
            9 => self.sliver(),
            10 => self.derived(),
            _ => {
                let n = self.s.usize(8, 24);
                self.polygon(n)
            }
        };
        self.shapes.push(p.clone());
        p
    }

    pub fn shapes_path(&mut self, n: usize) -> BezPath {
        let mut out = BezPath::new();
        for _ in 0..n {
            let p = self.shape();
            out.extend(p.elements().iter().copied());
        }
        out
    }
}

pub fn gen_frame(s: &mut Src) -> Frame {
    let mut f = Frame::identity();
    match s.weighted(&[5, 2, 2, 2, 1, 1]) {
        0 => {}
        1 => f.scale = 2f64.powi(s.range(-6, 10) as i32),
        2 => {
            f.scale = s.logf(0.1, 100.0);
            f.off = Vec2::new(s.f64(-100.0, 100.0), s.f64(-100.0, 100.0));
        }
        3 => {
            f.rot = *s.pick(&[0.1, 1.0, 1e-3, 1e-7, -0.7, 2.5]);
            f.scale = *s.pick(&[1.0, 10.0, 0.3]);
        }
        4 => {
            let m = 10f64.powi(s.range(3, 7) as i32);
            f.off = Vec2::new(m * s.f64(-1.0, 1.0), m * s.f64(-1.0, 1.0));
            // Far away to one side only.
            match s.below(4) {
                0 => f.off.x = 0.0,
                1 => f.off.y = 0.0,
                _ => {}
            }
        }
        _ => {
            f.scale = 10f64.powi(s.range(3, 8) as i32);
            f.off = Vec2::new(s.range(-8, 0) as f64 * f.scale, s.range(-8, 0) as f64 * f.scale);
        }
    }
    f
}

pub struct PairCase {
    pub a: BezPath,
    pub b: BezPath,
    pub eps: f64,
    /// True when `eps` is what `binary_op` would choose itself.
    pub auto: bool,
    /// Largest absolute coordinate of any control point.
    pub mag: f64,
    pub classes: Vec<&'static str>,
}

pub fn auto_eps(paths: &[&BezPath]) -> f64 {
    let mut b = paths[0].bounding_box();
    for p in paths {
        b = b.union(p.bounding_box());
    }
    let min = b.min_x().min(b.min_y());
    let max = b.max_x().max(b.max_y());
    (min.abs().max(max.abs()) * 1e-9).max(1e-6)
}

pub fn magnitude(paths: &[&BezPath]) -> f64 {
    let mut m = 0f64;
    for p in paths {
        for e in p.elements() {
            for q in el_points(e) {
                m = m.max(q.x.abs()).max(q.y.abs());
            }
        }
    }
    m
}

pub fn el_points(e: &PathEl) -> Vec<Point> {
    match *e {
        PathEl::MoveTo(p) | PathEl::LineTo(p) => vec![p],
        PathEl::QuadTo(a, b) => vec![a, b],
        PathEl::CurveTo(a, b, c) => vec![a, b, c],
        PathEl::ClosePath => vec![],
    }
}

/// How the tolerance of a case relates to the size of its coordinates.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Regime {
    /// An explicit tolerance, at least `1e-6` times the largest coordinate.
    Coarse,
    /// The tolerance that `binary_op` picks itself.
    Auto,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub min_shapes: usize,
    pub max_shapes: usize,
    pub curves: Option<bool>,
    pub regime: Regime,
    /// Many segments beside one another (see `wide_path`).
    pub wide: bool,
}

pub const COARSE: Opts = Opts {
    min_shapes: 1,
    max_shapes: 3,
    curves: None,
    regime: Regime::Coarse,
    wide: false,
};
pub const WIDE: Opts = Opts {
    wide: true,
    ..COARSE
};
pub const AUTO: Opts = Opts {
    regime: Regime::Auto,
    ..COARSE
};

/// A frame, a relative tolerance and a shape generator.
pub struct Setup {
    pub frame: Frame,
    pub rel_eps: f64,
}

pub fn setup(s: &mut Src, regime: Regime) -> Setup {
    match regime {
        Regime::Coarse => Setup {
            frame: gen_frame(s),
            rel_eps: *s.pick(&[1e-4, 1e-6, 1e-5, 1e-3, 1e-2]),
        },
        Regime::Auto => {
            let mut frame = Frame::identity();
            match s.weighted(&[4, 2, 2, 2, 2]) {
                0 => {}
                4 => frame = gen_frame(s),
                1 => frame.scale = 2f64.powi(s.range(-3, 3) as i32),
                2 => {
                    frame.scale = s.logf(0.2, 8.0);
                    frame.off = Vec2::new(s.f64(-100.0, 100.0), s.f64(-100.0, 100.0));
                }
                _ => frame.rot = *s.pick(&[0.1, 1.0, 1e-3, 1e-7, -0.7, 2.5]),
            }
            Setup {
                frame,
                rel_eps: 0.0,
            }
        }
    }
}

impl Setup {
    pub fn gen<'a>(&self, s: &'a mut Src, curves: Option<bool>) -> Gen<'a> {
        let mut g = Gen::new(s);
        g.tiny = if self.rel_eps == 0.0 {
            let reach = g.g as f64 + self.frame.off.hypot() / self.frame.scale;
            (1e-6 / self.frame.scale).max(1e-9 * reach)
        } else {
            self.rel_eps * g.g as f64
        };
        if let Some(c) = curves {
            g.curves = c;
        }
        g
    }

    /// The tolerance for these paths (already in final coordinates).
    pub fn eps(&self, g: i64, paths: &[&BezPath]) -> f64 {
        if self.rel_eps == 0.0 {
            auto_eps(paths)
        } else {
            (self.rel_eps * g as f64 * self.frame.scale).max(1e-6 * magnitude(paths))
        }
    }
}

/// A path with (often) more than a hundred segments at the same height, most of which meet
/// only their neighbors.
fn wide_path(s: &mut Src, classes: &mut Vec<&'static str>, curves: bool) -> BezPath {
    let n = s.range(30, 170);
    let real = s.chance(1, 3);
    let mut c = |s: &mut Src, lo: i64, hi: i64| if real { s.f64(lo as f64, hi as f64) } else { s.range(2 * lo, 2 * hi) as f64 / 2.0 };
    let mut p = BezPath::new();
    let line = |s: &mut Src, p: &mut BezPath, q: Point| {
        if curves && s.chance(1, 3) {
            let from = p.elements().last().unwrap().end_point().unwrap_or(q);
            let m = Point::new(from.x + (q.x - from.x) * s.unit(), from.y + (q.y - from.y) * s.unit());
            p.quad_to(m, q);
        } else {
            p.line_to(q);
        }
    };
    match s.below(4) {
        0 => {
            classes.push("zigzag");
            p.move_to((-1.0, 12.0));
            for i in 0..n {
                let y = if i % 2 == 0 { c(s, 0, 4) } else { c(s, 5, 10) };
                let wide = s.chance(1, 12);
                let q = Point::new(i as f64 + if wide { c(s, -5, 5) } else { 0.0 }, y);
                line(s, &mut p, q);
            }
            p.line_to((n as f64, 12.0));
            p.close_path();
        }
        1 => {
            classes.push("row");
            for i in 0..n / 2 {
                let x = i as f64;
                let k = s.below(3);
                let (y0, y1) = (c(s, 0, 4), c(s, 5, 10));
                let pts = match k {
                    0 => vec![(x, y0), (x + 1.0, y0), (x + 1.0, y1), (x, y1)],
                    1 => vec![(x, y0), (x + 1.0, 5.0), (x, y1)],
                    _ => vec![(x + 0.5, y0), (x + 1.0 + c(s, 0, 1), 4.5), (x + 0.5, y1), (x, 4.5)],
                };
                p.move_to(pts[0]);
                for q in &pts[1..] {
                    line(s, &mut p, (*q).into());
                }
                p.close_path();
            }
        }
        2 => {
            classes.push("comb");
            let top = c(s, 0, 3);
            p.move_to((0.0, top));
            for i in 0..n / 2 {
                let (x, y) = (2.0 * i as f64, c(s, 4, 9));
                for q in [(x, y), (x + 1.0, y), (x + 1.0, top), (x + 2.0, top)] {
                    line(s, &mut p, q.into());
                }
            }
            let y = -c(s, 0, 2);
            p.line_to((n as f64, y));
            p.line_to((0.0, y));
            p.close_path();
        }
        _ => {
            classes.push("lattice");
            let rows = s.range(1, 3);
            for j in 0..rows {
                for i in 0..n / 2 {
                    if s.chance(1, 6) {
                        continue;
                    }
                    let (x, y) = (i as f64, 4.0 * j as f64);
                    p.move_to((x + 0.5, y));
                    for q in [(x + 1.0, y + 2.0), (x + 0.5, y + 4.0), (x, y + 2.0)] {
                        line(s, &mut p, q.into());
                    }
                    p.close_path();
                }
            }
        }
    }
    p
}

fn wide_case(s: &mut Src, o: Opts) -> PairCase {
    let st = setup(s, o.regime);
    let mut classes = vec![];
    let curves = o.curves.unwrap_or_else(|| s.chance(1, 2));
    let a = wide_path(s, &mut classes, curves);
    let b = match s.below(4) {
        0 => BezPath::from_vec(
            a.elements().iter().map(|e| kurbo::Affine::translate((0.5, 0.25)) * *e).collect(),
        ),
        1 => {
            // A band across everything.
            let (y0, y1) = (s.range(1, 4) as f64, s.range(5, 9) as f64);
            kurbo::Shape::to_path(&kurbo::Rect::new(-2.0, y0, 200.0, y1), 0.1)
        }
        _ => wide_path(s, &mut classes, curves),
    };
    classes.push(if curves { "curves" } else { "polygons" });
    let a = st.frame.map_path(&a);
    let b = st.frame.map_path(&b);
    let mag = magnitude(&[&a, &b]);
    let eps = st.eps(1, &[&a, &b]);
    PairCase { a, b, eps, auto: st.rel_eps == 0.0, mag, classes }
}

pub fn pair_case(s: &mut Src, o: Opts) -> PairCase {
    if o.wide {
        return wide_case(s, o);
    }
    let st = setup(s, o.regime);
    let mut g = st.gen(s, o.curves);
    let na = g.s.usize(o.min_shapes, o.max_shapes);
    let a = g.shapes_path(na);
    let nb = g.s.usize(o.min_shapes, o.max_shapes);
    let b = g.shapes_path(nb);
    let mut classes = std::mem::take(&mut g.classes);
    classes.push(if g.curves { "curves" } else { "polygons" });
    let gg = g.g;
    let a = st.frame.map_path(&a);
    let b = st.frame.map_path(&b);
    let mag = magnitude(&[&a, &b]);
    let eps = st.eps(gg, &[&a, &b]);
    PairCase {
        a,
        b,
        eps,
        auto: st.rel_eps == 0.0,
        mag,
        classes,
    }
}

impl PairCase {
    /// How far from the input curves the output may be wrong.
    pub fn tol(&self) -> f64 {
        tol_for(self.eps, self.mag)
    }
    pub fn show(&self) -> String {
        format!(
            "a=\"{}\" b=\"{}\" eps={:e}{}",
            self.a.to_svg(),
            self.b.to_svg(),
            self.eps,
            if self.auto { " (auto)" } else { "" }
        )
    }
}

/// Six times the tolerance, and (when the tolerance is much smaller than the coordinates) an
/// allowance for the limited accuracy of the curve approximations.
pub fn tol_for(eps: f64, mag: f64) -> f64 {
    if eps >= 0.99e-6 * mag {
        6.0 * eps
    } else {
        6.0 * eps + 1e-8 * mag
    }
}

/// Splits a path into subpaths, each made explicit: (start, segments). Follows the usual
/// reading of path elements (a drawing element after a close starts at the subpath start).
pub fn reverse_path(p: &BezPath) -> BezPath {
    let mut out = BezPath::new();
    for sub in subpaths(p) {
        if sub.is_empty() {
            continue;
        }
        out.move_to(sub.last().unwrap().p_end());
        for seg in sub.iter().rev() {
            match *seg {
                kurbo::PathSeg::Line(l) => out.line_to(l.p0),
                kurbo::PathSeg::Quad(q) => out.quad_to(q.p1, q.p0),
                kurbo::PathSeg::Cubic(c) => out.curve_to(c.p2, c.p1, c.p0),
            }
        }
        out.close_path();
    }
    out
}

pub trait SegEnds {
    fn p_start(&self) -> Point;
    fn p_end(&self) -> Point;
}
impl SegEnds for kurbo::PathSeg {
    fn p_start(&self) -> Point {
        match self {
            kurbo::PathSeg::Line(l) => l.p0,
            kurbo::PathSeg::Quad(q) => q.p0,
            kurbo::PathSeg::Cubic(c) => c.p0,
        }
    }
    fn p_end(&self) -> Point {
        match self {
            kurbo::PathSeg::Line(l) => l.p1,
            kurbo::PathSeg::Quad(q) => q.p2,
            kurbo::PathSeg::Cubic(c) => c.p3,
        }
    }
}

/// Independent reading of a path into subpaths of segments (own code, not kurbo's iterator).
pub fn subpaths(p: &BezPath) -> Vec<Vec<kurbo::PathSeg>> {
    let mut out: Vec<Vec<kurbo::PathSeg>> = vec![];
    let mut cur: Vec<kurbo::PathSeg> = vec![];
    let mut start = Point::ZERO;
    let mut last = Point::ZERO;
    for e in p.elements() {
        match *e {
            PathEl::MoveTo(q) => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                start = q;
                last = q;
            }
            PathEl::LineTo(q) => {
                cur.push(kurbo::Line::new(last, q).into());
                last = q;
            }
            PathEl::QuadTo(a, q) => {
                cur.push(kurbo::QuadBez::new(last, a, q).into());
                last = q;
            }
            PathEl::CurveTo(a, b, q) => {
                cur.push(kurbo::CubicBez::new(last, a, b, q).into());
                last = q;
            }
            PathEl::ClosePath => {
                if last != start {
                    cur.push(kurbo::Line::new(last, start).into());
                }
                last = start;
            }
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

pub fn subpaths_to_path(subs: &[Vec<kurbo::PathSeg>]) -> BezPath {
    let mut out = BezPath::new();
    for sub in subs {
        if sub.is_empty() {
            continue;
        }
        out.move_to(sub[0].p_start());
        for seg in sub {
            match *seg {
                kurbo::PathSeg::Line(l) => out.line_to(l.p1),
                kurbo::PathSeg::Quad(q) => out.quad_to(q.p1, q.p2),
                kurbo::PathSeg::Cubic(c) => out.curve_to(c.p1, c.p2, c.p3),
            }
        }
        out.close_path();
    }
    out
}

/// Splits every segment into k+1 pieces.
pub fn split_path(p: &BezPath, k: usize) -> BezPath {
    use kurbo::ParamCurve;
    let n = k + 1;
    let mut subs = subpaths(p);
    for sub in &mut subs {
        let mut v = vec![];
        for seg in sub.iter() {
            let mut prev = seg.p_start();
            for i in 0..n {
                let t0 = i as f64 / n as f64;
                let t1 = (i + 1) as f64 / n as f64;
                let mut piece = seg.subsegment(t0..t1);
                let end = if i + 1 == n { seg.p_end() } else { piece.p_end() };
                match &mut piece {
                    kurbo::PathSeg::Line(l) => {
                        l.p0 = prev;
                        l.p1 = end;
                    }
                    kurbo::PathSeg::Quad(q) => {
                        q.p0 = prev;
                        q.p2 = end;
                    }
                    kurbo::PathSeg::Cubic(c) => {
                        c.p0 = prev;
                        c.p3 = end;
                    }
                }
                prev = end;
                v.push(piece);
            }
        }
        *sub = v;
    }
    subpaths_to_path(&subs)
}
