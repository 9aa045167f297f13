//! Geometry of its own, to compare the geometry of the code under test with
use crate::core::Rng;
use solstrale::geo::vec3::Vec3;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Copy, Clone, Debug, PartialEq, Default)]
pub struct V(pub f64, pub f64, pub f64);

pub fn v(x: f64, y: f64, z: f64) -> V {
    V(x, y, z)
}
impl Add for V {
    type Output = V;
    fn add(self, o: V) -> V {
        V(self.0 + o.0, self.1 + o.1, self.2 + o.2)
    }
}
impl Sub for V {
    type Output = V;
    fn sub(self, o: V) -> V {
        V(self.0 - o.0, self.1 - o.1, self.2 - o.2)
    }
}
impl Mul<f64> for V {
    type Output = V;
    fn mul(self, s: f64) -> V {
        V(self.0 * s, self.1 * s, self.2 * s)
    }
}
impl Div<f64> for V {
    type Output = V;
    fn div(self, s: f64) -> V {
        V(self.0 / s, self.1 / s, self.2 / s)
    }
}
impl Neg for V {
    type Output = V;
    fn neg(self) -> V {
        V(-self.0, -self.1, -self.2)
    }
}
impl V {
    pub fn of(a: Vec3) -> V {
        V(a.x, a.y, a.z)
    }
    pub fn s(self) -> Vec3 {
        Vec3 {
            x: self.0,
            y: self.1,
            z: self.2,
        }
    }
    pub fn dot(self, o: V) -> f64 {
        self.0 * o.0 + self.1 * o.1 + self.2 * o.2
    }
    pub fn cross(self, o: V) -> V {
        V(
            self.1 * o.2 - self.2 * o.1,
            self.2 * o.0 - self.0 * o.2,
            self.0 * o.1 - self.1 * o.0,
        )
    }
    pub fn len(self) -> f64 {
        // Scaled, to not overflow or underflow
        let m = self.0.abs().max(self.1.abs()).max(self.2.abs());
        if m == 0. || !m.is_finite() {
            return m;
        }
        let a = self / m;
        m * a.dot(a).sqrt()
    }
    pub fn unit(self) -> V {
        self / self.len()
    }
    pub fn times(self, o: V) -> V {
        V(self.0 * o.0, self.1 * o.1, self.2 * o.2)
    }
    pub fn get(self, i: usize) -> f64 {
        [self.0, self.1, self.2][i]
    }
    pub fn min(self, o: V) -> V {
        V(self.0.min(o.0), self.1.min(o.1), self.2.min(o.2))
    }
    pub fn max(self, o: V) -> V {
        V(self.0.max(o.0), self.1.max(o.1), self.2.max(o.2))
    }
    pub fn max_abs(self) -> f64 {
        self.0.abs().max(self.1.abs()).max(self.2.abs())
    }
    pub fn finite(self) -> bool {
        self.0.is_finite() && self.1.is_finite() && self.2.is_finite()
    }
    pub fn arr(self) -> [f64; 3] {
        [self.0, self.1, self.2]
    }
}

/// Some vectors perpendicular to the given one
pub fn frame(n: V) -> (V, V, V) {
    let n = n.unit();
    let a = if n.2.abs() < 0.7 { v(0., 0., 1.) } else { v(0., 1., 0.) };
    let t = a.cross(n).unit();
    (t, n.cross(t), n)
}

pub fn rand_dir(r: &mut Rng) -> V {
    let z = r.range(-1., 1.);
    let p = r.range(0., 2. * std::f64::consts::PI);
    let s = (1. - z * z).max(0.).sqrt();
    v(s * p.cos(), s * p.sin(), z)
}

/// Directions, including those along the axes and planes
pub fn hostile_dir(r: &mut Rng) -> V {
    match r.below(6) {
        0 => {
            let mut d = [0.; 3];
            d[r.below(3) as usize] = r.sign();
            v(d[0], d[1], d[2])
        }
        1 => {
            let mut d = rand_dir(r).arr();
            let z = if r.chance(0.5) { 0. } else { -0. };
            d[r.below(3) as usize] = z;
            v(d[0], d[1], d[2]).unit()
        }
        2 => {
            let mut d = rand_dir(r).arr();
            d[r.below(3) as usize] *= 1e-9;
            v(d[0], d[1], d[2]).unit()
        }
        _ => rand_dir(r),
    }
}

pub fn rand_in(r: &mut Rng, half: f64) -> V {
    v(
        r.range(-half, half),
        r.range(-half, half),
        r.range(-half, half),
    )
}

#[derive(Clone, Debug)]
pub enum Shape {
    Sphere(V, f64),
    Quad(V, V, V),
    Tri(V, V, V),
}

/// Where a line meets a shape
#[derive(Clone, Debug)]
pub struct Meet {
    pub t: f64,
    pub p: V,
    /// outward, or on the winding side
    pub n: V,
    /// edge coordinates, for flat shapes
    pub a: f64,
    pub b: f64,
}

/// The meeting points of a line with a shape, nearest first, or None if it is too close to tell
/// (grazing contact)
pub fn meets(shape: &Shape, o: V, d: V, eps: f64) -> Option<Vec<Meet>> {
    match shape {
        Shape::Sphere(c, r) => {
            let dl = d.len();
            let u = d / dl;
            let along = (*c - o).dot(u);
            let foot = o + u * along;
            let off = (foot - *c).len() / r;
            // Cancellation grows with the distance
            let noise = eps + 1e-14 * ((o - *c).len() + c.max_abs()) / r;
            if (off - 1.).abs() < noise {
                return None;
            }
            if off > 1. {
                return Some(vec![]);
            }
            let half = r * (1. - off * off).sqrt();
            Some(
                [along - half, along + half]
                    .iter()
                    .map(|s| {
                        let p = o + u * *s;
                        Meet {
                            t: s / dl,
                            p,
                            n: (p - *c).unit(),
                            a: 0.,
                            b: 0.,
                        }
                    })
                    .collect(),
            )
        }
        Shape::Quad(q, e1, e2) => flat(*q, *e1, *e2, o, d, eps, false),
        Shape::Tri(a, b, c) => flat(*a, *b - *a, *c - *a, o, d, eps, true),
    }
}

fn flat(q: V, e1: V, e2: V, o: V, d: V, eps: f64, tri: bool) -> Option<Vec<Meet>> {
    let n = e1.unit().cross(e2.unit());
    let sin = n.len();
    let n = n / sin;
    let u = d.unit();
    let cos = n.dot(u);
    if cos.abs() < eps.max(1e-7) {
        return None;
    }
    let s = n.dot(q - o) / cos;
    let p = o + u * s;
    let w = p - q;
    // Solve w = a e1 + b e2 by the areas spanned with the respective other edge
    let area = e1.cross(e2);
    let k = area.dot(area);
    let a = w.cross(e2).dot(area) / k;
    let b = e1.cross(w).dot(area) / k;
    let size = e1.len().min(e2.len()) * sin;
    let noise = eps + 1e-13 * ((o - q).len() + s.abs() + q.len()) / size / cos.abs();
    let edges = if tri {
        vec![a, b, 1. - a - b]
    } else {
        vec![a, b, 1. - a, 1. - b]
    };
    let inside = edges.iter().cloned().fold(f64::INFINITY, f64::min);
    if inside.abs() < noise {
        return None;
    }
    if inside < 0. {
        return Some(vec![]);
    }
    Some(vec![Meet {
        t: s / d.len(),
        p,
        n,
        a,
        b,
    }])
}

impl Shape {
    /// A point on the surface
    pub fn point(&self, r: &mut Rng) -> V {
        match self {
            Shape::Sphere(c, rad) => *c + rand_dir(r) * *rad,
            Shape::Quad(q, a, b) => *q + *a * r.f() + *b * r.f(),
            Shape::Tri(a, b, c) => {
                let (mut x, mut y) = (r.f(), r.f());
                if x + y > 1. {
                    x = 1. - x;
                    y = 1. - y;
                }
                *a + (*b - *a) * x + (*c - *a) * y
            }
        }
    }
    /// Exact bounds
    pub fn bounds(&self) -> (V, V) {
        match self {
            Shape::Sphere(c, r) => (*c - v(*r, *r, *r), *c + v(*r, *r, *r)),
            Shape::Quad(q, a, b) => {
                let ps = [*q, *q + *a, *q + *b, *q + *a + *b];
                (
                    ps.iter().fold(ps[0], |m, p| m.min(*p)),
                    ps.iter().fold(ps[0], |m, p| m.max(*p)),
                )
            }
            Shape::Tri(a, b, c) => (a.min(*b).min(*c), a.max(*b).max(*c)),
        }
    }
    pub fn center(&self) -> V {
        match self {
            Shape::Sphere(c, _) => *c,
            Shape::Quad(q, a, b) => *q + *a * 0.5 + *b * 0.5,
            Shape::Tri(a, b, c) => (*a + *b + *c) / 3.,
        }
    }
    pub fn size(&self) -> f64 {
        match self {
            Shape::Sphere(_, r) => *r,
            Shape::Quad(_, a, b) => a.len().max(b.len()),
            Shape::Tri(a, b, c) => (*b - *a).len().max((*c - *a).len()),
        }
    }
    pub fn is_sphere(&self) -> bool {
        matches!(self, Shape::Sphere(..))
    }
}

/// A parallelogram or triangle spanned by edges that are not too parallel
pub fn rand_edges(r: &mut Rng, size: f64) -> (V, V) {
    let a = if r.chance(0.3) { axis_dir(r) } else { rand_dir(r) };
    loop {
        let b = if r.chance(0.3) { axis_dir(r) } else { rand_dir(r) };
        if a.cross(b).len() > 0.15 {
            return (a * size * r.range(0.3, 1.), b * size * r.range(0.3, 1.));
        }
    }
}

pub fn axis_dir(r: &mut Rng) -> V {
    let mut d = [0.; 3];
    d[r.below(3) as usize] = r.sign();
    v(d[0], d[1], d[2])
}

pub fn rand_shape(r: &mut Rng, center: V, size: f64) -> Shape {
    match r.below(3) {
        0 => Shape::Sphere(center, size * 0.5),
        1 => {
            let (a, b) = rand_edges(r, size);
            Shape::Quad(center - a * 0.5 - b * 0.5, a, b)
        }
        _ => {
            let (a, b) = rand_edges(r, size);
            let q = center - a / 3. - b / 3.;
            Shape::Tri(q, q + a, q + b)
        }
    }
}
