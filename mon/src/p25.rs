//! Transformations
use crate::core::*;
use crate::geom::*;
use crate::p06::probe;
use crate::scene::*;
use solstrale::geo::transformation::*;
use solstrale::geo::Aabb;
use solstrale::hittable::{Hittable, Hittables, Quad, Triangle};
use solstrale::material::texture::SolidColor;
use solstrale::material::{Lambertian, Materials};

pub const RULE: &str = "Random chains of rotations (any angle, also none, right, full and multiple turns), translations and scales, also nested, are applied to points and directions and compared with rotations computed independently. Parallelograms, triangles (with and without texture coordinates) and boxes built with a chain are hit by transformed rays and compared with what the untransformed object reports for the original ray: ray length, point, normal (also normal-mapped, which shows the tangents), texture coordinate, side, bounding box, light density and the drawn directions. Non-trivial: chains that move something; counted by chain and object.";

#[derive(Clone, Debug)]
pub enum Op {
    X(f64),
    Y(f64),
    Z(f64),
    Move(V),
    Scale(f64),
    Nop,
    Chain(Vec<Op>),
}

fn turn(angle: f64, a: f64, b: f64) -> (f64, f64) {
    // From b towards a
    let t = angle * std::f64::consts::PI / 180.;
    (a * t.cos() + b * t.sin(), b * t.cos() - a * t.sin())
}

impl Op {
    pub fn apply(&self, p: V, dir: bool) -> V {
        match self {
            Op::X(a) => {
                let (y, z) = turn(*a, p.1, p.2);
                v(p.0, y, z)
            }
            Op::Y(a) => {
                let (x, z) = turn(*a, p.0, p.2);
                v(x, p.1, z)
            }
            Op::Z(a) => {
                let (x, y) = turn(*a, p.0, p.1);
                v(x, y, p.2)
            }
            Op::Move(t) => {
                if dir {
                    p
                } else {
                    p + *t
                }
            }
            Op::Scale(s) => p * *s,
            Op::Nop => p,
            Op::Chain(ops) => ops.iter().fold(p, |p, o| o.apply(p, dir)),
        }
    }
    pub fn scale(&self) -> f64 {
        match self {
            Op::Scale(s) => *s,
            Op::Chain(ops) => ops.iter().map(|o| o.scale()).product(),
            _ => 1.,
        }
    }
    /// Just the rotation
    fn turned(&self, n: V) -> V {
        self.apply(n, true) / self.scale()
    }
    pub fn boxed(&self) -> Box<dyn Transformer> {
        match self {
            Op::X(a) => Box::new(RotationX::new(*a)),
            Op::Y(a) => Box::new(RotationY::new(*a)),
            Op::Z(a) => Box::new(RotationZ::new(*a)),
            Op::Move(t) => Box::new(Translation::new(t.s())),
            Op::Scale(s) => Box::new(Scale::new(*s)),
            Op::Nop => Box::new(NopTransformer()),
            Op::Chain(ops) => Box::new(Transformations::new(ops.iter().map(|o| o.boxed()).collect())),
        }
    }
}

fn angle(r: &mut Rng) -> f64 {
    match r.below(6) {
        0 => 90. * r.int(-8, 8) as f64,
        1 => r.sign() * r.log(1e-6, 1.),
        2 => r.range(-2000., 2000.),
        _ => r.range(-180., 180.),
    }
}

fn op(r: &mut Rng, nest: u32) -> Op {
    match r.below(if nest > 0 { 13 } else { 11 }) {
        0 | 1 => Op::X(angle(r)),
        2 | 3 => Op::Y(angle(r)),
        4 | 5 => Op::Z(angle(r)),
        6 | 7 => Op::Move(rand_dir(r) * r.log(1e-2, 20.)),
        8 | 9 => Op::Scale(r.log(0.2, 5.)),
        10 => Op::Nop,
        _ => {
            let n = r.below(4);
            Op::Chain((0..n).map(|_| op(r, nest - 1)).collect())
        }
    }
}

pub fn chain(r: &mut Rng) -> Op {
    let n = match r.below(5) {
        0 => 1,
        1 => 2,
        _ => r.int(0, 7),
    };
    let mut ops = vec![];
    let mut scale = 1.;
    for _ in 0..n {
        let o = op(r, 2);
        if (0.02..50.).contains(&(scale * o.scale())) {
            scale *= o.scale();
            ops.push(o);
        }
    }
    Op::Chain(ops)
}

struct Object {
    /// Pieces, for testing how close to edges a ray is
    shapes: Vec<Shape>,
    build: Box<dyn Fn(Materials, &dyn Transformer) -> Vec<Hittables>>,
    what: String,
    tangents: bool,
}

fn quads_of_box(a: V, b: V) -> Vec<Shape> {
    let d = b - a;
    let (x, y, z) = (v(d.0, 0., 0.), v(0., d.1, 0.), v(0., 0., d.2));
    vec![
        Shape::Quad(a, x, y),
        Shape::Quad(a, x, z),
        Shape::Quad(a, y, z),
        Shape::Quad(b, -x, -y),
        Shape::Quad(b, -x, -z),
        Shape::Quad(b, -y, -z),
    ]
}

fn object(r: &mut Rng) -> Object {
    let c = rand_in(r, 3.);
    match r.below(4) {
        0 => {
            let (a, b) = rand_edges(r, 2.);
            let q = c - a * 0.5 - b * 0.5;
            Object {
                shapes: vec![Shape::Quad(q, a, b)],
                build: Box::new(move |m, t| vec![Quad::new(q.s(), a.s(), b.s(), m, t)]),
                what: format!("parallelogram {q:?} {a:?} {b:?}"),
                tangents: true,
            }
        }
        1 => {
            let (a, b) = rand_edges(r, 2.);
            let q = c - a / 3. - b / 3.;
            Object {
                shapes: vec![Shape::Tri(q, q + a, q + b)],
                build: Box::new(move |m, t| vec![Triangle::new(q.s(), (q + a).s(), (q + b).s(), m, t)]),
                what: format!("triangle {q:?} {:?} {:?}", q + a, q + b),
                tangents: false,
            }
        }
        2 => {
            let (a, b) = rand_edges(r, 2.);
            let q = c - a / 3. - b / 3.;
            let t = loop {
                let t = [r.f(), r.f(), r.f(), r.f(), r.f(), r.f()];
                let det = (t[2] - t[0]) * (t[5] - t[1]) - (t[3] - t[1]) * (t[4] - t[0]);
                if det.abs() > 0.1 {
                    break t;
                }
            };
            Object {
                shapes: vec![Shape::Tri(q, q + a, q + b)],
                build: Box::new(move |m, tr| {
                    vec![Triangle::new_with_tex_coords(
                        q.s(), (q + a).s(), (q + b).s(), uv(t[0], t[1]), uv(t[2], t[3]), uv(t[4], t[5]), m, tr,
                    )]
                }),
                what: format!("triangle {q:?} {:?} {:?} with texture coordinates {t:?}", q + a, q + b),
                tangents: true,
            }
        }
        _ => {
            let a = c;
            let b = c + v(r.range(0.3, 2.) * r.sign(), r.range(0.3, 2.) * r.sign(), r.range(0.3, 2.) * r.sign());
            Object {
                shapes: quads_of_box(a, b),
                build: Box::new(move |m, t| Quad::new_box(a.s(), b.s(), m, t)),
                what: format!("box {a:?} {b:?}"),
                tangents: true,
            }
        }
    }
}

fn bounds(b: &Aabb) -> (V, V) {
    (v(b.x.min, b.y.min, b.z.min), v(b.x.max, b.y.max, b.z.max))
}

pub fn run(run: &Run) {
    run.cases("points and directions", run.n(50000, 1000000), |c| {
        let chain = if c.index < 300 { op(&mut c.rng, 0) } else { chain(&mut c.rng) };
        let t = chain.boxed();
        c.sample(|| format!("{chain:?}"));
        for _ in 0..10 {
            c.eval();
            let p = rand_dir(&mut c.rng) * c.rng.log(1e-3, 1e3);
            let tol = 1e-11 * (1000. + p.len()) * chain.scale().max(1.);
            for dir in [false, true] {
                let got = V::of(t.transform(p.s(), dir));
                let want = chain.apply(p, dir);
                ensure!(close(got, want, tol), "{chain:?} turns {} {p:?} into {got:?} instead of {want:?}", if dir { "direction" } else { "point" });
            }
            c.distinct_f(&[p.0, chain.scale(), chain.apply(p, false).0]);
        }
        // Lengths, angles and orientation
        let (a, b, e) = (rand_dir(&mut c.rng), rand_dir(&mut c.rng), rand_dir(&mut c.rng));
        let (ta, tb, te) = (
            V::of(t.transform(a.s(), true)), V::of(t.transform(b.s(), true)), V::of(t.transform(e.s(), true)),
        );
        let s = chain.scale();
        c.evals(3);
        ensure!((ta.len() - s).abs() < 1e-9 * s, "{chain:?} changes length 1 to {} instead of {s}", ta.len());
        ensure!((ta.dot(tb) / s / s - a.dot(b)).abs() < 1e-9, "{chain:?} changes the angle between {a:?} and {b:?}");
        let (det, tdet) = (a.cross(b).dot(e), ta.cross(tb).dot(te) / (s * s * s));
        ensure!((det - tdet).abs() < 1e-9, "{chain:?} changes the orientation: {det} to {tdet}");
        Ok(())
    });

    run.cases("nothing", run.n(2000, 20000), |c| {
        let p = rand_dir(&mut c.rng) * c.rng.log(1e-3, 1e3);
        let turns = 360. * c.rng.int(-3, 3) as f64;
        let same: Vec<(Op, f64)> = vec![
            (Op::Nop, 0.),
            (Op::Chain(vec![]), 0.),
            (Op::Chain(vec![Op::Nop, Op::Chain(vec![])]), 0.),
            (Op::X(0.), 0.),
            (Op::Y(0.), 0.),
            (Op::Z(0.), 0.),
            (Op::Scale(1.), 0.),
            (Op::Move(v(0., 0., 0.)), 0.),
            (Op::X(turns), 1e-12),
            (Op::Y(turns), 1e-12),
            (Op::Z(turns), 1e-12),
        ];
        for (o, tol) in same {
            for dir in [false, true] {
                c.eval();
                let got = V::of(o.boxed().transform(p.s(), dir));
                ensure!(close(got, p, tol * p.len()), "{o:?} turns {p:?} into {got:?}");
            }
        }
        // Which way a positive angle turns
        let a = c.rng.range(1., 89.);
        let check = |o: Op, from: V, to: V| -> Res {
            let got = V::of(o.boxed().transform(from.s(), c.index % 2 == 0));
            let t = a * std::f64::consts::PI / 180.;
            ensure!(close(got, from * t.cos() + to * t.sin(), 1e-12), "{o:?} turns {from:?} into {got:?}, not towards {to:?}");
            Ok(())
        };
        let (x, y, z) = (v(1., 0., 0.), v(0., 1., 0.), v(0., 0., 1.));
        check(Op::X(a), z, y)?;
        check(Op::Y(a), z, x)?;
        check(Op::Z(a), y, x)?;
        c.evals(3);
        c.distinct_f(&[p.0, p.1, a]);
        Ok(())
    });

    run.cases("objects", run.n(100000, 3000000), |c| {
        let chain = chain(&mut c.rng);
        let ob = object(&mut c.rng);
        let scale = chain.scale();
        let t = chain.boxed();
        // A map that leans the normal shows the tangents
        let mapped = ob.tangents && c.rng.chance(0.6);
        let map = mapped.then(|| SolidColor::new(c.rng.range(0.2, 0.8), c.rng.range(0.2, 0.8), c.rng.range(0.8, 1.)));
        let mat = || Lambertian::new(SolidColor::new(0.3, 0.5, 0.7), map.clone());
        let plain = (ob.build)(mat(), &NopTransformer());
        let moved = (ob.build)(mat(), t.as_ref());
        ensure!(plain.len() == moved.len(), "{} has {} parts, transformed {}", ob.what, plain.len(), moved.len());
        c.sample(|| format!("{} with {chain:?}", ob.what));
        c.distinct(hash_of(format!("{chain:?}{}", ob.what)));
        let tag = || format!("{} transformed by {chain:?}", ob.what);

        // Bounding boxes, that may be padded
        let all = |list: &[Hittables]| {
            list.iter().map(|h| bounds(h.bounding_box())).reduce(|a, b| (a.0.min(b.0), a.1.max(b.1))).unwrap()
        };
        let (lo, hi) = all(&moved);
        let corners: Vec<V> = ob.shapes.iter().flat_map(|s| match s {
            Shape::Quad(q, a, b) => vec![*q, *q + *a, *q + *b, *q + *a + *b],
            Shape::Tri(a, b, c) => vec![*a, *b, *c],
            Shape::Sphere(..) => unreachable!(),
        }).map(|p| chain.apply(p, false)).collect();
        let want_lo = corners.iter().fold(corners[0], |m, p| m.min(*p));
        let want_hi = corners.iter().fold(corners[0], |m, p| m.max(*p));
        let size = (want_hi - want_lo).len() + want_lo.len();
        c.eval();
        for (got, want, sign) in [(lo, want_lo, 1.), (hi, want_hi, -1.)] {
            for i in 0..3 {
                let out = (want.get(i) - got.get(i)) * sign;
                ensure!(out >= -1e-9 * size && out <= 3e-4 + 1e-9 * size, "{}: box is {lo:?} to {hi:?} instead of {want_lo:?} to {want_hi:?}", tag());
            }
        }

        let nearest = |list: &[Hittables], o: V, d: V| {
            list.iter()
                .filter_map(|h| {
                    h.hit(&ray(o, d), &ahead()).map(|r| {
                        (r.ray_length, V::of(r.hit_point), V::of(r.normal), r.uv, r.front_face)
                    })
                })
                .min_by(|a, b| a.0.total_cmp(&b.0))
        };
        for _ in 0..20 {
            let target = c.rng.pick(&ob.shapes).clone();
            let p = probe(&mut c.rng, &target);
            // Keep away from edges and from the start of the interval
            let (o, d) = (p.o, p.d.unit() * c.rng.log(0.3, 3.));
            let mut doubt = false;
            let mut any = false;
            let mut lengths = vec![];
            for s in &ob.shapes {
                match meets(s, o, d, 1e-4) {
                    None => doubt = true,
                    Some(m) => {
                        for m in m {
                            any |= m.t > 0.;
                            lengths.push(m.t);
                            let cos = m.n.dot(d.unit()).abs();
                            doubt |= (m.t - 0.001).abs() < 1e-3 || m.t > 500. || cos < 1e-3;
                        }
                    }
                }
            }
            lengths.sort_by(f64::total_cmp);
            doubt |= lengths.windows(2).any(|w| w[1] - w[0] < 1e-6);
            if doubt {
                c.count("rays too close to an edge");
                continue;
            }
            c.eval();
            c.count(if any { "rays that hit" } else { "rays that miss" });
            let (to, td) = (chain.apply(o, false), chain.apply(d, true));
            let (a, b) = (nearest(&plain, o, d), nearest(&moved, to, td));
            match (a, b) {
                (None, None) => ensure!(!any, "{}: ray {to:?} {td:?} misses", tag()),
                (Some(a), Some(b)) => {
                    let tol = 1e-8 * (1. + a.0.abs()) * (1. + (o.len() + 100. / scale).max(1.));
                    ensure!((a.0 - b.0).abs() < tol, "{}: ray {to:?} {td:?} is hit at {} instead of {}", tag(), b.0, a.0);
                    let p = chain.apply(a.1, false);
                    ensure!(close(b.1, p, tol * scale * 10.), "{}: ray {to:?} {td:?} is hit at {:?} instead of {p:?}", tag(), b.1);
                    let n = chain.turned(a.2);
                    ensure!(close(b.2, n, 1e-7), "{}: ray {to:?} {td:?} has normal {:?} instead of {n:?}{}", tag(), b.2, if mapped { " (with normal map)" } else { "" });
                    ensure!((a.3.u - b.3.u).abs() < 1e-4 && (a.3.v - b.3.v).abs() < 1e-4, "{}: ray {to:?} {td:?} has texture coordinate {:?} instead of {:?}", tag(), b.3, a.3);
                    ensure!(a.4 == b.4, "{}: ray {to:?} {td:?} hits the wrong side", tag());
                    if mapped {
                        c.count("normal-mapped hits");
                    }
                }
                (a, b) => return Err(format!("{}: ray {to:?} {td:?} hits: {}, untransformed: {}", tag(), b.is_some(), a.is_some())),
            }
            // As light: parts correspond to each other
            for (a, b) in plain.iter().zip(&moved) {
                let (pa, pb) = (a.pdf_value(o.s(), d.s()), b.pdf_value(to.s(), td.s()));
                c.eval();
                ensure!((pa - pb).abs() <= 1e-6 * pa.abs().max(pb.abs()), "{}: density from {to:?} towards {td:?} is {pb} instead of {pa}", tag());
                if pa > 0. {
                    c.count("densities compared");
                }
            }
            for (a, b) in plain.iter().zip(&moved) {
                let seed = c.rng.next();
                fastrand::seed(seed);
                let da = V::of(a.random_direction(o.s()));
                fastrand::seed(seed);
                let db = V::of(b.random_direction(to.s()));
                c.eval();
                ensure!(close(chain.turned(da).unit(), db.unit(), 1e-7), "{}: draws direction {db:?} from {to:?}, untransformed draws {da:?}", tag());
            }
        }
        Ok(())
    });
}
