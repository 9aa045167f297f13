//! Camera
use crate::core::*;
use crate::geom::*;
use crate::scene::*;
use crate::stats::*;
use solstrale::camera::{Camera, CameraConfig};

pub const RULE: &str = "Cameras at random places with random view directions, up vectors (not unit, not perpendicular), fields of view, look-at distances, image sizes and apertures; rays for random, corner and outer view coordinates are compared with the pinhole projection computed independently, and for apertures with the focus point and the uniform lens disc. Non-trivial: view coordinates other than the centre; counted by camera and coordinate.";

struct Setup {
    w: usize,
    h: usize,
    cfg: CameraConfig,
    from: V,
    at: V,
    right: V,
    up: V,
    width: f64,
    height: f64,
}

fn setup(c: &mut Case, aperture: f64) -> Setup {
    let r = &mut c.rng;
    let (w, h) = match r.below(3) {
        0 => (r.int(1, 2000) as usize, r.int(1, 2000) as usize),
        1 => (r.int(1, 3) as usize, r.log(1., 5000.) as usize),
        _ => (400, 300),
    };
    let dist = r.log(0.01, 1000.);
    let from = if r.chance(0.3) { v(0., 0., 0.) } else { rand_in(r, dist * 10.) };
    let dir = loop {
        let d = hostile_dir(r);
        if d.len() > 0.5 {
            break d;
        }
    };
    let up = loop {
        let u = if r.chance(0.4) { v(0., 1., 0.) } else { hostile_dir(r) };
        if u.cross(dir).len() > 0.02 {
            break u * if r.chance(0.5) { 1. } else { r.log(1e-2, 1e2) };
        }
    };
    let fov = if r.chance(0.1) { 90. } else { r.range(0.5, 170.) };
    let at = from + dir * dist;
    // What is really between these points
    let back = (from - at).unit();
    let right = up.cross(back).unit();
    let height = 2. * (fov * std::f64::consts::PI / 360.).tan() * (from - at).len();
    Setup {
        w,
        h,
        cfg: CameraConfig { vertical_fov_degrees: fov, aperture_size: aperture, look_from: from.s(), look_at: at.s(), up: up.s() },
        from,
        at,
        right,
        up: back.cross(right),
        width: height * w as f64 / h as f64,
        height,
    }
}

fn coordinate(r: &mut Rng) -> (f32, f32) {
    match r.below(5) {
        0 => (r.int(0, 2) as f32 / 2., r.int(0, 2) as f32 / 2.),
        1 => (r.range(-0.5, 1.5) as f32, r.range(-0.5, 1.5) as f32),
        _ => (r.f() as f32, r.f() as f32),
    }
}

pub fn run(run: &Run) {
    run.cases("pinhole", run.n(20000, 300000), |c| {
        let s = setup(c, 0.);
        let cam = Camera::new(s.w, s.h, &s.cfg);
        for _ in 0..20 {
            let (a, b) = coordinate(&mut c.rng);
            c.eval();
            if (a, b) != (0.5, 0.5) {
                c.distinct_f(&[s.from.0, s.at.1, a as f64, b as f64]);
            }
            let r = cam.get_ray(solstrale::geo::Uv::new(a, b));
            let p = s.at + s.right * (s.width * (a as f64 - 0.5)) + s.up * (s.height * (b as f64 - 0.5));
            let want = (p - s.from).unit();
            let ctx = || format!("{}x{} camera from {:?} at {:?} up {} with fov {}, coordinate ({a}, {b})", s.w, s.h, s.from, s.at, s.cfg.up, s.cfg.vertical_fov_degrees);
            c.sample(ctx);
            ensure!(V::of(r.origin) == s.from, "{}: origin is {}", ctx(), r.origin);
            // Rounding: positions are much larger than the distance looked at
            let tol = 1e-11 * (1. + s.from.max_abs() / (s.at - s.from).len());
            ensure!(
                close(V::of(r.direction).unit(), want, tol),
                "{}: direction {:?} should be {want:?}", ctx(), V::of(r.direction).unit()
            );
        }
        Ok(())
    });

    run.cases("focus", run.n(4000, 60000), |c| {
        let aperture = c.rng.log(1e-3, 10.);
        let s = setup(c, aperture);
        let cam = Camera::new(s.w, s.h, &s.cfg);
        let dist = (s.at - s.from).len();
        let back = (s.from - s.at).unit();
        for _ in 0..10 {
            let (a, b) = coordinate(&mut c.rng);
            let p = s.at + s.right * (s.width * (a as f64 - 0.5)) + s.up * (s.height * (b as f64 - 0.5));
            for _ in 0..5 {
                c.eval();
                let r = cam.get_ray(solstrale::geo::Uv::new(a, b));
                let (o, d) = (V::of(r.origin), V::of(r.direction));
                c.distinct_f(&[o.0, o.1, a as f64, b as f64]);
                let ctx = || format!("camera from {:?} at {:?}, aperture {aperture}, coordinate ({a}, {b})", s.from, s.at);
                let off = o - s.from;
                ensure!(off.len() <= aperture / 2. * (1. + 1e-9) + 1e-12 * s.from.max_abs(), "{}: ray starts at distance {}", ctx(), off.len());
                ensure!(off.dot(back).abs() <= 1e-12 * (aperture + s.from.max_abs()), "{}: ray starts outside of the lens", ctx());
                let miss = (p - o).cross(d.unit()).len();
                let tol = 1e-10 * ((p - o).len() + s.from.max_abs() + dist);
                ensure!(miss <= tol && (p - o).dot(d) > 0., "{}: ray from {o:?} to {d:?} misses the focus {p:?} by {miss}", ctx());
            }
        }
        Ok(())
    });

    run.cases("lens", run.n(60, 600), |c| {
        let aperture = c.rng.log(1e-2, 10.);
        let mut s = setup(c, aperture);
        s.from = v(0., 0., 0.);
        let shift = V::of(s.cfg.look_from);
        s.cfg.look_at = (V::of(s.cfg.look_at) - shift).s();
        s.cfg.look_from = v(0., 0., 0.).s();
        let cam = Camera::new(s.w, s.h, &s.cfg);
        let at = uv(c.rng.f(), c.rng.f());
        let spot = |_: &mut ()| {
            let o = V::of(cam.get_ray(at).origin) / (aperture / 2.);
            (o.dot(s.right), o.dot(s.up))
        };
        c.distinct_f(&[aperture, s.at.0]);
        let what = format!("aperture {aperture}");
        // Equal shares of the disc: six rings by eight sectors
        expect_bins(c, &format!("{what}: starting points on the lens"), 20000, &[1. / 48.; 48], &mut || {
            let (x, y) = spot(&mut ());
            let ring = ((x * x + y * y) * 6.).min(5.) as usize;
            let sector = ((y.atan2(x) / std::f64::consts::PI + 1.) * 4.).min(7.) as usize;
            ring * 8 + sector
        })?;
        Ok(())
    });
}
