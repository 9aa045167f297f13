//! Texture lookup
use crate::core::*;
use crate::geom::*;
use crate::scene::*;
use image::{DynamicImage, GrayImage, ImageBuffer, Luma, Rgb, RgbImage, Rgba, RgbaImage};
use solstrale::geo::Uv;
use solstrale::material::texture::{ImageMap, SolidColor, Texture};
use std::sync::Arc;

pub const RULE: &str = "Images of all kinds of sizes whose texels all differ are looked up in the middle and close to the edges of every texel (exhaustively for small images), at random and larger coordinates, and at non-finite ones, and compared with the texel that covers the coordinate; images are also written to files of several formats and loaded. Non-trivial: coordinates that are not on the border of two texels; counted by image size and coordinate.";

/// An image where each texel has its own colour
pub fn unique_image(r: &mut Rng, w: u32, h: u32) -> RgbImage {
    let offset = r.below(1 << 24) as u32;
    RgbImage::from_fn(w, h, |x, y| {
        // Odd multiplier: one to one on 24 bits
        let i = (y * w + x).wrapping_mul(0x9E3779).wrapping_add(offset) & 0xFFFFFF;
        Rgb([(i >> 16) as u8, (i >> 8) as u8, i as u8])
    })
}

pub fn texel(img: &RgbImage, x: u32, y: u32) -> V {
    let p = img.get_pixel(x, y);
    v(p[0] as f64 / 255., p[1] as f64 / 255., p[2] as f64 / 255.)
}

/// The texels that may be seen at the coordinate (several only at borders)
pub fn texels_at(img: &RgbImage, at: Uv) -> Vec<(u32, u32)> {
    texels_of((img.width(), img.height()), at)
}

pub fn texels_of(size: (u32, u32), at: Uv) -> Vec<(u32, u32)> {
    let axis = |t: f64, n: u32| -> Vec<u32> {
        let x = t * n as f64;
        let m = 4e-7 * n as f64;
        let mut o = vec![];
        for s in [x - m, x, x + m] {
            let i = (s.floor() as i64).rem_euclid(n as i64) as u32;
            if !o.contains(&i) {
                o.push(i);
            }
        }
        o
    };
    let u = (at.u as f64).rem_euclid(1.);
    let w = 1. - (at.v as f64).rem_euclid(1.);
    let (xs, ys) = (axis(u, size.0), axis(w, size.1));
    xs.iter().flat_map(|x| ys.iter().map(move |y| (*x, *y))).collect()
}

fn look(c: &mut Case, img: &RgbImage, tex: &dyn Texture, at: Uv) -> Res {
    c.eval();
    let got = V::of(tex.color(at));
    let allowed = texels_at(img, at);
    if allowed.len() == 1 {
        c.distinct_f(&[at.u as f64, at.v as f64, img.width() as f64, img.height() as f64]);
    } else {
        c.count("lookups at texel borders");
    }
    ensure!(
        allowed.iter().any(|(x, y)| close(got, texel(img, *x, *y), 1e-12)),
        "{}x{} image at {at:?} gives {got:?}, should be texel {allowed:?} = {:?}",
        img.width(), img.height(), texel(img, allowed[0].0, allowed[0].1)
    );
    Ok(())
}

pub fn scratch_dir(tag: &str, c: &Case) -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("mon-{}-{tag}-{}", std::process::id(), c.seed));
    std::fs::create_dir_all(&d).expect("scratch directory");
    d
}

pub struct Scratch(pub std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn run(run: &Run) {
    run.cases("every texel", run.n(2000, 20000), |c| {
        let (w, h) = match c.rng.below(5) {
            0 => (1, c.rng.int(1, 40) as u32),
            1 => (c.rng.int(1, 40) as u32, 1),
            2 => (c.rng.int(1, 12) as u32, c.rng.int(1, 12) as u32),
            _ => (c.rng.int(1, 70) as u32, c.rng.int(1, 70) as u32),
        };
        let img = unique_image(&mut c.rng, w, h);
        let tex = ImageMap::new(Arc::new(img.clone()));
        c.sample(|| format!("{w}x{h} image"));
        c.add("texels seen", (w * h) as u64);
        for x in 0..w {
            for y in 0..h {
                for k in 0..3 {
                    let f = |r: &mut Rng| match k {
                        0 => 0.5,
                        1 => *r.pick(&[0.002, 0.998]),
                        _ => r.range(0.002, 0.998),
                    };
                    let (fx, fy) = (f(&mut c.rng), f(&mut c.rng));
                    let u = (x as f64 + fx) / w as f64;
                    let t = 1. - (y as f64 + fy) / h as f64;
                    look(c, &img, &tex, uv(u, t))?;
                }
            }
        }
        for (u, t) in [(0., 0.), (1., 0.), (0., 1.), (1., 1.), (0.5, 1.), (1., 0.5)] {
            look(c, &img, &tex, uv(u, t))?;
        }
        Ok(())
    });

    run.cases("random coordinates", run.n(400, 6000), |c| {
        let (w, h) = match c.rng.below(8) {
            // Long ones
            0 => (c.rng.log(3000., 150000.) as u32, c.rng.int(1, 12) as u32),
            1 => (c.rng.int(1, 12) as u32, c.rng.log(3000., 150000.) as u32),
            _ => (c.rng.log(1., 2500.) as u32, c.rng.log(1., 2500.) as u32),
        };
        let img = unique_image(&mut c.rng, w, h);
        let tex = ImageMap::new(Arc::new(img.clone()));
        for _ in 0..1000 {
            let kinds = if w.max(h) > 3000 { 1 } else { 3 };
            let at = match c.rng.below(kinds) {
                0 => uv(c.rng.f(), c.rng.f()),
                1 => uv(c.rng.f() * 10., c.rng.f() * 10.),
                _ => uv(c.rng.f() + c.rng.int(0, 2000) as f64, c.rng.f() + c.rng.int(0, 2000) as f64),
            };
            look(c, &img, &tex, at)?;
        }
        Ok(())
    });

    run.cases("exact repetition", run.n(400, 6000), |c| {
        let (w, h) = (c.rng.log(1., 200.) as u32, c.rng.log(1., 200.) as u32);
        let img = unique_image(&mut c.rng, w, h);
        let tex = ImageMap::new(Arc::new(img.clone()));
        for _ in 0..500 {
            // No rounding happens for these
            let mut part = |c: &mut Case| if c.rng.chance(0.3) { 0. } else { c.rng.below(64) as f32 / 64. };
            let (u, t) = (part(c), part(c));
            let mut whole = |c: &mut Case| match c.rng.below(4) {
                0 => 0.,
                1 => c.rng.int(0, 3) as f32,
                2 => c.rng.log(1., 1000.) as u32 as f32,
                _ => c.rng.log(1., 200000.) as u32 as f32,
            };
            let (i, j) = (whole(c), whole(c));
            let (a, b) = (V::of(tex.color(Uv::new(u, t))), V::of(tex.color(Uv::new(u + i, t + j))));
            c.eval();
            c.distinct_f(&[u as f64, t as f64, i as f64, j as f64]);
            ensure!(a == b, "{w}x{h} image is {a:?} at {u}, {t}, but {b:?} at {}, {}", u + i, t + j);
        }
        Ok(())
    });

    run.cases("any coordinates", run.n(400, 6000), |c| {
        let (w, h) = (c.rng.log(1., 300.) as u32, c.rng.log(1., 300.) as u32);
        let img = unique_image(&mut c.rng, w, h);
        let tex = ImageMap::new(Arc::new(img.clone()));
        let all: std::collections::HashSet<[u8; 3]> = img.pixels().map(|p| p.0).collect();
        for _ in 0..1000 {
            let mut any = || -> f32 {
                match c.rng.below(10) {
                    0 => f32::NAN,
                    1 => f32::INFINITY,
                    2 => f32::NEG_INFINITY,
                    3 => f32::MAX * c.rng.sign() as f32,
                    4 => f32::MIN_POSITIVE * c.rng.sign() as f32,
                    5 => c.rng.int(-3, 3) as f32,
                    6 => -0.,
                    7 => f32::from_bits(c.rng.next() as u32),
                    8 => -(c.rng.f() as f32) * 3.,
                    _ => 1. - f32::EPSILON / 2.,
                }
            };
            let at = Uv::new(any(), any());
            c.eval();
            c.distinct(at.u.to_bits() as u64 | (at.v.to_bits() as u64) << 32);
            let got = no_panic(|| tex.color(at)).map_err(|p| format!("{w}x{h} image at {at:?} panics: {p}"))?;
            let b = [got.x, got.y, got.z].map(|x| (x * 255.).round() as u8);
            let exact = [got.x, got.y, got.z].iter().zip(b).all(|(x, y)| (x - y as f64 / 255.).abs() < 1e-12);
            ensure!(exact && all.contains(&b), "{w}x{h} image at {at:?} gives {got}, which is no texel");
        }
        Ok(())
    });

    run.cases("solid colors", run.n(200, 4000), |c| {
        for _ in 0..500 {
            let k = v(c.rng.sign() * c.rng.log(1e-9, 1e9), c.rng.f(), c.rng.range(0., 300.));
            let a = [k.0 as f32, k.1 as f32, k.2 as f32];
            let at = Uv::new(f32::from_bits(c.rng.next() as u32), f32::from_bits(c.rng.next() as u32));
            c.eval();
            c.distinct_f(&k.arr());
            for (t, want) in [
                (SolidColor::new(k.0, k.1, k.2), k),
                (SolidColor::new_from_vec3(k.s()), k),
                (SolidColor::new_from_f32_array(a), v(a[0] as f64, a[1] as f64, a[2] as f64)),
            ] {
                ensure!(V::of(t.color(at)) == want && V::of(t.clone().color(at)) == want, "solid color {want:?} is {} at {at:?}", t.color(at));
            }
        }
        Ok(())
    });

    run.cases("files", run.n(160, 2000), |c| {
        let (w, h) = (c.rng.int(1, 40) as u32, c.rng.int(1, 40) as u32);
        let img = unique_image(&mut c.rng, w, h);
        let dir = Scratch(scratch_dir("tex", c));
        let (name, file, want): (&str, DynamicImage, RgbImage) = match c.rng.below(7) {
            0 => ("a.png", img.clone().into(), img.clone()),
            1 => ("a.bmp", img.clone().into(), img.clone()),
            2 => ("a.tga", img.clone().into(), img.clone()),
            // Name and contents do not agree
            3 => ("a.jpg", img.clone().into(), img.clone()),
            4 => {
                let g = GrayImage::from_fn(w, h, |x, y| Luma([(x * 7 + y * 31) as u8]));
                let want = RgbImage::from_fn(w, h, |x, y| {
                    let l = g.get_pixel(x, y)[0];
                    Rgb([l, l, l])
                });
                ("a.png", g.into(), want)
            }
            5 => {
                let a = RgbaImage::from_fn(w, h, |x, y| {
                    let p = img.get_pixel(x, y);
                    Rgba([p[0], p[1], p[2], (x * 3 + y) as u8])
                });
                ("a.png", a.into(), img.clone())
            }
            _ => {
                let d: ImageBuffer<Rgb<u16>, Vec<u16>> = ImageBuffer::from_fn(w, h, |x, y| {
                    let p = img.get_pixel(x, y);
                    Rgb([p[0] as u16 * 257, p[1] as u16 * 257, p[2] as u16 * 257])
                });
                ("a.png", d.into(), img.clone())
            }
        };
        let path = dir.0.join(name);
        let format = match name {
            "a.bmp" => image::ImageFormat::Bmp,
            "a.tga" => image::ImageFormat::Tga,
            _ => image::ImageFormat::Png,
        };
        file.save_with_format(&path, format).map_err(|e| format!("harness: {e}"))?;
        let tex = match ImageMap::load(path.to_str().unwrap()) {
            Ok(t) => t,
            // Formats without a signature can not be guessed with the wrong name, but here all agree
            Err(e) => return Err(format!("{w}x{h} {format:?} {:?} is not loaded: {e}", file.color())),
        };
        c.count(&format!("loaded {format:?} {:?}", file.color()));
        for x in 0..w {
            for y in 0..h {
                look(c, &want, &tex, uv((x as f64 + 0.5) / w as f64, 1. - (y as f64 + 0.5) / h as f64))?;
            }
        }
        Ok(())
    });
}
