//! Bump maps
use crate::core::*;
use crate::geom::*;
use crate::p16::{scratch_dir, texel, Scratch};
use crate::scene::*;
use image::{DynamicImage, GrayImage, Luma, Rgb, RgbImage, Rgba, RgbaImage};
use solstrale::material::texture::{load_normal_texture, Texture, Textures};
use solstrale::util::height_map::to_normal_map;

pub const RULE: &str = "Generated height maps (constant, ramps, steps, noise, all shades, sizes from one pixel and one row or column up, several file formats) are loaded as bump map, or converted directly, and every texel is compared with the unit normal computed independently from the Sobel gradient; generated tangent-space normal maps (flat, smooth, noisy, truncated or rounded, with unused areas) are loaded and every texel must be unchanged. Non-trivial: texels whose gradient is not zero, and texels of normal maps; counted by image and texel.";

/// Factor between the gradient and the slope
const STRENGTH: f64 = 6.;

/// The colour components, 0..255, of the normal at each texel of a height map
pub fn sobel(height: &dyn Fn(u32, u32) -> f64, w: u32, h: u32) -> Vec<[f64; 3]> {
    let at = |x: i64, y: i64| height(x.clamp(0, w as i64 - 1) as u32, y.clamp(0, h as i64 - 1) as u32);
    let mut o = vec![];
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let mut g = (0., 0.);
            for k in -1..=1i64 {
                let weight = if k == 0 { 2. } else { 1. };
                g.0 += weight * (at(x + 1, y + k) - at(x - 1, y + k));
                // Up is towards the first row
                g.1 += weight * (at(x + k, y - 1) - at(x + k, y + 1));
            }
            let n = v(-g.0 * STRENGTH, -g.1 * STRENGTH, 1.).unit();
            o.push([n.0, n.1, n.2].map(|c| (c + 1.) / 2. * 255.));
        }
    }
    o
}

pub fn height_map(r: &mut Rng, w: u32, h: u32) -> GrayImage {
    let kind = r.below(8);
    let base = r.below(256) as f64;
    let (dx, dy) = (r.range(-40., 40.), r.range(-40., 40.));
    let (dx, dy) = match r.below(4) {
        0 => (dx, 0.),
        1 => (0., dy),
        2 => (dx / 10., dy / 10.),
        _ => (dx, dy),
    };
    let (lo, hi) = (r.below(256), r.below(256));
    let (lo, hi) = (lo.min(hi), lo.max(hi));
    let cut = r.below(w as u64) as u32;
    let mut noise = r.clone();
    r.next();
    GrayImage::from_fn(w, h, |x, y| {
        let value = match kind {
            0 => base,
            1 | 2 => base + dx * x as f64 + dy * y as f64,
            3 => {
                if x < cut {
                    lo as f64
                } else {
                    hi as f64
                }
            }
            4 => 127.5 + 127.5 * (x as f64 * dx / 20.).sin() * (y as f64 * dy / 20.).cos(),
            5 => lo as f64 + noise.below(hi - lo + 1) as f64,
            6 => if noise.chance(0.5) { 0. } else { 255. },
            _ => noise.below(256) as f64,
        };
        Luma([value.clamp(0., 255.) as u8])
    })
}

/// A map of tangent-space normals, that are mostly not all alike
pub fn normal_map(r: &mut Rng, w: u32, h: u32) -> RgbImage {
    let kind = r.below(4);
    let round = r.chance(0.5);
    let fill = r.chance(0.4);
    let unused = r.range(0., 0.2);
    let flat = v(0., 0., 1.);
    let same = v(r.range(-0.5, 0.5), r.range(-0.5, 0.5), 1.).unit();
    let (fx, fy) = (r.range(0.1, 1.), r.range(0.1, 1.));
    let padding = *r.pick(&[[0u8, 0, 0], [255, 255, 255], [127, 127, 127], [201, 201, 201]]);
    // A map is still one if a small part of it is not in use
    let mut left = w * h / 4;
    RgbImage::from_fn(w, h, |x, y| {
        if fill && left > 0 && r.chance(unused) {
            left -= 1;
            return Rgb(padding);
        }
        let n = match kind {
            0 => flat,
            1 => same,
            2 => v((x as f64 * fx).sin() * 0.5, (y as f64 * fy).sin() * 0.5, 1.).unit(),
            _ => v(r.range(-0.5, 0.5), r.range(-0.5, 0.5), 1.).unit(),
        };
        Rgb(n.arr().map(|c| {
            let c = (c + 1.) / 2. * 255.;
            if round {
                c.round() as u8
            } else {
                c as u8
            }
        }))
    })
}

pub fn texel_of(tex: &Textures, w: u32, h: u32, x: u32, y: u32) -> V {
    let u = (x as f64 + 0.5) / w as f64;
    let t = 1. - (y as f64 + 0.5) / h as f64;
    V::of(tex.color(uv(u, t)))
}

fn size(r: &mut Rng) -> (u32, u32) {
    match r.below(8) {
        0 => (1, 1),
        1 => (1, r.int(1, 20) as u32),
        2 => (r.int(1, 20) as u32, 1),
        3 => (2, 2),
        4 => (r.int(1, 100) as u32, r.int(1, 100) as u32),
        _ => (r.int(1, 20) as u32, r.int(1, 20) as u32),
    }
}

fn check(c: &mut Case, img: &GrayImage, what: &str, got: &dyn Fn(u32, u32) -> [f64; 3]) -> Res {
    let (w, h) = img.dimensions();
    let want = sobel(&|x, y| img.get_pixel(x, y)[0] as f64 / 255., w, h);
    for y in 0..h {
        for x in 0..w {
            let k = want[(y * w + x) as usize];
            let g = got(x, y);
            c.eval();
            if (k[0] - 127.5).abs() + (k[1] - 127.5).abs() > 1. {
                c.distinct(hash_of((c.seed, x, y)));
            } else {
                c.count("texels without slope");
            }
            // Cut off, or rounded, to whole numbers
            let ok = (0..3).all(|i| g[i] > k[i] - 1.001 && g[i] < k[i] + 0.501);
            ensure!(
                ok,
                "{w}x{h} height map {what}: texel {x},{y} becomes {g:?} instead of {k:?}; heights around are {:?}",
                [(-1i64, 0i64), (1, 0), (0, -1), (0, 1)].map(|(a, b)| img.get_pixel(
                    (x as i64 + a).clamp(0, w as i64 - 1) as u32,
                    (y as i64 + b).clamp(0, h as i64 - 1) as u32
                )[0])
            );
        }
    }
    Ok(())
}

pub fn run(run: &Run) {
    run.cases("height maps", run.n(4000, 60000), |c| {
        let (w, h) = size(&mut c.rng);
        let img = height_map(&mut c.rng, w, h);
        let rgb = DynamicImage::from(img.clone()).into_rgb8();
        c.sample(|| format!("{w}x{h} height map"));
        if c.rng.chance(0.5) {
            let map = no_panic(|| to_normal_map(rgb)).map_err(|p| format!("{w}x{h} panics: {p}"))?;
            ensure!(map.dimensions() == (w, h), "{w}x{h} height map becomes {:?}", map.dimensions());
            c.count("converted");
            return check(c, &img, "converted", &|x, y| map.get_pixel(x, y).0.map(|b| b as f64));
        }
        let dir = Scratch(scratch_dir("bump", c));
        let kind = c.rng.below(4);
        let (file, name): (DynamicImage, &str) = match kind {
            0 => (img.clone().into(), "h.png"),
            1 => (rgb.into(), "h.bmp"),
            2 => (RgbaImage::from_fn(w, h, |x, y| {
                let l = img.get_pixel(x, y)[0];
                Rgba([l, l, l, 200])
            }).into(), "h.png"),
            _ => (rgb.into(), "h.png"),
        };
        let path = dir.0.join(name);
        file.save(&path).map_err(|e| format!("harness: {e}"))?;
        let tex = no_panic(|| load_normal_texture(path.to_str().unwrap()).map_err(|e| e.to_string()))
            .map_err(|p| format!("{w}x{h} panics: {p}"))??;
        c.count(&format!("loaded {name} {:?}", file.color()));
        check(c, &img, "loaded", &|x, y| texel_of(&tex, w, h, x, y).arr().map(|b| (b * 255.).round()))
    });

    run.cases("constant heights", 256, |c| {
        let l = c.index as u8;
        let (w, h) = size(&mut c.rng);
        let img = GrayImage::from_pixel(w, h, Luma([l]));
        let dir = Scratch(scratch_dir("flat", c));
        let path = dir.0.join("h.png");
        img.save(&path).map_err(|e| format!("harness: {e}"))?;
        let tex = load_normal_texture(path.to_str().unwrap()).map_err(|e| e.to_string())?;
        check(c, &img, &format!("of constant {l}"), &|x, y| texel_of(&tex, w, h, x, y).arr().map(|b| (b * 255.).round()))
    });

    // Wider, higher or with more texels than others, where only few rows differ
    run.cases("large images", run.n(40, 600), |c| {
        let (w, h) = match c.rng.below(4) {
            0 => (c.rng.int(4000, 9000) as u32, c.rng.int(1, 12) as u32),
            1 => (c.rng.int(1, 12) as u32, c.rng.int(4000, 9000) as u32),
            2 => (c.rng.int(66000, 70000) as u32, c.rng.int(1, 3) as u32),
            _ => (c.rng.int(100, 500) as u32, c.rng.int(100, 500) as u32),
        };
        let heights = c.rng.chance(0.5);
        let dir = Scratch(scratch_dir("large", c));
        let path = dir.0.join("l.png");
        c.count(&format!("large images: {}", if heights { "heights" } else { "normals" }));
        c.sample(|| format!("{w}x{h}, heights: {heights}"));
        // The beginning of either can have colors that are typical of the other kind
        let start = (w as u64 * h as u64 * c.rng.below(45) / 100) as u32;
        let load = || {
            no_panic(|| load_normal_texture(path.to_str().unwrap()).map_err(|e| e.to_string()))
                .map_err(|p| format!("{w}x{h} panics: {p}"))?
        };
        if heights {
            let mut img = height_map(&mut c.rng, w, h);
            // These shades are those of a unit vector also
            let shade = *c.rng.pick(&[0u8, 54, 201, 255]);
            if c.rng.chance(0.5) {
                for i in 0..start {
                    img.put_pixel(i % w, i / w, Luma([shade]));
                }
            }
            img.save(&path).map_err(|e| format!("harness: {e}"))?;
            let tex = load()?;
            check(c, &img, "loaded", &|x, y| texel_of(&tex, w, h, x, y).arr().map(|b| (b * 255.).round()))
        } else {
            let n = v(0.3, -0.2, 1.).unit();
            let mut r = c.rng.clone();
            let mut img = RgbImage::from_fn(w, h, |x, y| {
                let n = (n + v((x as f64 * 0.1).sin() * 0.3, (y as f64 * 0.1).cos() * 0.3, 0.)).unit();
                let n = if r.chance(0.1) { v(0., 0., 1.) } else { n };
                Rgb(n.arr().map(|c| ((c + 1.) / 2. * 255.).round() as u8))
            });
            let fill = *c.rng.pick(&[[0u8; 3], [127; 3], [201; 3], [255; 3]]);
            if c.rng.chance(0.5) {
                for i in 0..start {
                    img.put_pixel(i % w, i / w, Rgb(fill));
                }
            }
            img.save(&path).map_err(|e| format!("harness: {e}"))?;
            let tex = load()?;
            for y in 0..h {
                for x in 0..w {
                    c.eval();
                    c.distinct(hash_of((c.seed, x, y)));
                    let got = texel_of(&tex, w, h, x, y);
                    ensure!(
                        close(got, texel(&img, x, y), 1e-9),
                        "{w}x{h} normal map: texel {x},{y} is {:?}, and becomes {:?}",
                        img.get_pixel(x, y).0, (got * 255.)
                    );
                }
            }
            Ok(())
        }
    });

    run.cases("normal maps", run.n(3000, 40000), |c| {
        let (w, h) = size(&mut c.rng);
        let img = normal_map(&mut c.rng, w, h);
        let dir = Scratch(scratch_dir("norm", c));
        let name = *c.rng.pick(&["n.png", "n.bmp", "n.tga"]);
        let path = dir.0.join(name);
        img.save(&path).map_err(|e| format!("harness: {e}"))?;
        let tex = no_panic(|| load_normal_texture(path.to_str().unwrap()).map_err(|e| e.to_string()))
            .map_err(|p| format!("{w}x{h} panics: {p}"))??;
        c.count("normal maps");
        for y in 0..h {
            for x in 0..w {
                c.eval();
                c.distinct(hash_of((c.seed, x, y)));
                let got = texel_of(&tex, w, h, x, y);
                ensure!(
                    close(got, texel(&img, x, y), 1e-9),
                    "{w}x{h} normal map: texel {x},{y} is {:?}, and becomes {:?}",
                    img.get_pixel(x, y).0, (got * 255.)
                );
            }
        }
        Ok(())
    });
}
