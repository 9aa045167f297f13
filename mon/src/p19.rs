//! Broken model and texture files
use crate::core::*;
use crate::geom::*;
use crate::p16::{scratch_dir, unique_image, Scratch};
use crate::p20::{height_map, normal_map};
use crate::scene::*;
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::NopTransformer;
use solstrale::hittable::{Hittable, Hittables};
use solstrale::loader::obj::Obj;
use solstrale::loader::Loader;
use solstrale::material::texture::{load_normal_texture, ImageMap, Texture, Textures};
use solstrale::material::Lambertian;
use solstrale::renderer::shader::PathTracingShader;
use std::path::Path;

pub const RULE: &str = "Models with library, colour image and bump map get one specific fault (a missing, empty, truncated, binary or replaced file, a directory instead of a file, a bad index or number, an image header that asks for too much) and must be refused with an error that names the file; then files are mutated in all kinds of ways (bytes, lines, tokens, hostile numbers, truncation, garbage) and must either be refused the same way or give an object that answers rays, lists lights, has a bounding box and is rendered, all without panic, crash or endless loop. Non-trivial: files that differ from the valid ones; counted by their bytes.";

#[derive(Clone)]
struct Files {
    obj: Vec<u8>,
    mtl: Vec<u8>,
    color: Vec<u8>,
    bump: Vec<u8>,
}

const NAMES: [&str; 4] = ["model.obj", "model.mtl", "color.png", "bump.png"];

impl Files {
    fn get(&mut self, i: usize) -> &mut Vec<u8> {
        match i {
            0 => &mut self.obj,
            1 => &mut self.mtl,
            2 => &mut self.color,
            _ => &mut self.bump,
        }
    }
    fn write(&mut self, dir: &Path) {
        for i in 0..4 {
            std::fs::write(dir.join(NAMES[i]), self.get(i)).expect("harness");
        }
    }
}

fn encoded(img: image::DynamicImage, format: image::ImageFormat) -> Vec<u8> {
    let mut o = std::io::Cursor::new(vec![]);
    img.write_to(&mut o, format).expect("harness");
    o.into_inner()
}

fn files(r: &mut Rng) -> Files {
    let mut obj = String::from("# model\nmtllib model.mtl\no thing\n");
    let n = r.int(1, 6);
    for i in 0..n {
        for _ in 0..4 {
            let p = rand_in(r, 2.);
            obj += &format!("v {:.4} {:.4} {:.4}\n", p.0, p.1, p.2);
        }
        for _ in 0..4 {
            obj += &format!("vt {:.3} {:.3}\n", r.f(), r.f());
        }
        obj += "vn 0 1 0\n";
        obj += &format!("usemtl {}\n", ["a", "b", "c"][i as usize % 3]);
        let k = i * 4;
        obj += &match r.below(4) {
            0 => "f -4/-4/-1 -3/-3/-1 -2/-2/-1\n".to_string(),
            1 => format!("f {0}/{0}/{4} {1}/{1}/{4} {2}/{2}/{4} {3}/{3}/{4}\n", k + 1, k + 2, k + 3, k + 4, i + 1),
            _ => format!("f {0}/{0} {1}/{1} {2}/{2}\n", k + 1, k + 2, k + 3),
        };
    }
    // Each one is in use
    obj += "usemtl b\nf 1/1 2/2 3/3\n";
    let mtl = "newmtl a\nKd 0.5 0.6 0.7\nNs 10\nillum 2\n\nnewmtl b\nKd 1 1 1\nmap_Kd color.png\nmap_Bump bump.png\n\nnewmtl c\nKd 0.1 0.2 0.3\nbump bump.png\n";
    let (w, h) = (r.int(1, 12) as u32, r.int(1, 12) as u32);
    let bump = if r.chance(0.5) { normal_map(r, w, h).into() } else { height_map(r, w, h).into() };
    Files {
        obj: obj.into_bytes(),
        mtl: mtl.as_bytes().to_vec(),
        color: encoded(unique_image(r, w, h).into(), image::ImageFormat::Png),
        bump: encoded(bump, image::ImageFormat::Png),
    }
}

fn load(dir: &Path, name: &str) -> Result<Result<Hittables, String>, String> {
    let path = format!("{}/", dir.display());
    no_panic(|| Obj::new(&path, name).load(&NopTransformer(), None).map_err(|e| e.to_string()))
}

/// Does everything one does with a model
fn use_model(c: &mut Case, object: Hittables) -> Res {
    let b = object.bounding_box();
    let mid = v(b.x.min / 2. + b.x.max / 2., b.y.min / 2. + b.y.max / 2., b.z.min / 2. + b.z.max / 2.);
    let half = (v(b.x.max, b.y.max, b.z.max) - mid).max_abs();
    let (mid, half) = if mid.finite() && half.is_finite() { (mid, half) } else { (v(0., 0., 0.), 2.) };
    let lights = vec![far_light()];
    object.get_lights();
    for _ in 0..30 {
        let p = mid + rand_in(&mut c.rng, half);
        let d = rand_dir(&mut c.rng);
        let ray = ray(p - d * (2. * half + 1.), d);
        c.eval();
        if let Some(rec) = object.hit(&ray, &ahead()) {
            c.count("hits of loaded models");
            scatter_color(&rec, &ray, &lights);
        }
    }
    let cam = CameraConfig {
        vertical_fov_degrees: 50.,
        aperture_size: 0.,
        look_from: (mid + v(0.1, 0.2, 1.).unit() * (3. * half + 0.1)).s(),
        look_at: mid.s(),
        up: v(0., 1., 0.).s(),
    };
    let world = bvh(vec![far_light(), object]);
    let mut cfg = config(6, 6, 1, PathTracingShader::new(4));
    cfg.post_processors = vec![];
    let done = render(scene(world, cam, v(0.5, 0.5, 0.5), cfg))?;
    ensure!(done.result.is_ok(), "rendering fails: {:?}", done.result);
    c.count("rendered models");
    Ok(())
}

fn tell(e: &str, f: &Files) -> String {
    let text = |b: &[u8]| b.escape_ascii().to_string().replace("\\n", "\n").chars().take(1500).collect::<String>();
    format!("{e}\nmodel:\n{}\nlibrary:\n{}\nimages of {} and {} bytes", text(&f.obj), text(&f.mtl), f.color.len(), f.bump.len())
}

/// The header of a PNG image, with nothing in it
fn png_bomb(w: u32, h: u32, depth: u8, kind: u8) -> Vec<u8> {
    fn crc(data: &[u8]) -> u32 {
        let mut c = !0u32;
        for b in data {
            c ^= *b as u32;
            for _ in 0..8 {
                c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
        }
        !c
    }
    let mut o = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut chunk = |name: &[u8], data: &[u8]| {
        o.extend((data.len() as u32).to_be_bytes());
        let all = [name, data].concat();
        o.extend(&all);
        o.extend(crc(&all).to_be_bytes());
    };
    let mut head = vec![];
    head.extend(w.to_be_bytes());
    head.extend(h.to_be_bytes());
    head.extend([depth, kind, 0, 0, 0]);
    chunk(b"IHDR", &head);
    chunk(b"IDAT", &[0x78, 0x9c, 3, 0, 0, 0, 0, 1]);
    chunk(b"IEND", &[]);
    o
}

const NUMBERS: [&str; 24] = [
    "nan", "inf", "-inf", "1e999", "-1e999", "1e38", "3.5e38", "1e-45", "0", "-0", "-1", "1", "4294967295", "4294967296",
    "2147483648", "18446744073709551615", "99999999999999999999", "-9223372036854775808", "9223372036854775807", "1.5", "+1", "0x10", "1e3", "",
];
const TOKENS: [&str; 40] = [
    "v", "vt", "vn", "f", "l", "p", "o", "g", "s", "usemtl", "mtllib", "newmtl", "Kd", "Ka", "Ks", "Ke", "Ns", "Ni", "d", "Tr", "illum",
    "map_Kd", "map_Ka", "map_Ks", "map_Ns", "map_d", "map_Bump", "bump", "#", "/", "//", "1/", "1//", "/1/1", "1/1/1/1", "-1/-1", "\\", "\u{e9}", "model.obj", "bump.png",
];

fn mutate_text(r: &mut Rng, text: &[u8]) -> Vec<u8> {
    let mut lines: Vec<Vec<u8>> = text.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    for _ in 0..r.log(1., 8.) as usize {
        let i = r.below(lines.len() as u64) as usize;
        match r.below(12) {
            0 => {
                lines.remove(i);
            }
            1 => {
                let l = lines[i].clone();
                let j = r.below(lines.len() as u64) as usize;
                lines.insert(j, l);
            }
            2 => {
                let j = r.below(lines.len() as u64) as usize;
                lines.swap(i, j);
            }
            3..=6 => {
                let mut words: Vec<Vec<u8>> = lines[i].split(|b| *b == b' ').map(|w| w.to_vec()).collect();
                let j = r.below(words.len() as u64) as usize;
                let new = if r.chance(0.6) { *r.pick(&NUMBERS) } else { *r.pick(&TOKENS) };
                match r.below(5) {
                    0 => words.insert(j, new.into()),
                    1 => {
                        words.remove(j);
                    }
                    2 => {
                        // One of the indices of a corner
                        let mut parts: Vec<Vec<u8>> = words[j].split(|b| *b == b'/').map(|w| w.to_vec()).collect();
                        let k = r.below(parts.len() as u64) as usize;
                        parts[k] = new.into();
                        words[j] = parts.join(&b'/');
                    }
                    _ => words[j] = new.into(),
                }
                lines[i] = words.join(&b' ');
            }
            7 => {
                let mut l = vec![];
                for k in 0..r.below(8) {
                    if k > 0 {
                        l.push(b' ');
                    }
                    l.extend(if r.chance(0.5) { r.pick(&TOKENS).as_bytes() } else { r.pick(&NUMBERS).as_bytes() });
                }
                lines.insert(i, l);
            }
            8 if !lines[i].is_empty() => {
                let j = r.below(lines[i].len() as u64) as usize;
                lines[i][j] = r.next() as u8;
            }
            9 => {
                let j = r.below(lines[i].len() as u64 + 1) as usize;
                lines[i].truncate(j);
            }
            10 => {
                lines[i].push(*r.pick(&[b'\r', b'\t', 0, b' ', b'\\', 0xff]));
            }
            _ => {
                let n = r.log(1., 300.) as usize;
                lines[i] = std::iter::repeat_n(lines[i].clone(), n).collect::<Vec<_>>().join(&b' ');
            }
        }
        if lines.is_empty() {
            lines.push(vec![]);
        }
    }
    lines.join(&b'\n')
}

fn mutate_bytes(r: &mut Rng, bytes: &[u8]) -> Vec<u8> {
    let mut b = bytes.to_vec();
    for _ in 0..r.log(1., 10.) as usize {
        if b.is_empty() {
            b.push(0);
        }
        let i = r.below(b.len() as u64) as usize;
        match r.below(8) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.next() as u8,
            2 => b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]),
            3 => b.truncate(i),
            4 => {
                let n = r.int(1, 8) as usize;
                let extra: Vec<u8> = (0..n).map(|_| r.next() as u8).collect();
                b.splice(i..i, extra);
            }
            5 => {
                let e = (i + r.int(1, 16) as usize).min(b.len());
                b.drain(i..e);
            }
            6 => {
                let e = (i + r.int(1, 64) as usize).min(b.len());
                let part = b[i..e].to_vec();
                let j = r.below(b.len() as u64) as usize;
                b.splice(j..j, part);
            }
            _ => {
                // Close to the start is where the sizes are
                let i = r.below(b.len().min(40) as u64) as usize;
                b[i] = r.next() as u8;
            }
        }
    }
    b
}

fn garbage(r: &mut Rng) -> Vec<u8> {
    let n = r.log(1., 3000.) as usize;
    (0..n).map(|_| r.next() as u8).collect()
}

/// Files of all the formats
fn pictures(r: &mut Rng) -> Vec<(&'static str, Vec<u8>)> {
    use image::ImageFormat::*;
    let (w, h) = (r.int(1, 20) as u32, r.int(1, 20) as u32);
    let rgb = unique_image(r, w, h);
    let all: image::DynamicImage = rgb.into();
    let mut o = vec![];
    for (name, f) in [("png", Png), ("jpg", Jpeg), ("bmp", Bmp), ("gif", Gif), ("tga", Tga), ("tif", Tiff), ("ppm", Pnm), ("webp", WebP), ("ico", Ico), ("qoi", Qoi), ("ff", Farbfeld), ("hdr", Hdr), ("exr", OpenExr)] {
        let img = match f {
            Farbfeld => all.to_rgba16().into(),
            Hdr | OpenExr => all.to_rgb32f().into(),
            Gif | Ico => all.to_rgba8().into(),
            _ => all.clone(),
        };
        let mut b = std::io::Cursor::new(vec![]);
        if img.write_to(&mut b, f).is_ok() {
            o.push((name, b.into_inner()));
        }
    }
    o
}

static LARGE: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// How many pixels the header says that there are
fn pixels(path: &str) -> f64 {
    let size = no_panic(|| {
        let mut r = image::ImageReader::open(path).ok()?;
        r.no_limits();
        r.with_guessed_format().ok()?.into_dimensions().ok()
    });
    size.ok().flatten().map_or(0., |(w, h)| w as f64 * h as f64)
}

fn use_texture(c: &mut Case, t: &Textures) -> Res {
    for _ in 0..20 {
        c.eval();
        let at = uv(c.rng.range(-2., 2.), c.rng.range(-2., 2.));
        let k = V::of(t.color(at));
        ensure!(k.finite() && k.arr().iter().all(|x| (0. ..=1.).contains(x)), "colour of the texture is {k:?}");
    }
    Ok(())
}

pub fn run(run: &Run) {
    run.cases("single faults", run.n(3000, 40000), |c| {
        let dir = Scratch(scratch_dir("fault", c));
        let mut rng = c.rng.clone();
        c.rng.next();
        let r = &mut rng;
        let mut f = files(r);
        let base = format!("{}/", dir.0.display());
        let which = r.below(4) as usize;
        let mut named = format!("{base}{}", NAMES[which]);
        // An error of the library tells which model it belongs to
        if which == 1 {
            named = format!("{base}model.obj");
        }
        f.write(&dir.0);
        let victim = dir.0.join(NAMES[which]);
        let text = which < 2;
        let kind = r.below(8);
        let what = match kind {
            0 => {
                std::fs::remove_file(&victim).expect("harness");
                "missing".to_string()
            }
            1 => {
                std::fs::remove_file(&victim).expect("harness");
                std::fs::create_dir(&victim).expect("harness");
                "a directory".into()
            }
            2 => {
                // Not text: a line of a model or library that is in use has bytes that are none
                let bad: Vec<u8> = if text {
                    let mut b = f.get(which).clone();
                    let at = r.below(b.len() as u64) as usize;
                    b.insert(at, 0xff);
                    b
                } else {
                    let mut b = garbage(r);
                    b[0] = 0xfe;
                    b
                };
                std::fs::write(&victim, &bad).expect("harness");
                "binary".into()
            }
            3 if !text => {
                std::fs::write(&victim, b"").expect("harness");
                "empty".into()
            }
            4 if !text => {
                std::fs::write(&victim, *r.pick(&[&b"v 1 2 3\n"[..], b"<html></html>", b"\x89PNG\r\n\x1a\n", b"GIF89a", b"P6\n0 0\n255\n", b"P5 3 0 255 "])).expect("harness");
                "no image".into()
            }
            5 if !text => {
                let b = f.get(which).clone();
                // Not even the header is complete
                let n = r.below(33.min(b.len() as u64)) as usize;
                std::fs::write(&victim, &b[..n]).expect("harness");
                format!("cut off after {n} bytes")
            }
            6 if !text => {
                let (w, h) = (r.log(150_000., 2e9) as u32, r.log(150_000., 2e9) as u32);
                let depth = *r.pick(&[8, 16]);
                let kind = *r.pick(&[0, 2, 6]);
                std::fs::write(&victim, png_bomb(w, h, depth, kind)).expect("harness");
                format!("{w}x{h} pixels of nothing")
            }
            _ if which == 0 => {
                let line = *r.pick(&[
                    "v 1 2", "v a b c", "v", "vt 1", "vt x 1", "vn 1 2", "f 1 2 x", "f 1/x 2/2 3/3", "f 0 1 2", "f 1 2 999", "f 1/999 2/1 3/1", "f -999 -1 -2",
                    "f 1 2 4294967297", "f 1 2 99999999999999999999999", "usemtl", "f 1/1/999 2/2/1 3/3/1", "v 1 2 3 0", "f 1 2 9999999999", "f 1/-999 2/2 3/3", "f 4611686018427387904 1 2",
                    "f 1/9223372036854775807 2/2 3/3", "f 1/4611686018427387905 2/2 3/3", "f 1/1/6148914691236517206 2/2/1 3/3/1", "f 1 2 6148914691236517206",
                ]);
                let mut o = f.obj.clone();
                if r.chance(0.5) {
                    o.extend(line.as_bytes());
                    o.push(b'\n');
                } else {
                    // The library has to be known, and something to refer to has to exist
                    let n = o.windows(3).position(|w| w == b"vn ").unwrap();
                    let n = n + o[n..].iter().position(|b| *b == b'\n').unwrap() + 1;
                    o.splice(n..n, [line.as_bytes(), b"\n"].concat());
                }
                std::fs::write(&victim, &o).expect("harness");
                format!("with the line {line}")
            }
            _ if which == 1 => {
                let line = *r.pick(&["Kd", "Kd 1", "Kd 1 2", "Kd a b c", "Ns", "Ns x", "d", "d ?", "Ni", "illum", "illum x", "map_Kd", "map_Bump", "bump", "newmtl", "Ka 0", "Ks -", "Ke 1 1", "map_d", "illum 999", "illum -1", "map_Ns ", "newmtl  "]);
                let mut o = f.mtl.clone();
                if r.chance(0.5) {
                    o.extend(line.as_bytes());
                    o.push(b'\n');
                } else {
                    let n = o.iter().position(|b| *b == b'\n').unwrap() + 1;
                    o.splice(n..n, [line.as_bytes(), b"\n"].concat());
                }
                std::fs::write(&victim, &o).expect("harness");
                format!("with the line {line}")
            }
            _ => {
                // One wrong byte within the pixels: the check sum does not fit
                let mut b = f.get(which).clone();
                let n = b.windows(4).position(|w| w == b"IDAT").unwrap() + 4;
                let len = u32::from_be_bytes(b[n - 8..n - 4].try_into().unwrap()) as usize;
                b[n + r.below(len as u64) as usize] ^= 1 << r.below(8);
                std::fs::write(&victim, &b).expect("harness");
                "damaged".into()
            }
        };
        c.sample(|| format!("{} is {what}", NAMES[which]));
        c.count(&format!("{} {}", NAMES[which], if kind < 3 { what.as_str() } else { "broken" }));
        c.eval();
        c.distinct(hash_of((c.seed, &what)));
        let got = load(&dir.0, "model.obj").map_err(|p| tell(&format!("{} {what}: panics: {p}", NAMES[which]), &f))?;
        match got {
            Ok(object) => {
                if what == "damaged" {
                    // Some damage changes nothing but unused bits
                    c.count("damage that is tolerated");
                    return use_model(c, object);
                }
                return Err(tell(&format!("{} {what}: no error", NAMES[which]), &f));
            }
            Err(e) => {
                ensure!(e.contains(&named), "{} {what}: the error does not name {named}: {e}", NAMES[which]);
                ensure!(which != 1 || e.contains("MTL"), "{} {what}: the error does not tell that it is about the library: {e}", NAMES[which]);
            }
        }
        Ok(())
    });

    run.cases("one of several libraries", run.n(400, 4000), |c| {
        let dir = Scratch(scratch_dir("libs", c));
        let r = &mut c.rng;
        let n = r.int(1, 4);
        let bad = r.below(n as u64) as i64;
        let mut obj = String::new();
        for i in 0..n {
            obj += &format!("mtllib lib{i}.mtl\n");
            let text = format!("newmtl m{i}\nKd 0.5 0.5 0.5\n");
            if i != bad {
                std::fs::write(dir.0.join(format!("lib{i}.mtl")), text).expect("harness");
            } else if r.chance(0.5) {
                std::fs::write(dir.0.join(format!("lib{i}.mtl")), text + "Kd x\n").expect("harness");
            }
        }
        obj += "v 0 0 0\nv 1 0 0\nv 0 1 0\n";
        for i in 0..n {
            obj += &format!("usemtl m{i}\nf 1 2 3\n");
        }
        std::fs::write(dir.0.join("model.obj"), &obj).expect("harness");
        c.eval();
        c.distinct(hash_of((n, bad, c.seed)));
        c.count("models with one broken library");
        match load(&dir.0, "model.obj")? {
            Ok(_) => Err(format!("library {bad} of {n} is broken: no error")),
            Err(e) => {
                ensure!(e.contains("MTL") && e.contains("model.obj"), "error is: {e}");
                Ok(())
            }
        }
    });

    run.cases_on("mutations", run.n(12000, 250000), 8, |c| {
        let dir = Scratch(scratch_dir("mutation", c));
        let mut rng = c.rng.clone();
        c.rng.next();
        let r = &mut rng;
        let mut f = files(r);
        for _ in 0..r.int(1, 2) {
            let which = *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3]);
            let old = f.get(which).clone();
            let new = match r.below(10) {
                0 => garbage(r),
                1 => old[..r.below(old.len() as u64) as usize].to_vec(),
                2 | 3 => mutate_bytes(r, &old),
                _ if which < 2 => mutate_text(r, &old),
                _ => mutate_bytes(r, &old),
            };
            *f.get(which) = new;
        }
        f.write(&dir.0);
        c.eval();
        c.distinct(hash_of((&f.obj, &f.mtl, &f.color, &f.bump)));
        match load(&dir.0, "model.obj").map_err(|p| tell(&format!("panics: {p}"), &f))? {
            Ok(object) => {
                c.count("mutations that load");
                no_panic(|| use_model(c, object)).unwrap_or_else(|p| Err(format!("panics: {p}"))).map_err(|e| tell(&e, &f))
            }
            Err(e) => {
                c.count("mutations that are refused");
                ensure!(e.contains(&format!("{}/", dir.0.display())), "{}", tell(&format!("the error does not name a file: {e}"), &f));
                Ok(())
            }
        }
    });

    run.cases_on("textures", run.n(12000, 250000), 8, |c| {
        let dir = Scratch(scratch_dir("texture", c));
        let mut rng = c.rng.clone();
        c.rng.next();
        let r = &mut rng;
        let all = pictures(r);
        let (name, bytes) = r.pick(&all).clone();
        let (kind, bytes) = match r.below(12) {
            0 => ("garbage", garbage(r)),
            1 => ("nothing", vec![]),
            2 => ("truncated", bytes[..r.below(bytes.len() as u64) as usize].to_vec()),
            3 => ("valid", bytes),
            4 => {
                let (w, h) = (r.log(1., 4e9) as u32, r.log(1., 4e9) as u32);
                ("bomb", png_bomb(w, h, *r.pick(&[1, 2, 4, 8, 16]), *r.pick(&[0, 2, 3, 4, 6])))
            }
            5 => ("empty image", r.pick(&[&b"P6\n0 0\n255\n"[..], b"P6 0 5 255 ", b"P3 7 0 255 ", b"farbfeld\0\0\0\0\0\0\0\0", b"P1 0 0 ", b"#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y 0 +X 0\n"]).to_vec()),
            _ => ("mutated", mutate_bytes(r, &bytes)),
        };
        // The name may tell another format
        let renamed = r.chance(0.2);
        let name = if !renamed { name } else { *r.pick(&["png", "jpg", "txt", "", "tga", "exr"]) };
        let path = dir.0.join(format!("image.{name}"));
        std::fs::write(&path, &bytes).expect("harness");
        let path = path.display().to_string();
        // Large images are just slow, and memory that happens to be enough for one is not for several
        let pixels = pixels(&path);
        if (1e8..2e10).contains(&pixels) || (4e6..2e10).contains(&pixels) && !bytes.starts_with(b"\x89PNG") {
            c.count("skipped large images");
            return Ok(());
        }
        let _alone = (pixels > 1e6).then(|| LARGE.lock().unwrap_or_else(|e| e.into_inner()));
        c.eval();
        c.distinct(hash_of(&bytes));
        for bump in [false, true] {
            let got = no_panic(|| if bump { load_normal_texture(&path) } else { ImageMap::load(&path) }.map_err(|e| e.to_string()));
            let got = got.map_err(|p| format!("{kind} {name} {}: panics: {p}", bytes[..bytes.len().min(400)].escape_ascii()))?;
            match got {
                Ok(t) => {
                    c.count(&format!("{kind} images that load"));
                    use_texture(c, &t)?;
                    if !bump && c.index % 10 == 0 {
                        let quad = build(&Shape::Quad(v(-1., -1., 0.), v(2., 0., 0.), v(0., 2., 0.)), Lambertian::new(t.clone(), Some(t)));
                        use_model(c, quad)?;
                    }
                }
                Err(e) => {
                    c.count(&format!("{kind} images that are refused"));
                    ensure!(kind != "valid" || renamed, "valid {name} is refused: {e}");
                    ensure!(e.contains(&path), "{kind} {name}: error does not name {path}: {e}");
                }
            }
        }
        Ok(())
    });
}
