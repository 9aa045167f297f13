//! Loading of models
use crate::core::*;
use crate::geom::*;
use crate::p16::{scratch_dir, texel, texels_at, texels_of, unique_image, Scratch};
use crate::p17::expected;
use crate::p20::{height_map, normal_map, sobel};
use crate::p25::{chain, Op};
use crate::scene::*;
use image::{DynamicImage, GrayImage, RgbImage};
use solstrale::geo::Uv;
use solstrale::hittable::{Hittable, Hittables};
use solstrale::loader::obj::Obj;
use solstrale::loader::Loader;
use solstrale::material::texture::ImageMap;
use solstrale::material::{DiffuseLight, Lambertian, Material, Materials, RayScatter};
use solstrale::util::interval::Interval;
use std::fmt::Write as _;
use std::sync::Arc;

pub const RULE: &str = "Generated models (polygons of 3 to 8 corners and single triangles, all forms of indices, negative ones, unused and shared vertices, normals, groups, objects, smoothing groups, comments, empty lines, both line ends; none to a thousand materials over up to four libraries, with colours, colour images, normal maps and height maps; unknown materials, faces before the first material; no faces at all; files used by several materials or for both purposes, names that differ in case only) and models of 22500 to 52900 triangles are written to files and loaded with a random transformation; rays aimed at every triangle report all hits one after the other, which are compared with an exhaustive search over the generated triangles: distance, texture coordinate, kind and colour of the material, normal; the lights and the bounding box show that there are no others. Non-trivial: hits; counted by model, triangle and ray.";

#[derive(Clone)]
enum Bump {
    Normal(RgbImage),
    Height(GrayImage),
}

struct Mat {
    name: String,
    kd: Option<[f32; 3]>,
    image: Option<(String, RgbImage)>,
    bump: Option<(String, Bump)>,
    lib: usize,
}

impl Bump {
    fn rgb(&self) -> RgbImage {
        match self {
            Bump::Normal(img) => img.clone(),
            Bump::Height(img) => DynamicImage::from(img.clone()).into_rgb8(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Assigned {
    Default,
    Mat(usize),
}

struct Tri {
    p: [V; 3],
    uv: Option<[(f32, f32); 3]>,
    mat: Assigned,
}

fn small_image(r: &mut Rng) -> RgbImage {
    let (w, h) = (r.int(1, 9) as u32, r.int(1, 9) as u32);
    unique_image(r, w, h)
}

fn number(r: &mut Rng, x: f32) -> String {
    match r.below(3) {
        0 => format!("{x:e}"),
        _ => format!("{x}"),
    }
}

struct Model {
    obj: String,
    libs: Vec<String>,
    mats: Vec<Mat>,
    tris: Vec<Tri>,
    crlf: bool,
    with_uv: bool,
}

fn model(r: &mut Rng, dir: &std::path::Path) -> Result<Model, String> {
    let nmats = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.int(120, 140),
        3 => r.int(250, 1000),
        _ => r.int(1, 12),
    } as usize;
    let nlibs = if nmats == 0 { r.below(2) } else { 1 + r.below(4) } as usize;
    let pictures = r.chance(0.6);
    let spaces = r.chance(0.1);
    let mut mats = vec![];
    let mut libs = vec![String::new(); nlibs];
    let offset = r.below(1 << 24) as usize;
    let sep = if spaces { " " } else { "_" };
    for i in 0..nmats {
        let lib = r.below(nlibs as u64) as usize;
        let picture = pictures && (nmats < 20 || r.chance(0.02));
        let id = i.wrapping_mul(0x9E3779).wrapping_add(offset) & 0xFFFFFF;
        let kd = [(id >> 16) & 255, (id >> 8) & 255, id & 255].map(|c| c as f32 / 256.);
        // Names of files that only differ in their case
        let stem = |r: &mut Rng, kind: &str| {
            if r.chance(0.2) {
                format!("{}{}{sep}{}", kind[..1].to_uppercase(), &kind[1..], r.below(i as u64 + 1))
            } else {
                format!("{kind}{sep}{i}")
            }
        };
        // Also several materials with the same files, or one for both purposes
        let earlier: Option<&Mat> = (!mats.is_empty() && r.chance(0.3)).then(|| r.pick(&mats));
        let known_image = earlier.and_then(|m: &Mat| m.image.clone());
        let known_bump = earlier.and_then(|m: &Mat| m.bump.clone());
        let bump = (picture && r.chance(0.5)).then(|| {
            known_bump.unwrap_or_else(|| {
                let (w, h) = (r.int(1, 9) as u32, r.int(1, 9) as u32);
                let name = format!("{}.png", stem(r, "bump"));
                if let Some(b) = mats.iter().filter_map(|m: &Mat| m.bump.clone()).find(|b| b.0 == name) {
                    return b;
                }
                (name, if r.chance(0.5) { Bump::Normal(normal_map(r, w, h)) } else { Bump::Height(height_map(r, w, h)) })
            })
        });
        let image = (picture && r.chance(0.4)).then(|| match &bump {
            Some(b) if r.chance(0.2) => (b.0.clone(), b.1.rgb()),
            _ => known_image.unwrap_or_else(|| {
                let name = format!("{}.{}", stem(r, "color"), r.pick(&["png", "bmp"]));
                match mats.iter().filter_map(|m: &Mat| m.image.clone()).find(|b| b.0 == name) {
                    Some(b) => b,
                    None => (name, small_image(r)),
                }
            }),
        });
        mats.push(Mat {
            name: format!("mat{sep}{i}{}", if r.chance(0.2) { ".001" } else { "" }),
            kd: r.chance(0.97).then_some(kd),
            image,
            bump,
            lib,
        });
    }
    for (i, m) in mats.iter().enumerate() {
        let mut lines = vec![];
        if let Some(kd) = m.kd {
            lines.push(format!("Kd {} {} {}", number(r, kd[0]), number(r, kd[1]), number(r, kd[2])));
        }
        // Those for both purposes are of the kind of the bump map
        if let Some((name, img)) = &m.image {
            if !dir.join(name).exists() {
                img.save(dir.join(name)).map_err(|e| format!("harness: {e}"))?;
            }
            lines.push(format!("map_Kd {name}"));
        }
        if let Some((name, b)) = &m.bump {
            if !dir.join(name).exists() {
                match b {
                    Bump::Height(img) if r.chance(0.5) => img.save(dir.join(name)),
                    _ => b.rgb().save(dir.join(name)),
                }
                .map_err(|e| format!("harness: {e}"))?;
            }
            lines.push(format!("{} {name}", r.pick(&["map_Bump", "map_bump", "bump"])));
        }
        for other in ["Ka 0.1 0.9 0.1", "Ks 0.5 0.25 0.5", "Ke 0 0 0", "Ns 250", "Ni 1.45", "d 1", "illum 2", "# nothing", "Pr 0.5"] {
            if r.chance(0.2) {
                lines.push(other.to_string());
            }
        }
        r.shuffle(&mut lines);
        let _ = writeln!(libs[m.lib], "newmtl {}", m.name);
        for l in lines {
            let _ = writeln!(libs[m.lib], "{}{l}", r.pick(&["", "", "\t"]));
        }
        if r.chance(0.5) {
            libs[m.lib].push('\n');
        }
    }

    let with_uv = r.chance(0.75);
    let some_without = with_uv && r.chance(0.15);
    let with_n = r.chance(0.5);
    let colored = r.chance(0.1);
    let weights = !colored && r.chance(0.1);
    let nfaces = match r.below(6) {
        0 => 1,
        1 => r.int(1, 4),
        2 => r.log(100., 1500.) as i64,
        3 if r.chance(0.2) => 0,
        _ => r.int(1, 80),
    };
    let size = r.log(0.1, 10.);
    let spread = if r.chance(0.3) { 0.5 } else { 5. } * size;
    let mut o = String::new();
    let mut verts: Vec<V> = vec![];
    let mut uvs: Vec<(f32, f32)> = vec![];
    let mut nnorm = 0i64;
    let mut tris: Vec<Tri> = vec![];
    let mut mat = Assigned::Default;
    let mut pending: Vec<usize> = (0..nlibs).collect();
    r.shuffle(&mut pending);
    // Libraries are at the top, or right before they are needed
    let all_at_top = r.chance(0.7);
    let mut loaded = vec![false; nlibs];
    let mut lib_line = |o: &mut String, l: usize, loaded: &mut Vec<bool>| {
        let _ = writeln!(o, "mtllib lib{sep}{l}.mtl");
        loaded[l] = true;
    };
    if all_at_top {
        for l in pending.drain(..) {
            lib_line(&mut o, l, &mut loaded);
        }
    }
    let early = r.chance(0.3);
    for f in 0..nfaces {
        let _ = match r.below(30) {
            0 => writeln!(o, "# a comment f 1 2 3"),
            1 => writeln!(o),
            2 => writeln!(o, "s {}", r.pick(&["1", "off"])),
            _ => Ok(()),
        };
        if r.chance(0.1) {
            let _ = writeln!(o, "{} part{}", r.pick(&["o", "g"]), r.below(5));
        }
        if r.chance(if nmats > 100 { 0.8 } else { 0.3 }) || (f == 0 && !early) {
            if nmats > 0 && r.chance(0.93) {
                let m = r.below(nmats as u64) as usize;
                if !loaded[mats[m].lib] {
                    lib_line(&mut o, mats[m].lib, &mut loaded);
                }
                let _ = writeln!(o, "usemtl {}", mats[m].name);
                mat = Assigned::Mat(m);
            } else if r.chance(0.3) {
                let _ = writeln!(o, "usemtl unknown{f}");
                mat = Assigned::Default;
            }
        }
        // Corners of a convex polygon, or any three points
        let corners = if r.chance(0.5) { 3 } else { r.int(3, 8) as usize };
        let center = rand_in(r, spread);
        let (a, b, _) = frame(rand_dir(r));
        let (ra, rb) = (size * r.range(0.3, 1.), size * r.range(0.3, 1.));
        let start = r.f() * 7.;
        let mut idx: Vec<usize> = vec![];
        let sharing = verts.len() >= 3 && corners == 3 && r.chance(0.3);
        if sharing {
            for _ in 0..20 {
                let k: Vec<usize> = (0..3).map(|_| r.below(verts.len() as u64) as usize).collect();
                let (p, q, s) = (verts[k[0]], verts[k[1]], verts[k[2]]);
                if (q - p).cross(s - p).len() > 0.1 * size * size {
                    idx = k;
                    break;
                }
            }
        }
        if idx.is_empty() {
            for k in 0..corners {
                let t = start + (k as f64 + r.range(-0.2, 0.2)) / corners as f64 * std::f64::consts::TAU;
                let p = center + a * (ra * t.cos()) + b * (rb * t.sin());
                let p = p.arr().map(|x| x as f32);
                let mut line = format!("v {} {} {}", number(r, p[0]), number(r, p[1]), number(r, p[2]));
                if colored {
                    let _ = write!(line, " {} {} {}", r.f() as f32, r.f() as f32, r.f() as f32);
                }
                if weights {
                    line += *r.pick(&[" 1", " 1.0"]);
                }
                let _ = writeln!(o, "{line}");
                idx.push(verts.len());
                verts.push(v(p[0] as f64, p[1] as f64, p[2] as f64));
                if r.chance(0.05) {
                    // Not used by any face
                    let _ = writeln!(o, "v {} 0.5 0.25{}", f, if colored { " 0 0 0" } else { "" });
                    verts.push(v(f as f64, 0.5, 0.25));
                }
            }
        }
        let mut tex = vec![];
        // One case without texture coordinates says nothing about which ones are seen
        let uses_uv = with_uv && !(some_without && r.chance(0.3));
        if uses_uv {
            let whole = r.log(0.3, 4.);
            let at = (r.f(), r.f());
            for k in 0..idx.len() {
                if !uvs.is_empty() && r.chance(0.2) {
                    tex.push(r.below(uvs.len() as u64) as usize);
                    continue;
                }
                let t = (k as f64 + r.range(-0.2, 0.2)) / idx.len() as f64 * std::f64::consts::TAU;
                let p = ((at.0 + whole * (1. + t.cos())) as f32, (at.1 + whole * (1. + t.sin())) as f32);
                let _ = writeln!(o, "vt {} {}{}", number(r, p.0), number(r, p.1), r.pick(&["", " 0", " 0.5"]));
                tex.push(uvs.len());
                uvs.push(p);
            }
        }
        if with_n && (nnorm == 0 || r.chance(0.3)) {
            let n = rand_dir(r);
            let _ = writeln!(o, "vn {} {} {}", n.0 as f32, n.1 as f32, n.2 as f32);
            nnorm += 1;
        }
        let negative = r.chance(0.25);
        let mut line = String::from("f");
        for (k, i) in idx.iter().enumerate() {
            let index = |i: usize, n: usize| if negative { i as i64 - n as i64 } else { i as i64 + 1 };
            let _ = write!(line, "{}{}", r.pick(&[" ", " ", "  "]), index(*i, verts.len()));
            let n = index(r.below(nnorm.max(1) as u64) as usize, nnorm as usize);
            let _ = match (uses_uv, with_n) {
                (true, true) => write!(line, "/{}/{n}", index(tex[k], uvs.len())),
                (true, false) => write!(line, "/{}", index(tex[k], uvs.len())),
                (false, true) => write!(line, "//{n}"),
                (false, false) => Ok(()),
            };
        }
        let _ = writeln!(o, "{line}");
        for k in 1..idx.len() - 1 {
            let c = [0, k, k + 1];
            tris.push(Tri { p: c.map(|k| verts[idx[k]]), uv: uses_uv.then(|| c.map(|k| uvs[tex[k]])), mat });
        }
    }
    if r.chance(0.3) && o.ends_with('\n') {
        o.pop();
    }
    let crlf = r.chance(0.15);
    if crlf {
        o = o.replace('\n', "\r\n");
        for l in &mut libs {
            *l = l.replace('\n', "\r\n");
        }
    }
    // Those never needed may be missing as well
    for (l, text) in libs.iter().enumerate() {
        std::fs::write(dir.join(format!("lib{sep}{l}.mtl")), text).map_err(|e| format!("harness: {e}"))?;
    }
    std::fs::write(dir.join("model.obj"), &o).map_err(|e| format!("harness: {e}"))?;
    Ok(Model { obj: o, libs, mats, tris, crlf, with_uv: with_uv && !some_without })
}

enum Kind {
    White,
    Light(V),
    Metal(V),
    Image(RgbImage),
}

fn kind(r: &mut Rng) -> (Kind, Option<Materials>) {
    match r.below(6) {
        0 => (Kind::White, None),
        1 => {
            let k = rand_color(r) * 3.;
            (Kind::Light(k), Some(DiffuseLight::new(k.0, k.1, k.2, None)))
        }
        2 => {
            let img = small_image(r);
            let m = Lambertian::new(ImageMap::new(Arc::new(img.clone())), None);
            (Kind::Image(img), Some(m))
        }
        3 => {
            let k = rand_color(r);
            (Kind::Metal(k), Some(solid_metal(k)))
        }
        _ => (Kind::White, None),
    }
}

fn texels(img: &RgbImage, at: Uv) -> Vec<V> {
    texels_at(img, at).iter().map(|(x, y)| texel(img, *x, *y)).collect()
}

fn near(options: &[V], got: V, tol: f64) -> bool {
    options.iter().any(|o| close(got, *o, tol))
}

/// Everything a hit of a triangle should say
#[allow(clippy::too_many_arguments)]
fn check_hit(c: &mut Case, m: &Model, k: &Kind, lights: &[Hittables], op: &Op, tri: &Tri, q: [V; 3], o: V, d: V, at: &Meet, object: &Hittables, from: f64) -> Res {
    let ray = ray(o, d);
    let rec = object.hit(&ray, &Interval::new(from, f64::INFINITY));
    let Some(rec) = rec else {
        return Err(format!("triangle {:?} is not hit from {o:?} to {d:?}, should be after {}", q, at.t));
    };
    c.eval();
    let scale = q.iter().map(|p| p.max_abs()).fold(o.max_abs(), f64::max);
    let tol = 1e-8 * (1. + scale);
    ensure!((rec.ray_length - at.t).abs() < tol, "triangle {q:?} is hit after {} instead of {}", rec.ray_length, at.t);
    ensure!(close(V::of(rec.hit_point), at.p, tol), "triangle {q:?} is hit at {:?} instead of {:?}", V::of(rec.hit_point), at.p);
    // Barycentric coordinates
    let (e1, e2) = (q[1] - q[0], q[2] - q[0]);
    let n = e1.cross(e2);
    let nn = n.dot(n);
    let (bu, bv) = ((at.p - q[0]).cross(e2).dot(n) / nn, e1.cross(at.p - q[0]).dot(n) / nn);
    let mut known_uv = true;
    match &tri.uv {
        Some(t) => {
            let mix = |f: fn(&(f32, f32)) -> f32| {
                let t = [f(&t[0]) as f64, f(&t[1]) as f64, f(&t[2]) as f64];
                t[0] + (t[1] - t[0]) * bu + (t[2] - t[0]) * bv
            };
            let want = (mix(|t| t.0), mix(|t| t.1));
            let big = t.iter().map(|t| t.0.abs().max(t.1.abs())).fold(0f32, f32::max) as f64;
            ensure!(
                (rec.uv.u as f64 - want.0).abs() < 1e-5 * (1. + big) && (rec.uv.v as f64 - want.1).abs() < 1e-5 * (1. + big),
                "triangle {q:?} with texture coordinates {t:?} has {:?} at {:?}, should be {want:?}", rec.uv, at.p
            );
            c.count("hits with texture coordinates");
        }
        None if m.with_uv => {}
        None if !m.obj.contains("vt ") => {
            ensure!((rec.uv.u, rec.uv.v) == (0., 0.), "triangle without texture coordinates has {:?}", rec.uv);
            c.count("hits without texture coordinates");
        }
        None => known_uv = false,
    }
    let scatter = rec.material.scatter(&ray, &rec, lights);
    let (what, got) = match &scatter {
        RayScatter::ScatterBasic(s) => ("metal", V::of(s.color)),
        RayScatter::ScatterPdf(s) => ("matte", V::of(s.color)),
        RayScatter::ScatterEmission(s) => ("light", V::of(s.color)),
    };
    let white = v(1., 1., 1.);
    let (want, wants): (&str, Vec<V>) = match (tri.mat, k) {
        (Assigned::Default, Kind::White) => ("matte", vec![white]),
        (Assigned::Default, Kind::Image(img)) => ("matte", if known_uv { texels(img, rec.uv) } else { vec![got] }),
        (Assigned::Default, Kind::Metal(k)) => ("metal", vec![*k]),
        // One-sided
        (Assigned::Default, Kind::Light(k)) => ("light", vec![if n.dot(d) < 0. { *k } else { v(0., 0., 0.) }]),
        (Assigned::Mat(i), _) => (
            "matte",
            match &m.mats[i] {
                Mat { image: Some((_, img)), .. } => if known_uv { texels(img, rec.uv) } else { vec![got] },
                Mat { kd: Some(k), .. } => vec![v(k[0] as f64, k[1] as f64, k[2] as f64)],
                // The format does not say what it should be
                _ => vec![got],
            },
        ),
    };
    ensure!(
        what == want && near(&wants, got, 1e-9),
        "triangle {q:?} with {:?} ({}) is {what} with colour {got:?}, should be {want} with colour {wants:?}",
        tri.mat,
        if let Assigned::Mat(i) = tri.mat { m.mats[i].name.as_str() } else { "" }
    );
    c.count(&format!("hits of {}", match tri.mat {
        Assigned::Default => "the default material".to_string(),
        Assigned::Mat(i) => match &m.mats[i] {
            Mat { image: Some(_), .. } => "colour images".into(),
            _ => "colours".into(),
        },
    }));
    // The normal
    let toward = if n.dot(d) < 0. { n.unit() } else { -n.unit() };
    let normal = V::of(rec.normal);
    let grazing = toward.dot(d.unit()).abs();
    if grazing < 1e-3 {
        return Ok(());
    }
    let bump = match tri.mat {
        Assigned::Mat(i) => m.mats[i].bump.as_ref().map(|b| &b.1),
        _ => None,
    };
    let Some(bump) = bump else {
        ensure!(close(normal, toward, 1e-7), "triangle {q:?} has normal {normal:?} instead of {toward:?} (transformed by {op:?})");
        return Ok(());
    };
    ensure!(normal.finite() && (normal.len() - 1.).abs() < 1e-6, "normal is {normal:?}");
    if !known_uv {
        return Ok(());
    }
    let (texels, slack): (Vec<V>, f64) = match bump {
        Bump::Normal(img) => (texels(img, rec.uv), 1e-5),
        Bump::Height(img) => {
            let all = sobel(&|x, y| img.get_pixel(x, y)[0] as f64 / 255., img.width(), img.height());
            // Colours are whole numbers
            let t = texels_of(img.dimensions(), rec.uv);
            (t.iter().map(|(x, y)| { let k = all[(y * img.width() + x) as usize]; v(k[0] / 255., k[1] / 255., k[2] / 255.) }).collect(), 0.05)
        }
    };
    match &tri.uv {
        Some(t) => {
            let f = |a: f32, b: f32| a as f64 - b as f64;
            let (u1, w1, u2, w2) = (f(t[1].0, t[0].0), f(t[1].1, t[0].1), f(t[2].0, t[0].0), f(t[2].1, t[0].1));
            let det = u1 * w2 - w1 * u2;
            if det.abs() < 0.02 * u1.hypot(w1) * u2.hypot(w2) || det == 0. {
                c.count("hits with hardly usable texture coordinates");
                return Ok(());
            }
            let (tx, ty) = (((e1 * w2 - e2 * w1) / det).unit(), ((e2 * u1 - e1 * u2) / det).unit());
            // Vectors that nearly cancel out magnify the rounding of the colours
            let sum = |k: &V| {
                let k = *k * 2. - v(1., 1., 1.);
                (tx * k.0 + ty * k.1 + toward * k.2).len()
            };
            if texels.iter().any(|k| sum(k) < 0.3) {
                return Ok(());
            }
            let wants: Vec<Option<V>> = texels.iter().map(|k| expected(*k, tx, ty, toward)).collect();
            ensure!(
                wants.iter().any(|w| w.is_none_or(|w| close(normal, w, slack * 7.))),
                "triangle {q:?} with texture coordinates {t:?} and {} map has normal {normal:?} instead of {wants:?}",
                if slack > 0.01 { "height" } else { "normal" }
            );
            c.count(if slack > 0.01 { "hits of height maps" } else { "hits of normal maps" });
        }
        None => {
            let ok = texels.iter().any(|k| {
                let k = *k * 2. - v(1., 1., 1.);
                k.len() < 0.01 || (normal.dot(toward) - k.2 / k.len()).abs() < slack * 3.
            });
            ensure!(ok, "triangle {q:?} without texture coordinates has normal {normal:?} with texels {texels:?}, it faces {toward:?}");
            c.count("hits of bump maps without texture coordinates");
        }
    }
    Ok(())
}

fn show(m: &Model) -> String {
    let cut = |s: &str| s.chars().take(600).collect::<String>();
    format!("model\n{}\nlibraries\n{}", cut(&m.obj), m.libs.iter().map(|l| cut(l)).collect::<Vec<_>>().join("\n--\n"))
}

pub fn run(run: &Run) {
    run.cases("models", run.n(2500, 40000), |c| {
        let dir = Scratch(scratch_dir("obj", c));
        let mut rng = c.rng.clone();
        c.rng.next();
        let r = &mut rng;
        let m = model(r, &dir.0)?;
        let op = if r.chance(0.3) { Op::Nop } else { chain(r) };
        let (k, default) = kind(r);
        let path = format!("{}/", dir.0.display());
        c.sample(|| show(&m).chars().take(300).collect());
        let object = no_panic(|| Obj::new(&path, "model.obj").load(&*op.boxed(), default).map_err(|e| e.to_string()))
            .map_err(|p| format!("panics: {p}\n{}", show(&m)))?
            .map_err(|e| format!("fails: {e}\n{}", show(&m)))?;
        c.count("models");
        if m.crlf {
            c.count("models with carriage returns");
        }
        c.add("triangles", m.tris.len() as u64);
        c.add("materials", m.mats.len() as u64);
        if m.mats.len() > 127 {
            c.count("models with more than 127 materials");
        }
        let placed: Vec<[V; 3]> = m.tris.iter().map(|t| t.p.map(|p| op.apply(p, false))).collect();

        // No other triangles
        let found = object.get_lights().len();
        let want = if matches!(k, Kind::Light(_)) { m.tris.iter().filter(|t| t.mat == Assigned::Default).count() } else { 0 };
        c.eval();
        ensure!(found == want, "{found} lights instead of {want}, {} triangles, {}", m.tris.len(), show(&m));
        if placed.is_empty() {
            c.count("empty models");
            let (o, d) = (rand_in(r, 5.), rand_dir(r));
            ensure!(object.hit(&ray(o, d), &ahead()).is_none(), "an empty model is hit");
            return Ok(());
        }
        let b = object.bounding_box();
        let (lo, hi) = placed.iter().flatten().fold((placed[0][0], placed[0][0]), |(a, b), p| (a.min(*p), b.max(*p)));
        let (blo, bhi) = (v(b.x.min, b.y.min, b.z.min), v(b.x.max, b.y.max, b.z.max));
        let big = lo.max_abs().max(hi.max_abs());
        let off = (lo - blo).max_abs().max((hi - bhi).max_abs());
        c.eval();
        ensure!(off < 1e-3 + 1e-9 * big, "bounding box is {blo:?} to {bhi:?}, the triangles are in {lo:?} to {hi:?}\n{}", show(&m));

        let lights = vec![far_light()];
        let extent = (hi - lo).len();
        let mut order: Vec<usize> = (0..placed.len()).collect();
        r.shuffle(&mut order);
        order.truncate(if c.thorough() { 400 } else { 60 });
        for target in order {
            let q = placed[target];
            let (a, b) = (r.range(0.03, 0.9), r.range(0.03, 0.9));
            let (a, b) = if a + b > 0.97 { (a * 0.5, b * 0.5) } else { (a, b) };
            let p = q[0] + (q[1] - q[0]) * a + (q[2] - q[0]) * b;
            let d = rand_dir(r) * if r.chance(0.5) { 1. } else { r.log(0.1, 10.) };
            let o = p - d.unit() * extent * r.range(0.01, 2.);
            // All the triangles on the way
            let mut hits: Vec<(usize, Meet)> = vec![];
            let mut clear = true;
            for (i, q) in placed.iter().enumerate() {
                match meets(&Shape::Tri(q[0], q[1], q[2]), o, d, 1e-5) {
                    None => clear = false,
                    Some(ms) => hits.extend(ms.into_iter().map(|m| (i, m))),
                }
            }
            hits.retain(|h| h.1.t > 0.);
            hits.sort_by(|a, b| a.1.t.total_cmp(&b.1.t));
            let min_step = 1e-6 * (1. + extent) / d.len();
            if !clear || hits.windows(2).any(|w| w[1].1.t - w[0].1.t < 4. * min_step) || hits.iter().any(|h| h.1.n.dot(d.unit()).abs() < 1e-3) {
                c.count("rays too close to edges");
                continue;
            }
            let mut from = 0.;
            for (i, at) in &hits {
                if at.t < 2. * min_step {
                    from = at.t + min_step;
                    continue;
                }
                check_hit(c, &m, &k, &lights, &op, &m.tris[*i], placed[*i], o, d, at, &object, from)
                    .map_err(|e| format!("{e}\n{}", show(&m)))?;
                c.distinct(hash_of((c.seed, i, at.t.to_bits())));
                from = at.t + min_step;
            }
            c.eval();
            ensure!(
                object.hit(&ray(o, d), &Interval::new(from.max(min_step), f64::INFINITY)).is_none(),
                "{o:?} {d:?} hits another triangle after {from}\n{}", show(&m)
            );
        }
        Ok(())
    });

    // More corners than 16 bits can count, on pedestals of their own
    run.cases("large models", run.n(6, 60), |c| {
        let dir = Scratch(scratch_dir("obj", c));
        let mut rng = c.rng.clone();
        c.rng.next();
        let r = &mut rng;
        let side = r.int(150, 230) as usize;
        let nmats = *r.pick(&[3usize, 40, 300]);
        let mut o = String::from("mtllib all.mtl\n");
        let mut lib = String::new();
        for i in 0..nmats {
            let _ = writeln!(lib, "newmtl m{i}\nKd {} {} {}", (i % 10) as f32 / 16., (i / 10 % 10) as f32 / 16., (i / 100) as f32 / 16.);
        }
        // Groups of faces that are short, or have more corners than 16 bits can count
        let run = *r.pick(&[1, side * side / 2 + 1, side * side]);
        let mut mat = None;
        // All corners first, or along with the triangles
        let apart = r.chance(0.5);
        let mut heights = vec![];
        let mut faces = String::new();
        for k in 0..side * side {
            let (x, y) = ((k % side) as f32 * 3., (k / side) as f32 * 3.);
            let z = r.range(-5., 5.) as f32;
            let uv = (r.below(64) as f32 / 64., r.below(64) as f32 / 64.);
            let _ = writeln!(o, "v {x} {y} {z}\nv {} {y} {z}\nv {x} {} {z}", x + 2., y + 2.);
            let _ = writeln!(o, "vt {} {}\nvt {} {}\nvt {} {}", uv.0, uv.1, uv.0 + 1., uv.1, uv.0, uv.1 + 1.);
            let n = 3 * k;
            let mut face = String::new();
            if k % run == 0 {
                mat = r.chance(0.9).then(|| r.below(nmats as u64) as usize);
                let _ = writeln!(face, "usemtl {}", mat.map_or("none".to_string(), |m| format!("m{m}")));
            }
            let _ = writeln!(face, "f {}/{} {}/{} {}/{}", n + 1, n + 1, n + 2, n + 2, n + 3, n + 3);
            if apart { faces += &face } else { o += &face }
            heights.push((x as f64, y as f64, z as f64, uv, mat));
        }
        o += &faces;
        std::fs::write(dir.0.join("model.obj"), &o).map_err(|e| format!("harness: {e}"))?;
        std::fs::write(dir.0.join("all.mtl"), &lib).map_err(|e| format!("harness: {e}"))?;
        let path = format!("{}/", dir.0.display());
        let object = Obj::new(&path, "model.obj")
            .load(&solstrale::geo::transformation::NopTransformer(), Some(light(v(1., 1., 1.))))
            .map_err(|e| format!("large model fails: {e}"))?;
        let want = heights.iter().filter(|h| h.4.is_none()).count();
        let found = object.get_lights().len();
        ensure!(found == want, "large model has {found} triangles of the default material instead of {want}");
        c.add("triangles of large models", heights.len() as u64);
        for (x, y, z, uv, mat) in &heights {
            c.eval();
            let (a, b) = (r.range(0.05, 0.45), r.range(0.05, 0.45));
            let ray = ray(v(x + 2. * a, y + 2. * b, 10.), v(0., 0., -1.));
            let tell = || format!("triangle at {x} {y} {z} of a model with {} triangles", heights.len());
            let Some(rec) = object.hit(&ray, &ahead()) else { return Err(format!("{} is not hit", tell())) };
            ensure!((rec.ray_length - 10. + z).abs() < 1e-5, "{} is hit at {:?}", tell(), rec.hit_point);
            let (u, w) = (uv.0 as f64 + a, uv.1 as f64 + b);
            ensure!((rec.uv.u as f64 - u).abs() < 1e-5 && (rec.uv.v as f64 - w).abs() < 1e-5, "{} has {:?} instead of {u} {w}", tell(), rec.uv);
            let got = match rec.material.scatter(&ray, &rec, &[far_light()]) {
                RayScatter::ScatterEmission(_) => None,
                RayScatter::ScatterPdf(s) => {
                    let k = V::of(s.color) * 16.;
                    Some(k.0.round() as usize + 10 * k.1.round() as usize + 100 * k.2.round() as usize)
                }
                _ => Some(usize::MAX),
            };
            ensure!(got == *mat, "{} has material {got:?} instead of {mat:?}", tell());
        }
        c.distinct(c.seed);
        Ok(())
    });
}
