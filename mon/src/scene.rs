//! Building scenes, and reading what is hit in them
use crate::core::{no_panic, Rng};
use crate::geom::*;
use solstrale::camera::CameraConfig;
use solstrale::geo::transformation::NopTransformer;
use solstrale::geo::vec3::Vec3;
use solstrale::geo::{Ray, Uv};
use solstrale::hittable::{Bvh, Hittable, Hittables, Quad, Sphere, Triangle};
use solstrale::material::texture::SolidColor;
use solstrale::material::{DiffuseLight, Lambertian, Material, Materials, Metal, RayHit, RayScatter};
use solstrale::post::PostProcessors;
use solstrale::renderer::shader::{PathTracingShader, Shader, Shaders};
use solstrale::renderer::{RenderConfig, RenderImageStrategy, RenderProgress, Renderer, Scene};
use solstrale::util::interval::{Interval, RAY_INTERVAL, UNIVERSE_INTERVAL};
use std::sync::mpsc::channel;

pub fn build(shape: &Shape, mat: Materials) -> Hittables {
    let nop = NopTransformer();
    match shape {
        Shape::Sphere(c, r) => Sphere::new(c.s(), *r, mat),
        Shape::Quad(q, a, b) => Quad::new(q.s(), a.s(), b.s(), mat, &nop),
        Shape::Tri(a, b, c) => Triangle::new(a.s(), b.s(), c.s(), mat, &nop),
    }
}

/// A colour that tells which object it is
pub fn id_color(i: usize) -> V {
    v(
        (i % 1024) as f64 / 1024.,
        (i / 1024 % 1024) as f64 / 1024.,
        (i / 1048576) as f64 / 1024.,
    )
}

pub fn color_id(c: V) -> usize {
    (c.0 * 1024.) as usize + (c.1 * 1024.) as usize * 1024 + (c.2 * 1024.) as usize * 1048576
}

pub fn id_mat(i: usize) -> Materials {
    Metal::new(SolidColor::new_from_vec3(id_color(i).s()), None, 0.)
}

pub fn solid_metal(c: V) -> Materials {
    Metal::new(SolidColor::new_from_vec3(c.s()), None, 0.)
}

pub fn matte(c: V) -> Materials {
    Lambertian::new(SolidColor::new_from_vec3(c.s()), None)
}

pub fn light(c: V) -> Materials {
    DiffuseLight::new(c.0, c.1, c.2, None)
}

pub fn scatter_color(rec: &RayHit, ray: &Ray, lights: &[Hittables]) -> V {
    match rec.material.scatter(ray, rec, lights) {
        RayScatter::ScatterBasic(s) => V::of(s.color),
        RayScatter::ScatterPdf(s) => V::of(s.color),
        RayScatter::ScatterEmission(s) => V::of(s.color),
    }
}

pub fn ray(o: V, d: V) -> Ray {
    Ray::new(o.s(), d.s())
}

pub fn universe() -> Interval {
    UNIVERSE_INTERVAL
}

pub fn ahead() -> Interval {
    RAY_INTERVAL
}

pub fn uv(u: f64, w: f64) -> Uv {
    Uv::new(u as f32, w as f32)
}

pub fn camera(from: V, at: V, fov: f64) -> CameraConfig {
    CameraConfig {
        vertical_fov_degrees: fov,
        aperture_size: 0.,
        look_from: from.s(),
        look_at: at.s(),
        up: Vec3::new(0., 1., 0.),
    }
}

/// A renderer to ask for single light samples
pub fn tracer(world: Hittables, background: V, max_depth: u32) -> Result<Renderer, String> {
    tracer_with(world, background, PathTracingShader::new(max_depth))
}

pub fn tracer_with(world: Hittables, background: V, shader: Shaders) -> Result<Renderer, String> {
    Renderer::new(Scene {
        world,
        camera: camera(v(0., 0., 5.), v(0., 0., 0.), 40.),
        background_color: background.s(),
        render_config: RenderConfig {
            width: 1,
            height: 1,
            samples_per_pixel: 1,
            shader,
            ..Default::default()
        },
    })
    .map_err(|e| format!("scene is refused: {e}"))
}

/// Colour of one sample of the light along a ray that is known to hit something
pub fn sample(
    renderer: &Renderer,
    world: &Hittables,
    shader: &Shaders,
    ray: &Ray,
    depth: u32,
    length: f64,
) -> Option<V> {
    let rec = world.hit(ray, &RAY_INTERVAL)?;
    Some(V::of(
        shader
            .shade(renderer, &rec, ray, depth, length)
            .get_attenuated_color(),
    ))
}

pub struct Rendered {
    pub reports: Vec<RenderProgress>,
    pub result: Result<(), String>,
}

pub fn config(w: usize, h: usize, spp: u32, shader: Shaders) -> RenderConfig {
    RenderConfig {
        width: w,
        height: h,
        samples_per_pixel: spp,
        shader,
        post_processors: vec![],
        render_image_strategy: RenderImageStrategy::OnlyFinal,
    }
}

pub fn scene(world: Hittables, cam: CameraConfig, background: V, render_config: RenderConfig) -> Scene {
    Scene {
        world,
        camera: cam,
        background_color: background.s(),
        render_config,
    }
}

/// Renders through the public entry point, without interrupting
pub fn render(scene: Scene) -> Result<Rendered, String> {
    let (tx, rx) = channel();
    let (_abort, abort_rx) = channel();
    let result = no_panic(|| solstrale::ray_trace(scene, &tx, &abort_rx).map_err(|e| e.to_string()))
        .map_err(|p| format!("render panics: {p}"))?;
    drop(tx);
    Ok(Rendered {
        reports: rx.iter().collect(),
        result,
    })
}

/// The image of the last report of an uninterrupted render
pub fn render_image(scene: Scene) -> Result<image::RgbImage, String> {
    let r = render(scene)?;
    r.result.map_err(|e| format!("render fails: {e}"))?;
    r.reports
        .into_iter()
        .last()
        .and_then(|p| p.render_image)
        .ok_or_else(|| "last report has no image".to_string())
}

pub fn bvh(list: Vec<Hittables>) -> Hittables {
    Bvh::new(list)
}

/// A small light out of the way, so that a scene is accepted
pub fn far_light() -> Hittables {
    Sphere::new(Vec3::new(0., 1e4, 0.), 1., DiffuseLight::new(1., 1., 1., None))
}

pub fn nop_post() -> Vec<PostProcessors> {
    vec![]
}

pub fn rand_color(r: &mut Rng) -> V {
    v(r.f(), r.f(), r.f())
}

pub fn close(a: V, b: V, tol: f64) -> bool {
    (a - b).max_abs() <= tol
}
