//! A recording stand-in for the bindings to Intel Open Image Denoise, with just the part of their
//! interface that solstrale uses. Each filter call is handed to the handler of the calling thread.
use std::cell::RefCell;

/// What a filter call was given
#[derive(Clone, Debug, Default)]
pub struct Call {
    pub width: usize,
    pub height: usize,
    pub albedo: Option<Vec<f32>>,
    pub normal: Option<Vec<f32>>,
    pub color: Vec<f32>,
    pub srgb: bool,
    pub hdr: bool,
    pub clean_aux: bool,
}

/// Gets the call and the output to fill, and says whether the device reports an error afterwards
pub type Handler = Box<dyn FnMut(&Call, &mut [f32]) -> Option<String>>;

thread_local! {
    static HANDLER: RefCell<Option<Handler>> = const { RefCell::new(None) };
    static ERROR: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Set the handler for filter calls on this thread
pub fn set_handler(handler: Option<Handler>) {
    HANDLER.with(|h| *h.borrow_mut() = handler);
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    None,
    Unknown,
    InvalidArgument,
    InvalidOperation,
    InvalidImageDimensions,
}

#[derive(Default)]
pub struct Device;

impl Device {
    pub fn new() -> Device {
        Device
    }

    pub fn get_error(&self) -> Result<(), (Error, String)> {
        match ERROR.with(|e| e.borrow_mut().take()) {
            None => Ok(()),
            Some(m) => Err((Error::Unknown, m)),
        }
    }
}

pub struct RayTracing<'a> {
    _device: &'a Device,
    call: Call,
}

impl<'a> RayTracing<'a> {
    pub fn new(device: &'a Device) -> RayTracing<'a> {
        RayTracing {
            _device: device,
            call: Call::default(),
        }
    }

    pub fn image_dimensions(&mut self, width: usize, height: usize) -> &mut Self {
        self.call.width = width;
        self.call.height = height;
        self
    }

    pub fn albedo_normal(&mut self, albedo: &[f32], normal: &[f32]) -> &mut Self {
        self.call.albedo = Some(albedo.to_vec());
        self.call.normal = Some(normal.to_vec());
        self
    }

    pub fn albedo(&mut self, albedo: &[f32]) -> &mut Self {
        self.call.albedo = Some(albedo.to_vec());
        self
    }

    pub fn srgb(&mut self, srgb: bool) -> &mut Self {
        self.call.srgb = srgb;
        self
    }

    pub fn hdr(&mut self, hdr: bool) -> &mut Self {
        self.call.hdr = hdr;
        self
    }

    pub fn clean_aux(&mut self, clean_aux: bool) -> &mut Self {
        self.call.clean_aux = clean_aux;
        self
    }

    pub fn filter(&self, color: &[f32], output: &mut [f32]) -> Result<(), Error> {
        let n = 3 * self.call.width * self.call.height;
        let fits = |b: &Option<Vec<f32>>| b.as_ref().is_none_or(|b| b.len() == n);
        if color.len() != n || output.len() != n || !fits(&self.call.albedo) || !fits(&self.call.normal) {
            return Err(Error::InvalidImageDimensions);
        }
        let call = Call {
            color: color.to_vec(),
            ..self.call.clone()
        };
        let error = HANDLER.with(|h| match h.borrow_mut().as_mut() {
            Some(handler) => handler(&call, output),
            None => {
                output.copy_from_slice(color);
                None
            }
        });
        ERROR.with(|e| *e.borrow_mut() = error);
        Ok(())
    }
}
