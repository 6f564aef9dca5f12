//! Thin non-generic shims around the system under test, so that the generic
//! code of jpeg-decoder is instantiated in a crate that is compiled with the
//! simulator's coverage callbacks (= preemption points).
pub use jpeg_decoder::{CodingProcess, ColorTransform, Error, ImageInfo, PixelFormat};
use std::io::Read;

pub type Src = Box<dyn Read + Send>;

pub struct Dec(jpeg_decoder::Decoder<Src>);

impl Dec {
    #[inline(never)]
    pub fn new(src: Src) -> Dec {
        Dec(jpeg_decoder::Decoder::new(src))
    }
    #[inline(never)]
    pub fn read_info(&mut self) -> Result<(), Error> {
        self.0.read_info()
    }
    #[inline(never)]
    pub fn scale(&mut self, w: u16, h: u16) -> Result<(u16, u16), Error> {
        self.0.scale(w, h)
    }
    #[inline(never)]
    pub fn decode(&mut self) -> Result<Vec<u8>, Error> {
        self.0.decode()
    }
    #[inline(never)]
    pub fn info(&self) -> Option<ImageInfo> {
        self.0.info()
    }
    #[inline(never)]
    pub fn exif(&self) -> Option<&[u8]> {
        self.0.exif_data()
    }
    #[inline(never)]
    pub fn xmp(&self) -> Option<&[u8]> {
        self.0.xmp_data()
    }
    #[inline(never)]
    pub fn icc(&self) -> Option<Vec<u8>> {
        self.0.icc_profile()
    }
    #[inline(never)]
    pub fn set_color_transform(&mut self, t: ColorTransform) {
        self.0.set_color_transform(t)
    }
    #[inline(never)]
    pub fn set_max(&mut self, n: usize) {
        self.0.set_max_decoding_buffer_size(n)
    }
    #[inline(never)]
    pub fn drop_dec(self) {
        drop(self)
    }
}
