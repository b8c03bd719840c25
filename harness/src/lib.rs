//! Entry points handed to the symbolic executor. Each reads its arguments from `inp`
//! (consecutive little-endian slots), calls the public API of colorspace, and writes the
//! observable result to `out`. No logic of its own beyond that.
#![allow(non_snake_case, clippy::all)]
use colorspace::chromatic_adaptation as ca;
use colorspace::chromaticity::XYY;
use colorspace::color_space_rgb::{decode, encode, model_f32, model_f64, ColorSpaceRGB};
use colorspace::lab::*;
use colorspace::math::*;
use colorspace::rgb::*;
use colorspace::vspd::{Interval, Sample, SpdShape, VSPD};
use colorspace::xyz::*;
use colorspace::*;
use float_cmp::{ApproxEq, F32Margin, F64Margin};
use num_traits::{One, Zero};

pub struct In(*const u8);
pub struct Out(*mut u8);

pub trait Slot: Copy {
    fn rd(i: &mut In) -> Self;
    fn wr(self, o: &mut Out);
}
macro_rules! slot {
    ($($t:ty)*) => {$(
        impl Slot for $t {
            #[inline(always)]
            fn rd(i: &mut In) -> Self {
                unsafe {
                    let v = std::ptr::read_unaligned(i.0 as *const $t);
                    i.0 = i.0.add(std::mem::size_of::<$t>());
                    v
                }
            }
            #[inline(always)]
            fn wr(self, o: &mut Out) {
                unsafe {
                    std::ptr::write_unaligned(o.0 as *mut $t, self);
                    o.0 = o.0.add(std::mem::size_of::<$t>());
                }
            }
        }
    )*};
}
slot! { f32 f64 u8 u16 u32 u64 }

impl In {
    #[inline(always)]
    fn g<T: Slot>(&mut self) -> T {
        T::rd(self)
    }
    #[inline(always)]
    fn rgb<T: Slot + Real>(&mut self) -> RGBf<T> {
        let (r, g, b) = (self.g(), self.g(), self.g());
        RGBf { r, g, b }
    }
    #[inline(always)]
    fn xyz<T: Slot + Real>(&mut self) -> XYZ<T> {
        let (x, y, z) = (self.g(), self.g(), self.g());
        XYZ { x, y, z }
    }
    #[inline(always)]
    fn xyy<T: Slot + Real>(&mut self) -> XYY<T> {
        let (x, y, yy) = (self.g(), self.g(), self.g());
        XYY { x, y, Y: yy }
    }
    #[inline(always)]
    fn lab<T: Slot + Real>(&mut self) -> Lab<T> {
        let (l, a, b) = (self.g(), self.g(), self.g());
        Lab { L: l, a, b }
    }
    #[inline(always)]
    fn mat<T: Slot + Real>(&mut self) -> Matrix33<T> {
        let mut x = [T::zero(); 9];
        for v in x.iter_mut() {
            *v = self.g();
        }
        Matrix33 { x }
    }
    #[inline(always)]
    fn vec<T: Slot>(&mut self, n: usize) -> Vec<T> {
        (0..n).map(|_| self.g()).collect()
    }
    /// n samples as (nm, value) pairs
    #[inline(always)]
    fn samples(&mut self, n: usize) -> Vec<Sample> {
        (0..n)
            .map(|_| {
                let nm = self.g();
                let v = self.g();
                Sample { nm, v }
            })
            .collect()
    }
    /// a shape given by start, step, (real) number of steps and a small offset of the end
    #[inline(always)]
    fn gshape<T: Slot + SpdElement>(&mut self) -> SpdShape<T> {
        let (start, step, f, r) = (self.g::<T>(), self.g::<T>(), self.g::<T>(), self.g::<T>());
        SpdShape::new(start, start + f * step + r, step)
    }
    #[inline(always)]
    fn shape(&mut self) -> SpdShape<f64> {
        let (start, end, k, i) = (self.g(), self.g(), self.g::<u64>(), self.g::<f64>());
        SpdShape {
            start,
            end,
            interval: if k == 0 { Interval::Uniform(i) } else { Interval::Varying },
        }
    }
}
impl Out {
    #[inline(always)]
    fn p<T: Slot>(&mut self, v: T) {
        v.wr(self)
    }
    #[inline(always)]
    fn rgb<T: Slot + Real>(&mut self, c: RGBf<T>) {
        self.p(c.r);
        self.p(c.g);
        self.p(c.b);
    }
    #[inline(always)]
    fn xyz<T: Slot + Real>(&mut self, c: XYZ<T>) {
        self.p(c.x);
        self.p(c.y);
        self.p(c.z);
    }
    #[inline(always)]
    fn xyy<T: Slot + Real>(&mut self, c: XYY<T>) {
        self.p(c.x);
        self.p(c.y);
        self.p(c.Y);
    }
    #[inline(always)]
    fn lab<T: Slot + Real>(&mut self, c: Lab<T>) {
        self.p(c.L);
        self.p(c.a);
        self.p(c.b);
    }
    #[inline(always)]
    fn mat<T: Slot + Real>(&mut self, m: Matrix33<T>) {
        for v in m.x.iter() {
            self.p(*v);
        }
    }
    fn omat<T: Slot + Real>(&mut self, m: Option<Matrix33<T>>) {
        match m {
            Some(m) => {
                self.p(1u64);
                self.mat(m);
            }
            None => self.p(0u64),
        }
    }
    fn shape(&mut self, s: SpdShape<f64>) {
        self.p(s.start);
        self.p(s.end);
        match s.interval {
            Interval::Uniform(i) => {
                self.p(0u64);
                self.p(i);
            }
            Interval::Varying => {
                self.p(1u64);
                self.p(0.0f64);
            }
        }
    }
    /// shape, length, then (nm, v) pairs
    fn vspd(&mut self, v: &VSPD) {
        self.shape(v.shape());
        self.p(v.len() as u64);
        for s in v.samples().iter() {
            self.p(s.nm);
            self.p(s.v);
        }
    }
}

macro_rules! h {
    ($($name:ident |$i:ident, $o:ident| $body:block)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(inp: *const u8, out: *mut u8) {
            let mut ii = In(inp);
            let mut oo = Out(out);
            let ($i, $o) = (&mut ii, &mut oo);
            let _ = (&$i, &$o);
            $body
        }
    )*};
}
/// one entry point per scalar type: h2!(name32, name64, T, |i, o| { body })
macro_rules! h2 {
    ($($n32:ident $n64:ident $T:ident |$i:ident, $o:ident| $body:block)*) => {$(
        h! { $n32 |$i, $o| { type $T = f32; $body } }
        h! { $n64 |$i, $o| { type $T = f64; $body } }
    )*};
}

include!("tri.rs");
include!("spaces.rs");
include!("spectral.rs");
