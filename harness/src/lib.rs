#[macro_use]
pub mod vp;
#[allow(dead_code)]
pub mod model;
#[allow(dead_code)]
#[macro_use]
pub mod mint;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c21")]
pub mod c21;
#[cfg(feature = "c22")]
pub mod c22;
#[cfg(feature = "c23")]
pub mod c23;
#[cfg(feature = "c24")]
pub mod c24;
#[cfg(feature = "c25")]
pub mod c25;
#[cfg(feature = "c26")]
pub mod c26;
#[cfg(feature = "c27")]
pub mod c27;
#[cfg(feature = "c28")]
pub mod c28;
#[cfg(feature = "c29")]
pub mod c29;
#[cfg(feature = "c30")]
pub mod c30;
#[cfg(feature = "c31")]
pub mod c31;
#[cfg(feature = "c32")]
pub mod c32;
#[cfg(feature = "c33")]
pub mod c33;
#[cfg(feature = "native")]
pub fn entries() -> Vec<(&'static str, extern "C-unwind" fn())> {
    #[allow(unused_mut)]
    let mut v = vec![];
    #[cfg(feature = "c01")]
    v.extend_from_slice(c01::ENTRIES);
    #[cfg(feature = "c02")]
    v.extend_from_slice(c02::ENTRIES);
    #[cfg(feature = "c03")]
    v.extend_from_slice(c03::ENTRIES);
    #[cfg(feature = "c04")]
    v.extend_from_slice(c04::ENTRIES);
    #[cfg(feature = "c05")]
    v.extend_from_slice(c05::ENTRIES);
    #[cfg(feature = "c06")]
    v.extend_from_slice(c06::ENTRIES);
    #[cfg(feature = "c07")]
    v.extend_from_slice(c07::ENTRIES);
    #[cfg(feature = "c08")]
    v.extend_from_slice(c08::ENTRIES);
    #[cfg(feature = "c09")]
    v.extend_from_slice(c09::ENTRIES);
    #[cfg(feature = "c10")]
    v.extend_from_slice(c10::ENTRIES);
    #[cfg(feature = "c11")]
    v.extend_from_slice(c11::ENTRIES);
    #[cfg(feature = "c12")]
    v.extend_from_slice(c12::ENTRIES);
    #[cfg(feature = "c13")]
    v.extend_from_slice(c13::ENTRIES);
    #[cfg(feature = "c14")]
    v.extend_from_slice(c14::ENTRIES);
    #[cfg(feature = "c15")]
    v.extend_from_slice(c15::ENTRIES);
    #[cfg(feature = "c16")]
    v.extend_from_slice(c16::ENTRIES);
    #[cfg(feature = "c17")]
    v.extend_from_slice(c17::ENTRIES);
    #[cfg(feature = "c18")]
    v.extend_from_slice(c18::ENTRIES);
    #[cfg(feature = "c19")]
    v.extend_from_slice(c19::ENTRIES);
    #[cfg(feature = "c20")]
    v.extend_from_slice(c20::ENTRIES);
    #[cfg(feature = "c21")]
    v.extend_from_slice(c21::ENTRIES);
    #[cfg(feature = "c22")]
    v.extend_from_slice(c22::ENTRIES);
    #[cfg(feature = "c23")]
    v.extend_from_slice(c23::ENTRIES);
    #[cfg(feature = "c24")]
    v.extend_from_slice(c24::ENTRIES);
    #[cfg(feature = "c25")]
    v.extend_from_slice(c25::ENTRIES);
    #[cfg(feature = "c26")]
    v.extend_from_slice(c26::ENTRIES);
    #[cfg(feature = "c27")]
    v.extend_from_slice(c27::ENTRIES);
    #[cfg(feature = "c28")]
    v.extend_from_slice(c28::ENTRIES);
    #[cfg(feature = "c29")]
    v.extend_from_slice(c29::ENTRIES);
    #[cfg(feature = "c30")]
    v.extend_from_slice(c30::ENTRIES);
    #[cfg(feature = "c31")]
    v.extend_from_slice(c31::ENTRIES);
    #[cfg(feature = "c32")]
    v.extend_from_slice(c32::ENTRIES);
    #[cfg(feature = "c33")]
    v.extend_from_slice(c33::ENTRIES);
    v
}
