//! Shapes for the derive: every kind of data type it accepts. Nothing here is run: the implementations the derive
//! produces for these types are analysed (encoder against decoder).
#![allow(dead_code, non_camel_case_types, non_snake_case)]
use crossmist::Object;
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;

// ---- structs
#[derive(Object)]
pub struct Unit;
#[derive(Object)]
pub struct EmptyNamed {}
#[derive(Object)]
pub struct EmptyTuple();
#[derive(Object)]
pub struct One(pub String);
#[derive(Object)]
pub struct Two(pub String, pub Vec<u8>);
#[derive(Object)]
pub struct Equal(pub String, pub String, pub String);
#[derive(Object)]
pub struct EqualNamed {
    pub zeta: String,
    pub alpha: String,
    pub mid: String,
    pub beta: String,
}
#[derive(Object)]
pub struct Plain {
    pub b: u32,
    pub a: u32,
    pub c: (u8, u64),
}
#[derive(Object)]
pub struct PlainTuple(pub u8, pub u64, pub u8);
#[derive(Object)]
pub struct Mixed {
    pub a: u8,
    pub b: Option<Box<String>>,
    pub c: [u16; 3],
    pub d: Vec<Option<u32>>,
    pub e: u64,
    pub f: Result<String, u8>,
    pub g: (String, u8, String),
}
#[derive(Object)]
pub struct Twelve(pub u8, pub String, pub u8, pub String, pub u8, pub String, pub u8, pub String, pub u8, pub String, pub u8, pub String);
#[derive(Object)]
pub struct Nested {
    pub x: Mixed,
    pub y: Two,
    pub z: Vec<Equal>,
    pub m: HashMap<String, Two>,
    pub n: BTreeMap<u32, Vec<One>>,
}
#[derive(Object)]
pub struct Recursive {
    pub value: String,
    pub next: Option<Box<Recursive>>,
    pub more: Vec<Recursive>,
}

// ---- names that could clash with what the derive itself uses
#[derive(Object)]
pub struct Names {
    pub s: String,
    pub d: String,
    pub a0: String,
    pub a1: String,
    pub i: String,
    pub r#type: String,
    pub r#match: String,
    pub value: String,
    pub serialize: String,
    pub deserialize: String,
    pub field: String,
    pub ident: String,
    pub this: String,
    pub variant: String,
}
#[derive(Object)]
pub enum VariantNames {
    s { d: String, s: String },
    d(String, String),
    a0 { a1: String, a0: String },
    a1,
    Ok(String),
    Err { s: String, a2: String, d: String, a1: String, a0: String },
    Some,
    None(String),
    r#type { r#type: String, r#fn: String },
    i(String),
    usize { usize: String },
    d0 { serde: String, ser: String, value: String, tag: String },
}
#[derive(Object)]
pub struct ParamNames<T, S, D, E>(pub T, pub S, pub D, pub E)
where
    T: Object,
    S: Object,
    D: Object,
    E: Object;
#[derive(Object)]
pub enum ParamNamesEnum<T: Object, R: Object, F: Object> {
    First(F, R, T),
    Second { r: R, t: T, f: F },
}
#[derive(Object)]
pub struct Result2<Error: Object> {
    pub a: Error,
    pub b: Vec<Error>,
}
pub mod shadows {
    //! Types called like the ones everyone has in scope.
    #[derive(crossmist::Object)]
    pub struct Result(pub std::string::String, pub std::string::String);
    #[derive(crossmist::Object)]
    pub struct Option {
        pub some: std::string::String,
    }
    #[derive(crossmist::Object)]
    pub struct Vec(pub std::vec::Vec<u8>, pub u32);
    #[derive(crossmist::Object)]
    pub enum Box {
        A(String),
        B(std::boxed::Box<u32>),
    }
    #[derive(crossmist::Object)]
    pub struct String {
        pub inner: std::string::String,
    }
    #[derive(crossmist::Object)]
    pub struct Serializer(pub std::string::String);
    #[derive(crossmist::Object)]
    pub struct Deserializer(pub std::string::String);
}

#[allow(unused_imports)]
pub mod verdicts {
    //! Variants called like the ones everyone has in scope, and brought into scope.
    #[derive(crossmist::Object)]
    pub enum Verdict {
        Ok,
        Err(u8),
        Some { text: std::string::String },
        None,
    }
    pub use self::Verdict::*;
    #[derive(crossmist::Object)]
    pub struct Record(pub std::string::String, pub u8);
    #[derive(crossmist::Object)]
    pub struct Marker;
    #[derive(crossmist::Object)]
    pub enum Holder {
        First(std::string::String),
        Second,
    }
}

// ---- generics
#[derive(Object)]
pub struct Gen<T: Object> {
    pub a: T,
    pub b: Vec<T>,
    pub c: u8,
}
#[derive(Object)]
pub struct GenWhere<T, U>
where
    T: Object,
    U: Object + Clone,
{
    pub u: U,
    pub t: T,
    pub v: U,
}
#[derive(Object)]
pub struct GenConst<T: Object, const N: usize> {
    pub n: [u8; N],
    pub t: T,
}
#[derive(Object)]
pub struct GenConstFirst<const N: usize, const B: bool, T: Object>(pub T, pub [u32; N]);
#[derive(Object)]
pub struct GenPhantom<T: 'static> {
    pub m: PhantomData<fn(T) -> T>,
    pub s: String,
}
#[derive(Object)]
pub enum GenEnum<T: Object, U: Object> {
    Left(T),
    Right(U),
    Both { first: T, second: U },
    Swapped { second: U, first: T },
    Neither,
}
#[derive(Object)]
pub struct GenNested<T: Object>(pub GenEnum<T, Vec<T>>, pub Gen<Option<T>>);

// ---- enums
#[derive(Object)]
pub enum SingleUnit {
    Only,
}
#[derive(Object)]
pub enum SingleData {
    Only(String, u8),
}
#[derive(Object)]
pub enum SingleNamed {
    Only { b: String, a: String },
}
#[derive(Object)]
pub enum Units {
    A,
    B,
    C,
}
#[derive(Object)]
pub enum Shapes {
    Unit,
    EmptyTuple(),
    EmptyNamed {},
    One(String),
    Two(String, String),
    Three(u8, String, u8),
    Named { b: String, a: String },
    Plain(u32, u64),
    PlainNamed { x: u8, y: u32 },
    Deep(Option<Box<Shapes>>, Vec<Shapes>),
}
#[derive(Object)]
pub enum SameTypes {
    A(String),
    B(String),
    C { s: String },
    D { s: String },
}
#[derive(Object)]
#[repr(u8)]
pub enum Discriminants {
    A = 7,
    B = 3,
    C = 250,
    D = 0,
}
#[derive(Object)]
#[repr(i64)]
pub enum DiscriminantsData {
    A(String) = -5,
    B { x: String } = 3,
    C = -1,
    D(u8, String) = 1 << 40,
}
#[derive(Object)]
pub enum DiscriminantsSwapped {
    First = 1,
    Second = 0,
}
macro_rules! many {
    ($($name:ident)*) => {
        /// More variants than a byte can tell apart.
        #[derive(Object)]
        pub enum Many { $($name(String),)* }
    };
}
many! {
    A00 A01 A02 A03 A04 A05 A06 A07 A08 A09 A0A A0B A0C A0D A0E A0F
    A10 A11 A12 A13 A14 A15 A16 A17 A18 A19 A1A A1B A1C A1D A1E A1F
    A20 A21 A22 A23 A24 A25 A26 A27 A28 A29 A2A A2B A2C A2D A2E A2F
    A30 A31 A32 A33 A34 A35 A36 A37 A38 A39 A3A A3B A3C A3D A3E A3F
    A40 A41 A42 A43 A44 A45 A46 A47 A48 A49 A4A A4B A4C A4D A4E A4F
    A50 A51 A52 A53 A54 A55 A56 A57 A58 A59 A5A A5B A5C A5D A5E A5F
    A60 A61 A62 A63 A64 A65 A66 A67 A68 A69 A6A A6B A6C A6D A6E A6F
    A70 A71 A72 A73 A74 A75 A76 A77 A78 A79 A7A A7B A7C A7D A7E A7F
    A80 A81 A82 A83 A84 A85 A86 A87 A88 A89 A8A A8B A8C A8D A8E A8F
    A90 A91 A92 A93 A94 A95 A96 A97 A98 A99 A9A A9B A9C A9D A9E A9F
    AA0 AA1 AA2 AA3 AA4 AA5 AA6 AA7 AA8 AA9 AAA AAB AAC AAD AAE AAF
    AB0 AB1 AB2 AB3 AB4 AB5 AB6 AB7 AB8 AB9 ABA ABB ABC ABD ABE ABF
    AC0 AC1 AC2 AC3 AC4 AC5 AC6 AC7 AC8 AC9 ACA ACB ACC ACD ACE ACF
    AD0 AD1 AD2 AD3 AD4 AD5 AD6 AD7 AD8 AD9 ADA ADB ADC ADD ADE ADF
    AE0 AE1 AE2 AE3 AE4 AE5 AE6 AE7 AE8 AE9 AEA AEB AEC AED AEE AEF
    AF0 AF1 AF2 AF3 AF4 AF5 AF6 AF7 AF8 AF9 AFA AFB AFC AFD AFE AFF
    B00 B01 B02 B03
}

// ---- handles and shared objects inside derived types
#[derive(Object)]
pub struct Handles {
    pub first: std::fs::File,
    pub name: String,
    pub second: std::fs::File,
    pub tx: crossmist::Sender<u32>,
    pub rx: crossmist::Receiver<String>,
}
#[derive(Object)]
pub enum HandlesEnum {
    A(std::fs::File, std::fs::File),
    B { rx: crossmist::Receiver<u32>, tx: crossmist::Sender<u32> },
    C,
}
#[derive(Object)]
pub struct Shared {
    pub a: std::rc::Rc<String>,
    pub b: std::rc::Rc<String>,
    pub c: std::sync::Arc<Vec<String>>,
}

// ---- more fields than any small bound
#[derive(Object)]
pub struct WideTuple(pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String, pub u16, pub Option<u8>, pub String);
#[derive(Object)]
pub struct WideSame(pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String, pub String);
#[derive(Object)]
pub struct WideNamed { pub f0: u32, pub f17: String, pub f34: u32, pub f11: String, pub f28: u32, pub f5: String, pub f22: u32, pub f39: String, pub f16: u32, pub f33: String, pub f10: u32, pub f27: String, pub f4: u32, pub f21: String, pub f38: u32, pub f15: String, pub f32: u32, pub f9: String, pub f26: u32, pub f3: String, pub f20: u32, pub f37: String, pub f14: u32, pub f31: String, pub f8: u32, pub f25: String, pub f2: u32, pub f19: String, pub f36: u32, pub f13: String, pub f30: u32, pub f7: String, pub f24: u32, pub f1: String, pub f18: u32, pub f35: String, pub f12: u32, pub f29: String, pub f6: u32, pub f23: String }
#[derive(Object)]
pub struct WidePlain(pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32, pub u32);
#[derive(Object)]
pub struct WideGenFirst<T: Object>(pub T, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8);
#[derive(Object)]
pub struct WideGenMid<T: Object>(pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub T, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8);
#[derive(Object)]
pub struct WideGenLast<T: Object>(pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub u8, pub T);
#[derive(Object)]
pub struct WideParams<T0: Object, T1: Object, T2: Object, T3: Object, T4: Object, T5: Object, T6: Object, T7: Object, T8: Object, T9: Object, T10: Object, T11: Object, T12: Object, T13: Object, T14: Object, T15: Object, T16: Object, T17: Object> { pub t0: T0, pub t1: T1, pub t2: T2, pub t3: T3, pub t4: T4, pub t5: T5, pub t6: T6, pub t7: T7, pub t8: T8, pub t9: T9, pub t10: T10, pub t11: T11, pub t12: T12, pub t13: T13, pub t14: T14, pub t15: T15, pub t16: T16, pub t17: T17 }
#[derive(Object)]
pub enum WideVariants<T: Object, U: Object> {
    First(T, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
    Last { f0: u8, f1: u8, f2: u8, f3: u8, f4: u8, f5: u8, f6: u8, f7: u8, f8: u8, f9: u8, f10: u8, f11: u8, f12: u8, f13: u8, f14: u8, f15: u8, f16: u8, f17: u8, f18: u8, f19: u8, f20: u8, f21: u8, f22: u8, f23: u8, f24: u8, f25: u8, f26: u8, f27: u8, f28: u8, f29: u8, f30: u8, f31: u8, f32: u8, f33: u8, f34: u8, last: U },
    Strings(String, String, String, String, String, String, String, String, String, String, String, String, String, String, String, String, String, String, String, String),
}
