//! User-defined types, declared as a user of the library would (spec/Compose.tla describes the same types).
use crate::gen::*;
use crate::obs::*;
use crate::rng::Rng;
use crate::tree::{bytes, tree};
use binrw::{BinRead, BinReaderExt};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use ssbh_lib::{CString, CString1, Color4f, DataType, Matrix3x3, Matrix4x4, Ptr, Ptr16, Ptr32, Ptr64, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhEnum64, SsbhString, SsbhString8, Vector3, Vector4};
use ssbh_write::SsbhWrite;
use std::io::Cursor;

macro_rules! rw {
    ($(#[$m:meta])* struct $n:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, BinRead, SsbhWrite, Serialize, Deserialize)]
        $(#[$m])*
        struct $n { $($(#[$fm])* $f: $t),* }
    };
}
macro_rules! wo {
    ($(#[$m:meta])* struct $n:ident { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Debug, SsbhWrite, Serialize, Deserialize)]
        $(#[$m])*
        struct $n { $($f: $t),* }
    };
}
rw!(struct Ints { a: u8, b: u16, c: u32, d: u64, e: f32, f: f64, g: i8, h: i16, i: i32, j: i64 });
rw!(struct Chain { p: RelPtr64<RelPtr64<RelPtr64<u8>>>, q: RelPtr64<RelPtr64<u32>>, r: RelPtr64<u8> });
rw!(struct Abs16B { x: u8, y: Ptr16<u32> });
rw!(struct Abs16 { a: Ptr16<u16>, b: Ptr16<Abs16B> });
rw!(struct AbsMix { a: u8, p: Ptr<u8, u32>, q: Ptr32<u64>, r: Ptr64<CString<16>>, s: Ptr16<u8>, t: RelPtr64<Ptr64<u16>> });
rw!(struct Arrs { a: SsbhArray<u16>, b: SsbhArray<SsbhArray<u8>>, c: SsbhArray<RelPtr64<u16>>, d: SsbhArray<u8>, e: SsbhArray<SsbhString> });
rw!(struct Bufs { a: SsbhByteBuffer, b: SsbhArray<SsbhByteBuffer>, c: u8, d: SsbhByteBuffer, e: RelPtr64<u8> });
rw!(struct Strs { a: SsbhString, b: SsbhString8, c: RelPtr64<CString1>, d: RelPtr64<CString<2>>, e: RelPtr64<CString<16>>, f: RelPtr64<SsbhString>, g: SsbhString });
rw!(struct StrIn { a: u8, s: CString<4>, p: RelPtr64<u8>, t: CString<1>, q: RelPtr64<u16> });
rw!(struct PayB { x: u32, s: SsbhString });
#[derive(Debug, BinRead, SsbhWrite, Serialize, Deserialize)]
#[br(import(data_type: u64))]
enum Pay {
    #[br(pre_assert(data_type == 3))]
    A(u8),
    #[br(pre_assert(data_type == 7))]
    B(PayB),
    #[br(pre_assert(data_type == 1))]
    C(SsbhArray<u16>),
    #[br(pre_assert(data_type == 0))]
    D(()),
    #[br(pre_assert(data_type == 300))]
    E(u64),
}
impl DataType for Pay {
    fn data_type(&self) -> u64 {
        match self {
            Pay::A(_) => 3,
            Pay::B(_) => 7,
            Pay::C(_) => 1,
            Pay::D(_) => 0,
            Pay::E(_) => 300,
        }
    }
}
rw!(struct Enums { a: SsbhEnum64<Pay>, b: SsbhArray<SsbhEnum64<Pay>>, c: SsbhEnum64<Pay>, d: RelPtr64<SsbhEnum64<Pay>> });
#[derive(Debug, SsbhWrite, Serialize, Deserialize)]
enum VarE {
    A(u8),
    B { x: u32, y: RelPtr64<u8> },
    C(u64),
    #[ssbhwrite(pad_after = 5)]
    P(u16, SsbhString),
}
wo!(struct Vars { a: VarE, b: RelPtr64<VarE>, c: VarE });
rw!(#[ssbhwrite(pad_after = 3)] struct Padded { a: u8, #[br(pad_after = 3)] p: RelPtr64<u16> });
rw!(#[ssbhwrite(pad_after = 7)] struct Pads { a: Padded, b: SsbhArray<Padded>, c: RelPtr64<Padded>, d: u8 });
macro_rules! al {
    ($n:ident, $a:literal) => {
        #[derive(Debug, SsbhWrite, Serialize, Deserialize)]
        #[ssbhwrite(alignment = $a)]
        struct $n {
            a: u8,
        }
    };
}
al!(Al1, 1);
al!(Al2, 2);
al!(Al16, 16);
al!(Al32, 32);
wo!(struct Aligned { a: u8, p: RelPtr64<Al16>, q: RelPtr64<Al1>, r: RelPtr64<Al2>, s: Ptr64<Al32>, t: RelPtr64<u8>, u: RelPtr64<Vec<Al16>>, v: Al16 });
macro_rules! rep {
    ($n:ident, $t:ident, $r:ident, $x:expr, $y:expr) => {
        #[derive(Debug, Clone, Copy, BinRead, SsbhWrite, Serialize, Deserialize)]
        #[br(repr($r))]
        #[ssbhwrite(repr($r))]
        #[repr($r)]
        enum $n {
            X = $x,
            Y = $y,
        }
    };
}
rep!(RepU8, u8, u8, 1, 200);
rep!(RepU16, u16, u16, 1, 256);
rep!(RepU32, u32, u32, 0, 0xffff_ffff);
rw!(struct Reprs { a: RepU8, b: RelPtr64<RepU16>, c: RelPtr64<RepU8>, d: RepU32, e: SsbhArray<RepU16>, f: RelPtr64<RepU32> });
#[derive(Debug, BinRead, SsbhWrite, Serialize, Deserialize)]
struct Tuple(u8, RelPtr64<u16>, SsbhString);
#[derive(Debug, BinRead, SsbhWrite, Serialize, Deserialize)]
struct GenT<T: for<'a> BinRead<Args<'a> = ()> + SsbhWrite + 'static> {
    x: T,
    p: RelPtr64<T>,
}
rw!(struct Small { a: u8, b: u32 });
wo!(struct Lists { n: u8, a: Vec<u16>, p: RelPtr64<Vec<u32>>, b: Option<u16>, q: RelPtr64<Option<u64>>, c: Vec<RelPtr64<u8>>, d: Option<RelPtr64<u16>>, e: Vec<SsbhString>, r: RelPtr64<Vec<RelPtr64<u8>>> });
rw!(struct Fixed { a: [u16; 3], p: RelPtr64<[u16; 3]>, b: [RelPtr64<u8>; 2], c: SsbhArray<[u8; 3]>, d: [Small; 2] });
rw!(struct DeepK { a: u8, v: SsbhEnum64<Pay>, b: SsbhByteBuffer });
rw!(struct DeepE { n: SsbhString, k: SsbhArray<DeepK>, m: RelPtr64<SsbhArray<SsbhString>> });
rw!(struct Math { a: RelPtr64<Vector3>, b: RelPtr64<Matrix4x4>, c: Vector4, d: RelPtr64<Color4f>, e: Matrix3x3 });
wo!(#[ssbhwrite(magic = b"ABC")] struct Magic { p: RelPtr64<u8>, q: u16 });
#[derive(Debug, SsbhWrite, Serialize, Deserialize)]
#[ssbhwrite(magic = b"ABC")]
struct MagicT(u8, RelPtr64<u8>);
#[derive(Debug, SsbhWrite, Serialize, Deserialize)]
#[ssbhwrite(magic = b"ABC")]
enum MagicE {
    A(u16),
    B { x: u8, y: RelPtr64<u8> },
}
// a number followed by padding
#[derive(Debug, Clone, Copy, SsbhWrite, Serialize, Deserialize)]
#[ssbhwrite(repr(u16))]
#[ssbhwrite(pad_after = 3)]
#[repr(u16)]
enum RepP {
    X = 1,
    Y = 256,
}
wo!(struct RepPads { a: RepP, p: RelPtr64<u8>, b: SsbhArray<RepP>, c: RelPtr64<RepP>, d: RelPtr64<u8>, e: Vec<RepP>, f: RelPtr64<u8> });
// elements of different sizes in one list
wo!(struct Mixed { n: u8, a: Vec<Option<u32>>, p: RelPtr64<u8>, b: SsbhArray<Option<u16>>, c: RelPtr64<Vec<VarE>>, d: [Option<u8>; 3], e: Vec<VarE>, f: SsbhArray<VarE>, g: Vec<Vec<u8>>, h: SsbhArray<CString<4>> });
#[derive(Debug, Clone, Copy, SsbhWrite, Serialize, Deserialize)]
#[serde(from = "u16", into = "u16")]
struct Nz16(std::num::NonZeroU16);
impl From<u16> for Nz16 {
    fn from(x: u16) -> Self {
        Nz16(std::num::NonZeroU16::new(x | 1).unwrap())
    }
}
impl From<Nz16> for u16 {
    fn from(x: Nz16) -> Self {
        x.0.get()
    }
}
impl BinRead for Nz16 {
    type Args<'a> = ();
    fn read_options<R: std::io::Read + std::io::Seek>(r: &mut R, e: binrw::Endian, _: ()) -> binrw::BinResult<Self> {
        Ok(u16::read_options(r, e, ())?.into())
    }
}
#[derive(Debug, Clone, Copy, SsbhWrite, Serialize, Deserialize)]
#[serde(from = "u32", into = "u32")]
struct Nz32(std::num::NonZeroU32);
impl From<u32> for Nz32 {
    fn from(x: u32) -> Self {
        Nz32(std::num::NonZeroU32::new(x | 1).unwrap())
    }
}
impl From<Nz32> for u32 {
    fn from(x: Nz32) -> Self {
        x.0.get()
    }
}
impl BinRead for Nz32 {
    type Args<'a> = ();
    fn read_options<R: std::io::Read + std::io::Seek>(r: &mut R, e: binrw::Endian, _: ()) -> binrw::BinResult<Self> {
        Ok(u32::read_options(r, e, ())?.into())
    }
}
rw!(struct NonZero { a: Nz16, p: RelPtr64<Nz32> });
rw!(#[ssbhwrite(align_after = 16)] struct Ended { a: u8, p: SsbhString, b: SsbhArray<u8> });

rw!(struct EndedField { a: u8, p: SsbhString, #[ssbhwrite(align_after = 8)] b: SsbhArray<u8> });
#[derive(Debug, SsbhWrite, Serialize, Deserialize)]
enum EndedVar {
    #[ssbhwrite(align_after = 4)]
    A(SsbhString),
    B {
        x: u8,
        #[ssbhwrite(align_after = 4)]
        y: SsbhArray<u8>,
    },
    #[ssbhwrite(align_after = 4)]
    C { x: RelPtr64<u8> },
    D(#[ssbhwrite(align_after = 4)] RelPtr64<u8>),
}
#[derive(Debug, SsbhWrite, Serialize, Deserialize)]
#[ssbhwrite(align_after = 32)]
struct EndedTuple(u8, RelPtr64<u8>);
// padding after fields and variants
rw!(struct FieldPads { #[ssbhwrite(pad_after = 3)] #[br(pad_after = 3)] a: Small, p: RelPtr64<u8>, #[ssbhwrite(pad_after = 9)] #[br(pad_after = 9)] b: Small });
rw!(struct FieldPadsIn { a: FieldPads, b: SsbhArray<FieldPads>, c: RelPtr64<FieldPads>, d: RelPtr64<u8> });
#[derive(Debug, BinRead, SsbhWrite, Serialize, Deserialize)]
struct TuplePad(
    #[ssbhwrite(pad_after = 2)]
    #[br(pad_after = 2)]
    Small,
    RelPtr64<u8>,
    #[ssbhwrite(pad_after = 11)]
    #[br(pad_after = 11)]
    Small,
);
#[derive(Debug, BinRead, SsbhWrite, Serialize, Deserialize)]
struct TuplePads(TuplePad, SsbhArray<TuplePad>, RelPtr64<TuplePad>, RelPtr64<u8>);
#[derive(Debug, SsbhWrite, Serialize, Deserialize)]
enum PadVar {
    #[ssbhwrite(pad_after = 12)]
    A { x: u32, y: RelPtr64<u8> },
    B {
        #[ssbhwrite(pad_after = 6)]
        x: Small,
        y: RelPtr64<u8>,
    },
    C(#[ssbhwrite(pad_after = 10)] Small, RelPtr64<u8>),
    #[ssbhwrite(pad_after = 1)]
    D(RelPtr64<u8>, u8),
}
wo!(struct PadVars { a: PadVar, b: RelPtr64<PadVar>, c: SsbhArray<PadVar>, d: Vec<PadVar>, e: RelPtr64<u8> });
#[derive(Debug, SsbhWrite, Serialize, Deserialize)]
#[ssbhwrite(pad_after = 5)]
enum PadEnum {
    A(u8, u8),
    B { x: RelPtr64<u8> },
}
wo!(struct PadEnums { a: PadEnum, b: RelPtr64<PadEnum>, c: RelPtr64<u8>, d: Vec<PadEnum>, e: RelPtr64<u8> });
// numbers wider than the enumeration is in memory
macro_rules! wide {
    ($n:ident, $r:ident) => {
        #[derive(Debug, Clone, Copy, BinRead, SsbhWrite, Serialize, Deserialize)]
        #[br(repr($r))]
        #[ssbhwrite(repr($r))]
        enum $n {
            X = 1,
            Y = 70,
        }
    };
}
wide!(WideU16, u16);
wide!(WideU32, u32);
wide!(WideU64, u64);
rw!(struct Wides { n: RelPtr64<u8>, a: RelPtr64<WideU16>, m: RelPtr64<u8>, b: RelPtr64<WideU32>, o: RelPtr64<u8>, c: RelPtr64<WideU64>, d: SsbhArray<WideU16>, e: WideU32, f: Ptr16<WideU32> });
al!(Al7, 7);
#[derive(Debug, SsbhWrite, Serialize, Deserialize)]
#[ssbhwrite(alignment = 16, pad_after = 2)]
enum AlEnum {
    A(u8, u8),
    B { x: u16 },
}
wo!(struct Aligned2 { n: RelPtr64<u8>, a: RelPtr64<Al7>, b: RelPtr64<AlEnum>, c: RelPtr64<u8>, d: Ptr32<AlEnum>, e: SsbhArray<AlEnum>, f: RelPtr64<Option<AlEnum>> });

type ReadBack = fn(&[u8], u64) -> Value;
fn back<T: for<'a> BinRead<Args<'a> = ()> + Serialize>(b: &[u8], pos: u64) -> Value {
    let mut c = Cursor::new(b);
    c.set_position(pos);
    run(|| c.read_le::<T>().map(|v| tree(&v)))
}

fn event<T: SsbhWrite + Serialize>(ty: &str, v: &T, pos: u64, dp: u64, back: Option<ReadBack>) -> Value {
    let w = attempt(|| {
        let mut c = Cursor::new(Vec::new());
        c.set_position(pos);
        let mut d = dp;
        v.ssbh_write(&mut c, &mut d).map(|_| (c.into_inner(), d))
    });
    let size = run(|| Ok::<_, std::io::Error>(json!(v.size_in_bytes())));
    let rd = match (&w, back) {
        (Ok((b, _)), Some(f)) => f(b, pos),
        _ => json!({"k":"none"}),
    };
    let w = match w {
        Ok((b, d)) => ok(json!({"b": bytes(&b), "dp": d.min(1_500_000_000)})),
        Err(e) => e,
    };
    json!({"op":"l06","ty":ty,"kind":ty,"val":tree(v),"pos":pos,"dp":dp,"w":w,"size":size,"rd":rd})
}

/// A type with its name in spec/Compose.tla.
type Make = Box<dyn Fn(&mut Rng, &Cfg, Option<&Value>, u64, u64) -> Value>;
fn entry<T: SsbhWrite + Serialize + DeserializeOwned + 'static>(ty: &'static str, b: Option<ReadBack>) -> (&'static str, Make) {
    (
        ty,
        Box::new(move |r, c, val, pos, dp| {
            let v: T = match val {
                Some(t) => from_tree(t).expect("scenario value"),
                None => gen(r, c),
            };
            event(ty, &v, pos, dp, b)
        }),
    )
}
fn types() -> Vec<(&'static str, Make)> {
    macro_rules! t {
        ($n:literal, $t:ty) => {
            entry::<$t>($n, Some(back::<$t>))
        };
    }
    vec![
        t!("Ints", Ints),
        t!("PtrU8", RelPtr64<u8>),
        t!("PtrU16", RelPtr64<u16>),
        t!("PtrU32", RelPtr64<u32>),
        t!("PtrU64", RelPtr64<u64>),
        t!("PtrUnit", RelPtr64<()>),
        t!("Chain", Chain),
        t!("Abs8", Ptr<u8, u8>),
        t!("Abs16", Abs16),
        t!("AbsMix", AbsMix),
        t!("ArrU8", SsbhArray<u8>),
        t!("ArrU64", SsbhArray<u64>),
        t!("Arrs", Arrs),
        t!("Bufs", Bufs),
        t!("Strs", Strs),
        t!("StrIn", StrIn),
        t!("Enums", Enums),
        entry::<Vars>("Vars", None),
        t!("Pads", Pads),
        entry::<Aligned>("Aligned", None),
        t!("Reprs", Reprs),
        t!("Tuple", Tuple),
        t!("GenU16", GenT<u16>),
        t!("GenStr", GenT<SsbhString>),
        t!("GenSmall", GenT<Small>),
        entry::<Lists>("Lists", None),
        t!("Fixed", Fixed),
        t!("Deep", SsbhArray<DeepE>),
        t!("Math", Math),
        entry::<Magic>("Magic", None),
        entry::<MagicT>("MagicT", None),
        entry::<MagicE>("MagicE", None),
        entry::<RelPtr64<Vec<Option<u16>>>>("PtrOpts", None),
        entry::<Mixed>("Mixed", None),
        entry::<RepPads>("RepPads", None),
        t!("NonZero", NonZero),
        t!("Ended", Ended),
        t!("EndedField", EndedField),
        entry::<EndedVar>("EndedVar", None),
        entry::<EndedTuple>("EndedTuple", None),
        t!("FieldPads", FieldPadsIn),
        t!("TuplePads", TuplePads),
        entry::<PadVars>("PadVars", None),
        entry::<PadEnums>("PadEnums", None),
        t!("Wides", Wides),
        entry::<Aligned2>("Aligned2", None),
    ]
}

pub fn l06(out: &mut Out, r: &mut Rng, n: usize, scenarios: &[Value]) {
    let ts = types();
    for s in scenarios {
        let (_, make) = ts.iter().find(|t| t.0 == s["ty"].as_str().unwrap()).expect("scenario type");
        out.emit(make(r, &Cfg::default(), Some(&s["val"]), s["pos"].as_u64().unwrap(), s["dp"].as_u64().unwrap()));
    }
    for i in 0..n {
        for (ty, make) in &ts {
            let c = Cfg { none: *r.pick(&[0, 10, 40]), len: *r.pick(&[1, 2, 4]), budget: *r.pick(&[5, 20, 60]), slen: *r.pick(&[1, 5, 20]), ..Cfg::default() };
            let mut c = c;
            if r.chance(1, 12) {
                let (at, n) = (1 + r.below(4), *r.pick(&LONG));
                if r.chance(1, 2) { c.long = (at, n) } else { c.slong = (at, n) }
            }
            let pos = if ty.starts_with("Ended") { 0 } else { *r.pick(&[0, 0, 1, 3, 8, 13, 24, 200, 245]) };
            let pos = if i % 17 == 5 && ty.starts_with("Abs") { *r.pick(&[240u64, 250, 65500, 65520]) } else { pos };
            let dp = match r.below(4) {
                0 => 0,
                1 => pos,
                2 => pos + r.below(20) as u64,
                _ => r.below(300) as u64,
            };
            let dp = if i % 13 == 3 && ty.starts_with("Abs") { *r.pick(&[250u64, 255, 256, 65530, 65535, 65536]) } else { dp };
            out.emit(make(r, &c, None, pos, dp));
        }
    }
}
