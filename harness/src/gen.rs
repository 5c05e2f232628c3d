//! Values of any `Deserialize` type, either random (`gen`) or from a tree (`from_tree`).
use crate::rng::Rng;
use crate::tree::E;
use serde::de::*;
use serde_json::Value;

#[derive(Clone)]
pub struct Cfg {
    /// floats: 0 any bits, 1 finite only, 2 small "nice" numbers
    pub floats: u8,
    /// usual and rare maximum lengths of sequences
    pub len: usize,
    /// percent of null options
    pub none: usize,
    /// maximal string length
    pub slen: usize,
    /// ASCII only
    pub ascii: bool,
    /// force a variant (index) of the first enum with this name
    pub force: Vec<(&'static str, usize)>,
    /// total node budget: sequences become empty when used up
    pub budget: isize,
    /// one of the lists (counting down to 1) gets this length
    pub long: (usize, usize),
    /// one of the texts gets this length
    pub slong: (usize, usize),
    /// one of the byte buffers gets this length
    pub blong: (usize, usize),
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { floats: 0, len: 3, none: 20, slen: 9, ascii: false, force: vec![], budget: 400, long: (0, 0), slong: (0, 0), blong: (0, 0) }
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub c: &'a mut Cfg,
}

impl G<'_> {
    fn text(&mut self) -> String {
        match hit(&mut self.c.slong) {
            Some(n) => (0..n).map(|_| (b'a' + self.r.below(26) as u8) as char).collect(),
            None => string(self.r, self.c.slen, self.c.ascii),
        }
    }
}

pub fn gen<T: DeserializeOwned>(r: &mut Rng, c: &Cfg) -> T {
    let mut c = c.clone();
    T::deserialize(&mut G { r, c: &mut c }).expect("gen")
}

pub fn f32_any(r: &mut Rng, mode: u8) -> f32 {
    let special = [0u32, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 1, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff, 0xff7f_ffff, 0x3f7f_ffff, 0x4b80_0001];
    let nonfin = [0x7f80_0000u32, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffff_ffff];
    match mode {
        2 => (r.below(4097) as f32 - 2048.0) / 64.0,
        _ => {
            let x = match r.below(8) {
                0 => *r.pick(&special),
                1 if mode == 0 => *r.pick(&nonfin),
                2..=4 => ((r.below(2001) as f32 - 1000.0) / 8.0).to_bits(),
                _ => r.next() as u32,
            };
            let f = f32::from_bits(x);
            if mode == 1 && !f.is_finite() { 1.5 } else { f }
        }
    }
}

pub fn string(r: &mut Rng, max: usize, ascii: bool) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    while s.len() < n {
        let c = match r.below(12) {
            0 if !ascii => '\u{e9}',
            1 if !ascii => '\u{3042}',
            2 => *r.pick(&[' ', '_', '.', '/', '"', '\\', '\n', '\u{7f}', '\u{1}']),
            3..=5 => (b'0' + r.below(10) as u8) as char,
            _ => (b'a' + r.below(26) as u8) as char,
        };
        s.push(c);
    }
    // what a reader may take for padding, quotes or an extension at the ends, and texts that mean something elsewhere
    if max > 2 && r.chance(1, 5) {
        let ends = [" ", "\n", "\t", "\r\n", "\"", ".", "_", "/", "\\", "'", ",", "\u{a0}", "\u{2003}", "\u{feff}"];
        let e = *r.pick(&ends[..if ascii { 11 } else { 14 }]);
        match r.below(4) {
            0 => s.insert_str(0, e),
            1 | 2 => s.push_str(e),
            _ => s = r.pick(&["null", "true", "0", "NaN", "{}", "[]", "-1", "e"]).to_string(),
        }
    }
    s
}

fn hit(x: &mut (usize, usize)) -> Option<usize> {
    if x.0 > 0 {
        x.0 -= 1;
        if x.0 == 0 {
            return Some(x.1);
        }
    }
    None
}

/// Lengths around those where counters, buffers and fields may end.
pub const LONG: [usize; 24] = [8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 300, 513];

impl<'a> G<'a> {
    fn int(&mut self, bits: u32) -> u64 {
        let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.r.below(10) {
            0 => 0,
            1 => 1,
            2 => m,
            3 => 1u64 << (bits - 1),
            4 => (1u64 << (bits - 1)) - 1,
            5 | 6 => self.r.below(16) as u64,
            7 => 1u64 << self.r.below(bits as usize),
            _ => self.r.next(),
        };
        v & m
    }
    fn len(&mut self) -> usize {
        if let Some(n) = hit(&mut self.c.long) {
            self.c.budget = 0;
            return n;
        }
        if self.c.budget <= 0 {
            return 0;
        }
        let n = match self.r.below(10) {
            0 | 1 => 0,
            2 | 3 | 4 => 1,
            5 | 6 => 2,
            _ => self.r.below(self.c.len + 1),
        };
        n.min(self.c.len)
    }
}
struct SeqA<'b, 'a>(&'b mut G<'a>, usize);
impl<'de, 'b, 'a> SeqAccess<'de> for SeqA<'b, 'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        self.0.c.budget -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}
struct EnumA<'b, 'a>(&'b mut G<'a>, u32);
impl<'de, 'b, 'a> EnumAccess<'de> for EnumA<'b, 'a> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Self), E> {
        let v = s.deserialize(value::U32Deserializer::<E>::new(self.1))?;
        Ok((v, self))
    }
}
impl<'de, 'b, 'a> VariantAccess<'de> for EnumA<'b, 'a> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(self.0)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(SeqA(self.0, n))
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(SeqA(self.0, f.len()))
    }
}
macro_rules! gi {
    ($($f:ident $v:ident $t:ty, $b:expr);*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { let x = self.int($b); v.$v(x as $t) } )* };
}
impl<'de, 'x, 'a> Deserializer<'de> for &'x mut G<'a> {
    type Error = E;
    gi!(deserialize_u8 visit_u8 u8, 8; deserialize_u16 visit_u16 u16, 16; deserialize_u32 visit_u32 u32, 32; deserialize_u64 visit_u64 u64, 64;
        deserialize_i8 visit_i8 i8, 8; deserialize_i16 visit_i16 i16, 16; deserialize_i32 visit_i32 i32, 32; deserialize_i64 visit_i64 i64, 64);
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("any".into()))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let b = self.r.chance(1, 2);
        v.visit_bool(b)
    }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let f = f32_any(self.r, self.c.floats);
        v.visit_f32(f)
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let f = f32_any(self.r, self.c.floats) as f64;
        v.visit_f64(f)
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_char('c')
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        // (types may ask for a text that outlives the input)
        let s = self.text();
        v.visit_borrowed_str(Box::leak(s.into_boxed_str()))
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let s = self.text();
        v.visit_string(s)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = hit(&mut self.c.blong).or_else(|| hit(&mut self.c.long)).unwrap_or_else(|| if self.r.chance(1, 4) { 0 } else { self.r.below(14) });
        let b = self.r.bytes(n);
        v.visit_byte_buf(b)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.r.below(100) < self.c.none {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let n = self.len();
        v.visit_seq(SeqA(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(SeqA(self, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(SeqA(self, n))
    }
    fn deserialize_map<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("map".into()))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(SeqA(self, f.len()))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, name: &'static str, vs: &'static [&'static str], v: V) -> Result<V::Value, E> {
        let i = match self.c.force.iter().position(|(n, _)| *n == name) {
            Some(k) => self.c.force.remove(k).1,
            None => self.r.below(vs.len()),
        };
        v.visit_enum(EnumA(self, i as u32))
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("identifier".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
}

// ---------------------------------------------------------------- from a tree
pub fn from_tree<T: DeserializeOwned>(t: &Value) -> Result<T, E> {
    T::deserialize(F(t))
}
pub struct F<'t>(pub &'t Value);
pub fn tree_bytes(v: &Value) -> Result<Vec<u8>, E> {
    v.as_array()
        .ok_or_else(|| E(format!("not bytes: {v}")))?
        .iter()
        .map(|x| x.as_u64().filter(|x| *x < 256).map(|x| x as u8).ok_or_else(|| E(format!("not a byte: {x}"))))
        .collect()
}
fn arr<const N: usize>(v: &Value) -> Result<[u8; N], E> {
    tree_bytes(v)?.try_into().map_err(|_| E(format!("wrong width {N}: {v}")))
}
struct SeqF<'t>(std::vec::IntoIter<&'t Value>);
impl<'de, 't> SeqAccess<'de> for SeqF<'t> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        match self.0.next() {
            None => Ok(None),
            Some(v) => s.deserialize(F(v)).map(Some),
        }
    }
}
fn items(v: &Value) -> Result<SeqF<'_>, E> {
    Ok(SeqF(v.as_array().ok_or_else(|| E(format!("not a list: {v}")))?.iter().collect::<Vec<_>>().into_iter()))
}
fn fields<'t>(v: &'t Value, f: &[&'static str]) -> Result<SeqF<'t>, E> {
    let mut out = vec![];
    for n in f {
        out.push(v.get(*n).ok_or_else(|| E(format!("no field {n} in {v}")))?);
    }
    Ok(SeqF(out.into_iter()))
}
struct EnumF<'t>(&'t Value);
impl<'de, 't> EnumAccess<'de> for EnumF<'t> {
    type Error = E;
    type Variant = F<'t>;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, F<'t>), E> {
        let n = self.0.get("v").and_then(|v| v.as_str()).ok_or_else(|| E(format!("no variant: {}", self.0)))?;
        let v = s.deserialize(value::StrDeserializer::<E>::new(n))?;
        Ok((v, F(self.0.get("d").ok_or_else(|| E("no payload".into()))?)))
    }
}
impl<'de, 't> VariantAccess<'de> for F<'t> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(items(self.0)?)
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(fields(self.0, f)?)
    }
}
macro_rules! fi {
    ($($f:ident $v:ident $t:ty);*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.$v(<$t>::from_le_bytes(arr(self.0)?)) } )* };
}
impl<'de, 't> Deserializer<'de> for F<'t> {
    type Error = E;
    fi!(deserialize_u8 visit_u8 u8; deserialize_u16 visit_u16 u16; deserialize_u32 visit_u32 u32; deserialize_u64 visit_u64 u64;
        deserialize_i8 visit_i8 i8; deserialize_i16 visit_i16 i16; deserialize_i32 visit_i32 i32; deserialize_i64 visit_i64 i64;
        deserialize_f32 visit_f32 f32; deserialize_f64 visit_f64 f64);
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("any".into()))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_bool(arr::<1>(self.0)?[0] != 0)
    }
    fn deserialize_char<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("char".into()))
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let s = String::from_utf8(tree_bytes(self.0)?).map_err(|e| E(e.to_string()))?;
        v.visit_borrowed_str(Box::leak(s.into_boxed_str()))
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_string(String::from_utf8(tree_bytes(self.0)?).map_err(|e| E(e.to_string()))?)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_byte_buf(tree_bytes(self.0)?)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0.as_array().map(|a| a.as_slice()) {
            Some([]) => v.visit_none(),
            Some([x]) => v.visit_some(F(x)),
            _ => Err(E(format!("not an option: {}", self.0))),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_seq(items(self.0)?)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(items(self.0)?)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(items(self.0)?)
    }
    fn deserialize_map<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("map".into()))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(fields(self.0, f)?)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(EnumF(self.0))
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("identifier".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
}
