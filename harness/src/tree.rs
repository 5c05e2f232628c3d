//! Observation of any serde value as a schema-free tree:
//! scalars are little-endian byte lists, text and byte strings are byte lists, options are [] or [x],
//! sequences are arrays, structs are objects and enum values are {"v": variant, "d": payload}.
use serde::ser::*;
use serde_json::{Map, Value};

#[derive(Debug)]
pub struct E(pub String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl serde::de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}

pub fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| Value::from(*x)).collect())
}

pub fn tree<T: Serialize + ?Sized>(t: &T) -> Value {
    t.serialize(T2).expect("tree")
}

pub struct T2;
macro_rules! num {
    ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> Result<Value, E> { Ok(bytes(&v.to_le_bytes())) } )* };
}
pub struct SeqT(Vec<Value>, Option<&'static str>);
pub struct MapT(Map<String, Value>, Option<&'static str>);
pub struct PairsT(Vec<Value>, Option<Value>);
fn wrap(v: Value, n: Option<&'static str>) -> Value {
    match n {
        Some(n) => variant(n, v),
        None => v,
    }
}
pub fn variant(n: &str, d: Value) -> Value {
    let mut m = Map::new();
    m.insert("v".into(), Value::from(n));
    m.insert("d".into(), d);
    Value::Object(m)
}
impl Serializer for T2 {
    type Ok = Value;
    type Error = E;
    type SerializeSeq = SeqT;
    type SerializeTuple = SeqT;
    type SerializeTupleStruct = SeqT;
    type SerializeTupleVariant = SeqT;
    type SerializeMap = PairsT;
    type SerializeStruct = MapT;
    type SerializeStructVariant = MapT;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
         serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_i128 i128, serialize_u128 u128);
    fn serialize_bool(self, v: bool) -> Result<Value, E> {
        Ok(bytes(&[v as u8]))
    }
    fn serialize_char(self, v: char) -> Result<Value, E> {
        Ok(bytes(v.to_string().as_bytes()))
    }
    fn serialize_str(self, v: &str) -> Result<Value, E> {
        Ok(bytes(v.as_bytes()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Value, E> {
        Ok(bytes(v))
    }
    fn serialize_none(self) -> Result<Value, E> {
        Ok(Value::Array(vec![]))
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Value, E> {
        Ok(Value::Array(vec![v.serialize(T2)?]))
    }
    fn serialize_unit(self) -> Result<Value, E> {
        Ok(Value::Array(vec![]))
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, E> {
        Ok(Value::Array(vec![]))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<Value, E> {
        Ok(variant(n, Value::Array(vec![])))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Value, E> {
        v.serialize(T2)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Value, E> {
        Ok(variant(n, v.serialize(T2)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqT, E> {
        Ok(SeqT(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqT, E> {
        Ok(SeqT(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqT, E> {
        Ok(SeqT(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<SeqT, E> {
        Ok(SeqT(vec![], Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<PairsT, E> {
        Ok(PairsT(vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapT, E> {
        Ok(MapT(Map::new(), None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<MapT, E> {
        Ok(MapT(Map::new(), Some(n)))
    }
}
macro_rules! seq {
    ($tr:ident $f:ident) => {
        impl $tr for SeqT {
            type Ok = Value;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                self.0.push(v.serialize(T2)?);
                Ok(())
            }
            fn end(self) -> Result<Value, E> {
                Ok(wrap(Value::Array(self.0), self.1))
            }
        }
    };
}
seq!(SerializeSeq serialize_element);
seq!(SerializeTuple serialize_element);
seq!(SerializeTupleStruct serialize_field);
seq!(SerializeTupleVariant serialize_field);
macro_rules! st {
    ($tr:ident) => {
        impl $tr for MapT {
            type Ok = Value;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
                self.0.insert(k.into(), v.serialize(T2)?);
                Ok(())
            }
            fn end(self) -> Result<Value, E> {
                Ok(wrap(Value::Object(self.0), self.1))
            }
        }
    };
}
st!(SerializeStruct);
st!(SerializeStructVariant);
impl SerializeMap for PairsT {
    type Ok = Value;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), E> {
        self.1 = Some(k.serialize(T2)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        self.0.push(Value::Array(vec![self.1.take().unwrap(), v.serialize(T2)?]));
        Ok(())
    }
    fn end(self) -> Result<Value, E> {
        Ok(Value::Array(self.0))
    }
}
