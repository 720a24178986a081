//! Two data formats that keep a serialised value as a tree: with names (as self-describing
//! formats do) and by position (as compact formats do). They are only analysed, never run.
//! Values of library types are kept as they are (`Any`), see `ai/serde.py`.
use serde::de::{self, DeserializeSeed, Deserializer, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::fmt::Display;

pub struct Any;
pub enum Val {
    Any(Any),
    Unit,
    Bool(bool),
    U64(u64),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Val>),
    Seq(Vec<Val>),
    Fields(Vec<(&'static str, Val)>),
    Variant(&'static str, u32, Box<Val>),
}

#[derive(Debug)]
pub struct Error;
impl Display for Error {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(_m: T) -> Self { Error }
}
impl de::Error for Error {
    fn custom<T: Display>(_m: T) -> Self { Error }
    fn missing_field(_f: &'static str) -> Self { Error }
    fn unknown_variant(_v: &str, _e: &'static [&'static str]) -> Self { Error }
    fn unknown_field(_v: &str, _e: &'static [&'static str]) -> Self { Error }
    fn duplicate_field(_f: &'static str) -> Self { Error }
    fn invalid_length(_n: usize, _e: &dyn de::Expected) -> Self { Error }
    fn invalid_value(_n: de::Unexpected, _e: &dyn de::Expected) -> Self { Error }
    fn invalid_type(_n: de::Unexpected, _e: &dyn de::Expected) -> Self { Error }
}

/// the analysis gives up here
pub fn prim_unknown<T>() -> T { loop {} }

pub struct Ser<const NAMED: bool>;
pub struct Elems<const NAMED: bool> { v: Vec<Val>, var: Option<(&'static str, u32)> }
pub struct Fields<const NAMED: bool> { v: Vec<(&'static str, Val)>, var: Option<(&'static str, u32)> }

fn wrap(var: Option<(&'static str, u32)>, v: Val) -> Val {
    match var {
        Some((n, i)) => Val::Variant(n, i, Box::new(v)),
        None => v,
    }
}

impl<const N: bool> Serializer for Ser<N> {
    type Ok = Val;
    type Error = Error;
    type SerializeSeq = Elems<N>;
    type SerializeTuple = Elems<N>;
    type SerializeTupleStruct = Elems<N>;
    type SerializeTupleVariant = Elems<N>;
    type SerializeMap = ser::Impossible<Val, Error>;
    type SerializeStruct = Fields<N>;
    type SerializeStructVariant = Fields<N>;
    fn serialize_bool(self, v: bool) -> Result<Val, Error> { Ok(Val::Bool(v)) }
    fn serialize_i8(self, _v: i8) -> Result<Val, Error> { prim_unknown() }
    fn serialize_i16(self, _v: i16) -> Result<Val, Error> { prim_unknown() }
    fn serialize_i32(self, _v: i32) -> Result<Val, Error> { prim_unknown() }
    fn serialize_i64(self, _v: i64) -> Result<Val, Error> { prim_unknown() }
    fn serialize_u8(self, v: u8) -> Result<Val, Error> { Ok(Val::U64(v as u64)) }
    fn serialize_u16(self, v: u16) -> Result<Val, Error> { Ok(Val::U64(v as u64)) }
    fn serialize_u32(self, v: u32) -> Result<Val, Error> { Ok(Val::U64(v as u64)) }
    fn serialize_u64(self, v: u64) -> Result<Val, Error> { Ok(Val::U64(v)) }
    fn serialize_f32(self, _v: f32) -> Result<Val, Error> { prim_unknown() }
    fn serialize_f64(self, _v: f64) -> Result<Val, Error> { prim_unknown() }
    fn serialize_char(self, _v: char) -> Result<Val, Error> { prim_unknown() }
    fn serialize_str(self, v: &str) -> Result<Val, Error> { Ok(Val::Str(v.to_string())) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Val, Error> { Ok(Val::Bytes(v.to_vec())) }
    fn serialize_none(self) -> Result<Val, Error> { Ok(Val::None) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Val, Error> { Ok(Val::Some(Box::new(v.serialize(Ser::<N>)?))) }
    fn serialize_unit(self) -> Result<Val, Error> { Ok(Val::Unit) }
    fn serialize_unit_struct(self, _n: &'static str) -> Result<Val, Error> { Ok(Val::Unit) }
    fn serialize_unit_variant(self, _n: &'static str, i: u32, v: &'static str) -> Result<Val, Error> { Ok(Val::Variant(v, i, Box::new(Val::Unit))) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _n: &'static str, v: &T) -> Result<Val, Error> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _n: &'static str, i: u32, v: &'static str, x: &T) -> Result<Val, Error> {
        Ok(Val::Variant(v, i, Box::new(x.serialize(Ser::<N>)?)))
    }
    fn serialize_seq(self, _l: Option<usize>) -> Result<Elems<N>, Error> { Ok(Elems { v: Vec::new(), var: None }) }
    fn serialize_tuple(self, _l: usize) -> Result<Elems<N>, Error> { Ok(Elems { v: Vec::new(), var: None }) }
    fn serialize_tuple_struct(self, _n: &'static str, _l: usize) -> Result<Elems<N>, Error> { Ok(Elems { v: Vec::new(), var: None }) }
    fn serialize_tuple_variant(self, _n: &'static str, i: u32, v: &'static str, _l: usize) -> Result<Elems<N>, Error> { Ok(Elems { v: Vec::new(), var: Some((v, i)) }) }
    fn serialize_map(self, _l: Option<usize>) -> Result<Self::SerializeMap, Error> { prim_unknown() }
    fn serialize_struct(self, _n: &'static str, _l: usize) -> Result<Fields<N>, Error> { Ok(Fields { v: Vec::new(), var: None }) }
    fn serialize_struct_variant(self, _n: &'static str, i: u32, v: &'static str, _l: usize) -> Result<Fields<N>, Error> { Ok(Fields { v: Vec::new(), var: Some((v, i)) }) }
    fn is_human_readable(&self) -> bool { N }
}

impl<const N: bool> Elems<N> {
    fn add<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.v.push(v.serialize(Ser::<N>)?);
        Ok(())
    }
    fn done(self) -> Result<Val, Error> { Ok(wrap(self.var, Val::Seq(self.v))) }
}
impl<const N: bool> ser::SerializeSeq for Elems<N> {
    type Ok = Val;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.add(v) }
    fn end(self) -> Result<Val, Error> { self.done() }
}
impl<const N: bool> ser::SerializeTuple for Elems<N> {
    type Ok = Val;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.add(v) }
    fn end(self) -> Result<Val, Error> { self.done() }
}
impl<const N: bool> ser::SerializeTupleStruct for Elems<N> {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.add(v) }
    fn end(self) -> Result<Val, Error> { self.done() }
}
impl<const N: bool> ser::SerializeTupleVariant for Elems<N> {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.add(v) }
    fn end(self) -> Result<Val, Error> { self.done() }
}
impl<const N: bool> Fields<N> {
    fn add<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.v.push((k, v.serialize(Ser::<N>)?));
        Ok(())
    }
    fn done(self) -> Result<Val, Error> { Ok(wrap(self.var, Val::Fields(self.v))) }
}
impl<const N: bool> ser::SerializeStruct for Fields<N> {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> { self.add(k, v) }
    fn end(self) -> Result<Val, Error> { self.done() }
}
impl<const N: bool> ser::SerializeStructVariant for Fields<N> {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> { self.add(k, v) }
    fn end(self) -> Result<Val, Error> { self.done() }
}

pub struct De<const NAMED: bool>(pub Val);
pub struct Key<const NAMED: bool>(&'static str, u32);
/// the elements of a sequence; `true`: as many as the type says, not as many as there are
pub struct Seq<const NAMED: bool>(std::vec::IntoIter<Val>, bool);
pub struct Map<const NAMED: bool>(std::vec::IntoIter<(&'static str, Val)>, Option<Val>);
pub struct Var<const NAMED: bool>(&'static str, u32, Val);

fn seq<'de, const N: bool, V: Visitor<'de>>(v: Vec<Val>, exact: bool, visitor: V) -> Result<V::Value, Error> {
    let mut s = Seq::<N>(v.into_iter(), exact);
    let r = visitor.visit_seq(&mut s)?;
    match s.0.next() {
        // left over data
        Some(_) => Err(Error),
        None => Ok(r),
    }
}

fn fields<'de, const N: bool, V: Visitor<'de>>(v: Val, visitor: V) -> Result<V::Value, Error> {
    match v {
        Val::Fields(f) => {
            if N {
                visitor.visit_map(Map::<N>(f.into_iter(), None))
            } else {
                let mut vals = Vec::new();
                for (_, x) in f {
                    vals.push(x);
                }
                seq::<N, V>(vals, true, visitor)
            }
        }
        Val::Seq(x) => seq::<N, V>(x, !N, visitor),
        _ => prim_unknown(),
    }
}

impl<'de, const N: bool> Deserializer<'de> for De<N> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        if !N {
            return Err(Error);
        }
        match self.0 {
            Val::Unit => visitor.visit_unit(),
            Val::Bool(b) => visitor.visit_bool(b),
            Val::U64(x) => visitor.visit_u64(x),
            Val::Str(s) => visitor.visit_string(s),
            Val::Bytes(s) => visitor.visit_byte_buf(s),
            Val::None => visitor.visit_none(),
            Val::Some(x) => visitor.visit_some(De::<N>(*x)),
            Val::Seq(x) => seq::<N, V>(x, false, visitor),
            Val::Fields(_) => fields::<N, V>(self.0, visitor),
            Val::Variant(n, i, x) => visitor.visit_enum(Var::<N>(n, i, *x)),
            Val::Any(_) => prim_unknown(),
        }
    }
    fn deserialize_bool<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Bool(b) => visitor.visit_bool(b), _ => prim_unknown() }
    }
    fn deserialize_u8<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::U64(b) => visitor.visit_u64(b), _ => prim_unknown() }
    }
    fn deserialize_u16<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::U64(b) => visitor.visit_u64(b), _ => prim_unknown() }
    }
    fn deserialize_u32<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::U64(b) => visitor.visit_u64(b), _ => prim_unknown() }
    }
    fn deserialize_u64<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::U64(b) => visitor.visit_u64(b), _ => prim_unknown() }
    }
    fn deserialize_i8<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> { prim_unknown() }
    fn deserialize_i16<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> { prim_unknown() }
    fn deserialize_i32<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> { prim_unknown() }
    fn deserialize_i64<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> { prim_unknown() }
    fn deserialize_f32<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> { prim_unknown() }
    fn deserialize_f64<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> { prim_unknown() }
    fn deserialize_char<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> { prim_unknown() }
    fn deserialize_str<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Str(s) => visitor.visit_string(s), _ => prim_unknown() }
    }
    fn deserialize_string<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Str(s) => visitor.visit_string(s), _ => prim_unknown() }
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Bytes(s) => visitor.visit_byte_buf(s), _ => prim_unknown() }
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Bytes(s) => visitor.visit_byte_buf(s), _ => prim_unknown() }
    }
    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::None => visitor.visit_none(), Val::Some(x) => visitor.visit_some(De::<N>(*x)), _ => prim_unknown() }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Unit => visitor.visit_unit(), _ => prim_unknown() }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _n: &'static str, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Unit => visitor.visit_unit(), _ => prim_unknown() }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _n: &'static str, visitor: V) -> Result<V::Value, Error> { visitor.visit_newtype_struct(self) }
    fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Seq(x) => seq::<N, V>(x, false, visitor), _ => prim_unknown() }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _l: usize, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Seq(x) => seq::<N, V>(x, !N, visitor), _ => prim_unknown() }
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _n: &'static str, _l: usize, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Seq(x) => seq::<N, V>(x, !N, visitor), _ => prim_unknown() }
    }
    fn deserialize_map<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> { fields::<N, V>(self.0, visitor) }
    fn deserialize_struct<V: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], visitor: V) -> Result<V::Value, Error> { fields::<N, V>(self.0, visitor) }
    fn deserialize_enum<V: Visitor<'de>>(self, _n: &'static str, _f: &'static [&'static str], visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Variant(n, i, x) => visitor.visit_enum(Var::<N>(n, i, *x)), _ => prim_unknown() }
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _v: V) -> Result<V::Value, Error> { prim_unknown() }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        if N { visitor.visit_unit() } else { Err(Error) }
    }
    fn is_human_readable(&self) -> bool { N }
}

impl<'de, const N: bool> Deserializer<'de> for Key<N> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        if N { visitor.visit_str(self.0) } else { visitor.visit_u64(self.1 as u64) }
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        if N { visitor.visit_str(self.0) } else { visitor.visit_u64(self.1 as u64) }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum ignored_any
    }
}

impl<'de, const N: bool> de::SeqAccess<'de> for Seq<N> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        match self.0.next() {
            Some(x) => Ok(Some(seed.deserialize(De::<N>(x))?)),
            // reads on into the data that follows
            None if self.1 => Err(Error),
            None => Ok(None),
        }
    }
}
impl<'de, const N: bool> de::MapAccess<'de> for Map<N> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                Ok(Some(seed.deserialize(Key::<N>(k, 0))?))
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Error> {
        match self.1.take() {
            Some(v) => seed.deserialize(De::<N>(v)),
            None => Err(Error),
        }
    }
}
impl<'de, const N: bool> de::EnumAccess<'de> for Var<N> {
    type Error = Error;
    type Variant = De<N>;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, De<N>), Error> {
        let k = seed.deserialize(Key::<N>(self.0, self.1))?;
        Ok((k, De::<N>(self.2)))
    }
}
impl<'de, const N: bool> de::VariantAccess<'de> for De<N> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        match self.0 { Val::Unit => Ok(()), _ => Err(Error) }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Error> {
        match self.0 { Val::Unit => Err(Error), _ => seed.deserialize(self) }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _l: usize, visitor: V) -> Result<V::Value, Error> {
        match self.0 { Val::Seq(x) => seq::<N, V>(x, !N, visitor), _ => prim_unknown() }
    }
    fn struct_variant<V: Visitor<'de>>(self, _f: &'static [&'static str], visitor: V) -> Result<V::Value, Error> { fields::<N, V>(self.0, visitor) }
}

/// serialises and deserialises again
pub fn round<T: Serialize + for<'a> serde::Deserialize<'a>, const N: bool>(t: &T) -> Result<T, Error> {
    let v = t.serialize(Ser::<N>)?;
    T::deserialize(De::<N>(v))
}
