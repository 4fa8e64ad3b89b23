//! A strict self-describing, non-text serde format kept in memory. As in MessagePack, byte strings,
//! sequences, text and numbers are different things on the wire and are handed to the visitor as
//! what they are; left-over elements are an error.
use serde::de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Nil,
    Bool(bool),
    U(u64),
    U128(u128),
    I(i64),
    I128(i128),
    F(f64),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<Node>),
    Map(Vec<(Node, Node)>),
}
#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
pub fn to_tree<T: Serialize + ?Sized>(v: &T) -> Result<Node, Error> {
    v.serialize(Ser)
}
pub fn from_tree<T: DeserializeOwned>(n: Node) -> Result<T, Error> {
    T::deserialize(De(n))
}

impl Node {
    /// reorders the entries of every map
    pub fn shuffle(&mut self, s: &mut crate::engine::Src) {
        match self {
            Node::Seq(l) => l.iter_mut().for_each(|n| n.shuffle(s)),
            Node::Map(l) => {
                for i in (1..l.len()).rev() {
                    l.swap(i, s.below(i + 1));
                }
                l.iter_mut().for_each(|(_, n)| n.shuffle(s));
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ writing
struct Ser;
pub struct SeqSer(Vec<Node>, Option<&'static str>);
pub struct MapSer(Vec<(Node, Node)>, Option<Node>, Option<&'static str>);
fn variant(name: Option<&'static str>, n: Node) -> Node {
    match name {
        Some(v) => Node::Map(vec![(Node::Str(v.into()), n)]),
        None => n,
    }
}
impl ser::Serializer for Ser {
    type Ok = Node;
    type Error = Error;
    type SerializeSeq = SeqSer;
    type SerializeTuple = SeqSer;
    type SerializeTupleStruct = SeqSer;
    type SerializeTupleVariant = SeqSer;
    type SerializeMap = MapSer;
    type SerializeStruct = MapSer;
    type SerializeStructVariant = MapSer;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> Result<Node, Error> {
        Ok(Node::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Node, Error> {
        self.serialize_i64(v.into())
    }
    fn serialize_i16(self, v: i16) -> Result<Node, Error> {
        self.serialize_i64(v.into())
    }
    fn serialize_i32(self, v: i32) -> Result<Node, Error> {
        self.serialize_i64(v.into())
    }
    fn serialize_i64(self, v: i64) -> Result<Node, Error> {
        Ok(u64::try_from(v).map_or(Node::I(v), Node::U))
    }
    fn serialize_i128(self, v: i128) -> Result<Node, Error> {
        Ok(i64::try_from(v).map_or(Node::I128(v), Node::I))
    }
    fn serialize_u8(self, v: u8) -> Result<Node, Error> {
        Ok(Node::U(v.into()))
    }
    fn serialize_u16(self, v: u16) -> Result<Node, Error> {
        Ok(Node::U(v.into()))
    }
    fn serialize_u32(self, v: u32) -> Result<Node, Error> {
        Ok(Node::U(v.into()))
    }
    fn serialize_u64(self, v: u64) -> Result<Node, Error> {
        Ok(Node::U(v))
    }
    fn serialize_u128(self, v: u128) -> Result<Node, Error> {
        Ok(u64::try_from(v).map_or(Node::U128(v), Node::U))
    }
    fn serialize_f32(self, v: f32) -> Result<Node, Error> {
        Ok(Node::F(v.into()))
    }
    fn serialize_f64(self, v: f64) -> Result<Node, Error> {
        Ok(Node::F(v))
    }
    fn serialize_char(self, v: char) -> Result<Node, Error> {
        Ok(Node::Str(v.into()))
    }
    fn serialize_str(self, v: &str) -> Result<Node, Error> {
        Ok(Node::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Node, Error> {
        Ok(Node::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Node, Error> {
        Ok(Node::Nil)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Node, Error> {
        v.serialize(Ser)
    }
    fn serialize_unit(self) -> Result<Node, Error> {
        Ok(Node::Nil)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Node, Error> {
        Ok(Node::Nil)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Node, Error> {
        Ok(Node::Str(v.into()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Node, Error> {
        v.serialize(Ser)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, name: &'static str, v: &T) -> Result<Node, Error> {
        Ok(variant(Some(name), v.serialize(Ser)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqSer, Error> {
        Ok(SeqSer(vec![], None))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqSer, Error> {
        Ok(SeqSer(vec![], None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqSer, Error> {
        Ok(SeqSer(vec![], None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, name: &'static str, _: usize) -> Result<SeqSer, Error> {
        Ok(SeqSer(vec![], Some(name)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapSer, Error> {
        Ok(MapSer(vec![], None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapSer, Error> {
        Ok(MapSer(vec![], None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, name: &'static str, _: usize) -> Result<MapSer, Error> {
        Ok(MapSer(vec![], None, Some(name)))
    }
}
macro_rules! seq_ser { ($($t:ident $f:ident),*) => { $(
    impl ser::$t for SeqSer {
        type Ok = Node;
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
            self.0.push(v.serialize(Ser)?);
            Ok(())
        }
        fn end(self) -> Result<Node, Error> {
            Ok(variant(self.1, Node::Seq(self.0)))
        }
    }
)* }; }
seq_ser!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for MapSer {
    type Ok = Node;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        self.1 = Some(k.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.1.take().ok_or_else(|| Error("value without key".into()))?;
        self.0.push((k, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<Node, Error> {
        Ok(variant(self.2, Node::Map(self.0)))
    }
}
macro_rules! struct_ser { ($($t:ident),*) => { $(
    impl ser::$t for MapSer {
        type Ok = Node;
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
            self.0.push((Node::Str(k.into()), v.serialize(Ser)?));
            Ok(())
        }
        fn end(self) -> Result<Node, Error> {
            Ok(variant(self.2, Node::Map(self.0)))
        }
    }
)* }; }
struct_ser!(SerializeStruct, SerializeStructVariant);

// ------------------------------------------------------------------ reading
struct De(Node);
struct SeqDe(std::vec::IntoIter<Node>);
struct MapDe(std::vec::IntoIter<(Node, Node)>, Option<Node>);
impl<'de> de::SeqAccess<'de> for SeqDe {
    type Error = Error;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        self.0.next().map(|n| s.deserialize(De(n))).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
impl<'de> de::MapAccess<'de> for MapDe {
    type Error = Error;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(De(k)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, Error> {
        s.deserialize(De(self.1.take().ok_or_else(|| Error("value without key".into()))?))
    }
}
impl<'de> de::Deserializer<'de> for De {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Node::Nil => v.visit_unit(),
            Node::Bool(b) => v.visit_bool(b),
            Node::U(n) => v.visit_u64(n),
            Node::U128(n) => v.visit_u128(n),
            Node::I(n) => v.visit_i64(n),
            Node::I128(n) => v.visit_i128(n),
            Node::F(n) => v.visit_f64(n),
            Node::Str(s) => v.visit_string(s),
            Node::Bytes(b) => v.visit_byte_buf(b),
            Node::Seq(l) => {
                let mut d = SeqDe(l.into_iter());
                let r = v.visit_seq(&mut d)?;
                match d.0.next() {
                    Some(_) => Err(Error("left-over elements".into())),
                    None => Ok(r),
                }
            }
            Node::Map(l) => {
                let mut d = MapDe(l.into_iter(), None);
                let r = v.visit_map(&mut d)?;
                match d.0.next() {
                    Some(_) => Err(Error("left-over entries".into())),
                    None => Ok(r),
                }
            }
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Node::Nil => v.visit_none(),
            n => v.visit_some(De(n)),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        match self.0 {
            Node::Str(s) => v.visit_enum(s.into_deserializer()),
            Node::Map(l) if l.len() == 1 => {
                let (k, n) = l.into_iter().next().unwrap();
                v.visit_enum(EnumDe(k, n))
            }
            _ => Err(Error("not a variant".into())),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any }
}
struct EnumDe(Node, Node);
impl<'de> de::EnumAccess<'de> for EnumDe {
    type Error = Error;
    type Variant = VariantDe;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, VariantDe), Error> {
        Ok((s.deserialize(De(self.0))?, VariantDe(self.1)))
    }
}
struct VariantDe(Node);
impl<'de> de::VariantAccess<'de> for VariantDe {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        match self.0 {
            Node::Nil => Ok(()),
            _ => Err(Error("content in a unit variant".into())),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, Error> {
        s.deserialize(De(self.0))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_any(De(self.0), v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_any(De(self.0), v)
    }
}
