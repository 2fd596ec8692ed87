//! C12: the text form.  A minimal self-describing format stands in for JSON:
//! strings, numbers, sequences and maps.
use crate::sym::*;
use bytes::Bytes;
use overlord::types::*;
use serde::de::{self, IntoDeserializer};
use serde::ser::{self, Serialize};
use serde::Deserialize;

#[derive(Clone, Debug)]
pub enum Val {
    Str(String),
    U(u64),
    Nil,
    Seq(Vec<Val>),
    Map(Vec<(String, Val)>),
}
#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("e")
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        E
    }
}
struct S;
struct SSeq(Vec<Val>);
struct SMap(Vec<(String, Val)>, Option<&'static str>);
impl ser::SerializeSeq for SSeq {
    type Ok = Val;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.0.push(v.serialize(S)?);
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        Ok(Val::Seq(self.0))
    }
}
impl ser::SerializeStruct for SMap {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.0.push((k.to_string(), v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        Ok(match self.1 {
            Some(v) => Val::Map(vec![(v.to_string(), Val::Map(self.0))]),
            None => Val::Map(self.0),
        })
    }
}
macro_rules! no { ($($f:ident($t:ty)),*) => { $(fn $f(self, _: $t) -> Result<Val, E> { Err(E) })* } }
impl ser::Serializer for S {
    type Ok = Val;
    type Error = E;
    type SerializeSeq = SSeq;
    type SerializeTuple = ser::Impossible<Val, E>;
    type SerializeTupleStruct = ser::Impossible<Val, E>;
    type SerializeTupleVariant = ser::Impossible<Val, E>;
    type SerializeMap = ser::Impossible<Val, E>;
    type SerializeStruct = SMap;
    type SerializeStructVariant = ser::Impossible<Val, E>;
    no!(serialize_bool(bool), serialize_i8(i8), serialize_i16(i16), serialize_i32(i32), serialize_i64(i64), serialize_f32(f32), serialize_f64(f64), serialize_char(char), serialize_bytes(&[u8]));
    fn serialize_u8(self, v: u8) -> Result<Val, E> {
        Ok(Val::U(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<Val, E> {
        Ok(Val::U(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<Val, E> {
        Ok(Val::U(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<Val, E> {
        Ok(Val::U(v))
    }
    fn serialize_str(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.to_string()))
    }
    fn serialize_none(self) -> Result<Val, E> {
        Ok(Val::Nil)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Val, E> {
        v.serialize(S)
    }
    fn serialize_unit(self) -> Result<Val, E> {
        Err(E)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, E> {
        Err(E)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Val, E> {
        Ok(Val::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Val, E> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, v: &'static str, x: &T) -> Result<Val, E> {
        Ok(Val::Map(vec![(v.to_string(), x.serialize(S)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SSeq, E> {
        Ok(SSeq(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
        Err(E)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> {
        Err(E)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<SMap, E> {
        Ok(SMap(vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> {
        Err(E)
    }
}
struct D(Val);
impl<'de> de::Deserializer<'de> for D {
    type Error = E;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Val::Str(s) => v.visit_str(&s),
            Val::U(n) => v.visit_u64(n),
            Val::Nil => v.visit_none(),
            Val::Seq(l) => v.visit_seq(de::value::SeqDeserializer::new(l.into_iter().map(D))),
            Val::Map(m) => v.visit_map(de::value::MapDeserializer::new(m.into_iter().map(|(k, x)| (k, D(x))))),
        }
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Val::Nil => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        match self.0 {
            Val::Str(s) => v.visit_enum(s.into_deserializer()),
            Val::Map(mut m) if m.len() == 1 => {
                let (k, x) = m.pop().unwrap();
                v.visit_enum(de::value::MapAccessDeserializer::new(de::value::MapDeserializer::new(std::iter::once((k, D(x))))))
            }
            _ => Err(E),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct newtype_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
impl<'de> IntoDeserializer<'de, E> for D {
    type Deserializer = D;
    fn into_deserializer(self) -> D {
        self
    }
}
fn field(max: u64) -> Bytes {
    let n = choose(max + 1, "len");
    Bytes::from((0..n).map(|_| u8_("byte")).collect::<Vec<u8>>())
}
fn rt<T: Serialize + for<'a> Deserialize<'a> + PartialEq>(v: T) {
    match v.serialize(S) {
        Ok(x) => match T::deserialize(D(x)) {
            Ok(y) => check(y == v, "C12: text form and back gives the same value"),
            Err(_) => check(false, "C12: the text form can be read back"),
        },
        Err(_) => check(false, "C12: a value has a text form"),
    }
}
fn qc(b: [Bytes; 4]) -> AggregatedVote {
    let [a, c, d, e] = b;
    AggregatedVote {
        signature: AggregatedSignature { signature: a, address_bitmap: c },
        vote_type: if flip("type") { VoteType::Prevote } else { VoteType::Precommit },
        height: below(100, "int"),
        round: below(100, "int"),
        block_hash: d,
        leader: e,
    }
}
pub fn roundtrip() {
    let f = |i: u64, at: u64| if i == at { field(3) } else { Bytes::from(vec![u8_("byte"), 7]) };
    match choose(6, "kind") {
        0 => rt(Node { address: field(4), propose_weight: u32_("int"), vote_weight: 3 }),
        1 => {
            let at = choose(2, "field");
            rt(AggregatedSignature { signature: f(0, at), address_bitmap: f(1, at) })
        }
        2 => {
            let at = choose(4, "field");
            rt(qc([f(0, at), f(1, at), f(2, at), f(3, at)]))
        }
        3 => {
            let k = choose(4, "voters");
            rt(AggregatedChoke { height: 1, round: below(100, "int"), signature: field(2), voters: (0..k).map(|_| field(2)).collect() })
        }
        4 => {
            let k = choose(3, "voters");
            rt(UpdateFrom::ChokeQC(AggregatedChoke { height: 1, round: 2, signature: field(1), voters: (0..k).map(|_| field(1)).collect() }))
        }
        _ => {
            let at = choose(4, "field");
            let q = qc([f(0, at), f(1, at), f(2, at), f(3, at)]);
            rt(if flip("from") { UpdateFrom::PrevoteQC(q) } else { UpdateFrom::PrecommitQC(q) })
        }
    }
    reach("end");
}
/// A long field: every length, a window of symbolic bytes.
pub fn long() {
    let n = [31usize, 32, 33, 48, 64, 96, 97][choose(7, "len") as usize];
    let mut v = vec![0u8; n];
    let at = choose(n as u64, "at") as usize;
    for (i, x) in v.iter_mut().enumerate() {
        *x = if i == at { u8_("byte") } else { (i * 7) as u8 };
    }
    rt(Node { address: Bytes::from(v), propose_weight: 1, vote_weight: 1 });
    reach("end");
}
fn is_hex(c: u8) -> bool {
    ((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F'))
}
fn nib(c: u8) -> u8 {
    if c <= b'9' {
        c - b'0'
    } else {
        (c | 0x20) - b'a' + 10
    }
}
/// Any ASCII text: accepted exactly when it is well-formed, with that meaning.
pub fn text(max: u64) {
    let n = choose(max + 1, "n") as usize;
    let b: Vec<u8> = (0..n)
        .map(|_| {
            let c = u8_("char");
            assume(c < 128);
            c
        })
        .collect();
    let s = unsafe { String::from_utf8_unchecked(b.clone()) };
    let got = Node::deserialize(D(Val::Map(vec![("address".into(), Val::Str(s)), ("propose_weight".into(), Val::U(1)), ("vote_weight".into(), Val::U(1))])));
    let mut well = n % 2 == 0;
    for c in b.iter() {
        well &= is_hex(*c);
    }
    match got {
        Ok(x) => {
            check(well, "C12: text that is not well-formed hexadecimal is rejected");
            let mut ok = x.address.len() == n / 2;
            for i in 0..x.address.len().min(n / 2) {
                ok &= x.address[i] == nib(b[2 * i]) << 4 | nib(b[2 * i + 1]);
            }
            check(ok, "C12: the bytes are what the text says");
            reach("accepted");
        }
        Err(_) => {
            check(!well, "C12: well-formed text is accepted");
            reach("rejected");
        }
    }
    reach("end");
}
/// The same inside a list of addresses.
pub fn text_list() {
    let n = choose(5, "n") as usize;
    let b: Vec<u8> = (0..n)
        .map(|_| {
            let c = u8_("char");
            assume(c < 128);
            c
        })
        .collect();
    let s = unsafe { String::from_utf8_unchecked(b.clone()) };
    let k = choose(3, "at");
    let item = |s: String| Val::Map(vec![("inner".into(), Val::Str(s))]);
    let mut l = vec![item("a1".into()), item("".into())];
    l.insert(k as usize, item(s));
    let v = Val::Map(vec![
        ("height".into(), Val::U(1)),
        ("round".into(), Val::U(2)),
        ("signature".into(), Val::Str("00".into())),
        ("voters".into(), Val::Map(vec![("inner".into(), Val::Seq(l))])),
    ]);
    let mut well = n % 2 == 0;
    for c in b.iter() {
        well &= is_hex(*c);
    }
    match AggregatedChoke::deserialize(D(v)) {
        Ok(x) => {
            check(well, "C12: text that is not well-formed hexadecimal is rejected");
            check(x.voters.len() == 3, "C12: a list keeps its length");
            let y = &x.voters[k as usize];
            let mut ok = y.len() == n / 2;
            for i in 0..y.len().min(n / 2) {
                ok &= y[i] == nib(b[2 * i]) << 4 | nib(b[2 * i + 1]);
            }
            check(ok, "C12: the bytes are what the text says");
            reach("accepted");
        }
        Err(_) => {
            check(!well, "C12: well-formed text is accepted");
            reach("rejected");
        }
    }
    reach("end");
}
