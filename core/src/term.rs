//! The serde data model as data: terms that serialize themselves call by call, a recorder that
//! captures what any `Serialize` type does, shapes that drive typed deserialization the way
//! derived code does, and the documented mapping between terms and schema values.
use crate::{
    refm::{Arena, Kind},
    text::{scalar_text, scalar_type},
};
use binschema::{
    value::{EnumValue, ScalarValue, StructValueField, Value},
    ScalarType,
};
use serde::{
    de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor},
    ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant},
    Serialize, Serializer,
};
use std::{collections::HashSet, fmt, sync::Mutex};

pub fn intern(s: &str) -> &'static str {
    static M: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = M.lock().unwrap();
    let m = g.get_or_insert_with(HashSet::new);
    if let Some(x) = m.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_string().into_boxed_str());
    m.insert(l);
    l
}

pub fn intern_list(v: &[&'static str]) -> &'static [&'static str] {
    static M: Mutex<Option<HashSet<&'static [&'static str]>>> = Mutex::new(None);
    let mut g = M.lock().unwrap();
    let m = g.get_or_insert_with(HashSet::new);
    if let Some(x) = m.get(v) {
        return x;
    }
    let l: &'static [&'static str] = Box::leak(v.to_vec().into_boxed_slice());
    m.insert(l);
    l
}

#[derive(Debug, Clone, PartialEq)]
pub enum Content {
    Unit,
    Newtype(Box<Term>),
    Tuple(Vec<Term>),
    /// field without a value: skipped
    Struct(Vec<(&'static str, Option<Term>)>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Term {
    Scalar(ScalarValue),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Term>),
    /// declared length, elements
    Seq(Option<usize>, Vec<Term>),
    Tuple(Vec<Term>),
    Map(Option<usize>, Vec<(Term, Term)>),
    /// unit / newtype / tuple / named struct
    Struct(Content),
    Variant(u32, &'static str, Content),
    Ignored,
}

impl Term {
    pub fn text(&self) -> String {
        fn list(v: &[Term]) -> String {
            v.iter().map(|t| t.text()).collect::<Vec<_>>().join(" ")
        }
        fn content(c: &Content) -> String {
            match c {
                Content::Unit => "unit".into(),
                Content::Newtype(t) => format!("(newtype {})", t.text()),
                Content::Tuple(v) => format!("(tuple {})", list(v)),
                Content::Struct(f) => format!(
                    "(fields{})",
                    f.iter().map(|(n, t)| format!(" ({:?} {})", n, t.as_ref().map_or("skipped".into(), |t| t.text()))).collect::<String>()
                ),
            }
        }
        match self {
            Term::Scalar(s) => scalar_text(s),
            Term::Str(s) => format!("{:?}", s),
            Term::Bytes(b) => format!("(bytes {})", crate::text::hex(b)),
            Term::Unit => "unit".into(),
            Term::None => "none".into(),
            Term::Some(t) => format!("(some {})", t.text()),
            Term::Seq(l, v) => format!("(seq {:?} {})", l, list(v)),
            Term::Tuple(v) => format!("(tuple {})", list(v)),
            Term::Map(l, v) => format!("(map {:?}{})", l, v.iter().map(|(k, v)| format!(" ({} {})", k.text(), v.text())).collect::<String>()),
            Term::Struct(c) => format!("(struct {})", content(c)),
            Term::Variant(o, n, c) => format!("(variant {} {:?} {})", o, n, content(c)),
            Term::Ignored => "ignored".into(),
        }
    }
}

pub fn same_term(a: &Term, b: &Term) -> bool {
    a.text() == b.text()
}

impl Serialize for Term {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Term::Scalar(v) => match *v {
                ScalarValue::U8(n) => s.serialize_u8(n),
                ScalarValue::U16(n) => s.serialize_u16(n),
                ScalarValue::U32(n) => s.serialize_u32(n),
                ScalarValue::U64(n) => s.serialize_u64(n),
                ScalarValue::U128(n) => s.serialize_u128(n),
                ScalarValue::I8(n) => s.serialize_i8(n),
                ScalarValue::I16(n) => s.serialize_i16(n),
                ScalarValue::I32(n) => s.serialize_i32(n),
                ScalarValue::I64(n) => s.serialize_i64(n),
                ScalarValue::I128(n) => s.serialize_i128(n),
                ScalarValue::F32(n) => s.serialize_f32(n),
                ScalarValue::F64(n) => s.serialize_f64(n),
                ScalarValue::Char(n) => s.serialize_char(n),
                ScalarValue::Bool(n) => s.serialize_bool(n),
            },
            Term::Str(v) => s.serialize_str(v),
            Term::Bytes(v) => s.serialize_bytes(v),
            Term::Unit => s.serialize_unit(),
            Term::None => s.serialize_none(),
            Term::Some(t) => s.serialize_some(&**t),
            Term::Seq(l, v) => {
                let mut q = s.serialize_seq(*l)?;
                for t in v {
                    q.serialize_element(t)?;
                }
                q.end()
            }
            Term::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for t in v {
                    q.serialize_element(t)?;
                }
                q.end()
            }
            Term::Map(l, v) => {
                let mut q = s.serialize_map(*l)?;
                for (i, (k, t)) in v.iter().enumerate() {
                    // both ways serde offers
                    if i % 2 == 0 {
                        q.serialize_entry(k, t)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(t)?;
                    }
                }
                q.end()
            }
            Term::Struct(c) => match c {
                Content::Unit => s.serialize_unit_struct("N"),
                Content::Newtype(t) => s.serialize_newtype_struct("N", &**t),
                Content::Tuple(v) => {
                    let mut q = s.serialize_tuple_struct("N", v.len())?;
                    for t in v {
                        q.serialize_field(t)?;
                    }
                    q.end()
                }
                Content::Struct(f) => {
                    let mut q = s.serialize_struct("N", f.iter().filter(|x| x.1.is_some()).count())?;
                    for (n, t) in f {
                        match t {
                            Some(t) => q.serialize_field(n, t)?,
                            None => q.skip_field(n)?,
                        }
                    }
                    q.end()
                }
            },
            Term::Variant(o, n, c) => match c {
                Content::Unit => s.serialize_unit_variant("E", *o, n),
                Content::Newtype(t) => s.serialize_newtype_variant("E", *o, n, &**t),
                Content::Tuple(v) => {
                    let mut q = s.serialize_tuple_variant("E", *o, n, v.len())?;
                    for t in v {
                        q.serialize_field(t)?;
                    }
                    q.end()
                }
                Content::Struct(f) => {
                    let mut q = s.serialize_struct_variant("E", *o, n, f.iter().filter(|x| x.1.is_some()).count())?;
                    for (n, t) in f {
                        match t {
                            Some(t) => q.serialize_field(n, t)?,
                            None => q.skip_field(n)?,
                        }
                    }
                    q.end()
                }
            },
            Term::Ignored => s.serialize_unit(),
        }
    }
}

// ---- recorder ----

#[derive(Debug)]
pub struct RecErr(pub String);
impl fmt::Display for RecErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RecErr {}
impl ser::Error for RecErr {
    fn custom<T: fmt::Display>(m: T) -> Self {
        RecErr(m.to_string())
    }
}

/// Captures the calls a `Serialize` implementation makes.
pub struct Recorder;

pub fn record<T: Serialize + ?Sized>(t: &T) -> Result<Term, RecErr> {
    t.serialize(Recorder)
}

pub enum RecKind {
    Seq(Option<usize>),
    Tuple,
    TupleStruct,
    Variant(u32, &'static str),
}
pub struct RecSeq(RecKind, Vec<Term>);
pub struct RecMap(Option<usize>, Vec<(Term, Term)>, Option<Term>);
pub struct RecStruct(Option<(u32, &'static str)>, Vec<(&'static str, Option<Term>)>);

macro_rules! rec_scalar {
    ($($m:ident $t:ty, $v:ident;)*) => {$(
        fn $m(self, v: $t) -> Result<Term, RecErr> { Ok(Term::Scalar(ScalarValue::$v(v))) }
    )*};
}

impl RecSeq {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.1.push(record(v)?);
        Ok(())
    }
    fn done(self) -> Result<Term, RecErr> {
        Ok(match self.0 {
            RecKind::Seq(l) => Term::Seq(l, self.1),
            RecKind::Tuple => Term::Tuple(self.1),
            RecKind::TupleStruct => Term::Struct(Content::Tuple(self.1)),
            RecKind::Variant(o, n) => Term::Variant(o, n, Content::Tuple(self.1)),
        })
    }
}
impl SerializeSeq for RecSeq {
    type Ok = Term;
    type Error = RecErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.add(v)
    }
    fn end(self) -> Result<Term, RecErr> {
        self.done()
    }
}
impl SerializeTuple for RecSeq {
    type Ok = Term;
    type Error = RecErr;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.add(v)
    }
    fn end(self) -> Result<Term, RecErr> {
        self.done()
    }
}
impl SerializeTupleStruct for RecSeq {
    type Ok = Term;
    type Error = RecErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.add(v)
    }
    fn end(self) -> Result<Term, RecErr> {
        self.done()
    }
}
impl SerializeTupleVariant for RecSeq {
    type Ok = Term;
    type Error = RecErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.add(v)
    }
    fn end(self) -> Result<Term, RecErr> {
        self.done()
    }
}
impl SerializeMap for RecMap {
    type Ok = Term;
    type Error = RecErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        self.2 = Some(record(v)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), RecErr> {
        let k = self.2.take().unwrap();
        self.1.push((k, record(v)?));
        Ok(())
    }
    fn end(self) -> Result<Term, RecErr> {
        Ok(Term::Map(self.0, self.1))
    }
}
impl RecStruct {
    fn done(self) -> Result<Term, RecErr> {
        let c = Content::Struct(self.1);
        Ok(match self.0 {
            None => Term::Struct(c),
            Some((o, n)) => Term::Variant(o, n, c),
        })
    }
}
impl SerializeStruct for RecStruct {
    type Ok = Term;
    type Error = RecErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), RecErr> {
        self.1.push((k, Some(record(v)?)));
        Ok(())
    }
    fn skip_field(&mut self, k: &'static str) -> Result<(), RecErr> {
        self.1.push((k, None));
        Ok(())
    }
    fn end(self) -> Result<Term, RecErr> {
        self.done()
    }
}
impl SerializeStructVariant for RecStruct {
    type Ok = Term;
    type Error = RecErr;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), RecErr> {
        self.1.push((k, Some(record(v)?)));
        Ok(())
    }
    fn skip_field(&mut self, k: &'static str) -> Result<(), RecErr> {
        self.1.push((k, None));
        Ok(())
    }
    fn end(self) -> Result<Term, RecErr> {
        self.done()
    }
}

impl Serializer for Recorder {
    type Ok = Term;
    type Error = RecErr;
    type SerializeSeq = RecSeq;
    type SerializeTuple = RecSeq;
    type SerializeTupleStruct = RecSeq;
    type SerializeTupleVariant = RecSeq;
    type SerializeMap = RecMap;
    type SerializeStruct = RecStruct;
    type SerializeStructVariant = RecStruct;
    rec_scalar!(
        serialize_bool bool, Bool;
        serialize_i8 i8, I8; serialize_i16 i16, I16; serialize_i32 i32, I32; serialize_i64 i64, I64; serialize_i128 i128, I128;
        serialize_u8 u8, U8; serialize_u16 u16, U16; serialize_u32 u32, U32; serialize_u64 u64, U64; serialize_u128 u128, U128;
        serialize_f32 f32, F32; serialize_f64 f64, F64; serialize_char char, Char;
    );
    fn serialize_str(self, v: &str) -> Result<Term, RecErr> {
        Ok(Term::Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Term, RecErr> {
        Ok(Term::Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Term, RecErr> {
        Ok(Term::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Term, RecErr> {
        Ok(Term::Some(Box::new(record(v)?)))
    }
    fn serialize_unit(self) -> Result<Term, RecErr> {
        Ok(Term::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Term, RecErr> {
        Ok(Term::Struct(Content::Unit))
    }
    fn serialize_unit_variant(self, _: &'static str, o: u32, n: &'static str) -> Result<Term, RecErr> {
        Ok(Term::Variant(o, n, Content::Unit))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Term, RecErr> {
        Ok(Term::Struct(Content::Newtype(Box::new(record(v)?))))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, o: u32, n: &'static str, v: &T) -> Result<Term, RecErr> {
        Ok(Term::Variant(o, n, Content::Newtype(Box::new(record(v)?))))
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<RecSeq, RecErr> {
        Ok(RecSeq(RecKind::Seq(l), Vec::new()))
    }
    fn serialize_tuple(self, _: usize) -> Result<RecSeq, RecErr> {
        Ok(RecSeq(RecKind::Tuple, Vec::new()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<RecSeq, RecErr> {
        Ok(RecSeq(RecKind::TupleStruct, Vec::new()))
    }
    fn serialize_tuple_variant(self, _: &'static str, o: u32, n: &'static str, _: usize) -> Result<RecSeq, RecErr> {
        Ok(RecSeq(RecKind::Variant(o, n), Vec::new()))
    }
    fn serialize_map(self, l: Option<usize>) -> Result<RecMap, RecErr> {
        Ok(RecMap(l, Vec::new(), None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<RecStruct, RecErr> {
        Ok(RecStruct(None, Vec::new()))
    }
    fn serialize_struct_variant(self, _: &'static str, o: u32, n: &'static str, _: usize) -> Result<RecStruct, RecErr> {
        Ok(RecStruct(Some((o, n)), Vec::new()))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

// ---- mapping terms to schema values ----

/// How well a term fits a schema.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fit {
    /// by the documented rules
    Documented,
    /// not promised, but the only sensible reading
    Lenient,
}

pub struct Mapper<'a, 's> {
    pub a: &'a Arena<'s>,
    pub fit: Fit,
}

impl<'a, 's> Mapper<'a, 's> {
    pub fn new(a: &'a Arena<'s>) -> Self {
        Mapper { a, fit: Fit::Documented }
    }

    fn seq_like(&mut self, n: usize, hint: Option<usize>, v: &[Term], is_seq: bool) -> Option<Value> {
        let each = |m: &mut Self, c: usize| v.iter().map(|t| m.map(c, t)).collect::<Option<Vec<Value>>>();
        match self.a.nodes[n].kind.clone() {
            Kind::Seq(Some(l), c) => {
                if hint.unwrap_or(l) != l || v.len() != l {
                    return None;
                }
                Some(Value::FixedLenSeq(each(self, c)?))
            }
            Kind::Seq(None, c) => {
                if hint != Some(v.len()) {
                    return None;
                }
                if !is_seq {
                    self.fit = Fit::Lenient;
                }
                Some(Value::VarLenSeq(each(self, c)?))
            }
            Kind::Tuple(cs) => {
                if cs.len() != v.len() {
                    return None;
                }
                if is_seq || (hint.is_some() && hint != Some(v.len())) {
                    self.fit = Fit::Lenient;
                }
                Some(Value::Tuple(cs.iter().zip(v).map(|(c, t)| self.map(*c, t)).collect::<Option<_>>()?))
            }
            Kind::Unit => {
                if !v.is_empty() {
                    return None;
                }
                if is_seq {
                    self.fit = Fit::Lenient;
                }
                Some(Value::Unit)
            }
            _ => None,
        }
    }

    fn content(&mut self, n: usize, c: &Content) -> Option<Value> {
        match c {
            Content::Unit => self.map(n, &Term::Unit),
            Content::Newtype(t) => self.map(n, t),
            Content::Tuple(v) => {
                let n = self.a.resolve(n)?;
                self.seq_like(n, Some(v.len()), v, false)
            }
            Content::Struct(f) => {
                let n = self.a.resolve(n)?;
                match self.a.nodes[n].kind.clone() {
                    Kind::Struct(fs) => {
                        if fs.len() != f.len() {
                            return None;
                        }
                        let mut o = Vec::new();
                        for ((name, c), (tn, t)) in fs.iter().zip(f) {
                            if name != tn {
                                return None;
                            }
                            let value = self.map(*c, t.as_ref().unwrap_or(&Term::None))?;
                            o.push(StructValueField { name: name.to_string(), value });
                        }
                        Some(Value::Struct(o))
                    }
                    _ => None,
                }
            }
        }
    }

    /// The schema value a term denotes, if any.
    pub fn map(&mut self, n: usize, t: &Term) -> Option<Value> {
        let n = self.a.resolve(n)?;
        let kind = self.a.nodes[n].kind.clone();
        match (t, &kind) {
            (Term::Scalar(s), Kind::Scalar(k)) if scalar_type(s) == *k => Some(Value::Scalar(*s)),
            (Term::Str(s), Kind::Str) => Some(Value::Str(s.clone())),
            (Term::Bytes(s), Kind::Bytes) => Some(Value::Bytes(s.clone())),
            (Term::Unit, Kind::Unit) => Some(Value::Unit),
            (Term::None, Kind::Option(_)) => Some(Value::Option(None)),
            (Term::Some(t), Kind::Option(c)) => Some(Value::Option(Some(Box::new(self.map(*c, t)?)))),
            (Term::Seq(h, v), _) => self.seq_like(n, *h, v, true),
            (Term::Tuple(v), _) => self.seq_like(n, Some(v.len()), v, false),
            (Term::Map(h, v), Kind::Seq(None, c)) => {
                if *h != Some(v.len()) {
                    return None;
                }
                let c = self.a.resolve(*c)?;
                let mut o = Vec::new();
                for (k, x) in v {
                    match self.a.nodes[c].kind.clone() {
                        Kind::Tuple(p) if p.len() == 2 => {
                            let k = self.map(p[0], k)?;
                            let x = self.map(p[1], x)?;
                            o.push(Value::Tuple(vec![k, x]));
                        }
                        _ => return None,
                    }
                }
                Some(Value::VarLenSeq(o))
            }
            (Term::Struct(c), _) => self.content(n, c),
            (Term::Variant(ord, name, c), Kind::Enum(vs)) => {
                let (vn, vc) = vs.get(*ord as usize)?;
                if vn != name {
                    return None;
                }
                Some(Value::Enum(EnumValue { variant_ord: *ord as usize, variant_name: vn.to_string(), value: Box::new(self.content(*vc, c)?) }))
            }
            _ => None,
        }
    }
}

// ---- typed deserialization ----

#[derive(Debug, Clone, PartialEq)]
pub enum CShape {
    Unit,
    Newtype(Box<Shape>),
    Tuple(Vec<Shape>),
    Struct(Vec<(&'static str, Shape)>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Shape {
    Scalar(ScalarType),
    Str,
    String,
    Bytes,
    ByteBuf,
    Unit,
    Option(Box<Shape>),
    Seq(Box<Shape>),
    Tuple(Vec<Shape>),
    Map(Box<Shape>, Box<Shape>),
    Struct(CShape),
    Enum(Vec<(&'static str, CShape)>),
    Any,
    Ignored,
}

pub struct Vis<'a>(pub &'a Shape);

impl<'de, 'a> DeserializeSeed<'de> for &'a Shape {
    type Value = Term;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Term, D::Error> {
        match self {
            Shape::Ignored => {
                <de::IgnoredAny as de::Deserialize>::deserialize(d)?;
                Ok(Term::Ignored)
            }
            _ => ask(self, d, Vis(self)),
        }
    }
}

/// Ask for what a type of this shape asks for.
pub fn ask<'de, D: Deserializer<'de>, V: Visitor<'de>>(s: &Shape, d: D, v: V) -> Result<V::Value, D::Error> {
    match s {
        Shape::Scalar(t) => match t {
            ScalarType::U8 => d.deserialize_u8(v),
            ScalarType::U16 => d.deserialize_u16(v),
            ScalarType::U32 => d.deserialize_u32(v),
            ScalarType::U64 => d.deserialize_u64(v),
            ScalarType::U128 => d.deserialize_u128(v),
            ScalarType::I8 => d.deserialize_i8(v),
            ScalarType::I16 => d.deserialize_i16(v),
            ScalarType::I32 => d.deserialize_i32(v),
            ScalarType::I64 => d.deserialize_i64(v),
            ScalarType::I128 => d.deserialize_i128(v),
            ScalarType::F32 => d.deserialize_f32(v),
            ScalarType::F64 => d.deserialize_f64(v),
            ScalarType::Char => d.deserialize_char(v),
            ScalarType::Bool => d.deserialize_bool(v),
        },
        Shape::Str => d.deserialize_str(v),
        Shape::String => d.deserialize_string(v),
        Shape::Bytes => d.deserialize_bytes(v),
        Shape::ByteBuf => d.deserialize_byte_buf(v),
        Shape::Unit => d.deserialize_unit(v),
        Shape::Option(_) => d.deserialize_option(v),
        Shape::Seq(_) => d.deserialize_seq(v),
        Shape::Tuple(t) => d.deserialize_tuple(t.len(), v),
        Shape::Map(..) => d.deserialize_map(v),
        Shape::Struct(c) => match c {
            CShape::Unit => d.deserialize_unit_struct("N", v),
            CShape::Newtype(_) => d.deserialize_newtype_struct("N", v),
            CShape::Tuple(t) => d.deserialize_tuple_struct("N", t.len(), v),
            CShape::Struct(f) => {
                let names: Vec<&'static str> = f.iter().map(|x| x.0).collect();
                d.deserialize_struct("N", intern_list(&names), v)
            }
        },
        Shape::Enum(vs) => {
            let names: Vec<&'static str> = vs.iter().map(|x| x.0).collect();
            d.deserialize_enum("E", intern_list(&names), v)
        }
        Shape::Any => d.deserialize_any(v),
        Shape::Ignored => d.deserialize_ignored_any(v),
    }
}

impl<'a> Vis<'a> {
    fn is_any(&self) -> bool {
        matches!(self.0, Shape::Any)
    }
    fn scalar<E: de::Error>(&self, s: ScalarValue) -> Result<Term, E> {
        match self.0 {
            Shape::Any => Ok(Term::Scalar(s)),
            Shape::Scalar(t) if *t == scalar_type(&s) => Ok(Term::Scalar(s)),
            _ => Err(E::custom("visited with another scalar type")),
        }
    }
}

thread_local! {
    /// Whether tuple types make do with fewer elements than they have, as with defaults for the last.
    pub static DEFAULTS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Reads a whole tuple form the way derived visitors do: exactly as many elements as it has.
fn tuple_of<'de, A: SeqAccess<'de>>(mut a: A, t: &[Shape]) -> Result<Vec<Term>, A::Error> {
    let mut o = Vec::new();
    for (i, s) in t.iter().enumerate() {
        match a.next_element_seed(s)? {
            Some(x) => o.push(x),
            None if DEFAULTS.get() => break,
            None => return Err(de::Error::invalid_length(i, &"more elements")),
        }
    }
    Ok(o)
}

pub struct Ident;
impl<'de> DeserializeSeed<'de> for Ident {
    type Value = Result<u64, String>;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Self::Value, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'de> Visitor<'de> for Ident {
    type Value = Result<u64, String>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("identifier")
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
        Ok(Ok(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Self::Value, E> {
        Ok(Err(v.into()))
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Self::Value, E> {
        Ok(Err(String::from_utf8_lossy(v).into_owned()))
    }
}

/// Reads a struct the way derived visitors do.
fn fields_of<'de, A: MapAccess<'de>>(mut a: A, f: &[(&'static str, Shape)]) -> Result<Vec<(&'static str, Option<Term>)>, A::Error> {
    let mut got: Vec<Option<Term>> = vec![None; f.len()];
    while let Some(k) = a.next_key_seed(Ident)? {
        let i = match k {
            Ok(i) => Some(i as usize),
            Err(name) => f.iter().position(|x| x.0 == name),
        };
        match i {
            Some(i) if i < f.len() => {
                if got[i].is_some() {
                    return Err(de::Error::duplicate_field(f[i].0));
                }
                got[i] = Some(a.next_value_seed(&f[i].1)?);
            }
            _ => {
                a.next_value::<de::IgnoredAny>()?;
            }
        }
    }
    f.iter()
        .zip(got)
        .map(|(x, g)| match g {
            Some(t) => Ok((x.0, Some(t))),
            None => Err(de::Error::missing_field(x.0)),
        })
        .collect()
}

macro_rules! vis_scalar {
    ($($m:ident $t:ty, $v:ident;)*) => {$(
        fn $m<E: de::Error>(self, v: $t) -> Result<Term, E> { self.scalar(ScalarValue::$v(v)) }
    )*};
}

impl<'de, 'a> Visitor<'de> for Vis<'a> {
    type Value = Term;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    vis_scalar!(
        visit_bool bool, Bool;
        visit_i8 i8, I8; visit_i16 i16, I16; visit_i32 i32, I32; visit_i64 i64, I64; visit_i128 i128, I128;
        visit_u8 u8, U8; visit_u16 u16, U16; visit_u32 u32, U32; visit_u64 u64, U64; visit_u128 u128, U128;
        visit_f32 f32, F32; visit_f64 f64, F64; visit_char char, Char;
    );
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Term, E> {
        match self.0 {
            Shape::Str | Shape::String | Shape::Any => Ok(Term::Str(v.into())),
            _ => Err(E::custom("visited with str")),
        }
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Term, E> {
        match self.0 {
            Shape::Bytes | Shape::ByteBuf | Shape::Any => Ok(Term::Bytes(v.into())),
            _ => Err(E::custom("visited with bytes")),
        }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Term, E> {
        match self.0 {
            Shape::Unit | Shape::Any => Ok(Term::Unit),
            Shape::Struct(CShape::Unit) => Ok(Term::Struct(Content::Unit)),
            _ => Err(E::custom("visited with unit")),
        }
    }
    fn visit_none<E: de::Error>(self) -> Result<Term, E> {
        match self.0 {
            Shape::Option(_) | Shape::Any => Ok(Term::None),
            _ => Err(E::custom("visited with none")),
        }
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Term, D::Error> {
        match self.0 {
            Shape::Option(s) => Ok(Term::Some(Box::new((&**s).deserialize(d)?))),
            Shape::Any => Ok(Term::Some(Box::new((&Shape::Any).deserialize(d)?))),
            _ => Err(de::Error::custom("visited with some")),
        }
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Term, D::Error> {
        match self.0 {
            Shape::Struct(CShape::Newtype(s)) => Ok(Term::Struct(Content::Newtype(Box::new((&**s).deserialize(d)?)))),
            _ => Err(de::Error::custom("visited with newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Term, A::Error> {
        match self.0 {
            Shape::Seq(s) => {
                let mut o = Vec::new();
                while let Some(x) = a.next_element_seed(&**s)? {
                    o.push(x);
                }
                Ok(Term::Seq(Some(o.len()), o))
            }
            Shape::Any => {
                let mut o = Vec::new();
                while let Some(x) = a.next_element_seed(&Shape::Any)? {
                    o.push(x);
                }
                Ok(Term::Seq(Some(o.len()), o))
            }
            Shape::Tuple(t) => Ok(Term::Tuple(tuple_of(a, t)?)),
            Shape::Struct(CShape::Tuple(t)) => Ok(Term::Struct(Content::Tuple(tuple_of(a, t)?))),
            _ => Err(de::Error::custom("visited with seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Term, A::Error> {
        match self.0 {
            Shape::Map(k, v) => {
                let mut o = Vec::new();
                while let Some(x) = a.next_key_seed(&**k)? {
                    let y = a.next_value_seed(&**v)?;
                    o.push((x, y));
                }
                Ok(Term::Map(Some(o.len()), o))
            }
            Shape::Any => {
                let mut o = Vec::new();
                while let Some(x) = a.next_key_seed(&Shape::Any)? {
                    let y = a.next_value_seed(&Shape::Any)?;
                    o.push((x, y));
                }
                Ok(Term::Map(Some(o.len()), o))
            }
            Shape::Struct(CShape::Struct(f)) => Ok(Term::Struct(Content::Struct(fields_of(a, f)?))),
            _ => Err(de::Error::custom("visited with map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Term, A::Error> {
        let (id, acc) = a.variant_seed(Ident)?;
        if self.is_any() {
            let ord = match id {
                Ok(n) => n as u32,
                Err(s) => return Err(de::Error::custom(format!("variant given by name {:?}", s))),
            };
            let t = acc.newtype_variant_seed(&Shape::Any)?;
            return Ok(Term::Variant(ord, "", Content::Newtype(Box::new(t))));
        }
        let vs = match self.0 {
            Shape::Enum(vs) => vs,
            _ => return Err(de::Error::custom("visited with enum")),
        };
        let i = match id {
            Ok(n) => n as usize,
            Err(s) => vs.iter().position(|x| x.0 == s).unwrap_or(usize::MAX),
        };
        let (name, c) = match vs.get(i) {
            Some(x) => x,
            None => return Err(de::Error::custom("unknown variant")),
        };
        let content = match c {
            CShape::Unit => {
                acc.unit_variant()?;
                Content::Unit
            }
            CShape::Newtype(s) => Content::Newtype(Box::new(acc.newtype_variant_seed(&**s)?)),
            CShape::Tuple(t) => match acc.tuple_variant(t.len(), Vis(&Shape::Tuple(t.clone())))? {
                Term::Tuple(v) => Content::Tuple(v),
                _ => unreachable!(),
            },
            CShape::Struct(f) => {
                let names: Vec<&'static str> = f.iter().map(|x| x.0).collect();
                match acc.struct_variant(intern_list(&names), Vis(&Shape::Struct(CShape::Struct(f.clone()))))? {
                    Term::Struct(c) => c,
                    _ => unreachable!(),
                }
            }
        };
        Ok(Term::Variant(i as u32, name, content))
    }
}

/// What reading `v` (a value of node `n`) in self-describing mode yields.
pub fn any_term(_: &Arena, v: &Value) -> Term {
    plain_term(v)
}
fn plain_term(v: &Value) -> Term {
    match v {
        Value::Scalar(s) => Term::Scalar(*s),
        Value::Str(s) => Term::Str(s.clone()),
        Value::Bytes(s) => Term::Bytes(s.clone()),
        Value::Unit => Term::Unit,
        Value::Option(None) => Term::None,
        Value::Option(Some(x)) => Term::Some(Box::new(plain_term(x))),
        Value::FixedLenSeq(e) | Value::VarLenSeq(e) | Value::Tuple(e) => Term::Seq(Some(e.len()), e.iter().map(|x| plain_term(x)).collect()),
        Value::Struct(f) => Term::Map(Some(f.len()), f.iter().map(|x| (Term::Str(x.name.clone()), plain_term(&x.value))).collect()),
        Value::Enum(e) => Term::Variant(e.variant_ord as u32, "", Content::Newtype(Box::new(plain_term(&e.value)))),
    }
}

/// What a typed read of `v` under this shape yields, when the shape fits the schema value by the
/// documented rules; `None`: it does not fit.
pub fn typed_term(v: &Value, s: &Shape) -> Option<Term> {
    fn list(e: &[Value], t: &[Shape]) -> Option<Vec<Term>> {
        if e.len() != t.len() {
            return None;
        }
        e.iter().zip(t).map(|(v, s)| typed_term(v, s)).collect()
    }
    fn content(v: &Value, c: &CShape) -> Option<Content> {
        Some(match (v, c) {
            (Value::Unit, CShape::Unit) => Content::Unit,
            (v, CShape::Newtype(s)) => Content::Newtype(Box::new(typed_term(v, s)?)),
            (Value::Tuple(e) | Value::FixedLenSeq(e) | Value::VarLenSeq(e), CShape::Tuple(t)) => Content::Tuple(list(e, t)?),
            (Value::Unit, CShape::Tuple(t)) if t.is_empty() => Content::Tuple(vec![]),
            (Value::Struct(f), CShape::Struct(fs)) => {
                if f.len() != fs.len() {
                    return None;
                }
                Content::Struct(
                    f.iter()
                        .zip(fs)
                        .map(|(v, (n, s))| if v.name == *n { Some((*n, Some(typed_term(&v.value, s)?))) } else { None })
                        .collect::<Option<_>>()?,
                )
            }
            _ => return None,
        })
    }
    Some(match (v, s) {
        (_, Shape::Ignored) => Term::Ignored,
        (v, Shape::Any) => plain_term(v),
        (Value::Scalar(x), Shape::Scalar(t)) if scalar_type(x) == *t => Term::Scalar(*x),
        (Value::Str(x), Shape::Str | Shape::String) => Term::Str(x.clone()),
        (Value::Bytes(x), Shape::Bytes | Shape::ByteBuf) => Term::Bytes(x.clone()),
        (Value::Unit, Shape::Unit) => Term::Unit,
        (Value::Option(None), Shape::Option(_)) => Term::None,
        (Value::Option(Some(x)), Shape::Option(s)) => Term::Some(Box::new(typed_term(x, s)?)),
        (Value::FixedLenSeq(e) | Value::VarLenSeq(e) | Value::Tuple(e), Shape::Seq(s)) => {
            Term::Seq(Some(e.len()), e.iter().map(|v| typed_term(v, s)).collect::<Option<_>>()?)
        }
        (Value::Unit, Shape::Seq(_)) => Term::Seq(Some(0), vec![]),
        (Value::FixedLenSeq(e) | Value::VarLenSeq(e) | Value::Tuple(e), Shape::Tuple(t)) => Term::Tuple(list(e, t)?),
        (Value::Unit, Shape::Tuple(t)) if t.is_empty() => Term::Tuple(vec![]),
        (Value::VarLenSeq(e), Shape::Map(k, x)) => Term::Map(
            Some(e.len()),
            e.iter()
                .map(|p| match p {
                    Value::Tuple(p) if p.len() == 2 => Some((typed_term(&p[0], k)?, typed_term(&p[1], x)?)),
                    _ => None,
                })
                .collect::<Option<_>>()?,
        ),
        (v, Shape::Struct(c)) => Term::Struct(content(v, c)?),
        (Value::Enum(e), Shape::Enum(vs)) => {
            let (n, c) = vs.get(e.variant_ord)?;
            if *n != e.variant_name {
                return None;
            }
            Term::Variant(e.variant_ord as u32, n, content(&e.value, c)?)
        }
        _ => return None,
    })
}

/// A shape that reads what a term serializes to.
pub fn shape_of(t: &Term) -> Shape {
    fn content(c: &Content) -> CShape {
        match c {
            Content::Unit => CShape::Unit,
            Content::Newtype(t) => CShape::Newtype(Box::new(shape_of(t))),
            Content::Tuple(v) => CShape::Tuple(v.iter().map(shape_of).collect()),
            Content::Struct(f) => {
                CShape::Struct(f.iter().map(|(n, t)| (*n, t.as_ref().map_or(Shape::Option(Box::new(Shape::Unit)), shape_of))).collect())
            }
        }
    }
    match t {
        Term::Scalar(s) => Shape::Scalar(scalar_type(s)),
        Term::Str(_) => Shape::String,
        Term::Bytes(_) => Shape::ByteBuf,
        Term::Unit => Shape::Unit,
        Term::None => Shape::Option(Box::new(Shape::Unit)),
        Term::Some(t) => Shape::Option(Box::new(shape_of(t))),
        Term::Seq(_, v) => Shape::Seq(Box::new(v.first().map_or(Shape::Unit, shape_of))),
        Term::Tuple(v) => Shape::Tuple(v.iter().map(shape_of).collect()),
        Term::Map(_, v) => {
            let (k, x) = v.first().map_or((Shape::Unit, Shape::Unit), |(k, x)| (shape_of(k), shape_of(x)));
            Shape::Map(Box::new(k), Box::new(x))
        }
        Term::Struct(c) => Shape::Struct(content(c)),
        Term::Variant(o, n, c) => {
            let mut vs: Vec<(&'static str, CShape)> = (0..*o).map(|i| (intern(&format!("other{}", i)), CShape::Unit)).collect();
            vs.push((n, content(c)));
            Shape::Enum(vs)
        }
        Term::Ignored => Shape::Ignored,
    }
}
