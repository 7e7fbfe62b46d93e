//! Reference state machine of the coders, and drivers for the real ones.
use crate::{
    gen::scalar_menu,
    io::{Fault, FeedR},
    refm::{self, Arena, Cur, Kind, RErr},
    text::{hex, parse_value, scalar_type, unhex, value_text, SCALARS},
};
use binschema::{
    error::{Error, ErrorKind},
    value::{ScalarValue, Value},
    CoderState, CoderStateAlloc, Decoder, Encoder, ScalarType, Schema,
};
use std::io::{Read, Write};

// ---- operations ----

#[derive(Debug, Clone, PartialEq)]
pub enum EncOp {
    Scalar(ScalarValue),
    Str(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some,
    Fixed(usize),
    Var(usize),
    Elem,
    FinSeq,
    Tuple,
    TElem,
    FinTuple,
    Struct,
    Field(String),
    FinStruct,
    Enum(usize, String),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum D {
    Scalar(ScalarType),
    Str,
    StrInto,
    Bytes,
    BytesInto,
    Unit,
    Option,
    Var,
    Elem,
    FinSeq,
    Tuple,
    TElem,
    FinTuple,
    Struct,
    FinStruct,
    Enum,
}

#[derive(Debug, Clone, PartialEq)]
pub enum DecCall {
    Plain(D),
    Fixed(usize),
    Field(String),
    Variant(String),
}

/// A decoder call together with the bytes the source holds when it is made.
#[derive(Debug, Clone, PartialEq)]
pub struct DecOp {
    pub call: DecCall,
    pub feed: Vec<u8>,
    /// after `feed`: the source fails like this (else it has unlimited 0xEE bytes)
    pub then: Option<Fault>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Ret {
    None,
    Value(Value),
    Some(bool),
    Num(usize),
}

pub fn same_ret(a: &Ret, b: &Ret) -> bool {
    match (a, b) {
        (Ret::Value(x), Ret::Value(y)) => refm::same(x, y),
        (a, b) => a == b,
    }
}

fn h(s: &str) -> String {
    hex(s.as_bytes())
}
fn uh(s: &str) -> String {
    String::from_utf8(unhex(s)).unwrap()
}

impl EncOp {
    pub fn text(&self) -> String {
        match self {
            EncOp::Scalar(s) => format!("put|{}", value_text(&Value::Scalar(*s))),
            EncOp::Str(s) => format!("str|{}", h(s)),
            EncOp::Bytes(s) => format!("bytes|{}", hex(s)),
            EncOp::Unit => "unit".into(),
            EncOp::None => "none".into(),
            EncOp::Some => "some".into(),
            EncOp::Fixed(n) => format!("fixed|{}", n),
            EncOp::Var(n) => format!("var|{}", n),
            EncOp::Elem => "elem".into(),
            EncOp::FinSeq => "finseq".into(),
            EncOp::Tuple => "tuple".into(),
            EncOp::TElem => "telem".into(),
            EncOp::FinTuple => "fintuple".into(),
            EncOp::Struct => "struct".into(),
            EncOp::Field(s) => format!("field|{}", h(s)),
            EncOp::FinStruct => "finstruct".into(),
            EncOp::Enum(n, s) => format!("enum|{}|{}", n, h(s)),
        }
    }
    pub fn parse(s: &str) -> EncOp {
        let p: Vec<&str> = s.trim().split('|').collect();
        match p[0] {
            "put" => match parse_value(p[1]) {
                Value::Scalar(s) => EncOp::Scalar(s),
                _ => panic!(),
            },
            "str" => EncOp::Str(uh(p[1])),
            "bytes" => EncOp::Bytes(unhex(p[1])),
            "unit" => EncOp::Unit,
            "none" => EncOp::None,
            "some" => EncOp::Some,
            "fixed" => EncOp::Fixed(p[1].parse().unwrap()),
            "var" => EncOp::Var(p[1].parse().unwrap()),
            "elem" => EncOp::Elem,
            "finseq" => EncOp::FinSeq,
            "tuple" => EncOp::Tuple,
            "telem" => EncOp::TElem,
            "fintuple" => EncOp::FinTuple,
            "struct" => EncOp::Struct,
            "field" => EncOp::Field(uh(p[1])),
            "finstruct" => EncOp::FinStruct,
            "enum" => EncOp::Enum(p[1].parse().unwrap(), uh(p[2])),
            x => panic!("bad op {}", x),
        }
    }
    pub fn starts_value(&self) -> bool {
        !matches!(self, EncOp::Elem | EncOp::FinSeq | EncOp::TElem | EncOp::FinTuple | EncOp::Field(_) | EncOp::FinStruct)
    }
}

const PLAIN: [(D, &str); 15] = [
    (D::Str, "str"),
    (D::StrInto, "strinto"),
    (D::Bytes, "bytes"),
    (D::BytesInto, "bytesinto"),
    (D::Unit, "unit"),
    (D::Option, "option"),
    (D::Var, "var"),
    (D::Elem, "elem"),
    (D::FinSeq, "finseq"),
    (D::Tuple, "tuple"),
    (D::TElem, "telem"),
    (D::FinTuple, "fintuple"),
    (D::Struct, "struct"),
    (D::FinStruct, "finstruct"),
    (D::Enum, "enum"),
];

impl DecOp {
    pub fn new(call: DecCall, feed: Vec<u8>) -> Self {
        DecOp { call, feed, then: None }
    }
    pub fn text(&self) -> String {
        let c = match &self.call {
            DecCall::Plain(D::Scalar(t)) => format!("get|{}", crate::text::scalar_name(*t)),
            DecCall::Plain(d) => PLAIN.iter().find(|x| x.0 == *d).unwrap().1.to_string(),
            DecCall::Fixed(n) => format!("fixed|{}", n),
            DecCall::Field(s) => format!("field|{}", h(s)),
            DecCall::Variant(s) => format!("variant|{}", h(s)),
        };
        format!("{}@{}@{}", c, hex(&self.feed), self.then.map(|f| f.name()).unwrap_or_default())
    }
    pub fn parse(s: &str) -> DecOp {
        let p: Vec<&str> = s.trim().split('@').collect();
        let c: Vec<&str> = p[0].split('|').collect();
        let call = match c[0] {
            "get" => DecCall::Plain(D::Scalar(SCALARS.iter().find(|x| x.1 == c[1]).unwrap().0)),
            "fixed" => DecCall::Fixed(c[1].parse().unwrap()),
            "field" => DecCall::Field(uh(c[1])),
            "variant" => DecCall::Variant(uh(c[1])),
            x => DecCall::Plain(PLAIN.iter().find(|y| y.1 == x).unwrap().0),
        };
        DecOp { call, feed: unhex(p[1]), then: if p[2].is_empty() { None } else { Some(Fault::parse(p[2])) } }
    }
}

pub fn ops_text<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    v.iter().map(f).collect::<Vec<_>>().join(" ; ")
}
pub fn parse_ops<T>(s: &str, f: impl Fn(&str) -> T) -> Vec<T> {
    s.split(';').filter(|x| !x.trim().is_empty()).map(|x| f(x)).collect()
}

// ---- drivers for the real coders ----

pub fn enc_call<W: Write>(e: &mut Encoder<W>, op: &EncOp) -> Result<(), Error> {
    match op {
        EncOp::Scalar(s) => match *s {
            ScalarValue::U8(n) => e.encode_u8(n),
            ScalarValue::U16(n) => e.encode_u16(n),
            ScalarValue::U32(n) => e.encode_u32(n),
            ScalarValue::U64(n) => e.encode_u64(n),
            ScalarValue::U128(n) => e.encode_u128(n),
            ScalarValue::I8(n) => e.encode_i8(n),
            ScalarValue::I16(n) => e.encode_i16(n),
            ScalarValue::I32(n) => e.encode_i32(n),
            ScalarValue::I64(n) => e.encode_i64(n),
            ScalarValue::I128(n) => e.encode_i128(n),
            ScalarValue::F32(n) => e.encode_f32(n),
            ScalarValue::F64(n) => e.encode_f64(n),
            ScalarValue::Char(n) => e.encode_char(n),
            ScalarValue::Bool(n) => e.encode_bool(n),
        },
        EncOp::Str(s) => e.encode_str(s),
        EncOp::Bytes(s) => e.encode_bytes(s),
        EncOp::Unit => e.encode_unit(),
        EncOp::None => e.encode_none(),
        EncOp::Some => e.begin_some(),
        EncOp::Fixed(n) => e.begin_fixed_len_seq(*n),
        EncOp::Var(n) => e.begin_var_len_seq(*n),
        EncOp::Elem => e.begin_seq_elem(),
        EncOp::FinSeq => e.finish_seq(),
        EncOp::Tuple => e.begin_tuple(),
        EncOp::TElem => e.begin_tuple_elem(),
        EncOp::FinTuple => e.finish_tuple(),
        EncOp::Struct => e.begin_struct(),
        EncOp::Field(n) => e.begin_struct_field(n),
        EncOp::FinStruct => e.finish_struct(),
        EncOp::Enum(o, n) => e.begin_enum(*o, n),
    }
}

pub fn dec_call<R: Read>(d: &mut Decoder<R>, call: &DecCall) -> Result<Ret, Error> {
    fn sv(v: ScalarValue) -> Ret {
        Ret::Value(Value::Scalar(v))
    }
    Ok(match call {
        DecCall::Plain(x) => match x {
            D::Scalar(t) => match t {
                ScalarType::U8 => sv(ScalarValue::U8(d.decode_u8()?)),
                ScalarType::U16 => sv(ScalarValue::U16(d.decode_u16()?)),
                ScalarType::U32 => sv(ScalarValue::U32(d.decode_u32()?)),
                ScalarType::U64 => sv(ScalarValue::U64(d.decode_u64()?)),
                ScalarType::U128 => sv(ScalarValue::U128(d.decode_u128()?)),
                ScalarType::I8 => sv(ScalarValue::I8(d.decode_i8()?)),
                ScalarType::I16 => sv(ScalarValue::I16(d.decode_i16()?)),
                ScalarType::I32 => sv(ScalarValue::I32(d.decode_i32()?)),
                ScalarType::I64 => sv(ScalarValue::I64(d.decode_i64()?)),
                ScalarType::I128 => sv(ScalarValue::I128(d.decode_i128()?)),
                ScalarType::F32 => sv(ScalarValue::F32(d.decode_f32()?)),
                ScalarType::F64 => sv(ScalarValue::F64(d.decode_f64()?)),
                ScalarType::Char => sv(ScalarValue::Char(d.decode_char()?)),
                ScalarType::Bool => sv(ScalarValue::Bool(d.decode_bool()?)),
            },
            D::Str => Ret::Value(Value::Str(d.decode_str()?)),
            D::StrInto => {
                let mut b = String::from("prefilled ß");
                d.decode_str_into(&mut b)?;
                Ret::Value(Value::Str(b))
            }
            D::Bytes => Ret::Value(Value::Bytes(d.decode_bytes()?)),
            D::BytesInto => {
                let mut b = vec![9u8; 13];
                d.decode_bytes_into(&mut b)?;
                Ret::Value(Value::Bytes(b))
            }
            D::Unit => {
                d.decode_unit()?;
                Ret::None
            }
            D::Option => Ret::Some(d.begin_option()?),
            D::Var => Ret::Num(d.begin_var_len_seq()?),
            D::Elem => {
                d.begin_seq_elem()?;
                Ret::None
            }
            D::FinSeq => {
                d.finish_seq()?;
                Ret::None
            }
            D::Tuple => {
                d.begin_tuple()?;
                Ret::None
            }
            D::TElem => {
                d.begin_tuple_elem()?;
                Ret::None
            }
            D::FinTuple => {
                d.finish_tuple()?;
                Ret::None
            }
            D::Struct => {
                d.begin_struct()?;
                Ret::None
            }
            D::FinStruct => {
                d.finish_struct()?;
                Ret::None
            }
            D::Enum => Ret::Num(d.begin_enum()?),
        },
        DecCall::Fixed(n) => {
            d.begin_fixed_len_seq(*n)?;
            Ret::None
        }
        DecCall::Field(n) => {
            d.begin_struct_field(n)?;
            Ret::None
        }
        DecCall::Variant(n) => {
            d.begin_enum_variant(n)?;
            Ret::None
        }
    })
}

// ---- model ----

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Api {
    Need,
    Auto,
    Seq { len: usize, next: usize },
    Tuple { next: usize },
    Struct { next: usize },
    /// ordinal read, name not given yet (decoder only)
    EnumName { ord: usize },
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MState {
    pub stack: Vec<(usize, Api)>,
    pub broken: bool,
}

#[derive(Debug, Clone)]
pub enum Expect {
    /// bytes written (encoder) or consumed (decoder), and the returned value
    Accept { moved: Vec<u8>, ret: Ret },
    Reject(&'static [ErrorKind]),
    /// breaks the coder
    Fatal(&'static [ErrorKind]),
    /// outside what the model decides
    Unspecified,
}

const API: &[ErrorKind] = &[ErrorKind::ApiUsage];
const SNC: &[ErrorKind] = &[ErrorKind::SchemaNonConformance];
const EITHER: &[ErrorKind] = &[ErrorKind::ApiUsage, ErrorKind::SchemaNonConformance];
pub const ILLEGAL: &[ErrorKind] = &[ErrorKind::IllegalSchema];
const MAL: &[ErrorKind] = &[ErrorKind::MalformedData];
const IO: &[ErrorKind] = &[ErrorKind::Io];
const EOF: &[ErrorKind] = &[ErrorKind::Io, ErrorKind::MalformedData, ErrorKind::PlatformLimits];
const LIMITS: &[ErrorKind] = &[ErrorKind::PlatformLimits, ErrorKind::MalformedData];

impl MState {
    pub fn new(a: &Arena) -> Self {
        MState { stack: vec![(a.resolve(0).unwrap_or(0), Api::Need)], broken: false }
    }
    pub fn finished(&self) -> bool {
        self.stack.is_empty() && !self.broken
    }
    /// The node due, when a value is due.
    pub fn need(&self) -> Option<usize> {
        match self.stack.last() {
            Some(&(n, Api::Need)) => Some(n),
            _ => None,
        }
    }
    fn pop(&mut self) {
        self.stack.pop();
        while matches!(self.stack.last(), Some((_, Api::Auto))) {
            self.stack.pop();
        }
    }
    fn push(&mut self, a: &Arena, child: usize) -> bool {
        match a.resolve(child) {
            Some(n) => {
                self.stack.push((n, Api::Need));
                true
            }
            None => {
                self.broken = true;
                false
            }
        }
    }
    fn set(&mut self, api: Api) {
        self.stack.last_mut().unwrap().1 = api;
    }

    /// Rejections common to both directions; `None` = a value is due and the call starts a value.
    fn pre(&self, a: &Arena, starts: bool) -> Option<Expect> {
        if self.broken || self.stack.is_empty() {
            return Some(Expect::Reject(API));
        }
        let (n, api) = *self.stack.last().unwrap();
        if matches!(a.nodes[n].kind, Kind::Recurse(_)) {
            // only at the root: an illegal root schema
            return Some(if starts { Expect::Fatal(ILLEGAL) } else { Expect::Unspecified });
        }
        match (api, starts) {
            (Api::Need, false) => Some(Expect::Reject(EITHER)),
            (Api::Need, true) => None,
            (_, true) => Some(Expect::Reject(API)),
            (_, false) => None,
        }
    }

    fn accept(moved: Vec<u8>) -> Expect {
        Expect::Accept { moved, ret: Ret::None }
    }

    fn elem(&mut self, a: &Arena) -> Expect {
        let (n, api) = *self.stack.last().unwrap();
        match (api, &a.nodes[n].kind) {
            (Api::Seq { len, next }, Kind::Seq(_, c)) if next < len => {
                self.set(Api::Seq { len, next: next + 1 });
                if self.push(a, *c) { Self::accept(vec![]) } else { Expect::Fatal(ILLEGAL) }
            }
            _ => Expect::Reject(EITHER),
        }
    }
    fn telem(&mut self, a: &Arena) -> Expect {
        let (n, api) = *self.stack.last().unwrap();
        match (api, &a.nodes[n].kind) {
            (Api::Tuple { next }, Kind::Tuple(c)) if next < c.len() => {
                self.set(Api::Tuple { next: next + 1 });
                if self.push(a, c[next]) { Self::accept(vec![]) } else { Expect::Fatal(ILLEGAL) }
            }
            _ => Expect::Reject(EITHER),
        }
    }
    fn field(&mut self, a: &Arena, name: &str) -> Expect {
        let (n, api) = *self.stack.last().unwrap();
        match (api, &a.nodes[n].kind) {
            (Api::Struct { next }, Kind::Struct(c)) if next < c.len() => {
                if c[next].0 != name {
                    return Expect::Reject(SNC);
                }
                let child = c[next].1;
                self.set(Api::Struct { next: next + 1 });
                if self.push(a, child) { Self::accept(vec![]) } else { Expect::Fatal(ILLEGAL) }
            }
            _ => Expect::Reject(EITHER),
        }
    }
    fn fin(&mut self, a: &Arena, which: u8) -> Expect {
        let (n, api) = *self.stack.last().unwrap();
        let ok = match (which, api, &a.nodes[n].kind) {
            (0, Api::Seq { len, next }, _) => len == next,
            (1, Api::Tuple { next }, Kind::Tuple(c)) => next == c.len(),
            (2, Api::Struct { next }, Kind::Struct(c)) => next == c.len(),
            _ => false,
        };
        if ok {
            self.pop();
            Self::accept(vec![])
        } else {
            Expect::Reject(EITHER)
        }
    }

    pub fn enc(&mut self, a: &Arena, op: &EncOp) -> Expect {
        if let Some(e) = self.pre(a, op.starts_value()) {
            if matches!(e, Expect::Fatal(_)) {
                self.broken = true;
            }
            return e;
        }
        match op {
            EncOp::Elem => return self.elem(a),
            EncOp::TElem => return self.telem(a),
            EncOp::Field(n) => return self.field(a, n),
            EncOp::FinSeq => return self.fin(a, 0),
            EncOp::FinTuple => return self.fin(a, 1),
            EncOp::FinStruct => return self.fin(a, 2),
            _ => {}
        }
        let n = self.stack.last().unwrap().0;
        match (op, &a.nodes[n].kind) {
            (EncOp::Scalar(s), Kind::Scalar(t)) if scalar_type(s) == *t => {
                let mut o = Vec::new();
                refm::scalar_bytes(s, &mut o);
                self.pop();
                Self::accept(o)
            }
            (EncOp::Str(s), Kind::Str) => {
                let mut o = refm::uint(s.len() as u128);
                o.extend_from_slice(s.as_bytes());
                self.pop();
                Self::accept(o)
            }
            (EncOp::Bytes(s), Kind::Bytes) => {
                let mut o = refm::uint(s.len() as u128);
                o.extend_from_slice(s);
                self.pop();
                Self::accept(o)
            }
            (EncOp::Unit, Kind::Unit) => {
                self.pop();
                Self::accept(vec![])
            }
            (EncOp::None, Kind::Option(_)) => {
                self.pop();
                Self::accept(vec![0])
            }
            (EncOp::Some, Kind::Option(c)) => {
                self.set(Api::Auto);
                if self.push(a, *c) { Self::accept(vec![1]) } else { Expect::Fatal(ILLEGAL) }
            }
            (EncOp::Fixed(l), Kind::Seq(Some(want), _)) if l == want => {
                self.set(Api::Seq { len: *l, next: 0 });
                Self::accept(vec![])
            }
            (EncOp::Var(l), Kind::Seq(None, _)) => {
                self.set(Api::Seq { len: *l, next: 0 });
                Self::accept(refm::uint(*l as u128))
            }
            (EncOp::Tuple, Kind::Tuple(_)) => {
                self.set(Api::Tuple { next: 0 });
                Self::accept(vec![])
            }
            (EncOp::Struct, Kind::Struct(_)) => {
                self.set(Api::Struct { next: 0 });
                Self::accept(vec![])
            }
            (EncOp::Enum(ord, name), Kind::Enum(v)) => {
                if *ord >= v.len() || v[*ord].0 != name {
                    return Expect::Reject(SNC);
                }
                let w = refm::ord_width(v.len());
                let o = (0..w).map(|i| (*ord as u64 >> (8 * i)) as u8).collect();
                self.set(Api::Auto);
                if self.push(a, v[*ord].1) { Self::accept(o) } else { Expect::Fatal(ILLEGAL) }
            }
            _ => Expect::Reject(SNC),
        }
    }

    /// `feed`/`then`: what the source holds.
    pub fn dec(&mut self, a: &Arena, op: &DecOp) -> Expect {
        let starts = !matches!(
            op.call,
            DecCall::Plain(D::Elem | D::FinSeq | D::TElem | D::FinTuple | D::FinStruct) | DecCall::Field(_) | DecCall::Variant(_)
        );
        if let Some(e) = self.pre(a, starts) {
            if matches!(e, Expect::Fatal(_)) {
                self.broken = true;
            }
            return e;
        }
        match &op.call {
            DecCall::Plain(D::Elem) => return self.elem(a),
            DecCall::Plain(D::TElem) => return self.telem(a),
            DecCall::Field(n) => return self.field(a, n),
            DecCall::Plain(D::FinSeq) => return self.fin(a, 0),
            DecCall::Plain(D::FinTuple) => return self.fin(a, 1),
            DecCall::Plain(D::FinStruct) => return self.fin(a, 2),
            DecCall::Variant(name) => {
                let (n, api) = *self.stack.last().unwrap();
                return match (api, &a.nodes[n].kind) {
                    (Api::EnumName { ord }, Kind::Enum(v)) => {
                        if v[ord].0 != name {
                            return Expect::Reject(SNC);
                        }
                        self.set(Api::Auto);
                        if self.push(a, v[ord].1) { Self::accept(vec![]) } else { Expect::Fatal(ILLEGAL) }
                    }
                    _ => Expect::Reject(EITHER),
                };
            }
            _ => {}
        }
        let n = self.stack.last().unwrap().0;
        // bytes available: the feed, then 0xEE forever or a failure
        let mut data = op.feed.clone();
        if op.then.is_none() {
            data.extend_from_slice(&[0xee; 64]);
        }
        let mut c = Cur::new(&data);
        let r: Result<(Ret, Option<Api>, Option<usize>), RErr> = (|| {
            Ok(match (&op.call, &a.nodes[n].kind) {
                (DecCall::Plain(D::Scalar(t)), Kind::Scalar(u)) if t == u => {
                    (Ret::Value(Value::Scalar(refm::read_scalar(*t, &mut c)?)), None, None)
                }
                (DecCall::Plain(D::Str | D::StrInto), Kind::Str) | (DecCall::Plain(D::Bytes | D::BytesInto), Kind::Bytes) => {
                    (Ret::Value(refm::decode(a, n, &mut c)?), None, None)
                }
                (DecCall::Plain(D::Unit), Kind::Unit) => (Ret::None, None, None),
                (DecCall::Plain(D::Option), Kind::Option(i)) => match c.take(1)?[0] {
                    0 => (Ret::Some(false), None, None),
                    1 => (Ret::Some(true), Some(Api::Auto), Some(*i)),
                    _ => return Err(RErr::Malformed),
                },
                (DecCall::Fixed(l), Kind::Seq(Some(want), _)) if l == want => (Ret::None, Some(Api::Seq { len: *l, next: 0 }), None),
                (DecCall::Plain(D::Var), Kind::Seq(None, _)) => {
                    let l = c.len()?;
                    (Ret::Num(l), Some(Api::Seq { len: l, next: 0 }), None)
                }
                (DecCall::Plain(D::Tuple), Kind::Tuple(_)) => (Ret::None, Some(Api::Tuple { next: 0 }), None),
                (DecCall::Plain(D::Struct), Kind::Struct(_)) => (Ret::None, Some(Api::Struct { next: 0 }), None),
                (DecCall::Plain(D::Enum), Kind::Enum(v)) => {
                    if v.is_empty() {
                        return Err(RErr::Malformed);
                    }
                    let w = refm::ord_width(v.len());
                    let ord: u64 = c.take(w)?.iter().enumerate().map(|(i, &x)| (x as u64) << (8 * i)).sum();
                    if ord >= v.len() as u64 {
                        return Err(RErr::Malformed);
                    }
                    (Ret::Num(ord as usize), Some(Api::EnumName { ord: ord as usize }), None)
                }
                _ => return Err(RErr::TooBig), // stands for "wrong shape"
            })
        })();
        match r {
            Ok((ret, api, child)) => {
                let moved = data[..c.pos].to_vec();
                match api {
                    None => self.pop(),
                    Some(api) => self.set(api),
                }
                if let Some(ch) = child {
                    if !self.push(a, ch) {
                        return Expect::Fatal(ILLEGAL);
                    }
                }
                Expect::Accept { moved, ret }
            }
            Err(RErr::TooBig) => Expect::Reject(SNC),
            Err(e) => {
                self.broken = true;
                Expect::Fatal(match e {
                    RErr::Eof => match op.then {
                        Some(Fault::Err(k)) if k != std::io::ErrorKind::UnexpectedEof => IO,
                        _ => EOF,
                    },
                    RErr::Malformed => MAL,
                    RErr::Limits => LIMITS,
                    RErr::Illegal => ILLEGAL,
                    RErr::TooBig => unreachable!(),
                })
            }
        }
    }

    /// Next encoder call of a minimal completion of the current value.
    pub fn next_enc(&self, a: &Arena, mh: &[Option<u32>]) -> Option<EncOp> {
        if self.broken {
            return None;
        }
        let &(n, api) = self.stack.last()?;
        let good = |c: usize| a.resolve(c).and_then(|k| mh[k]).is_some();
        Some(match (api, &a.nodes[n].kind) {
            (Api::Need, k) => match k {
                Kind::Scalar(t) => EncOp::Scalar(scalar_menu(*t, false)[0]),
                Kind::Str => EncOp::Str("é".into()),
                Kind::Bytes => EncOp::Bytes(vec![0xff]),
                Kind::Unit => EncOp::Unit,
                Kind::Option(_) => EncOp::None,
                Kind::Seq(Some(l), _) => EncOp::Fixed(*l),
                Kind::Seq(None, _) => EncOp::Var(0),
                Kind::Tuple(_) => EncOp::Tuple,
                Kind::Struct(_) => EncOp::Struct,
                Kind::Enum(v) => {
                    let best = (0..v.len())
                        .filter_map(|i| a.resolve(v[i].1).and_then(|k| mh[k]).map(|h| (h, i)))
                        .min()?;
                    EncOp::Enum(best.1, v[best.1].0.to_string())
                }
                Kind::Recurse(_) => return None,
            },
            (Api::Seq { len, next }, Kind::Seq(_, c)) => {
                if next < len {
                    if !good(*c) {
                        return None;
                    }
                    EncOp::Elem
                } else {
                    EncOp::FinSeq
                }
            }
            (Api::Tuple { next }, Kind::Tuple(c)) => {
                if next < c.len() {
                    if !good(c[next]) {
                        return None;
                    }
                    EncOp::TElem
                } else {
                    EncOp::FinTuple
                }
            }
            (Api::Struct { next }, Kind::Struct(c)) => {
                if next < c.len() {
                    if !good(c[next].1) {
                        return None;
                    }
                    EncOp::Field(c[next].0.to_string())
                } else {
                    EncOp::FinStruct
                }
            }
            _ => return None,
        })
    }

    /// Next decoder call (with bytes) of a minimal completion.
    pub fn next_dec(&self, a: &Arena, mh: &[Option<u32>]) -> Option<DecOp> {
        if self.broken {
            return None;
        }
        let &(n, api) = self.stack.last()?;
        if let (Api::EnumName { ord }, Kind::Enum(v)) = (api, &a.nodes[n].kind) {
            a.resolve(v[ord].1).and_then(|k| mh[k])?;
            return Some(DecOp::new(DecCall::Variant(v[ord].0.to_string()), vec![]));
        }
        let e = self.next_enc(a, mh)?;
        let mut m = self.clone();
        let bytes = match m.enc(a, &e) {
            Expect::Accept { moved, .. } => moved,
            _ => return None,
        };
        let call = match e {
            EncOp::Scalar(s) => DecCall::Plain(D::Scalar(scalar_type(&s))),
            EncOp::Str(_) => DecCall::Plain(D::Str),
            EncOp::Bytes(_) => DecCall::Plain(D::Bytes),
            EncOp::Unit => DecCall::Plain(D::Unit),
            EncOp::None | EncOp::Some => DecCall::Plain(D::Option),
            EncOp::Fixed(l) => DecCall::Fixed(l),
            EncOp::Var(_) => DecCall::Plain(D::Var),
            EncOp::Elem => DecCall::Plain(D::Elem),
            EncOp::FinSeq => DecCall::Plain(D::FinSeq),
            EncOp::Tuple => DecCall::Plain(D::Tuple),
            EncOp::TElem => DecCall::Plain(D::TElem),
            EncOp::FinTuple => DecCall::Plain(D::FinTuple),
            EncOp::Struct => DecCall::Plain(D::Struct),
            EncOp::Field(s) => DecCall::Field(s),
            EncOp::FinStruct => DecCall::Plain(D::FinStruct),
            EncOp::Enum(..) => DecCall::Plain(D::Enum),
        };
        Some(DecOp::new(call, bytes))
    }
}

// ---- alphabets ----

fn names_of(a: &Arena) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for n in &a.nodes {
        match &n.kind {
            Kind::Struct(c) | Kind::Enum(c) => v.extend(c.iter().map(|x| x.0.to_string())),
            _ => {}
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Names that are nearly `f`.
pub fn lookalikes(f: &str) -> Vec<String> {
    let cs: Vec<char> = f.chars().collect();
    let mut v = vec![format!("{}x", f)];
    let up = f.to_uppercase();
    if up != f {
        v.push(up);
    }
    v.push(cs[..cs.len().saturating_sub(1)].iter().collect());
    if cs.len() > 4 {
        let mut at = vec![0, cs.len() / 2, cs.len() - 1];
        at.extend([7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 65535, 65536]);
        at.retain(|&i| i < cs.len());
        at.sort();
        at.dedup();
        for i in at {
            // one character replaced; everything before it; everything after it
            let mut x = cs.clone();
            x[i] = if x[i] == '~' { '^' } else { '~' };
            v.push(x.iter().collect());
            v.push(cs[..i].iter().collect());
            v.push(cs[i..].iter().skip(1).collect());
        }
        v.push(format!("{}{}", f, f));
    }
    v
}

/// Names worth passing: those of the schema, the empty one, near misses, an unrelated one.
pub fn name_menu(a: &Arena) -> Vec<String> {
    let mut v = names_of(a);
    let long: Vec<String> = v.iter().filter(|n| n.len() > 16).take(3).cloned().collect();
    for f in v.first().cloned().into_iter().chain(v.last().cloned()).chain(long) {
        v.extend(lookalikes(&f));
    }
    v.push(String::new());
    v.push("zz".into());
    v.sort();
    v.dedup();
    v
}

pub struct Alpha {
    pub names: Vec<String>,
    pub max_seq: usize,
    pub lens: Vec<usize>,
    pub all_scalars: bool,
    pub max_variants: usize,
    /// further ordinals
    pub ords: Vec<usize>,
    /// read every ordinal, however many
    pub all_ords: bool,
}

impl Alpha {
    pub fn new(a: &Arena, max_seq: usize, all_scalars: bool) -> Self {
        let mut lens: Vec<usize> = (0..=max_seq).collect();
        let mut mv = 0;
        for n in &a.nodes {
            if let Kind::Seq(Some(l), _) = &n.kind {
                lens.push(*l);
                lens.push(l.wrapping_add(1));
            }
            if let Kind::Enum(v) = &n.kind {
                mv = mv.max(v.len());
            }
        }
        lens.push(256);
        lens.push(1 << 32);
        lens.sort();
        lens.dedup();
        Alpha { names: name_menu(a), max_seq, lens, all_scalars, max_variants: mv, ords: vec![256, usize::MAX], all_ords: true }
    }

    fn scalars(&self, m: &MState, a: &Arena) -> Vec<ScalarValue> {
        let due = m.need().and_then(|n| if let Kind::Scalar(t) = a.nodes[n].kind { Some(t) } else { None });
        let mut o = Vec::new();
        for (t, _) in SCALARS {
            if Some(t) == due {
                o.extend(scalar_menu(t, false));
            } else if self.all_scalars || matches!(t, ScalarType::U8 | ScalarType::I64 | ScalarType::U64 | ScalarType::Bool) {
                o.push(scalar_menu(t, false)[0]);
            }
        }
        o
    }

    /// Every encoder call worth trying in this state.
    pub fn enc(&self, m: &MState, a: &Arena) -> Vec<EncOp> {
        let mut o: Vec<EncOp> = self.scalars(m, a).into_iter().map(EncOp::Scalar).collect();
        o.push(EncOp::Str("é".into()));
        o.push(EncOp::Str(String::new()));
        o.push(EncOp::Bytes(vec![0xff]));
        o.extend([EncOp::Unit, EncOp::None, EncOp::Some]);
        for &l in &self.lens {
            o.push(EncOp::Fixed(l));
        }
        for l in 0..=self.max_seq {
            o.push(EncOp::Var(l));
        }
        o.extend([EncOp::Elem, EncOp::FinSeq, EncOp::Tuple, EncOp::TElem, EncOp::FinTuple, EncOp::Struct, EncOp::FinStruct]);
        for n in &self.names {
            o.push(EncOp::Field(n.clone()));
        }
        let at_enum = m.need().map_or(false, |n| matches!(a.nodes[n].kind, Kind::Enum(_)));
        if at_enum {
            for ord in (0..=self.max_variants).chain(self.ords.iter().copied()) {
                for n in &self.names {
                    o.push(EncOp::Enum(ord, n.clone()));
                }
            }
        } else {
            o.push(EncOp::Enum(0, self.names.iter().find(|s| !s.is_empty()).cloned().unwrap_or_default()));
        }
        o
    }

    /// Every decoder call worth trying in this state, each with every source content worth trying.
    pub fn dec(&self, m: &MState, a: &Arena, faults: bool) -> Vec<DecOp> {
        let mut calls: Vec<DecCall> = Vec::new();
        for s in self.scalars(m, a) {
            let c = DecCall::Plain(D::Scalar(scalar_type(&s)));
            if !calls.contains(&c) {
                calls.push(c);
            }
        }
        for d in [
            D::Str, D::StrInto, D::Bytes, D::BytesInto, D::Unit, D::Option, D::Var, D::Elem, D::FinSeq, D::Tuple, D::TElem,
            D::FinTuple, D::Struct, D::FinStruct, D::Enum,
        ] {
            calls.push(DecCall::Plain(d));
        }
        for &l in &self.lens {
            calls.push(DecCall::Fixed(l));
        }
        for n in &self.names {
            calls.push(DecCall::Field(n.clone()));
            calls.push(DecCall::Variant(n.clone()));
        }
        let mut o = Vec::new();
        for call in calls {
            let mut probe = m.clone();
            let first = probe.dec(a, &DecOp { call: call.clone(), feed: vec![], then: Some(Fault::Zero) });
            match first {
                // depends on the bytes
                Expect::Fatal(k) if k == EOF => {
                    let n = m.need().unwrap();
                    for f in self.feeds(a, n) {
                        o.push(DecOp::new(call.clone(), f));
                    }
                    if faults {
                        for (cut, f) in self.cuts(a, n) {
                            o.push(DecOp { call: call.clone(), feed: cut, then: Some(f) });
                        }
                    }
                }
                // zeros behind a call that is due to be refused: were it made, it would succeed
                Expect::Reject(_) => o.push(DecOp::new(call, vec![0; 4])),
                _ => o.push(DecOp::new(call, vec![])),
            }
        }
        o
    }

    fn feeds(&self, a: &Arena, n: usize) -> Vec<Vec<u8>> {
        let over19: Vec<u8> = vec![0x80; 19].into_iter().chain([0]).collect();
        match &a.nodes[n].kind {
            Kind::Scalar(t) => {
                let mut o: Vec<Vec<u8>> = scalar_menu(*t, false)
                    .iter()
                    .map(|s| {
                        let mut b = Vec::new();
                        refm::scalar_bytes(s, &mut b);
                        b
                    })
                    .collect();
                match t {
                    ScalarType::Bool => o.extend([vec![2], vec![0xff]]),
                    ScalarType::Char => o.extend([refm::uint(0xd800), refm::uint(0x110000), refm::uint(1 << 32), over19, vec![0xe1, 0x80, 0]]),
                    ScalarType::U32 => o.extend([refm::uint(1 << 32), over19, vec![0x83, 0x80, 0]]),
                    ScalarType::U64 => o.extend([refm::uint(1 << 64), over19]),
                    ScalarType::U128 => o.extend([over19]),
                    ScalarType::I32 => o.extend([refm::sint(1 << 31), refm::sint(-(1 << 31) - 1), vec![0x80; 30]]),
                    ScalarType::I64 => o.extend([refm::sint(1 << 63), vec![0x80; 30]]),
                    ScalarType::I128 => o.extend([vec![0x80; 30]]),
                    _ => {}
                }
                o
            }
            Kind::Str => vec![vec![0], "\u{2}é".into(), vec![1, 0xff], vec![2, 0xc3, 0x28], vec![0x81, 0, b'q'], refm::uint(1 << 64), over19],
            Kind::Bytes => vec![vec![0], vec![2, 0xff, 0x80], vec![0x81, 0, b'q'], refm::uint(1 << 64), over19],
            Kind::Option(_) => vec![vec![0], vec![1], vec![2], vec![0x80]],
            Kind::Seq(None, _) => {
                let mut o: Vec<Vec<u8>> = (0..=self.max_seq).map(|l| refm::uint(l as u128)).collect();
                o.extend([vec![0x81, 0], refm::uint(1 << 64), over19]);
                o
            }
            Kind::Enum(v) => {
                let w = refm::ord_width(v.len().max(1));
                let le = |x: u64| (0..w).map(|i| (x >> (8 * i)) as u8).collect::<Vec<u8>>();
                let n = v.len() as u64;
                let some = |x: &u64| self.all_ords || v.len() < 9 || *x < 2 || *x + 2 >= n || (x & (x - 1)) == 0 || (x & (x + 1)) == 0;
                let mut o: Vec<Vec<u8>> = (0..n).filter(some).map(le).collect();
                if w > 0 {
                    o.push(le(v.len() as u64));
                    o.push(vec![0xff; w]);
                }
                o.dedup();
                o
            }
            _ => vec![vec![]],
        }
    }

    /// Truncations of the smallest acceptable source contents, with the ways the source can fail.
    fn cuts(&self, a: &Arena, n: usize) -> Vec<(Vec<u8>, Fault)> {
        let mut o = Vec::new();
        for f in self.feeds(a, n).into_iter().take(2) {
            for k in 0..f.len() {
                for fault in [Fault::Zero, Fault::Err(std::io::ErrorKind::Other)] {
                    let x = (f[..k].to_vec(), fault);
                    if !o.contains(&x) {
                        o.push(x);
                    }
                }
            }
        }
        // a declared length the source cannot satisfy
        if matches!(a.nodes[n].kind, Kind::Str | Kind::Bytes) {
            o.push((vec![3, b'a'], Fault::Zero));
            o.push((vec![3, b'a'], Fault::Err(std::io::ErrorKind::Other)));
            o.push((vec![0xff, 0xff, 0xff, 0xff, 0x7f, b'a'], Fault::Zero));
            o.push((vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, b'a'], Fault::Zero));
        }
        o
    }
}

// ---- live coders driven step by step ----

/// What one call did.
#[derive(Debug)]
pub struct Obs {
    pub res: Result<Ret, Error>,
    /// bytes written or consumed
    pub moved: Vec<u8>,
    /// bytes asked for beyond what the source held for this call
    pub over: usize,
}

impl Obs {
    pub fn kind(&self) -> Option<ErrorKind> {
        self.res.as_ref().err().map(|e| e.kind())
    }
    pub fn brief(&self) -> String {
        match &self.res {
            Ok(r) => format!("Ok({:?}) moving {}", r, hex(&self.moved)),
            Err(e) => format!("Err({:?}: {}) moving {}", e.kind(), crate::io::first_line(&e.inner().to_string()), hex(&self.moved)),
        }
    }
}

pub struct LiveEnc<'s> {
    pub st: CoderState<'s>,
    pub out: Vec<u8>,
}

impl<'s> LiveEnc<'s> {
    pub fn new(s: &'s Schema) -> Self {
        Self::with(s, Default::default(), None)
    }
    pub fn with(s: &'s Schema, alloc: CoderStateAlloc, log: Option<&'s mut (dyn Write + 's)>) -> Self {
        LiveEnc { st: CoderState::new(s, alloc, log), out: Vec::new() }
    }
    pub fn step(&mut self, op: &EncOp) -> Obs {
        let before = self.out.len();
        let res = enc_call(&mut Encoder::new(&mut self.st, &mut self.out), op).map(|_| Ret::None);
        Obs { res, moved: self.out[before..].to_vec(), over: 0 }
    }
    /// The sink takes `k` bytes of this call, then fails.
    pub fn step_fault(&mut self, op: &EncOp, k: usize, f: Fault) -> Obs {
        let mut w = crate::io::LimitW::new(k, f, 1);
        let res = enc_call(&mut Encoder::new(&mut self.st, &mut w), op).map(|_| Ret::None);
        self.out.extend_from_slice(&w.out);
        Obs { res, moved: w.out, over: 0 }
    }
    pub fn need(&mut self) -> Result<&'s Schema, Error> {
        Encoder::new(&mut self.st, &mut self.out).need()
    }
}

pub struct LiveDec<'s> {
    pub st: CoderState<'s>,
    pub r: FeedR,
    pub total: usize,
}

impl<'s> LiveDec<'s> {
    pub fn new(s: &'s Schema) -> Self {
        Self::with(s, Default::default(), None)
    }
    pub fn with(s: &'s Schema, alloc: CoderStateAlloc, log: Option<&'s mut (dyn Write + 's)>) -> Self {
        LiveDec { st: CoderState::new(s, alloc, log), r: FeedR::new(), total: 0 }
    }
    pub fn step(&mut self, op: &DecOp) -> Obs {
        self.r.feed(&op.feed, op.then.map(|f| (f, 1)));
        let res = dec_call(&mut Decoder::new(&mut self.st, &mut self.r), &op.call);
        self.total += self.r.pos;
        Obs { res, moved: self.r.data[..self.r.pos].to_vec(), over: self.r.over }
    }
    pub fn need(&mut self) -> Result<&'s Schema, Error> {
        Decoder::new(&mut self.st, &mut self.r).need()
    }
}

/// Compare an observed call with the model's verdict.
pub fn judge(exp: &Expect, obs: &Obs) -> Result<(), String> {
    match exp {
        Expect::Accept { moved, ret } => match &obs.res {
            Err(e) => Err(format!("a legal call was rejected with {:?}: {}", e.kind(), crate::io::first_line(&e.inner().to_string()))),
            Ok(r) => {
                if !same_ret(r, ret) {
                    return Err(format!("returned {:?}, expected {:?}", r, ret));
                }
                // the model may have been given trailing bytes; consumption must match exactly
                if &obs.moved != moved || obs.over > 0 {
                    return Err(format!("moved bytes {} (+{} beyond), expected {}", hex(&obs.moved), obs.over, hex(moved)));
                }
                Ok(())
            }
        },
        Expect::Reject(kinds) => match &obs.res {
            Ok(r) => Err(format!("an illegal call was accepted, returning {:?}", r)),
            Err(e) => {
                if !kinds.contains(&e.kind()) {
                    return Err(format!("rejected with {:?}, expected {:?}", e.kind(), kinds));
                }
                if !obs.moved.is_empty() || obs.over > 0 {
                    return Err(format!("a rejected call moved bytes {} (+{} beyond)", hex(&obs.moved), obs.over));
                }
                Ok(())
            }
        },
        Expect::Fatal(kinds) => match &obs.res {
            Ok(r) => Err(format!("a failing call was accepted, returning {:?}", r)),
            Err(e) => {
                if !kinds.contains(&e.kind()) {
                    return Err(format!("failed with {:?}, expected {:?}: {}", e.kind(), kinds, crate::io::first_line(&e.inner().to_string())));
                }
                Ok(())
            }
        },
        Expect::Unspecified => Ok(()),
    }
}
