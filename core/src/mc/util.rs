//! Helpers shared by the checks.
use binschema::{error::{Error, ErrorKind}, value::Value, CoderState, Decoder, Encoder, Schema};
use mcore::{
    io::first_line,
    refm::{self, Arena},
    report::{guard, kv},
    text::{hex, schema_text, value_text},
};
use std::io::{Read, Write};

pub fn get<'a>(kvs: &'a [(String, String)], k: &str) -> &'a str {
    &kvs.iter().find(|x| x.0 == k).unwrap_or_else(|| panic!("replay file lacks {}", k)).1
}

pub fn sv(s: &Schema, v: &Value) -> Vec<(String, String)> {
    vec![kv("schema", schema_text(s)), kv("value", value_text(v))]
}
pub fn sb(s: &Schema, b: &[u8]) -> Vec<(String, String)> {
    vec![kv("schema", schema_text(s)), kv("bytes", hex(b))]
}
/// Rendering that stays readable for huge schemas/values: long texts are kept whole in the replay
/// file (it must be replayable).
pub fn with(mut v: Vec<(String, String)>, k: &str, x: impl ToString) -> Vec<(String, String)> {
    v.push(kv(k, x));
    v
}

pub fn err_brief(e: &Error) -> String {
    format!("{:?}: {}", e.kind(), first_line(&e.inner().to_string()))
}

/// Encode through the real crate with one encoder for the whole value.
pub fn real_encode<W: Write>(s: &Schema, v: &Value, w: &mut W) -> Result<(Result<(), Error>, bool), String> {
    guard(|| {
        let mut st = CoderState::new(s, Default::default(), None);
        let r = v.encode_to(&mut Encoder::new(&mut st, w));
        let fin = st.is_finished();
        let fin2 = st.is_finished_or_err();
        assert_eq!(fin, fin2.is_ok(), "is_finished and is_finished_or_err disagree");
        if let Err(e) = fin2 {
            assert_eq!(e.kind(), ErrorKind::ApiUsage, "is_finished_or_err error kind");
        }
        (r, fin)
    })
}

pub fn encode_vec(s: &Schema, v: &Value) -> Result<Vec<u8>, String> {
    let mut o = Vec::new();
    let (r, fin) = real_encode(s, v, &mut o)?;
    r.map_err(|e| format!("encoding failed with {}", err_brief(&e)))?;
    if !fin {
        return Err("encoded to the end, but the coder does not report finished".into());
    }
    Ok(o)
}

pub struct Dec {
    pub res: Result<Value, Error>,
    pub finished: bool,
}

pub fn real_decode<R: Read>(s: &Schema, r: &mut R) -> Result<Dec, String> {
    guard(|| {
        let mut st = CoderState::new(s, Default::default(), None);
        let res = Value::decode_from(&mut Decoder::new(&mut st, r));
        Dec { res, finished: st.is_finished() }
    })
}

/// Decode `b` (followed by nothing) and also report how much was consumed.
pub fn decode_slice(s: &Schema, b: &[u8]) -> Result<(Dec, usize), String> {
    let mut r = b;
    let d = real_decode(s, &mut r)?;
    Ok((d, b.len() - r.len()))
}

pub fn ref_bytes(s: &Schema, v: &Value) -> Option<Vec<u8>> {
    let a = Arena::new(s);
    let mut o = Vec::new();
    if refm::encode(&a, 0, v, &mut o) { Some(o) } else { None }
}

/// Calls that encode a value, one by one.
pub fn enc_ops(v: &Value, o: &mut Vec<mcore::machine::EncOp>) {
    use mcore::machine::EncOp as E;
    match v {
        Value::Scalar(s) => o.push(E::Scalar(*s)),
        Value::Str(s) => o.push(E::Str(s.clone())),
        Value::Bytes(s) => o.push(E::Bytes(s.clone())),
        Value::Unit => o.push(E::Unit),
        Value::Option(None) => o.push(E::None),
        Value::Option(Some(x)) => {
            o.push(E::Some);
            enc_ops(x, o);
        }
        Value::FixedLenSeq(e) | Value::VarLenSeq(e) => {
            o.push(if matches!(v, Value::FixedLenSeq(_)) { E::Fixed(e.len()) } else { E::Var(e.len()) });
            for x in e {
                o.push(E::Elem);
                enc_ops(x, o);
            }
            o.push(E::FinSeq);
        }
        Value::Tuple(e) => {
            o.push(E::Tuple);
            for x in e {
                o.push(E::TElem);
                enc_ops(x, o);
            }
            o.push(E::FinTuple);
        }
        Value::Struct(f) => {
            o.push(E::Struct);
            for x in f {
                o.push(E::Field(x.name.clone()));
                enc_ops(&x.value, o);
            }
            o.push(E::FinStruct);
        }
        Value::Enum(e) => {
            o.push(E::Enum(e.variant_ord, e.variant_name.clone()));
            enc_ops(&e.value, o);
        }
    }
}

/// Decoder calls (with the bytes each one consumes) that decode the encoding of a value.
pub fn dec_ops(s: &Schema, v: &Value) -> Vec<mcore::machine::DecOp> {
    use mcore::machine::{DecCall, DecOp, EncOp as E, Expect, MState, D};
    let a = Arena::new(s);
    let mut m = MState::new(&a);
    let mut es = Vec::new();
    enc_ops(v, &mut es);
    let mut o = Vec::new();
    for e in es {
        let moved = match m.enc(&a, &e) {
            Expect::Accept { moved, .. } => moved,
            x => panic!("value does not conform: {:?} -> {:?}", e, x),
        };
        let call = match &e {
            E::Scalar(s) => DecCall::Plain(D::Scalar(mcore::text::scalar_type(s))),
            E::Str(_) => DecCall::Plain(D::Str),
            E::Bytes(_) => DecCall::Plain(D::Bytes),
            E::Unit => DecCall::Plain(D::Unit),
            E::None | E::Some => DecCall::Plain(D::Option),
            E::Fixed(l) => DecCall::Fixed(*l),
            E::Var(_) => DecCall::Plain(D::Var),
            E::Elem => DecCall::Plain(D::Elem),
            E::FinSeq => DecCall::Plain(D::FinSeq),
            E::Tuple => DecCall::Plain(D::Tuple),
            E::TElem => DecCall::Plain(D::TElem),
            E::FinTuple => DecCall::Plain(D::FinTuple),
            E::Struct => DecCall::Plain(D::Struct),
            E::Field(n) => DecCall::Field(n.clone()),
            E::FinStruct => DecCall::Plain(D::FinStruct),
            E::Enum(..) => DecCall::Plain(D::Enum),
        };
        o.push(DecOp::new(call, moved));
        if let E::Enum(_, n) = e {
            o.push(DecOp::new(DecCall::Variant(n), vec![]));
        }
    }
    o
}

// ---- families of schema/value pairs beyond the small universes ----

use binschema::{
    value::{EnumValue, ScalarValue, StructValueField},
    EnumSchemaVariant, ScalarType, SeqSchema, StructSchemaField,
};
use mcore::gen::{scalar_menu, NAMES};

pub fn seq(len: Option<usize>, inner: Schema) -> Schema {
    Schema::Seq(SeqSchema { len, inner: Box::new(inner) })
}
pub fn option(inner: Schema) -> Schema {
    Schema::Option(Box::new(inner))
}
pub fn st(v: Vec<(&str, Schema)>) -> Schema {
    Schema::Struct(v.into_iter().map(|(n, inner)| StructSchemaField { name: n.into(), inner }).collect())
}
pub fn en(v: Vec<(&str, Schema)>) -> Schema {
    Schema::Enum(v.into_iter().map(|(n, inner)| EnumSchemaVariant { name: n.into(), inner }).collect())
}
pub fn u8s() -> Schema {
    Schema::Scalar(ScalarType::U8)
}
pub fn vu8(n: u8) -> Value {
    Value::Scalar(ScalarValue::U8(n))
}
pub fn vev(ord: usize, name: &str, v: Value) -> Value {
    Value::Enum(EnumValue { variant_ord: ord, variant_name: name.into(), value: Box::new(v) })
}
pub fn vst(v: Vec<(&str, Value)>) -> Value {
    Value::Struct(v.into_iter().map(|(n, value)| StructValueField { name: n.into(), value }).collect())
}

pub fn all_leaves() -> Vec<Schema> {
    let mut v: Vec<Schema> = mcore::text::SCALARS.iter().map(|x| Schema::Scalar(x.0)).collect();
    v.extend([Schema::Str, Schema::Bytes, Schema::Unit]);
    v
}

pub fn leaf_values(s: &Schema, rich: bool) -> Vec<Value> {
    match s {
        Schema::Scalar(t) => scalar_menu(*t, rich).into_iter().map(Value::Scalar).collect(),
        Schema::Str => mcore::gen::str_menu(rich).into_iter().map(Value::Str).collect(),
        Schema::Bytes => mcore::gen::bytes_menu(rich).into_iter().map(Value::Bytes).collect(),
        Schema::Unit => vec![Value::Unit],
        _ => panic!(),
    }
}

/// Every leaf alone and inside every constructor, beside a neighbour that would show a slip.
pub fn leaf_contexts() -> Vec<(Schema, Vec<Value>)> {
    let mut o = Vec::new();
    for l in all_leaves() {
        let vals = leaf_values(&l, true);
        o.push((l.clone(), vals.clone()));
        let few: Vec<Value> = {
            let mut f = leaf_values(&l, false);
            f.truncate(2);
            f
        };
        o.push((option(l.clone()), std::iter::once(Value::Option(None)).chain(few.iter().map(|v| Value::Option(Some(Box::new(v.clone()))))).collect()));
        let mut s = Vec::new();
        for n in 0..4usize {
            s.push(Value::VarLenSeq((0..n).map(|i| few[i % few.len()].clone()).collect()));
        }
        o.push((seq(None, l.clone()), s));
        o.push((seq(Some(3), l.clone()), vec![Value::FixedLenSeq((0..3).map(|i| few[i % few.len()].clone()).collect())]));
        for m in all_leaves() {
            let mv = leaf_values(&m, false)[0].clone();
            for v in &few {
                o.push((Schema::Tuple(vec![l.clone(), m.clone()]), vec![Value::Tuple(vec![v.clone(), mv.clone()])]));
            }
            let sch = st(vec![("x", l.clone()), ("y", m.clone())]);
            o.push((sch, vec![vst(vec![("x", few[0].clone()), ("y", mv.clone())])]));
            let sch = en(vec![("P", l.clone()), ("Q", m.clone())]);
            o.push((sch, vec![vev(0, "P", few[0].clone()), vev(1, "Q", mv.clone())]));
        }
    }
    o
}

pub const BOUNDARY: [usize; 27] = [0, 1, 2, 3, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537];

/// Boundary lengths, variant counts, widths and depths.
pub fn boundary_families(big: bool) -> Vec<(String, Schema, Vec<Value>)> {
    let mut o: Vec<(String, Schema, Vec<Value>)> = Vec::new();
    let mut lens: Vec<usize> = BOUNDARY.to_vec();
    if big {
        lens.extend([2097151, 2097152, 2097153]);
    } else {
        lens.extend([2097151, 2097152]);
    }
    for &l in &lens {
        o.push((format!("str len {}", l), Schema::Str, vec![Value::Str("z".repeat(l))]));
        if l >= 4 && l % 2 == 0 && l < 70000 {
            o.push((format!("utf8 str len {}", l), Schema::Str, vec![Value::Str("ß".repeat(l / 2)), Value::Str(format!("{}😀", "q".repeat(l - 4)))]));
        }
        o.push((format!("bytes len {}", l), Schema::Bytes, vec![Value::Bytes((0..l).map(|i| (i * 7 + i / 256) as u8).collect())]));
        if l <= 70000 {
            o.push((format!("seq len {}", l), seq(None, u8s()), vec![Value::VarLenSeq((0..l).map(|i| vu8(i as u8)).collect())]));
            o.push((format!("unit seq len {}", l), seq(None, Schema::Unit), vec![Value::VarLenSeq(vec![Value::Unit; l])]));
        }
        if l <= 20000 {
            o.push((format!("fixed seq len {}", l), seq(Some(l), u8s()), vec![Value::FixedLenSeq((0..l).map(|i| vu8((i * 3) as u8)).collect())]));
        }
        if l <= 300 || (big && l <= 16385) {
            o.push((
                format!("tuple width {}", l),
                Schema::Tuple((0..l).map(|i| if i % 3 == 0 { Schema::Unit } else { u8s() }).collect()),
                vec![Value::Tuple((0..l).map(|i| if i % 3 == 0 { Value::Unit } else { vu8(i as u8) }).collect())],
            ));
            o.push((
                format!("struct width {}", l),
                Schema::Struct((0..l).map(|i| StructSchemaField { name: format!("f{}", i), inner: u8s() }).collect()),
                vec![Value::Struct((0..l).map(|i| StructValueField { name: format!("f{}", i), value: vu8((i * 5) as u8) }).collect())],
            ));
        }
    }
    let mut variants = vec![1usize, 2, 3, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 65535, 65536, 65537];
    if big {
        variants.extend([(1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    }
    for n in variants {
        let s = Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: if n > 100000 { String::new() } else { format!("v{}", i) }, inner: if i % 2 == 0 { Schema::Unit } else { u8s() } }).collect());
        let mut ords = vec![0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 512, 65534, 65535, 65536, (1 << 24) - 1, 1 << 24, n / 2, n - 1];
        ords.retain(|&x| x < n);
        ords.sort();
        ords.dedup();
        let vals = ords
            .into_iter()
            .map(|i| vev(i, &if n > 100000 { String::new() } else { format!("v{}", i) }, if i % 2 == 0 { Value::Unit } else { vu8(i as u8) }))
            .collect();
        o.push((format!("enum of {}", n), s, vals));
    }
    // all variants under one name: only the ordinal tells them apart
    for (n, name) in [(2usize, ""), (257, ""), (300, ""), (300, "x"), (65537, "")] {
        let s = Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: name.into(), inner: if i % 2 == 0 { Schema::Unit } else { u8s() } }).collect());
        let mut ords = vec![0, 1, 254, 255, 256, 257, 299, 65535, 65536];
        ords.retain(|&x| x < n);
        let vals = ords.into_iter().map(|i| vev(i, name, if i % 2 == 0 { Value::Unit } else { vu8(i as u8) })).collect();
        o.push((format!("enum of {} times {:?}", n, name), s, vals));
    }
    for d in [1usize, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] {
        // nesting in the schema
        let mut s = u8s();
        let mut v = vu8(9);
        for i in 0..d {
            match i % 5 {
                0 => {
                    s = option(s);
                    v = Value::Option(Some(Box::new(v)));
                }
                1 => {
                    s = Schema::Tuple(vec![s, Schema::Str]);
                    v = Value::Tuple(vec![v, Value::Str("t".into())]);
                }
                2 => {
                    s = seq(None, s);
                    v = Value::VarLenSeq(vec![v]);
                }
                3 => {
                    s = st(vec![("n", Schema::Unit), ("i", s)]);
                    v = vst(vec![("n", Value::Unit), ("i", v)]);
                }
                _ => {
                    s = en(vec![("E", Schema::Str), ("F", s)]);
                    v = vev(1, "F", v);
                }
            }
        }
        o.push((format!("schema depth {}", d), s, vec![v]));
        // nesting through recursion
        let s = st(vec![("v", u8s()), ("next", option(Schema::Recurse(2)))]);
        let mut v = vst(vec![("v", vu8(0)), ("next", Value::Option(None))]);
        for i in 0..d {
            v = vst(vec![("v", vu8(i as u8)), ("next", Value::Option(Some(Box::new(v))))]);
        }
        o.push((format!("list depth {}", d), s, vec![v]));
    }
    // odd names
    for name in ["", " ", "\"", "ß", "a\nb", "r#type", "0"] {
        o.push((format!("name {:?}", name), st(vec![(name, u8s()), (name, Schema::Unit)]), vec![vst(vec![(name, vu8(1)), (name, Value::Unit)])]));
        o.push((format!("variant name {:?}", name), en(vec![(name, u8s()), (name, Schema::Unit)]), vec![vev(0, name, vu8(1)), vev(1, name, Value::Unit)]));
    }
    let _ = NAMES;
    o
}
