//! C09, C10: sinks and sources that fail, split and interrupt. Every failure point of every message,
//! every way of cutting it, through every way of coding it.
use super::{
    c11_recurse::{natural_term, shape_for},
    space,
    util::*,
};
use binschema::{
    error::Error,
    value::Value,
    CoderState, Decoder, Encoder, Schema,
};
use mcore::{
    gen::{schemas_upto, vcfg, SchemaCfg, Values},
    io::{Fault, Frag, FragR, FragW, LimitR, LimitW, FAULTS},
    machine::{dec_call, enc_call, DecOp, EncOp},
    refm::{self, Arena},
    report::{guard, in_case, par_for, Run},
    term::{any_term, same_term, Shape, Term},
    text::{hex, parse_schema, parse_value, schema_text, value_text},
};
use serde::{
    de::{DeserializeSeed, IgnoredAny},
    Deserialize, Serialize,
};
use std::io::{Read, Write};

/// Ways to write a message.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WVia {
    Value,
    Calls,
    Serde,
}
pub const WVIAS: [WVia; 3] = [WVia::Value, WVia::Calls, WVia::Serde];

/// Ways to read one.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RVia {
    Value,
    Calls,
    Typed,
    Any,
    Ignore,
}
pub const RVIAS: [RVia; 5] = [RVia::Value, RVia::Calls, RVia::Typed, RVia::Any, RVia::Ignore];

/// A message with everything needed to code it in all ways.
pub struct Msg<'s> {
    pub s: &'s Schema,
    pub v: Value,
    pub bytes: Vec<u8>,
    pub term: Term,
    pub shape: Shape,
    pub any: Term,
    pub enc: Vec<EncOp>,
    pub dec: Vec<DecOp>,
    /// field or variant names repeat: no Rust type reads that
    pub dup: bool,
}

pub fn has_dups(a: &Arena) -> bool {
    use mcore::refm::Kind;
    a.nodes.iter().any(|n| match &n.kind {
        Kind::Struct(c) | Kind::Enum(c) => (0..c.len()).any(|i| (0..i).any(|j| c[i].0 == c[j].0)),
        _ => false,
    })
}

impl<'s> Msg<'s> {
    pub fn new(s: &'s Schema, v: &Value) -> Self {
        let a = Arena::new(s);
        let mut enc = Vec::new();
        enc_ops(v, &mut enc);
        Msg {
            s,
            v: v.clone(),
            bytes: ref_bytes(s, v).expect("generated value conforms"),
            term: natural_term(v),
            shape: shape_for(&a, 0, &[v]),
            any: any_term(&a, v),
            enc,
            dec: dec_ops(s, v),
            dup: has_dups(&a),
        }
    }
    /// Write the message; the failure and whether the coder reports finished.
    pub fn write<W: Write>(&self, via: WVia, w: &mut W) -> (Result<(), Error>, bool) {
        self.write_with(CoderState::new(self.s, Default::default(), None), via, w)
    }
    pub fn write_with<W: Write>(&self, mut st: CoderState, via: WVia, w: &mut W) -> (Result<(), Error>, bool) {
        let res = match via {
            WVia::Value => self.v.encode_to(&mut Encoder::new(&mut st, w)),
            WVia::Serde => self.term.serialize(&mut Encoder::new(&mut st, w)),
            WVia::Calls => (|| {
                for op in &self.enc {
                    enc_call(&mut Encoder::new(&mut st, w), op)?;
                }
                Ok(())
            })(),
        };
        (res, st.is_finished())
    }
    /// Read the message. `Err(Ok(e))`: the coder failed; `Err(Err(s))`: it gave something else.
    pub fn read<R: Read>(&self, via: RVia, rd: &mut R) -> (Result<(), Result<Error, String>>, bool) {
        self.read_with(CoderState::new(self.s, Default::default(), None), via, rd)
    }
    pub fn read_with<R: Read>(&self, mut st: CoderState, via: RVia, rd: &mut R) -> (Result<(), Result<Error, String>>, bool) {
        let res = {
            let st = &mut st;
            let t = |res: Result<Term, Error>, want: &Term| match res {
                Err(e) => Err(Ok(e)),
                Ok(x) if same_term(&x, want) => Ok(()),
                Ok(x) => Err(Err(format!("read {}, expected {}", x.text(), want.text()))),
            };
            match via {
                RVia::Value => match Value::decode_from(&mut Decoder::new(st, rd)) {
                    Err(e) => Err(Ok(e)),
                    Ok(x) if refm::same(&x, &self.v) => Ok(()),
                    Ok(x) => Err(Err(format!("read {}", value_text(&x)))),
                },
                RVia::Typed if self.dup => t(Shape::Any.deserialize(&mut Decoder::new(st, rd)), &self.any),
                RVia::Typed => t(self.shape.deserialize(&mut Decoder::new(st, rd)), &self.term),
                RVia::Any => t(Shape::Any.deserialize(&mut Decoder::new(st, rd)), &self.any),
                RVia::Ignore => IgnoredAny::deserialize(&mut Decoder::new(st, rd)).map(|_| ()).map_err(Ok),
                RVia::Calls => (|| {
                    let a = Arena::new(self.s);
                    let mut m = mcore::machine::MState::new(&a);
                    for op in &self.dec {
                        let want = m.dec(&a, op);
                        let got = dec_call(&mut Decoder::new(st, rd), &op.call).map_err(Ok)?;
                        if let mcore::machine::Expect::Accept { ret, .. } = want {
                            if !mcore::machine::same_ret(&ret, &got) {
                                return Err(Err(format!("{} returned {:?}, expected {:?}", op.text(), got, ret)));
                            }
                        }
                    }
                    Ok(())
                })(),
            }
        };
        (res, st.is_finished())
    }
}

/// Messages: small schemas with a few values each, leaves with all boundary values, long strings.
pub fn messages(r: &Run, nodes: usize, per: u128, rich: bool) -> Vec<(Schema, Value)> {
    let mut o = Vec::new();
    let mut u = super::c05_machine::curated();
    u.extend(schemas_upto(&SchemaCfg::small(), nodes));
    let n = u.len();
    for s in u {
        let a = Arena::new(&s);
        let (vals, _) = Values::new(&a, vcfg(rich, 2)).upto(0, 8, per);
        o.extend(vals.into_iter().map(|v| (s.clone(), v)));
    }
    for l in all_leaves() {
        for v in leaf_values(&l, true) {
            o.push((l.clone(), v));
        }
    }
    o.extend(super::c18_serde::leaves_held());
    for n in [127usize, 128, 300] {
        o.push((Schema::Tuple(vec![Schema::Str, u8s()]), Value::Tuple(vec![Value::Str("ß".repeat(n / 2)), vu8(1)])));
        o.push((seq(None, Schema::Bytes), Value::VarLenSeq(vec![Value::Bytes(vec![7; n]), Value::Bytes(vec![])])));
    }
    let wide = Schema::Enum((0..300).map(|i| binschema::EnumSchemaVariant { name: format!("v{}", i), inner: u8s() }).collect());
    o.push((wide, vev(299, "v299", vu8(3))));
    r.note("messages", format!("{} messages of {} schemas (<= {} nodes, and listed ones)", o.len(), n, nodes));
    o
}

/// Messages longer than any internal buffer.
fn long_messages() -> Vec<(Schema, Value)> {
    let mut o = Vec::new();
    for n in [4096usize, 8192, 16384, 65536, 70000] {
        o.push((Schema::Str, Value::Str("z".repeat(n))));
        o.push((Schema::Bytes, Value::Bytes((0..n).map(|i| i as u8).collect())));
        o.push((st(vec![("a", Schema::Bytes), ("b", Schema::Str)]), vst(vec![("a", Value::Bytes(vec![3; n])), ("b", Value::Str("é".repeat(n / 2)))])));
    }
    o.push((seq(None, u8s()), Value::VarLenSeq((0..5000).map(|i| vu8(i as u8)).collect())));
    o
}

// ---- C09 ----

fn check_fault(r: &Run, m: &Msg, k: usize, f: Fault) {
    let base = || with(with(with(sv(m.s, &m.v), "kind", "fault"), "at", k), "fault", f.name());
    let mut n = 0;
    for via in WVIAS {
        let case = || with(base(), "via", format!("write {:?}", via));
        let res = in_case(&case, || {
            guard(|| -> Result<(), String> {
                let mut w = LimitW::new(k, f, 7);
                let (res, fin) = m.write(via, &mut w);
                if w.out != m.bytes[..k] {
                    return Err(format!("the sink took {}, expected the first {} bytes of {}", hex(&w.out), k, hex(&m.bytes)));
                }
                match res {
                    Ok(()) => return Err(format!("success is reported, but the sink failed after {} of {} bytes", k, m.bytes.len())),
                    Err(e) => f.carried_by(&e, 7, true)?,
                }
                if fin {
                    return Err("the coder reports finished".into());
                }
                Ok(())
            })
        });
        space::report(r, &case, res);
        n += 1;
    }
    for via in RVIAS {
        let case = || with(base(), "via", format!("read {:?}", via));
        let res = in_case(&case, || {
            guard(|| -> Result<(), String> {
                let mut rd = LimitR::new(&m.bytes[..k], f, 9);
                let (res, fin) = m.read(via, &mut rd);
                match res {
                    Ok(()) => return Err(format!("success is reported, but the source failed after {} of {} bytes", k, m.bytes.len())),
                    Err(Err(e)) => return Err(e),
                    Err(Ok(e)) => f.carried_by(&e, 9, false)?,
                }
                if fin {
                    return Err("the coder reports finished".into());
                }
                Ok(())
            })
        });
        space::report(r, &case, res);
        n += 1;
    }
    for _ in 0..n {
        r.eval(k > 0, || format!("{} | {} | {:?} after {} of {} bytes", schema_text(m.s), clip(&value_text(&m.v)), f, k, m.bytes.len()));
    }
}

fn clip(s: &str) -> String {
    s.chars().take(200).collect()
}

pub fn c09(r: &Run) {
    r.rule("every byte offset of every message x every way for the sink or source to fail there x every way of writing (value, calls, serde) and reading (value, calls, typed, self-describing, ignoring); nontrivial: some bytes went through first");
    let ms = messages(r, r.pick(4, 5), r.pick(12, 12), false);
    par_for(ms.len(), |i| {
        let m = Msg::new(&ms[i].0, &ms[i].1);
        let few = r.quick() && m.bytes.len() > 40;
        for k in 0..m.bytes.len() {
            for (j, &f) in FAULTS.iter().enumerate() {
                if few && j >= 2 && k > 8 {
                    break;
                }
                check_fault(r, &m, k, f);
            }
        }
    });
    let ls = long_messages();
    par_for(ls.len(), |i| {
        let m = Msg::new(&ls[i].0, &ls[i].1);
        let l = m.bytes.len();
        let mut ks: Vec<usize> = (0..6).chain([l - 1, l - 2, l / 2]).collect();
        for b in [1024usize, 4096, 8192, 16384, 32768, 65536] {
            ks.extend((b - 5..b + 6).filter(|&x| x < l));
        }
        ks.sort();
        ks.dedup();
        for k in ks {
            for f in &FAULTS[..r.pick(9, 9)] {
                check_fault(r, &m, k, *f);
            }
        }
    });
    r.count("long messages", ls.len() as u64);
}

// ---- C10 ----

fn check_frag(r: &Run, m: &Msg, fr: Frag) {
    let base = || with(with(sv(m.s, &m.v), "kind", "frag"), "frag", fr.text());
    let split = fr.chunk < m.bytes.len() || fr.cuts != 0 || fr.intr != 0;
    for via in WVIAS {
        let case = || with(base(), "via", format!("write {:?}", via));
        let res = in_case(&case, || {
            guard(|| -> Result<(), String> {
                let mut w = FragW::new(fr);
                let (res, fin) = m.write(via, &mut w);
                res.map_err(|e| format!("fails with {}", err_brief(&e)))?;
                if w.out != m.bytes || !fin {
                    return Err(format!("wrote {}, expected {} (finished = {})", hex(&w.out), hex(&m.bytes), fin));
                }
                Ok(())
            })
        });
        space::report(r, &case, res);
        r.eval(split, || format!("{} | {} | {:?}", schema_text(m.s), clip(&value_text(&m.v)), fr));
    }
    let mut data = m.bytes.clone();
    data.extend_from_slice(b"\x00\xffrest");
    for via in RVIAS {
        let case = || with(base(), "via", format!("read {:?}", via));
        let res = in_case(&case, || {
            guard(|| -> Result<(), String> {
                let mut rd = FragR::new(&data, fr);
                let (res, fin) = m.read(via, &mut rd);
                match res {
                    Err(Ok(e)) => return Err(format!("fails with {}", err_brief(&e))),
                    Err(Err(e)) => return Err(e),
                    Ok(()) => {}
                }
                if rd.pos != m.bytes.len() || !fin {
                    return Err(format!("consumed {} bytes of {} (finished = {})", rd.pos, m.bytes.len(), fin));
                }
                Ok(())
            })
        });
        space::report(r, &case, res);
        r.eval(split, || format!("{} | {} | {:?}", schema_text(m.s), clip(&value_text(&m.v)), fr));
    }
}

pub fn c10(r: &Run) {
    r.rule("every message x every set of cuts between its bytes (to the length bound; longer ones every chunk size) x interruption patterns of the calls, through every way of writing and reading; nontrivial: the stream is really cut or interrupted");
    let ms = messages(r, r.pick(4, 5), r.pick(12, 12), false);
    let full = r.pick(10usize, 13);
    par_for(ms.len(), |i| {
        let m = Msg::new(&ms[i].0, &ms[i].1);
        let l = m.bytes.len();
        if l == 0 {
            check_frag(r, &m, Frag { cuts: 0, chunk: usize::MAX, intr: u64::MAX });
            return;
        }
        if l <= full {
            for cuts in 0..1u64 << (l - 1) {
                check_frag(r, &m, Frag { cuts, chunk: usize::MAX, intr: 0 });
                check_frag(r, &m, Frag { cuts, chunk: usize::MAX, intr: u64::MAX });
            }
        }
        for chunk in (1..=l.min(24)).chain([usize::MAX]) {
            for intr in [0, u64::MAX, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa] {
                check_frag(r, &m, Frag { cuts: 0, chunk, intr });
            }
        }
        // every pattern of interruptions of the first calls, byte by byte and unsplit
        let n = l.min(r.pick(8, 9));
        for intr in 0..1u64 << n {
            check_frag(r, &m, Frag { cuts: 0, chunk: 1, intr });
            check_frag(r, &m, Frag { cuts: 0, chunk: usize::MAX, intr });
        }
        // each single cut with each single interruption
        if l <= 40 {
            for c in 0..l - 1 {
                for j in 0..4 {
                    check_frag(r, &m, Frag { cuts: 1 << c, chunk: usize::MAX, intr: 1 << j });
                }
            }
        }
    });
    let ls = long_messages();
    par_for(ls.len(), |i| {
        let m = Msg::new(&ls[i].0, &ls[i].1);
        for chunk in [1usize, 2, 3, 7, 100, 511, 512, 513, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 65535, usize::MAX] {
            for intr in [0, u64::MAX, 2] {
                check_frag(r, &m, Frag { cuts: 0, chunk, intr });
                check_frag(r, &m, Frag { cuts: 0x13, chunk, intr });
            }
        }
    });
    r.count("long messages", ls.len() as u64);
    r.note("full cut sets", format!("messages of <= {} bytes", full));
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    let s = parse_schema(get(kvs, "schema"));
    let v = parse_value(get(kvs, "value"));
    let m = Msg::new(&s, &v);
    match get(kvs, "kind") {
        "fault" => check_fault(r, &m, get(kvs, "at").parse().unwrap(), Fault::parse(get(kvs, "fault"))),
        _ => check_frag(r, &m, Frag::parse(get(kvs, "frag"))),
    }
}
