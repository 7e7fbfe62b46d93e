//! C23: wherever a value is due it can be coded by single calls, as a dynamic value or through serde,
//! however the values around it are coded. Every assignment of a way to the parts of a value, on the real coders.
use super::{
    c09_streams::{has_dups, messages},
    c11_recurse::{children, natural_term, shape_for},
    space,
    util::*,
};
use binschema::{error::ErrorKind, value::Value, CoderState, Decoder, Encoder, Schema};
use mcore::{
    gen::{schemas_upto, vcfg, SchemaCfg, Values},
    machine::{dec_call, enc_call, same_ret, DecCall, EncOp, MState, Expect, DecOp, Ret, D},
    refm::{self, Arena},
    report::{guard, in_case, par_for, Run},
    term::{any_term, same_term, Shape},
    text::{hex, parse_schema, parse_value, schema_text, value_text},
};
use serde::{
    de::{DeserializeSeed, IgnoredAny},
    Deserialize, Serialize,
};
use std::sync::atomic::Ordering::Relaxed;

/// How a part of a value is coded.
#[derive(Clone, Debug, PartialEq)]
enum Plan {
    /// by its calls, its parts according to their plans
    Calls(Vec<Plan>),
    Value,
    /// serde: the type's own form
    Serde,
    /// serde, reading only: self-describing
    Any,
    Ignore,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Side {
    Enc,
    Dec,
}

const ENC_WHOLE: [Plan; 2] = [Plan::Value, Plan::Serde];
const DEC_WHOLE: [Plan; 4] = [Plan::Value, Plan::Serde, Plan::Any, Plan::Ignore];

impl Side {
    fn whole(self) -> &'static [Plan] {
        match self {
            Side::Enc => &ENC_WHOLE,
            Side::Dec => &DEC_WHOLE,
        }
    }
}

impl Plan {
    fn text(&self) -> String {
        match self {
            Plan::Calls(p) => format!("c({})", p.iter().map(|p| p.text()).collect::<Vec<_>>().join("")),
            Plan::Value => "v".into(),
            Plan::Serde => "s".into(),
            Plan::Any => "a".into(),
            Plan::Ignore => "i".into(),
        }
    }
    fn parse(s: &str) -> Plan {
        fn go(c: &mut std::iter::Peekable<std::str::Chars>) -> Plan {
            match c.next().unwrap() {
                'v' => Plan::Value,
                's' => Plan::Serde,
                'a' => Plan::Any,
                'i' => Plan::Ignore,
                _ => {
                    c.next();
                    let mut p = Vec::new();
                    while *c.peek().unwrap() != ')' {
                        p.push(go(c));
                    }
                    c.next();
                    Plan::Calls(p)
                }
            }
        }
        go(&mut s.chars().peekable())
    }
    fn mixed(&self) -> bool {
        fn ways(p: &Plan, o: &mut Vec<Plan>) {
            match p {
                Plan::Calls(c) => c.iter().for_each(|p| ways(p, o)),
                p if !o.contains(p) => o.push(p.clone()),
                _ => {}
            }
        }
        let mut o = Vec::new();
        ways(self, &mut o);
        matches!(self, Plan::Calls(_)) && !o.is_empty()
    }
}

fn count(a: &Arena, n: usize, v: &Value, side: Side) -> u64 {
    let n = a.resolve(n).unwrap();
    let c = children(a, n, v).into_iter().fold(1u64, |x, (n, v)| x.saturating_mul(count(a, n, v, side)));
    c.saturating_add(side.whole().len() as u64)
}

/// Plan number `k` of a value.
fn plan(a: &Arena, n: usize, v: &Value, side: Side, k: &mut u64) -> Plan {
    let n = a.resolve(n).unwrap();
    let w = side.whole();
    let total = count(a, n, v, side);
    let mut i = *k % total;
    *k /= total;
    if (i as usize) < w.len() {
        return w[i as usize].clone();
    }
    i -= w.len() as u64;
    Plan::Calls(children(a, n, v).into_iter().map(|(n, v)| plan(a, n, v, side, &mut i)).collect())
}

/// One way everywhere, but the part numbered `at` another way: too many parts for all plans.
fn switch(a: &Arena, n: usize, v: &Value, inner: &Plan, outer: &Plan, at: &mut usize) -> Plan {
    let n = a.resolve(n).unwrap();
    let here = *at == 0;
    *at = at.wrapping_sub(1);
    let ch = children(a, n, v);
    let mut has = here;
    let mut parts = Vec::new();
    for (n, v) in ch {
        let before = *at;
        parts.push(switch(a, n, v, inner, outer, at));
        // the part lay in there
        has |= before < (1 << 40) && *at > (1 << 40);
    }
    match (here, inner) {
        (true, Plan::Calls(_)) => Plan::Calls(parts),
        (true, p) => p.clone(),
        _ if has => Plan::Calls(parts),
        _ => match outer {
            Plan::Calls(_) => Plan::Calls(parts),
            p => p.clone(),
        },
    }
}

fn size(a: &Arena, n: usize, v: &Value) -> usize {
    let n = a.resolve(n).unwrap();
    1 + children(a, n, v).into_iter().map(|(n, v)| size(a, n, v)).sum::<usize>()
}

struct Enc<'s> {
    st: CoderState<'s>,
    out: Vec<u8>,
}

/// The values whose first call is refused wherever something else is due.
fn intruders() -> Vec<Value> {
    vec![
        Value::Unit,
        vu8(9),
        Value::Scalar(binschema::value::ScalarValue::U128(9)),
        Value::Str("wrong".into()),
        Value::Bytes(vec![1, 2]),
        Value::Option(None),
        Value::Option(Some(Box::new(Value::Unit))),
        Value::FixedLenSeq(vec![vu8(1)]),
        Value::VarLenSeq(vec![vu8(1)]),
        Value::Tuple(vec![vu8(1)]),
        vst(vec![("wrong", vu8(1))]),
        vev(77, "wrong", vu8(1)),
    ]
}

impl<'s> Enc<'s> {
    fn call(&mut self, op: &EncOp) -> Result<(), String> {
        enc_call(&mut Encoder::new(&mut self.st, &mut self.out), op).map_err(|e| format!("call {} fails with {}", op.text(), err_brief(&e)))
    }
    fn due(&mut self, a: &Arena, n: usize) -> Result<(), String> {
        let s = Encoder::new(&mut self.st, &mut self.out).need().map_err(|e| format!("a value is due, but need() fails with {}", err_brief(&e)))?;
        if s != a.nodes[n].schema {
            return Err(format!("need() = {}, expected {}", schema_text(s), schema_text(a.nodes[n].schema)));
        }
        Ok(())
    }
    /// What does not belong here is refused and leaves no trace.
    fn intrude(&mut self, a: &Arena, n: usize, m: &MState) -> Result<(), String> {
        for v in intruders() {
            let mut ops = Vec::new();
            enc_ops(&v, &mut ops);
            if !matches!(m.clone().enc(a, &ops[0]), Expect::Reject(_)) {
                continue;
            }
            let at = self.out.len();
            for via in ["as a value", "through serde"] {
                // (lists may be what is due, in serde, under more schemas than as values)
                let list = matches!(v, Value::FixedLenSeq(_) | Value::VarLenSeq(_) | Value::Tuple(_));
                if via == "through serde" && list && matches!(a.nodes[n].schema, Schema::Seq(_) | Schema::Tuple(_) | Schema::Unit) {
                    continue;
                }
                let res = {
                    let mut e = Encoder::new(&mut self.st, &mut self.out);
                    if via == "as a value" { v.encode_to(&mut e) } else { natural_term(&v).serialize(&mut e) }
                };
                match res {
                    Ok(()) => return Err(format!("{} {} is accepted where {} is due", value_text(&v), via, schema_text(a.nodes[n].schema))),
                    Err(e) if e.kind() != ErrorKind::SchemaNonConformance => return Err(format!("{} {} where {} is due: {}", value_text(&v), via, schema_text(a.nodes[n].schema), err_brief(&e))),
                    Err(_) => {}
                }
                if self.out.len() != at {
                    return Err(format!("{} {}, refused, writes {} bytes", value_text(&v), via, self.out.len() - at));
                }
                self.due(a, n).map_err(|e| format!("after {} {} was refused: {}", value_text(&v), via, e))?;
            }
        }
        Ok(())
    }
    fn go(&mut self, a: &Arena, n: usize, v: &Value, p: &Plan, mut m: Option<&mut MState>) -> Result<(), String> {
        let n = a.resolve(n).unwrap();
        self.due(a, n)?;
        if let Some(m) = &m {
            self.intrude(a, n, m)?;
        }
        if self.st.is_finished() {
            return Err("a value is due, but the coder reports finished".into());
        }
        let parts = match p {
            Plan::Calls(parts) => parts,
            _ => {
                let mut e = Encoder::new(&mut self.st, &mut self.out);
                return match p {
                    Plan::Value => v.encode_to(&mut e),
                    _ => natural_term(v).serialize(&mut e),
                }
                .map_err(|e| format!("{} at {} fails with {}", if *p == Plan::Value { "the value" } else { "serde" }, schema_text(a.nodes[n].schema), err_brief(&e)));
            }
        };
        let call = |me: &mut Self, op: EncOp, m: &mut Option<&mut MState>| {
            if let Some(m) = m {
                m.enc(a, &op);
            }
            me.call(&op)
        };
        let ch = children(a, n, v);
        macro_rules! parts {
            ($pre:expr) => {
                for (i, (c, x)) in ch.iter().enumerate() {
                    call(self, $pre(i), &mut m)?;
                    self.go(a, *c, x, &parts[i], m.as_deref_mut())?;
                }
            };
        }
        match v {
            Value::Option(Some(_)) => parts!(|_| EncOp::Some),
            Value::FixedLenSeq(e) | Value::VarLenSeq(e) => {
                call(self, if matches!(v, Value::FixedLenSeq(_)) { EncOp::Fixed(e.len()) } else { EncOp::Var(e.len()) }, &mut m)?;
                parts!(|_| EncOp::Elem);
                call(self, EncOp::FinSeq, &mut m)?;
            }
            Value::Tuple(_) => {
                call(self, EncOp::Tuple, &mut m)?;
                parts!(|_| EncOp::TElem);
                call(self, EncOp::FinTuple, &mut m)?;
            }
            Value::Struct(f) => {
                call(self, EncOp::Struct, &mut m)?;
                parts!(|i: usize| EncOp::Field(f[i].name.clone()));
                call(self, EncOp::FinStruct, &mut m)?;
            }
            Value::Enum(x) => parts!(|_| EncOp::Enum(x.variant_ord, x.variant_name.clone())),
            leaf => {
                let mut o = Vec::new();
                enc_ops(leaf, &mut o);
                call(self, o.pop().unwrap(), &mut m)?;
            }
        }
        Ok(())
    }
}

struct Dec<'s, 'b> {
    st: CoderState<'s>,
    rd: &'b [u8],
    dup: bool,
}

impl<'s, 'b> Dec<'s, 'b> {
    fn call(&mut self, call: DecCall, want: Ret) -> Result<(), String> {
        let got = dec_call(&mut Decoder::new(&mut self.st, &mut self.rd), &call);
        let text = || DecOp::new(call.clone(), vec![]).text();
        let got = got.map_err(|e| format!("call {} fails with {}", text(), err_brief(&e)))?;
        if !same_ret(&got, &want) {
            return Err(format!("call {} returns {:?}, expected {:?}", text(), got, want));
        }
        Ok(())
    }
    fn go(&mut self, a: &Arena, n: usize, v: &Value, p: &Plan) -> Result<(), String> {
        let n = a.resolve(n).unwrap();
        let s = a.nodes[n].schema;
        let due = Decoder::new(&mut self.st, &mut self.rd).need().map_err(|e| format!("a value is due, but need() fails with {}", err_brief(&e)))?;
        if due != s {
            return Err(format!("need() = {}, expected {}", schema_text(due), schema_text(s)));
        }
        if self.st.is_finished() {
            return Err("a value is due, but the coder reports finished".into());
        }
        let parts = match p {
            Plan::Calls(parts) => parts,
            _ => {
                let mut d = Decoder::new(&mut self.st, &mut self.rd);
                let bad = |e| format!("reading {} ({:?}) fails with {}", schema_text(s), p, err_brief(&e));
                match p {
                    Plan::Value => {
                        let x = Value::decode_from(&mut d).map_err(bad)?;
                        if !refm::same(&x, v) {
                            return Err(format!("read {}, expected {}", value_text(&x), value_text(v)));
                        }
                    }
                    Plan::Ignore => {
                        IgnoredAny::deserialize(&mut d).map_err(bad)?;
                    }
                    _ => {
                        let (x, want) = if *p == Plan::Any || self.dup {
                            (Shape::Any.deserialize(&mut d).map_err(bad)?, any_term(a, v))
                        } else {
                            (shape_for(a, n, &[v]).deserialize(&mut d).map_err(bad)?, natural_term(v))
                        };
                        if !same_term(&x, &want) {
                            return Err(format!("read {} ({:?}), expected {}", x.text(), p, want.text()));
                        }
                    }
                }
                return Ok(());
            }
        };
        let ch = children(a, n, v);
        match v {
            Value::Option(Some(_)) => {
                self.call(DecCall::Plain(D::Option), Ret::Some(true))?;
                self.go(a, ch[0].0, ch[0].1, &parts[0])?;
            }
            Value::Option(None) => self.call(DecCall::Plain(D::Option), Ret::Some(false))?,
            Value::FixedLenSeq(_) | Value::VarLenSeq(_) => {
                match v {
                    Value::FixedLenSeq(e) => self.call(DecCall::Fixed(e.len()), Ret::None)?,
                    _ => self.call(DecCall::Plain(D::Var), Ret::Num(ch.len()))?,
                }
                for (i, (c, x)) in ch.iter().enumerate() {
                    self.call(DecCall::Plain(D::Elem), Ret::None)?;
                    self.go(a, *c, x, &parts[i])?;
                }
                self.call(DecCall::Plain(D::FinSeq), Ret::None)?;
            }
            Value::Tuple(_) => {
                self.call(DecCall::Plain(D::Tuple), Ret::None)?;
                for (i, (c, x)) in ch.iter().enumerate() {
                    self.call(DecCall::Plain(D::TElem), Ret::None)?;
                    self.go(a, *c, x, &parts[i])?;
                }
                self.call(DecCall::Plain(D::FinTuple), Ret::None)?;
            }
            Value::Struct(f) => {
                self.call(DecCall::Plain(D::Struct), Ret::None)?;
                for (i, (c, x)) in ch.iter().enumerate() {
                    self.call(DecCall::Field(f[i].name.clone()), Ret::None)?;
                    self.go(a, *c, x, &parts[i])?;
                }
                self.call(DecCall::Plain(D::FinStruct), Ret::None)?;
            }
            Value::Enum(e) => {
                self.call(DecCall::Plain(D::Enum), Ret::Num(e.variant_ord))?;
                self.call(DecCall::Variant(e.variant_name.clone()), Ret::None)?;
                self.go(a, ch[0].0, ch[0].1, &parts[0])?;
            }
            leaf => {
                let op = dec_ops(s, leaf).remove(0);
                self.call(op.call, if *leaf == Value::Unit { Ret::None } else { Ret::Value(leaf.clone()) })?;
            }
        }
        Ok(())
    }
}

fn check_enc(r: &Run, s: &Schema, a: &Arena, v: &Value, bytes: &[u8], p: &Plan, intrude: bool) {
    let case = || with(with(with(sv(s, v), "side", "write"), "plan", p.text()), "intrude", intrude as u8);
    in_case(&case, || {
        let res = guard(|| -> Result<(), String> {
            let mut e = Enc { st: CoderState::new(s, Default::default(), None), out: Vec::new() };
            let mut m = MState::new(a);
            e.go(a, 0, v, p, if intrude { Some(&mut m) } else { None })?;
            if e.out != bytes {
                return Err(format!("wrote {}, expected {}", hex(&e.out), hex(bytes)));
            }
            e.st.is_finished_or_err().map_err(|_| "all is written, but the coder does not report finished".to_string())
        });
        space::report(r, &case, res);
        done(r, p, || format!("write {} | {} | {}", schema_text(s), value_text(v), p.text()));
    })
}

fn check_dec(r: &Run, s: &Schema, a: &Arena, v: &Value, bytes: &[u8], dup: bool, p: &Plan) {
    let case = || with(with(sv(s, v), "side", "read"), "plan", p.text());
    in_case(&case, || {
        let res = guard(|| -> Result<(), String> {
            let mut data = bytes.to_vec();
            data.extend_from_slice(b"\x01\xff\x00rest");
            let mut d = Dec { st: CoderState::new(s, Default::default(), None), rd: &data, dup };
            d.go(a, 0, v, p)?;
            if d.rd.len() != 7 {
                return Err(format!("{} bytes taken of {}", data.len() - d.rd.len(), bytes.len()));
            }
            d.st.is_finished_or_err().map_err(|_| "all is read, but the coder does not report finished".to_string())
        });
        space::report(r, &case, res);
        done(r, p, || format!("read {} | {} | {}", schema_text(s), value_text(v), p.text()));
    })
}

fn done(r: &Run, p: &Plan, text: impl Fn() -> String) {
    r.state(&text);
    r.eval(p.mixed(), text);
    r.traces.fetch_add(1, Relaxed);
    fn steps(p: &Plan) -> u64 {
        match p {
            Plan::Calls(c) => 1 + c.iter().map(steps).sum::<u64>(),
            _ => 1,
        }
    }
    r.transitions.fetch_add(steps(p), Relaxed);
}

/// All ways through one value, up to the cap; else all single switches.
fn check_value(r: &Run, s: &Schema, v: &Value, cap: u64) {
    let a = Arena::new(s);
    let bytes = ref_bytes(s, v).expect("conforms");
    let dup = has_dups(&a);
    for side in [Side::Enc, Side::Dec] {
        let one = |p: &Plan| match side {
            Side::Enc => check_enc(r, s, &a, v, &bytes, p, false),
            Side::Dec => check_dec(r, s, &a, v, &bytes, dup, p),
        };
        let n = count(&a, 0, v, side);
        if n <= cap {
            for k in 0..n {
                one(&plan(&a, 0, v, side, &mut { k }));
            }
        } else {
            let mut ways = side.whole().to_vec();
            ways.push(Plan::Calls(vec![]));
            // of very many parts, the first and the last
            let parts = size(&a, 0, v);
            for at in (0..parts).filter(|&i| parts <= 60 || i < 6 || i + 6 >= parts) {
                for inner in &ways {
                    for outer in &ways {
                        one(&switch(&a, 0, v, inner, outer, &mut { at }));
                    }
                }
            }
        }
    }
    // call by call, with what does not belong there before every part
    check_enc(r, s, &a, v, &bytes, &switch(&a, 0, v, &Plan::Calls(vec![]), &Plan::Calls(vec![]), &mut 0), true);
}

fn universe(r: &Run) -> Vec<(Schema, Value)> {
    let mut o = messages(r, r.pick(4, 5), r.pick(12, 40), false);
    o.extend(super::c11_recurse::mutual().into_iter().flat_map(|s| {
        let a = Arena::new(&s);
        let (v, _) = Values::new(&a, vcfg(false, 2)).upto(0, 12, 300);
        v.into_iter().map(|v| (s.clone(), v)).collect::<Vec<_>>()
    }));
    // many parts
    for n in [127usize, 128, 129, 256, 300] {
        let el = || option(u8s());
        let v = |i: usize| Value::Option(if i % 3 == 0 { None } else { Some(Box::new(vu8(i as u8))) });
        let vs: Vec<Value> = (0..n).map(v).collect();
        o.push((seq(None, el()), Value::VarLenSeq(vs.clone())));
        o.push((seq(Some(n), el()), Value::FixedLenSeq(vs.clone())));
        o.push((Schema::Tuple((0..n).map(|_| el()).collect()), Value::Tuple(vs.clone())));
        let names: Vec<&'static str> = (0..n).map(|i| &*Box::leak(format!("f{}", i).into_boxed_str())).collect();
        o.push((st(names.iter().map(|x| (*x, el())).collect()), vst(names.iter().enumerate().map(|(i, x)| (*x, v(i))).collect())));
        o.push((seq(Some(2), en(names.iter().map(|x| (*x, el())).collect())), Value::FixedLenSeq(vec![vev(n - 1, names[n - 1], v(1)), vev(n / 2, names[n / 2], v(0))])));
    }
    // longer sequences and values, of the smaller schemas
    for s in schemas_upto(&SchemaCfg::small(), 3) {
        let a = Arena::new(&s);
        let (v, _) = Values::new(&a, vcfg(false, 4)).upto(0, 9, r.pick(60, 300));
        o.extend(v.into_iter().map(|v| (s.clone(), v)));
    }
    o
}

pub fn c23(r: &Run) {
    r.rule("a state is a value and an assignment of a way (calls, dynamic value, serde; reading also self-describing and ignoring) to its parts; nontrivial: a part inside is coded another way than the value around it");
    let u = universe(r);
    let cap = r.pick(3000, 60000);
    r.note("assignments", format!("all if at most {}, else every single part coded one way with all others another", cap));
    r.count("values", u.len() as u64);
    par_for(u.len(), |i| check_value(r, &u[i].0, &u[i].1, cap));
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    let s = parse_schema(get(kvs, "schema"));
    let v = parse_value(get(kvs, "value"));
    let a = Arena::new(&s);
    let bytes = ref_bytes(&s, &v).expect("conforms");
    let p = Plan::parse(get(kvs, "plan"));
    match get(kvs, "side") {
        "write" => check_enc(r, &s, &a, &v, &bytes, &p, get(kvs, "intrude") == "1"),
        _ => check_dec(r, &s, &a, &v, &bytes, has_dups(&a), &p),
    }
}
