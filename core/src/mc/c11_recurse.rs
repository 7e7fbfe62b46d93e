//! C11, C22: recursion. C11 replaces every recurse by the schema node it stands for and compares the
//! real coders with themselves; C22 puts recurse nodes that stand for nothing everywhere.
use super::{
    space::{self, *},
    util::*,
};
use binschema::{
    error::ErrorKind,
    value::{StructValueField, Value},
    CoderState, Decoder, Encoder, EnumSchemaVariant, Schema, SeqSchema, StructSchemaField,
};
use mcore::{
    gen::{schemas_upto, vcfg, SchemaCfg, Values},
    machine::{parse_ops, Alpha, Expect, LiveDec, LiveEnc, MState, ILLEGAL},
    refm::{self, Arena, Kind},
    report::{guard, in_case, par_for, Run},
    term::{any_term, intern, same_term, CShape, Content, Shape, Term},
    text::{hex, parse_schema, parse_value, schema_text, value_text},
};
use serde::{
    de::{DeserializeSeed, IgnoredAny},
    Deserialize, Serialize,
};
use std::sync::atomic::Ordering::Relaxed;

fn rec(n: usize) -> Schema {
    Schema::Recurse(n)
}

/// Schemas with several recurse nodes that reach each other.
pub fn mutual() -> Vec<Schema> {
    vec![
        option(en(vec![("a", rec(1)), ("b", rec(2))])),
        option(st(vec![("a", option(rec(1))), ("b", option(rec(2))), ("c", option(rec(3)))])),
        seq(None, Schema::Tuple(vec![seq(None, rec(1)), seq(None, rec(2)), seq(None, rec(3))])),
        en(vec![("nil", Schema::Unit), ("cons", Schema::Tuple(vec![u8s(), rec(2)])), ("two", st(vec![("l", rec(2)), ("r", rec(2))]))]),
        // json-like
        en(vec![("null", Schema::Unit), ("num", u8s()), ("arr", seq(None, rec(2))), ("obj", seq(None, Schema::Tuple(vec![Schema::Str, rec(3)])))]),
        // recursion through recursion: the inner list knows the outer one
        st(vec![("kids", seq(None, st(vec![("own", seq(None, rec(1))), ("up", seq(None, rec(3))), ("mid", option(rec(2)))]))), ("v", u8s())]),
        option(option(option(en(vec![("p", rec(1)), ("q", rec(2)), ("r", rec(3)), ("s", rec(4)), ("t", u8s())])))),
        seq(Some(2), option(st(vec![("x", option(rec(1))), ("y", option(rec(3))), ("z", u8s())]))),
        // recurse to a recursing sibling's ancestor, deep ladder
        option(Schema::Tuple(vec![option(Schema::Tuple(vec![option(Schema::Tuple(vec![option(rec(2)), option(rec(4)), option(rec(6)), u8s()])), u8s()])), u8s()])),
        Schema::Tuple(vec![st(vec![("e", en(vec![("u", Schema::Unit), ("self", rec(1)), ("st", rec(2)), ("tup", rec(3))]))]), u8s()]),
    ]
}

/// Schemas in which recursion is the point.
fn recursive_universe(r: &Run) -> Vec<Schema> {
    let mut v = mutual();
    let n = r.pick(4, 5);
    v.extend(schemas_upto(&SchemaCfg::small(), n).into_iter().filter(|s| Arena::new(s).has_recurse()));
    let lean = SchemaCfg { seq_lens: vec![None], widths: vec![1, 2], ..SchemaCfg::tiny() };
    let m = r.pick(5, 6);
    v.extend(schemas_upto(&lean, m).into_iter().filter(|s| Arena::new(s).has_recurse() && mcore::gen::size_of_schema(s) > n));
    // schemas without any finite value have nothing to compare
    v.retain(|s| Arena::new(s).min_height()[0].is_some());
    r.note("schema universe", format!("{} recursive schemas with values: {} mutually recursive ones by hand, all of <= {} nodes (u8/str/unit, all constructors), all of <= {} nodes (u8, var seq, widths 1-2)", v.len(), mutual().len(), n, m));
    v
}

/// Two ways on from one node below others: every pair of chains of constructors which end in a
/// recurse of every level, within one node, within every kind of outer node.
fn gadgets(r: &Run) -> Vec<Schema> {
    let e = |s: Schema| en(vec![("end", Schema::Unit), ("on", s)]);
    let build = |chain: &[u8], mut s: Schema| {
        for c in chain.iter().rev() {
            s = match c {
                b'o' => option(s),
                b's' => seq(None, s),
                b'f' => seq(Some(2), s),
                b'e' => e(s),
                b't' => Schema::Tuple(vec![u8s(), s]),
                _ => st(vec![("x", s), ("y", Schema::Unit)]),
            };
        }
        s
    };
    let chains: &[&[u8]] = if r.quick() { &[b"o", b"s", b"os", b"se", b"eo"] } else { &[b"o", b"s", b"e", b"os", b"so", b"se", b"eo", b"et", b"tos", b"sno", b"ofo", b"sss"] };
    let outers: &[&[u8]] = if r.quick() { &[b"t", b"s", b"eo", b"no"] } else { &[b"", b"t", b"o", b"s", b"f", b"eo", b"no", b"ts", b"eot"] };
    let mut o = Vec::new();
    for outer in outers {
        let arms: Vec<Schema> = chains.iter().flat_map(|c| (1..=c.len() + 1 + outer.len()).map(move |l| (c, l))).map(|(c, l)| build(c, rec(l))).collect();
        for (i, a) in arms.iter().enumerate() {
            for (j, b) in arms.iter().enumerate() {
                let (a, b) = (a.clone(), b.clone());
                o.push(build(outer, if (i + j) % 2 == 0 { Schema::Tuple(vec![a, b]) } else { en(vec![("a", a), ("b", b), ("c", Schema::Unit)]) }));
            }
        }
    }
    o.retain(|s| {
        let a = Arena::new(s);
        a.legal() && a.min_height()[0].is_some()
    });
    o
}

/// Children of a value, each with the schema node it sits at.
pub fn children<'v>(a: &Arena, n: usize, v: &'v Value) -> Vec<(usize, &'v Value)> {
    match (v, &a.nodes[n].kind) {
        (Value::Option(Some(x)), Kind::Option(c)) => vec![(*c, x)],
        (Value::FixedLenSeq(e) | Value::VarLenSeq(e), Kind::Seq(_, c)) => e.iter().map(|x| (*c, x)).collect(),
        (Value::Tuple(e), Kind::Tuple(c)) => c.iter().copied().zip(e).collect(),
        (Value::Struct(f), Kind::Struct(c)) => c.iter().map(|x| x.1).zip(f.iter().map(|x| &x.value)).collect(),
        (Value::Enum(e), Kind::Enum(c)) => vec![(c[e.variant_ord].1, &*e.value)],
        _ => vec![],
    }
}

/// The schema at node `n` with every recurse replaced by the node it means, as far as the values
/// standing there go; what no value visits becomes unit.
fn unfold(a: &Arena, n: usize, vals: &[&Value]) -> Schema {
    if vals.is_empty() {
        return Schema::Unit;
    }
    let n = a.resolve(n).expect("legal");
    let at = |c: usize, slot: usize, slots: usize| {
        // children number `slot` of every value (all of them for sequences)
        let mut o = Vec::new();
        for v in vals {
            let ch = children(a, n, v);
            match v {
                Value::Enum(e) => {
                    if e.variant_ord == slot {
                        o.extend(ch.into_iter().map(|x| x.1));
                    }
                }
                Value::FixedLenSeq(_) | Value::VarLenSeq(_) | Value::Option(_) => o.extend(ch.into_iter().map(|x| x.1)),
                _ => {
                    debug_assert_eq!(ch.len(), slots);
                    o.push(ch[slot].1);
                }
            }
        }
        unfold(a, c, &o)
    };
    match &a.nodes[n].kind {
        Kind::Scalar(t) => Schema::Scalar(*t),
        Kind::Str => Schema::Str,
        Kind::Bytes => Schema::Bytes,
        Kind::Unit => Schema::Unit,
        Kind::Option(c) => Schema::Option(Box::new(at(*c, 0, 1))),
        Kind::Seq(len, c) => Schema::Seq(SeqSchema { len: *len, inner: Box::new(at(*c, 0, 1)) }),
        Kind::Tuple(c) => Schema::Tuple(c.iter().enumerate().map(|(i, x)| at(*x, i, c.len())).collect()),
        Kind::Struct(c) => Schema::Struct(c.iter().enumerate().map(|(i, x)| StructSchemaField { name: x.0.to_string(), inner: at(x.1, i, c.len()) }).collect()),
        Kind::Enum(c) => Schema::Enum(c.iter().enumerate().map(|(i, x)| EnumSchemaVariant { name: x.0.to_string(), inner: at(x.1, i, c.len()) }).collect()),
        Kind::Recurse(_) => unreachable!(),
    }
}

/// A shape to read these values with.
pub fn shape_for(a: &Arena, n: usize, vals: &[&Value]) -> Shape {
    if vals.is_empty() {
        return Shape::Unit;
    }
    let n = match a.resolve(n) {
        Some(n) => n,
        None => return Shape::Unit,
    };
    let at = |c: usize, slot: usize| {
        let mut o = Vec::new();
        for v in vals {
            let ch = children(a, n, v);
            match v {
                Value::Enum(e) => {
                    if e.variant_ord == slot {
                        o.extend(ch.into_iter().map(|x| x.1));
                    }
                }
                Value::FixedLenSeq(_) | Value::VarLenSeq(_) | Value::Option(_) => o.extend(ch.into_iter().map(|x| x.1)),
                _ => o.push(ch[slot].1),
            }
        }
        shape_for(a, c, &o)
    };
    match &a.nodes[n].kind {
        Kind::Scalar(t) => Shape::Scalar(*t),
        Kind::Str => Shape::String,
        Kind::Bytes => Shape::ByteBuf,
        Kind::Unit => Shape::Unit,
        Kind::Option(c) => Shape::Option(Box::new(at(*c, 0))),
        Kind::Seq(_, c) => Shape::Seq(Box::new(at(*c, 0))),
        Kind::Tuple(c) => Shape::Tuple(c.iter().enumerate().map(|(i, x)| at(*x, i)).collect()),
        Kind::Struct(c) => Shape::Struct(CShape::Struct(c.iter().enumerate().map(|(i, x)| (intern(x.0), at(x.1, i))).collect())),
        Kind::Enum(c) => Shape::Enum(c.iter().enumerate().map(|(i, x)| (intern(x.0), CShape::Newtype(Box::new(at(x.1, i))))).collect()),
        Kind::Recurse(_) => unreachable!(),
    }
}

/// How a program with matching types would serialize this value.
pub fn natural_term(v: &Value) -> Term {
    match v {
        Value::Scalar(s) => Term::Scalar(*s),
        Value::Str(s) => Term::Str(s.clone()),
        Value::Bytes(s) => Term::Bytes(s.clone()),
        Value::Unit => Term::Unit,
        Value::Option(None) => Term::None,
        Value::Option(Some(x)) => Term::Some(Box::new(natural_term(x))),
        Value::FixedLenSeq(e) | Value::VarLenSeq(e) => Term::Seq(Some(e.len()), e.iter().map(natural_term).collect()),
        Value::Tuple(e) => Term::Tuple(e.iter().map(natural_term).collect()),
        Value::Struct(f) => Term::Struct(Content::Struct(f.iter().map(|x| (intern(&x.name), Some(natural_term(&x.value)))).collect())),
        Value::Enum(e) => Term::Variant(e.variant_ord as u32, intern(&e.variant_name), Content::Newtype(Box::new(natural_term(&e.value)))),
    }
}

fn reads_back(s: &Schema, b: &[u8], want: &Value) -> Result<(), String> {
    let (d, used) = decode_slice(s, b)?;
    match d.res {
        Err(e) => Err(format!("decoding fails with {}", err_brief(&e))),
        Ok(v) if !refm::same(&v, want) => Err(format!("decodes as {}", value_text(&v))),
        Ok(_) if used != b.len() || !d.finished => Err(format!("{} of {} bytes taken, finished = {}", used, b.len(), d.finished)),
        Ok(_) => Ok(()),
    }
}

/// One value under the recursive schema and under the unfolded one.
fn check_unfold(r: &Run, s: &Schema, a: &Arena, v: &Value) {
    let case = || with(sv(s, v), "kind", "unfold");
    in_case(&case, || {
        let u = unfold(a, 0, &[v]);
        let res = guard(|| -> Result<(), String> {
            let b1 = encode_vec(&u, v).map_err(|e| format!("under the unfolded schema: {}", e))?;
            let b2 = encode_vec(s, v)?;
            if b1 != b2 {
                return Err(format!("encodes as {}, but under the unfolded schema as {}", hex(&b2), hex(&b1)));
            }
            reads_back(s, &b1, v).map_err(|e| format!("under the recursive schema {}", e))?;
            reads_back(&u, &b2, v).map_err(|e| format!("under the unfolded schema {}", e))?;
            // call by call; the schema reported as needed is the node itself, never a recurse
            let mut ops = Vec::new();
            enc_ops(v, &mut ops);
            let mut l = LiveEnc::new(s);
            let mut m = MState::new(a);
            for op in &ops {
                judge_state::<E>(&mut l, &m, a, true)?;
                let exp = m.enc(a, op);
                judge_step(&exp, &l.step(op), false).map_err(|e| format!("encoder call {}: {}", op.text(), e))?;
            }
            judge_state::<E>(&mut l, &m, a, true)?;
            let mut l = LiveDec::new(s);
            let mut m = MState::new(a);
            for op in dec_ops(s, v) {
                judge_state::<D>(&mut l, &m, a, true)?;
                let exp = m.dec(a, &op);
                judge_step(&exp, &l.step(&op), false).map_err(|e| format!("decoder call {}: {}", op.text(), e))?;
            }
            judge_state::<D>(&mut l, &m, a, true)?;
            r.transitions.fetch_add(2 * ops.len() as u64, Relaxed);
            // serde
            let t = natural_term(v);
            let mut st = CoderState::new(s, Default::default(), None);
            let mut o = Vec::new();
            t.serialize(&mut Encoder::new(&mut st, &mut o)).map_err(|e| format!("serde: {}", err_brief(&e)))?;
            if o != b1 || !st.is_finished() {
                return Err(format!("serde encodes as {}, expected {}", hex(&o), hex(&b1)));
            }
            let sh = shape_for(a, 0, &[v]);
            let mut st = CoderState::new(s, Default::default(), None);
            let mut rd = &b1[..];
            let back = sh.deserialize(&mut Decoder::new(&mut st, &mut rd)).map_err(|e| format!("serde decode: {}", err_brief(&e)))?;
            if !same_term(&back, &t) || !rd.is_empty() || !st.is_finished() {
                return Err(format!("serde decodes {}", back.text()));
            }
            Ok(())
        });
        space::report(r, &case, res);
        r.state(|| format!("{} | {}", schema_text(s), value_text(v)));
        r.traces.fetch_add(5, Relaxed);
    })
}

// ---- deep values: walks over the recurse nodes ----

/// Where in a sequence of any length the value goes on: after and before how many minimal elements.
#[derive(Clone, Copy)]
struct Place {
    before: usize,
    after: usize,
}
const PLACES: [Place; 4] = [Place { before: 0, after: 1 }, Place { before: 1, after: 0 }, Place { before: 2, after: 1 }, Place { before: 5, after: 0 }];

struct Walker<'a, 's> {
    a: &'a Arena<'s>,
    mh: Vec<Option<u32>>,
    /// recurse nodes with the node each means
    recs: Vec<(usize, usize)>,
}

impl<'a, 's> Walker<'a, 's> {
    fn new(a: &'a Arena<'s>) -> Self {
        let recs = (0..a.nodes.len()).filter(|&i| matches!(a.nodes[i].kind, Kind::Recurse(_))).map(|i| (i, a.resolve(i).unwrap())).collect();
        Walker { a, mh: a.min_height(), recs }
    }
    fn below(&self, mut n: usize, top: usize) -> bool {
        loop {
            if n == top {
                return true;
            }
            match self.a.nodes[n].parent {
                Some(p) => n = p,
                None => return false,
            }
        }
    }
    /// Smallest value of a node.
    fn minimal(&self, n: usize) -> Option<Value> {
        let n = self.a.resolve(n)?;
        self.mh[n]?;
        Some(match &self.a.nodes[n].kind {
            Kind::Scalar(t) => Value::Scalar(mcore::gen::scalar_menu(*t, false)[0]),
            Kind::Str => Value::Str("m".into()),
            Kind::Bytes => Value::Bytes(vec![1]),
            Kind::Unit => Value::Unit,
            Kind::Option(_) => Value::Option(None),
            Kind::Seq(None, _) => Value::VarLenSeq(vec![]),
            Kind::Seq(Some(l), c) => Value::FixedLenSeq((0..*l).map(|_| self.minimal(*c)).collect::<Option<_>>()?),
            Kind::Tuple(c) => Value::Tuple(c.iter().map(|&c| self.minimal(c)).collect::<Option<_>>()?),
            Kind::Struct(c) => Value::Struct(c.iter().map(|&(n, c)| Some(StructValueField { name: n.to_string(), value: self.minimal(c)? })).collect::<Option<_>>()?),
            Kind::Enum(c) => {
                let best = (0..c.len()).filter_map(|i| self.a.resolve(c[i].1).and_then(|k| self.mh[k]).map(|h| (h, i))).min()?.1;
                vev(best, c[best].0, self.minimal(c[best].1)?)
            }
            Kind::Recurse(_) => unreachable!(),
        })
    }
    /// A value of `top` that has `inner` at its descendant `at` and is minimal elsewhere.
    fn wrap(&self, top: usize, at: usize, inner: Value, last: Place) -> Option<Value> {
        if top == at {
            return Some(inner);
        }
        let pick = |c: usize| self.below(at, c);
        Some(match &self.a.nodes[top].kind {
            Kind::Option(c) => Value::Option(Some(Box::new(self.wrap(*c, at, inner, last)?))),
            Kind::Seq(None, c) => {
                let x = self.wrap(*c, at, inner, last)?;
                match self.minimal(*c) {
                    Some(m) => {
                        let mut v = vec![m; last.before + last.after];
                        v.insert(last.before, x);
                        Value::VarLenSeq(v)
                    }
                    None => Value::VarLenSeq(vec![x]),
                }
            }
            Kind::Seq(Some(l), c) => {
                let mut v = (1..*l).map(|_| self.minimal(*c)).collect::<Option<Vec<_>>>()?;
                let x = self.wrap(*c, at, inner, last)?;
                if *l == 0 {
                    return None;
                }
                v.insert(last.before.min(l - 1), x);
                Value::FixedLenSeq(v)
            }
            Kind::Tuple(c) => Value::Tuple(c.iter().map(|&c| if pick(c) { self.wrap(c, at, inner.clone(), last) } else { self.minimal(c) }).collect::<Option<_>>()?),
            Kind::Struct(c) => Value::Struct(
                c.iter()
                    .map(|&(n, c)| Some(StructValueField { name: n.to_string(), value: if pick(c) { self.wrap(c, at, inner.clone(), last)? } else { self.minimal(c)? } }))
                    .collect::<Option<_>>()?,
            ),
            Kind::Enum(c) => {
                let i = (0..c.len()).find(|&i| pick(c[i].1))?;
                vev(i, c[i].0, self.wrap(c[i].1, at, inner, last)?)
            }
            _ => return None,
        })
    }
    /// A value which goes through `depth` recurse nodes everywhere, with sequences of `width`
    /// elements; the variants of enums take turns. None if it gets larger than `left` nodes.
    fn bushy(&self, n: usize, mut depth: usize, width: usize, turn: &mut usize, left: &mut usize) -> Option<Value> {
        *left = left.checked_sub(1)?;
        if let Kind::Recurse(_) = self.a.nodes[n].kind {
            if depth == 0 {
                return self.minimal(n);
            }
            depth -= 1;
        }
        let n = self.a.resolve(n)?;
        let mut go = |c: usize| self.bushy(c, depth, width, turn, left);
        Some(match &self.a.nodes[n].kind {
            Kind::Option(c) => match self.mh[self.a.resolve(*c)?] {
                Some(_) => Value::Option(Some(Box::new(go(*c)?))),
                None => Value::Option(None),
            },
            Kind::Seq(None, c) => match self.mh[self.a.resolve(*c)?] {
                Some(_) => Value::VarLenSeq((0..width).map(|_| go(*c)).collect::<Option<_>>()?),
                None => Value::VarLenSeq(vec![]),
            },
            Kind::Seq(Some(l), c) => Value::FixedLenSeq((0..*l).map(|_| go(*c)).collect::<Option<_>>()?),
            Kind::Tuple(c) => Value::Tuple(c.iter().map(|&c| go(c)).collect::<Option<_>>()?),
            Kind::Struct(c) => Value::Struct(c.iter().map(|&(n, c)| Some(StructValueField { name: n.to_string(), value: go(c)? })).collect::<Option<_>>()?),
            Kind::Enum(c) => {
                let can: Vec<usize> = (0..c.len()).filter(|&i| self.a.resolve(c[i].1).is_some_and(|k| self.mh[k].is_some())).collect();
                *turn += 1;
                let i = can[*turn % can.len()];
                vev(i, c[i].0, self.bushy(c[i].1, depth, width, turn, left)?)
            }
            _ => return self.minimal(n),
        })
    }
    /// The value that goes through these recurse nodes in turn.
    fn value(&self, walk: &[usize], last: Place) -> Option<Value> {
        let end = self.recs[*walk.last()?].1;
        let mut v = self.minimal(end)?;
        for i in (0..walk.len()).rev() {
            let top = if i == 0 { 0 } else { self.recs[walk[i - 1]].1 };
            v = self.wrap(top, self.recs[walk[i]].0, v, last)?;
        }
        Some(v)
    }
    fn walks(&self, len: usize, o: &mut Vec<Vec<usize>>) {
        let mut level: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..len {
            let mut next = Vec::new();
            for w in &level {
                let top = w.last().map_or(0, |&x| self.recs[x].1);
                for i in 0..self.recs.len() {
                    if self.below(self.recs[i].0, top) {
                        let mut x = w.clone();
                        x.push(i);
                        next.push(x);
                    }
                }
            }
            o.extend(next.iter().cloned());
            level = next;
            if level.len() > 3000 {
                break;
            }
        }
    }
}

pub fn c11(r: &Run) {
    r.rule("a state is a (recursive schema, value) pair, or a coder state of one; every recurse of the schema is replaced by the node it means along the value and both schemas must behave alike on the real coders; walks go through every sequence of recurse nodes");
    let v = recursive_universe(r);
    let (max, cap) = r.pick((9, 60), (14, 500));
    let len = r.pick(4, 5);
    par_for(v.len(), |i| {
        let s = &v[i];
        let a = Arena::new(s);
        let (vals, _) = Values::new(&a, vcfg(false, 2)).upto(0, max, cap);
        for x in &vals {
            check_unfold(r, s, &a, x);
        }
        let w = Walker::new(&a);
        let has_seq = a.nodes.iter().any(|n| matches!(n.kind, Kind::Seq(..)));
        let mut walks = Vec::new();
        w.walks(len, &mut walks);
        let mut n = 0;
        for x in &walks {
            for (i, place) in PLACES.into_iter().enumerate() {
                if i > 1 && (x.len() > 3 || !has_seq) {
                    continue;
                }
                if let Some(v) = w.value(x, place) {
                    check_unfold(r, s, &a, &v);
                    n += 1;
                }
            }
        }
        // the same walks going round and round
        let mut deep = Vec::new();
        w.walks(2, &mut deep);
        for x in &deep {
            let top = w.recs[*x.last().unwrap()].1;
            if !w.below(w.recs[x[0]].0, top) {
                continue;
            }
            for times in [8, 33, r.pick(65, 257)] {
                let long: Vec<usize> = x.iter().copied().cycle().take(times).collect();
                if let Some(v) = w.value(&long, PLACES[times % 2]) {
                    check_unfold(r, s, &a, &v);
                    r.count("deep walks", 1);
                }
            }
        }
        // every sequence wide, every option there, recursion everywhere
        let has_enum = a.nodes.iter().any(|n| matches!(n.kind, Kind::Enum(..)));
        for (depth, width) in [(2, 3), (3, 2), (4, 2), (2, 5), (1, 40), (1, 300)] {
            if !has_seq && width != 2 {
                continue;
            }
            for turn in 0..if has_enum { 3 } else { 1 } {
                let mut left = r.pick(500, 3000);
                if let Some(v) = w.bushy(0, depth, width, &mut { turn }, &mut left) {
                    check_unfold(r, s, &a, &v);
                    r.count("bushy values", 1);
                }
            }
        }
        r.count("values", vals.len() as u64);
        r.count("walks over recurse nodes", n);
    });
    let g = gadgets(r);
    r.count("two-armed schemas", g.len() as u64);
    let len2 = r.pick(2, 3);
    par_for(g.len(), |i| {
        let s = &g[i];
        let a = Arena::new(s);
        let w = Walker::new(&a);
        let has_seq = a.nodes.iter().any(|n| matches!(n.kind, Kind::Seq(..)));
        let mut walks = Vec::new();
        w.walks(len2, &mut walks);
        for x in walks {
            if x.len() < 2 {
                continue;
            }
            for place in &PLACES[if has_seq { 1..3 } else { 0..1 }] {
                if let Some(v) = w.value(&x, *place) {
                    check_unfold(r, s, &a, &v);
                }
            }
        }
        if let Some(v) = w.bushy(0, 2, 3, &mut 0, &mut r.pick(120, 600)) {
            check_unfold(r, s, &a, &v);
        }
    });
    r.note("walk length", format!("all walks of <= {} recurse nodes; all closed walks of <= 2 repeated to {} nodes", len, r.pick(65, 257)));
    // the machine, with the needed schema asked for in every state
    let b = Bounds { height: r.pick(8, 12), max_seq: 2, states: r.pick(60, 600), merge: true };
    par_for(v.len(), |i| {
        let s = &v[i];
        let a = Arena::new(s);
        let al = Alpha::new(&a, 2, false);
        explore::<E>(r, s, &a, &al, &b, "need", &mut |at, _| visit_need::<E>(r, s, &a, at));
        explore::<D>(r, s, &a, &al, &b, "need", &mut |at, _| visit_need::<D>(r, s, &a, at));
    });
}

fn visit_need<D: Dir>(r: &Run, s: &Schema, a: &Arena, at: &At<D>) {
    let case = path_case::<D>(s, "need", &at.path, &[]);
    let res = in_case(&case, || {
        guard(|| {
            let mut l = bring::<D>(s, &at.path);
            if let Ok(Schema::Recurse(_)) = D::need(&mut l) {
                return Err("need() answers with a recurse".to_string());
            }
            judge_state::<D>(&mut l, &at.m, a, true)
        })
    });
    space::report(r, &case, res);
    r.traces.fetch_add(1, Relaxed);
}

// ---- C22 ----

/// The schema with every illegal recurse replaced by unit.
fn legalize(a: &Arena, n: usize) -> Schema {
    let go = |c: usize| legalize(a, c);
    match &a.nodes[n].kind {
        Kind::Option(c) => option(go(*c)),
        Kind::Seq(l, c) => seq(*l, go(*c)),
        Kind::Tuple(c) => Schema::Tuple(c.iter().map(|&c| go(c)).collect()),
        Kind::Struct(c) => Schema::Struct(c.iter().map(|x| StructSchemaField { name: x.0.to_string(), inner: go(x.1) }).collect()),
        Kind::Enum(c) => Schema::Enum(c.iter().map(|x| EnumSchemaVariant { name: x.0.to_string(), inner: go(x.1) }).collect()),
        Kind::Recurse(_) if a.resolve(n).is_none() => Schema::Unit,
        _ => a.nodes[n].schema.clone(),
    }
}

/// Does coding this value (of the legalized schema) reach an illegal node?
fn reaches(a: &Arena, n: usize, v: &Value) -> bool {
    match a.resolve(n) {
        None => true,
        Some(n) => children(a, n, v).into_iter().any(|(c, x)| reaches(a, c, x)),
    }
}

fn check_illegal(r: &Run, s: &Schema, a: &Arena, leg: &Schema, v: &Value) {
    let case = || with(sv(s, v), "kind", "illegal");
    in_case(&case, || {
        let hit = reaches(a, 0, v);
        let want = ref_bytes(leg, v).expect("conforms");
        let outcome = |what: &str, res: Result<(), binschema::error::Error>, fin: bool| -> Result<(), String> {
            match (hit, res) {
                (true, Ok(())) => Err(format!("{} reaches the illegal recurse, but succeeds", what)),
                (true, Err(e)) if e.kind() != ErrorKind::IllegalSchema => Err(format!("{} reaches the illegal recurse, but fails with {}", what, err_brief(&e))),
                (true, Err(_)) if fin => Err(format!("{} failed, but the coder reports finished", what)),
                (true, Err(_)) => Ok(()),
                (false, Err(e)) => Err(format!("{} does not reach the illegal recurse, but fails with {}", what, err_brief(&e))),
                (false, Ok(())) if !fin => Err(format!("{} succeeded, but the coder is not finished", what)),
                (false, Ok(())) => Ok(()),
            }
        };
        let bytes = |what: &str, o: &[u8]| -> Result<(), String> {
            if !want.starts_with(o) || (!hit && o.len() != want.len()) {
                return Err(format!("{} wrote {}, expected {}", what, hex(o), hex(&want)));
            }
            Ok(())
        };
        let res = guard(|| -> Result<(), String> {
            // encoding, dynamically
            let mut o = Vec::new();
            let mut st = CoderState::new(s, Default::default(), None);
            let res = v.encode_to(&mut Encoder::new(&mut st, &mut o));
            outcome("encoding the value", res, st.is_finished())?;
            bytes("encoding the value", &o)?;
            // through serde
            let t = natural_term(v);
            let mut o = Vec::new();
            let mut st = CoderState::new(s, Default::default(), None);
            let res = t.serialize(&mut Encoder::new(&mut st, &mut o));
            outcome("serializing", res, st.is_finished())?;
            bytes("serializing", &o)?;
            // decoding
            let (d, _) = decode_slice(s, &want)?;
            let got = d.res.as_ref().ok().cloned();
            outcome("decoding the value", d.res.map(|_| ()), d.finished)?;
            if let Some(x) = got {
                if !refm::same(&x, v) {
                    return Err(format!("decoded as {}", value_text(&x)));
                }
            }
            let mut st = CoderState::new(s, Default::default(), None);
            let res = IgnoredAny::deserialize(&mut Decoder::new(&mut st, &mut &want[..])).map(|_| ());
            outcome("ignoring the value", res, st.is_finished())?;
            let la = Arena::new(leg);
            let shapes = [("reading in self-describing mode", Shape::Any, any_term(&la, v)), ("typed reading", shape_for(&la, 0, &[v]), t)];
            for (what, sh, want_t) in &shapes {
                let mut st = CoderState::new(s, Default::default(), None);
                let res = sh.deserialize(&mut Decoder::new(&mut st, &mut &want[..]));
                let got = res.as_ref().ok().cloned();
                outcome(what, res.map(|_| ()), st.is_finished())?;
                if let Some(x) = got {
                    if !same_term(&x, want_t) {
                        return Err(format!("{} gives {}, expected {}", what, x.text(), want_t.text()));
                    }
                }
            }
            Ok(())
        });
        space::report(r, &case, res);
        r.state(|| format!("{} | {} ({})", schema_text(s), value_text(v), if hit { "reaches it" } else { "does not reach it" }));
        r.count(if hit { "values reaching an illegal recurse" } else { "values not reaching one" }, 1);
        r.traces.fetch_add(5, Relaxed);
    })
}

fn visit_illegal<D: Dir>(r: &Run, s: &Schema, a: &Arena, at: &At<D>, ops: &[D::Op]) {
    for op in ops {
        let then = [op.clone()];
        let case = path_case::<D>(s, "illegal-machine", &at.path, &then);
        let res = in_case(&case, || {
            guard(|| {
                let mut l = bring::<D>(s, &at.path);
                let mut m = at.m.clone();
                let exp = D::model(&mut m, a, op);
                let obs = D::step(&mut l, op);
                match &exp {
                    Expect::Fatal(k) if *k == ILLEGAL => {
                        r.count("calls reaching an illegal recurse", 1);
                        judge_step(&exp, &obs, true)?;
                        if D::finished(&l) {
                            return Err("reports finished".into());
                        }
                        Ok(())
                    }
                    Expect::Unspecified => Ok(()),
                    exp => judge_step(exp, &obs, false),
                }
            })
        });
        space::report(r, &case, res);
        r.traces.fetch_add(1, Relaxed);
    }
}

fn illegal_curated() -> Vec<Schema> {
    let mut o = Vec::new();
    for n in [0usize, 1, 2, 3, 4, 255, 256, 1 << 32, usize::MAX - 1, usize::MAX] {
        o.push(rec(n));
        o.push(option(rec(n)));
        o.push(seq(None, rec(n)));
        o.push(seq(Some(1), rec(n)));
        o.push(en(vec![("ok", u8s()), ("bad", rec(n))]));
        o.push(st(vec![("a", u8s()), ("b", option(rec(n))), ("c", option(st(vec![("d", option(rec(n)))])))]));
        o.push(Schema::Tuple(vec![option(rec(1)), option(rec(n))]));
        // reached through a legal recurse first
        o.push(option(en(vec![("again", rec(2)), ("bad", rec(n)), ("end", Schema::Unit)])));
    }
    // the same number is legal deeper down
    o.push(Schema::Tuple(vec![option(rec(3)), option(option(rec(3)))]));
    o.push(st(vec![("x", option(rec(2))), ("y", option(rec(3)))]));
    o.retain(|s| !Arena::new(s).legal());
    o
}

pub fn c22(r: &Run) {
    r.rule("a state is an illegal schema with a value of its legal rest, or a coder state of one; each value is coded in every way and must fail exactly when it reaches an illegal recurse");
    let n = r.pick(4, 5);
    let mut v = illegal_curated();
    let by_hand = v.len();
    v.extend(schemas_upto(&SchemaCfg::illegal(), n).into_iter().filter(|s| !Arena::new(s).legal()));
    let lean = SchemaCfg { leaves: vec![u8s()], seq_lens: vec![None], widths: vec![1, 2], illegal_recurse: 1, ..SchemaCfg::small() };
    v.extend(schemas_upto(&lean, n + 1).into_iter().filter(|s| mcore::gen::size_of_schema(s) == n + 1 && !Arena::new(s).legal()));
    r.note("schema universe", format!("{} illegal schemas: {} by hand, all of <= {} nodes with recurse(0), recurse one beyond the root and recurse(usize::MAX), all of {} nodes over one leaf with recurse(0) and one beyond the root", v.len(), by_hand, n, n + 1));
    let (max, cap) = r.pick((7, 30), (9, 150));
    let b = Bounds { height: 5, max_seq: 2, states: r.pick(40, 60), merge: true };
    par_for(v.len(), |i| {
        let s = &v[i];
        let a = Arena::new(s);
        let leg = legalize(&a, 0);
        let la = Arena::new(&leg);
        let (vals, _) = Values::new(&la, vcfg(false, 2)).upto(0, max, cap);
        for x in &vals {
            check_illegal(r, s, &a, &leg, x);
        }
        let al = Alpha::new(&a, 2, false);
        explore::<E>(r, s, &a, &al, &b, "illegal-machine", &mut |at, ops| visit_illegal::<E>(r, s, &a, at, ops));
        explore::<D>(r, s, &a, &al, &b, "illegal-machine", &mut |at, ops| visit_illegal::<D>(r, s, &a, at, ops));
    });
    r.count("schemas", v.len() as u64);
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    let s = parse_schema(get(kvs, "schema"));
    let a = Arena::new(&s);
    fn go<D: Dir>(r: &Run, s: &Schema, a: &Arena, kvs: &[(String, String)]) {
        let path = parse_ops(get(kvs, "path"), D::parse);
        let mut m = MState::new(a);
        for op in &path {
            D::model(&mut m, a, op);
        }
        let at = At { path, m };
        let ops = parse_ops(get(kvs, "then"), D::parse);
        match get(kvs, "kind") {
            "need" => visit_need::<D>(r, s, a, &at),
            _ => visit_illegal::<D>(r, s, a, &at, &ops),
        }
    }
    match get(kvs, "kind") {
        "unfold" => check_unfold(r, &s, &a, &parse_value(get(kvs, "value"))),
        "illegal" => check_illegal(r, &s, &a, &legalize(&a, 0), &parse_value(get(kvs, "value"))),
        _ if get(kvs, "dir") == "enc" => go::<E>(r, &s, &a, kvs),
        _ => go::<D>(r, &s, &a, kvs),
    }
}
