//! C18, C19: serde data and schema values; what conforms and what does not.
use super::{
    c09_streams::has_dups,
    c11_recurse::{children, natural_term},
    space,
    util::*,
};
use binschema::{
    value::{EnumValue, ScalarValue, StructValueField, Value},
    CoderState, Decoder, Encoder, Schema, ScalarType,
};
use mcore::{
    gen::{schemas_upto, vcfg, SchemaCfg, Values},
    refm::{self, Arena, Cur, Kind},
    report::{guard, in_case, kv, par_for, Run},
    term::{any_term, intern, same_term, typed_term, CShape, Content, Fit, Mapper, Shape, Term},
    text::{hex, parse_schema, parse_value, schema_text, value_text, SCALARS},
};
use serde::{de::DeserializeSeed, Serialize};
use std::sync::atomic::Ordering::Relaxed;

// ---- all the ways a program's types can look that have this value ----

/// Combinations of one item of each list: all of them up to `cap`, else one list varied at a time
/// and all in step.
fn combos<T: Clone>(lists: &[Vec<T>], cap: usize) -> Vec<Vec<T>> {
    if lists.iter().any(|l| l.is_empty()) {
        return vec![];
    }
    let total = lists.iter().fold(1usize, |a, l| a.saturating_mul(l.len()));
    let mut o = Vec::new();
    if total <= cap {
        for mut k in 0..total {
            o.push(
                lists
                    .iter()
                    .map(|l| {
                        let x = l[k % l.len()].clone();
                        k /= l.len();
                        x
                    })
                    .collect(),
            );
        }
        return o;
    }
    let first: Vec<T> = lists.iter().map(|l| l[0].clone()).collect();
    o.push(first.clone());
    for (i, l) in lists.iter().enumerate() {
        for x in &l[1..] {
            let mut f = first.clone();
            f[i] = x.clone();
            o.push(f);
        }
    }
    let most = lists.iter().map(|l| l.len()).max().unwrap();
    for k in 1..most {
        o.push(lists.iter().map(|l| l[k % l.len()].clone()).collect());
    }
    o
}

/// Shapes of node `n` that can hold all of `vals`.
fn forms(a: &Arena, n: usize, vals: &[&Value], cap: usize) -> Vec<Shape> {
    if vals.is_empty() {
        return vec![Shape::Unit];
    }
    let n = match a.resolve(n) {
        Some(n) => n,
        None => return vec![Shape::Unit],
    };
    let all = |c: usize| {
        let o: Vec<&Value> = vals.iter().flat_map(|v| children(a, n, v).into_iter().map(|x| x.1)).collect();
        forms(a, c, &o, cap)
    };
    let slot = |c: usize, i: usize| {
        let o: Vec<&Value> = vals.iter().map(|v| children(a, n, v)[i].1).collect();
        forms(a, c, &o, cap)
    };
    let tuples = |lists: Vec<Vec<Shape>>, o: &mut Vec<Shape>| {
        let cs = combos(&lists, cap);
        o.extend(cs.iter().cloned().map(Shape::Tuple));
        o.push(Shape::Struct(CShape::Tuple(cs.last().unwrap().clone())));
    };
    let mut o = Vec::new();
    match &a.nodes[n].kind {
        Kind::Scalar(t) => o.push(Shape::Scalar(*t)),
        Kind::Str => o.extend([Shape::String, Shape::Str]),
        Kind::Bytes => o.extend([Shape::ByteBuf, Shape::Bytes]),
        Kind::Unit => o.extend([Shape::Unit, Shape::Struct(CShape::Unit), Shape::Tuple(vec![]), Shape::Struct(CShape::Tuple(vec![]))]),
        Kind::Option(c) => o.extend(all(*c).into_iter().map(|s| Shape::Option(Box::new(s)))),
        Kind::Seq(len, c) => {
            o.extend(all(*c).into_iter().map(|s| Shape::Seq(Box::new(s))));
            if let Some(l) = len {
                tuples((0..*l).map(|i| slot(*c, i)).collect(), &mut o);
            } else if let Some(p) = a.resolve(*c) {
                if let Kind::Tuple(kv) = &a.nodes[p].kind {
                    if kv.len() == 2 {
                        let pairs: Vec<&Value> = vals.iter().flat_map(|v| children(a, n, v).into_iter().map(|x| x.1)).collect();
                        let side = |i: usize| {
                            let o: Vec<&Value> = pairs.iter().map(|v| children(a, p, v)[i].1).collect();
                            forms(a, kv[i], &o, cap)
                        };
                        for c in combos(&[side(0), side(1)], cap) {
                            o.push(Shape::Map(Box::new(c[0].clone()), Box::new(c[1].clone())));
                        }
                    }
                }
            }
        }
        Kind::Tuple(c) => tuples(c.iter().enumerate().map(|(i, x)| slot(*x, i)).collect(), &mut o),
        Kind::Struct(c) => {
            let lists: Vec<Vec<Shape>> = c.iter().enumerate().map(|(i, x)| slot(x.1, i)).collect();
            for f in combos(&lists, cap) {
                o.push(Shape::Struct(CShape::Struct(c.iter().zip(f).map(|(x, s)| (intern(x.0), s)).collect())));
            }
        }
        Kind::Enum(c) => {
            let lists: Vec<Vec<CShape>> = c
                .iter()
                .enumerate()
                .map(|(i, x)| {
                    let inner: Vec<&Value> = vals
                        .iter()
                        .filter_map(|v| match v {
                            Value::Enum(e) if e.variant_ord == i => Some(&*e.value),
                            _ => None,
                        })
                        .collect();
                    let mut o: Vec<CShape> = Vec::new();
                    for s in forms(a, x.1, &inner, cap) {
                        match &s {
                            Shape::Unit => o.push(CShape::Unit),
                            Shape::Tuple(t) => o.push(CShape::Tuple(t.clone())),
                            Shape::Struct(CShape::Struct(f)) => o.push(CShape::Struct(f.clone())),
                            _ => {}
                        }
                        o.push(CShape::Newtype(Box::new(s)));
                    }
                    o
                })
                .collect();
            for f in combos(&lists, cap) {
                o.push(Shape::Enum(c.iter().zip(f).map(|(x, s)| (intern(x.0), s)).collect()));
            }
        }
        Kind::Recurse(_) => unreachable!(),
    }
    let first = o[0].clone();
    o.push(Shape::Struct(CShape::Newtype(Box::new(first))));
    o
}

/// The terms a program may serialize for the same data: sequences without a length hint where the
/// schema fixes the length, absent fields skipped.
fn variations(v: &Value, t: &Term) -> Vec<Term> {
    fn go(v: &Value, t: &Term, hints: bool, skip: &mut dyn FnMut() -> bool) -> Term {
        let list = |vs: &[Value], ts: &[Term], skip: &mut dyn FnMut() -> bool| -> Vec<Term> { vs.iter().zip(ts).map(|(v, t)| go(v, t, hints, skip)).collect() };
        fn content(v: &Value, c: &Content, hints: bool, skip: &mut dyn FnMut() -> bool) -> Content {
            match (v, c) {
                (_, Content::Unit) => Content::Unit,
                (v, Content::Newtype(t)) => Content::Newtype(Box::new(go(v, t, hints, skip))),
                (Value::FixedLenSeq(vs) | Value::VarLenSeq(vs) | Value::Tuple(vs), Content::Tuple(ts)) => Content::Tuple(vs.iter().zip(ts).map(|(v, t)| go(v, t, hints, skip)).collect()),
                (Value::Struct(f), Content::Struct(ts)) => Content::Struct(
                    f.iter()
                        .zip(ts)
                        .map(|(v, (n, t))| match (&v.value, t) {
                            (Value::Option(None), _) if skip() => (*n, None),
                            (v, Some(t)) => (*n, Some(go(v, t, hints, skip))),
                            (_, None) => (*n, None),
                        })
                        .collect(),
                ),
                (_, c) => c.clone(),
            }
        }
        match (v, t) {
            (Value::Option(Some(v)), Term::Some(t)) => Term::Some(Box::new(go(v, t, hints, skip))),
            (Value::FixedLenSeq(vs), Term::Seq(h, ts)) => Term::Seq(if hints { None } else { *h }, list(vs, ts, skip)),
            (Value::VarLenSeq(vs) | Value::Tuple(vs), Term::Seq(h, ts)) => Term::Seq(*h, list(vs, ts, skip)),
            (Value::FixedLenSeq(vs) | Value::VarLenSeq(vs) | Value::Tuple(vs), Term::Tuple(ts)) => Term::Tuple(list(vs, ts, skip)),
            (Value::VarLenSeq(vs), Term::Map(h, ts)) => Term::Map(
                *h,
                vs.iter()
                    .zip(ts)
                    .map(|(p, (k, x))| match p {
                        Value::Tuple(p) => (go(&p[0], k, hints, skip), go(&p[1], x, hints, skip)),
                        _ => (k.clone(), x.clone()),
                    })
                    .collect(),
            ),
            (v, Term::Struct(c)) => Term::Struct(content(v, c, hints, skip)),
            (Value::Enum(e), Term::Variant(o, n, c)) => Term::Variant(*o, n, content(&e.value, c, hints, skip)),
            (_, t) => t.clone(),
        }
    }
    let mut o = vec![t.clone()];
    let mut fields = 0;
    o.push(go(v, t, true, &mut || {
        fields += 1;
        false
    }));
    o.push(go(v, t, false, &mut || true));
    for i in 0..fields.min(6) {
        let mut k = 0;
        o.push(go(v, t, false, &mut || {
            k += 1;
            k - 1 == i
        }));
    }
    let mut seen = std::collections::HashSet::new();
    o.retain(|t| seen.insert(t.text()));
    o
}

/// The shape with one part replaced, for every part.
fn with_part(s: &Shape, by: &Shape) -> Vec<Shape> {
    fn list(t: &[Shape], by: &Shape) -> Vec<Vec<Shape>> {
        let mut o = Vec::new();
        for i in 0..t.len() {
            for x in with_part(&t[i], by) {
                let mut c = t.to_vec();
                c[i] = x;
                o.push(c);
            }
        }
        o
    }
    fn content(c: &CShape, by: &Shape) -> Vec<CShape> {
        match c {
            CShape::Unit => vec![],
            CShape::Newtype(s) => with_part(s, by).into_iter().map(|s| CShape::Newtype(Box::new(s))).collect(),
            CShape::Tuple(t) => list(t, by).into_iter().map(CShape::Tuple).collect(),
            CShape::Struct(f) => {
                let t: Vec<Shape> = f.iter().map(|x| x.1.clone()).collect();
                list(&t, by).into_iter().map(|t| CShape::Struct(f.iter().zip(t).map(|(x, s)| (x.0, s)).collect())).collect()
            }
        }
    }
    let mut o = vec![by.clone()];
    match s {
        Shape::Option(x) => o.extend(with_part(x, by).into_iter().map(|s| Shape::Option(Box::new(s)))),
        Shape::Seq(x) => o.extend(with_part(x, by).into_iter().map(|s| Shape::Seq(Box::new(s)))),
        Shape::Tuple(t) => o.extend(list(t, by).into_iter().map(Shape::Tuple)),
        Shape::Map(k, v) => {
            o.extend(with_part(k, by).into_iter().map(|s| Shape::Map(Box::new(s), v.clone())));
            o.extend(with_part(v, by).into_iter().map(|s| Shape::Map(k.clone(), Box::new(s))));
        }
        Shape::Struct(c) => o.extend(content(c, by).into_iter().map(Shape::Struct)),
        Shape::Enum(vs) => {
            for i in 0..vs.len() {
                for c in content(&vs[i].1, by) {
                    let mut x = vs.clone();
                    x[i].1 = c;
                    o.push(Shape::Enum(x));
                }
            }
        }
        _ => {}
    }
    o
}

fn write_term(s: &Schema, t: &Term) -> Result<(Result<(), String>, bool, Vec<u8>), String> {
    guard(|| {
        let mut st = CoderState::new(s, Default::default(), None);
        let mut o = Vec::new();
        let r = t.serialize(&mut Encoder::new(&mut st, &mut o)).map_err(|e| err_brief(&e));
        (r, st.is_finished(), o)
    })
}

fn read_shape(s: &Schema, sh: &Shape, b: &[u8]) -> Result<(Result<Term, String>, bool, usize), String> {
    guard(|| {
        let mut st = CoderState::new(s, Default::default(), None);
        let mut rd = b;
        let r = sh.deserialize(&mut Decoder::new(&mut st, &mut rd)).map_err(|e| err_brief(&e));
        (r, st.is_finished(), b.len() - rd.len())
    })
}

pub(super) struct M<'s> {
    pub s: &'s Schema,
    pub a: Arena<'s>,
    pub v: Value,
    pub bytes: Vec<u8>,
    pub dup: bool,
}

impl<'s> M<'s> {
    pub fn new(s: &'s Schema, v: &Value) -> Self {
        let a = Arena::new(s);
        let dup = has_dups(&a);
        M { s, bytes: ref_bytes(s, v).expect("conforms"), v: v.clone(), a, dup }
    }
    pub fn forms(&self, cap: usize) -> Vec<Shape> {
        forms(&self.a, 0, &[&self.v], cap)
    }
}

// ---- C18 ----

fn check_roundtrips(r: &Run, m: &M, cap: usize) {
    let base = || with(sv(m.s, &m.v), "kind", "roundtrip");
    let mut with_junk = m.bytes.clone();
    with_junk.extend_from_slice(&[1, 0x80, 0xff]);
    let read = |sh: &Shape| {
        let case = || with(base(), "shape", format!("{:?}", sh));
        let want = match typed_term(&m.v, sh) {
            Some(t) => t,
            None => return,
        };
        let res = in_case(&case, || {
            let (res, fin, used) = match read_shape(m.s, sh, &with_junk) {
                Ok(x) => x,
                Err(e) => return Ok(Err(e)),
            };
            Ok(match res {
                Err(e) => Err(format!("reading fails with {}", e)),
                Ok(t) if !same_term(&t, &want) => Err(format!("read {}, expected {}", t.text(), want.text())),
                Ok(_) if used != m.bytes.len() || !fin => Err(format!("{} of {} bytes taken, finished = {}", used, m.bytes.len(), fin)),
                Ok(_) => Ok(()),
            })
        });
        space::report(r, &case, res);
        r.transitions.fetch_add(1, Relaxed);
    };
    let fs = m.forms(cap);
    for sh in &fs {
        let t = typed_term(&m.v, sh).unwrap_or_else(|| panic!("form does not fit: {:?}", sh));
        for t in variations(&m.v, &t) {
            let case = || with(base(), "term", t.text());
            let res = in_case(&case, || {
                let mut map = Mapper::new(&m.a);
                match map.map(0, &t) {
                    Some(v) if refm::same(&v, &m.v) => {}
                    x => panic!("harness: the rules map the term {} to {:?}", t.text(), x),
                }
                if map.fit == Fit::Lenient {
                    return Ok(Ok(()));
                }
                let (res, fin, o) = match write_term(m.s, &t) {
                    Ok(x) => x,
                    Err(e) => return Ok(Err(e)),
                };
                Ok(match res {
                    Err(e) => Err(format!("serializing fails with {}", e)),
                    Ok(()) if o != m.bytes || !fin => Err(format!("serializes to {} (finished = {}), expected {}", hex(&o), fin, hex(&m.bytes))),
                    Ok(()) => Ok(()),
                })
            });
            space::report(r, &case, res);
            r.transitions.fetch_add(1, Relaxed);
        }
        if !m.dup {
            read(sh);
            for by in [Shape::Any, Shape::Ignored] {
                for sh in with_part(sh, &by) {
                    read(&sh);
                }
            }
        }
    }
    read(&Shape::Any);
    read(&Shape::Ignored);
    r.count("shapes", fs.len() as u64);
    r.traces.fetch_add(fs.len() as u64, Relaxed);
    r.state(|| format!("{} {} in {} forms", schema_text(m.s), value_text(&m.v), fs.len()));
}

/// Self-describing and ignoring reads of bytes that need not be a message.
fn check_loose(r: &Run, s: &Schema, a: &Arena, b: &[u8]) {
    let case = || with(sb(s, b), "kind", "loose");
    let res = in_case(&case, || {
        let mut c = Cur::new(b);
        let want = refm::decode(a, 0, &mut c);
        guard(|| -> Result<(), String> {
            for sh in [Shape::Any, Shape::Ignored] {
                let (res, fin, used) = read_shape(s, &sh, b)?;
                match (&want, res) {
                    (Ok(v), Ok(t)) => {
                        let w = if sh == Shape::Any { any_term(a, v) } else { Term::Ignored };
                        if !same_term(&t, &w) {
                            return Err(format!("{:?}: read {}, expected {}", sh, t.text(), w.text()));
                        }
                        if used != c.pos || !fin {
                            return Err(format!("{:?}: {} bytes taken, the value has {}; finished = {}", sh, used, c.pos, fin));
                        }
                    }
                    (Ok(_), Err(e)) => return Err(format!("{:?}: a valid message is refused with {}", sh, e)),
                    (Err(e), Ok(t)) => return Err(format!("{:?}: read {}, but this is no message ({:?})", sh, t.text(), e)),
                    (Err(_), Err(_)) if fin => return Err(format!("{:?}: failed, but finished", sh)),
                    _ => {}
                }
            }
            Ok(())
        })
    });
    space::report(r, &case, res);
    r.transitions.fetch_add(2, Relaxed);
}

pub(super) fn spoilt(b: &[u8]) -> Vec<Vec<u8>> {
    let mut o = Vec::new();
    for i in 0..b.len().min(24) {
        o.push(b[..i].to_vec());
        for x in [0u8, 1, 2, 3, 0x7f, 0x80, 0xff, b[i].wrapping_add(1), b[i] ^ 0x40] {
            if x != b[i] {
                let mut c = b.to_vec();
                c[i] = x;
                o.push(c);
            }
        }
        let mut c = b.to_vec();
        c.insert(i, 1);
        o.push(c);
    }
    o
}

/// C12: reads by types that need not fit, of bytes that need not be a message. `limit` is what the
/// decode may allocate, if anything is to be asked of the input at all.
fn check_misfit(r: &Run, m: &M, cap: usize, limit: &dyn Fn(&[u8]) -> Option<usize>) {
    let mut bytes = vec![m.bytes.clone()];
    for i in 0..m.bytes.len().min(8) {
        bytes.push(m.bytes[..i].to_vec());
        for x in [m.bytes[i].wrapping_add(1), m.bytes[i] ^ 1, 0xff, 0x82] {
            let mut c = m.bytes.clone();
            c[i] = x;
            c.extend([1, 0, 1]);
            bytes.push(c);
        }
    }
    bytes.sort();
    bytes.dedup();
    let mut seen = std::collections::HashSet::new();
    let mut shapes = Vec::new();
    for f in m.forms(cap) {
        for sh in near_shapes(&f).into_iter().chain([f]) {
            if seen.insert(format!("{:?}", sh)) {
                shapes.push(sh);
            }
        }
    }
    for b in &bytes {
        let limit = match limit(b) {
            Some(l) => l,
            None => continue,
        };
        for sh in &shapes {
            let case = || with(with(with(sv(m.s, &m.v), "kind", "misfit"), "bytes", hex(b)), "shape", format!("{:?}", sh));
            let res = in_case(&case, || {
                guard(|| {
                    mcore::alloc::with_limit(limit, limit, || {
                        let mut st = CoderState::new(m.s, Default::default(), None);
                        let _ = sh.deserialize(&mut Decoder::new(&mut st, &mut &b[..]));
                        Ok(())
                    })
                })
            });
            space::report(r, &case, res);
        }
        r.eval_n(shapes.len() as u64);
    }
    r.count("types met with bytes of a schema they need not fit", shapes.len() as u64);
}

pub(super) fn misfits(r: &Run, limit: &(dyn Fn(&Schema, &[u8]) -> Option<usize> + Sync), only: Option<(&Schema, &Value)>) {
    match only {
        Some((s, v)) => check_misfit(r, &M::new(s, v), 3, &|b| limit(s, b)),
        None => {
            let p = pool(r, r.pick(3, 4), r.pick(3, 4));
            par_for(p.len(), |i| check_misfit(r, &M::new(&p[i].0, &p[i].1), r.pick(2, 3), &|b| limit(&p[i].0, b)));
        }
    }
}

pub(super) fn pool(r: &Run, nodes: usize, per: u128) -> Vec<(Schema, Value)> {
    let mut o = Vec::new();
    let mut u = super::c05_machine::curated();
    u.push(seq(None, Schema::Tuple(vec![Schema::Str, option(u8s())])));
    u.push(seq(None, Schema::Tuple(vec![u8s(), seq(None, Schema::Tuple(vec![Schema::Str, Schema::Unit]))])));
    u.push(st(vec![("a", option(u8s())), ("b", u8s()), ("c", option(Schema::Str)), ("d", option(option(Schema::Unit)))]));
    u.push(en(vec![("U", Schema::Unit), ("N", u8s()), ("T", Schema::Tuple(vec![u8s(), Schema::Str])), ("S", st(vec![("x", option(u8s())), ("y", seq(Some(2), u8s()))])), ("Z", Schema::Tuple(vec![])), ("O", option(u8s()))]));
    u.push(st(vec![("m", seq(None, Schema::Tuple(vec![option(u8s()), st(vec![("k", Schema::Unit)])]))), ("e", en(vec![("p", seq(Some(0), Schema::Str)), ("q", st(vec![]))]))]));
    u.extend(schemas_upto(&SchemaCfg::small(), nodes));
    let n = u.len();
    for s in u {
        let a = Arena::new(&s);
        let (vals, _) = Values::new(&a, vcfg(false, 2)).upto(0, 9, per);
        o.extend(vals.into_iter().map(|v| (s.clone(), v)));
    }
    r.note("messages", format!("{} of {} schemas (all of <= {} nodes, and listed ones), at most {} values each, smallest first", o.len(), n, nodes, per));
    o
}

/// Every leaf inside every constructor, beside one other leaf.
pub fn leaves_held() -> Vec<(Schema, Value)> {
    let all = all_leaves();
    let mut o = Vec::new();
    for (i, l) in all.iter().enumerate() {
        let n = &all[(i + 1) % all.len()];
        let v = leaf_values(l, false).pop().unwrap();
        let w = leaf_values(n, false)[0].clone();
        let some = |v: &Value| Value::Option(Some(Box::new(v.clone())));
        o.push((option(l.clone()), Value::Option(None)));
        o.push((option(l.clone()), some(&v)));
        o.push((option(option(l.clone())), some(&some(&v))));
        o.push((option(option(l.clone())), some(&Value::Option(None))));
        o.push((seq(None, l.clone()), Value::VarLenSeq(vec![v.clone(); 2])));
        o.push((seq(Some(2), l.clone()), Value::FixedLenSeq(vec![v.clone(); 2])));
        o.push((seq(None, option(l.clone())), Value::VarLenSeq(vec![some(&v), Value::Option(None)])));
        o.push((Schema::Tuple(vec![l.clone(), n.clone()]), Value::Tuple(vec![v.clone(), w.clone()])));
        o.push((Schema::Tuple(vec![l.clone()]), Value::Tuple(vec![v.clone()])));
        o.push((st(vec![("x", l.clone()), ("y", n.clone())]), vst(vec![("x", v.clone()), ("y", w.clone())])));
        let e = en(vec![("P", l.clone()), ("Q", Schema::Tuple(vec![l.clone(), n.clone()])), ("R", st(vec![("x", l.clone())])), ("O", option(l.clone()))]);
        o.push((e.clone(), vev(0, "P", v.clone())));
        o.push((e.clone(), vev(1, "Q", Value::Tuple(vec![v.clone(), w.clone()]))));
        o.push((e.clone(), vev(2, "R", vst(vec![("x", v.clone())]))));
        o.push((e.clone(), vev(3, "O", Value::Option(None))));
        o.push((e, vev(3, "O", some(&v))));
    }
    o
}

pub fn c18(r: &Run) {
    r.rule("a state is a schema and a value; it is serialized from every form a program's data can take for it (unit/newtype/tuple/named structs and variants, sequences with and without length, maps, skipped fields), read back into every form, with every part replaced by a self-describing or ignoring read; and self-describing and ignoring reads meet every neighbour of the message's bytes");
    let p = pool(r, r.pick(4, 5), r.pick(5, 6));
    let big = std::sync::atomic::AtomicU64::new(0);
    par_for(p.len(), |i| {
        let m = M::new(&p[i].0, &p[i].1);
        check_roundtrips(r, &m, r.pick(8, 24));
        // (a node without finite values nests forever without input: C12's listed finding)
        let finite = m.a.min_height().iter().all(|h| h.is_some());
        if finite && (mcore::gen::size_of_schema(m.s) <= 3 || i % 5 == 0) {
            for b in spoilt(&m.bytes) {
                check_loose(r, m.s, &m.a, &b);
                big.fetch_add(1, Relaxed);
            }
        }
    });
    r.count("byte strings read loosely", big.load(Relaxed));
    for l in all_leaves() {
        for v in leaf_values(&l, true) {
            check_roundtrips(r, &M::new(&l, &v), 8);
        }
    }
    // every leaf in every constructor
    let ctx = leaves_held();
    par_for(ctx.len(), |i| check_roundtrips(r, &M::new(&ctx[i].0, &ctx[i].1), 8));
    let long = super::c05_machine::long_messages(r).into_iter().map(|(_, s, v)| (s, v));
    let wide: Vec<(Schema, Value)> = boundary_families(false).into_iter().map(|(_, s, v)| (s, v)).chain(leaf_contexts()).flat_map(|(s, v)| v.into_iter().map(move |v| (s.clone(), v))).chain(long).filter(|x| mcore::gen::size_of_schema(&x.0) < 700).collect();
    par_for(wide.len(), |i| {
        let m = M::new(&wide[i].0, &wide[i].1);
        let t = natural_term(&m.v);
        let case = || with(sv(m.s, &m.v), "kind", "wide");
        let res = in_case(&case, || {
            guard(|| -> Result<(), String> {
                let (res, fin, o) = write_term(m.s, &t)?;
                res.map_err(|e| format!("serializing fails with {}", e))?;
                if o != m.bytes || !fin {
                    return Err("serializes to other bytes than FORMAT.txt prescribes".into());
                }
                for sh in [Shape::Any, Shape::Ignored] {
                    let (res, fin, used) = read_shape(m.s, &sh, &o)?;
                    let t = res.map_err(|e| format!("{:?} fails with {}", sh, e))?;
                    if (sh == Shape::Any && !same_term(&t, &any_term(&m.a, &m.v))) || used != o.len() || !fin {
                        return Err(format!("{:?} reads another value", sh));
                    }
                }
                if !m.dup && o.len() < 2000 {
                    for sh in [super::c11_recurse::shape_for(&m.a, 0, &[&m.v])] {
                        let (res, fin, used) = read_shape(m.s, &sh, &o)?;
                        let t = res.map_err(|e| format!("reading by a type that fits fails with {}", e))?;
                        if !same_term(&t, &typed_term(&m.v, &sh).unwrap()) || used != o.len() || !fin {
                            return Err("a type that fits reads another value".into());
                        }
                    }
                }
                Ok(())
            })
        });
        space::report(r, &case, res);
        r.traces.fetch_add(1, Relaxed);
    });
    super::c18_std::run(r);
}

// ---- C19 ----

/// Values one step away.
fn near(v: &Value) -> Vec<Value> {
    let mut o = Vec::new();
    let boxed = |x: Value| Box::new(x);
    // another kind of value around or instead
    o.push(Value::Option(Some(boxed(v.clone()))));
    o.push(Value::Tuple(vec![v.clone()]));
    o.push(Value::VarLenSeq(vec![v.clone()]));
    o.push(Value::FixedLenSeq(vec![v.clone()]));
    o.push(vst(vec![("a", v.clone())]));
    o.push(vev(0, "a", v.clone()));
    for x in [Value::Unit, Value::Option(None), vu8(0), Value::Str(String::new()), Value::Bytes(vec![]), Value::Tuple(vec![]), Value::VarLenSeq(vec![]), Value::FixedLenSeq(vec![]), Value::Struct(vec![]), Value::Enum(EnumValue { variant_ord: 0, variant_name: "a".into(), value: boxed(Value::Unit) })] {
        o.push(x);
    }
    let list = |e: &[Value]| -> Vec<Vec<Value>> {
        let mut o = Vec::new();
        for i in 0..e.len() {
            let mut c = e.to_vec();
            c.remove(i);
            o.push(c);
            let mut c = e.to_vec();
            c.insert(i, e[i].clone());
            o.push(c);
            if i > 0 {
                let mut c = e.to_vec();
                c.swap(i - 1, i);
                o.push(c);
            }
            for x in near(&e[i]) {
                let mut c = e.to_vec();
                c[i] = x;
                o.push(c);
            }
        }
        let mut c = e.to_vec();
        c.push(Value::Unit);
        o.push(c);
        o
    };
    let names = |n: &str| -> Vec<String> {
        let mut o = vec![String::new(), format!("{}x", n), format!("x{}", n), n.to_uppercase(), format!("{} ", n), "a".into(), "b".into()];
        if n.len() > 1 && n.is_char_boundary(n.len() - 1) {
            o.push(n[..n.len() - 1].into());
        }
        o
    };
    match v {
        Value::Scalar(s) => {
            for (t, _) in SCALARS {
                o.push(Value::Scalar(as_scalar(*s, t)));
            }
        }
        Value::Str(s) => o.push(Value::Bytes(s.clone().into_bytes())),
        Value::Bytes(s) => o.push(Value::Str(String::from_utf8_lossy(s).into_owned())),
        Value::Unit => {}
        Value::Option(None) => {
            o.push(Value::Option(Some(boxed(Value::Option(None)))));
        }
        Value::Option(Some(x)) => {
            o.push((**x).clone());
            o.extend(near(x).into_iter().map(|x| Value::Option(Some(boxed(x)))));
        }
        Value::FixedLenSeq(e) => {
            o.extend([Value::VarLenSeq(e.clone()), Value::Tuple(e.clone())]);
            o.extend(list(e).into_iter().map(Value::FixedLenSeq));
        }
        Value::VarLenSeq(e) => {
            o.extend([Value::FixedLenSeq(e.clone()), Value::Tuple(e.clone())]);
            o.extend(list(e).into_iter().map(Value::VarLenSeq));
        }
        Value::Tuple(e) => {
            o.extend([Value::VarLenSeq(e.clone()), Value::FixedLenSeq(e.clone())]);
            o.extend(list(e).into_iter().map(Value::Tuple));
        }
        Value::Struct(f) => {
            o.push(Value::Tuple(f.iter().map(|x| x.value.clone()).collect()));
            for i in 0..f.len() {
                let edit = |g: &dyn Fn(&mut Vec<StructValueField>)| {
                    let mut c = f.clone();
                    g(&mut c);
                    Value::Struct(c)
                };
                o.push(edit(&|c| {
                    c.remove(i);
                }));
                o.push(edit(&|c| {
                    let x = c[i].clone();
                    c.insert(i, x);
                }));
                if i > 0 {
                    o.push(edit(&|c| c.swap(i - 1, i)));
                    o.push(edit(&|c| {
                        // names swapped, values left
                        let n = c[i - 1].name.clone();
                        c[i - 1].name = std::mem::replace(&mut c[i].name, n);
                    }));
                }
                for n in names(&f[i].name) {
                    o.push(edit(&|c| c[i].name = n.clone()));
                }
                for x in near(&f[i].value) {
                    o.push(edit(&|c| c[i].value = x.clone()));
                }
            }
            let mut c = f.clone();
            c.push(StructValueField { name: "extra".into(), value: Value::Unit });
            o.push(Value::Struct(c));
            let mut c = f.clone();
            c.insert(0, StructValueField { name: "extra".into(), value: Value::Option(None) });
            o.push(Value::Struct(c));
        }
        Value::Enum(e) => {
            let k = e.variant_ord;
            for ord in [k + 1, k.wrapping_sub(1), k + 2, k + 256, k + 65536, k + (1 << 32), usize::MAX, 0] {
                o.push(Value::Enum(EnumValue { variant_ord: ord, ..e.clone() }));
            }
            for n in names(&e.variant_name) {
                for ord in [k, k + 1, k.wrapping_sub(1)] {
                    o.push(Value::Enum(EnumValue { variant_ord: ord, variant_name: n.clone(), value: e.value.clone() }));
                }
            }
            for x in near(&e.value) {
                o.push(Value::Enum(EnumValue { value: boxed(x), ..e.clone() }));
            }
        }
    }
    o
}

/// A scalar of type `t`, as like `s` as can be.
fn as_scalar(s: ScalarValue, t: ScalarType) -> ScalarValue {
    use ScalarValue as V;
    let n: i128 = match s {
        V::U8(x) => x as i128,
        V::U16(x) => x as i128,
        V::U32(x) => x as i128,
        V::U64(x) => x as i128,
        V::U128(x) => x as i128,
        V::I8(x) => x as i128,
        V::I16(x) => x as i128,
        V::I32(x) => x as i128,
        V::I64(x) => x as i128,
        V::I128(x) => x,
        V::F32(x) => x as i128,
        V::F64(x) => x as i128,
        V::Char(c) => c as i128,
        V::Bool(b) => b as i128,
    };
    match t {
        ScalarType::U8 => V::U8(n as u8),
        ScalarType::U16 => V::U16(n as u16),
        ScalarType::U32 => V::U32(n as u32),
        ScalarType::U64 => V::U64(n as u64),
        ScalarType::U128 => V::U128(n as u128),
        ScalarType::I8 => V::I8(n as i8),
        ScalarType::I16 => V::I16(n as i16),
        ScalarType::I32 => V::I32(n as i32),
        ScalarType::I64 => V::I64(n as i64),
        ScalarType::I128 => V::I128(n),
        ScalarType::F32 => V::F32(n as f32),
        ScalarType::F64 => V::F64(n as f64),
        ScalarType::Char => V::Char(char::from_u32(n as u32).unwrap_or('x')),
        ScalarType::Bool => V::Bool(n != 0),
    }
}

/// Terms one step away in what only serde can say: length hints, ordinals, names, skipped fields.
pub(super) fn near_terms(t: &Term) -> Vec<Term> {
    fn content(c: &Content) -> Vec<Content> {
        match c {
            Content::Unit => vec![Content::Tuple(vec![]), Content::Struct(vec![]), Content::Newtype(Box::new(Term::Unit)), Content::Tuple(vec![Term::Unit])],
            Content::Newtype(t) => {
                let mut o: Vec<Content> = near_terms(t).into_iter().map(|t| Content::Newtype(Box::new(t))).collect();
                o.push(Content::Unit);
                o.push(Content::Tuple(vec![(**t).clone()]));
                o.push(Content::Newtype(Box::new(Term::Tuple(vec![(**t).clone()]))));
                o
            }
            Content::Tuple(v) => {
                let mut o: Vec<Content> = lists(v).into_iter().map(Content::Tuple).collect();
                o.push(Content::Unit);
                if v.len() == 1 {
                    o.push(Content::Newtype(Box::new(v[0].clone())));
                }
                o
            }
            Content::Struct(f) => {
                let mut o = vec![Content::Unit, Content::Tuple(f.iter().filter_map(|x| x.1.clone()).collect())];
                for i in 0..f.len() {
                    let mut c = f.clone();
                    c.remove(i);
                    o.push(Content::Struct(c));
                    let mut c = f.clone();
                    c[i].1 = None;
                    o.push(Content::Struct(c));
                    let mut c = f.clone();
                    c[i].0 = "renamed";
                    o.push(Content::Struct(c));
                    let mut c = f.clone();
                    c.insert(i, f[i].clone());
                    o.push(Content::Struct(c));
                    if i > 0 {
                        let mut c = f.clone();
                        c.swap(i, i - 1);
                        o.push(Content::Struct(c));
                    }
                    if let Some(t) = &f[i].1 {
                        for t in near_terms(t) {
                            let mut c = f.clone();
                            c[i].1 = Some(t);
                            o.push(Content::Struct(c));
                        }
                    }
                }
                let mut c = f.clone();
                c.push(("extra", None));
                o.push(Content::Struct(c));
                o
            }
        }
    }
    fn lists(v: &[Term]) -> Vec<Vec<Term>> {
        let mut o = Vec::new();
        for i in 0..v.len() {
            let mut c = v.to_vec();
            c.remove(i);
            o.push(c);
            let mut c = v.to_vec();
            c.insert(i, v[i].clone());
            o.push(c);
            for t in near_terms(&v[i]) {
                let mut c = v.to_vec();
                c[i] = t;
                o.push(c);
            }
        }
        let mut c = v.to_vec();
        c.push(Term::Unit);
        o.push(c);
        o
    }
    let hints = |n: usize| [None, Some(0), Some(n + 1), Some(n.wrapping_sub(1)), Some(n)];
    let mut o = vec![Term::Some(Box::new(t.clone())), Term::Tuple(vec![t.clone()]), Term::Seq(Some(1), vec![t.clone()]), Term::Seq(None, vec![t.clone()]), Term::Struct(Content::Newtype(Box::new(t.clone())))];
    match t {
        Term::Scalar(s) => o.extend(SCALARS.iter().map(|x| Term::Scalar(as_scalar(*s, x.0)))),
        Term::Str(s) => o.push(Term::Bytes(s.clone().into_bytes())),
        Term::Bytes(b) => o.push(Term::Str(String::from_utf8_lossy(b).into_owned())),
        Term::Unit => o.extend([Term::None, Term::Seq(Some(0), vec![]), Term::Seq(None, vec![]), Term::Tuple(vec![]), Term::Map(Some(0), vec![]), Term::Struct(Content::Struct(vec![]))]),
        Term::None => o.push(Term::Unit),
        Term::Some(x) => {
            o.push((**x).clone());
            o.extend(near_terms(x).into_iter().map(|x| Term::Some(Box::new(x))));
        }
        Term::Seq(h, v) => {
            o.extend(hints(v.len()).into_iter().map(|h| Term::Seq(h, v.clone())));
            for c in lists(v) {
                o.push(Term::Seq(*h, c.clone()));
                o.push(Term::Seq(None, c.clone()));
                o.push(Term::Seq(Some(c.len()), c));
            }
            o.push(Term::Tuple(v.clone()));
        }
        Term::Tuple(v) => {
            o.extend(lists(v).into_iter().map(Term::Tuple));
            o.extend(hints(v.len()).into_iter().map(|h| Term::Seq(h, v.clone())));
        }
        Term::Map(h, v) => {
            o.extend(hints(v.len()).into_iter().map(|h| Term::Map(h, v.clone())));
            for i in 0..v.len() {
                let mut c = v.clone();
                c.remove(i);
                o.push(Term::Map(*h, c));
                for t in near_terms(&v[i].0) {
                    let mut c = v.clone();
                    c[i].0 = t;
                    o.push(Term::Map(*h, c));
                }
                for t in near_terms(&v[i].1) {
                    let mut c = v.clone();
                    c[i].1 = t;
                    o.push(Term::Map(*h, c));
                }
            }
        }
        Term::Struct(c) => o.extend(content(c).into_iter().map(Term::Struct)),
        Term::Variant(ord, n, c) => {
            for x in [ord.wrapping_add(1), ord.wrapping_sub(1), ord.wrapping_add(256), ord.wrapping_add(65536), u32::MAX, 0] {
                o.push(Term::Variant(x, n, c.clone()));
            }
            for x in ["", "a", "b", "renamed"] {
                o.push(Term::Variant(*ord, x, c.clone()));
            }
            o.extend(content(c).into_iter().map(|c| Term::Variant(*ord, n, c)));
        }
        Term::Ignored => {}
    }
    o
}

/// Shapes one step away.
pub(super) fn near_shapes(s: &Shape) -> Vec<Shape> {
    let b = |s: Shape| Box::new(s);
    fn lists(t: &[Shape]) -> Vec<Vec<Shape>> {
        let mut o = Vec::new();
        for i in 0..t.len() {
            let mut c = t.to_vec();
            c.remove(i);
            o.push(c);
            let mut c = t.to_vec();
            c.insert(i, t[i].clone());
            o.push(c);
            if i > 0 {
                let mut c = t.to_vec();
                c.swap(i, i - 1);
                o.push(c);
            }
            for x in near_shapes(&t[i]) {
                let mut c = t.to_vec();
                c[i] = x;
                o.push(c);
            }
        }
        let mut c = t.to_vec();
        c.push(Shape::Unit);
        o.push(c);
        o
    }
    fn content(c: &CShape) -> Vec<CShape> {
        let mut o = vec![CShape::Unit, CShape::Tuple(vec![]), CShape::Struct(vec![]), CShape::Newtype(Box::new(Shape::Unit))];
        match c {
            CShape::Unit => {}
            CShape::Newtype(s) => {
                o.extend(near_shapes(s).into_iter().map(|s| CShape::Newtype(Box::new(s))));
                o.push(CShape::Tuple(vec![(**s).clone()]));
                o.push(CShape::Struct(vec![("a", (**s).clone())]));
            }
            CShape::Tuple(t) => {
                o.extend(lists(t).into_iter().map(CShape::Tuple));
                if t.len() == 1 {
                    o.push(CShape::Newtype(Box::new(t[0].clone())));
                }
            }
            CShape::Struct(f) => {
                o.push(CShape::Tuple(f.iter().map(|x| x.1.clone()).collect()));
                for i in 0..f.len() {
                    let mut c = f.clone();
                    c.remove(i);
                    o.push(CShape::Struct(c));
                    for n in ["renamed", "", "a", "b"] {
                        if !f.iter().any(|x| x.0 == n) {
                            let mut c = f.clone();
                            c[i].0 = n;
                            o.push(CShape::Struct(c));
                        }
                    }
                    if i > 0 {
                        let mut c = f.clone();
                        c.swap(i, i - 1);
                        o.push(CShape::Struct(c));
                        let mut c = f.clone();
                        let n = c[i].0;
                        c[i].0 = c[i - 1].0;
                        c[i - 1].0 = n;
                        o.push(CShape::Struct(c));
                    }
                    for x in near_shapes(&f[i].1) {
                        let mut c = f.clone();
                        c[i].1 = x;
                        o.push(CShape::Struct(c));
                    }
                }
                let mut c = f.clone();
                c.push(("extra", Shape::Option(Box::new(Shape::Unit))));
                o.push(CShape::Struct(c));
            }
        }
        o
    }
    let mut o = vec![
        Shape::Unit,
        Shape::Option(b(s.clone())),
        Shape::Tuple(vec![s.clone()]),
        Shape::Seq(b(s.clone())),
        Shape::Str,
        Shape::Bytes,
        Shape::Map(b(s.clone()), b(Shape::Unit)),
        Shape::Struct(CShape::Struct(vec![("a", s.clone())])),
        Shape::Struct(CShape::Unit),
        Shape::Enum(vec![("a", CShape::Newtype(b(s.clone()))), ("b", CShape::Unit)]),
    ];
    match s {
        Shape::Scalar(_) => o.extend(SCALARS.iter().map(|x| Shape::Scalar(x.0))),
        Shape::Option(x) => {
            o.push((**x).clone());
            o.extend(near_shapes(x).into_iter().map(|x| Shape::Option(b(x))));
        }
        Shape::Seq(x) => o.extend(near_shapes(x).into_iter().map(|x| Shape::Seq(b(x)))),
        Shape::Tuple(t) => o.extend(lists(t).into_iter().map(Shape::Tuple)),
        Shape::Map(k, v) => {
            o.extend(near_shapes(k).into_iter().map(|x| Shape::Map(b(x), v.clone())));
            o.extend(near_shapes(v).into_iter().map(|x| Shape::Map(k.clone(), b(x))));
        }
        Shape::Struct(c) => o.extend(content(c).into_iter().map(Shape::Struct)),
        Shape::Enum(vs) => {
            for i in 0..vs.len() {
                let mut c = vs.clone();
                c.remove(i);
                o.push(Shape::Enum(c));
                for n in ["renamed", "", "a", "b"] {
                    let mut c = vs.clone();
                    c[i].0 = n;
                    o.push(Shape::Enum(c));
                }
                if i > 0 {
                    let mut c = vs.clone();
                    c.swap(i, i - 1);
                    o.push(Shape::Enum(c));
                }
                for x in content(&vs[i].1) {
                    let mut c = vs.clone();
                    c[i].1 = x;
                    o.push(Shape::Enum(c));
                }
            }
        }
        _ => {}
    }
    o
}

/// Places in a long list worth editing.
fn places(n: usize) -> Vec<usize> {
    let mut o: Vec<usize> = (0..n).filter(|&i| i < 2 || i + 2 >= n || [64usize, 128, 256, 512, 1024].iter().any(|&b| i + 1 >= b && i <= b)).collect();
    o.dedup();
    o
}

/// Edits of long, wide or deep values, and of long names: one place at a time, near powers of two.
fn far(v: &Value, depth: usize) -> Vec<Value> {
    let mut o = Vec::new();
    let boxed = |x: Value| Box::new(x);
    if depth == 0 {
        return vec![Value::Unit, vu8(0), Value::Option(None), Value::Option(Some(boxed(v.clone())))];
    }
    let list = |e: &[Value]| -> Vec<Vec<Value>> {
        let mut o = Vec::new();
        for i in places(e.len()) {
            let mut c = e.to_vec();
            c.remove(i);
            o.push(c);
            let mut c = e.to_vec();
            c.insert(i, e[i].clone());
            o.push(c);
            for x in far(&e[i], depth - 1) {
                let mut c = e.to_vec();
                c[i] = x;
                o.push(c);
            }
        }
        if !e.is_empty() {
            for by in [64usize, 128, 256, 65536] {
                if by > 256 && (depth < 2 || e.len() != 128) {
                    continue;
                }
                o.push(e.iter().cycle().take(e.len() + by).cloned().collect());
                o.push(e.iter().take(e.len().saturating_sub(by)).cloned().collect());
            }
        }
        o
    };
    match v {
        Value::Option(Some(x)) => o.extend(far(x, depth - 1).into_iter().map(|x| Value::Option(Some(boxed(x))))),
        Value::FixedLenSeq(e) => o.extend(list(e).into_iter().map(Value::FixedLenSeq)),
        Value::VarLenSeq(e) => o.extend(list(e).into_iter().map(Value::VarLenSeq)),
        Value::Tuple(e) => o.extend(list(e).into_iter().map(Value::Tuple)),
        Value::Struct(f) => {
            let vals: Vec<Value> = f.iter().map(|x| x.value.clone()).collect();
            for l in list(&vals) {
                o.push(Value::Struct(l.into_iter().enumerate().map(|(i, value)| StructValueField { name: f[i % f.len()].name.clone(), value }).collect()));
            }
            for i in places(f.len()) {
                let edit = |g: &dyn Fn(&mut Vec<StructValueField>)| {
                    let mut c = f.clone();
                    g(&mut c);
                    Value::Struct(c)
                };
                o.push(edit(&|c| {
                    c.remove(i);
                }));
                if i > 0 {
                    o.push(edit(&|c| c.swap(i - 1, i)));
                }
                for n in mcore::machine::lookalikes(&f[i].name).into_iter().chain([f[(i + 1) % f.len()].name.clone(), f[(i + f.len() - 1) % f.len()].name.clone(), f[(i + 256) % f.len()].name.clone()]) {
                    o.push(edit(&|c| c[i].name = n.clone()));
                }
            }
        }
        Value::Enum(e) => {
            for n in mcore::machine::lookalikes(&e.variant_name) {
                o.push(Value::Enum(EnumValue { variant_name: n, ..e.clone() }));
            }
            for by in [1usize, 128, 256, 65536, 1 << 32] {
                for ord in [e.variant_ord.wrapping_add(by), e.variant_ord.wrapping_sub(by)] {
                    o.push(Value::Enum(EnumValue { variant_ord: ord, ..e.clone() }));
                    o.push(Value::Enum(EnumValue { variant_ord: ord, variant_name: format!("f{}", ord), value: e.value.clone() }));
                }
            }
            o.extend(far(&e.value, depth - 1).into_iter().map(|x| Value::Enum(EnumValue { value: boxed(x), ..e.clone() })));
        }
        _ => {}
    }
    o
}

/// The same for types, at the root and one level below.
fn far_shapes(s: &Shape, depth: usize) -> Vec<Shape> {
    let b = |s: Shape| Box::new(s);
    if depth == 0 {
        return vec![Shape::Unit, Shape::Str];
    }
    fn lists(t: &[Shape], depth: usize) -> Vec<Vec<Shape>> {
        let mut o = Vec::new();
        for i in places(t.len()) {
            let mut c = t.to_vec();
            c.remove(i);
            o.push(c);
            let mut c = t.to_vec();
            c.insert(i, t[i].clone());
            o.push(c);
            for x in far_shapes(&t[i], depth - 1) {
                let mut c = t.to_vec();
                c[i] = x;
                o.push(c);
            }
        }
        if !t.is_empty() {
            for by in [128usize, 256] {
                o.push(t.iter().cycle().take(t.len() + by).cloned().collect());
                o.push(t.iter().take(t.len().saturating_sub(by)).cloned().collect());
            }
        }
        o
    }
    let mut o = Vec::new();
    match s {
        Shape::Option(x) => o.extend(far_shapes(x, depth - 1).into_iter().map(|x| Shape::Option(b(x)))),
        Shape::Seq(x) => o.extend(far_shapes(x, depth - 1).into_iter().map(|x| Shape::Seq(b(x)))),
        Shape::Tuple(t) => o.extend(lists(t, depth).into_iter().map(Shape::Tuple)),
        Shape::Struct(CShape::Tuple(t)) => o.extend(lists(t, depth).into_iter().map(|t| Shape::Struct(CShape::Tuple(t)))),
        Shape::Struct(CShape::Struct(f)) => {
            for i in places(f.len()) {
                let mut c = f.clone();
                c.remove(i);
                o.push(Shape::Struct(CShape::Struct(c)));
                if i > 0 {
                    let mut c = f.clone();
                    c.swap(i, i - 1);
                    o.push(Shape::Struct(CShape::Struct(c)));
                }
                for n in mcore::machine::lookalikes(f[i].0) {
                    if !f.iter().any(|x| x.0 == n) {
                        let mut c = f.clone();
                        c[i].0 = intern(&n);
                        o.push(Shape::Struct(CShape::Struct(c)));
                    }
                }
            }
        }
        Shape::Enum(vs) => {
            for i in places(vs.len()) {
                let mut c = vs.clone();
                c.remove(i);
                o.push(Shape::Enum(c));
                for n in mcore::machine::lookalikes(vs[i].0) {
                    let mut c = vs.clone();
                    c[i].0 = intern(&n);
                    o.push(Shape::Enum(c));
                }
            }
        }
        _ => {}
    }
    o
}

fn check_far(r: &Run, m: &M) {
    let src = || with(sv(m.s, &m.v), "kind", "far");
    let mut n = 0;
    for v in far(&m.v, 2) {
        check_value(r, m.s, &m.a, &v);
        check_term(r, m.s, &m.a, &natural_term(&v), &src);
        n += 2;
    }
    // length hints that are wrong by much
    if let Term::Seq(_, v) = natural_term(&m.v) {
        for h in [1usize, 128, 256, 65536, 1 << 32].into_iter().flat_map(|b| [v.len().wrapping_add(b), v.len().wrapping_sub(b)]) {
            check_term(r, m.s, &m.a, &Term::Seq(Some(h), v.clone()), &src);
            n += 1;
        }
    }
    if !m.dup {
        for sh in [super::c11_recurse::shape_for(&m.a, 0, &[&m.v])] {
            for sh in far_shapes(&sh, 2) {
                check_misread(r, m, &sh);
                n += 1;
            }
        }
    }
    r.count("edits of long messages", n);
    r.traces.fetch_add(n, Relaxed);
    r.state(|| format!("{} {}", schema_text(m.s), value_text(&m.v)));
}

fn check_value(r: &Run, s: &Schema, a: &Arena, v: &Value) {
    let case = || with(sv(s, v), "kind", "value");
    let res = in_case(&case, || {
        let mut want = Vec::new();
        let fits = refm::encode(a, 0, v, &mut want);
        let mut o = Vec::new();
        let (res, fin) = match real_encode(s, v, &mut o) {
            Ok(x) => x,
            Err(e) => return Ok(Err(e)),
        };
        Ok(match (fits, res) {
            (true, Ok(())) if !fin || o != want => Err(format!("encodes to {} (finished = {}), expected {}", hex(&o), fin, hex(&want))),
            (true, Err(e)) => Err(format!("the value belongs to the schema, but encoding fails with {}", err_brief(&e))),
            (false, Ok(())) => Err(format!("the value does not belong to the schema, but encoding succeeds with {} (finished = {})", hex(&o), fin)),
            (false, Err(_)) if fin => Err("encoding fails, but the coder reports finished".into()),
            _ => Ok(()),
        })
    });
    space::report(r, &case, res);
    r.transitions.fetch_add(1, Relaxed);
}

/// `src`: where the term comes from, for the replay.
fn check_term(r: &Run, s: &Schema, a: &Arena, t: &Term, src: &dyn Fn() -> Vec<(String, String)>) {
    let case = || {
        let mut o = src();
        o.push(kv("target", schema_text(s)));
        o.push(kv("term", t.text()));
        o
    };
    let res = in_case(&case, || {
        let mut map = Mapper::new(a);
        let v = map.map(0, t);
        let (res, fin, o) = match write_term(s, t) {
            Ok(x) => x,
            Err(e) => return Ok(Err(e)),
        };
        Ok(match (v, map.fit, res) {
            (Some(_), Fit::Lenient, _) => Ok(()),
            (Some(v), _, Ok(())) => {
                let want = ref_bytes(s, &v);
                if want.as_ref() != Some(&o) || !fin {
                    Err(format!("serializes to {} (finished = {}), expected {}", hex(&o), fin, hex(&want.unwrap())))
                } else {
                    Ok(())
                }
            }
            (Some(_), _, Err(e)) => Err(format!("the data belongs to the schema, but serializing fails with {}", e)),
            (None, _, Ok(())) => Err(format!("the data does not belong to the schema, but serializing succeeds with {} (finished = {})", hex(&o), fin)),
            (None, _, Err(e)) if fin => Err(format!("serializing fails ({}), but the coder reports finished", e)),
            _ => Ok(()),
        })
    });
    space::report(r, &case, res);
    r.transitions.fetch_add(1, Relaxed);
}

fn check_misread(r: &Run, m: &M, sh: &Shape) {
    let case = || with(with(sv(m.s, &m.v), "kind", "near"), "shape", format!("{:?}", sh));
    if typed_term(&m.v, sh).is_some() {
        return;
    }
    let res = in_case(&case, || {
        for defaults in [false, true] {
            mcore::term::DEFAULTS.set(defaults);
            let x = read_shape(m.s, sh, &m.bytes);
            mcore::term::DEFAULTS.set(false);
            if let (Ok(t), _, _) = x? {
                return Ok(Err(format!("the type does not fit, but {} is read{}", t.text(), if defaults { " (its tuples have defaults)" } else { "" })));
            }
        }
        Ok(Ok(()))
    });
    space::report(r, &case, res);
    r.transitions.fetch_add(1, Relaxed);
}

fn check_near(r: &Run, m: &M, cap: usize) {
    let src = || with(sv(m.s, &m.v), "kind", "near");
    let vs = near(&m.v);
    let ts: Vec<Shape> = m.forms(cap);
    for v in &vs {
        check_value(r, m.s, &m.a, v);
        check_term(r, m.s, &m.a, &natural_term(v), &src);
    }
    let mut n = vs.len();
    for sh in &ts {
        let t = typed_term(&m.v, sh).unwrap();
        for t in near_terms(&t) {
            check_term(r, m.s, &m.a, &t, &src);
            n += 1;
        }
        if !m.dup {
            for sh in near_shapes(sh) {
                check_misread(r, m, &sh);
                n += 1;
            }
        }
    }
    r.count("neighbours", n as u64);
    r.traces.fetch_add(n as u64, Relaxed);
    r.state(|| format!("{} {}", schema_text(m.s), value_text(&m.v)));
}

pub fn c19(r: &Run) {
    r.rule("a state is a schema and a conforming value; it is met with every value, every serde data and every Rust type one edit away (kind, width, length, name, order, ordinal, content, hint), at every place; and every schema of the small universe is met with the values, data and types of every other");
    let mut p = pool(r, r.pick(4, 5), r.pick(3, 4));
    p.extend(leaves_held());
    par_for(p.len(), |i| check_near(r, &M::new(&p[i].0, &p[i].1), r.pick(2, 6)));
    let long = super::c05_machine::long_messages(r);
    par_for(long.len(), |i| check_far(r, &M::new(&long[i].1, &long[i].2)));
    // everything under everything
    let q = pool(r, r.pick(2, 3), r.pick(3, 3));
    let mut schemas: Vec<Schema> = Vec::new();
    for (s, _) in &q {
        if schemas.last() != Some(s) {
            schemas.push(s.clone());
        }
    }
    let terms: Vec<(usize, Vec<(Term, Shape)>)> = q
        .iter()
        .enumerate()
        .map(|(i, (s, v))| {
            let m = M::new(s, v);
            (i, m.forms(2).into_iter().map(|sh| (typed_term(v, &sh).unwrap(), sh)).collect())
        })
        .collect();
    par_for(schemas.len(), |i| {
        let s = &schemas[i];
        let a = Arena::new(s);
        for (j, ts) in &terms {
            check_value(r, s, &a, &q[*j].1);
            let src = || with(sv(&q[*j].0, &q[*j].1), "kind", "cross");
            for (t, _) in ts {
                check_term(r, s, &a, t, &src);
            }
        }
    });
    par_for(q.len(), |i| {
        let m = M::new(&q[i].0, &q[i].1);
        if m.dup {
            return;
        }
        let mut seen = std::collections::HashSet::new();
        for (_, ts) in &terms {
            for (_, sh) in ts {
                if seen.insert(format!("{:?}", sh)) {
                    check_misread(r, &m, sh);
                }
            }
        }
        r.count("types read under foreign schemas", seen.len() as u64);
    });
    r.count("schemas met with everything", schemas.len() as u64);
    r.count("values met with everything", q.len() as u64);
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    if get(kvs, "kind") == "std" {
        return super::c18_std::run(r);
    }
    let s = parse_schema(get(kvs, "schema"));
    let a = Arena::new(&s);
    match get(kvs, "kind") {
        "loose" => return check_loose(r, &s, &a, &mcore::text::unhex(get(kvs, "bytes"))),
        "value" => return check_value(r, &s, &a, &parse_value(get(kvs, "value"))),
        "wide" => return c18(r),
        _ => {}
    }
    let m = M::new(&s, &parse_value(get(kvs, "value")));
    match get(kvs, "kind") {
        "roundtrip" => check_roundtrips(r, &m, 24),
        "far" => check_far(r, &m),
        "cross" => {
            let t = parse_schema(get(kvs, "target"));
            let ta = Arena::new(&t);
            let src = || with(sv(m.s, &m.v), "kind", "cross");
            for sh in m.forms(6) {
                check_term(r, &t, &ta, &typed_term(&m.v, &sh).unwrap(), &src);
            }
        }
        _ => check_near(r, &m, 6),
    }
    if get(kvs, "property") == "C19" {
        // a foreign type: run the whole check
        c19(r)
    }
}
