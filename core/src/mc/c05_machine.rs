//! C05-C08: the call protocol of the coders. Model: the state machine of `machine`, explored
//! breadth-first over every call of an alphabet; every transition is replayed on the real coder.
use super::{
    space::{self, *},
    util::*,
};
use binschema::{error::ErrorKind, value::Value, Schema};
use mcore::{
    gen::{schemas_upto, SchemaCfg, NAMES},
    io::{Fault, FAULTS},
    machine::{judge, parse_ops, Alpha, Api, Expect, MState},
    refm::{self, Arena, Cur},
    report::{guard, in_case, kv, par_for, Run},
    text::parse_schema,
};
use std::sync::atomic::Ordering::Relaxed;

pub fn fin_err_kind<D: Dir>(l: &D::Live<'_>) -> Result<(), String> {
    match D::finished_or_err(l) {
        Ok(()) if D::finished(l) => Ok(()),
        Err(e) if !D::finished(l) && e.kind() == ErrorKind::ApiUsage => Ok(()),
        x => Err(format!("is_finished() = {} but is_finished_or_err() = {:?}", D::finished(l), x.map_err(|e| e.kind()))),
    }
}

/// Schemas whose names, widths and lengths are awkward.
pub fn curated() -> Vec<Schema> {
    let mut o = all_leaves();
    let u = Schema::Unit;
    o.push(st(vec![("x", u8s()), ("x", Schema::Str)]));
    o.push(st(vec![("", u8s()), ("a", u.clone())]));
    o.push(st(vec![("a", u8s()), ("aa", u8s()), ("A", u8s())]));
    o.push(en(vec![("x", u8s()), ("x", Schema::Str)]));
    o.push(en(vec![("", u8s()), ("a", u.clone())]));
    o.push(en(vec![("a", u8s()), ("aa", u.clone()), ("A", Schema::Str)]));
    o.push(st(vec![("x", u8s()), ("y", u.clone()), ("x", Schema::Str)]));
    o.push(en(vec![("x", u8s()), ("y", u8s()), ("x", u8s())]));
    o.push(en(vec![("y", u8s()), ("x", u.clone()), ("x", u8s())]));
    o.push(en((0..5).map(|i| (NAMES[i], if i % 2 == 0 { u.clone() } else { u8s() })).collect()));
    o.push(seq(Some(3), option(u8s())));
    o.push(seq(Some(1), seq(Some(1), seq(Some(1), u.clone()))));
    o.push(seq(None, seq(None, seq(None, u.clone()))));
    o.push(option(option(option(u8s()))));
    o.push(option(en(vec![("p", option(u8s())), ("q", seq(Some(2), option(u.clone())))])));
    o.push(Schema::Tuple(vec![u8s(), Schema::Tuple(vec![u8s(), st(vec![("k", u8s()), ("l", Schema::Tuple(vec![]))])]), u.clone()]));
    o.push(st(vec![("h", st(vec![])), ("i", en(vec![("z", st(vec![("w", u8s())]))])), ("j", seq(Some(2), u8s()))]));
    o.extend(super::c11_recurse::mutual());
    o
}

fn universe(r: &Run, q: usize, t: usize) -> Vec<Schema> {
    let n = r.pick(q, t);
    let mut v = curated();
    v.extend(schemas_upto(&SchemaCfg::small(), n));
    r.note("schema universe", format!("{} schemas: all of <= {} nodes over u8/str/unit, options, seqs (var, 0, 2), tuples/structs/enums of 0..=2, legal recurses; and a list with all scalar kinds, awkward names, deeper nesting, mutual recursion", v.len(), n));
    v
}

fn biggest_first(v: &mut [Schema]) {
    // long jobs first
    v.sort_by_key(|s| std::cmp::Reverse(mcore::gen::size_of_schema(s)));
}

struct Ctx<'a, 's> {
    r: &'a Run,
    s: &'s Schema,
    a: &'a Arena<'s>,
    mh: &'a [Option<u32>],
    /// calls made to complete a message
    cap: usize,
}

/// C05/C06 at one state: every call accepted or rejected as the model says, moving what it says.
fn visit_machine<D: Dir>(c: &Ctx, at: &At<D>, ops: &[D::Op]) {
    let kind = "machine";
    for op in ops {
        let then = [op.clone()];
        let case = path_case::<D>(c.s, kind, &at.path, &then);
        let res = in_case(&case, || {
            guard(|| {
                let mut l = bring::<D>(c.s, &at.path);
                let mut m = at.m.clone();
                judge_state::<D>(&mut l, &m, c.a, D::NAME == "dec").map_err(|e| format!("before the last call: {}", e))?;
                fin_err_kind::<D>(&l)?;
                let exp = D::model(&mut m, c.a, op);
                let obs = D::step(&mut l, op);
                judge_step(&exp, &obs, false).map_err(|e| format!("last call: {}", e))?;
                match exp {
                    Expect::Accept { .. } => {
                        judge_state::<D>(&mut l, &m, c.a, D::NAME == "dec").map_err(|e| format!("after the last call: {}", e))?;
                        fin_err_kind::<D>(&l)?;
                        // on to the end of the message
                        complete::<D>(&mut l, &m, c.a, c.mh, c.cap)?;
                        c.r.count("accepted calls", 1);
                    }
                    Expect::Reject(_) => {
                        // whatever is reported finished later is a valid message
                        c.r.count("rejected calls", 1);
                        let mut m = at.m.clone();
                        let mut n = 0;
                        while let Some(op) = D::next(&m, c.a, c.mh) {
                            let _ = D::step(&mut l, &op);
                            D::model(&mut m, c.a, &op);
                            n += 1;
                            if n > c.cap || D::finished(&l) {
                                break;
                            }
                        }
                    }
                    Expect::Fatal(_) => c.r.count("failing calls", 1),
                    Expect::Unspecified => {}
                }
                if D::finished(&l) {
                    valid_message::<D>(&l, c.a)?;
                }
                Ok(())
            })
        });
        space::report(c.r, &case, res);
        c.r.traces.fetch_add(1, Relaxed);
    }
}

fn valid_message<D: Dir>(l: &D::Live<'_>, a: &Arena) -> Result<(), String> {
    if let Some(b) = D::written(l) {
        let mut cur = Cur::new(b);
        match refm::decode(a, 0, &mut cur) {
            Ok(_) if cur.pos == b.len() => {}
            _ => return Err(format!("reported finished, but the bytes written are not a message of the schema: {}", mcore::text::hex(b))),
        }
    }
    Ok(())
}

fn run_machine<D: Dir>(r: &Run) {
    let mut v = universe(r, 4, 5);
    biggest_first(&mut v);
    let b = Bounds { height: r.pick(7, 9), max_seq: 2, states: r.pick(400, 500), merge: true };
    let cut = std::sync::atomic::AtomicU64::new(0);
    par_for(v.len(), |i| {
        let s = &v[i];
        let a = Arena::new(s);
        let mh = a.min_height();
        let al = Alpha::new(&a, 2, i >= v.len() - 40 || r.quick() == false);
        let c = Ctx { r, s, a: &a, mh: &mh, cap: 64 };
        let (_, full) = explore::<D>(r, s, &a, &al, &b, "machine", &mut |at, ops| visit_machine::<D>(&c, at, ops));
        if !full {
            cut.fetch_add(1, Relaxed);
        }
    });
    r.count("schemas", v.len() as u64);
    r.count("schemas cut at the state bound", cut.load(Relaxed));
    r.note("bounds per schema", format!("{} states, stack height {}, declared lengths <= 2 expanded", b.states, b.height));
    // without merging states: every call sequence
    let w: Vec<Schema> = schemas_upto(&SchemaCfg::small(), r.pick(2, 3)).into_iter().chain(curated()).collect();
    let b = Bounds { merge: false, states: r.pick(60, 1200), ..b };
    par_for(w.len(), |i| {
        let s = &w[i];
        let a = Arena::new(s);
        let mh = a.min_height();
        let al = Alpha::new(&a, 2, false);
        let c = Ctx { r, s, a: &a, mh: &mh, cap: 64 };
        explore::<D>(r, s, &a, &al, &b, "machine", &mut |at, ops| visit_machine::<D>(&c, at, ops));
    });
    r.count("schemas explored unmerged", w.len() as u64);
}

pub fn c05(r: &Run) {
    r.rule("a state is a coder state reached by accepted calls (merged by model state and by the coder's own debug text); each is met with every call of the alphabet");
    run_machine::<E>(r);
    wide_enums::<E>(r);
    huge_counts::<E>(r, None);
    long_paths::<E>(r, &|c, at, ops| visit_machine::<E>(c, at, ops));
}
pub fn c06(r: &Run) {
    r.rule("a state is a coder state reached by accepted calls (merged by model state and by the coder's own debug text); each is met with every call of the alphabet over every source content of the menu");
    run_machine::<D>(r);
    wide_enums::<D>(r);
    huge_counts::<D>(r, None);
    long_paths::<D>(r, &|c, at, ops| visit_machine::<D>(c, at, ops));
}

/// Ordinal widths and large fixed lengths: the root state only.
fn wide_enums<D: Dir>(r: &Run) {
    let mut v = Vec::new();
    for n in [255usize, 256, 257, 65536, 65537] {
        v.push(Schema::Enum((0..n).map(|i| binschema::EnumSchemaVariant { name: format!("v{}", i % 300), inner: Schema::Unit }).collect()));
    }
    for n in [127, 128, 255, 256, 257, 65536, usize::MAX] {
        v.push(seq(Some(n), Schema::Unit));
    }
    par_for(v.len(), |i| {
        let s = &v[i];
        let a = Arena::new(s);
        let mh = a.min_height();
        let mut al = Alpha::new(&a, 2, false);
        al.max_variants = al.max_variants.min(2);
        al.names = ["v0", "v1", "v2", "v254", "v255", "v256", "v257", "", "v"].iter().map(|x| x.to_string()).collect();
        let m = MState::new(&a);
        let mut ops = D::alphabet(&al, &m, &a);
        D::thin(&mut ops);
        r.state(|| format!("wide schema {}", i));
        r.transitions.fetch_add(ops.len() as u64, Relaxed);
        let c = Ctx { r, s, a: &a, mh: &mh, cap: 64 };
        visit_machine::<D>(&c, &At { path: vec![], m }, &ops);
    });
    r.count("wide schemas", v.len() as u64);
}

/// Very many parts: near the counts at which an index could wrap, and at the end, every call that
/// begins a part, ends the parts or codes a unit, where it is illegal.
fn huge_counts<D: Dir>(r: &Run, only: Option<&str>) {
    let unit = || Value::Unit;
    // the calls, from small values
    let mut calls: Vec<D::Op> = Vec::new();
    for (s, v) in [
        (seq(Some(1), Schema::Unit), Value::FixedLenSeq(vec![unit()])),
        (seq(None, Schema::Unit), Value::VarLenSeq(vec![unit()])),
        (Schema::Tuple(vec![Schema::Unit]), Value::Tuple(vec![unit()])),
        (st(vec![("f", Schema::Unit)]), vst(vec![("f", unit())])),
        (st(vec![("g", Schema::Unit)]), vst(vec![("g", unit())])),
    ] {
        for op in D::ops_for(&s, &v) {
            if !calls.contains(&op) {
                calls.push(op);
            }
        }
    }
    let mut v: Vec<(String, Schema, Value)> = Vec::new();
    for n in [254usize, 255, 256, 257, 512, 65535, 65536, 65537, 70000] {
        let us = vec![unit(); n];
        v.push((format!("var {}", n), seq(None, Schema::Unit), Value::VarLenSeq(us.clone())));
        v.push((format!("fixed {}", n), seq(Some(n), Schema::Unit), Value::FixedLenSeq(us.clone())));
        v.push((format!("tuple {}", n), Schema::Tuple(vec![Schema::Unit; n]), Value::Tuple(us)));
        v.push((format!("struct {}", n), st(vec![("f", Schema::Unit); n]), vst(vec![("f", unit()); n])));
    }
    let near = |k: usize, n: usize| k < 3 || k + 3 > n || [256usize, 512, 65536].iter().any(|e| k + 3 > *e && k < *e + 3);
    par_for(v.len(), |i| {
        let (name, s, v) = &v[i];
        if only.is_some_and(|x| x != name) {
            return;
        }
        let case = || vec![kv("kind", "huge"), kv("dir", D::NAME), kv("schema", "unit"), kv("huge", name)];
        in_case(&case, || {
            let a = Arena::new(s);
            let ops = D::ops_for(s, v);
            let n = ops.len();
            let mut tried = 0;
            let res = guard(|| -> Result<(), String> {
                let mut l = D::new(s);
                let mut m = MState::new(&a);
                for (k, op) in ops.iter().enumerate() {
                    // (parts are two calls each, behind one call)
                    let between = k % 2 == 1 && k > 0;
                    if between && near(k / 2, n / 2) {
                        for c in &calls {
                            let e = D::model(&mut m.clone(), &a, c);
                            if matches!(e, Expect::Reject(_)) {
                                tried += 1;
                                judge(&e, &D::step(&mut l, c)).map_err(|x| format!("{} after {} parts of {}: {}", D::text(c), k / 2, name, x))?;
                            }
                        }
                    }
                    let e = D::model(&mut m, &a, op);
                    judge(&e, &D::step(&mut l, op)).map_err(|x| format!("{} as call {} of {}: {}", D::text(op), k, name, x))?;
                    if D::finished(&l) != (k + 1 == n) {
                        return Err(format!("finished = {} after call {} of {}", D::finished(&l), k, name));
                    }
                }
                Ok(())
            });
            report(r, &case, res);
            r.transitions.fetch_add((n + tried) as u64, Relaxed);
            r.state(|| format!("huge {}", name));
            r.traces.fetch_add(1, Relaxed);
            r.count("illegal calls between very many parts", tried as u64);
        })
    });
}

/// Long messages, deep nesting, wide schemas and long names: schemas with a value of each, whose
/// calls are the path.
pub fn long_messages(r: &Run) -> Vec<(String, Schema, Value)> {
    use binschema::{value::StructValueField, EnumSchemaVariant, StructSchemaField};
    let mut o: Vec<(String, Schema, Value)> = Vec::new();
    let u = Schema::Unit;
    let mut lens = vec![128, 257, 300];
    if !r.quick() {
        lens.extend([127, 129, 255, 256, 512, 513, 1025]);
    }
    for n in lens {
        o.push((format!("seq of {}", n), seq(None, u8s()), Value::VarLenSeq((0..n).map(|i| vu8(i as u8)).collect())));
        o.push((format!("fixed seq of {}", n), seq(Some(n), option(u.clone())), Value::FixedLenSeq((0..n).map(|i| Value::Option(if i % 3 == 0 { Some(Box::new(Value::Unit)) } else { None })).collect())));
        o.push((
            format!("tuple of {}", n),
            Schema::Tuple((0..n).map(|i| if i % 3 == 0 { u.clone() } else { u8s() }).collect()),
            Value::Tuple((0..n).map(|i| if i % 3 == 0 { Value::Unit } else { vu8(i as u8) }).collect()),
        ));
        let name = |i: usize| format!("f{}", i);
        o.push((
            format!("struct of {}", n),
            Schema::Struct((0..n).map(|i| StructSchemaField { name: name(i), inner: if i % 2 == 0 { u.clone() } else { u8s() } }).collect()),
            Value::Struct((0..n).map(|i| StructValueField { name: name(i), value: if i % 2 == 0 { Value::Unit } else { vu8(i as u8) } }).collect()),
        ));
        let e = Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: name(i), inner: if i % 2 == 0 { u.clone() } else { u8s() } }).collect());
        let ev = |i: usize| vev(i, &name(i), if i % 2 == 0 { Value::Unit } else { vu8(i as u8) });
        let picks: Vec<usize> = [0, 1, 127, 128, 255, 256, 257, n / 2, n - 1].into_iter().filter(|&i| i < n).collect();
        o.push((format!("enums of {}", n), seq(None, e), Value::VarLenSeq(picks.into_iter().map(ev).collect())));
    }
    for d in if r.quick() { vec![66, 130, 260] } else { vec![64, 65, 66, 127, 128, 129, 255, 256, 257, 260, 300] } {
        let s = st(vec![("v", u8s()), ("next", option(Schema::Recurse(2))), ("w", u.clone())]);
        let mut v = vst(vec![("v", vu8(0)), ("next", Value::Option(None)), ("w", Value::Unit)]);
        for i in 0..d / 2 {
            v = vst(vec![("v", vu8(i as u8)), ("next", Value::Option(Some(Box::new(v)))), ("w", Value::Unit)]);
        }
        o.push((format!("list of {}", d / 2), s, v));
    }
    // (the coders' error messages show every level with its schema, so deep schemas are slow)
    for d in if r.quick() { vec![18, 34] } else { vec![17, 18, 33, 34, 65, 66] } {
        let (mut s, mut v) = (u8s(), vu8(9));
        for _ in 0..d {
            s = option(s);
            v = Value::Option(Some(Box::new(v)));
        }
        o.push((format!("{} options", d), s, v));
        let (mut s, mut v) = (Schema::Str, Value::Str("q".into()));
        for i in 0..d {
            match i % 4 {
                0 => {
                    s = Schema::Tuple(vec![u.clone(), s]);
                    v = Value::Tuple(vec![Value::Unit, v]);
                }
                1 => {
                    s = seq(Some(2), s);
                    // only the first element is deep
                    let x = match &s {
                        Schema::Seq(q) => least(&q.inner),
                        _ => unreachable!(),
                    };
                    v = Value::FixedLenSeq(vec![v, x]);
                }
                2 => {
                    s = st(vec![("n", s), ("m", u.clone())]);
                    v = vst(vec![("n", v), ("m", Value::Unit)]);
                }
                _ => {
                    s = en(vec![("E", Schema::Str), ("F", s)]);
                    v = vev(1, "F", v);
                }
            }
        }
        o.push((format!("mixed depth {}", d), s, v));
    }
    // long and deep at once
    for d in if r.quick() { vec![6] } else { vec![2, 6, 12, 18] } {
        let n = 300;
        let (mut s, mut v) = (seq(None, u.clone()), Value::VarLenSeq(vec![Value::Unit; n]));
        for _ in 0..d {
            s = option(s);
            v = Value::Option(Some(Box::new(v)));
        }
        o.push((format!("seq of {} in {} options", n, d), s, v));
        let (mut s, mut v) = (seq(Some(n), u8s()), Value::FixedLenSeq((0..n).map(|i| vu8(i as u8)).collect()));
        for i in 0..d {
            (s, v) = if i % 2 == 0 { (st(vec![("x", u.clone()), ("y", s)]), vst(vec![("x", Value::Unit), ("y", v)])) } else { (Schema::Tuple(vec![s, u.clone()]), Value::Tuple(vec![v, Value::Unit])) };
        }
        o.push((format!("fixed seq of {} in {} layers", n, d), s, v));
    }
    for l in [15usize, 16, 17, 31, 32, 33, 40, 63, 64, 65, 80, 100, 128, 129, 255, 256, 257, 1000] {
        if r.quick() && ![17, 33, 40, 65, 129, 257, 1000].contains(&l) {
            continue;
        }
        for base in ["q", "ß"] {
            let a = base.repeat(l);
            let b = format!("{}r", base.repeat(l - 1));
            let f = format!("r{}", base.repeat(l - 1));
            let z = vst(vec![(&a, vu8(1)), (&b, Value::Unit), (&f, vu8(3)), (&a, Value::Unit)]);
            o.push((format!("fields of {} {}", l, base), st(vec![(&a, u8s()), (&b, u.clone()), (&f, u8s()), (&a, u.clone())]), z));
            let e = en(vec![(&a, u8s()), (&b, u.clone()), (&f, u8s())]);
            o.push((format!("variants of {} {}", l, base), seq(None, e), Value::VarLenSeq(vec![vev(0, &a, vu8(1)), vev(2, &f, vu8(0)), vev(1, &b, Value::Unit)])));
        }
    }
    o
}

/// A smallest value of a schema built from strings, fixed sequences, structs, tuples and enums.
fn least(s: &Schema) -> Value {
    let a = Arena::new(s);
    let mh = a.min_height();
    let mut m = MState::new(&a);
    let mut bytes = Vec::new();
    while let Some(op) = m.next_enc(&a, &mh) {
        match m.enc(&a, &op) {
            Expect::Accept { moved, .. } => bytes.extend(moved),
            x => panic!("{:?}", x),
        }
    }
    match refm::decode(&a, 0, &mut Cur::new(&bytes)) {
        Ok(v) => v,
        Err(e) => panic!("{:?}", e),
    }
}

/// Along the calls of long messages: near the places where a count, an index, a depth or an
/// ordinal passes a power of two, and at both ends, every call of a reduced alphabet.
fn long_paths<D: Dir>(r: &Run, visit: &(dyn Fn(&Ctx, &At<D>, &[D::Op]) + Sync)) {
    let v = long_messages(r);
    let paths: Vec<Vec<D::Op>> = v.iter().map(|(_, s, v)| D::ops_for(s, v)).collect();
    let mut jobs = Vec::new();
    for (i, p) in paths.iter().enumerate() {
        let a = Arena::new(&v[i].1);
        let mut m = MState::new(&a);
        let idx = |m: &MState| {
            m.stack.iter().map(|x| match x.1 {
                Api::Seq { next, .. } | Api::Tuple { next } | Api::Struct { next } => next,
                _ => 0,
            }).max().unwrap_or(0)
        };
        let near = |x: usize| x < 2 || [16usize, 32, 64, 128, 256, 512, 1024].iter().any(|&b| x + 2 >= b && x <= b + 1);
        for k in 0..=p.len() {
            if p.len() < 80 || k < 3 || k + 5 >= p.len() || near(idx(&m)) && idx(&m) > 3 || near(m.stack.len()) && m.stack.len() > 3 {
                jobs.push((i, k, m.clone()));
            }
            if k < p.len() {
                match D::model(&mut m, &a, &p[k]) {
                    Expect::Accept { .. } => {}
                    x => panic!("{}: {:?} at call {}", v[i].0, x, k),
                }
            }
        }
    }
    // long jobs first
    jobs.sort_by_key(|j| std::cmp::Reverse(paths[j.0].len()));
    par_for(jobs.len(), |j| {
        let (i, k, m) = &jobs[j];
        let s = &v[*i].1;
        let a = Arena::new(s);
        let mh = a.min_height();
        let mut al = Alpha::new(&a, 1, false);
        al.all_ords = false;
        if let Some(&(n, api)) = m.stack.last() {
            match (&a.nodes[n].kind, api) {
                (mcore::refm::Kind::Struct(f) | mcore::refm::Kind::Enum(f), api) if f.len() > 8 => {
                    // of many names, those around the one that is due, and those of the same low byte
                    let at = match api {
                        Api::Struct { next } => next,
                        Api::EnumName { ord } => ord,
                        _ => 1,
                    };
                    let mut near = vec![at, at + 1, at.wrapping_sub(1), 0, f.len() - 1, at % 256, at + 256, at.wrapping_sub(256), at.wrapping_sub(128), at + 128];
                    near.retain(|&x| x < f.len());
                    near.sort();
                    near.dedup();
                    al.names = near.into_iter().map(|x| f[x].0.to_string()).collect();
                    al.names.push(String::new());
                    if let Some(x) = f.get(at) {
                        al.names.extend(mcore::machine::lookalikes(x.0));
                    }
                    al.max_variants = 1;
                    al.ords = vec![126, 127, 128, 254, 255, 256, 257, f.len() - 1, f.len(), usize::MAX];
                }
                _ => {}
            }
        }
        al.lens = Vec::new();
        for n in &a.nodes {
            if let mcore::refm::Kind::Seq(Some(l), _) = n.kind {
                if !al.lens.contains(&l) {
                    al.lens.extend([l, l + 1, l.wrapping_sub(1), l + 256, l + 65536, l + (1 << 32), l % 256]);
                }
            }
        }
        al.lens.push(1);
        al.lens.sort();
        al.lens.dedup();
        al.names.truncate(60);
        let ops = D::alphabet(&al, m, &a);
        r.state(|| format!("{} after {} calls, {}", v[*i].0, k, D::NAME));
        r.transitions.fetch_add(ops.len() as u64, Relaxed);
        let c = Ctx { r, s, a: &a, mh: &mh, cap: 700 };
        visit(&c, &At { path: paths[*i][..*k].to_vec(), m: m.clone() }, &ops);
    });
    r.count("long messages", v.len() as u64);
    r.count("states along long messages", jobs.len() as u64);
    r.note("long messages", "sequences, tuples, structs and enums of 128..=300 (thorough: ..=1025), nesting to 260 (300), names of 17..=1000 characters that differ at one end; every call of a reduced alphabet at both ends and wherever an index or the depth is within 2 of 64, 128, 256, 512, 1024");
}

// ---- C07 ----

/// Every rejected call, followed by everything: as if it had never been made.
fn visit_reject<D: Dir>(c: &Ctx, at: &At<D>, ops: &[D::Op], deep: bool) {
    let kind = if deep { "reject-deep" } else { "reject" };
    let mut rejected = Vec::new();
    let mut accepted = Vec::new();
    for op in ops {
        match D::model(&mut at.m.clone(), c.a, op) {
            Expect::Reject(_) => rejected.push(op.clone()),
            Expect::Accept { .. } => accepted.push(op.clone()),
            _ => {}
        }
    }
    let one = |l: &mut D::Live<'_>, m: &MState, op: &D::Op, what: &str| -> Result<(), String> {
        let mut m = m.clone();
        let exp = D::model(&mut m, c.a, op);
        let obs = D::step(l, op);
        judge(&exp, &obs).map_err(|e| format!("{} {}: {}", what, D::text(op), e))
    };
    let chain = |seq: &[D::Op], last: Option<&D::Op>| {
        let mut then = seq.to_vec();
        then.extend(last.cloned());
        let case = path_case::<D>(c.s, kind, &at.path, &then);
        let res = in_case(&case, || {
            guard(|| {
                let mut l = bring::<D>(c.s, &at.path);
                let before = D::total(&l);
                for op in seq {
                    one(&mut l, &at.m, op, "rejected call")?;
                    if D::total(&l) != before {
                        return Err(format!("the rejected call {} moved bytes", D::text(op)));
                    }
                    judge_state::<D>(&mut l, &at.m, c.a, true).map_err(|e| format!("after the rejected call {}: {}", D::text(op), e))?;
                }
                let mut m = at.m.clone();
                if let Some(op) = last {
                    one(&mut l, &m, op, "after rejected calls, the legal call")?;
                    D::model(&mut m, c.a, op);
                    judge_state::<D>(&mut l, &m, c.a, true)?;
                }
                complete::<D>(&mut l, &m, c.a, c.mh, c.cap).map_err(|e| format!("after rejected calls: {}", e))?;
                if D::finished(&l) {
                    valid_message::<D>(&l, c.a)?;
                }
                Ok(())
            })
        });
        space::report(c.r, &case, res);
        c.r.traces.fetch_add(1, Relaxed);
    };
    // each alone, then straight to the end of the message; and all of them, in both orders, twice over
    for x in &rejected {
        chain(std::slice::from_ref(x), None);
    }
    let mut all = rejected.clone();
    all.extend(rejected.iter().rev().cloned());
    chain(&all, None);
    for y in &accepted {
        chain(&all, Some(y));
    }
    c.r.count("rejected calls", rejected.len() as u64);
    c.r.count("legal calls after all rejected ones", accepted.len() as u64);
    if deep {
        for x in &rejected {
            for y in &accepted {
                chain(std::slice::from_ref(x), Some(y));
            }
            for y in &rejected {
                chain(&[x.clone(), y.clone()], None);
            }
        }
        c.r.count("pairs (rejected call, next call)", (rejected.len() * (accepted.len() + rejected.len())) as u64);
    }
}

fn run_reject<D: Dir>(r: &Run) {
    let mut v = universe(r, 4, 5);
    biggest_first(&mut v);
    let b = Bounds { height: r.pick(6, 8), max_seq: 2, states: r.pick(40, 60), merge: true };
    par_for(v.len(), |i| {
        let s = &v[i];
        let a = Arena::new(s);
        let mh = a.min_height();
        let al = Alpha::new(&a, 2, i >= v.len() - 40);
        let c = Ctx { r, s, a: &a, mh: &mh, cap: 64 };
        explore::<D>(r, s, &a, &al, &b, "reject", &mut |at, ops| visit_reject::<D>(&c, at, ops, false));
    });
    let w: Vec<Schema> = schemas_upto(&SchemaCfg::small(), r.pick(2, 3)).into_iter().chain(curated()).collect();
    let b = Bounds { states: r.pick(12, 60), ..b };
    par_for(w.len(), |i| {
        let s = &w[i];
        let a = Arena::new(s);
        let mh = a.min_height();
        let al = Alpha::new(&a, 2, false);
        let c = Ctx { r, s, a: &a, mh: &mh, cap: 64 };
        explore::<D>(r, s, &a, &al, &b, "reject", &mut |at, ops| visit_reject::<D>(&c, at, ops, true));
    });
    r.count("schemas", v.len() as u64);
}

pub fn c07(r: &Run) {
    r.rule("a state is a coder state reached by accepted calls; in each, every rejected call of the alphabet is made alone and all together (both orders), then every legal call and the completion must go as if nothing had happened; in the deep part every ordered pair (rejected call, any call)");
    run_reject::<E>(r);
    run_reject::<D>(r);
    long_paths::<E>(r, &|c, at, ops| visit_reject::<E>(c, at, ops, false));
    long_paths::<D>(r, &|c, at, ops| visit_reject::<D>(c, at, ops, false));
}

// ---- C08 ----

const BREAKING: [ErrorKind; 4] = [ErrorKind::Io, ErrorKind::MalformedData, ErrorKind::PlatformLimits, ErrorKind::IllegalSchema];

/// The coder has failed: everything is API usage from here, and nothing moves.
fn dead<D: Dir>(l: &mut D::Live<'_>, ops: &mut dyn Iterator<Item = &D::Op>) -> Result<u64, String> {
    let before = D::total(l);
    let mut n = 0;
    if D::finished(l) {
        return Err("reports finished after the failure".into());
    }
    fin_err_kind::<D>(l)?;
    for op in ops {
        let obs = D::step(l, op);
        n += 1;
        match &obs.res {
            Ok(x) => return Err(format!("the call {} after the failure is accepted, returning {:?}", D::text(op), x)),
            Err(e) if e.kind() != ErrorKind::ApiUsage => return Err(format!("the call {} after the failure fails with {}, expected ApiUsage", D::text(op), err_brief(e))),
            _ => {}
        }
        if !obs.moved.is_empty() || obs.over > 0 || D::total(l) != before {
            return Err(format!("the call {} after the failure moves bytes", D::text(op)));
        }
        if D::finished(l) {
            return Err(format!("reports finished after the call {} that followed the failure", D::text(op)));
        }
    }
    let v = D::value_call(l);
    // (reading a dynamic value begins by asking for the needed schema, so its error kind is not judged)
    if v.is_ok() || (D::NAME == "enc" && v != Err(ErrorKind::ApiUsage)) {
        return Err(format!("a dynamic value call after the failure gives {:?}, expected ApiUsage", v));
    }
    let _ = D::need(l);
    if D::finished(l) || D::total(l) != before {
        return Err("a dynamic value call after the failure has an effect".into());
    }
    Ok(n)
}

fn visit_break<D: Dir>(c: &Ctx, at: &At<D>, ops: &[D::Op], each: bool) {
    let kind = if each { "break-each" } else { "break" };
    // breaking calls: malformed content and illegal schemas by themselves, and a sink or source
    // that fails at each byte of a call that would be accepted
    let mut breaks: Vec<(D::Op, Option<(usize, Fault)>)> = Vec::new();
    for op in ops {
        match D::model(&mut at.m.clone(), c.a, op) {
            Expect::Accept { moved, .. } => {
                for k in 0..moved.len().min(20) {
                    let faults: &[Fault] = if each { &FAULTS } else { &FAULTS[..2] };
                    for &f in faults {
                        breaks.push((op.clone(), Some((k, f))));
                    }
                }
            }
            Expect::Fatal(_) => breaks.push((op.clone(), None)),
            _ => {}
        }
    }
    for (op, fault) in &breaks {
        let then = [op.clone()];
        let base = path_case::<D>(c.s, kind, &at.path, &then);
        let case = || match fault {
            Some((k, f)) => with(with(base(), "at", k), "fault", f.name()),
            None => base(),
        };
        let go = |seq: &mut dyn Iterator<Item = &D::Op>| -> Result<Result<Option<u64>, String>, String> {
            in_case(&case, || {
                guard(|| {
                    let mut l = bring::<D>(c.s, &at.path);
                    let obs = match fault {
                        Some((k, f)) => D::step_fault(&mut l, op, *k, *f),
                        None => D::step(&mut l, op),
                    };
                    match obs.kind() {
                        Some(k) if BREAKING.contains(&k) => dead::<D>(&mut l, seq).map(Some).map_err(|e| format!("after the failing call {} ({}): {}", D::text(op), obs.brief(), e)),
                        _ => Ok(None),
                    }
                })
            })
        };
        let mut broke = false;
        for res in [go(&mut ops.iter()), go(&mut ops.iter().rev())] {
            if let Some(Some(n)) = space::report(c.r, &case, res) {
                c.r.count("calls on a failed coder", n);
                broke = true;
            }
        }
        if broke && each {
            for y in ops {
                if let Some(Some(n)) = space::report(c.r, &case, go(&mut std::iter::once(y))) {
                    c.r.count("calls on a failed coder", n);
                }
            }
        }
        c.r.count(if broke { "failing calls" } else { "calls that did not fail fatally" }, 1);
        c.r.traces.fetch_add(1, Relaxed);
    }
}

fn run_break<D: Dir>(r: &Run) {
    let n = r.pick(3, 4);
    let mut v = universe(r, 4, 5);
    let ill: Vec<Schema> = schemas_upto(&SchemaCfg::illegal(), n).into_iter().filter(|s| !Arena::new(s).legal()).collect();
    r.note("illegal schemas", format!("{} with an illegal recurse, <= {} nodes", ill.len(), n));
    v.extend(ill);
    biggest_first(&mut v);
    let b = Bounds { height: r.pick(6, 7), max_seq: 2, states: r.pick(100, 150), merge: true };
    par_for(v.len(), |i| {
        let s = &v[i];
        let a = Arena::new(s);
        let mh = a.min_height();
        let al = Alpha::new(&a, 2, false);
        let c = Ctx { r, s, a: &a, mh: &mh, cap: 64 };
        explore::<D>(r, s, &a, &al, &b, "break", &mut |at, ops| visit_break::<D>(&c, at, ops, false));
    });
    let w: Vec<Schema> = schemas_upto(&SchemaCfg::small(), r.pick(2, 3)).into_iter().chain(curated()).collect();
    let b = Bounds { states: r.pick(12, 60), ..b };
    par_for(w.len(), |i| {
        let s = &w[i];
        let a = Arena::new(s);
        let mh = a.min_height();
        let al = Alpha::new(&a, 2, false);
        let c = Ctx { r, s, a: &a, mh: &mh, cap: 64 };
        explore::<D>(r, s, &a, &al, &b, "break-each", &mut |at, ops| visit_break::<D>(&c, at, ops, true));
    });
    r.count("schemas", (v.len() + w.len()) as u64);
}

pub fn c08(r: &Run) {
    r.rule("a state is a coder state reached by accepted calls; in each, every call that fails (malformed content, illegal schema, or the sink/source failing at each byte of the call) is followed by every call of the alphabet in both orders (and, in the smaller universe, each alone)");
    run_break::<E>(r);
    run_break::<D>(r);
    long_paths::<E>(r, &|c, at, ops| visit_break::<E>(c, at, ops, false));
    long_paths::<D>(r, &|c, at, ops| visit_break::<D>(c, at, ops, false));
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    fn go<D: Dir>(r: &Run, kvs: &[(String, String)]) {
        if get(kvs, "kind") == "huge" {
            return huge_counts::<D>(r, Some(get(kvs, "huge")));
        }
        let s = parse_schema(get(kvs, "schema"));
        let a = Arena::new(&s);
        let mh = a.min_height();
        let c = Ctx { r, s: &s, a: &a, mh: &mh, cap: 64 };
        let path = parse_ops(get(kvs, "path"), D::parse);
        let mut m = MState::new(&a);
        for op in &path {
            D::model(&mut m, &a, op);
        }
        let al = Alpha::new(&a, 2, true);
        let mut ops = D::alphabet(&al, &m, &a);
        for op in parse_ops(get(kvs, "then"), D::parse) {
            if !ops.contains(&op) {
                ops.push(op);
            }
        }
        let at = At { path, m };
        match get(kvs, "kind") {
            "machine" => visit_machine::<D>(&c, &at, &ops),
            "reject" => visit_reject::<D>(&c, &at, &ops, false),
            "reject-deep" => visit_reject::<D>(&c, &at, &ops, true),
            "break" => visit_break::<D>(&c, &at, &ops, false),
            "break-each" => visit_break::<D>(&c, &at, &ops, true),
            k => panic!("unknown kind {}", k),
        }
    }
    match get(kvs, "dir") {
        "enc" => go::<E>(r, kvs),
        _ => go::<D>(r, kvs),
    }
}
