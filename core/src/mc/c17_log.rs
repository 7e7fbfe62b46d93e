//! C17: the debug log never influences coding.
use super::{
    c09_streams::{messages, Msg, RVia, WVia, RVIAS, WVIAS},
    space::{self, *},
    util::*,
};
use binschema::{value::Value, CoderState, Schema};
use mcore::{
    gen::{schemas_upto, SchemaCfg},
    io::{Fault, LogMode, LogW, FAULTS},
    machine::{parse_ops, Alpha, Expect, MState},
    refm::Arena,
    report::{guard, in_case, par_for, Run},
    text::{hex, parse_schema, parse_value, schema_text},
};
use std::{io::Write, os::fd::AsRawFd, sync::atomic::Ordering::Relaxed};

/// What a run of calls shows.
type Trace = Vec<(String, bool, usize)>;

struct Ctx<'a, 's> {
    r: &'a Run,
    s: &'s Schema,
    a: &'a Arena<'s>,
    mh: &'a [Option<u32>],
}

/// The path, the call in question, another go at what is due, the completion.
fn script<X: Dir>(c: &Ctx, at: &At<X>, op: &X::Op, fault: Option<usize>) -> (Vec<(X::Op, Option<usize>)>, usize) {
    let mut v: Vec<(X::Op, Option<usize>)> = at.path.iter().map(|o| (o.clone(), None)).collect();
    let k = v.len();
    v.push((op.clone(), fault));
    let mut m = at.m.clone();
    if let (Expect::Accept { .. }, None) = (X::model(&mut m.clone(), c.a, op), fault) {
        X::model(&mut m, c.a, op);
    }
    let mut n = 0;
    while let Some(op) = X::next(&m, c.a, c.mh) {
        X::model(&mut m, c.a, &op);
        v.push((op, None));
        n += 1;
        if n >= 24 {
            break;
        }
    }
    v.push((op.clone(), None));
    (v, k)
}

fn run<X: Dir>(s: &Schema, v: &[(X::Op, Option<usize>)], log: Option<&mut LogW>, marks: &mut dyn FnMut(usize)) -> Trace {
    fn go<'x, X: Dir>(s: &'x Schema, log: Option<&'x mut LogW>, v: &[(X::Op, Option<usize>)], marks: &mut dyn FnMut(usize)) -> Trace {
        let mut l = X::with(s, Default::default(), log.map(|l| l as &mut dyn Write));
        let mut t = vec![(String::new(), X::finished(&l), X::total(&l))];
        for (i, (op, f)) in v.iter().enumerate() {
            marks(i);
            let obs = match f {
                None => X::step(&mut l, op),
                Some(k) => X::step_fault(&mut l, op, *k, FAULTS[0]),
            };
            t.push((obs.brief(), X::finished(&l), X::total(&l)));
        }
        let need = X::need(&mut l).map(|s| schema_text(s)).map_err(|e| e.kind());
        let fin = X::finished_or_err(&l).map_err(|e| e.kind());
        t.push((format!("need {:?}, is_finished_or_err {:?}", need, fin), X::finished(&l), X::total(&l)));
        drop(X::into_alloc(l));
        t
    }
    go::<X>(s, log, v, marks)
}

fn differ(a: &Trace, b: &Trace) -> Result<(), String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return Err(format!("call {}: {:?} with the log, {:?} without", i.wrapping_sub(1) as isize, y, x));
        }
    }
    Ok(())
}

fn modes(first: u64, last: u64, all: bool) -> Vec<LogMode> {
    let mut o = vec![LogMode::Full, LogMode::Short(1), LogMode::Interrupting, LogMode::NoFlush];
    if all {
        o.extend([LogMode::Short(2), LogMode::Short(3)]);
        for n in 0..last {
            o.push(LogMode::FailFrom(n, FAULTS[n as usize % FAULTS.len()]));
            for f in FAULTS {
                o.push(LogMode::FailAt(n, f));
            }
        }
    } else {
        for n in first..last {
            o.push(LogMode::FailAt(n, FAULTS[n as usize % FAULTS.len()]));
        }
        o.push(LogMode::FailFrom(first, if first % 2 == 0 { FAULTS[4] } else { Fault::Zero }));
    }
    o
}

fn visit<X: Dir>(c: &Ctx, at: &At<X>, ops: &[X::Op], all: bool) {
    let mut calls: Vec<(&X::Op, Option<usize>)> = Vec::new();
    for op in ops {
        calls.push((op, None));
        if let Expect::Accept { moved, .. } = X::model(&mut at.m.clone(), c.a, op) {
            if !moved.is_empty() {
                calls.push((op, Some(0)));
                calls.push((op, Some(moved.len() - 1)));
            }
        }
    }
    for (op, f) in calls {
        let (v, k) = script::<X>(c, at, op, f);
        let then = [op.clone()];
        let base = path_case::<X>(c.s, if all { "state-all" } else { "state" }, &at.path, &then);
        let base = || with(base(), "at", f.map_or("-".to_string(), |k| k.to_string()));
        let bare = match guard(|| run::<X>(c.s, &v, None, &mut |_| ())) {
            Ok(t) => t,
            Err(_) => continue, // without the log: not this property's business
        };
        // the calls the log gets by the call in question
        let mut log = LogW::new(LogMode::Full);
        let seen = log.calls_handle();
        let (mut first, mut last) = (0, 0);
        {
            let case = || with(base(), "log", "full");
            let res = in_case(&case, || {
                guard(|| {
                    let t = run::<X>(c.s, &v, Some(&mut log), &mut |i| {
                        if i == k {
                            first = seen.load(Relaxed);
                        }
                        if i == k + 1 {
                            last = seen.load(Relaxed);
                        }
                    });
                    differ(&bare, &t)
                })
            });
            space::report(c.r, &case, res);
        }
        if all {
            last = seen.load(Relaxed);
        }
        let ms = modes(first, last.max(first), all);
        c.r.traces.fetch_add(ms.len() as u64, Relaxed);
        for mode in ms {
            let case = || with(base(), "log", mode.text());
            let res = in_case(&case, || {
                guard(|| {
                    let mut log = LogW::new(mode);
                    differ(&bare, &run::<X>(c.s, &v, Some(&mut log), &mut |_| ()))
                })
            });
            space::report(c.r, &case, res);
        }
    }
}

fn explore_all<X: Dir>(r: &Run) {
    let n = r.pick(3, 4);
    let mut v = super::c05_machine::curated();
    v.extend(schemas_upto(&SchemaCfg::small(), n));
    v.extend(schemas_upto(&SchemaCfg::illegal(), r.pick(2, 3)).into_iter().filter(|s| !Arena::new(s).legal()));
    v.sort_by_key(|s| std::cmp::Reverse(mcore::gen::size_of_schema(s)));
    let b = Bounds { height: r.pick(6, 8), max_seq: 2, states: r.pick(25, 120), merge: true };
    par_for(v.len(), |i| {
        let s = &v[i];
        let a = Arena::new(s);
        let mh = a.min_height();
        let al = Alpha::new(&a, 2, false);
        let c = Ctx { r, s, a: &a, mh: &mh };
        explore::<X>(r, s, &a, &al, &b, "state", &mut |at, ops| visit::<X>(&c, at, ops, false));
    });
    let w: Vec<Schema> = schemas_upto(&SchemaCfg::small(), r.pick(1, 2)).into_iter().chain(super::c05_machine::curated()).collect();
    let b = Bounds { states: r.pick(6, 30), ..b };
    par_for(w.len(), |i| {
        let s = &w[i];
        let a = Arena::new(s);
        let mh = a.min_height();
        let al = Alpha::new(&a, 1, false);
        let c = Ctx { r, s, a: &a, mh: &mh };
        explore::<X>(r, s, &a, &al, &b, "state-all", &mut |at, ops| visit::<X>(&c, at, ops, true));
    });
    r.count("schemas", (v.len() + w.len()) as u64);
}

// ---- whole values, serde ----

fn check_message(r: &Run, m: &Msg, long: bool) {
    fn write(m: &Msg, via: WVia, log: Option<&mut LogW>) -> String {
        fn go<'x>(m: &'x Msg, via: WVia, log: Option<&'x mut LogW>) -> String {
            let mut o = Vec::new();
            let (res, fin) = m.write_with(CoderState::new(m.s, Default::default(), log.map(|l| l as &mut dyn Write)), via, &mut o);
            format!("{:?} finished {} {}", res.map_err(|e| err_brief(&e)), fin, hex(&o))
        }
        go(m, via, log)
    }
    fn read(m: &Msg, via: RVia, b: &[u8], log: Option<&mut LogW>) -> String {
        fn go<'x>(m: &'x Msg, via: RVia, b: &[u8], log: Option<&'x mut LogW>) -> String {
            let mut rd = b;
            let (res, fin) = m.read_with(CoderState::new(m.s, Default::default(), log.map(|l| l as &mut dyn Write)), via, &mut rd);
            format!("{:?} finished {} left {}", res.map_err(|e| e.map(|e| err_brief(&e))), fin, rd.len())
        }
        go(m, via, b, log)
    }
    let go = |what: String, f: &dyn Fn(Option<&mut LogW>) -> String| {
        let base = || with(with(sv(m.s, &m.v), "kind", if long { "long" } else { "message" }), "via", &what);
        let bare = match guard(|| f(None)) {
            Ok(t) => t,
            Err(_) => return,
        };
        let mut log = LogW::new(LogMode::Full);
        let _ = guard(|| f(Some(&mut log)));
        let ms = if long {
            let n = log.calls;
            let mut ms = modes(0, 0, false);
            ms.extend([0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1)].map(|k| LogMode::FailAt(k, FAULTS[k as usize % FAULTS.len()])));
            ms
        } else {
            modes(0, log.calls, false)
        };
        for mode in ms {
            let case = || with(base(), "log", mode.text());
            let res = in_case(&case, || {
                guard(|| {
                    let t = f(Some(&mut LogW::new(mode)));
                    if t != bare { Err(format!("{} with the log, {} without", t, bare)) } else { Ok(()) }
                })
            });
            space::report(r, &case, res);
            r.traces.fetch_add(1, Relaxed);
        }
    };
    for via in WVIAS {
        go(format!("write {:?}", via), &|log| write(m, via, log));
    }
    let n = m.bytes.len();
    for via in RVIAS {
        for cut in [n, n.saturating_sub(1), n / 2] {
            go(format!("read {:?} {} bytes", via, cut), &|log| read(m, via, &m.bytes[..cut], log));
        }
        let mut bad = m.bytes.clone();
        bad.iter_mut().for_each(|b| *b |= 0x82);
        go(format!("read {:?} spoilt", via), &|log| read(m, via, &bad, log));
    }
    r.state(|| format!("{} {}", schema_text(m.s), mcore::text::value_text(&m.v)));
    r.transitions.fetch_add(23, Relaxed);
}

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

/// The crate reports log failures on stderr; that must not matter either, so stderr fails too.
fn dead_stderr() {
    let f = std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full");
    unsafe { dup2(f.as_raw_fd(), 2) };
}

pub fn c17(r: &Run) {
    r.rule("a state is a coder state reached by accepted calls, or a message; in each, every call (accepted, rejected, failing, or with the stream failing) and the completion after it is run without a log and with a log that takes everything, fails at each single write of that call, fails from there on, takes 1..3 bytes at a time, is interrupted, or can't be flushed; standard error fails throughout");
    dead_stderr();
    explore_all::<E>(r);
    explore_all::<D>(r);
    let ms = messages(r, r.pick(2, 3), r.pick(4, 8), false);
    par_for(ms.len(), |i| check_message(r, &Msg::new(&ms[i].0, &ms[i].1), false));
    // names and strings of every length, of characters of every width, cut anywhere by a careless log
    let mut ms: Vec<(Schema, Value)> = super::c05_machine::long_messages(r).into_iter().map(|(_, s, v)| (s, v)).collect();
    for c in ["q", "ß", "☃", "\u{10ffff}", "\n", "\"", "{", "\0"] {
        for n in 0..=r.pick(70, 300) {
            for lead in ["", "a"] {
                let name = format!("{}{}", lead, c.repeat(n));
                let s = st(vec![(&name, en(vec![("", Schema::Unit), (&name, Schema::Str)]))]);
                ms.push((s, vst(vec![(&name, vev(1, &name, Value::Str(name.clone())))])));
            }
        }
    }
    par_for(ms.len(), |i| check_message(r, &Msg::new(&ms[i].0, &ms[i].1), true));
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    dead_stderr();
    let s = parse_schema(get(kvs, "schema"));
    if matches!(get(kvs, "kind"), "message" | "long") {
        check_message(r, &Msg::new(&s, &parse_value(get(kvs, "value"))), get(kvs, "kind") == "long");
        return;
    }
    fn go<X: Dir>(r: &Run, kvs: &[(String, String)], s: &Schema) {
        let a = Arena::new(s);
        let mh = a.min_height();
        let c = Ctx { r, s, a: &a, mh: &mh };
        let path = parse_ops(get(kvs, "path"), X::parse);
        let mut m = MState::new(&a);
        for op in &path {
            X::model(&mut m, &a, op);
        }
        visit::<X>(&c, &At { path, m }, &parse_ops(get(kvs, "then"), X::parse), get(kvs, "kind") == "state-all");
    }
    match get(kvs, "dir") {
        "enc" => go::<E>(r, kvs, &s),
        _ => go::<D>(r, kvs, &s),
    }
}
