//! C12: hostile bytes. Termination, no panic, no abort, allocation in proportion to the input; the
//! allocator itself enforces the proportion while the crate decodes.
use super::{space, util::*};
use binschema::{value::Value, CoderState, Decoder, KnownSchema, Schema};
use mcore::{
    alloc::with_limit,
    gen::{schemas_upto, vcfg, SchemaCfg, Values},
    machine::{dec_call, DecCall, D},
    refm::{self, Arena, Cur, Kind, RErr},
    report::{guard, in_case, par_for, Run},
    term::Shape,
    text::{hex, parse_schema, parse_value, schema_text, unhex},
};
use serde::{
    de::{DeserializeSeed, IgnoredAny},
    Deserialize,
};
use std::{
    collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque},
    time::{Duration, Instant},
};

/// The constant and the factor of the bound.
const BASE: usize = 8 << 20;
const FACTOR: usize = 1024;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Value,
    Any,
    Ignore,
    Leaf,
}

fn read(s: &Schema, b: &[u8], via: Via) -> (bool, usize) {
    let mut st = CoderState::new(s, Default::default(), None);
    let mut rd = b;
    let d = &mut Decoder::new(&mut st, &mut rd);
    let ok = match via {
        Via::Value => Value::decode_from(d).is_ok(),
        Via::Any => Shape::Any.deserialize(d).is_ok(),
        Via::Ignore => IgnoredAny::deserialize(d).is_ok(),
        // straight into a caller's buffer
        Via::Leaf => match s {
            Schema::Str => dec_call(d, &DecCall::Plain(D::StrInto)).is_ok(),
            Schema::Bytes => dec_call(d, &DecCall::Plain(D::BytesInto)).is_ok(),
            _ => true,
        },
    };
    (ok, b.len() - rd.len())
}

/// The reference cannot finish this: a sequence of very many zero-width elements, or nesting that
/// takes no bytes (both are listed findings, demonstrated by the probes). Otherwise the memory it
/// may take: the property's bound, and room for the zero-width elements it is not about.
fn allowance(a: &Arena, b: &[u8]) -> Option<usize> {
    let mut c = Cur::new(b);
    c.zero_budget = 1 << 12;
    let full = c.zero_budget;
    match refm::decode(a, 0, &mut c) {
        Err(RErr::TooBig) => None,
        _ => Some(BASE + FACTOR * b.len() + 1024 * (full - c.zero_budget)),
    }
}

fn check(r: &Run, s: &Schema, a: &Arena, b: &[u8]) -> bool {
    let limit = match allowance(a, b) {
        Some(l) => l,
        None => {
            r.count("inputs left out (zero-width repetition or nesting)", 1);
            return false;
        }
    };
    for via in [Via::Value, Via::Any, Via::Ignore, Via::Leaf] {
        if via == Via::Leaf && !matches!(s, Schema::Str | Schema::Bytes) {
            continue;
        }
        let case = || with(with(sb(s, b), "kind", "bytes"), "via", format!("{:?}", via));
        let res = in_case(&case, || {
            guard(|| {
                with_limit(limit, limit, || {
                    let (ok, used) = read(s, b, via);
                    if ok && used > b.len() {
                        return Err("consumed more than there is".to_string());
                    }
                    Ok(ok)
                })
            })
        });
        let ok = space::report(r, &case, res).unwrap_or(false);
        r.eval(b.len() > 1, || format!("{} | {} | {:?} -> {}", schema_text(s), hex(&b[..b.len().min(60)]), via, if ok { "value" } else { "error" }));
    }
    true
}

/// All byte strings over the alphabet, extended while the reference misses bytes.
fn explore(r: &Run, s: &Schema, alpha: &[u8], depth: usize, budget: usize) {
    let a = Arena::new(s);
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for d in 0..=depth {
        let mut next = Vec::new();
        for b in &level {
            if check(r, s, &a, b) && matches!(refm::decode(&a, 0, &mut Cur::new(b)), Err(RErr::Eof)) {
                next.push(b);
            }
        }
        if d == depth || next.is_empty() || next.len() * alpha.len() > budget {
            return;
        }
        level = next
            .into_iter()
            .flat_map(|b| {
                alpha.iter().map(move |&x| {
                    let mut n = b.clone();
                    n.push(x);
                    n
                })
            })
            .collect();
    }
}

pub fn hostile_lengths() -> Vec<Vec<u8>> {
    let mut o: Vec<Vec<u8>> = [
        1u128 << 14, 1 << 20, (1 << 21) + 5, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 48) - 1, 1 << 60,
        (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 3, u128::MAX,
    ]
    .into_iter()
    .map(refm::uint)
    .collect();
    o.push(vec![0xff; 19]);
    o.push(vec![0x80; 40]);
    o
}

/// A hostile length at every offset of a message, with different things behind it.
fn splice(r: &Run, s: &Schema, b: &[u8]) {
    let a = Arena::new(s);
    for at in 0..=b.len() {
        for h in hostile_lengths() {
            for (tail, n) in [(0u8, 0usize), (0x61, 9), (0, 70), (0xff, 40), (1, 5000)] {
                let mut x = b[..at].to_vec();
                x.extend_from_slice(&h);
                x.extend(std::iter::repeat(tail).take(n));
                check(r, s, &a, &x);
            }
        }
    }
}

/// Variable-length integers around everything that is a limit somewhere: each as itself, with a
/// superfluous group, and without its last group.
fn integers() -> Vec<Vec<u8>> {
    let mut v = std::collections::BTreeSet::new();
    let mut near = |n: u128| v.extend((0..=8).map(|d| n.wrapping_add(d).wrapping_sub(4)));
    for k in 0..128 {
        near(1 << k);
    }
    for n in [0, 0xd800, 0xdfff, 0xe000, 0x10ffff, u128::MAX, 10, 100, 1000, 4096, 1_000_000] {
        near(n);
        near(n << 1); // as the signed ones have it
    }
    let mut o = std::collections::BTreeSet::new();
    for n in v {
        let b = refm::uint(n);
        let mut over = b.clone();
        *over.last_mut().unwrap() |= 0x80;
        over.push(0);
        o.insert(b[..b.len() - 1].to_vec());
        o.insert(over);
        o.insert(b);
    }
    for k in 0..128 {
        let n = 1i128 << k;
        for d in -2i128..=2 {
            o.insert(refm::sint(n.wrapping_add(d)));
            o.insert(refm::sint(n.wrapping_neg().wrapping_add(d)));
        }
    }
    o.into_iter().collect()
}

fn every_leaf() -> Vec<Schema> {
    use binschema::ScalarType::*;
    let mut v: Vec<Schema> = [U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64, Char, Bool].into_iter().map(Schema::Scalar).collect();
    v.extend([Schema::Str, Schema::Bytes, Schema::Unit]);
    v.push(en((0..300).map(|_| ("same", Schema::Unit)).collect()));
    v.push(en(vec![]));
    v
}

fn around(s: &Schema) -> Vec<Schema> {
    vec![s.clone(), option(s.clone()), seq(None, s.clone()), seq(Some(2), s.clone()), en(vec![("a", Schema::Unit), ("b", s.clone())])]
}

/// Typed reads of library types with a hostile length.
fn typed<T: KnownSchema + for<'d> Deserialize<'d>>(r: &Run, name: &'static str) {
    let s = T::schema(Default::default());
    let a = Arena::new(&s);
    let go = |b: &[u8]| {
        let limit = match allowance(&a, b) {
            Some(l) => l,
            None => return,
        };
        let case = || with(with(sb(&s, b), "kind", "typed"), "type", name);
        let res = in_case(&case, || {
            guard(|| {
                with_limit(limit, limit, || {
                    let mut st = CoderState::new(&s, Default::default(), None);
                    Ok(T::deserialize(&mut Decoder::new(&mut st, &mut &b[..])).is_ok())
                })
            })
        });
        space::report(r, &case, res);
        r.eval(true, || format!("{} | {}", name, hex(&b[..b.len().min(60)])));
    };
    for h in hostile_lengths() {
        for first in [vec![], vec![1u8], vec![2, 1], vec![1, 1], vec![0], vec![1, 0, 1]] {
            for (tail, n) in [(0u8, 0usize), (0x61, 9), (0, 200), (1, 3000)] {
                let mut x = first.clone();
                x.extend_from_slice(&h);
                x.extend(std::iter::repeat(tail).take(n));
                go(&x);
            }
        }
    }
    for n in integers() {
        for head in [&[][..], &[1], &[1, 1]] {
            for tail in [&[][..], &[0x61; 9]] {
                go(&[head, &n, tail].concat());
            }
        }
    }
    // everything short
    let alpha = [0u8, 1, 2, 0x61, 0x7f, 0x80, 0xff];
    let depth = r.pick(5, 7);
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..depth {
        level = level
            .into_iter()
            .flat_map(|b| {
                alpha.iter().map(move |&x| {
                    let mut n = b.clone();
                    n.push(x);
                    n
                })
            })
            .collect();
        for b in &level {
            go(b);
        }
    }
    r.count("library types", 1);
}

fn typed_all(r: &Run, only: Option<&str>) {
    macro_rules! each {
        ($($t:ty),* $(,)?) => {{
            let fs: Vec<(&'static str, fn(&Run, &'static str))> = vec![$((stringify!($t), typed::<$t>)),*];
            par_for(fs.len(), |i| if only.map_or(true, |o| o == fs[i].0) { fs[i].1(r, fs[i].0) });
        }};
    }
    each!(
        bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, char, (), String, Vec<u8>, Vec<u64>, Vec<u128>, Vec<String>, Vec<Vec<u8>>, Vec<Vec<Vec<u16>>>, Vec<Option<bool>>, VecDeque<u64>,
        LinkedList<u8>, BTreeSet<u32>, HashSet<u64>, BinaryHeap<u16>, BTreeMap<String, u8>, HashMap<u32, String>, HashMap<u8, Vec<u8>>, Vec<(u8, String)>,
        Vec<[u64; 8]>, Option<Vec<char>>, Vec<i128>, (u128, i32), Vec<std::ops::Range<u8>>, Vec<Box<u8>>, Schema, Vec<Schema>,
    );
}

/// Long valid and invalid inputs: the factor of the bound.
fn long_inputs() -> Vec<(Schema, Vec<u8>)> {
    let mut o = Vec::new();
    let n = 200_000usize;
    let with_len = |body: Vec<u8>| {
        let mut b = refm::uint(n as u128);
        b.extend(body);
        b
    };
    let one = en(vec![("a", Schema::Unit), ("b", u8s())]);
    for inner in [u8s(), option(Schema::Unit), seq(None, u8s()), Schema::Str, Schema::Bytes, one.clone(), st(vec![("x", u8s())]), Schema::Tuple(vec![u8s()]), option(seq(None, Schema::Unit))] {
        for x in [0u8, 1] {
            o.push((seq(None, inner.clone()), with_len(vec![x; n])));
            o.push((seq(None, inner.clone()), with_len(vec![x; n / 2])));
            o.push((seq(Some(n), inner.clone()), vec![x; n]));
        }
    }
    o.push((Schema::Str, with_len(vec![b'a'; n])));
    o.push((Schema::Bytes, with_len(vec![b'a'; n])));
    o.push((Schema::Bytes, refm::uint(u64::MAX as u128).into_iter().chain(vec![1; n]).collect()));
    o.push((Schema::Str, refm::uint(u64::MAX as u128 / 2).into_iter().chain(vec![1; n]).collect()));
    for l in [1usize << 40, usize::MAX / 2, usize::MAX] {
        o.push((seq(Some(l), u8s()), vec![1; 1000]));
        o.push((seq(Some(l), Schema::Str), vec![1; 1000]));
        o.push((Schema::Tuple(vec![u8s(), seq(Some(l), option(u8s()))]), vec![0; 1000]));
    }
    // a ladder of hostile lengths, one in the other
    let ladder = seq(None, Schema::Recurse(1));
    let b: Vec<u8> = (0..400).flat_map(|_| refm::uint((1 << 40) - 1)).collect();
    o.push((ladder, b));
    let b: Vec<u8> = (0..400).flat_map(|_| { let mut x = vec![1]; x.extend(refm::uint(1 << 62)); x }).collect();
    o.push((option(seq(None, Schema::Recurse(2))), b));
    o
}

pub fn c12(r: &Run) {
    r.rule("every byte string over hostile alphabets for every schema (extended while the reference misses bytes), a hostile length spliced in at every offset of every message, typed reads of library types, reads by every type one edit away from one that fits, long inputs; the allocator limits single requests and live growth to 8 MiB + 1024 x input; nontrivial: more than one byte");
    r.assume("inputs on which the reference decoder meets a sequence of more than 4096 zero-width elements, or unbounded nesting without input, are left to the probes (known findings)");
    let mut u = super::c05_machine::curated();
    u.extend(schemas_upto(&SchemaCfg::small(), r.pick(3, 4)));
    // illegal ones too: any schema
    u.extend(schemas_upto(&SchemaCfg::illegal(), r.pick(3, 3)).into_iter().filter(|s| !Arena::new(s).legal()));
    r.count("schemas", u.len() as u64);
    let alpha = [0u8, 1, 2, 0x7f, 0x80, 0x83, 0xff];
    par_for(u.len(), |i| {
        explore(r, &u[i], &alpha, r.pick(7, 9), r.pick(1500, 20000));
    });
    par_for(u.len(), |i| {
        let s = &u[i];
        let a = Arena::new(s);
        let hostile = |k: &Kind| matches!(k, Kind::Seq(..) | Kind::Str | Kind::Bytes | Kind::Enum(_) | Kind::Scalar(_));
        if !a.legal() || !a.nodes.iter().any(|n| hostile(&n.kind)) {
            return;
        }
        let (vals, _) = Values::new(&a, vcfg(false, 2)).upto(0, 7, r.pick(8, 20));
        let mut seen = std::collections::HashSet::new();
        for v in vals {
            let b = ref_bytes(s, &v).unwrap();
            if b.len() < 40 && seen.insert(b.clone()) {
                splice(r, s, &b);
            }
        }
    });
    let ints = integers();
    let scalars: Vec<Schema> = every_leaf();
    par_for(scalars.len(), |i| {
        for s in around(&scalars[i]) {
            let a = Arena::new(&s);
            for n in &ints {
                for head in [&[][..], &[0], &[1], &[2], &[1, 1]] {
                    for tail in [&[][..], &[0], &[0x61; 20]] {
                        check(r, &s, &a, &[head, n, tail].concat());
                    }
                }
            }
        }
    });
    r.count("integers for every leaf", ints.len() as u64);
    let l = long_inputs();
    par_for(l.len(), |i| {
        let a = Arena::new(&l[i].0);
        check(r, &l[i].0, &a, &l[i].1);
    });
    r.count("long inputs", l.len() as u64);
    typed_all(r, None);
    super::c18_serde::misfits(r, &|s, b| allowance(&Arena::new(s), b), None);
    probes(r);
}

// ---- findings, each demonstrated in a process of its own ----

struct Probe {
    key: &'static str,
    what: &'static str,
    secs: u64,
}
const PROBES: [Probe; 6] = [
    Probe { key: "deep-nesting-value", what: "Value::decode_from of (option (recurse 1)) on 10^6 bytes 01", secs: 20 },
    Probe { key: "deep-nesting-ignore", what: "IgnoredAny of (option (tuple (recurse 2) unit)) on 10^6 bytes 01", secs: 20 },
    Probe { key: "zero-input-nesting-value", what: "Value::decode_from of (tuple (recurse 1)) on no bytes", secs: 20 },
    Probe { key: "zero-input-nesting-ignore", what: "IgnoredAny of (tuple (recurse 1)) on no bytes", secs: 20 },
    Probe { key: "zero-width-elements-value", what: "Value::decode_from of (varseq unit) on the length 2^62", secs: 4 },
    Probe { key: "zero-width-elements-ignore", what: "IgnoredAny of (varseq unit) on the length 2^62", secs: 4 },
];

/// Runs in the child.
pub fn probe(key: &str) {
    let (s, b) = match key {
        "deep-nesting-ignore" => (option(Schema::Tuple(vec![Schema::Recurse(2), Schema::Unit])), vec![1u8; 1_000_000]),
        k if k.starts_with("deep-nesting") => (option(Schema::Recurse(1)), vec![1u8; 1_000_000]),
        k if k.starts_with("zero-input") => (Schema::Tuple(vec![Schema::Recurse(1)]), vec![]),
        _ => (seq(None, Schema::Unit), refm::uint(1 << 62)),
    };
    let via = if key.ends_with("value") { Via::Value } else { Via::Ignore };
    let r = read(&s, &b, via);
    println!("probe ended: {:?}", r);
    std::process::exit(0);
}

fn probes(r: &Run) {
    let exe = std::env::current_exe().unwrap();
    let done: Vec<_> = PROBES
        .iter()
        .map(|p| {
            let child = std::process::Command::new("/bin/sh")
                .args(["-c", "ulimit -c 0; ulimit -v 3000000; exec \"$0\" probe \"$1\"", exe.to_str().unwrap(), p.key])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn();
            (p, child, Instant::now())
        })
        .collect();
    for (p, child, start) in done {
        let mut child = match child {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot run a probe: {}", e);
                std::process::exit(2);
            }
        };
        let verdict = loop {
            match child.try_wait().unwrap() {
                Some(st) if st.success() => break None,
                Some(st) => break Some(format!("the process died: {}", st)),
                None if start.elapsed() > Duration::from_secs(p.secs) => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break Some(format!("no result within {} s", p.secs));
                }
                None => std::thread::sleep(Duration::from_millis(20)),
            }
        };
        r.eval(true, || p.what.to_string());
        if let Some(v) = verdict {
            let case = || vec![mcore::report::kv("kind", "probe"), mcore::report::kv("probe", p.key)];
            r.fail_keyed(&case, &format!("{}: {}", p.what, v), p.key);
        }
    }
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    match get(kvs, "kind") {
        "bytes" => {
            let s = parse_schema(get(kvs, "schema"));
            check(r, &s, &Arena::new(&s), &unhex(get(kvs, "bytes")));
        }
        "probe" => probes(r),
        "misfit" => {
            let (s, v) = (parse_schema(get(kvs, "schema")), parse_value(get(kvs, "value")));
            super::c18_serde::misfits(r, &|s, b| allowance(&Arena::new(s), b), Some((&s, &v)));
        }
        _ => typed_all(r, Some(get(kvs, "type"))),
    }
}
