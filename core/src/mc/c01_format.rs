//! C01-C04: the byte format. Model: the reference encoder/decoder of `refm`, explored over every
//! (schema, value) or (schema, byte string) of the stated bounds, every one replayed on the crate.
use super::util::*;
use binschema::{
    error::ErrorKind,
    value::{ScalarValue, Value},
    CoderState, CoderStateAlloc, Decoder, Encoder, ScalarType, Schema,
};
use mcore::{
    gen::{schemas_upto, vcfg, SchemaCfg, Values},
    machine::{dec_call, enc_call, DecCall, EncOp, LiveEnc, Ret, D},
    refm::{self, Arena, Cur, RErr},
    report::{guard, in_case, kv, par_for, Case, Run},
    text::{hex, parse_schema, parse_value, schema_text, unhex, value_text, SCALARS},
};
use std::sync::atomic::Ordering::Relaxed;

/// Schemas of the small universe, with their values.
fn universe(r: &Run, q: usize, t: usize) -> Vec<Schema> {
    let n = r.pick(q, t);
    let v = schemas_upto(&SchemaCfg::small(), n);
    r.note("schema universe", format!("{} schemas of <= {} nodes over u8/str/unit leaves, options, seqs (var, 0, 2), tuples/structs/enums of 0..=2, every legal recurse", v.len(), n));
    v
}

/// Sparse deeper schemas: single-leaf trees.
fn deeper(n: usize) -> Vec<Schema> {
    schemas_upto(
        &SchemaCfg { seq_lens: vec![None, Some(2)], widths: vec![1, 2], ..SchemaCfg::tiny() },
        n,
    )
}

// ---- C01 ----

fn check_encode(r: &Run, s: &Schema, v: &Value) -> usize {
    let case = || with(sv(s, v), "kind", "encode");
    in_case(&case, || {
        let want = match ref_bytes(s, v) {
            Some(b) => b,
            None => panic!("generated value does not conform"),
        };
        match encode_vec(s, v) {
            Err(e) => r.fail(&case, &e),
            Ok(got) if got != want => r.fail(&case, &format!("encoded as {}, FORMAT.txt prescribes {}", clip(&got), clip(&want))),
            _ => {}
        }
        let mut ops = Vec::new();
        enc_ops(v, &mut ops);
        let n = ops.len();
        if want.len() < 4096 {
            let res = guard(|| {
                let mut live = LiveEnc::new(s);
                live.out.extend_from_slice(b"pre");
                for (i, op) in ops.iter().enumerate() {
                    if live.st.is_finished() {
                        return Err(format!("finished before call {}", i));
                    }
                    let o = live.step(op);
                    if let Err(e) = o.res {
                        return Err(format!("call {} ({}) failed: {}", i, op.text(), err_brief(&e)));
                    }
                }
                if !live.st.is_finished() {
                    return Err("not finished after the last call".into());
                }
                if &live.out[..3] != b"pre" || live.out[3..] != want {
                    return Err(format!("separate calls wrote {}, expected {}", clip(&live.out[3..]), clip(&want)));
                }
                Ok(())
            });
            if let Err(e) | Ok(Err(e)) = res {
                r.fail(&case, &e);
            }
            r.traces.fetch_add(1, Relaxed);
        }
        r.state(|| format!("{} | {} -> {}", schema_text(s), cliptext(value_text(v)), clip(&want)));
        r.transitions.fetch_add(n as u64, Relaxed);
        r.traces.fetch_add(1, Relaxed);
        want.len()
    })
}

pub fn clip(b: &[u8]) -> String {
    if b.len() <= 64 {
        hex(b)
    } else {
        format!("{}.. ({} bytes)", hex(&b[..64]), b.len())
    }
}

fn over_values(r: &Run, schemas: &[Schema], max_size: usize, cap: u128, f: impl Fn(&Schema, &Value) + Sync) {
    par_for(schemas.len(), |i| {
        let s = &schemas[i];
        let a = Arena::new(s);
        let mut vs = Values::new(&a, vcfg(false, 3));
        let (vals, _) = vs.upto(0, max_size, cap);
        for v in &vals {
            f(s, v);
        }
    });
    let _ = r;
}

/// The pairs beyond the small universe.
fn families(r: &Run) -> Vec<(String, Schema, Vec<Value>)> {
    let mut o: Vec<(String, Schema, Vec<Value>)> = leaf_contexts().into_iter().map(|(s, v)| (String::from("leaf context"), s, v)).collect();
    o.extend(boundary_families(!r.quick()));
    o
}

pub fn c01(r: &Run) {
    r.rule("every legal schema up to the node bound x every conforming value up to the value-node bound (smallest first, capped per schema), every leaf type in every constructor, and boundary families for lengths, widths, variant counts, depths and names; each encoded by one encoder and call by call, bytes compared with the reference encoder written from FORMAT.txt");
    let u = universe(r, 5, 6);
    over_values(r, &u, r.pick(8, 10), r.pick(40, 60), |s, v| {
        check_encode(r, s, v);
    });
    let d = deeper(r.pick(6, 7));
    r.count("deeper_schemas", d.len() as u64);
    over_values(r, &d, 12, r.pick(15, 30), |s, v| {
        check_encode(r, s, v);
    });
    let fam = families(r);
    r.count("family_schemas", fam.len() as u64);
    par_for(fam.len(), |i| {
        for v in &fam[i].2 {
            check_encode(r, &fam[i].1, v);
        }
    });
    r.sample(|| format!("{} = {}", schema_text(&u[u.len() / 2]), "all its values up to the bound"));
    r.assume("values longer than the boundary families behave like the family members next to them");
}

// ---- C02 ----

const SENTINEL: [u8; 5] = [0xa5, 0x80, 0, 0xff, 1];

fn check_roundtrip(r: &Run, s: &Schema, v: &Value) {
    let case = || with(sv(s, v), "kind", "roundtrip");
    in_case(&case, || {
        let mut bytes = match encode_vec(s, v) {
            Err(e) => return r.fail(&case, &e),
            Ok(b) => b,
        };
        let n = bytes.len();
        bytes.extend_from_slice(&SENTINEL);
        match decode_slice(s, &bytes) {
            Err(e) => r.fail(&case, &e),
            Ok((d, used)) => match d.res {
                Err(e) => r.fail(&case, &format!("decoding {} failed: {}", clip(&bytes[..n]), err_brief(&e))),
                Ok(w) => {
                    if !refm::same(v, &w) {
                        r.fail(&case, &format!("decoded to another value: {}", cliptext(value_text(&w))));
                    }
                    if used != n {
                        r.fail(&case, &format!("the message has {} bytes, the decoder took {}", n, used));
                    }
                    if !d.finished {
                        r.fail(&case, "decoded to the end, but not finished");
                    }
                }
            },
        }
        r.state(|| format!("{} | {} -> {}", schema_text(s), cliptext(value_text(v)), clip(&bytes[..n])));
        r.transitions.fetch_add(2, Relaxed);
        r.traces.fetch_add(1, Relaxed);
    })
}

fn cliptext(s: String) -> String {
    s.chars().take(300).collect()
}

fn message_menu(n: usize) -> Vec<(Schema, Value)> {
    let mut m: Vec<(Schema, Value)> = Vec::new();
    for l in all_leaves() {
        for v in leaf_values(&l, false) {
            m.push((l.clone(), v));
        }
    }
    m.push((Schema::Str, Value::Str("x".repeat(200))));
    m.push((Schema::Bytes, Value::Bytes(vec![0; 130])));
    m.push((option(u8s()), Value::Option(None)));
    m.push((option(u8s()), Value::Option(Some(Box::new(vu8(0))))));
    m.push((seq(None, Schema::Unit), Value::VarLenSeq(vec![Value::Unit; 3])));
    m.push((seq(None, u8s()), Value::VarLenSeq(vec![])));
    m.push((seq(None, u8s()), Value::VarLenSeq((0..200).map(|i| vu8(i as u8)).collect())));
    m.push((seq(Some(2), u8s()), Value::FixedLenSeq(vec![vu8(1), vu8(2)])));
    m.push((seq(Some(0), u8s()), Value::FixedLenSeq(vec![])));
    m.push((Schema::Tuple(vec![]), Value::Tuple(vec![])));
    m.push((st(vec![("a", Schema::Str), ("b", u8s())]), vst(vec![("a", Value::Str("q".into())), ("b", vu8(9))])));
    m.push((en(vec![("A", Schema::Unit)]), vev(0, "A", Value::Unit)));
    m.push((en(vec![("A", Schema::Unit), ("B", Schema::Str)]), vev(1, "B", Value::Str("zz".into()))));
    let big = Schema::Enum((0..300).map(|i| binschema::EnumSchemaVariant { name: format!("v{}", i), inner: Schema::Unit }).collect());
    m.push((big, vev(258, "v258", Value::Unit)));
    let list = st(vec![("v", u8s()), ("next", option(Schema::Recurse(2)))]);
    let e = vst(vec![("v", vu8(1)), ("next", Value::Option(None))]);
    m.push((list, vst(vec![("v", vu8(2)), ("next", Value::Option(Some(Box::new(e))))])));
    if n < m.len() {
        let step = m.len() as f64 / n as f64;
        let pick: Vec<_> = (0..n).map(|i| m[(i as f64 * step) as usize].clone()).collect();
        return pick;
    }
    m
}

fn check_stream(r: &Run, m: &[&(Schema, Value)]) {
    let case = || {
        let mut o = vec![kv("kind", "stream"), kv("n", m.len())];
        for x in m {
            o.push(kv("schema", schema_text(&x.0)));
            o.push(kv("value", value_text(&x.1)));
        }
        o
    };
    in_case(&case, || {
        let res = guard(|| {
            let mut out = Vec::new();
            let mut ends = Vec::new();
            let mut alloc = CoderStateAlloc::new();
            for (s, v) in m {
                let mut st = CoderState::new(s, alloc, None);
                v.encode_to(&mut Encoder::new(&mut st, &mut out)).map_err(|e| err_brief(&e))?;
                if !st.is_finished() {
                    return Err("encoder not finished".to_string());
                }
                alloc = st.into_alloc();
                ends.push(out.len());
            }
            out.extend_from_slice(&SENTINEL);
            let mut rd: &[u8] = &out;
            for (i, (s, v)) in m.iter().map(|x| (&x.0, &x.1)).enumerate() {
                let mut st = CoderState::new(s, alloc, None);
                let w = Value::decode_from(&mut Decoder::new(&mut st, &mut rd)).map_err(|e| format!("message {}: {}", i, err_brief(&e)))?;
                if !st.is_finished() {
                    return Err(format!("message {}: decoder not finished", i));
                }
                if !refm::same(&w, v) {
                    return Err(format!("message {} decoded as {}", i, cliptext(value_text(&w))));
                }
                if out.len() - rd.len() != ends[i] {
                    return Err(format!("message {} ends at byte {}, the decoder is at {}", i, ends[i], out.len() - rd.len()));
                }
                alloc = st.into_alloc();
            }
            Ok(())
        });
        if let Err(e) | Ok(Err(e)) = res {
            r.fail(&case, &e);
        }
        r.state(|| m.iter().map(|x| format!("{} | {}", schema_text(&x.0), cliptext(value_text(&x.1)))).collect::<Vec<_>>().join(" ; "));
        r.transitions.fetch_add(m.len() as u64 * 2, Relaxed);
        r.traces.fetch_add(1, Relaxed);
    })
}

pub fn c02(r: &Run) {
    r.rule("the (schema, value) space of C01, encoded and decoded by the crate with a sentinel behind the message (equality, exact consumption, finished); every ordered pair and triple of a message menu back to back in one stream");
    let u = universe(r, 5, 6);
    over_values(r, &u, r.pick(8, 10), r.pick(80, 120), |s, v| check_roundtrip(r, s, v));
    let d = deeper(r.pick(6, 7));
    over_values(r, &d, 12, r.pick(40, 60), |s, v| check_roundtrip(r, s, v));
    let fam = families(r);
    par_for(fam.len(), |i| {
        for v in &fam[i].2 {
            check_roundtrip(r, &fam[i].1, v);
        }
    });
    let m = message_menu(1000);
    r.count("stream_menu", m.len() as u64);
    par_for(m.len(), |i| {
        for j in 0..m.len() {
            check_stream(r, &[&m[i], &m[j]]);
        }
    });
    let m3 = message_menu(r.pick(54, 54));
    par_for(m3.len(), |i| {
        for j in 0..m3.len() {
            for k in 0..m3.len() {
                check_stream(r, &[&m3[i], &m3[j], &m3[k]]);
            }
        }
    });
    if !r.quick() {
        let m4 = message_menu(30);
        par_for(m4.len() * m4.len(), |ij| {
            for k in 0..m4.len() {
                for l in 0..m4.len() {
                    check_stream(r, &[&m4[ij / m4.len()], &m4[ij % m4.len()], &m4[k], &m4[l]]);
                }
            }
        });
    }
}

// ---- C03 ----

const GARBAGE: [u8; 24] = [0x80, 0, 1, 0xff, 0x7f, 2, 0, 0, 1, 1, 0xee, 0x81, 0, 3, 0x61, 0xc3, 0xa9, 0, 0, 0, 0, 0, 0, 0];

enum Verdict {
    Done,
    Extend,
}

/// Compare the crate with the reference on one byte string.
fn check_bytes(r: &Run, s: &Schema, a: &Arena, b: &[u8]) -> Verdict {
    let case = || with(sb(s, b), "kind", "decode");
    in_case(&case, || {
        let mut c = Cur::new(b);
        c.zero_budget = 300;
        let want = refm::decode(a, 0, &mut c);
        let want = match want {
            Err(RErr::TooBig) => return Verdict::Done,
            w => w.map(|v| (v, c.pos)),
        };
        r.transitions.fetch_add(1, Relaxed);
        r.state(|| format!("{} | {} -> {:?}", schema_text(s), clip(b), want.as_ref().map(|w| (cliptext(value_text(&w.0)), w.1))));
        match decode_slice(s, b) {
            Err(e) => r.fail(&case, &e),
            Ok((d, used)) => judge_decode(r, &case, &want, d, used),
        }
        r.traces.fetch_add(1, Relaxed);
        match want {
            Err(RErr::Eof) => Verdict::Extend,
            w => {
                // what follows a decided message does not matter
                let mut long = b.to_vec();
                long.extend_from_slice(&GARBAGE);
                match decode_slice(s, &long) {
                    Err(e) => r.fail(&case, &format!("with bytes behind: {}", e)),
                    Ok((d, used)) => judge_decode(r, &case, &w, d, used),
                }
                r.transitions.fetch_add(1, Relaxed);
                Verdict::Done
            }
        }
    })
}

fn judge_decode(r: &Run, case: &dyn Case, want: &Result<(Value, usize), RErr>, d: Dec, used: usize) {
    match (want, d.res) {
        (Ok((v, n)), Ok(w)) => {
            if !refm::same(v, &w) {
                r.fail(case, &format!("decoded as {}, FORMAT.txt says {}", cliptext(value_text(&w)), cliptext(value_text(v))));
            }
            if *n != used {
                r.fail(case, &format!("consumed {} bytes, the message has {}", used, n));
            }
            if !d.finished {
                r.fail(case, "decoded, but not finished");
            }
        }
        (Ok((v, _)), Err(e)) => r.fail(case, &format!("a valid message ({}) was rejected: {}", cliptext(value_text(v)), err_brief(&e))),
        (Err(w), Ok(v)) => r.fail(case, &format!("accepted as {}, but by FORMAT.txt: {:?}", cliptext(value_text(&v)), w)),
        (Err(w), Err(e)) => {
            let ok: &[ErrorKind] = match w {
                RErr::Malformed => &[ErrorKind::MalformedData],
                RErr::Limits => &[ErrorKind::PlatformLimits, ErrorKind::MalformedData],
                RErr::Eof => &[ErrorKind::Io, ErrorKind::MalformedData, ErrorKind::PlatformLimits],
                RErr::Illegal => &[ErrorKind::IllegalSchema],
                RErr::TooBig => return,
            };
            if !ok.contains(&e.kind()) {
                r.fail(case, &format!("{:?} input gave {}", w, err_brief(&e)));
            }
            if d.finished {
                r.fail(case, "reports finished after an error");
            }
        }
    }
}

/// All byte strings over `alpha`, extended only while the reference wants more, level by level
/// until the next level would exceed the budget. Returns the depth completed.
fn explore_bytes(r: &Run, s: &Schema, alpha: &[u8], max_depth: usize, budget: usize) -> (usize, bool) {
    let a = Arena::new(s);
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    let mut depth = 0;
    loop {
        let mut next = Vec::new();
        for b in &level {
            if let Verdict::Extend = check_bytes(r, s, &a, b) {
                next.push(b);
            }
        }
        if next.is_empty() {
            return (depth, true);
        }
        if depth == max_depth || next.len() * alpha.len() > budget {
            return (depth, false);
        }
        let mut l = Vec::with_capacity(next.len() * alpha.len());
        for b in next {
            for &x in alpha {
                let mut n = Vec::with_capacity(b.len() + 1);
                n.extend_from_slice(b);
                n.push(x);
                l.push(n);
            }
        }
        level = l;
        depth += 1;
    }
}

const SMALL_ALPHA: [u8; 8] = [0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff];
const UTF_ALPHA: [u8; 13] = [0, 1, 2, 3, 4, b'a', 0x80, 0x9f, 0xa9, 0xbf, 0xc3, 0xe0, 0xf0];
const BIT_ALPHA: [u8; 4] = [0, 1, 2, 0x80];

/// Strings longer than any block they could be read in, of characters of every width at every
/// offset, whole and with one byte wrong or missing about each block's edge.
fn long_strings(r: &Run) {
    let chars = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"];
    let mut jobs = Vec::new();
    for edge in [64usize, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 65536] {
        for c in chars {
            for shift in 0..4 {
                for over in [0usize, 1, 2, 3, 4, 40] {
                    jobs.push((edge, c, shift, over));
                }
            }
        }
    }
    let s = Schema::Tuple(vec![Schema::Str, u8s()]);
    let t = Schema::Tuple(vec![Schema::Bytes, u8s()]);
    par_for(jobs.len(), |i| {
        let (edge, c, shift, over) = jobs[i];
        let (a, b) = (Arena::new(&s), Arena::new(&t));
        let mut body: Vec<u8> = vec![b'x'; shift];
        while body.len() < edge + over {
            body.extend_from_slice(c.as_bytes());
        }
        let mut m = refm::uint(body.len() as u128);
        let head = m.len();
        m.extend_from_slice(&body);
        m.push(7);
        check_bytes(r, &s, &a, &m);
        check_bytes(r, &t, &b, &m);
        // cut short, and a wrong byte
        for k in [edge - 1, edge, edge + 1] {
            if head + k < m.len() {
                check_bytes(r, &s, &a, &m[..head + k]);
                check_bytes(r, &t, &b, &m[..head + k]);
            }
        }
        let at = [head + edge - 4, head + edge - 3, head + edge - 2, head + edge - 1, head + edge, head + edge + 1, m.len() - 2];
        for k in at {
            for x in [0x80u8, 0xc3, 0xff, b'z'] {
                if k + 1 < m.len() && m[k] != x {
                    let old = std::mem::replace(&mut m[k], x);
                    check_bytes(r, &s, &a, &m);
                    m[k] = old;
                }
            }
        }
    });
    r.count("long strings", jobs.len() as u64);
}

pub fn c03(r: &Run) {
    r.rule("every byte string over the alphabet, extended exactly while the reference decoder (written from FORMAT.txt) reports a missing byte, level by level up to the budget; at each one the crate's verdict, value, consumption and error kind against the reference, and again with bytes behind. Alphabets: all 256 bytes at depth <= 2 (3 for single leaves), reduced alphabets deeper");
    let all: Vec<u8> = (0..=255).collect();
    // single leaves and shallow schemas with every byte
    let shallow = {
        let mut v: Vec<Schema> = all_leaves();
        v.extend(all_leaves().into_iter().map(option));
        v.extend(all_leaves().into_iter().map(|l| seq(None, l)));
        v.extend(all_leaves().into_iter().map(|l| seq(Some(2), l)));
        v.extend(schemas_upto(&SchemaCfg::small(), 2));
        for n in [1usize, 2, 3, 255, 256, 257, 258, 300, 511, 512, 513, 600, 65535, 65536, 65537, 65540, 66000, 70000] {
            v.push(Schema::Enum((0..n).map(|i| binschema::EnumSchemaVariant { name: format!("n{}", i), inner: if i % 2 == 0 { Schema::Unit } else { option(Schema::Unit) } }).collect()));
        }
        v
    };
    let dbg = std::env::var("MC_TIMING").is_ok();
    par_for(shallow.len(), |i| {
        explore_bytes(r, &shallow[i], &all, 2, 70_000);
    });
    if dbg {
        eprintln!("shallow {:.1}", r.elapsed());
    }
    if !r.quick() {
        // three bytes fully for the leaves that need them
        let three: Vec<Schema> = vec![
            Schema::Scalar(ScalarType::U32), Schema::Scalar(ScalarType::I32), Schema::Scalar(ScalarType::Char), Schema::Scalar(ScalarType::U64),
            Schema::Scalar(ScalarType::I128), Schema::Str, Schema::Bytes, seq(None, u8s()),
            Schema::Enum((0..66000).map(|i| binschema::EnumSchemaVariant { name: format!("n{}", i), inner: Schema::Unit }).collect()),
        ];
        par_for(three.len() * 256, |ij| {
            let s = &three[ij / 256];
            let a = Arena::new(s);
            let mut st: Vec<Vec<u8>> = vec![vec![(ij % 256) as u8]];
            while let Some(b) = st.pop() {
                if let Verdict::Extend = check_bytes(r, s, &a, &b) {
                    if b.len() < 3 {
                        for x in 0..=255u8 {
                            let mut n = b.clone();
                            n.push(x);
                            st.push(n);
                        }
                    }
                }
            }
        });
    }
    // strings: UTF-8 in depth
    let strs = [Schema::Str, option(Schema::Str), seq(None, Schema::Str), Schema::Tuple(vec![Schema::Str, u8s()])];
    par_for(strs.len() * UTF_ALPHA.len(), |ij| {
        let s = &strs[ij / UTF_ALPHA.len()];
        let a = Arena::new(s);
        let depth = r.pick(5, 6);
        let mut st: Vec<Vec<u8>> = vec![vec![UTF_ALPHA[ij % UTF_ALPHA.len()]]];
        while let Some(b) = st.pop() {
            if let Verdict::Extend = check_bytes(r, s, &a, &b) {
                if b.len() < depth {
                    for x in UTF_ALPHA {
                        let mut n = b.clone();
                        n.push(x);
                        st.push(n);
                    }
                }
            }
        }
    });
    // UTF-8 of every length-2..4 body over all lead bytes
    let bodies: Vec<usize> = (0..65536).collect();
    par_for(256, |c| {
        let s = Schema::Str;
        let a = Arena::new(&s);
        for &w in bodies.iter().skip(c * 256).take(256) {
            for tail in [&[][..], &[0x80], &[0xbf], &[0x41], &[0x80, 0x80], &[0xbf, 0xbf], &[0x80, 0x41]] {
                let mut b = vec![2 + tail.len() as u8, (w >> 8) as u8, w as u8];
                b.extend_from_slice(tail);
                check_bytes(r, &s, &a, &b);
            }
        }
    });
    if dbg {
        eprintln!("utf {:.1}", r.elapsed());
    }
    let u = universe(r, 4, 5);
    let budget = r.pick(1_200, 6_000);
    let depths = std::sync::Mutex::new(std::collections::BTreeMap::<usize, u64>::new());
    let done = std::sync::atomic::AtomicU64::new(0);
    par_for(u.len(), |i| {
        let (d, all) = explore_bytes(r, &u[i], &SMALL_ALPHA, 40, budget);
        explore_bytes(r, &u[i], &BIT_ALPHA, 40, budget);
        if all {
            done.fetch_add(1, Relaxed);
        }
        *depths.lock().unwrap().entry(d).or_insert(0) += 1;
    });
    r.note("depth completed (8-byte alphabet): schemas", format!("{:?}", depths.lock().unwrap()));
    r.count("schemas_whose_message_tree_was_exhausted", done.load(Relaxed));
    long_strings(r);
    // every mutation of valid messages of the families: each byte replaced by each value, each
    // truncation
    let fam: Vec<_> = families(r).into_iter().collect();
    par_for(fam.len(), |i| {
        let (_, s, vals) = &fam[i];
        let a = Arena::new(s);
        for v in vals {
            let b = ref_bytes(s, v).unwrap();
            if b.len() > r.pick(40, 300) {
                // long ones: truncations at the ends only
                for k in [0, 1, 2, b.len() / 2, b.len() - 1] {
                    check_bytes(r, s, &a, &b[..k]);
                }
                continue;
            }
            for k in 0..b.len() {
                check_bytes(r, s, &a, &b[..k]);
                let mut m = b.clone();
                for x in [0u8, 1, 2, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xd8, 0xfe, 0xff] {
                    m[k] = x;
                    check_bytes(r, s, &a, &m);
                }
            }
        }
    });
}

// ---- C04 ----

struct Coder {
    schema: Schema,
    alloc: Option<CoderStateAlloc>,
}

impl Coder {
    fn new(t: ScalarType) -> Self {
        Coder { schema: Schema::Scalar(t), alloc: Some(CoderStateAlloc::new()) }
    }
    /// Encode, then decode with a sentinel behind; both compared with the reference.
    fn both(&mut self, t: ScalarType, v: ScalarValue) -> Result<(), String> {
        let mut want = [0u8; 32];
        let n = ref_scalar(&v, &mut want);
        let mut buf = [0xa5u8; 40];
        let left = {
            let mut st = CoderState::new(&self.schema, self.alloc.take().unwrap(), None);
            let mut w: &mut [u8] = &mut buf;
            let res = enc_call(&mut Encoder::new(&mut st, &mut w), &EncOp::Scalar(v));
            let left = w.len();
            if let Err(e) = res {
                return Err(format!("encoding failed: {}", err_brief(&e)));
            }
            if !st.is_finished() {
                return Err("encoder not finished".into());
            }
            self.alloc = Some(st.into_alloc());
            left
        };
        if 40 - left != n || buf[..n] != want[..n] {
            return Err(format!("encoded as {}, FORMAT.txt prescribes {}", hex(&buf[..40 - left]), hex(&want[..n])));
        }
        self.read(t, &buf, Ok((v, n)))
    }
    fn read(&mut self, t: ScalarType, b: &[u8], want: Result<(ScalarValue, usize), RErr>) -> Result<(), String> {
        let mut st = CoderState::new(&self.schema, self.alloc.take().unwrap(), None);
        let mut rd = b;
        let got = dec_call(&mut Decoder::new(&mut st, &mut rd), &DecCall::Plain(D::Scalar(t)));
        let fin = st.is_finished();
        self.alloc = Some(st.into_alloc());
        match (want, got) {
            (Ok((v, n)), Ok(Ret::Value(Value::Scalar(w)))) => {
                if !refm::same_scalar(&v, &w) {
                    return Err(format!("{} read as {}, expected {}", hex(&b[..n]), mcore::text::scalar_text(&w), mcore::text::scalar_text(&v)));
                }
                if b.len() - rd.len() != n {
                    return Err(format!("consumed {} bytes of {}, expected {}", b.len() - rd.len(), hex(b), n));
                }
                if !fin {
                    return Err("decoder not finished".into());
                }
                Ok(())
            }
            (Ok((v, n)), Err(e)) => Err(format!("{} should read as {}, got {}", hex(&b[..n]), mcore::text::scalar_text(&v), err_brief(&e))),
            (Err(w), Ok(x)) => Err(format!("{} is {:?} by FORMAT.txt, but was read as {:?}", hex(b), w, x)),
            (Err(w), Err(e)) => {
                let ok = match w {
                    RErr::Malformed => e.kind() == ErrorKind::MalformedData,
                    _ => matches!(e.kind(), ErrorKind::Io | ErrorKind::MalformedData),
                };
                if !ok {
                    return Err(format!("{} is {:?}, but gave {}", hex(b), w, err_brief(&e)));
                }
                if fin {
                    return Err("finished after an error".into());
                }
                Ok(())
            }
            (_, Ok(x)) => Err(format!("returned {:?}", x)),
        }
    }
}

/// Reference bytes of a scalar without allocating (plain fixed-size variant of refm).
fn ref_scalar(v: &ScalarValue, o: &mut [u8; 32]) -> usize {
    fn var(mut m: u128, first_bits: u32, first_or: u8, o: &mut [u8; 32]) -> usize {
        let mut i = 0;
        let mut bits = first_bits;
        loop {
            let mask = (1u128 << bits) - 1;
            let g = (m & mask) as u8 | if i == 0 { first_or } else { 0 };
            m >>= bits;
            bits = 7;
            if m == 0 {
                o[i] = g;
                return i + 1;
            }
            o[i] = g | 0x80;
            i += 1;
        }
    }
    fn s(n: i128, o: &mut [u8; 32]) -> usize {
        if n < 0 { var((!n) as u128, 6, 0x40, o) } else { var(n as u128, 6, 0, o) }
    }
    fn le(n: u64, w: usize, o: &mut [u8; 32]) -> usize {
        for i in 0..w {
            o[i] = (n >> (8 * i)) as u8;
        }
        w
    }
    match *v {
        ScalarValue::U8(n) => le(n as u64, 1, o),
        ScalarValue::U16(n) => le(n as u64, 2, o),
        ScalarValue::U32(n) => var(n as u128, 7, 0, o),
        ScalarValue::U64(n) => var(n as u128, 7, 0, o),
        ScalarValue::U128(n) => var(n, 7, 0, o),
        ScalarValue::I8(n) => le(n as u8 as u64, 1, o),
        ScalarValue::I16(n) => le(n as u16 as u64, 2, o),
        ScalarValue::I32(n) => s(n as i128, o),
        ScalarValue::I64(n) => s(n as i128, o),
        ScalarValue::I128(n) => s(n, o),
        ScalarValue::F32(n) => le(n.to_bits() as u64, 4, o),
        ScalarValue::F64(n) => le(n.to_bits(), 8, o),
        ScalarValue::Char(c) => var(c as u128, 7, 0, o),
        ScalarValue::Bool(b) => le(b as u64, 1, o),
    }
}

fn from_bits(t: ScalarType, n: u128) -> Option<ScalarValue> {
    Some(match t {
        ScalarType::U8 => ScalarValue::U8(n as u8),
        ScalarType::U16 => ScalarValue::U16(n as u16),
        ScalarType::U32 => ScalarValue::U32(n as u32),
        ScalarType::U64 => ScalarValue::U64(n as u64),
        ScalarType::U128 => ScalarValue::U128(n),
        ScalarType::I8 => ScalarValue::I8(n as u8 as i8),
        ScalarType::I16 => ScalarValue::I16(n as u16 as i16),
        ScalarType::I32 => ScalarValue::I32(n as u32 as i32),
        ScalarType::I64 => ScalarValue::I64(n as u64 as i64),
        ScalarType::I128 => ScalarValue::I128(n as i128),
        ScalarType::F32 => ScalarValue::F32(f32::from_bits(n as u32)),
        ScalarType::F64 => ScalarValue::F64(f64::from_bits(n as u64)),
        ScalarType::Char => ScalarValue::Char(char::from_u32(n as u32)?),
        ScalarType::Bool => ScalarValue::Bool(n != 0),
    })
}

fn scalar_case(t: ScalarType, n: u128) -> Vec<(String, String)> {
    vec![kv("kind", "scalar"), kv("type", mcore::text::scalar_name(t)), kv("bits", format!("{:x}", n))]
}

/// Check a run of bit patterns of one type.
fn scalar_chunk(r: &Run, t: ScalarType, ns: impl Iterator<Item = u128>) {
    let cur = std::cell::Cell::new(0u128);
    let case = || scalar_case(t, cur.get());
    let mut n_done = 0u64;
    in_case(&case, || {
        let res = guard(|| {
            let mut c = Coder::new(t);
            for n in ns {
                if let Some(v) = from_bits(t, n) {
                    cur.set(n);
                    c.both(t, v)?;
                    n_done += 1;
                }
            }
            Ok(())
        });
        if let Err(e) | Ok(Err(e)) = res {
            r.fail(&case, &e);
        }
    });
    if n_done > 0 && cur.get() > 300 {
        r.sample(|| format!("{} {:x}", mcore::text::scalar_name(t), cur.get()));
    }
    r.states.fetch_add(n_done, Relaxed);
    r.transitions.fetch_add(2 * n_done, Relaxed);
    r.traces.fetch_add(n_done, Relaxed);
}

fn string_case(t: ScalarType, b: &[u8]) -> Vec<(String, String)> {
    vec![kv("kind", "scalar-bytes"), kv("type", mcore::text::scalar_name(t)), kv("bytes", hex(b))]
}

fn string_chunk(r: &Run, t: ScalarType, strings: &mut dyn Iterator<Item = Vec<u8>>) {
    let cur = std::cell::RefCell::new(Vec::new());
    let case = || string_case(t, &cur.borrow());
    let mut n_done = 0u64;
    in_case(&case, || {
        let res = guard(|| {
            let mut c = Coder::new(t);
            for b in strings {
                *cur.borrow_mut() = b.clone();
                let mut k = Cur::new(&b);
                let want = refm::read_scalar(t, &mut k).map(|v| (v, k.pos));
                c.read(t, &b, want)?;
                n_done += 1;
            }
            Ok(())
        });
        if let Err(e) | Ok(Err(e)) = res {
            r.fail(&case, &e);
        }
    });
    if n_done > 100000 {
        r.sample(|| format!("{} from {}", mcore::text::scalar_name(t), hex(&cur.borrow())));
    }
    r.states.fetch_add(n_done, Relaxed);
    r.transitions.fetch_add(n_done, Relaxed);
    r.traces.fetch_add(n_done, Relaxed);
}

pub fn c04(r: &Run) {
    r.rule("all values of u8,i8,u16,i16,bool,char (and of u32,i32,f32 in the thorough tier); for the wider types every value whose 7-bit groups are drawn from an alphabet, and every bit pattern with at most two set or cleared bits; each encoded and decoded. Variable-length decoding: every string of up to 21 groups with a constant fill and up to two deviating positions, every short string over a group alphabet, and for each type the boundary values +-2 with superfluous groups");
    // complete types
    for t in [ScalarType::U8, ScalarType::I8, ScalarType::U16, ScalarType::I16, ScalarType::Bool] {
        let n = match t {
            ScalarType::U8 | ScalarType::I8 => 256,
            ScalarType::Bool => 2,
            _ => 65536,
        };
        scalar_chunk(r, t, 0..n);
    }
    par_for(0x11, |i| scalar_chunk(r, ScalarType::Char, (i as u128) << 16..(i as u128 + 1) << 16));
    let wide = [ScalarType::U32, ScalarType::U64, ScalarType::U128, ScalarType::I32, ScalarType::I64, ScalarType::I128, ScalarType::F32, ScalarType::F64];
    if r.quick() {
        // every 32-bit pattern with at most 4 significant 7-bit-aligned or byte-aligned pieces
        par_for(3 * 64, |i| {
            let t = [ScalarType::U32, ScalarType::I32, ScalarType::F32][i / 64];
            let c = (i % 64) as u128;
            // the low 16 bits complete for several high halves, and the reverse
            scalar_chunk(r, t, (0..1024u128).flat_map(move |k| {
                let lo = c * 1024 + k;
                [0u128, 1, 0x1f, 0x20, 0x7f, 0x3fff, 0x7fff, 0x8000, 0xffff, 0xffe0].into_iter().flat_map(move |h| [h << 16 | lo, lo << 16 | h])
            }));
        });
    } else {
        par_for(3 * 4096, |i| {
            let t = [ScalarType::U32, ScalarType::I32, ScalarType::F32][i / 4096];
            let base = ((i % 4096) as u128) << 20;
            scalar_chunk(r, t, base..base + (1 << 20));
        });
    }
    // at most two set bits / two cleared bits, +-1
    for t in wide {
        let mut v: Vec<u128> = Vec::new();
        for i in 0..128u32 {
            for j in 0..=i {
                let x = (1u128 << i) | (1u128 << j);
                for y in [x, !x, x.wrapping_sub(1), x.wrapping_add(1), !x.wrapping_sub(1)] {
                    v.push(y);
                }
            }
        }
        v.extend([0, 1, u128::MAX]);
        let v = &v;
        par_for(64, |c| scalar_chunk(r, t, v.iter().copied().skip(c).step_by(64)));
    }
    // 7-bit groups over an alphabet (first group of signed integers: 6 bits, by shifting)
    let groups: [(ScalarType, usize, &[u128]); 6] = [
        (ScalarType::U64, 10, if r.quick() { &[0, 1, 0x7f] } else { &[0, 1, 0x40, 0x7f] }),
        (ScalarType::I64, 10, if r.quick() { &[0, 1, 0x7f] } else { &[0, 1, 0x40, 0x7f] }),
        (ScalarType::F64, 10, &[0, 0x2a, 0x7f]),
        (ScalarType::U128, 19, if r.quick() { &[0x7f, 0] } else { &[0, 0x55] }),
        (ScalarType::I128, 19, if r.quick() { &[0x7f, 0] } else { &[0, 0x2a] }),
        (ScalarType::U32, 5, &[0, 1, 2, 3, 0x0f, 0x10, 0x1f, 0x3f, 0x40, 0x7f]),
    ];
    for (t, n, alpha) in groups {
        let total = (alpha.len() as u64).pow(n as u32);
        par_for(64, |c| {
            scalar_chunk(
                r,
                t,
                (c as u64..total).step_by(64).map(move |mut k| {
                    let mut x = 0u128;
                    for g in 0..n {
                        let d = alpha[(k % alpha.len() as u64) as usize];
                        k /= alpha.len() as u64;
                        x |= if 7 * g < 128 { d.checked_shl(7 * g as u32).unwrap_or(0) } else { 0 };
                    }
                    x
                }),
            )
        });
        if matches!(t, ScalarType::I64 | ScalarType::I128) {
            // groups aligned to the signed layout, both signs
            par_for(64, |c| {
                scalar_chunk(
                    r,
                    t,
                    (c as u64..total).step_by(64).flat_map(move |mut k| {
                        let mut x = 0u128;
                        for g in 0..n {
                            let d = alpha[(k % alpha.len() as u64) as usize];
                            k /= alpha.len() as u64;
                            if g == 0 {
                                x |= d & 0x3f;
                            } else if 7 * g - 1 < 128 {
                                x |= d << (7 * g - 1);
                            }
                        }
                        [x, !x]
                    }),
                )
            });
        }
    }
    // decoding strings
    let var = [ScalarType::U32, ScalarType::U64, ScalarType::U128, ScalarType::I32, ScalarType::I64, ScalarType::I128, ScalarType::Char];
    let fills = [0x80u8, 0xff, 0x81, 0xc0];
    let devs: &[u8] = if r.quick() { &[0, 1, 3, 7, 0x0f, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0x83, 0x84, 0x88, 0xc0, 0xff] } else { &[0, 1, 2, 3, 4, 7, 8, 0x0f, 0x10, 0x1f, 0x20, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x87, 0x88, 0x8f, 0x90, 0xa0, 0xbf, 0xc0, 0xfe, 0xff] };
    par_for(var.len() * fills.len(), |ij| {
        let t = var[ij / fills.len()];
        let fill = fills[ij % fills.len()];
        // fill^len with positions i<=j replaced
        let it = (0..=21usize).flat_map(move |len| {
            (0..len).flat_map(move |i| {
                (i..len).flat_map(move |j| {
                    devs.iter().flat_map(move |&x| {
                        devs.iter().map(move |&y| {
                            let mut b = vec![fill; len];
                            b[i] = x;
                            b[j] = y;
                            b
                        })
                    })
                })
            })
        });
        string_chunk(r, t, &mut it.chain(std::iter::once(vec![])));
    });
    // every final pair of bytes after a run of k continuation groups
    par_for(var.len() * 21, |ij| {
        let t = var[ij / 21];
        let k = ij % 21;
        let it = [0x80u8, 0xff].into_iter().flat_map(move |f| {
            (0..65536u32).map(move |w| {
                let mut b = vec![f; k];
                b.push((w >> 8) as u8);
                b.push(w as u8);
                b
            })
        });
        string_chunk(r, t, &mut it.into_iter());
    });
    // type boundaries +-2, canonical and with superfluous groups
    for t in var {
        let mut strings = Vec::new();
        for k in 0..128u32 {
            for d in -2i32..=2 {
                let n = (1u128 << k).wrapping_add(d as u128);
                let mut encs = vec![refm::uint(n), refm::sint(n as i128), refm::sint(!(n as i128))];
                if t == ScalarType::Char {
                    encs.push(refm::uint((0xd800 + k as i64 * 16 + d as i64) as u128));
                    encs.push(refm::uint((0x10fff0 + k as i64 + d as i64) as u128));
                }
                for e in encs {
                    for extra in 0..4 {
                        let mut b = e.clone();
                        for _ in 0..extra {
                            let l = b.len() - 1;
                            b[l] |= 0x80;
                            b.push(0);
                        }
                        strings.push(b);
                    }
                }
            }
        }
        string_chunk(r, t, &mut strings.into_iter());
    }
    // every byte / pair for the fixed-width ones, with every truncation
    for (t, w) in [(ScalarType::U8, 1), (ScalarType::I8, 1), (ScalarType::Bool, 1), (ScalarType::U16, 2), (ScalarType::I16, 2)] {
        string_chunk(r, t, &mut (0..65536u32).map(|x| vec![(x >> 8) as u8, x as u8]));
        string_chunk(r, t, &mut (0..w).map(|k| vec![1; k]));
    }
    for (t, w) in [(ScalarType::F32, 4), (ScalarType::F64, 8)] {
        string_chunk(r, t, &mut (0..w).map(|k| vec![1; k]));
    }
    let _ = SCALARS;
}

// ---- replay ----

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    match get(kvs, "kind") {
        "encode" => {
            check_encode(r, &parse_schema(get(kvs, "schema")), &parse_value(get(kvs, "value")));
        }
        "roundtrip" => check_roundtrip(r, &parse_schema(get(kvs, "schema")), &parse_value(get(kvs, "value"))),
        "stream" => {
            let s: Vec<Schema> = kvs.iter().filter(|x| x.0 == "schema").map(|x| parse_schema(&x.1)).collect();
            let v: Vec<Value> = kvs.iter().filter(|x| x.0 == "value").map(|x| parse_value(&x.1)).collect();
            let m: Vec<(Schema, Value)> = s.into_iter().zip(v).collect();
            check_stream(r, &m.iter().collect::<Vec<_>>());
        }
        "decode" => {
            let s = parse_schema(get(kvs, "schema"));
            check_bytes(r, &s, &Arena::new(&s), &unhex(get(kvs, "bytes")));
        }
        "scalar" => {
            let t = SCALARS.iter().find(|x| x.1 == get(kvs, "type")).unwrap().0;
            scalar_chunk(r, t, std::iter::once(u128::from_str_radix(get(kvs, "bits"), 16).unwrap()));
        }
        "scalar-bytes" => {
            let t = SCALARS.iter().find(|x| x.1 == get(kvs, "type")).unwrap().0;
            string_chunk(r, t, &mut std::iter::once(unhex(get(kvs, "bytes"))));
        }
        k => panic!("unknown kind {}", k),
    }
}
