//! C16: what an allocation has been through does not show.
use super::{
    space::{bring, Dir, D, E},
    util::*,
};
use binschema::{value::Value, CoderState, CoderStateAlloc, Decoder, Encoder, Schema};
use mcore::{
    alloc::{counters, kept, new_epoch, POISON},
    gen::{schemas_upto, vcfg, SchemaCfg, Values},
    io::Fault,
    machine::{dec_call, enc_call, Alpha, DecOp, EncOp, Expect, LiveDec, LiveEnc, MState, Obs},
    refm::{Arena, Kind},
    report::{guard, in_case, kv, par_for, Run},
    text::schema_text,
};
use std::sync::atomic::Ordering::Relaxed;

enum Ops {
    /// with, for a call that is to fail, the fault of the sink
    E(Vec<(EncOp, Option<Fault>)>),
    D(Vec<DecOp>),
}

/// What one coder goes through, and what that looks like on a fresh allocation.
struct Item {
    s: usize,
    ops: Ops,
    trace: Vec<String>,
}

enum L<'s> {
    E(LiveEnc<'s>),
    D(LiveDec<'s>),
}

impl<'s> L<'s> {
    fn new(s: &'s Schema, ops: &Ops, alloc: CoderStateAlloc) -> Self {
        match ops {
            Ops::E(_) => L::E(LiveEnc::with(s, alloc, None)),
            Ops::D(_) => L::D(LiveDec::with(s, alloc, None)),
        }
    }
    fn look(&mut self, obs: Option<Obs>) -> String {
        let (text, fin, need) = match self {
            L::E(l) => (E::state_text(l), E::finished(l), l.need().map(|s| schema_text(s)).map_err(|e| e.kind())),
            L::D(l) => (D::state_text(l), D::finished(l), l.need().map(|s| schema_text(s)).map_err(|e| e.kind())),
        };
        format!("{} | finished {} | need {:?} | {}", obs.map_or(String::new(), |o| o.brief()), fin, need, text)
    }
    /// Nothing left to do: false.
    fn step(&mut self, ops: &Ops, i: usize) -> Option<String> {
        let obs = match (&mut *self, ops) {
            (L::E(l), Ops::E(v)) => match v.get(i)? {
                (op, None) => l.step(op),
                (op, Some(f)) => l.step_fault(op, 0, *f),
            },
            (L::D(l), Ops::D(v)) => l.step(v.get(i)?),
            _ => unreachable!(),
        };
        Some(self.look(Some(obs)))
    }
    fn into_alloc(self) -> CoderStateAlloc {
        match self {
            L::E(l) => l.st.into_alloc(),
            L::D(l) => l.st.into_alloc(),
        }
    }
}

impl Item {
    fn new(schemas: &[Schema], s: usize, ops: Ops) -> Item {
        let mut l = L::new(&schemas[s], &ops, CoderStateAlloc::new());
        let mut trace = vec![l.look(None)];
        let mut i = 0;
        while let Some(t) = l.step(&ops, i) {
            trace.push(t);
            i += 1;
        }
        Item { s, ops, trace }
    }
    fn len(&self) -> usize {
        self.trace.len() - 1
    }
    fn text(&self) -> String {
        match &self.ops {
            Ops::E(v) => format!("enc {}", v.iter().map(|(o, f)| format!("{}{}", o.text(), f.map_or(String::new(), |f| format!("!{}", f.name())))).collect::<Vec<_>>().join(";")),
            Ops::D(v) => format!("dec {}", v.iter().map(|o| o.text()).collect::<Vec<_>>().join(";")),
        }
    }
}

/// How an allocation gets from one coder to the next.
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    /// into_alloc, and on
    Into,
    /// into_alloc, cloned; the clone goes on
    Clone,
    /// into_alloc, cloned; the clone is dropped and the original goes on
    Keep,
    /// into_alloc, cloned; both go on, side by side
    Fork,
    /// the coder is dropped, the next one has an allocation that was never used
    Drop,
}
const ENDS: [End; 5] = [End::Into, End::Clone, End::Keep, End::Fork, End::Drop];

fn schemas() -> Vec<Schema> {
    let mut deep = u8s();
    for i in 0..9 {
        deep = match i % 3 {
            0 => option(deep),
            1 => Schema::Tuple(vec![deep]),
            _ => seq(Some(1), deep),
        };
    }
    vec![
        u8s(),
        option(Schema::Tuple(vec![seq(None, u8s()), Schema::Str])),
        st(vec![("a", en(vec![("x", Schema::Unit), ("y", option(u8s()))])), ("b", Schema::Recurse(1))]),
        st(vec![("v", Schema::Bytes), ("next", option(Schema::Recurse(2)))]),
        deep,
        Schema::Tuple(vec![]),
        en(vec![("leaf", u8s()), ("bad", Schema::Recurse(7))]),
        Schema::Recurse(1),
    ]
}

/// A path that nests to the depth given where the schema allows it, then to the end.
fn deep_path<X: Dir>(s: &Schema) -> Vec<X::Op> {
    let a = Arena::new(s);
    let mh = a.min_height();
    let al = Alpha::new(&a, 1, false);
    let mut m = MState::new(&a);
    let mut path: Vec<X::Op> = Vec::new();
    while path.len() < 24 {
        // a call that opens something, else the way out
        let depth = m.stack.len();
        let next = X::alphabet(&al, &m, &a).into_iter().find(|op| {
            let mut n = m.clone();
            matches!(X::model(&mut n, &a, op), Expect::Accept { .. }) && (n.stack.len() > depth && depth < 9)
        });
        let op = match next.or_else(|| X::next(&m, &a, &mh)) {
            Some(op) => op,
            None => break,
        };
        X::model(&mut m, &a, &op);
        path.push(op);
        if m.finished() {
            break;
        }
    }
    path
}

fn paths<X: Dir>(s: &Schema) -> Vec<(Vec<X::Op>, Option<Fault>)> {
    let a = Arena::new(s);
    let full = deep_path::<X>(s);
    let al = Alpha::new(&a, 1, false);
    let mut o: Vec<(Vec<X::Op>, Option<Fault>)> = Vec::new();
    for n in [full.len(), full.len() / 2, full.len().saturating_sub(1), 0, 1] {
        let n = n.min(full.len());
        if !o.iter().any(|x| x.0.len() == n && x.1.is_none()) {
            o.push((full[..n].to_vec(), None));
        }
    }
    for n in [full.len() / 2, full.len(), 0] {
        let _ = bring::<X>(s, &full[..n]);
        let mut m = MState::new(&a);
        for op in &full[..n] {
            X::model(&mut m, &a, op);
        }
        let ops = X::alphabet(&al, &m, &a);
        let verdict = |op: &X::Op| X::model(&mut m.clone(), &a, op);
        if let Some(op) = ops.iter().find(|op| matches!(verdict(op), Expect::Reject(_))) {
            // rejected, then on as before
            let mut p = full[..n].to_vec();
            p.push(op.clone());
            p.extend(full[n..].iter().cloned());
            o.push((p, None));
        }
        if let Some(op) = ops.iter().find(|op| matches!(verdict(op), Expect::Fatal(_))) {
            let mut p = full[..n].to_vec();
            p.push(op.clone());
            o.push((p, None));
        } else if let Some(op) = ops.iter().find(|op| matches!(verdict(op), Expect::Accept { moved, .. } if !moved.is_empty())) {
            let mut p = full[..n].to_vec();
            p.push(op.clone());
            o.push((p, Some(Fault::Err(std::io::ErrorKind::Other))));
        }
    }
    o
}

fn menu(schemas: &[Schema]) -> Vec<Item> {
    let mut o = Vec::new();
    for (i, s) in schemas.iter().enumerate() {
        for (p, f) in paths::<E>(s) {
            let n = p.len();
            o.push(Item::new(schemas, i, Ops::E(p.into_iter().enumerate().map(|(k, op)| (op, if k + 1 == n { f } else { None })).collect())));
        }
        for (p, f) in paths::<D>(s) {
            if f.is_none() {
                o.push(Item::new(schemas, i, Ops::D(p)));
            }
        }
    }
    o
}

/// One history; the last end says how the last coder ends.
fn history(schemas: &[Schema], items: &[Item], h: &[(usize, End)]) -> Result<(), String> {
    let mut alloc = CoderStateAlloc::new();
    let mut twin: Option<CoderStateAlloc> = None;
    for (k, &(i, end)) in h.iter().enumerate() {
        let it = &items[i];
        let cmp = |n: usize, t: &str, which: &str| {
            if t != it.trace[n] {
                Err(format!("coder {}{}, after {} calls: {}; on a fresh allocation: {}", k, which, n, t.replace('\n', " "), it.trace[n].replace('\n', " ")))
            } else {
                Ok(())
            }
        };
        let mut l = L::new(&schemas[it.s], &it.ops, alloc);
        let mut l2 = twin.take().map(|a| L::new(&schemas[it.s], &it.ops, a));
        cmp(0, &l.look(None), "")?;
        if let Some(l) = &mut l2 {
            cmp(0, &l.look(None), " (twin)")?;
        }
        for n in 0..it.len() {
            cmp(n + 1, &l.step(&it.ops, n).unwrap(), "")?;
            if let Some(l) = &mut l2 {
                cmp(n + 1, &l.step(&it.ops, n).unwrap(), " (twin)")?;
            }
        }
        if let Some(l) = l2 {
            if k % 2 == 0 {
                drop(l.into_alloc());
            } else {
                drop(l);
            }
        }
        if end == End::Drop {
            drop(l);
            alloc = CoderStateAlloc::default();
            continue;
        }
        let a = l.into_alloc();
        alloc = match end {
            End::Clone => {
                let c = a.clone();
                drop(a);
                c
            }
            End::Keep => {
                let c = a.clone();
                drop(c);
                a
            }
            End::Fork => {
                twin = Some(a.clone());
                a
            }
            _ => a,
        };
    }
    Ok(())
}

fn check_history(r: &Run, schemas: &[Schema], items: &[Item], h: &[(usize, End)]) {
    let case = || {
        let mut o = vec![kv("kind", "history"), kv("history", h.iter().map(|(i, e)| format!("{}:{:?}", i, e)).collect::<Vec<_>>().join(" "))];
        for (k, (i, e)) in h.iter().enumerate() {
            o.push(kv(&format!("coder{}", k), format!("{} {} then {:?}", schema_text(&schemas[items[*i].s]), items[*i].text(), e)));
        }
        o
    };
    in_case(&case, || {
        let go = || {
            let c0 = counters();
            let res = guard(|| history(schemas, items, h));
            if !matches!(res, Ok(Ok(()))) {
                return res;
            }
            drop(res);
            let c1 = counters();
            let (a, f) = (c1.allocs - c0.allocs, c1.frees - c0.frees);
            Ok(if c1.live != c0.live || a != f { Err(format!("{} blocks allocated, {} freed, {} bytes left", a, f, c1.live - c0.live)) } else { Ok(()) })
        };
        let mut res = go();
        if !matches!(res, Ok(Ok(()))) {
            // once-only caches of the runtime are no leak
            res = go();
        }
        super::space::report(r, &case, res);
        r.state(|| h.iter().map(|(i, e)| format!("{} {:?}", items[*i].text(), e)).collect::<Vec<_>>().join(" -> "));
        r.transitions.fetch_add(h.iter().map(|x| items[x.0].len() as u64 + 1).sum(), Relaxed);
        r.traces.fetch_add(1, Relaxed);
    })
}

fn all_histories(r: &Run, schemas: &[Schema], items: &[Item], pick: &[usize], len: usize) {
    // steps: all (item, end) but the last, which ends by into_alloc or drop
    let steps: Vec<(usize, End)> = pick.iter().flat_map(|&i| ENDS.iter().map(move |&e| (i, e))).collect();
    let lasts: Vec<(usize, End)> = pick.iter().flat_map(|&i| [(i, End::Into), (i, End::Drop)]).collect();
    par_for(steps.len().pow(len as u32 - 1).min(1 << 22), |j| {
        let mut h = Vec::with_capacity(len);
        let mut x = j;
        for _ in 0..len - 1 {
            h.push(steps[x % steps.len()]);
            x /= steps.len();
        }
        if h.iter().any(|x| x.1 == End::Drop) && len > 2 {
            // the rest starts afresh: a shorter history
            if h[..len - 2].iter().any(|x| x.1 == End::Drop) {
                return;
            }
        }
        h.push(lasts[0]);
        for &l in &lasts {
            // with a twin the last coder ends in both ways anyway
            h[len - 1] = l;
            check_history(r, schemas, items, &h);
        }
    });
}

// ---- no growth ----

enum Calls {
    E(Vec<EncOp>),
    D(Vec<DecOp>),
}
struct Quiet {
    s: usize,
    calls: Calls,
    height: usize,
    text: String,
}

/// Code the message on the allocation; the blocks allocated by a call and there after it.
fn quiet(s: &Schema, q: &Quiet, alloc: CoderStateAlloc, out: &mut Vec<u8>, data: &[u8]) -> Result<(CoderStateAlloc, u64), String> {
    let mut n = 0;
    new_epoch();
    let mut st = CoderState::new(s, alloc, None);
    n += kept();
    let mut ok = true;
    match &q.calls {
        Calls::E(v) => {
            out.clear();
            for op in v {
                new_epoch();
                ok &= enc_call(&mut Encoder::new(&mut st, &mut *out), op).is_ok();
                n += kept();
            }
        }
        Calls::D(v) => {
            let mut rd = data;
            for op in v {
                new_epoch();
                ok &= dec_call(&mut Decoder::new(&mut st, &mut rd), &op.call).is_ok();
                n += kept();
            }
        }
    }
    ok &= st.is_finished();
    new_epoch();
    let a = st.into_alloc();
    n += kept();
    if ok { Ok((a, n)) } else { Err("the message is not coded".into()) }
}

fn height<X: Dir>(a: &Arena, ops: &[X::Op]) -> usize {
    let mut m = MState::new(a);
    let mut h = m.stack.len();
    for op in ops {
        X::model(&mut m, a, op);
        h = h.max(m.stack.len());
    }
    h
}

fn quiet_menu(r: &Run) -> (Vec<Schema>, Vec<Quiet>, Vec<Vec<u8>>) {
    let mut u = vec![];
    for s in super::c05_machine::curated().into_iter().chain(schemas_upto(&SchemaCfg::small(), r.pick(2, 3))) {
        let a = Arena::new(&s);
        // strings read allocate for themselves
        if !a.nodes.iter().any(|n| matches!(n.kind, Kind::Str | Kind::Bytes)) {
            u.push(s);
        }
    }
    // and nestings about the capacities a stack grows through
    let mut chains: Vec<Option<Value>> = u.iter().map(|_| None).collect();
    for d in [3usize, 4, 5, 7, 8, 9, 15, 16, 17, 40, 64, 65, 129, 257, 520] {
        let (mut s, mut v) = (u8s(), vu8(3));
        for i in 0..d {
            s = if i % 2 == 0 { option(s) } else { Schema::Tuple(vec![s]) };
            v = if i % 2 == 0 { Value::Option(Some(Box::new(v))) } else { Value::Tuple(vec![v]) };
        }
        u.push(s);
        chains.push(if d > 40 { Some(v) } else { None });
    }
    let (mut qs, mut data): (Vec<Quiet>, Vec<Vec<u8>>) = (vec![], vec![]);
    for (i, s) in u.iter().enumerate() {
        let a = Arena::new(s);
        let vals = match &chains[i] {
            Some(v) => vec![v.clone()],
            None => Values::new(&a, vcfg(false, 2)).upto(0, 44, 2000).0,
        };
        // one value for each height
        let mut seen = std::collections::BTreeSet::new();
        for v in vals {
            let mut e = Vec::new();
            enc_ops(&v, &mut e);
            let h = height::<E>(&a, &e);
            if !seen.insert(h) {
                continue;
            }
            let d = dec_ops(s, &v);
            let text = format!("{} {}", schema_text(s), mcore::text::value_text(&v));
            qs.push(Quiet { s: i, calls: Calls::E(e), height: h, text: format!("enc {}", text) });
            data.push(ref_bytes(s, &v).unwrap());
            qs.push(Quiet { s: i, calls: Calls::D(d), height: h, text: format!("dec {}", text) });
            data.push(ref_bytes(s, &v).unwrap());
        }
    }
    (u, qs, data)
}

fn no_growth(r: &Run, u: &[Schema], qs: &[Quiet], data: &[Vec<u8>], h: &[usize], out: &mut Vec<u8>) {
    let case = || vec![kv("kind", "growth"), kv("history", h.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ")), kv("messages", h.iter().map(|&i| qs[i].text.clone()).collect::<Vec<_>>().join(" | "))];
    in_case(&case, || {
        let mut go = || guard(|| {
            let c0 = counters();
            let mut alloc = CoderStateAlloc::new();
            let mut seen = 0;
            for (k, &i) in h.iter().enumerate() {
                let q = &qs[i];
                let (a, n) = quiet(&u[q.s], q, alloc, out, &data[i])?;
                alloc = a;
                if k > 0 && q.height <= seen && n != 0 {
                    return Err(format!("message {} (nesting {}) allocates {} times although the allocation has held nesting {}", k, q.height, n, seen));
                }
                seen = seen.max(q.height);
            }
            drop(alloc);
            let c1 = counters();
            if c1.live != c0.live {
                return Err(format!("{} bytes are left when the allocation is gone", c1.live - c0.live));
            }
            Ok(())
        });
        let mut res = go();
        if !matches!(res, Ok(Ok(()))) {
            // once-only caches of the runtime are neither growth nor leak
            res = go();
        }
        super::space::report(r, &case, res);
        r.traces.fetch_add(1, Relaxed);
        r.transitions.fetch_add(h.len() as u64, Relaxed);
    })
}

pub fn c16(r: &Run) {
    r.rule("a state is a history of coders over one allocation (and, after a fork, over its clone as well); every step of every coder is compared with the same coder on a fresh allocation, blocks are filled with noise when allocated and freed, every release is checked against the allocation's layout, nothing may be left at the end; and every sequence of messages of no greater nesting than before must not allocate");
    POISON.store(true, Relaxed);
    let ss = schemas();
    let items = menu(&ss);
    let all: Vec<usize> = (0..items.len()).collect();
    r.count("lifecycles in the menu", items.len() as u64);
    for (i, _) in items.iter().enumerate() {
        for e in [End::Into, End::Drop] {
            check_history(r, &ss, &items, &[(i, e)]);
        }
    }
    all_histories(r, &ss, &items, &all, 2);
    let some: Vec<usize> = all.iter().copied().step_by(r.pick(5, 2)).collect();
    all_histories(r, &ss, &items, &some, 3);
    if !r.quick() {
        let few: Vec<usize> = all.iter().copied().step_by(13).collect();
        all_histories(r, &ss, &items, &few, 4);
        let few: Vec<usize> = all.iter().copied().step_by(25).collect();
        all_histories(r, &ss, &items, &few, 5);
    }
    let (u, qs, data) = quiet_menu(r);
    r.count("messages for the growth check", qs.len() as u64);
    par_for(qs.len(), |i| {
        let mut out = Vec::with_capacity(1 << 16);
        for j in 0..qs.len() {
            no_growth(r, &u, &qs, &data, &[i, j], &mut out);
            // and in the longer run
            for k in (0..qs.len()).step_by(r.pick(7, 1)) {
                no_growth(r, &u, &qs, &data, &[i, j, k], &mut out);
            }
        }
        r.state(|| qs[i].text.clone());
    });
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    POISON.store(true, Relaxed);
    if get(kvs, "kind") == "growth" {
        let (u, qs, data) = quiet_menu(r);
        let h: Vec<usize> = get(kvs, "history").split(' ').map(|x| x.parse().unwrap()).collect();
        no_growth(r, &u, &qs, &data, &h, &mut Vec::with_capacity(1 << 16));
        return;
    }
    let ss = schemas();
    let items = menu(&ss);
    let h: Vec<(usize, End)> = get(kvs, "history")
        .split(' ')
        .map(|x| {
            let (i, e) = x.split_once(':').unwrap();
            (i.parse().unwrap(), *ENDS.iter().find(|x| format!("{:?}", x) == e).unwrap())
        })
        .collect();
    check_history(r, &ss, &items, &h);
}
