//! Explicit-state exploration of the call sequences on the real coders, generic in the direction.
use super::util::err_brief;
use binschema::{error::{Error, ErrorKind}, value::Value, CoderStateAlloc, Decoder, Encoder, Schema};
use mcore::{
    io::Fault,
    machine::{judge, ops_text, Alpha, DecOp, EncOp, Expect, LiveDec, LiveEnc, MState, Obs},
    refm::Arena,
    report::{guard, in_case, kv, Case, Run},
    text::schema_text,
};
use std::{
    io::Write,
    collections::{HashSet, VecDeque},
    sync::atomic::Ordering::Relaxed,
};

/// One direction of coding.
pub trait Dir: 'static {
    const NAME: &'static str;
    type Op: Clone + std::fmt::Debug + PartialEq + Sync;
    type Live<'s>;
    fn new(s: &Schema) -> Self::Live<'_> {
        Self::with(s, Default::default(), None)
    }
    fn with<'s>(s: &'s Schema, alloc: CoderStateAlloc, log: Option<&'s mut (dyn Write + 's)>) -> Self::Live<'s>;
    fn into_alloc(l: Self::Live<'_>) -> CoderStateAlloc;
    fn step(l: &mut Self::Live<'_>, op: &Self::Op) -> Obs;
    /// The same with a sink/source that fails after `k` bytes of this call.
    fn step_fault(l: &mut Self::Live<'_>, op: &Self::Op, k: usize, f: Fault) -> Obs;
    fn finished(l: &Self::Live<'_>) -> bool;
    fn state_text(l: &Self::Live<'_>) -> String;
    fn need<'l>(l: &'l mut Self::Live<'_>) -> Result<&'l Schema, Error>;
    /// Everything moved so far.
    fn total(l: &Self::Live<'_>) -> usize;
    fn model(m: &mut MState, a: &Arena, op: &Self::Op) -> Expect;
    fn alphabet(al: &Alpha, m: &MState, a: &Arena) -> Vec<Self::Op>;
    fn next(m: &MState, a: &Arena, mh: &[Option<u32>]) -> Option<Self::Op>;
    fn text(op: &Self::Op) -> String;
    fn parse(s: &str) -> Self::Op;
    fn finished_or_err(l: &Self::Live<'_>) -> Result<(), Error>;
    /// What an encoder wrote.
    fn written<'l>(l: &'l Self::Live<'_>) -> Option<&'l [u8]>;
    /// A whole dynamic value call.
    fn value_call(l: &mut Self::Live<'_>) -> Result<(), ErrorKind>;
    /// The calls that code a value, one by one.
    fn ops_for(s: &Schema, v: &Value) -> Vec<Self::Op>;
    /// Drop decoder contents that would start a huge sequence walk.
    fn thin(ops: &mut Vec<Self::Op>);
}

pub struct E;
impl Dir for E {
    const NAME: &'static str = "enc";
    type Op = EncOp;
    type Live<'s> = LiveEnc<'s>;
    fn with<'s>(s: &'s Schema, alloc: CoderStateAlloc, log: Option<&'s mut (dyn Write + 's)>) -> LiveEnc<'s> {
        LiveEnc::with(s, alloc, log)
    }
    fn into_alloc(l: LiveEnc<'_>) -> CoderStateAlloc {
        l.st.into_alloc()
    }
    fn step(l: &mut LiveEnc<'_>, op: &EncOp) -> Obs {
        l.step(op)
    }
    fn step_fault(l: &mut LiveEnc<'_>, op: &EncOp, k: usize, f: Fault) -> Obs {
        l.step_fault(op, k, f)
    }
    fn finished(l: &LiveEnc<'_>) -> bool {
        l.st.is_finished()
    }
    fn state_text(l: &LiveEnc<'_>) -> String {
        format!("{:?}", l.st)
    }
    fn need<'l>(l: &'l mut LiveEnc<'_>) -> Result<&'l Schema, Error> {
        l.need()
    }
    fn total(l: &LiveEnc<'_>) -> usize {
        l.out.len()
    }
    fn model(m: &mut MState, a: &Arena, op: &EncOp) -> Expect {
        m.enc(a, op)
    }
    fn alphabet(al: &Alpha, m: &MState, a: &Arena) -> Vec<EncOp> {
        al.enc(m, a)
    }
    fn next(m: &MState, a: &Arena, mh: &[Option<u32>]) -> Option<EncOp> {
        m.next_enc(a, mh)
    }
    fn text(op: &EncOp) -> String {
        op.text()
    }
    fn parse(s: &str) -> EncOp {
        EncOp::parse(s)
    }
    fn finished_or_err(l: &LiveEnc<'_>) -> Result<(), Error> {
        l.st.is_finished_or_err()
    }
    fn written<'l>(l: &'l LiveEnc<'_>) -> Option<&'l [u8]> {
        Some(&l.out)
    }
    fn value_call(l: &mut LiveEnc<'_>) -> Result<(), ErrorKind> {
        Value::Unit.encode_to(&mut Encoder::new(&mut l.st, &mut l.out)).map_err(|e| e.kind())
    }
    fn ops_for(_: &Schema, v: &Value) -> Vec<EncOp> {
        let mut o = Vec::new();
        super::util::enc_ops(v, &mut o);
        o
    }
    fn thin(_: &mut Vec<EncOp>) {}
}

pub struct D;
impl Dir for D {
    const NAME: &'static str = "dec";
    type Op = DecOp;
    type Live<'s> = LiveDec<'s>;
    fn with<'s>(s: &'s Schema, alloc: CoderStateAlloc, log: Option<&'s mut (dyn Write + 's)>) -> LiveDec<'s> {
        LiveDec::with(s, alloc, log)
    }
    fn into_alloc(l: LiveDec<'_>) -> CoderStateAlloc {
        l.st.into_alloc()
    }
    fn step(l: &mut LiveDec<'_>, op: &DecOp) -> Obs {
        l.step(op)
    }
    fn step_fault(l: &mut LiveDec<'_>, op: &DecOp, k: usize, f: Fault) -> Obs {
        let mut o = op.clone();
        o.feed.truncate(k);
        o.then = Some(f);
        l.step(&o)
    }
    fn finished(l: &LiveDec<'_>) -> bool {
        l.st.is_finished()
    }
    fn state_text(l: &LiveDec<'_>) -> String {
        format!("{:?}", l.st)
    }
    fn need<'l>(l: &'l mut LiveDec<'_>) -> Result<&'l Schema, Error> {
        l.need()
    }
    fn total(l: &LiveDec<'_>) -> usize {
        l.total
    }
    fn model(m: &mut MState, a: &Arena, op: &DecOp) -> Expect {
        m.dec(a, op)
    }
    fn alphabet(al: &Alpha, m: &MState, a: &Arena) -> Vec<DecOp> {
        al.dec(m, a, true)
    }
    fn next(m: &MState, a: &Arena, mh: &[Option<u32>]) -> Option<DecOp> {
        m.next_dec(a, mh)
    }
    fn text(op: &DecOp) -> String {
        op.text()
    }
    fn parse(s: &str) -> DecOp {
        DecOp::parse(s)
    }
    fn finished_or_err(l: &LiveDec<'_>) -> Result<(), Error> {
        l.st.is_finished_or_err()
    }
    fn written<'l>(_: &'l LiveDec<'_>) -> Option<&'l [u8]> {
        None
    }
    fn value_call(l: &mut LiveDec<'_>) -> Result<(), ErrorKind> {
        l.r.feed(&[], None);
        let r = Value::decode_from(&mut Decoder::new(&mut l.st, &mut l.r)).map(|_| ()).map_err(|e| e.kind());
        l.total += l.r.pos;
        r
    }
    fn ops_for(s: &Schema, v: &Value) -> Vec<DecOp> {
        super::util::dec_ops(s, v)
    }
    fn thin(ops: &mut Vec<DecOp>) {
        let mut n = 0;
        ops.retain(|o| {
            let keep = o.feed.len() > 4 || n < 2000 || n % 97 == 0;
            n += 1;
            keep
        });
    }
}

#[derive(Clone, Copy)]
pub struct Bounds {
    pub height: usize,
    pub max_seq: usize,
    pub states: usize,
    pub merge: bool,
}

/// A state reached, by the shortest path found.
pub struct At<D: Dir> {
    pub path: Vec<D::Op>,
    pub m: MState,
}

pub fn path_case<'a, D: Dir>(s: &'a Schema, kind: &'a str, path: &'a [D::Op], extra: &'a [D::Op]) -> impl Fn() -> Vec<(String, String)> + 'a {
    move || {
        vec![
            kv("schema", schema_text(s)),
            kv("kind", kind),
            kv("dir", D::NAME),
            kv("path", ops_text(path, D::text)),
            kv("then", ops_text(extra, D::text)),
        ]
    }
}

/// Bring a fresh real coder into the state; every call of the path was accepted before.
pub fn bring<'s, D: Dir>(s: &'s Schema, path: &[D::Op]) -> D::Live<'s> {
    let mut l = D::new(s);
    for op in path {
        let _ = D::step(&mut l, op);
    }
    l
}

/// Whether the states behind an accepted call are worth expanding.
fn within(m: &MState, b: &Bounds) -> bool {
    m.stack.len() <= b.height
        && m.stack.iter().all(|x| match x.1 {
            mcore::machine::Api::Seq { len, .. } => len <= b.max_seq.max(2),
            _ => true,
        })
}

/// Breadth-first over everything reachable by accepted calls. `visit` judges a state (it does its
/// own stepping). Returns (states, exhausted).
pub fn explore<'s, D: Dir>(
    r: &Run,
    s: &'s Schema,
    a: &Arena<'s>,
    al: &Alpha,
    b: &Bounds,
    kind: &str,
    visit: &mut dyn FnMut(&At<D>, &[D::Op]),
) -> (usize, bool) {
    let mut seen: HashSet<(MState, String)> = HashSet::new();
    let mut q: VecDeque<At<D>> = VecDeque::new();
    q.push_back(At { path: vec![], m: MState::new(a) });
    let mut n = 0;
    let mut full = true;
    while let Some(at) = q.pop_front() {
        if n >= b.states {
            full = false;
            break;
        }
        n += 1;
        r.state(|| format!("{} | {} | {}", schema_text(s), D::NAME, ops_text(&at.path, D::text)));
        let ops = D::alphabet(al, &at.m, a);
        visit(&at, &ops);
        r.transitions.fetch_add(ops.len() as u64, Relaxed);
        for op in &ops {
            let mut m = at.m.clone();
            if !matches!(D::model(&mut m, a, op), Expect::Accept { .. }) {
                continue;
            }
            if !within(&m, b) {
                continue;
            }
            let mut path = at.path.clone();
            path.push(op.clone());
            if b.merge {
                let case = path_case::<D>(s, kind, &path, &[]);
                let key = in_case(&case, || {
                    guard(|| {
                        let l = bring::<D>(s, &path);
                        D::state_text(&l)
                    })
                });
                let key = match key {
                    Ok(k) => k,
                    Err(_) => continue, // reported by the visit of the state before
                };
                if !seen.insert((m.clone(), key)) {
                    continue;
                }
            }
            q.push_back(At { path, m });
        }
    }
    (n, full)
}

/// Compare acceptance, result and bytes; error kinds only if asked.
pub fn judge_step(exp: &Expect, obs: &Obs, kinds: bool) -> Result<(), String> {
    match (exp, &obs.res) {
        (Expect::Reject(_), Err(_)) | (Expect::Fatal(_), Err(_)) if !kinds => Ok(()),
        _ => judge(exp, obs),
    }
}

/// is_finished against the model, need() against the model (never in a broken state).
pub fn judge_state<D: Dir>(l: &mut D::Live<'_>, m: &MState, a: &Arena, need: bool) -> Result<(), String> {
    let f = D::finished(l);
    if f != m.finished() {
        return Err(format!("is_finished() = {}, expected {}", f, m.finished()));
    }
    if need && !m.broken {
        let illegal_root = m.stack.last().map_or(false, |x| matches!(a.nodes[x.0].kind, mcore::refm::Kind::Recurse(_)));
        match (D::need(l), m.need()) {
            (Ok(s), Some(n)) if !illegal_root => {
                if s != a.nodes[n].schema {
                    return Err(format!("need() = {}, expected {}", schema_text(s), schema_text(a.nodes[n].schema)));
                }
            }
            (Ok(s), _) => return Err(format!("need() = {}, but no value is due", schema_text(s))),
            (Err(e), Some(_)) if !illegal_root => return Err(format!("a value is due, but need() fails with {}", err_brief(&e))),
            (Err(_), _) => {}
        }
    }
    Ok(())
}

/// Run the completion of the model state `m` on `l`, step by step. Returns the number of calls.
pub fn complete<D: Dir>(l: &mut D::Live<'_>, m: &MState, a: &Arena, mh: &[Option<u32>], max: usize) -> Result<usize, String> {
    let mut m = m.clone();
    let mut n = 0;
    while let Some(op) = D::next(&m, a, mh) {
        if n >= max {
            return Ok(n);
        }
        let exp = D::model(&mut m, a, &op);
        let obs = D::step(l, &op);
        judge(&exp, &obs).map_err(|e| format!("completing, call {} ({}): {}", n, D::text(&op), e))?;
        n += 1;
        let f = D::finished(l);
        if f != m.finished() {
            return Err(format!("completing, after call {} ({}): is_finished() = {}, expected {}", n - 1, D::text(&op), f, m.finished()));
        }
    }
    Ok(n)
}

pub fn report<T>(r: &Run, case: &dyn Case, res: Result<Result<T, String>, String>) -> Option<T> {
    match res {
        Ok(Ok(t)) => Some(t),
        Ok(Err(e)) | Err(e) => {
            r.fail(case, &e);
            None
        }
    }
}
