//! C25: data types that fail or misbehave in the middle of a message. A stateless search: the types
//! ask a script what to do at every point where they could do something else; every script with up
//! to a number of deviations is run on the real coders.
use super::{
    c18_serde::{leaves_held, near_shapes, near_terms, pool, spoilt, M},
    space,
    util::*,
};
use binschema::{error::{Error, ErrorKind}, CoderState, Decoder, Encoder};
use mcore::{
    machine::{dec_call, enc_call, DecOp, EncOp},
    refm::{self, Cur},
    report::{guard, in_case, par_for, Run},
    term::{any_term, ask, same_term, typed_term, CShape, Content, Ident, Shape, Term, Vis},
    text::{hex, parse_schema, parse_value, schema_text, unhex, value_text},
};
use serde::{
    de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor},
    ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant},
    Serialize, Serializer,
};
use std::{cell::RefCell, fmt, sync::atomic::Ordering::Relaxed};

// ---- scripts ----

#[derive(Default)]
struct Script {
    plan: Vec<u8>,
    /// how many things could have been done at each point met
    arity: Vec<u8>,
    /// the error of its own a type has raised, unless another swallowed it
    own: Option<String>,
    raised: bool,
    swallowed: bool,
    /// deviations that must make no difference
    harmless: usize,
}

thread_local!(static SCRIPT: RefCell<Script> = RefCell::default());

/// What to do now, of `n` things; 0 is what a good type does.
fn choose(n: u8) -> u8 {
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.arity.len();
        s.arity.push(n);
        let c = s.plan.get(i).copied().unwrap_or(0);
        // (a script is made for the points met before; behind a deviation others may be met)
        if c < n { c } else { 0 }
    })
}

fn harmless() {
    SCRIPT.with(|s| s.borrow_mut().harmless += 1)
}

fn own() -> String {
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        // (all of it is to reach the caller, whatever it looks like)
        let text = format!("own fault at point {}: {{}} %s \n\tß {}", s.arity.len(), "long ".repeat(40));
        s.own = Some(text.clone());
        s.raised = true;
        text
    })
}

/// An error of a type being read, made in one of the ways serde offers.
fn own_de<E: de::Error>() -> E {
    fn make<E: de::Error>(i: usize, text: &str) -> E {
        match i % 8 {
            1 => E::invalid_value(de::Unexpected::Str(text), &"a good value"),
            2 => E::invalid_type(de::Unexpected::Map, &text),
            3 => E::invalid_length(i, &text),
            4 => E::unknown_variant(text, &["a", "b"]),
            5 => E::unknown_field(text, &[]),
            6 => E::missing_field("m"),
            7 => E::duplicate_field("d"),
            _ => E::custom(text),
        }
    }
    let text = own();
    let i = SCRIPT.with(|s| s.borrow().arity.len());
    // (its text, by serde itself)
    let plain = make::<de::value::Error>(i, &text).to_string();
    SCRIPT.with(|s| s.borrow_mut().own = Some(plain));
    make(i, &text)
}

fn swallow() {
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        s.own = None;
        s.swallowed = true;
    })
}

/// Run every script with at most `bound` deviations, up to `cap` scripts. `run` returns the script
/// as it went.
fn explore(bound: usize, cap: usize, mut run: impl FnMut(&[u8]) -> Vec<u8>) -> (usize, bool) {
    let mut todo: std::collections::VecDeque<(Vec<u8>, usize)> = [(vec![], 0)].into();
    let mut n = 0;
    while let Some((plan, used)) = todo.pop_front() {
        if n >= cap {
            return (n, false);
        }
        n += 1;
        let arity = run(&plan);
        if used == bound {
            continue;
        }
        for i in plan.len()..arity.len() {
            for c in 1..arity[i] {
                let mut p = plan.clone();
                p.resize(i, 0);
                p.push(c);
                todo.push_back((p, used + 1));
            }
        }
    }
    (n, true)
}

fn start(plan: &[u8]) {
    SCRIPT.with(|s| *s.borrow_mut() = Script { plan: plan.to_vec(), ..Default::default() })
}
fn stop() -> Script {
    SCRIPT.with(|s| std::mem::take(&mut *s.borrow_mut()))
}

// ---- writing ----

struct Ill<'a>(&'a Term);

macro_rules! parts {
    ($q:ident, $m:ident, $v:expr) => {{
        for t in $v {
            match choose(5) {
                1 => {}
                2 => {
                    $q.$m(&Ill(t))?;
                    $q.$m(&Ill(t))?;
                }
                3 => break,
                4 => {
                    if $q.$m(&Ill(t)).is_err() {
                        swallow();
                    }
                }
                _ => $q.$m(&Ill(t))?,
            }
        }
        match choose(3) {
            1 => return Err(ser::Error::custom(own())),
            2 => $q.$m(&Ill(&Term::Unit))?,
            _ => {}
        }
        $q.end()
    }};
}

macro_rules! fields {
    ($q:ident, $f:expr) => {{
        for (n, t) in $f {
            let t = match t {
                Some(t) => t,
                None => {
                    if choose(2) == 0 {
                        $q.skip_field(n)?;
                    }
                    continue;
                }
            };
            match choose(7) {
                1 => {}
                2 => {
                    $q.serialize_field(n, &Ill(t))?;
                    $q.serialize_field(n, &Ill(t))?;
                }
                3 => break,
                4 => {
                    if $q.serialize_field(n, &Ill(t)).is_err() {
                        swallow();
                    }
                }
                5 => $q.skip_field(n)?,
                6 => $q.serialize_field("another name", &Ill(t))?,
                _ => $q.serialize_field(n, &Ill(t))?,
            }
        }
        if choose(2) == 1 {
            return Err(ser::Error::custom(own()));
        }
        $q.end()
    }};
}

fn said_len(n: usize) -> usize {
    match choose(4) {
        1 => n + 1,
        2 => n.wrapping_sub(1),
        3 => 0,
        _ => n,
    }
}
fn said_hint(n: usize) -> Option<usize> {
    match choose(5) {
        1 => Some(n + 1),
        2 => Some(n.wrapping_sub(1)),
        3 => Some(0),
        4 => None,
        _ => Some(n),
    }
}

impl Ill<'_> {
    fn body<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            Term::Some(t) => s.serialize_some(&Ill(t)),
            Term::Seq(_, v) => {
                let mut q = s.serialize_seq(said_hint(v.len()))?;
                parts!(q, serialize_element, v)
            }
            Term::Tuple(v) => {
                let mut q = s.serialize_tuple(said_len(v.len()))?;
                parts!(q, serialize_element, v)
            }
            Term::Map(_, v) => {
                let mut q = s.serialize_map(said_hint(v.len()))?;
                for (i, (k, t)) in v.iter().enumerate() {
                    let (k, t) = (Ill(k), Ill(t));
                    match choose(8) {
                        1 => {}
                        2 => q.serialize_key(&k)?,
                        3 => q.serialize_value(&t)?,
                        4 => {
                            q.serialize_key(&k)?;
                            q.serialize_key(&k)?;
                            q.serialize_value(&t)?;
                        }
                        5 => {
                            q.serialize_key(&k)?;
                            q.serialize_value(&t)?;
                            q.serialize_value(&t)?;
                        }
                        6 => {
                            if q.serialize_key(&k).is_err() {
                                swallow();
                            }
                            if q.serialize_value(&t).is_err() {
                                swallow();
                            }
                        }
                        7 => break,
                        _ if i % 2 == 0 => q.serialize_entry(&k, &t)?,
                        _ => {
                            q.serialize_key(&k)?;
                            q.serialize_value(&t)?;
                        }
                    }
                }
                if choose(2) == 1 {
                    return Err(ser::Error::custom(own()));
                }
                q.end()
            }
            Term::Struct(Content::Newtype(t)) => s.serialize_newtype_struct("N", &Ill(t)),
            Term::Struct(Content::Tuple(v)) => {
                let mut q = s.serialize_tuple_struct("N", said_len(v.len()))?;
                parts!(q, serialize_field, v)
            }
            Term::Struct(Content::Struct(f)) => {
                let mut q = s.serialize_struct("N", said_len(f.len()))?;
                fields!(q, f)
            }
            Term::Variant(o, n, Content::Newtype(t)) => s.serialize_newtype_variant("E", *o, n, &Ill(t)),
            Term::Variant(o, n, Content::Tuple(v)) => {
                let mut q = s.serialize_tuple_variant("E", *o, n, said_len(v.len()))?;
                parts!(q, serialize_field, v)
            }
            Term::Variant(o, n, Content::Struct(f)) => {
                let mut q = s.serialize_struct_variant("E", *o, n, said_len(f.len()))?;
                fields!(q, f)
            }
            t => t.serialize(s),
        }
    }
}

impl Serialize for Ill<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match choose(2) {
            1 => return Err(ser::Error::custom(own())),
            _ => {}
        }
        let o = self.body(s)?;
        match choose(2) {
            1 => Err(ser::Error::custom(own())),
            _ => Ok(o),
        }
    }
}

fn own_error(e: &Error, text: &str) -> Result<(), String> {
    if e.kind() != ErrorKind::Other || e.inner().to_string() != text {
        return Err(format!("the type's own error {:?} reached the caller as {}", text, err_brief(e)));
    }
    Ok(())
}

/// Positions in the calls where `n` bytes have been moved.
fn positions(sizes: impl Iterator<Item = usize>, n: usize) -> Vec<usize> {
    let mut o = Vec::new();
    let mut sum = 0;
    let mut i = 0;
    for x in sizes {
        if sum == n {
            o.push(i);
        }
        sum += x;
        i += 1;
    }
    if sum == n {
        o.push(i);
    }
    o
}

/// `fits`: whether the value of `m` is what the term says, if the type is good.
fn run_write(m: &M, ops: &(Vec<EncOp>, Vec<usize>), t: &Term, fits: bool, plan: &[u8]) -> Result<Vec<u8>, String> {
    start(plan);
    let mut st = CoderState::new(m.s, Default::default(), None);
    let mut out = Vec::new();
    let res = Ill(t).serialize(&mut Encoder::new(&mut st, &mut out));
    let sc = stop();
    let fin = st.is_finished();
    if fin != st.is_finished_or_err().is_ok() {
        return Err("is_finished() and is_finished_or_err() disagree".into());
    }
    let deviations = plan.iter().filter(|x| **x != 0).count();
    if fits && deviations == sc.harmless {
        res.as_ref().map_err(|e| format!("serializing fails with {}", err_brief(e)))?;
        if !fin || out != m.bytes {
            return Err(format!("wrote {} (finished = {}), expected {}", hex(&out), fin, hex(&m.bytes)));
        }
    }
    if fin {
        let mut c = Cur::new(&out);
        match refm::decode(&m.a, 0, &mut c) {
            Ok(_) if c.pos == out.len() => {}
            _ => return Err(format!("reported finished, but {} is not a message", hex(&out))),
        }
        if let (Err(e), None, false) = (&res, &sc.own, sc.swallowed) {
            return Err(format!("reported finished with {}, but serializing failed with {}", hex(&out), err_brief(e)));
        }
    }
    if let Some(text) = &sc.own {
        match &res {
            Ok(()) => return Err(format!("the type's own error {:?} was lost", text)),
            Err(e) => own_error(e, text)?,
        }
        if deviations == 1 && fits {
            if !m.bytes.starts_with(&out) {
                return Err(format!("{} was written before the type's own error, the message is {}", hex(&out), hex(&m.bytes)));
            }
            // from there on by calls
            let mut last = String::new();
            for p in positions(ops.1.iter().copied(), out.len()) {
                start(plan);
                let mut st = CoderState::new(m.s, Default::default(), None);
                let mut out = Vec::new();
                let _ = Ill(t).serialize(&mut Encoder::new(&mut st, &mut out));
                stop();
                let mut e = Encoder::new(&mut st, &mut out);
                match ops.0[p..].iter().try_for_each(|op| enc_call(&mut e, op)) {
                    Ok(()) if st.is_finished() && out == m.bytes => {
                        last.clear();
                        break;
                    }
                    Ok(()) => last = format!("calls {} complete it to {} (finished = {})", p, hex(&out), st.is_finished()),
                    Err(e) => last = err_brief(&e),
                }
            }
            if !last.is_empty() {
                return Err(format!("the message can't be completed by calls after the type's own error: {}", last));
            }
        }
    }
    Ok(sc.arity)
}

// ---- reading ----

struct IllSeed<'a>(&'a Shape);
struct IllVis<'a>(&'a Shape);

fn after<E: de::Error>(t: Term) -> Result<Term, E> {
    match choose(2) {
        1 => Err(own_de()),
        _ => Ok(t),
    }
}

impl<'de> DeserializeSeed<'de> for IllSeed<'_> {
    type Value = Term;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Term, D::Error> {
        match choose(3) {
            1 => Err(own_de()),
            // not read at all
            2 => Ok(Term::Ignored),
            _ => match self.0 {
                Shape::Ignored => self.0.deserialize(d),
                s => ask(s, d, IllVis(s)),
            },
        }
    }
}

/// What to do about an error in a part: pass it on, end here, or go on.
enum Part<T> {
    Got(T),
    End,
    Next,
}
fn part<T, E>(r: Result<T, E>) -> Result<Part<T>, E> {
    match r {
        Ok(x) => Ok(Part::Got(x)),
        Err(e) => match choose(3) {
            1 => {
                swallow();
                Ok(Part::End)
            }
            2 => {
                swallow();
                Ok(Part::Next)
            }
            _ => Err(e),
        },
    }
}

const MOST: usize = 60;

impl IllVis<'_> {
    fn seq<'de, A: SeqAccess<'de>>(&self, mut a: A, each: &dyn Fn(usize) -> Option<Shape>) -> Result<Vec<Term>, A::Error> {
        let mut o = Vec::new();
        let mut tries = 0;
        loop {
            tries += 1;
            if tries > MOST {
                return Err(de::Error::custom("too long"));
            }
            let s = match each(o.len()) {
                Some(s) => s,
                None => {
                    // one that is not there
                    if choose(2) == 1 {
                        harmless();
                        if let Some(t) = a.next_element_seed(IllSeed(&Shape::Any))? {
                            o.push(t);
                        }
                    }
                    return Ok(o);
                }
            };
            match choose(3) {
                1 => return Ok(o),
                2 => return Err(own_de()),
                _ => {}
            }
            match part(a.next_element_seed(IllSeed(&s)))? {
                Part::Got(Some(t)) => o.push(t),
                Part::Got(None) => {
                    if each(usize::MAX).is_none() {
                        return Err(de::Error::invalid_length(o.len(), &"more elements"));
                    }
                    if choose(2) == 1 {
                        harmless();
                        if let Some(t) = a.next_element_seed(IllSeed(&Shape::Any))? {
                            o.push(t);
                        }
                    }
                    return Ok(o);
                }
                Part::End => return Ok(o),
                Part::Next => {}
            }
        }
    }

    /// The entries, each with the shape of its value given its key.
    fn map<'de, A: MapAccess<'de>, K: Clone>(
        &self,
        mut a: A,
        mut key: impl FnMut(&mut A) -> Result<Option<K>, A::Error>,
        value: impl Fn(&K) -> Result<Shape, A::Error>,
        first: &Shape,
    ) -> Result<Vec<(K, Term)>, A::Error> {
        let mut o = Vec::new();
        for _ in 0..MOST {
            match choose(5) {
                1 => return Ok(o),
                2 => return Err(own_de()),
                3 => {
                    a.next_value_seed(IllSeed(first))?;
                }
                4 => {
                    key(&mut a)?;
                }
                _ => {}
            }
            let k = match part(key(&mut a))? {
                Part::Got(Some(k)) => k,
                Part::Got(None) => {
                    if choose(2) == 1 {
                        harmless();
                        if let Some(k) = key(&mut a)? {
                            o.push((k, Term::Ignored));
                        }
                    }
                    return Ok(o);
                }
                Part::End => return Ok(o),
                Part::Next => continue,
            };
            match choose(3) {
                1 => return Ok(o),
                2 => return Err(own_de()),
                _ => {}
            }
            let s = value(&k)?;
            match part(a.next_value_seed(IllSeed(&s)))? {
                Part::Got(t) => o.push((k, t)),
                Part::End => return Ok(o),
                Part::Next => {}
            }
        }
        Err(de::Error::custom("too long"))
    }
}

macro_rules! leaves {
    ($($m:ident $t:ty;)*) => {$(
        fn $m<E: de::Error>(self, v: $t) -> Result<Term, E> {
            after(Vis(self.0).$m(v)?)
        }
    )*};
}

impl<'de> Visitor<'de> for IllVis<'_> {
    type Value = Term;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
    leaves!(
        visit_bool bool; visit_i8 i8; visit_i16 i16; visit_i32 i32; visit_i64 i64; visit_i128 i128;
        visit_u8 u8; visit_u16 u16; visit_u32 u32; visit_u64 u64; visit_u128 u128; visit_f32 f32; visit_f64 f64; visit_char char;
        visit_str &str; visit_bytes &[u8];
    );
    fn visit_unit<E: de::Error>(self) -> Result<Term, E> {
        after(Vis(self.0).visit_unit()?)
    }
    fn visit_none<E: de::Error>(self) -> Result<Term, E> {
        after(Vis(self.0).visit_none()?)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Term, D::Error> {
        let s = match self.0 {
            Shape::Option(s) => &**s,
            Shape::Any => &Shape::Any,
            _ => return Err(de::Error::custom("visited with some")),
        };
        after(Term::Some(Box::new(IllSeed(s).deserialize(d)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Term, D::Error> {
        match self.0 {
            Shape::Struct(CShape::Newtype(s)) => after(Term::Struct(Content::Newtype(Box::new(IllSeed(s).deserialize(d)?)))),
            _ => Err(de::Error::custom("visited with newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Term, A::Error> {
        let list = |t: &[Shape], i: usize| t.get(i).cloned();
        after(match self.0 {
            Shape::Seq(s) => {
                let v = self.seq(a, &|_| Some((**s).clone()))?;
                Term::Seq(Some(v.len()), v)
            }
            Shape::Any => {
                let v = self.seq(a, &|_| Some(Shape::Any))?;
                Term::Seq(Some(v.len()), v)
            }
            Shape::Tuple(t) => Term::Tuple(self.seq(a, &|i| list(t, i))?),
            Shape::Struct(CShape::Tuple(t)) => Term::Struct(Content::Tuple(self.seq(a, &|i| list(t, i))?)),
            _ => return Err(de::Error::custom("visited with seq")),
        })
    }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Term, A::Error> {
        after(match self.0 {
            Shape::Map(k, v) => {
                let o = self.map(a, |a| a.next_key_seed(IllSeed(k)), |_| Ok((**v).clone()), v)?;
                Term::Map(Some(o.len()), o)
            }
            Shape::Any => {
                let o = self.map(a, |a| a.next_key_seed(IllSeed(&Shape::Any)), |_| Ok(Shape::Any), &Shape::Any)?;
                Term::Map(Some(o.len()), o)
            }
            Shape::Struct(CShape::Struct(f)) => {
                let unit = Shape::Unit;
                let find = |k: &Result<u64, String>| match k {
                    Ok(i) => f.get(*i as usize),
                    Err(n) => f.iter().find(|x| x.0 == n),
                };
                let o = self.map(
                    a,
                    |a| a.next_key_seed(Ident),
                    |k| Ok(find(k).map_or(Shape::Ignored, |x| x.1.clone())),
                    f.first().map_or(&unit, |x| &x.1),
                )?;
                Term::Struct(Content::Struct(o.into_iter().map(|(k, t)| (find(&k).map_or("", |x| x.0), Some(t))).collect()))
            }
            _ => return Err(de::Error::custom("visited with map")),
        })
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Term, A::Error> {
        match choose(3) {
            1 => return Err(own_de()),
            2 => return Ok(Term::Ignored),
            _ => {}
        }
        let (id, acc) = a.variant_seed(Ident)?;
        match choose(3) {
            1 => return Err(own_de()),
            2 => return Ok(Term::Ignored),
            _ => {}
        }
        let ord = match (&id, self.0) {
            (Ok(n), _) => *n as usize,
            (Err(s), Shape::Enum(vs)) => vs.iter().position(|x| x.0 == s).unwrap_or(usize::MAX),
            (Err(s), _) => return Err(de::Error::custom(format!("variant given by name {:?}", s))),
        };
        let (name, c) = match self.0 {
            Shape::Any => {
                let t = acc.newtype_variant_seed(IllSeed(&Shape::Any))?;
                return after(Term::Variant(ord as u32, "", Content::Newtype(Box::new(t))));
            }
            Shape::Enum(vs) => match vs.get(ord) {
                Some(x) => x,
                None => return Err(de::Error::custom("unknown variant")),
            },
            _ => return Err(de::Error::custom("visited with enum")),
        };
        let content = match c {
            CShape::Unit => {
                acc.unit_variant()?;
                Content::Unit
            }
            CShape::Newtype(s) => Content::Newtype(Box::new(acc.newtype_variant_seed(IllSeed(s))?)),
            CShape::Tuple(t) => match acc.tuple_variant(t.len(), IllVis(&Shape::Tuple(t.clone())))? {
                Term::Tuple(v) => Content::Tuple(v),
                _ => unreachable!(),
            },
            CShape::Struct(f) => {
                let names: Vec<&'static str> = f.iter().map(|x| x.0).collect();
                match acc.struct_variant(mcore::term::intern_list(&names), IllVis(&Shape::Struct(CShape::Struct(f.clone()))))? {
                    Term::Struct(c) => c,
                    _ => unreachable!(),
                }
            }
        };
        after(Term::Variant(ord as u32, name, content))
    }
}

/// `want`: what a good type of this shape reads, if it can; else the shape or the bytes do not fit.
fn run_read(m: &M, ops: &[DecOp], b: &[u8], len: Option<usize>, sh: &Shape, want: Option<&Term>, plan: &[u8]) -> Result<Vec<u8>, String> {
    start(plan);
    let mut st = CoderState::new(m.s, Default::default(), None);
    let mut rd = b;
    let res = IllSeed(sh).deserialize(&mut Decoder::new(&mut st, &mut rd));
    let sc = stop();
    let used = b.len() - rd.len();
    let fin = st.is_finished();
    if fin != st.is_finished_or_err().is_ok() {
        return Err("is_finished() and is_finished_or_err() disagree".into());
    }
    if fin && len != Some(used) {
        return Err(format!("reported finished having taken {} of {}; the message has {:?} bytes", used, hex(b), len));
    }
    let deviations = plan.iter().filter(|x| **x != 0).count();
    if let (true, Some(want)) = (deviations == sc.harmless, want) {
        match &res {
            Err(e) => return Err(format!("reading fails with {}", err_brief(e))),
            Ok(t) if !same_term(t, want) => return Err(format!("read {}, expected {}", t.text(), want.text())),
            Ok(_) if !fin => return Err("read to the end, but not finished".into()),
            Ok(_) => {}
        }
    }
    if let Some(text) = &sc.own {
        match &res {
            Ok(_) => return Err(format!("the type's own error {:?} was lost", text)),
            Err(e) => own_error(e, text)?,
        }
        if deviations == 1 && want.is_some() {
            let mut last = String::from("no point of the message");
            for p in positions(ops.iter().map(|x| x.feed.len()), used) {
                start(plan);
                let mut st = CoderState::new(m.s, Default::default(), None);
                let mut rd = b;
                let _ = IllSeed(sh).deserialize(&mut Decoder::new(&mut st, &mut rd));
                stop();
                let mut d = Decoder::new(&mut st, &mut rd);
                match ops[p..].iter().try_for_each(|op| dec_call(&mut d, &op.call).map(|_| ())) {
                    Ok(()) if st.is_finished() && Some(b.len() - rd.len()) == len => {
                        last.clear();
                        break;
                    }
                    Ok(()) => last = format!("calls {} complete it having taken {} bytes (finished = {})", p, b.len() - rd.len(), st.is_finished()),
                    Err(e) => last = err_brief(&e),
                }
            }
            if !last.is_empty() {
                return Err(format!("the message can't be completed by calls after the type's own error: {}", last));
            }
        }
    }
    Ok(sc.arity)
}

// ---- exploration ----

fn plan_text(p: &[u8]) -> String {
    if p.is_empty() { "-".into() } else { p.iter().map(|x| x.to_string()).collect() }
}
fn parse_plan(s: &str) -> Vec<u8> {
    if s == "-" { vec![] } else { s.bytes().map(|x| x - b'0').collect() }
}

const FORMS: usize = 8;
/// what is behind the message in the source
const BEHIND: [u8; 6] = [1, 0, 1, 0x80, 0xff, 0];

fn all_shapes(m: &M, near: bool) -> Vec<Shape> {
    let mut o = m.forms(FORMS);
    if near {
        let mut seen: std::collections::HashSet<String> = o.iter().map(|s| format!("{:?}", s)).collect();
        for f in m.forms(2) {
            o.extend(near_shapes(&f).into_iter().filter(|s| seen.insert(format!("{:?}", s))));
        }
    }
    o.push(Shape::Any);
    o
}

/// Terms next to the ones that are the value (some may still be it).
fn misfits(m: &M) -> Vec<Term> {
    let mut seen = std::collections::HashSet::new();
    let mut o = Vec::new();
    for f in m.forms(3) {
        let t = typed_term(&m.v, &f).expect("form fits");
        o.extend(near_terms(&t).into_iter().filter(|t| seen.insert(t.text())));
    }
    o
}

fn enc_list(m: &M) -> (Vec<EncOp>, Vec<usize>) {
    let mut ops = Vec::new();
    enc_ops(&m.v, &mut ops);
    let mut st = mcore::machine::MState::new(&m.a);
    let sizes = ops
        .iter()
        .map(|op| match st.enc(&m.a, op) {
            mcore::machine::Expect::Accept { moved, .. } => moved.len(),
            x => panic!("harness: {:?}", x),
        })
        .collect();
    (ops, sizes)
}

fn dec_list(m: &M) -> Vec<DecOp> {
    dec_ops(m.s, &m.v)
}

/// One exploration: `run` runs one script; false once one failed.
fn search(r: &Run, case: &dyn Fn(&[u8]) -> Vec<(String, String)>, bound: usize, cap: usize, run: &dyn Fn(&[u8]) -> Result<Vec<u8>, String>) {
    let mut bad = false;
    let mut twice = 0;
    let (n, full) = explore(bound, cap, |plan| {
        if bad {
            return vec![];
        }
        let c = || case(plan);
        let res = in_case(&c, || guard(|| run(plan)).and_then(|x| x));
        if plan.iter().filter(|x| **x != 0).count() > 1 {
            twice += 1;
        }
        match res {
            Ok(a) => a,
            Err(e) => {
                bad = true;
                r.fail(&c, &e);
                vec![]
            }
        }
    });
    r.transitions.fetch_add(n as u64, Relaxed);
    r.evaluations.fetch_add(n as u64, Relaxed);
    r.nontrivial.fetch_add((n - 1) as u64, Relaxed);
    r.count("scripts with two deviations or more", twice);
    if !full {
        r.count("explorations cut at the script bound", 1);
    }
}

fn check(r: &Run, m: &M, bound: usize, cap: usize, near: bool, spoil: bool) {
    let ops = enc_list(m);
    let dops = dec_list(m);
    let base = |kind: &str| with(sv(m.s, &m.v), "kind", kind);
    for (i, sh) in m.forms(FORMS).iter().enumerate() {
        let t = typed_term(&m.v, sh).expect("form fits");
        search(r, &|p| with(with(base("write"), "form", i), "plan", plan_text(p)), bound, cap, &|p| run_write(m, &ops, &t, true, p));
    }
    if near {
        for (i, t) in misfits(m).iter().enumerate() {
            search(r, &|p| with(with(base("misfit"), "form", i), "plan", plan_text(p)), 1, cap, &|p| run_write(m, &ops, t, false, p));
        }
    }
    r.state(|| format!("{} {}", schema_text(m.s), value_text(&m.v)));
    r.traces.fetch_add(1, Relaxed);
    if m.dup {
        return;
    }
    let mut b = m.bytes.clone();
    b.extend(BEHIND);
    for (i, sh) in all_shapes(m, near).iter().enumerate() {
        let want = wanted(m, sh);
        // types that do not fit fail by themselves
        let bound = if want.is_some() { bound } else { 1 };
        search(r, &|p| with(with(base("read"), "form", i), "plan", plan_text(p)), bound, cap, &|p| run_read(m, &dops, &b, Some(m.bytes.len()), sh, want.as_ref(), p));
    }
    if spoil && m.a.min_height().iter().all(|h| h.is_some()) {
        for b in spoilt(&m.bytes) {
            let len = valid_len(m, &b);
            for (i, sh) in all_shapes(m, false).iter().enumerate() {
                search(r, &|p| with(with(with(base("spoilt"), "form", i), "bytes", hex(&b)), "plan", plan_text(p)), 1, cap, &|p| run_read(m, &dops, &b, len, sh, None, p));
            }
        }
        r.count("messages also read spoilt", 1);
    }
}

fn wanted(m: &M, sh: &Shape) -> Option<Term> {
    match sh {
        Shape::Any => Some(any_term(&m.a, &m.v)),
        _ => typed_term(&m.v, sh),
    }
}

/// The length of the message at the start of the bytes, if there is one.
fn valid_len(m: &M, b: &[u8]) -> Option<usize> {
    let mut c = Cur::new(b);
    c.zero_budget = 100000;
    refm::decode(&m.a, 0, &mut c).ok().map(|_| c.pos)
}

pub fn c25(r: &Run) {
    r.rule("a state is a schema and a value; a type that holds it is run under every script of up to the stated number of deviations (own errors before, after and between parts; parts left out, given or read twice, not read; early ends; lengths declared wrong; keys without values; errors swallowed; more asked for than there is) at every point where it could deviate; nontrivial: a script that deviates");
    let mut p = pool(r, r.pick(4, 5), r.pick(2, 3));
    p.extend(leaves_held());
    let bound = 2;
    let cap = r.pick(250, 6000);
    r.note("bounds", format!("{} deviations per script, {} scripts per type and value (single deviations first to last); types that do not fit and spoilt bytes: 1 deviation", bound, cap));
    par_for(p.len(), |i| {
        let m = M::new(&p[i].0, &p[i].1);
        let small = mcore::gen::size_of_schema(m.s) <= r.pick(3, 4);
        check(r, &m, bound, cap, small, small);
    });
    // three deviations, of what is small
    let q = pool(r, r.pick(2, 3), 2);
    r.note("messages of small schemas, three deviations", q.len());
    r.note("messages", format!("{} (all schemas of <= {} nodes, listed ones, and every leaf held by every constructor)", p.len(), r.pick(4, 5)));
    par_for(q.len(), |i| {
        if mcore::gen::size_of_schema(&q[i].0) <= r.pick(3, 5) {
            check(r, &M::new(&q[i].0, &q[i].1), 3, r.pick(3000, 60000), false, false);
        }
    });
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    let s = parse_schema(get(kvs, "schema"));
    let v = parse_value(get(kvs, "value"));
    let m = M::new(&s, &v);
    let plan = parse_plan(get(kvs, "plan"));
    let i: usize = get(kvs, "form").parse().unwrap();
    let case = || kvs.to_vec();
    let res = match get(kvs, "kind") {
        "write" => {
            let t = typed_term(&v, &m.forms(FORMS)[i]).unwrap();
            guard(|| run_write(&m, &enc_list(&m), &t, true, &plan))
        }
        "misfit" => guard(|| run_write(&m, &enc_list(&m), &misfits(&m)[i], false, &plan)),
        "read" => {
            let mut b = m.bytes.clone();
            b.extend(BEHIND);
            let sh = &all_shapes(&m, true)[i];
            guard(|| run_read(&m, &dec_list(&m), &b, Some(m.bytes.len()), sh, wanted(&m, sh).as_ref(), &plan))
        }
        _ => {
            let b = unhex(get(kvs, "bytes"));
            guard(|| run_read(&m, &dec_list(&m), &b, valid_len(&m, &b), &all_shapes(&m, false)[i], None, &plan))
        }
    };
    space::report(r, &case, res);
}
