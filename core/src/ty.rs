//! Rust types as the subject: the structural schema and the value of a type, stated independently
//! of the crate, and the check of a type's declared schema and serde round trips against them.
use crate::{
    gen::{scalar_menu, str_menu},
    refm::{self, Arena},
    report::{guard, in_case, kv, par_for, Run},
    text::{hex, schema_text, value_text},
};
use binschema::{
    value::{EnumValue, ScalarValue, StructValueField, Value},
    CoderState, Decoder, Encoder, EnumSchemaVariant, KnownSchema, RecurseStack, ScalarType, Schema, SeqSchema, StructSchemaField,
};
use serde::{de::DeserializeOwned, Serialize};
use std::{
    any::{type_name, TypeId},
    borrow::Cow,
    collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque},
    hash::Hash,
    ops::{Bound, Range, RangeInclusive},
    sync::atomic::Ordering::Relaxed,
};

/// The schema nodes above, each with the types whose schema it is.
#[derive(Default)]
pub struct Ctx {
    layers: Vec<Vec<TypeId>>,
    /// newtypes around the next node
    pending: Vec<TypeId>,
}

impl Ctx {
    /// Levels from a node to be placed here up to the enclosing one of type `T`.
    pub fn find<T: 'static>(&self) -> Option<usize> {
        let t = TypeId::of::<T>();
        self.layers.iter().rev().position(|l| l.contains(&t)).map(|i| i + 1)
    }
    /// Inside a node that is the schema of no named type.
    pub fn layer<R>(&mut self, f: impl FnOnce(&mut Ctx) -> R) -> R {
        let l = std::mem::take(&mut self.pending);
        self.layers.push(l);
        let r = f(self);
        self.layers.pop();
        r
    }
    /// Inside the node that is the schema of `T`.
    pub fn named<T: 'static, R>(&mut self, f: impl FnOnce(&mut Ctx) -> R) -> R {
        self.pending.push(TypeId::of::<T>());
        self.layer(f)
    }
    /// `T` has the schema of what it contains.
    pub fn newtype<T: 'static, R>(&mut self, f: impl FnOnce(&mut Ctx) -> R) -> R {
        self.pending.push(TypeId::of::<T>());
        let r = f(self);
        self.pending.clear();
        r
    }
}

/// How many values to make: how deep through recursive types, and how many per type.
#[derive(Clone, Copy)]
pub struct Budget {
    pub depth: usize,
    pub width: usize,
}

impl Budget {
    /// For the parts of a value.
    pub fn part(self) -> Budget {
        Budget { depth: self.depth, width: (self.width / 2).max(2) }
    }
    /// For the parts of a value of a named type.
    pub fn deeper(self) -> Option<Budget> {
        Some(Budget { depth: self.depth.checked_sub(1)?, ..self })
    }
}

pub use binschema::value::Value as Val;

pub trait Ty: Sized + Clone + 'static {
    fn sch(c: &mut Ctx) -> Schema;
    /// Some values, the smallest first; none if none fit the depth.
    fn menu(b: Budget) -> Vec<Self>;
    /// The value; unordered collections in the order they iterate, or (`canon`) sorted.
    fn value(&self, canon: bool) -> Value;
}

/// All of `v` up to `n`, else the first few, the last and some evenly between.
pub fn choose<T>(v: Vec<T>, n: usize) -> Vec<T> {
    let len = v.len();
    if len <= n {
        return v;
    }
    let mut keep = vec![false; len];
    for k in 0..n {
        keep[k * (len - 1) / (n - 1).max(1)] = true;
    }
    v.into_iter().zip(keep).filter(|x| x.1).map(|x| x.0).collect()
}

/// Index tuples into lists of the given lengths: all up to `cap`, else one varied at a time and all
/// in step.
pub fn combos(lens: &[usize], cap: usize) -> Vec<Vec<usize>> {
    if lens.iter().any(|&l| l == 0) {
        return vec![];
    }
    let total = lens.iter().fold(1usize, |a, &l| a.saturating_mul(l));
    if total <= cap {
        return (0..total)
            .map(|mut k| {
                lens.iter()
                    .map(|&l| {
                        let i = k % l;
                        k /= l;
                        i
                    })
                    .collect()
            })
            .collect();
    }
    let mut o = vec![vec![0; lens.len()]];
    for k in 1..*lens.iter().max().unwrap() {
        o.push(lens.iter().map(|l| k % l).collect());
    }
    for (i, &l) in lens.iter().enumerate() {
        for x in 1..l {
            let mut f = vec![0; lens.len()];
            f[i] = x;
            o.push(f);
        }
    }
    let mut seen = std::collections::HashSet::new();
    o.retain(|x| seen.insert(x.clone()));
    o.truncate(cap);
    o
}

/// Element lists: none, some alone, one doubled, several reversed.
fn lists<T: Ty>(b: Budget) -> Vec<Vec<T>> {
    let m = T::menu(b.part());
    let mut o = vec![vec![]];
    if !m.is_empty() {
        o.extend(m.iter().take(3).map(|x| vec![x.clone()]));
        o.push(vec![m[0].clone(), m[0].clone()]);
        o.push(m.iter().take(5).rev().cloned().collect());
    }
    choose(o, b.width.max(2))
}

fn sorted(mut v: Vec<Value>) -> Vec<Value> {
    v.sort_by_cached_key(|v| value_text(v));
    v
}

fn seq(len: Option<usize>, inner: Schema) -> Schema {
    Schema::Seq(SeqSchema { len, inner: Box::new(inner) })
}

macro_rules! scalars {
    ($($t:ty, $v:ident;)*) => {$(
        impl Ty for $t {
            fn sch(_: &mut Ctx) -> Schema { Schema::Scalar(ScalarType::$v) }
            fn menu(b: Budget) -> Vec<Self> {
                let m = scalar_menu(ScalarType::$v, b.width > 4).into_iter().map(|s| match s { ScalarValue::$v(x) => x, _ => unreachable!() }).collect();
                if b.width >= 16 { m } else { choose(m, b.width) }
            }
            fn value(&self, _: bool) -> Value { Value::Scalar(ScalarValue::$v(*self)) }
        }
    )*};
}
scalars! { u8, U8; u16, U16; u32, U32; u64, U64; u128, U128; i8, I8; i16, I16; i32, I32; i64, I64; i128, I128; f32, F32; f64, F64; char, Char; bool, Bool; }

impl Ty for usize {
    fn sch(_: &mut Ctx) -> Schema {
        Schema::Scalar(ScalarType::U64)
    }
    fn menu(b: Budget) -> Vec<Self> {
        u64::menu(b).into_iter().map(|x| x as usize).collect()
    }
    fn value(&self, _: bool) -> Value {
        Value::Scalar(ScalarValue::U64(*self as u64))
    }
}
impl Ty for isize {
    fn sch(_: &mut Ctx) -> Schema {
        Schema::Scalar(ScalarType::I64)
    }
    fn menu(b: Budget) -> Vec<Self> {
        i64::menu(b).into_iter().map(|x| x as isize).collect()
    }
    fn value(&self, _: bool) -> Value {
        Value::Scalar(ScalarValue::I64(*self as i64))
    }
}
impl Ty for String {
    fn sch(_: &mut Ctx) -> Schema {
        Schema::Str
    }
    fn menu(b: Budget) -> Vec<Self> {
        choose(str_menu(b.width > 4), b.width)
    }
    fn value(&self, _: bool) -> Value {
        Value::Str(self.clone())
    }
}
impl Ty for () {
    fn sch(_: &mut Ctx) -> Schema {
        Schema::Unit
    }
    fn menu(_: Budget) -> Vec<Self> {
        vec![()]
    }
    fn value(&self, _: bool) -> Value {
        Value::Unit
    }
}
impl<T: Ty> Ty for Option<T> {
    fn sch(c: &mut Ctx) -> Schema {
        Schema::Option(Box::new(c.layer(T::sch)))
    }
    fn menu(b: Budget) -> Vec<Self> {
        let mut o = vec![None];
        o.extend(T::menu(b.part()).into_iter().map(Some));
        choose(o, b.width)
    }
    fn value(&self, canon: bool) -> Value {
        Value::Option(self.as_ref().map(|x| Box::new(x.value(canon))))
    }
}

macro_rules! seqs {
    ($($c:ident, [$($b:ident)*], $canon:ident;)*) => {$(
        impl<T: Ty $(+ $b)*> Ty for $c<T> {
            fn sch(c: &mut Ctx) -> Schema { seq(None, c.layer(T::sch)) }
            fn menu(b: Budget) -> Vec<Self> { lists::<T>(b).into_iter().map(|v| v.into_iter().collect()).collect() }
            fn value(&self, canon: bool) -> Value {
                let v: Vec<Value> = self.iter().map(|x| x.value(canon)).collect();
                Value::VarLenSeq(if canon && $canon { sorted(v) } else { v })
            }
        }
    )*};
}
const YES: bool = true;
const NO: bool = false;
seqs! { Vec, [], NO; VecDeque, [], NO; LinkedList, [], NO; BTreeSet, [Ord], NO; HashSet, [Eq Hash], YES; BinaryHeap, [Ord], YES; }

macro_rules! maps {
    ($($c:ident, [$($b:ident)*], $canon:ident;)*) => {$(
        impl<K: Ty $(+ $b)*, V: Ty> Ty for $c<K, V> {
            fn sch(c: &mut Ctx) -> Schema { seq(None, c.layer(|c| Schema::Tuple(c.layer(|c| vec![K::sch(c), V::sch(c)])))) }
            fn menu(b: Budget) -> Vec<Self> {
                let vs = V::menu(b.part());
                lists::<K>(b).into_iter().filter_map(|v| {
                    if vs.is_empty() && !v.is_empty() { return None; }
                    Some(v.into_iter().zip(vs.iter().cycle().cloned()).collect())
                }).collect()
            }
            fn value(&self, canon: bool) -> Value {
                let v: Vec<Value> = self.iter().map(|(k, x)| Value::Tuple(vec![k.value(canon), x.value(canon)])).collect();
                Value::VarLenSeq(if canon && $canon { sorted(v) } else { v })
            }
        }
    )*};
}
maps! { BTreeMap, [Ord], NO; HashMap, [Eq Hash], YES; }

impl<T: Ty, const N: usize> Ty for [T; N] {
    fn sch(c: &mut Ctx) -> Schema {
        seq(Some(N), c.layer(T::sch))
    }
    fn menu(b: Budget) -> Vec<Self> {
        let m = T::menu(b.part());
        if N > 0 && m.is_empty() {
            return vec![];
        }
        (0..m.len().max(1).min(b.width)).map(|k| std::array::from_fn(|i| m[(k + i) % m.len()].clone())).collect()
    }
    fn value(&self, canon: bool) -> Value {
        Value::FixedLenSeq(self.iter().map(|x| x.value(canon)).collect())
    }
}

macro_rules! tuples {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Ty),*> Ty for ($($t,)*) {
            fn sch(c: &mut Ctx) -> Schema { Schema::Tuple(c.layer(|c| vec![$($t::sch(c)),*])) }
            fn menu(b: Budget) -> Vec<Self> {
                let p = b.part();
                let m = ($($t::menu(p),)*);
                combos(&[$(m.$i.len()),*], b.width).into_iter().map(|ix| ($(m.$i[ix[$i]].clone(),)*)).collect()
            }
            fn value(&self, canon: bool) -> Value { Value::Tuple(vec![$(self.$i.value(canon)),*]) }
        }
    };
}
tuples!(A 0);
tuples!(A 0, B 1);
tuples!(A 0, B 1, C 2);
tuples!(A 0, B 1, C 2, D 3);
tuples!(A 0, B 1, C 2, D 3, E 4);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuples!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);

fn fields(v: Vec<(&str, Schema)>) -> Schema {
    Schema::Struct(v.into_iter().map(|(n, s)| StructSchemaField { name: n.into(), inner: s }).collect())
}
pub fn struct_schema(v: Vec<(&str, Schema)>) -> Schema {
    fields(v)
}
pub fn enum_schema(v: Vec<(&str, Schema)>) -> Schema {
    Schema::Enum(v.into_iter().map(|(n, s)| EnumSchemaVariant { name: n.into(), inner: s }).collect())
}
pub fn struct_value(v: Vec<(&str, Value)>) -> Value {
    Value::Struct(v.into_iter().map(|(n, x)| StructValueField { name: n.into(), value: x }).collect())
}
pub fn enum_value(ord: usize, name: &str, v: Value) -> Value {
    Value::Enum(EnumValue { variant_ord: ord, variant_name: name.into(), value: Box::new(v) })
}

fn pairs<T: Ty>(b: Budget) -> Vec<(T, T)> {
    let m = T::menu(b.part());
    combos(&[m.len(), m.len()], b.width).into_iter().map(|ix| (m[ix[0]].clone(), m[ix[1]].clone())).collect()
}

impl<T: Ty> Ty for Range<T> {
    fn sch(c: &mut Ctx) -> Schema {
        c.layer(|c| fields(vec![("start", T::sch(c)), ("end", T::sch(c))]))
    }
    fn menu(b: Budget) -> Vec<Self> {
        pairs(b).into_iter().map(|(s, e)| s..e).collect()
    }
    fn value(&self, canon: bool) -> Value {
        struct_value(vec![("start", self.start.value(canon)), ("end", self.end.value(canon))])
    }
}
impl<T: Ty> Ty for RangeInclusive<T> {
    fn sch(c: &mut Ctx) -> Schema {
        c.layer(|c| fields(vec![("start", T::sch(c)), ("end", T::sch(c))]))
    }
    fn menu(b: Budget) -> Vec<Self> {
        pairs(b).into_iter().map(|(s, e)| s..=e).collect()
    }
    fn value(&self, canon: bool) -> Value {
        struct_value(vec![("start", self.start().value(canon)), ("end", self.end().value(canon))])
    }
}
impl<T: Ty> Ty for Bound<T> {
    fn sch(c: &mut Ctx) -> Schema {
        c.layer(|c| enum_schema(vec![("Unbounded", Schema::Unit), ("Included", T::sch(c)), ("Excluded", T::sch(c))]))
    }
    fn menu(b: Budget) -> Vec<Self> {
        let mut o = vec![Bound::Unbounded];
        o.extend(T::menu(b.part()).into_iter().map(Bound::Excluded));
        o.extend(T::menu(b.part()).into_iter().map(Bound::Included));
        choose(o, b.width.max(3))
    }
    fn value(&self, canon: bool) -> Value {
        match self {
            Bound::Unbounded => enum_value(0, "Unbounded", Value::Unit),
            Bound::Included(x) => enum_value(1, "Included", x.value(canon)),
            Bound::Excluded(x) => enum_value(2, "Excluded", x.value(canon)),
        }
    }
}

impl<T: Ty> Ty for Box<T> {
    fn sch(c: &mut Ctx) -> Schema {
        T::sch(c)
    }
    fn menu(b: Budget) -> Vec<Self> {
        T::menu(b).into_iter().map(Box::new).collect()
    }
    fn value(&self, canon: bool) -> Value {
        (**self).value(canon)
    }
}
impl<T: Ty> Ty for Cow<'static, T> {
    fn sch(c: &mut Ctx) -> Schema {
        T::sch(c)
    }
    fn menu(b: Budget) -> Vec<Self> {
        T::menu(b).into_iter().enumerate().map(|(i, x)| if i % 2 == 0 { Cow::Owned(x) } else { Cow::Borrowed(&*Box::leak(Box::new(x))) }).collect()
    }
    fn value(&self, canon: bool) -> Value {
        (**self).value(canon)
    }
}

// ---- the checks ----

pub fn first_line(s: &str) -> &str {
    s.lines().next().unwrap_or("")
}

pub fn declared<T: KnownSchema + ?Sized>() -> Result<Schema, String> {
    guard(|| T::schema(RecurseStack::new()))
}

/// Write `x`; compare with the reference encoding of `v`.
pub fn writes<T: Serialize + ?Sized>(s: &Schema, x: &T, v: &Value) -> Result<Vec<u8>, String> {
    let a = Arena::new(s);
    let mut want = Vec::new();
    if !refm::encode(&a, 0, v, &mut want) {
        return Err(format!("the value {} does not belong to the declared schema {}", value_text(v), schema_text(s)));
    }
    guard(|| {
        let mut st = CoderState::new(s, Default::default(), None);
        let mut o = Vec::new();
        if let Err(e) = x.serialize(&mut Encoder::new(&mut st, &mut o)) {
            return Err(format!("serializing {} fails: {}", value_text(v), first_line(&e.to_string())));
        }
        if o != want {
            return Err(format!("{} serializes to {}, FORMAT.txt prescribes {}", value_text(v), hex(&o), hex(&want)));
        }
        if let Err(e) = st.is_finished_or_err() {
            return Err(format!("{} serializes, but the encoder is not finished: {}", value_text(v), first_line(&e.to_string())));
        }
        Ok(())
    })??;
    Ok(want)
}

pub fn reads<T: Ty + DeserializeOwned>(s: &Schema, bytes: &[u8], x: &T) -> Result<(), String> {
    let mut junk = bytes.to_vec();
    junk.extend([1, 0x80, 0xff]);
    guard(|| {
        let mut st = CoderState::new(s, Default::default(), None);
        let mut r = &junk[..];
        let y = match T::deserialize(&mut Decoder::new(&mut st, &mut r)) {
            Ok(y) => y,
            Err(e) => return Err(format!("deserializing {} fails: {}", hex(bytes), first_line(&e.to_string()))),
        };
        let (a, b) = (x.value(true), y.value(true));
        if !refm::same(&a, &b) {
            return Err(format!("{} was written, {} read back", value_text(&a), value_text(&b)));
        }
        if let Err(e) = st.is_finished_or_err() {
            return Err(format!("{} is read back, but the decoder is not finished: {}", value_text(&a), first_line(&e.to_string())));
        }
        if r.len() != 3 {
            return Err(format!("reading {} back takes {} bytes, it has {}", value_text(&a), junk.len() - r.len(), bytes.len()));
        }
        Ok(())
    })?
}

/// The type's declared schema is the structural one and all values of its menu round-trip.
pub fn check_type<T: Ty + KnownSchema + Serialize + DeserializeOwned>(r: &Run, b: Budget) {
    let name = type_name::<T>();
    let case = || vec![kv("type", name), kv("depth", b.depth), kv("width", b.width)];
    in_case(&case, || {
        let res = (|| {
            let s = declared::<T>().map_err(|e| format!("declaring the schema: {}", e))?;
            let want = T::sch(&mut Ctx::default());
            if s != want {
                return Err(format!("the declared schema is {}, structurally it is {}", schema_text(&s), schema_text(&want)));
            }
            for x in T::menu(b) {
                let v = x.value(false);
                let bytes = writes(&s, &x, &v)?;
                reads(&s, &bytes, &x)?;
                r.transitions.fetch_add(2, Relaxed);
                r.state(|| format!("{}: {} = {}", name, value_text(&v), hex(&bytes)));
            }
            Ok(())
        })();
        if let Err(e) = res {
            r.fail(&case, &e);
        }
    });
    r.traces.fetch_add(1, Relaxed);
}

/// Only the declared schema.
pub fn check_schema<T: Ty + KnownSchema>(r: &Run, _: Budget) {
    let case = || vec![kv("type", type_name::<T>())];
    in_case(&case, || match declared::<T>() {
        Err(e) => r.fail(&case, &format!("declaring the schema: {}", e)),
        Ok(s) => {
            let want = T::sch(&mut Ctx::default());
            if s != want {
                r.fail(&case, &format!("the declared schema is {}, structurally it is {}", schema_text(&s), schema_text(&want)));
            }
        }
    });
    r.count("schemas of types around them", 1);
}

pub type Job = (&'static str, fn(&Run, Budget));

pub fn job<T: Ty + KnownSchema + Serialize + DeserializeOwned>() -> Job {
    (type_name::<T>(), check_type::<T>)
}

pub fn schema_job<T: Ty + KnownSchema>() -> Job {
    (type_name::<T>(), check_schema::<T>)
}

pub fn run_jobs(r: &Run, jobs: &[Job], b: Budget) {
    par_for(jobs.len(), |i| jobs[i].1(r, b));
}
