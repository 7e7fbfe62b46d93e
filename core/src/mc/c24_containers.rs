//! C24: the library's containers put on the layers they are. Types that lead back to themselves
//! through every container and every pair of containers, at every position.
use super::{space, util::*};
use binschema::{KnownSchema, RecurseStack, Schema};
use mcore::{
    report::{guard, in_case, kv, Run},
    text::schema_text,
};
use std::{
    borrow::Cow,
    collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque},
    marker::PhantomData,
    ops::{Bound, Range, RangeInclusive},
    sync::atomic::Ordering::Relaxed,
};

/// A container of some type, and the schema it should declare: `at` layers are above it, `hole`
/// gives the schema of the type in it below that many layers.
trait Con: 'static {
    type Of<T: KnownSchema + Clone + 'static>: KnownSchema + Clone + 'static;
    const NAME: &'static str;
    /// whether it has a layer at all
    const DEPTH: usize = 1;
    fn want(at: usize, hole: &dyn Fn(usize) -> Schema) -> Schema;
}

fn tup(v: Vec<Schema>) -> Schema {
    Schema::Tuple(v)
}

macro_rules! cons {
    ($($name:ident $depth:literal $of:ty, |$at:ident, $h:ident| $want:expr;)*) => {$(
        struct $name;
        impl Con for $name {
            type Of<T: KnownSchema + Clone + 'static> = $of;
            const NAME: &'static str = stringify!($name);
            const DEPTH: usize = $depth;
            fn want($at: usize, $h: &dyn Fn(usize) -> Schema) -> Schema { $want }
        }
    )*};
}

type U = u8;
cons! {
    Opt 1 Option<T>, |at, h| option(h(at + 1));
    Bx 0 Box<T>, |at, h| h(at);
    Ref 0 &'static T, |at, h| h(at);
    Cw 0 Cow<'static, T>, |at, h| h(at);
    Vc 1 Vec<T>, |at, h| seq(None, h(at + 1));
    Heap 1 BinaryHeap<T>, |at, h| seq(None, h(at + 1));
    BSet 1 BTreeSet<T>, |at, h| seq(None, h(at + 1));
    HSet 1 HashSet<T>, |at, h| seq(None, h(at + 1));
    List 1 LinkedList<T>, |at, h| seq(None, h(at + 1));
    Deq 1 VecDeque<T>, |at, h| seq(None, h(at + 1));
    BKey 1 BTreeMap<T, U>, |at, h| seq(None, tup(vec![h(at + 2), u8s()]));
    BVal 1 BTreeMap<U, T>, |at, h| seq(None, tup(vec![u8s(), h(at + 2)]));
    BBoth 1 BTreeMap<T, T>, |at, h| seq(None, tup(vec![h(at + 2), h(at + 2)]));
    HKey 1 HashMap<T, U>, |at, h| seq(None, tup(vec![h(at + 2), u8s()]));
    HVal 1 HashMap<U, T>, |at, h| seq(None, tup(vec![u8s(), h(at + 2)]));
    HBoth 1 HashMap<T, T>, |at, h| seq(None, tup(vec![h(at + 2), h(at + 2)]));
    Arr0 1 [T; 0], |at, h| seq(Some(0), h(at + 1));
    Arr1 1 [T; 1], |at, h| seq(Some(1), h(at + 1));
    Arr2 1 [T; 2], |at, h| seq(Some(2), h(at + 1));
    Arr300 1 [T; 300], |at, h| seq(Some(300), h(at + 1));
    Rng 1 Range<T>, |at, h| st(vec![("start", h(at + 1)), ("end", h(at + 1))]);
    RngI 1 RangeInclusive<T>, |at, h| st(vec![("start", h(at + 1)), ("end", h(at + 1))]);
    Bnd 1 Bound<T>, |at, h| en(vec![("Unbounded", Schema::Unit), ("Included", h(at + 1)), ("Excluded", h(at + 1))]);
    Tup1 1 (T,), |at, h| tup(vec![h(at + 1)]);
    Tup2 1 (T, T), |at, h| tup(vec![h(at + 1); 2]);
    Tup2a 1 (T, U), |at, h| tup(vec![h(at + 1), u8s()]);
    Tup2b 1 (U, T), |at, h| tup(vec![u8s(), h(at + 1)]);
    Tup3 1 (U, T, U), |at, h| tup(vec![u8s(), h(at + 1), u8s()]);
    Tup4 1 (T, T, T, T), |at, h| tup(vec![h(at + 1); 4]);
    Tup5 1 (T, T, T, T, T), |at, h| tup(vec![h(at + 1); 5]);
    Tup6 1 (T, T, T, T, T, T), |at, h| tup(vec![h(at + 1); 6]);
    Tup7 1 (T, T, T, T, T, T, T), |at, h| tup(vec![h(at + 1); 7]);
    Tup8 1 (T, T, T, T, T, T, T, T), |at, h| tup(vec![h(at + 1); 8]);
    Tup9 1 (T, T, T, T, T, T, T, T, T), |at, h| tup(vec![h(at + 1); 9]);
    Tup10 1 (T, T, T, T, T, T, T, T, T, T), |at, h| tup(vec![h(at + 1); 10]);
    Tup11 1 (T, T, T, T, T, T, T, T, T, T, T), |at, h| tup(vec![h(at + 1); 11]);
}

/// One container in another.
struct In<C, D>(PhantomData<(C, D)>);
impl<C: Con, D: Con> Con for In<C, D> {
    type Of<T: KnownSchema + Clone + 'static> = C::Of<D::Of<T>>;
    const NAME: &'static str = "";
    const DEPTH: usize = C::DEPTH + D::DEPTH;
    fn want(at: usize, hole: &dyn Fn(usize) -> Schema) -> Schema {
        C::want(at, &|n| D::want(n, hole))
    }
}

macro_rules! types {
    ($($t:ident [$($p:ident)*],)*) => {$(
        struct $t<$($p),*>(PhantomData<($($p,)*)>);
        impl<$($p),*> Clone for $t<$($p),*> {
            fn clone(&self) -> Self { $t(PhantomData) }
        }
    )*};
}
types!(AStruct[C], AEnum[C], ANewtype[C], Mut1[C D], Mut2[C D],);

impl<C: Con> KnownSchema for AStruct<C> {
    fn schema(p: RecurseStack) -> Schema {
        p.parent_recurse::<Self>().unwrap_or_else(|| {
            let s = p.with_type_layer::<Self>();
            st(vec![("a", C::Of::<Self>::schema(s)), ("b", u8s()), ("c", C::Of::<Self>::schema(s))])
        })
    }
}
impl<C: Con> KnownSchema for AEnum<C> {
    fn schema(p: RecurseStack) -> Schema {
        p.parent_recurse::<Self>().unwrap_or_else(|| {
            let s = p.with_type_layer::<Self>();
            en(vec![("A", C::Of::<Self>::schema(s)), ("B", st(vec![("x", C::Of::<Self>::schema(s.with_none_layer()))])), ("C", Schema::Unit)])
        })
    }
}
impl<C: Con> KnownSchema for ANewtype<C> {
    fn schema(p: RecurseStack) -> Schema {
        p.parent_recurse::<Self>().unwrap_or_else(|| C::Of::<Self>::schema(p.with_newtype_layer::<Self>()))
    }
}
// two types: the first has the second in C, that has the first in D, itself in C
impl<C: Con, D: Con> KnownSchema for Mut1<C, D> {
    fn schema(p: RecurseStack) -> Schema {
        p.parent_recurse::<Self>().unwrap_or_else(|| st(vec![("a", C::Of::<Mut2<C, D>>::schema(p.with_type_layer::<Self>()))]))
    }
}
impl<C: Con, D: Con> KnownSchema for Mut2<C, D> {
    fn schema(p: RecurseStack) -> Schema {
        p.parent_recurse::<Self>().unwrap_or_else(|| {
            let s = p.with_type_layer::<Self>();
            st(vec![("b", D::Of::<Mut1<C, D>>::schema(s)), ("c", C::Of::<Self>::schema(s))])
        })
    }
}

fn rec(n: usize) -> Schema {
    Schema::Recurse(n)
}

fn is(what: &str, got: Schema, want: Schema) -> Result<(), String> {
    if got != want {
        return Err(format!("{} declares {}, expected {}", what, schema_text(&got), schema_text(&want)));
    }
    Ok(())
}

fn alone<C: Con>() -> Result<(), String> {
    // a type that is nothing in there, below any number of layers
    let top = RecurseStack::new();
    is("it, of a leaf,", C::Of::<u8>::schema(top), C::want(0, &|_| u8s()))?;
    is("it, of a leaf, below layers", C::Of::<u8>::schema(top.with_none_layer().with_newtype_layer::<u8>()), C::want(2, &|_| u8s()))?;
    is("a struct of it", AStruct::<C>::schema(top), st(vec![("a", C::want(1, &rec)), ("b", u8s()), ("c", C::want(1, &rec))]))?;
    is("an enum of it", AEnum::<C>::schema(top), en(vec![("A", C::want(1, &rec)), ("B", st(vec![("x", C::want(2, &rec))])), ("C", Schema::Unit)]))?;
    if C::DEPTH > 0 {
        is("a newtype of it", ANewtype::<C>::schema(top), C::want(0, &rec))?;
        // the type that is found is the outer, whatever it is in
        is("it, of a newtype of it,", C::Of::<ANewtype<C>>::schema(top), C::want(0, &|n| C::want(n, &|m| rec(m - n))))?;
    }
    let s = |n: usize| st(vec![("a", C::want(n + 1, &|m| rec(m - n))), ("b", u8s()), ("c", C::want(n + 1, &|m| rec(m - n)))]);
    is("it, of a struct of it,", C::Of::<AStruct<C>>::schema(top), C::want(0, &s))
}

fn pair<C: Con, D: Con>() -> Result<(), String> {
    alone::<In<C, D>>()?;
    let top = RecurseStack::new();
    let two = |n: usize| st(vec![("b", D::want(n + 1, &rec)), ("c", C::want(n + 1, &|m| rec(m - n)))]);
    is("the first of two structs", Mut1::<C, D>::schema(top), st(vec![("a", C::want(1, &two))]))?;
    let one = |n: usize| st(vec![("a", C::want(n + 1, &rec))]);
    is("the second of two structs", Mut2::<C, D>::schema(top), st(vec![("b", D::want(1, &one)), ("c", C::want(1, &rec))]))
}

type Check = (String, fn() -> Result<(), String>);

fn list() -> Vec<Check> {
    let mut o: Vec<Check> = Vec::new();
    macro_rules! singles {
        ($($c:ident)*) => {$(
            o.push(($c::NAME.to_string(), alone::<$c>));
        )*};
    }
    macro_rules! with_all {
        ($c:ident; $($d:ident)*) => {$(
            o.push((format!("{} {}", $c::NAME, $d::NAME), pair::<$c, $d>));
        )*};
    }
    macro_rules! pairs {
        ($($c:ident)*) => {$(
            with_all!($c; Opt Bx Ref Cw Vc Heap BSet HSet List Deq BKey BVal BBoth HKey HVal HBoth Arr0 Arr1 Arr2 Rng RngI Bnd Tup1 Tup2 Tup2a Tup3 Tup7);
        )*};
    }
    singles!(Opt Bx Ref Cw Vc Heap BSet HSet List Deq BKey BVal BBoth HKey HVal HBoth Arr0 Arr1 Arr2 Arr300 Rng RngI Bnd Tup1 Tup2 Tup2a Tup2b Tup3 Tup4 Tup5 Tup6 Tup7 Tup8 Tup9 Tup10 Tup11);
    pairs!(Opt Bx Ref Cw Vc Heap BSet HSet List Deq BKey BVal BBoth HKey HVal HBoth Arr0 Arr1 Arr2 Rng RngI Bnd Tup1 Tup2 Tup2a Tup3 Tup7);
    o.push(("slices and mutable references".into(), || {
        let top = RecurseStack::new();
        struct S;
        impl KnownSchema for S {
            fn schema(p: RecurseStack) -> Schema {
                p.parent_recurse::<Self>().unwrap_or_else(|| st(vec![("a", <[S]>::schema(p.with_type_layer::<Self>())), ("b", <[Option<&mut S>]>::schema(p.with_type_layer::<Self>()))]))
            }
        }
        is("a struct of slices of itself", S::schema(top), st(vec![("a", seq(None, rec(2))), ("b", seq(None, option(rec(3))))]))?;
        is("a slice of that", <[&mut S]>::schema(top), seq(None, S::schema(top)))
    }));
    o
}

fn check(r: &Run, (name, f): &Check) {
    let case = || vec![kv("kind", "containers"), kv("containers", name)];
    in_case(&case, || {
        let res = guard(f);
        let res = res.map(|x| x.map_err(|e| format!("{}: {}", name, e)));
        space::report(r, &case, res);
        r.state(|| name.clone());
        r.traces.fetch_add(1, Relaxed);
        r.transitions.fetch_add(1, Relaxed);
    })
}

pub fn all(r: &Run) {
    let l = list();
    r.count("containers, and containers in containers", l.len() as u64);
    l.iter().for_each(|x| check(r, x));
}

pub fn replay(r: &Run, name: &str) {
    check(r, list().iter().find(|x| x.0 == name).expect("containers"));
}
