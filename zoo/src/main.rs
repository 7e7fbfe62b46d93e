//! C13: the standard-library types that declare a schema, and their compositions.
use binschema::{KnownSchema, Schema};
use mcore::{
    alloc::CheckAlloc,
    report::{self, in_case, kv, Run, Tier},
    text::{schema_text, value_text},
    ty::*,
};
use serde::{de::DeserializeOwned, Serialize};
use std::{
    any::type_name,
    borrow::Cow,
    collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque},
    hash::Hash,
    marker::PhantomData,
    ops::{Bound, Range, RangeInclusive},
};

#[global_allocator]
static A: CheckAlloc = CheckAlloc;

trait Any: Ty + KnownSchema + Serialize + DeserializeOwned + Clone {}
impl<T: Ty + KnownSchema + Serialize + DeserializeOwned + Clone> Any for T {}
trait Key: Any + Ord + Hash {}
impl<T: Any + Ord + Hash> Key for T {}

/// All compositions of so many constructors on top of a type.
trait Depth {
    fn any<T: Any>(j: &mut Vec<Job>);
    fn key<T: Key>(j: &mut Vec<Job>);
}
struct Z;
struct S<D>(PhantomData<D>);
impl Depth for Z {
    fn any<T: Any>(j: &mut Vec<Job>) {
        j.push(job::<T>());
    }
    fn key<T: Key>(j: &mut Vec<Job>) {
        j.push(job::<T>());
    }
}
impl<D: Depth> Depth for S<D> {
    fn any<T: Any>(j: &mut Vec<Job>) {
        D::any::<Option<T>>(j);
        D::any::<Vec<T>>(j);
        D::any::<VecDeque<T>>(j);
        D::any::<LinkedList<T>>(j);
        D::any::<[T; 0]>(j);
        D::any::<[T; 1]>(j);
        D::any::<[T; 3]>(j);
        D::any::<(T,)>(j);
        D::any::<(T, u16)>(j);
        D::any::<BTreeMap<u8, T>>(j);
        D::any::<HashMap<String, T>>(j);
        D::any::<Range<T>>(j);
        D::any::<RangeInclusive<T>>(j);
        D::any::<Bound<T>>(j);
        D::any::<Box<T>>(j);
        D::any::<Cow<'static, T>>(j);
    }
    fn key<T: Key>(j: &mut Vec<Job>) {
        D::key::<Option<T>>(j);
        D::key::<Vec<T>>(j);
        D::key::<VecDeque<T>>(j);
        D::key::<LinkedList<T>>(j);
        D::key::<[T; 0]>(j);
        D::key::<[T; 1]>(j);
        D::key::<[T; 3]>(j);
        D::key::<(T,)>(j);
        D::key::<(T, u16)>(j);
        D::key::<BTreeMap<u8, T>>(j);
        D::key::<BTreeMap<T, u32>>(j);
        D::key::<BTreeSet<T>>(j);
        D::any::<BinaryHeap<T>>(j);
        D::any::<HashSet<T>>(j);
        D::any::<HashMap<T, ()>>(j);
        D::any::<HashMap<String, T>>(j);
        D::any::<Range<T>>(j);
        D::any::<RangeInclusive<T>>(j);
        D::any::<Bound<T>>(j);
        D::key::<Box<T>>(j);
        D::key::<Cow<'static, T>>(j);
    }
}

/// Compositions of a few constructors, deeper.
#[cfg(feature = "deep")]
trait Deep {
    fn go<T: Any>(j: &mut Vec<Job>);
}
#[cfg(feature = "deep")]
impl Deep for Z {
    fn go<T: Any>(j: &mut Vec<Job>) {
        j.push(job::<T>());
    }
}
#[cfg(feature = "deep")]
impl<D: Deep> Deep for S<D> {
    fn go<T: Any>(j: &mut Vec<Job>) {
        D::go::<Option<T>>(j);
        D::go::<Vec<T>>(j);
        D::go::<[T; 2]>(j);
        D::go::<[T; 0]>(j);
        D::go::<(T, u16)>(j);
        D::go::<BTreeMap<u8, T>>(j);
        D::go::<Bound<T>>(j);
        D::go::<Range<T>>(j);
    }
}

/// Serialized only: what holds no owned value.
fn only_written<T: KnownSchema + Serialize + ?Sized>(r: &Run, x: &T, want: Schema, v: mcore::ty::Val) {
    let case = || vec![kv("type", type_name::<T>()), kv("value", value_text(&v))];
    in_case(&case, || {
        let res = (|| {
            let s = declared::<T>()?;
            if s != want {
                return Err(format!("the declared schema is {}, structurally it is {}", schema_text(&s), schema_text(&want)));
            }
            writes(&s, x, &v).map(|_| ())
        })();
        if let Err(e) = res {
            r.fail(&case, &e);
        }
    });
    r.count("borrowed values written", 1);
}

fn borrowed<T: Any>(r: &Run, b: Budget) {
    let s = || T::sch(&mut Ctx::default());
    let seq = |len| Schema::Seq(binschema::SeqSchema { len, inner: Box::new(s()) });
    for mut x in T::menu(b) {
        let v = x.value(false);
        only_written::<&T>(r, &&x, s(), v.clone());
        only_written::<&&T>(r, &&&x, s(), v.clone());
        only_written::<Option<&T>>(r, &Some(&x), Schema::Option(Box::new(s())), mcore::ty::Val::Option(Some(Box::new(v.clone()))));
        only_written::<Box<&T>>(r, &Box::new(&x), s(), v.clone());
        only_written::<Cow<T>>(r, &Cow::Borrowed(&x), s(), v.clone());
        only_written::<[&T; 2]>(r, &[&x, &x], seq(Some(2)), mcore::ty::Val::FixedLenSeq(vec![v.clone(), v.clone()]));
        only_written::<Vec<&T>>(r, &vec![&x], seq(None), mcore::ty::Val::VarLenSeq(vec![v.clone()]));
        only_written::<&mut T>(r, &&mut x, s(), v.clone());
    }
    let all = T::menu(b);
    only_written::<[T]>(r, &all, seq(None), mcore::ty::Val::VarLenSeq(all.iter().map(|x| x.value(false)).collect()));
    only_written::<[T]>(r, &[], seq(None), mcore::ty::Val::VarLenSeq(vec![]));
}

/// A collection as long as its length prefix takes more bytes.
fn long<C: Ty + KnownSchema + Serialize + DeserializeOwned + FromIterator<T>, T>(r: &Run, f: impl Fn(usize) -> T) {
    for n in [126usize, 127, 128, 129, 255, 256, 257, 300, 16383, 16384, 16385] {
        let x: C = (0..n).map(&f).collect();
        let case = || vec![kv("type", type_name::<C>()), kv("length", n)];
        in_case(&case, || {
            let res = declared::<C>().and_then(|s| {
                let bytes = writes(&s, &x, &x.value(false))?;
                reads(&s, &bytes, &x)
            });
            if let Err(e) = res {
                let mut e = e;
                if e.len() > 2000 {
                    e = format!("length {}: {}...", n, e.chars().take(300).collect::<String>());
                }
                r.fail(&case, &e);
            }
        });
        r.count("long collections", 1);
    }
}

fn explore(r: &Run) {
    r.rule("a state is a type and a value of it: all compositions of the library's constructors over leaf types up to the stated depth, each with a menu of values (empty, single, boundary, mixed); its declared schema is compared with the structural one, the value is serialized, compared with the reference bytes and read back with bytes following");
    macro_rules! leaves {
        ($d:ty, $j:expr, any: $($a:ty),*; key: $($k:ty),*) => {{ $(<$d as Depth>::any::<$a>($j);)* $(<$d as Depth>::key::<$k>($j);)* }};
    }
    let mut j0 = Vec::new();
    leaves!(Z, &mut j0, any: f32, f64; key: u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize, char, bool, String, ());
    let mut j1 = Vec::new();
    leaves!(S<Z>, &mut j1, any: f32, f64; key: u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize, char, bool, String, ());
    // tuples of every size, in which all the parts differ
    let mut jt = Vec::new();
    jt.push(job::<(u8, String)>());
    jt.push(job::<(u8, String, ())>());
    jt.push(job::<(u8, String, (), i16)>());
    jt.push(job::<(u8, String, (), i16, bool)>());
    jt.push(job::<(u8, String, (), i16, bool, char)>());
    jt.push(job::<(u8, String, (), i16, bool, char, f32)>());
    jt.push(job::<(u8, String, (), i16, bool, char, f32, Option<u8>)>());
    jt.push(job::<(u8, String, (), i16, bool, char, f32, Option<u8>, Vec<u8>)>());
    jt.push(job::<(u8, String, (), i16, bool, char, f32, Option<u8>, Vec<u8>, u128)>());
    jt.push(job::<(u8, String, (), i16, bool, char, f32, Option<u8>, Vec<u8>, u128, (u8, u64))>());
    // keys and values of all kinds
    macro_rules! map_pairs {
        ($($k:ty),*; $vs:tt) => {$( map_pairs!(@ $k; $vs); )*};
        (@ $k:ty; [$($v:ty),*]) => {$( jt.push(job::<BTreeMap<$k, $v>>()); jt.push(job::<HashMap<$k, $v>>()); )*};
    }
    map_pairs!((), bool, u8, i128, char, String, (u8, String), Option<u8>, [u8; 0], Vec<String>, BTreeSet<u8>; [(), f64, u16, String, Option<()>, Vec<u8>, [u8; 2], (), BTreeMap<u8, ()>]);
    jt.push(job::<HashSet<Range<u8>>>());
    jt.push(job::<HashSet<Bound<u8>>>());
    jt.push(job::<HashMap<RangeInclusive<i32>, Bound<String>>>());
    macro_rules! arrays {
        ($($n:literal)*) => {$( jt.push(job::<[u8; $n]>()); jt.push(job::<[(u16, String); $n]>()); jt.push(job::<Vec<[Option<u8>; $n]>>()); )*};
    }
    arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 31 32);
    run_jobs(r, &j0, Budget { depth: 0, width: 1000 });
    run_jobs(r, &j1, Budget { depth: 0, width: r.pick(40, 200) });
    run_jobs(r, &jt, Budget { depth: 0, width: r.pick(40, 200) });
    let mut j2 = Vec::new();
    leaves!(S<S<Z>>, &mut j2, any: ; key: u8, ());
    #[cfg(feature = "deep")]
    leaves!(S<S<Z>>, &mut j2, any: f32; key: u64, String);
    #[cfg(feature = "deep")]
    {
        <S<S<S<Z>>> as Deep>::go::<u8>(&mut j2);
        <S<S<S<Z>>> as Deep>::go::<()>(&mut j2);
    }
    run_jobs(r, &j2, Budget { depth: 0, width: r.pick(12, 24) });
    r.note("types", format!("{} leaves, {} compositions of one constructor, {} of two (thorough: and three), {} others", j0.len(), j1.len(), j2.len(), jt.len()));
    let b = Budget { depth: 0, width: 8 };
    borrowed::<u8>(r, b);
    borrowed::<u64>(r, b);
    borrowed::<String>(r, b);
    borrowed::<()>(r, b);
    borrowed::<f64>(r, b);
    borrowed::<Option<u8>>(r, b);
    borrowed::<Vec<String>>(r, b);
    borrowed::<BTreeMap<u8, String>>(r, b);
    borrowed::<(u8, Bound<u8>)>(r, b);
    for s in ["", "a", "ß€😀"] {
        only_written::<str>(r, s, Schema::Str, mcore::ty::Val::Str(s.into()));
    }
    long::<Vec<u8>, _>(r, |i| i as u8);
    long::<Vec<()>, _>(r, |_| ());
    long::<VecDeque<u16>, _>(r, |i| i as u16);
    long::<LinkedList<u32>, _>(r, |i| i as u32);
    long::<BTreeSet<u32>, _>(r, |i| i as u32);
    long::<HashSet<u32>, _>(r, |i| i as u32);
    long::<BinaryHeap<u16>, _>(r, |i| (i * 7) as u16);
    long::<BTreeMap<u32, u8>, _>(r, |i| (i as u32, i as u8));
    long::<HashMap<String, u8>, _>(r, |i| (format!("k{}", i), i as u8));
    long::<String, char>(r, |i| char::from(b'a' + (i % 26) as u8));
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tier = if args.get(2).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let r = report::init("C13", tier, "model_checking");
    explore(r);
    r.finish()
}
