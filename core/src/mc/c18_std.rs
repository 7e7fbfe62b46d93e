//! C18: real Rust types - those serde itself supports, and derived ones with serde's attributes -
//! under schemas written by hand from the mapping rules.
use super::{space, util::*};
use binschema::{
    error::Error,
    value::{ScalarValue, Value},
    CoderState, Decoder, Encoder, Schema, ScalarType,
};
use mcore::{
    refm::Arena,
    report::{guard, in_case, kv, Run},
    term::{any_term, same_term, Shape},
    text::{hex, schema_text},
};
use serde::{
    de::{DeserializeOwned, DeserializeSeed, IgnoredAny},
    Deserialize, Serialize,
};
use std::{
    cell::{Cell, RefCell},
    cmp::Reverse,
    collections::*,
    ffi::{CString, OsString},
    fmt::Debug,
    marker::PhantomData,
    net::*,
    num::*,
    ops::*,
    path::PathBuf,
    sync::{atomic::*, Mutex, RwLock},
    time::{Duration, SystemTime},
};

fn sc(t: ScalarType) -> Schema {
    Schema::Scalar(t)
}
fn tup(v: Vec<Schema>) -> Schema {
    Schema::Tuple(v)
}
fn vs(v: ScalarValue) -> Value {
    Value::Scalar(v)
}
fn vsome(v: Value) -> Value {
    Value::Option(Some(Box::new(v)))
}
fn vnone() -> Value {
    Value::Option(None)
}

type Ser<'a> = &'a dyn Fn(&mut Encoder<Vec<u8>>) -> Result<(), Error>;
/// Whether the right value was read.
type De<'a> = &'a dyn Fn(&mut Decoder<&[u8]>) -> Result<bool, Error>;

fn one<T: Serialize + DeserializeOwned>(r: &Run, what: &str, s: &Schema, t: T, v: &Value, same: &dyn Fn(&T, &T) -> bool) {
    judge(r, what, s, v, &|e| t.serialize(e), &|d| Ok(same(&T::deserialize(d)?, &t)));
}

fn judge(r: &Run, what: &str, s: &Schema, v: &Value, ser: Ser, de: De) {
    let case = || vec![kv("kind", "std"), kv("type", what), kv("schema", schema_text(s)), kv("value", mcore::text::value_text(v).chars().take(2000).collect::<String>())];
    let res = in_case(&case, || {
        guard(|| -> Result<(), String> {
            let want = ref_bytes(s, v).expect("conforms");
            let mut o = Vec::new();
            let mut st = CoderState::new(s, Default::default(), None);
            ser(&mut Encoder::new(&mut st, &mut o)).map_err(|e| format!("serializing fails with {}", err_brief(&e)))?;
            if o != want || !st.is_finished() {
                return Err(format!("serializes to {}, expected {}", hex(&o[..o.len().min(60)]), hex(&want[..want.len().min(60)])));
            }
            o.extend_from_slice(&[1, 0x80, 0xff]);
            let n = want.len();
            let mut rd = &o[..];
            let mut st = CoderState::new(s, Default::default(), None);
            let same = de(&mut Decoder::new(&mut st, &mut rd)).map_err(|e| format!("deserializing fails with {}", err_brief(&e)))?;
            if !same || !st.is_finished() || o.len() - rd.len() != n {
                return Err(format!("deserializes as something else, or {} of {} bytes taken", o.len() - rd.len(), n));
            }
            let mut rd = &o[..];
            let mut st = CoderState::new(s, Default::default(), None);
            let any = Shape::Any.deserialize(&mut Decoder::new(&mut st, &mut rd)).map_err(|e| format!("self-describing: {}", err_brief(&e)))?;
            if !same_term(&any, &any_term(&Arena::new(s), v)) || !st.is_finished() || o.len() - rd.len() != n {
                return Err(format!("self-describing, it reads as {}", any.text().chars().take(200).collect::<String>()));
            }
            let mut rd = &o[..];
            let mut st = CoderState::new(s, Default::default(), None);
            IgnoredAny::deserialize(&mut Decoder::new(&mut st, &mut rd)).map_err(|e| format!("ignoring: {}", err_brief(&e)))?;
            if !st.is_finished() || o.len() - rd.len() != n {
                return Err("ignoring takes other bytes".into());
            }
            // cut short, it never yields a value
            for k in [0, n / 2, n.saturating_sub(1)] {
                if k < n {
                    let mut st = CoderState::new(s, Default::default(), None);
                    if de(&mut Decoder::new(&mut st, &mut &o[..k])).is_ok() && st.is_finished() {
                        return Err(format!("a value from {} of {} bytes", k, n));
                    }
                }
            }
            Ok(())
        })
    });
    space::report(r, &case, res);
    r.state(|| format!("{} | {}", what, schema_text(s).chars().take(60).collect::<String>()));
    r.transitions.fetch_add(5, std::sync::atomic::Ordering::Relaxed);
}

/// Each by itself, and all in a sequence.
fn plain<T: Serialize + DeserializeOwned + Clone>(r: &Run, what: &str, s: Schema, items: Vec<(T, Value)>, same: fn(&T, &T) -> bool) {
    for (t, v) in &items {
        one(r, what, &s, t.clone(), v, &same);
    }
    let (ts, v): (Vec<T>, Vec<Value>) = items.into_iter().unzip();
    let list = |a: &Vec<T>, b: &Vec<T>| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b));
    one(r, &format!("Vec<{}>", what), &seq(None, s.clone()), ts.clone(), &Value::VarLenSeq(v.clone()), &list);
    one(r, &format!("Vec<{}> as fixed", what), &seq(Some(ts.len()), s.clone()), ts, &Value::FixedLenSeq(v.clone()), &list);
}

/// By itself and in every context.
fn all<T: Serialize + DeserializeOwned + Clone>(r: &Run, what: &str, s: Schema, items: Vec<(T, Value)>, same: fn(&T, &T) -> bool) {
    for (t, v) in &items {
        one(r, what, &s, t.clone(), v, &same);
        one(r, &format!("Option<{}>", what), &option(s.clone()), Some(t.clone()), &vsome(v.clone()), &|a, b| match (a, b) {
            (Some(a), Some(b)) => same(a, b),
            _ => false,
        });
        one(r, &format!("(u8, {0}, {0})", what), &tup(vec![u8s(), s.clone(), s.clone()]), (7u8, t.clone(), t.clone()), &Value::Tuple(vec![vu8(7), v.clone(), v.clone()]), &|a, b| a.0 == b.0 && same(&a.1, &b.1) && same(&a.2, &b.2));
        one(
            r,
            &format!("BTreeMap<u8, {}>", what),
            &seq(None, tup(vec![u8s(), s.clone()])),
            BTreeMap::from([(1u8, t.clone()), (4, t.clone())]),
            &Value::VarLenSeq(vec![Value::Tuple(vec![vu8(1), v.clone()]), Value::Tuple(vec![vu8(4), v.clone()])]),
            &|a, b| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && same(x.1, y.1)),
        );
        #[derive(Serialize, Deserialize, Clone)]
        enum In<T> {
            Nothing,
            New(T),
            Two(T, u8),
            Named { x: T, y: T },
        }
        let e = en(vec![("Nothing", Schema::Unit), ("New", s.clone()), ("Two", tup(vec![s.clone(), u8s()])), ("Named", st(vec![("x", s.clone()), ("y", s.clone())]))]);
        let es = |a: &In<T>, b: &In<T>| match (a, b) {
            (In::Nothing, In::Nothing) => true,
            (In::New(a), In::New(b)) => same(a, b),
            (In::Two(a, x), In::Two(b, y)) => same(a, b) && x == y,
            (In::Named { x: a, y: p }, In::Named { x: b, y: q }) => same(a, b) && same(p, q),
            _ => false,
        };
        let w = format!("enum of {}", what);
        one(r, &w, &e, In::New(t.clone()), &vev(1, "New", v.clone()), &es);
        one(r, &w, &e, In::Two(t.clone(), 9), &vev(2, "Two", Value::Tuple(vec![v.clone(), vu8(9)])), &es);
        one(r, &w, &e, In::Named { x: t.clone(), y: t.clone() }, &vev(3, "Named", vst(vec![("x", v.clone()), ("y", v.clone())])), &es);
        one(r, &w, &e, In::<T>::Nothing, &vev(0, "Nothing", Value::Unit), &es);
    }
    plain(r, what, s, items, same);
}

fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

fn u8s_of(b: &[u8]) -> Vec<Value> {
    b.iter().map(|&x| vu8(x)).collect()
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
#[serde(rename_all = "SCREAMING-KEBAB-CASE")]
struct Renamed {
    first_one: u8,
    #[serde(rename = "été")]
    second: Option<u16>,
    #[serde(rename = "")]
    third: (),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
#[serde(rename_all = "lowercase")]
enum RenamedE {
    FooBar,
    #[serde(rename = "b a r")]
    Bar(u8),
    #[serde(rename_all = "camelCase")]
    Baz { some_thing: u8, r#type: u8 },
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
#[serde(transparent)]
struct Transparent {
    only: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Skipping {
    a: u8,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    b: Option<u16>,
    #[serde(skip)]
    c: u8,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    d: Option<Option<()>>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
enum SkippingE {
    V {
        #[serde(default, skip_serializing_if = "Option::is_none")]
        b: Option<u16>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        c: Option<String>,
    },
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
#[serde(tag = "t", content = "c")]
enum Adjacent {
    A(u8),
    B(u8),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
#[serde(untagged)]
enum Untagged {
    N(u16),
    S(String),
    T(u8, bool),
    L(Vec<u16>),
    O { p: u8, q: Option<u8> },
    U,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct UnitStruct;
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct EmptyTuple();
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct EmptyNamed {}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
enum Empties {
    A,
    B(),
    C {},
    D(()),
    E(UnitStruct, EmptyTuple),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct Tree {
    v: u16,
    kids: Vec<Tree>,
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
enum Chain {
    End,
    Cons(u8, Box<Chain>),
}
#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
#[serde(from = "(u8, u8)", into = "(u8, u8)")]
struct Via(u8, u8);
impl From<(u8, u8)> for Via {
    fn from(x: (u8, u8)) -> Via {
        Via(x.1, x.0)
    }
}
impl From<Via> for (u8, u8) {
    fn from(x: Via) -> (u8, u8) {
        (x.1, x.0)
    }
}

macro_rules! big_enum {
    ($($n:ident)*) => {
        #[derive(Serialize, Deserialize, Clone, Copy, PartialEq, Debug)]
        enum Big { $($n),* }
        const BIG: &[(&str, Big)] = &[$((stringify!($n), Big::$n)),*];
    };
}
// 260 variants
big_enum!(
    A0 A1 A2 A3 A4 A5 A6 A7 A8 A9 B0 B1 B2 B3 B4 B5 B6 B7 B8 B9 C0 C1 C2 C3 C4 C5 C6 C7 C8 C9 D0 D1 D2 D3 D4 D5 D6 D7 D8 D9
    E0 E1 E2 E3 E4 E5 E6 E7 E8 E9 F0 F1 F2 F3 F4 F5 F6 F7 F8 F9 G0 G1 G2 G3 G4 G5 G6 G7 G8 G9 H0 H1 H2 H3 H4 H5 H6 H7 H8 H9
    I0 I1 I2 I3 I4 I5 I6 I7 I8 I9 J0 J1 J2 J3 J4 J5 J6 J7 J8 J9 K0 K1 K2 K3 K4 K5 K6 K7 K8 K9 L0 L1 L2 L3 L4 L5 L6 L7 L8 L9
    M0 M1 M2 M3 M4 M5 M6 M7 M8 M9 N0 N1 N2 N3 N4 N5 N6 N7 N8 N9 O0 O1 O2 O3 O4 O5 O6 O7 O8 O9 P0 P1 P2 P3 P4 P5 P6 P7 P8 P9
    Q0 Q1 Q2 Q3 Q4 Q5 Q6 Q7 Q8 Q9 R0 R1 R2 R3 R4 R5 R6 R7 R8 R9 S0 S1 S2 S3 S4 S5 S6 S7 S8 S9 T0 T1 T2 T3 T4 T5 T6 T7 T8 T9
    U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 W0 W1 W2 W3 W4 W5 W6 W7 W8 W9 X0 X1 X2 X3 X4 X5 X6 X7 X8 X9
    Y0 Y1 Y2 Y3 Y4 Y5 Y6 Y7 Y8 Y9 Z0 Z1 Z2 Z3 Z4 Z5 Z6 Z7 Z8 Z9
);

pub fn run(r: &Run) {
    use ScalarType::*;
    use ScalarValue as V;
    // numbers in other clothes
    macro_rules! nums {
        ($($t:ident $st:ident $nz:ident $at:ident;)*) => {$({
            let vals: Vec<$t> = vec![$t::MIN, $t::MAX, 0, 1, 3, 127 as $t, (200u8) as $t];
            let it = |f: &dyn Fn(&$t) -> bool| -> Vec<($t, Value)> { vals.iter().filter(|x| f(x)).map(|&x| (x, vs(V::$st(x)))).collect() };
            plain(r, stringify!($t), sc($st), it(&|_| true), eq);
            plain(r, stringify!($nz), sc($st), it(&|x| *x != 0).into_iter().map(|(x, v)| ($nz::new(x).unwrap(), v)).collect(), eq);
            for (x, v) in it(&|_| true) { one(r, concat!("Wrapping<", stringify!($t), ">"), &sc($st), Wrapping(x), &v, &eq); }
            for (x, v) in it(&|_| true) { one(r, concat!("Saturating<", stringify!($t), ">"), &sc($st), Saturating(x), &v, &eq); }
            for (x, v) in it(&|_| true) { one(r, concat!("Reverse<", stringify!($t), ">"), &sc($st), Reverse(x), &v, &eq); }
            for (x, v) in it(&|_| true) { one(r, concat!("Cell<", stringify!($t), ">"), &sc($st), Cell::new(x), &v, &eq); }
            for (x, v) in it(&|_| true) { one(r, concat!("RefCell<", stringify!($t), ">"), &sc($st), RefCell::new(x), &v, &eq); }
            nums!(@atomic r it $t $st $at);
        })*};
        (@atomic $r:ident $it:ident $t:ident $st:ident None_) => {};
        (@atomic $r:ident $it:ident $t:ident $st:ident $at:ident) => {
            for (x, v) in $it(&|_| true) {
                one($r, stringify!($at), &sc($st), $at::new(x), &v, &|a, b| a.load(Ordering::Relaxed) == b.load(Ordering::Relaxed));
                one($r, "Mutex", &sc($st), Mutex::new(x), &v, &|a, b| *a.lock().unwrap() == *b.lock().unwrap());
                one($r, "RwLock", &sc($st), RwLock::new(x), &v, &|a, b| *a.read().unwrap() == *b.read().unwrap());
            }
        };
    }
    nums!(
        u8 U8 NonZeroU8 AtomicU8; u16 U16 NonZeroU16 AtomicU16; u32 U32 NonZeroU32 AtomicU32; u64 U64 NonZeroU64 AtomicU64; u128 U128 NonZeroU128 None_;
        i8 I8 NonZeroI8 AtomicI8; i16 I16 NonZeroI16 AtomicI16; i32 I32 NonZeroI32 AtomicI32; i64 I64 NonZeroI64 AtomicI64; i128 I128 NonZeroI128 None_;
    );
    for n in [0usize, 1, 127, 128, 300, 1 << 40, usize::MAX] {
        plain(r, "usize", sc(U64), vec![(n, vs(V::U64(n as u64)))], eq);
        plain(r, "isize", sc(I64), vec![(n as isize, vs(V::I64(n as i64)))], eq);
    }
    // times
    let dur = |s: u64, n: u32| (Duration::new(s, n), vst(vec![("secs", vs(V::U64(s))), ("nanos", vs(V::U32(n)))]));
    all(r, "Duration", st(vec![("secs", sc(U64)), ("nanos", sc(U32))]), vec![dur(0, 0), dur(1, 999_999_999), dur(u64::MAX, 5), dur(300, 128)], eq);
    let sys = |s: u64, n: u32| (SystemTime::UNIX_EPOCH + Duration::new(s, n), vst(vec![("secs_since_epoch", vs(V::U64(s))), ("nanos_since_epoch", vs(V::U32(n)))]));
    plain(r, "SystemTime", st(vec![("secs_since_epoch", sc(U64)), ("nanos_since_epoch", sc(U32))]), vec![sys(0, 0), sys(1 << 33, 1), sys(77, 999_999_999)], eq);
    // addresses
    let s4 = tup(vec![u8s(); 4]);
    let s6 = tup(vec![u8s(); 16]);
    let v4 = |a: [u8; 4]| (Ipv4Addr::from(a), Value::Tuple(u8s_of(&a)));
    let v6 = |a: [u8; 16]| (Ipv6Addr::from(a), Value::Tuple(u8s_of(&a)));
    let (m4, m6) = ([[0; 4], [1, 2, 3, 4], [255; 4]], [[0; 16], [0xff; 16], *b"0123456789abcdef"]);
    plain(r, "Ipv4Addr", s4.clone(), m4.into_iter().map(v4).collect(), eq);
    plain(r, "Ipv4Addr as seq", seq(Some(4), u8s()), m4.into_iter().map(|a| (Ipv4Addr::from(a), Value::FixedLenSeq(u8s_of(&a)))).collect(), eq);
    plain(r, "Ipv6Addr", s6.clone(), m6.into_iter().map(v6).collect(), eq);
    let ip = en(vec![("V4", s4.clone()), ("V6", s6.clone())]);
    let mut ips: Vec<(IpAddr, Value)> = m4.into_iter().map(v4).map(|(a, v)| (a.into(), vev(0, "V4", v))).collect();
    ips.extend(m6.into_iter().map(v6).map(|(a, v)| (IpAddr::from(a), vev(1, "V6", v))));
    all(r, "IpAddr", ip, ips.clone(), eq);
    let (a4, a6) = (tup(vec![s4.clone(), sc(U16)]), tup(vec![s6.clone(), sc(U16)]));
    let port = |p: u16| vs(V::U16(p));
    let socks4: Vec<(SocketAddrV4, Value)> = m4.into_iter().map(v4).zip([0u16, 80, 65535]).map(|((a, v), p)| (SocketAddrV4::new(a, p), Value::Tuple(vec![v, port(p)]))).collect();
    let socks6: Vec<(SocketAddrV6, Value)> = m6.into_iter().map(v6).zip([0u16, 80, 65535]).map(|((a, v), p)| (SocketAddrV6::new(a, p, 0, 0), Value::Tuple(vec![v, port(p)]))).collect();
    plain(r, "SocketAddrV4", a4.clone(), socks4.clone(), eq);
    plain(r, "SocketAddrV6", a6.clone(), socks6.clone(), eq);
    let mut socks: Vec<(SocketAddr, Value)> = socks4.into_iter().map(|(a, v)| (a.into(), vev(0, "V4", v))).collect();
    socks.extend(socks6.into_iter().map(|(a, v)| (SocketAddr::from(a), vev(1, "V6", v))));
    plain(r, "SocketAddr", en(vec![("V4", a4), ("V6", a6)]), socks, eq);
    // enums and structs serde knows
    let res = en(vec![("Ok", u8s()), ("Err", Schema::Str)]);
    all(r, "Result<u8, String>", res, vec![(Ok(3u8), vev(0, "Ok", vu8(3))), (Err("no".to_string()), vev(1, "Err", Value::Str("no".into())))], eq);
    plain(r, "RangeFrom<u8>", st(vec![("start", u8s())]), vec![(3u8.., vst(vec![("start", vu8(3))]))], eq);
    plain(r, "RangeTo<u8>", st(vec![("end", u8s())]), vec![(..3u8, vst(vec![("end", vu8(3))]))], eq);
    plain(r, "Range<i16>", st(vec![("start", sc(I16)), ("end", sc(I16))]), vec![(-3i16..4, vst(vec![("start", vs(V::I16(-3))), ("end", vs(V::I16(4)))]))], eq);
    plain(r, "RangeInclusive<u8>", st(vec![("start", u8s()), ("end", u8s())]), vec![(3u8..=9, vst(vec![("start", vu8(3)), ("end", vu8(9))]))], eq);
    let b = en(vec![("Unbounded", Schema::Unit), ("Included", u8s()), ("Excluded", u8s())]);
    plain(r, "Bound<u8>", b, vec![(Bound::Unbounded, vev(0, "Unbounded", Value::Unit)), (Bound::Included(1u8), vev(1, "Included", vu8(1))), (Bound::Excluded(2), vev(2, "Excluded", vu8(2)))], eq);
    plain(r, "PhantomData", Schema::Unit, vec![(PhantomData::<String>, Value::Unit)], eq);
    plain(r, "()", Schema::Unit, vec![((), Value::Unit)], eq);
    // strings
    let texts = ["", "a", "naïve ☃ \u{10ffff}", "0123456789abcdefghijklmnopqrstuvwxyz"];
    plain(r, "Box<str>", Schema::Str, texts.iter().map(|&t| (Box::<str>::from(t), Value::Str(t.into()))).collect(), eq);
    plain(r, "PathBuf", Schema::Str, texts.iter().map(|&t| (PathBuf::from(t), Value::Str(t.into()))).collect(), eq);
    plain(r, "Cow<str>", Schema::Str, texts.iter().map(|&t| (std::borrow::Cow::<'static, str>::Owned(t.into()), Value::Str(t.into()))).collect(), eq);
    all(r, "CString", Schema::Bytes, texts.iter().map(|&t| (CString::new(t).unwrap(), Value::Bytes(t.into()))).collect(), eq);
    plain(r, "OsString", en(vec![("Unix", seq(None, u8s())), ("Windows", seq(None, sc(U16)))]), texts.iter().map(|&t| (OsString::from(t), vev(0, "Unix", Value::VarLenSeq(u8s_of(t.as_bytes()))))).collect(), eq);
    plain(r, "Box<[u8]>", seq(None, u8s()), texts.iter().map(|&t| (Box::<[u8]>::from(t.as_bytes()), Value::VarLenSeq(u8s_of(t.as_bytes())))).collect(), eq);
    // derived, with serde's attributes
    let rs = st(vec![("FIRST-ONE", u8s()), ("été", option(sc(U16))), ("", Schema::Unit)]);
    let rv = |a: u8, o: Option<u16>| (Renamed { first_one: a, second: o, third: () }, vst(vec![("FIRST-ONE", vu8(a)), ("été", Value::Option(o.map(|x| Box::new(vs(V::U16(x)))))), ("", Value::Unit)]));
    plain(r, "renamed struct", rs, vec![rv(1, None), rv(2, Some(3))], eq);
    let e = en(vec![("foobar", Schema::Unit), ("b a r", u8s()), ("baz", st(vec![("someThing", u8s()), ("type", u8s())]))]);
    all(
        r,
        "renamed enum",
        e,
        vec![
            (RenamedE::FooBar, vev(0, "foobar", Value::Unit)),
            (RenamedE::Bar(1), vev(1, "b a r", vu8(1))),
            (RenamedE::Baz { some_thing: 1, r#type: 2 }, vev(2, "baz", vst(vec![("someThing", vu8(1)), ("type", vu8(2))]))),
        ],
        eq,
    );
    plain(r, "transparent struct", seq(None, u8s()), vec![(Transparent { only: vec![1, 2] }, Value::VarLenSeq(u8s_of(&[1, 2])))], eq);
    let ss = st(vec![("a", u8s()), ("b", option(sc(U16))), ("d", option(option(Schema::Unit)))]);
    let mut sv = Vec::new();
    for b in [None, Some(5u16)] {
        for (d, dv) in [(None, vnone()), (Some(None), vsome(vnone())), (Some(Some(())), vsome(vsome(Value::Unit)))] {
            sv.push((Skipping { a: 1, b, c: 0, d }, vst(vec![("a", vu8(1)), ("b", b.map_or(vnone(), |x| vsome(vs(V::U16(x))))), ("d", dv)])));
        }
    }
    all(r, "struct with skipped fields", ss, sv, eq);
    let ss = en(vec![("V", st(vec![("b", option(sc(U16))), ("c", option(Schema::Str))]))]);
    let mut sv = Vec::new();
    for b in [None, Some(5u16)] {
        for c in [None, Some("x".to_string())] {
            let v = vst(vec![("b", b.map_or(vnone(), |x| vsome(vs(V::U16(x))))), ("c", c.clone().map_or(vnone(), |x| vsome(Value::Str(x))))]);
            sv.push((SkippingE::V { b, c }, vev(0, "V", v)));
        }
    }
    plain(r, "variant with skipped fields", ss, sv, eq);
    let aj = st(vec![("t", en(vec![("A", Schema::Unit), ("B", Schema::Unit)])), ("c", u8s())]);
    let av = |o: usize, t: &str, n| vst(vec![("t", vev(o, t, Value::Unit)), ("c", vu8(n))]);
    all(r, "adjacently tagged enum", aj, vec![(Adjacent::A(3), av(0, "A", 3)), (Adjacent::B(9), av(1, "B", 9))], eq);
    plain(r, "untagged enum, number", sc(U16), vec![(Untagged::N(700), vs(V::U16(700)))], eq);
    plain(r, "untagged enum, string", Schema::Str, vec![(Untagged::S("s".into()), Value::Str("s".into()))], eq);
    plain(r, "untagged enum, tuple", tup(vec![u8s(), sc(Bool)]), vec![(Untagged::T(1, true), Value::Tuple(vec![vu8(1), vs(V::Bool(true))]))], eq);
    plain(r, "untagged enum, seq", seq(None, sc(U16)), vec![(Untagged::L(vec![1, 2, 3]), Value::VarLenSeq(vec![vs(V::U16(1)), vs(V::U16(2)), vs(V::U16(3))])), (Untagged::L(vec![]), Value::VarLenSeq(vec![]))], eq);
    plain(r, "untagged enum, struct", st(vec![("p", u8s()), ("q", option(u8s()))]), vec![(Untagged::O { p: 1, q: Some(2) }, vst(vec![("p", vu8(1)), ("q", vsome(vu8(2)))])), (Untagged::O { p: 1, q: None }, vst(vec![("p", vu8(1)), ("q", vnone())]))], eq);
    one(r, "untagged enum, unit", &Schema::Unit, Untagged::U, &Value::Unit, &eq);
    plain(r, "unit struct", Schema::Unit, vec![(UnitStruct, Value::Unit)], eq);
    plain(r, "empty tuple struct", Schema::Unit, vec![(EmptyTuple(), Value::Unit)], eq);
    plain(r, "empty tuple struct as tuple", tup(vec![]), vec![(EmptyTuple(), Value::Tuple(vec![]))], eq);
    plain(r, "empty tuple struct as sequence of none", seq(Some(0), u8s()), vec![(EmptyTuple(), Value::FixedLenSeq(vec![]))], eq);
    plain(r, "empty struct", st(vec![]), vec![(EmptyNamed {}, vst(vec![]))], eq);
    let es = en(vec![("A", Schema::Unit), ("B", Schema::Unit), ("C", st(vec![])), ("D", Schema::Unit), ("E", tup(vec![Schema::Unit, Schema::Unit]))]);
    all(
        r,
        "empty variants",
        es,
        vec![
            (Empties::A, vev(0, "A", Value::Unit)),
            (Empties::B(), vev(1, "B", Value::Unit)),
            (Empties::C {}, vev(2, "C", vst(vec![]))),
            (Empties::D(()), vev(3, "D", Value::Unit)),
            (Empties::E(UnitStruct, EmptyTuple()), vev(4, "E", Value::Tuple(vec![Value::Unit, Value::Unit]))),
        ],
        eq,
    );
    plain(r, "from/into", tup(vec![u8s(), u8s()]), vec![(Via(1, 2), Value::Tuple(vec![vu8(2), vu8(1)]))], eq);
    // recursive types
    let ts = st(vec![("v", sc(U16)), ("kids", seq(None, Schema::Recurse(2)))]);
    fn tree(depth: usize, width: usize, n: &mut u16) -> (Tree, Value) {
        *n += 1;
        let v = *n;
        let (kids, vals) = (0..if depth == 0 { 0 } else { width }).map(|_| tree(depth - 1, width, n)).unzip();
        (Tree { v, kids }, vst(vec![("v", vs(V::U16(v))), ("kids", Value::VarLenSeq(vals))]))
    }
    all(r, "tree", ts, [(0, 0), (1, 1), (1, 300), (2, 3), (3, 2), (5, 1), (60, 1)].into_iter().map(|(d, w)| tree(d, w, &mut 0)).collect(), eq);
    let cs = en(vec![("End", Schema::Unit), ("Cons", tup(vec![u8s(), Schema::Recurse(2)]))]);
    let chain = |n: usize| (0..n).fold((Chain::End, vev(0, "End", Value::Unit)), |(c, v), i| (Chain::Cons(i as u8, Box::new(c)), vev(1, "Cons", Value::Tuple(vec![vu8(i as u8), v]))));
    plain(r, "chain", cs, [0, 1, 2, 40, 130].into_iter().map(chain).collect(), eq);
    // wide
    let bs = en(BIG.iter().map(|x| (x.0, Schema::Unit)).collect());
    let step = if r.quick() { 37 } else { 1 };
    plain(r, "enum of 260", bs, (0..BIG.len()).filter(|i| i % step == 0 || *i > 250).map(|i| (BIG[i].1, vev(i, BIG[i].0, Value::Unit))).collect(), eq);
    macro_rules! tuples {
        ($($($n:literal)*;)*) => {$({
            let n = [$($n as u8),*].len();
            one(r, &format!("tuple of {}", n), &tup(vec![u8s(); n]), ($($n as u8,)*), &Value::Tuple(vec![$(vu8($n)),*]), &eq);
            one(r, &format!("tuple of {} as sequence", n), &seq(Some(n), u8s()), ($($n as u8,)*), &Value::FixedLenSeq(vec![$(vu8($n)),*]), &eq);
        })*};
    }
    tuples!(0; 0 1; 0 1 2; 0 1 2 3; 0 1 2 3 4; 0 1 2 3 4 5; 0 1 2 3 4 5 6; 0 1 2 3 4 5 6 7; 0 1 2 3 4 5 6 7 8; 0 1 2 3 4 5 6 7 8 9; 0 1 2 3 4 5 6 7 8 9 10; 0 1 2 3 4 5 6 7 8 9 10 11;);
    macro_rules! arrays {
        ($($n:literal)*) => {$({
            let a: [u8; $n] = std::array::from_fn(|i| i as u8);
            plain(r, concat!("array of ", $n), seq(Some($n), u8s()), vec![(a, Value::FixedLenSeq(u8s_of(&a)))], eq);
            plain(r, concat!("array of ", $n, " as tuple"), tup(vec![u8s(); $n]), vec![(a, Value::Tuple(u8s_of(&a)))], eq);
        })*};
    }
    arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 31 32);
    // many elements and entries
    for n in [0u32, 1, 127, 128, 255, 256, 257, 65535, 65536, 65537, 70000] {
        let el = |i: u32| vs(V::U32(i));
        let many = n > 1000;
        let pair = |i: u32| Value::Tuple(vec![el(i), Value::Unit]);
        one(r, &format!("BTreeMap of {}", n), &seq(None, tup(vec![sc(U32), Schema::Unit])), (0..n).map(|i| (i, ())).collect::<BTreeMap<_, _>>(), &Value::VarLenSeq((0..n).map(pair).collect()), &eq);
        one(r, &format!("Vec of {}", n), &seq(None, sc(U32)), (0..n).collect::<Vec<_>>(), &Value::VarLenSeq((0..n).map(el).collect()), &eq);
        one(r, &format!("Vec of {} units", n), &seq(None, Schema::Unit), vec![(); n as usize], &Value::VarLenSeq(vec![Value::Unit; n as usize]), &eq);
        one(r, &format!("BTreeSet of {}", n), &seq(None, sc(U32)), (0..n).collect::<BTreeSet<_>>(), &Value::VarLenSeq((0..n).map(el).collect()), &eq);
        one(r, &format!("VecDeque of {}, fixed", n), &seq(Some(n as usize), sc(U32)), (0..n).collect::<VecDeque<_>>(), &Value::FixedLenSeq((0..n).map(el).collect()), &eq);
        if !many {
            one(r, &format!("maps of {}", n), &seq(None, seq(None, tup(vec![sc(U32), Schema::Str]))), vec![(0..n).map(|i| (i, format!("v{}", i))).collect::<BTreeMap<_, _>>(); 3], &Value::VarLenSeq(vec![Value::VarLenSeq((0..n).map(|i| Value::Tuple(vec![el(i), Value::Str(format!("v{}", i))])).collect()); 3]), &eq);
        }
    }
}
