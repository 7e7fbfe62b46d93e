//! C24: the recursion stack that types declare their schemas with. Every sequence of layers against
//! a list, and every graph of up to three types that follow the protocol against its meaning.
use super::{space, util::*};
use binschema::{KnownSchema, RecurseStack, Schema};
use mcore::{
    refm::{Arena, Kind},
    report::{guard, in_case, kv, par_for, Run},
    text::schema_text,
};
use std::{cell::RefCell, marker::PhantomData, sync::atomic::Ordering::Relaxed};

// ---- layers ----

// types that are nothing like each other, or alike in everything but identity
struct A;
struct B;
struct L<'a>(#[allow(unused)] &'a u8);
struct G<T>(PhantomData<T>);
mod other {
    pub struct A;
}
mod twin {
    use binschema::*;
    pub fn one() -> (fn(RecurseStack<'_>, &mut dyn FnMut(RecurseStack<'_>)), fn(&RecurseStack<'_>) -> Option<usize>) {
        struct Same;
        impl KnownSchema for Same {
            fn schema(_: RecurseStack) -> Schema {
                schema!(u8)
            }
        }
        (|s, f| f(s.with_type_layer::<Same>()), |s| s.find_type::<Same>())
    }
    pub fn two() -> (fn(RecurseStack<'_>, &mut dyn FnMut(RecurseStack<'_>)), fn(&RecurseStack<'_>) -> Option<usize>) {
        struct Same;
        impl KnownSchema for Same {
            fn schema(_: RecurseStack) -> Schema {
                schema!(u8)
            }
        }
        (|s, f| f(s.with_type_layer::<Same>()), |s| s.find_type::<Same>())
    }
}
macro_rules! unit_schema {
    ($($t:ty),*)=>{$(
        impl KnownSchema for $t {
            fn schema(_: RecurseStack) -> Schema {
                Schema::Unit
            }
        }
    )*};
}
unit_schema!(A, B, other::A, L<'_>);
impl<T> KnownSchema for G<T> {
    fn schema(_: RecurseStack) -> Schema {
        Schema::Unit
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Layer {
    Type(usize),
    Newtype(usize),
    None,
}

const TYPES: [&str; 9] = ["A", "B", "other::A", "L", "G<A>", "G<B>", "Vec<A>", "[A]", "str"];

fn push<R>(s: RecurseStack, l: Layer, f: impl FnOnce(RecurseStack) -> R) -> R {
    macro_rules! on {
        ($m:ident, $i:expr) => {
            match $i {
                0 => f(s.$m::<A>()),
                1 => f(s.$m::<B>()),
                2 => f(s.$m::<other::A>()),
                3 => f(s.$m::<L<'_>>()),
                4 => f(s.$m::<G<A>>()),
                5 => f(s.$m::<G<B>>()),
                6 => f(s.$m::<Vec<A>>()),
                7 => f(s.$m::<[A]>()),
                _ => f(s.$m::<str>()),
            }
        };
    }
    match l {
        Layer::Type(i) => on!(with_type_layer, i),
        Layer::Newtype(i) => on!(with_newtype_layer, i),
        Layer::None => f(s.with_none_layer()),
    }
}

/// What can be asked for (a type must be sized for that).
fn find(s: &RecurseStack) -> [(Option<usize>, Option<Schema>); 7] {
    // a lifetime different from the one of the layer
    fn l<'x>(s: &RecurseStack, _: &'x u8) -> (Option<usize>, Option<Schema>) {
        (s.find_type::<L<'x>>(), s.parent_recurse::<L<'x>>())
    }
    let here = 3u8;
    [
        (s.find_type::<A>(), s.parent_recurse::<A>()),
        (s.find_type::<B>(), s.parent_recurse::<B>()),
        (s.find_type::<other::A>(), s.parent_recurse::<other::A>()),
        l(s, &here),
        (s.find_type::<G<A>>(), s.parent_recurse::<G<A>>()),
        (s.find_type::<G<B>>(), s.parent_recurse::<G<B>>()),
        (s.find_type::<Vec<A>>(), s.parent_recurse::<Vec<A>>()),
    ]
}

fn check_stack(s: &RecurseStack, ls: &[Layer]) -> Result<(), String> {
    for (t, (got, rec)) in find(s).into_iter().enumerate() {
        if rec != got.map(|n| Schema::Recurse(n + 1)) {
            return Err(format!("{}: find_type = {:?}, but parent_recurse = {:?}", TYPES[t], got, rec));
        }
        // schema layers above the innermost layer of the type
        let mut above = 0;
        let mut want = None;
        let mut open = false;
        for l in ls.iter().rev() {
            match l {
                Layer::Type(i) if *i == t => {
                    want = Some(above);
                    break;
                }
                Layer::Newtype(i) if *i == t => {
                    // it is the same schema as the layer on top of it; without one, nothing is said
                    open = above == 0;
                    want = Some(above.max(1) - 1);
                    break;
                }
                Layer::Newtype(_) => {}
                _ => above += 1,
            }
        }
        if open {
            if got.is_none() {
                return Err(format!("{} is not found", TYPES[t]));
            }
        } else if got != want {
            return Err(format!("find_type::<{}>() = {:?}, expected {:?}", TYPES[t], got, want));
        }
    }
    let text = format!("{:?} {:#?}", s, s);
    if text != format!("{:?} {:#?}", *s, { *s }) {
        return Err("a copy prints differently".into());
    }
    Ok(())
}

fn check_layers(r: &Run, ls: &[Layer]) {
    fn go(s: RecurseStack, all: &[Layer], n: usize) -> Result<(), String> {
        match all.get(n) {
            None => check_stack(&s, all),
            Some(l) => push(s, *l, |s| go(s, all, n + 1)),
        }
    }
    let case = || vec![kv("kind", "layers"), kv("layers", layers_text(ls))];
    in_case(&case, || {
        let res = guard(|| go(RecurseStack::new(), ls, 0));
        space::report(r, &case, res);
        r.state(|| layers_text(ls));
        r.traces.fetch_add(1, Relaxed);
    })
}

fn layers_text(ls: &[Layer]) -> String {
    ls.iter()
        .map(|l| match l {
            Layer::Type(i) => format!("t{}", i),
            Layer::Newtype(i) => format!("n{}", i),
            Layer::None => "-".into(),
        })
        .collect::<Vec<_>>()
        .join(" ")
}
fn parse_layers(s: &str) -> Vec<Layer> {
    s.split_whitespace()
        .map(|x| match (&x[..1], x[1..].parse()) {
            ("t", Ok(i)) => Layer::Type(i),
            ("n", Ok(i)) => Layer::Newtype(i),
            _ => Layer::None,
        })
        .collect()
}

fn layers(r: &Run) {
    let all: Vec<Layer> = (0..9).flat_map(|i| [Layer::Type(i), Layer::Newtype(i)]).chain([Layer::None]).collect();
    let few = [Layer::Type(0), Layer::Type(1), Layer::Newtype(0), Layer::Newtype(4), Layer::Type(5), Layer::None];
    for (menu, depth) in [(&all[..], r.pick(5u32, 6)), (&few[..], r.pick(8, 10))] {
        for len in 0..=depth {
            let n = menu.len().pow(len);
            par_for(n, |i| {
                let mut x = i;
                let ls: Vec<Layer> = (0..len)
                    .map(|_| {
                        let l = menu[x % menu.len()];
                        x /= menu.len();
                        l
                    })
                    .collect();
                check_layers(r, &ls);
            });
        }
    }
    // long ones, the type at every kind of place
    for n in [50usize, 127, 128, 255, 256, 257, 1000] {
        for l in [Layer::Type(0), Layer::Newtype(0)] {
            for at in [0, 1, n / 2, n - 2, n - 1] {
                for rest in [Layer::None, Layer::Type(1), Layer::Newtype(1)] {
                    let mut ls = vec![rest; n];
                    ls[at] = l;
                    check_layers(r, &ls);
                }
            }
        }
    }
    // equal code, equal names
    let case = || vec![kv("kind", "twins")];
    in_case(&case, || {
        let res = guard(twins);
        space::report(r, &case, res);
    });
}

fn twins() -> Result<(), String> {
    let (p1, f1) = twin::one();
    let (p2, f2) = twin::two();
    let mut res = Ok(());
    p1(RecurseStack::default(), &mut |s| {
        if (f1(&s), f2(&s)) != (Some(0), None) {
            res = Err(format!("under one type, that and another of the same name are found at {:?}", (f1(&s), f2(&s))));
        }
        p2(s, &mut |s| {
            if (f1(&s), f2(&s)) != (Some(1), Some(0)) {
                res = Err(format!("under two types of the same name they are found at {:?}", (f1(&s), f2(&s))));
            }
        });
    });
    res
}

// ---- graphs of types ----

#[derive(Clone, Copy, PartialEq, Debug)]
enum Wrap {
    Direct,
    Opt,
    SeqOpt,
}
/// A field: a number, or another type in some container.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Field {
    U8,
    Ref(Wrap, usize),
}
#[derive(Clone, PartialEq, Debug)]
enum Body {
    Newtype(Field),
    Struct(Vec<Field>),
    Enum(Vec<Field>),
}
impl Body {
    fn text(&self) -> String {
        let f = |f: &Field| match f {
            Field::U8 => "u".to_string(),
            Field::Ref(Wrap::Direct, i) => format!("d{}", i),
            Field::Ref(Wrap::Opt, i) => format!("o{}", i),
            Field::Ref(Wrap::SeqOpt, i) => format!("s{}", i),
        };
        let v = |v: &[Field]| v.iter().map(f).collect::<Vec<_>>().join(",");
        match self {
            Body::Newtype(x) => format!("N:{}", f(x)),
            Body::Struct(x) => format!("S:{}", v(x)),
            Body::Enum(x) => format!("E:{}", v(x)),
        }
    }
    fn parse(s: &str) -> Body {
        let f = |x: &str| match &x[..1] {
            "u" => Field::U8,
            "d" => Field::Ref(Wrap::Direct, x[1..].parse().unwrap()),
            "o" => Field::Ref(Wrap::Opt, x[1..].parse().unwrap()),
            _ => Field::Ref(Wrap::SeqOpt, x[1..].parse().unwrap()),
        };
        let v: Vec<Field> = s[2..].split(',').map(f).collect();
        match &s[..1] {
            "N" => Body::Newtype(v[0]),
            "S" => Body::Struct(v),
            _ => Body::Enum(v),
        }
    }
}

thread_local! {
    static PROGRAM: RefCell<Vec<Body>> = const { RefCell::new(Vec::new()) };
}

/// A type whose definition is looked up in the program; it declares its schema as the derive does.
struct Ty<const N: usize>;

fn of(i: usize, s: RecurseStack) -> Schema {
    match i {
        0 => Ty::<0>::schema(s),
        1 => Ty::<1>::schema(s),
        _ => Ty::<2>::schema(s),
    }
}

fn field(f: Field, s: RecurseStack) -> Schema {
    match f {
        Field::U8 => u8::schema(s),
        Field::Ref(Wrap::Direct, i) => of(i, s),
        Field::Ref(Wrap::Opt, 0) => Option::<Box<Ty<0>>>::schema(s),
        Field::Ref(Wrap::Opt, 1) => Option::<Box<Ty<1>>>::schema(s),
        Field::Ref(Wrap::Opt, _) => Option::<Box<Ty<2>>>::schema(s),
        Field::Ref(Wrap::SeqOpt, 0) => Vec::<Option<Ty<0>>>::schema(s),
        Field::Ref(Wrap::SeqOpt, 1) => Vec::<Option<Ty<1>>>::schema(s),
        Field::Ref(Wrap::SeqOpt, _) => Vec::<Option<Ty<2>>>::schema(s),
    }
}

impl<const N: usize> KnownSchema for Ty<N> {
    fn schema(parent: RecurseStack) -> Schema {
        if let Some(s) = parent.parent_recurse::<Self>() {
            return s;
        }
        let body = PROGRAM.with(|p| p.borrow()[N].clone());
        match body {
            Body::Newtype(f) => field(f, parent.with_newtype_layer::<Self>()),
            Body::Struct(fs) => {
                let stack = parent.with_type_layer::<Self>();
                st(fs.iter().map(|f| ("f", field(*f, stack))).collect())
            }
            Body::Enum(fs) => {
                let stack = parent.with_type_layer::<Self>();
                // the first variant's content is a layer of its own
                en(fs.iter().enumerate().map(|(i, f)| ("v", if i == 0 { Schema::Tuple(vec![field(*f, stack.with_none_layer())]) } else { field(*f, stack) })).collect())
            }
        }
    }
}

/// The node's meaning and the type's meaning are the same tree.
fn same_tree(a: &Arena, n: usize, e: Want, p: &[Body], seen: &mut Vec<(usize, Want)>) -> Result<(), String> {
    let n = a.resolve(n).ok_or("a recurse to nowhere")?;
    // down to a constructor
    let mut e = e;
    loop {
        e = match e {
            Want::Field(Field::Ref(Wrap::Direct, i)) => Want::Type(i),
            Want::Type(i) => match &p[i] {
                Body::Newtype(f) => Want::Field(*f),
                _ => break,
            },
            Want::Opened(Wrap::Direct, i) => Want::Type(i),
            _ => break,
        };
    }
    if seen.contains(&(n, e)) {
        return Ok(());
    }
    seen.push((n, e));
    let bad = || Err(format!("{} where {:?} should be", schema_text(a.nodes[n].schema), e));
    match (&a.nodes[n].kind, e) {
        (Kind::Scalar(binschema::ScalarType::U8), Want::Field(Field::U8)) => Ok(()),
        (Kind::Option(c), Want::Field(Field::Ref(Wrap::Opt, i)) | Want::Opened(Wrap::Opt, i)) => same_tree(a, *c, Want::Type(i), p, seen),
        (Kind::Seq(None, c), Want::Field(Field::Ref(Wrap::SeqOpt, i))) => same_tree(a, *c, Want::Opened(Wrap::Opt, i), p, seen),
        (Kind::Struct(c), Want::Type(i)) => match &p[i] {
            Body::Struct(fs) if fs.len() == c.len() => fs.iter().zip(c).try_for_each(|(f, c)| same_tree(a, c.1, Want::Field(*f), p, seen)),
            _ => bad(),
        },
        (Kind::Enum(c), Want::Type(i)) => match &p[i] {
            Body::Enum(fs) if fs.len() == c.len() => fs.iter().zip(c).enumerate().try_for_each(|(k, (f, c))| {
                let c = match &a.nodes[c.1].kind {
                    Kind::Tuple(x) if k == 0 && x.len() == 1 => x[0],
                    _ if k == 0 => return bad(),
                    _ => c.1,
                };
                same_tree(a, c, Want::Field(*f), p, seen)
            }),
            _ => bad(),
        },
        _ => bad(),
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Type(usize),
    Field(Field),
    /// inside the outer container
    Opened(Wrap, usize),
}

/// A type that is itself through newtypes alone means nothing.
fn grounded(p: &[Body]) -> bool {
    (0..p.len()).all(|mut i| {
        for _ in 0..=p.len() {
            match &p[i] {
                Body::Newtype(Field::Ref(Wrap::Direct, k)) => i = *k,
                _ => return true,
            }
        }
        false
    })
}

fn check_program(r: &Run, p: &[Body]) {
    let case = || vec![kv("kind", "types"), kv("types", p.iter().map(|b| b.text()).collect::<Vec<_>>().join(" "))];
    in_case(&case, || {
        PROGRAM.with(|x| *x.borrow_mut() = p.to_vec());
        let res = guard(|| -> Result<(), String> {
            for root in 0..p.len() {
                let s = of(root, RecurseStack::new());
                let a = Arena::new(&s);
                same_tree(&a, 0, Want::Type(root), p, &mut Vec::new()).map_err(|e| format!("the schema of type {} is {}: {}", root, schema_text(&s), e))?;
                // below types that have nothing to do with it
                let base = RecurseStack::new();
                let l = base.with_none_layer();
                let l = l.with_type_layer::<A>();
                let l = l.with_newtype_layer::<B>();
                if of(root, l) != s {
                    return Err(format!("the schema of type {} is {}, but below other types {}", root, schema_text(&s), schema_text(&of(root, l))));
                }
            }
            Ok(())
        });
        space::report(r, &case, res);
        r.state(|| p.iter().map(|b| b.text()).collect::<Vec<_>>().join(" "));
        r.transitions.fetch_add(2 * p.len() as u64, Relaxed);
        r.traces.fetch_add(1, Relaxed);
    })
}

fn bodies(types: usize, wraps: &[Wrap], one: bool, two: bool, enums: bool) -> Vec<Body> {
    let fields: Vec<Field> = [Field::U8].into_iter().chain((0..types).flat_map(|i| wraps.iter().map(move |w| Field::Ref(*w, i)))).collect();
    let mut o: Vec<Body> = fields.iter().map(|f| Body::Newtype(*f)).collect();
    if one {
        o.extend(fields.iter().map(|f| Body::Struct(vec![*f])));
        o.extend(fields.iter().map(|f| Body::Enum(vec![*f])));
    }
    if two {
        for a in &fields {
            for b in &fields {
                o.push(Body::Struct(vec![*a, *b]));
                if enums {
                    o.push(Body::Enum(vec![*a, *b]));
                }
            }
        }
    }
    o
}

fn programs(r: &Run) {
    let all = [Wrap::Direct, Wrap::Opt, Wrap::SeqOpt];
    let mut sets = vec![(1, bodies(1, &all, true, true, true)), (2, bodies(2, &all, true, true, true)), (3, bodies(3, &all, true, false, false))];
    sets.push(if r.quick() { (3, bodies(3, &all[..2], true, true, true)) } else { (3, bodies(3, &all, true, true, true)) });
    for (n, b) in sets {
        let mut x = 0u64;
        par_for(b.len().pow(n as u32), |i| {
            let mut k = i;
            let p: Vec<Body> = (0..n)
                .map(|_| {
                    let x = b[k % b.len()].clone();
                    k /= b.len();
                    x
                })
                .collect();
            if grounded(&p) {
                check_program(r, &p);
            }
        });
        x += b.len().pow(n as u32) as u64;
        r.count("graphs of types (also ones through newtypes alone, left out)", x);
    }
}

pub fn c24(r: &Run) {
    r.rule("a state is a sequence of layers (every type looked for, expected by a list) or a set of up to three types with fields that lead to each other (the schema of each, unfolded, is the tree of the types, unfolded) or a container, or one in another, that types lead back to themselves through");
    layers(r);
    programs(r);
    super::c24_containers::all(r);
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    match get(kvs, "kind") {
        "layers" => check_layers(r, &parse_layers(get(kvs, "layers"))),
        "twins" => {
            let case = || vec![kv("kind", "twins")];
            let res = guard(twins);
            space::report(r, &case, res);
        }
        "containers" => super::c24_containers::replay(r, get(kvs, "containers")),
        _ => check_program(r, &get(kvs, "types").split(' ').map(Body::parse).collect::<Vec<_>>()),
    }
}
