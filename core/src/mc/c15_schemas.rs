//! C15, C20: schemas as data and as text.
use super::{space, util::*};
use binschema::{
    value::{ScalarValue, Value},
    CoderState, Decoder, Encoder, EnumSchemaVariant, KnownSchema, ScalarType, Schema, SeqSchema, StructSchemaField,
};
use mcore::{
    gen::{schemas_upto, vcfg, SchemaCfg, Values},
    refm::{self, Arena, Cur, RErr},
    report::{guard, in_case, kv, par_for, Run},
    text::{hex, parse_schema, schema_text, unhex, SCALARS},
};
use serde::{Deserialize, Serialize};
use std::sync::atomic::Ordering::Relaxed;

const SCALAR_NAMES: [&str; 14] = ["U8", "U16", "U32", "U64", "U128", "I8", "I16", "I32", "I64", "I128", "F32", "F64", "Char", "Bool"];

/// FORMAT.txt, "the meta-schema".
pub fn meta() -> Schema {
    let u64s = Schema::Scalar(ScalarType::U64);
    let named = || seq(None, st(vec![("name", Schema::Str), ("inner", Schema::Recurse(3))]));
    en(vec![
        ("Scalar", en(SCALAR_NAMES.iter().map(|n| (*n, Schema::Unit)).collect())),
        ("Str", Schema::Unit),
        ("Bytes", Schema::Unit),
        ("Unit", Schema::Unit),
        ("Option", Schema::Recurse(1)),
        ("Seq", st(vec![("len", option(u64s.clone())), ("inner", Schema::Recurse(2))])),
        ("Tuple", seq(None, Schema::Recurse(2))),
        ("Struct", named()),
        ("Enum", named()),
        ("Recurse", u64s),
    ])
}

/// A schema as a value of the meta-schema.
pub fn to_value(s: &Schema) -> Value {
    let u = |n: usize| Value::Scalar(ScalarValue::U64(n as u64));
    let named = |v: Vec<(&str, &Schema)>| Value::VarLenSeq(v.into_iter().map(|(n, s)| vst(vec![("name", Value::Str(n.into())), ("inner", to_value(s))])).collect());
    match s {
        Schema::Scalar(t) => {
            let i = SCALARS.iter().position(|x| x.0 == *t).unwrap();
            vev(0, "Scalar", vev(i, SCALAR_NAMES[i], Value::Unit))
        }
        Schema::Str => vev(1, "Str", Value::Unit),
        Schema::Bytes => vev(2, "Bytes", Value::Unit),
        Schema::Unit => vev(3, "Unit", Value::Unit),
        Schema::Option(i) => vev(4, "Option", to_value(i)),
        Schema::Seq(q) => vev(5, "Seq", vst(vec![("len", Value::Option(q.len.map(|n| Box::new(u(n))))), ("inner", to_value(&q.inner))])),
        Schema::Tuple(v) => vev(6, "Tuple", Value::VarLenSeq(v.iter().map(to_value).collect())),
        Schema::Struct(v) => vev(7, "Struct", named(v.iter().map(|f| (f.name.as_str(), &f.inner)).collect())),
        Schema::Enum(v) => vev(8, "Enum", named(v.iter().map(|f| (f.name.as_str(), &f.inner)).collect())),
        Schema::Recurse(n) => vev(9, "Recurse", u(*n)),
    }
}

fn from_value(v: &Value) -> Schema {
    let e = match v {
        Value::Enum(e) => e,
        _ => panic!(),
    };
    let num = |v: &Value| match v {
        Value::Scalar(ScalarValue::U64(n)) => *n as usize,
        _ => panic!(),
    };
    let field = |v: &Value, i: usize| match v {
        Value::Struct(f) => f[i].value.clone(),
        _ => panic!(),
    };
    let list = |v: &Value| match v {
        Value::VarLenSeq(x) => x.clone(),
        _ => panic!(),
    };
    let name = |v: &Value| match field(v, 0) {
        Value::Str(s) => s,
        _ => panic!(),
    };
    match e.variant_ord {
        0 => match &*e.value {
            Value::Enum(x) => Schema::Scalar(SCALARS[x.variant_ord].0),
            _ => panic!(),
        },
        1 => Schema::Str,
        2 => Schema::Bytes,
        3 => Schema::Unit,
        4 => option(from_value(&e.value)),
        5 => Schema::Seq(SeqSchema {
            len: match field(&e.value, 0) {
                Value::Option(n) => n.map(|n| num(&n)),
                _ => panic!(),
            },
            inner: Box::new(from_value(&field(&e.value, 1))),
        }),
        6 => Schema::Tuple(list(&e.value).iter().map(from_value).collect()),
        7 => Schema::Struct(list(&e.value).iter().map(|f| StructSchemaField { name: name(f), inner: from_value(&field(f, 1)) }).collect()),
        8 => Schema::Enum(list(&e.value).iter().map(|f| EnumSchemaVariant { name: name(f), inner: from_value(&field(f, 1)) }).collect()),
        _ => Schema::Recurse(num(&e.value)),
    }
}

fn read_schema(m: &Schema, b: &[u8]) -> (Result<Schema, binschema::error::Error>, usize, bool) {
    let mut st = CoderState::new(m, Default::default(), None);
    let mut rd = b;
    let res = Schema::deserialize(&mut Decoder::new(&mut st, &mut rd));
    (res, b.len() - rd.len(), st.is_finished())
}

fn check_schema(r: &Run, m: &Schema, s: &Schema) {
    let case = || vec![kv("kind", "schema"), kv("schema", schema_text(s))];
    in_case(&case, || {
        let v = to_value(s);
        let want = ref_bytes(m, &v).expect("conforms to the meta-schema");
        let res = guard(|| -> Result<(), String> {
            let mut st = CoderState::new(m, Default::default(), None);
            let mut o = Vec::new();
            s.serialize(&mut Encoder::new(&mut st, &mut o)).map_err(|e| format!("serializing the schema fails with {}", err_brief(&e)))?;
            if o != want || !st.is_finished() {
                return Err(format!("the schema serializes to {}, FORMAT.txt prescribes {} (finished = {})", hex(&o), hex(&want), st.is_finished()));
            }
            let mut b = want.clone();
            b.extend_from_slice(&[0xfe, 0, 9]);
            let (res, used, fin) = read_schema(m, &b);
            let back = res.map_err(|e| format!("deserializing the schema fails with {}", err_brief(&e)))?;
            if &back != s {
                return Err(format!("deserializes to another schema: {}", schema_text(&back)));
            }
            if used != want.len() || !fin {
                return Err(format!("{} of {} bytes consumed, finished = {}", used, want.len(), fin));
            }
            // as a dynamic value
            let dynamic = encode_vec(m, &v)?;
            if dynamic != want {
                return Err("the dynamic value encodes differently".into());
            }
            // what went through bytes codes like the original
            let a = Arena::new(s);
            if a.legal() && refm_small(s) {
                let (vals, _) = Values::new(&a, vcfg(false, 2)).upto(0, 5, 6);
                for x in vals {
                    let p = encode_vec(&back, &x)?;
                    if Some(&p) != ref_bytes(s, &x).as_ref() {
                        return Err("the schema that went through bytes encodes differently".into());
                    }
                    let (d, _) = decode_slice(s, &p)?;
                    if !matches!(d.res, Ok(y) if refm::same(&y, &x)) {
                        return Err("a message of the schema that went through bytes does not decode under the original".into());
                    }
                }
            }
            Ok(())
        });
        space::report(r, &case, res);
        r.state(|| format!("{} -> {}", schema_text(s), hex(&want)));
        r.transitions.fetch_add(3, Relaxed);
        r.traces.fetch_add(3, Relaxed);
    })
}

fn refm_small(s: &Schema) -> bool {
    mcore::gen::size_of_schema(s) <= 6
}

enum V {
    Extend,
    Done,
}

fn check_meta_bytes(r: &Run, m: &Schema, a: &Arena, b: &[u8]) -> V {
    let case = || vec![kv("kind", "bytes"), kv("bytes", hex(b))];
    in_case(&case, || {
        let mut c = Cur::new(b);
        let want = refm::decode(a, 0, &mut c);
        let res = guard(|| -> Result<(), String> {
            let (res, used, fin) = read_schema(m, b);
            match (&want, res) {
                (Ok(v), Ok(s)) => {
                    let w = from_value(v);
                    if s != w {
                        return Err(format!("read as {}, expected {}", schema_text(&s), schema_text(&w)));
                    }
                    if used != c.pos || !fin {
                        return Err(format!("consumed {} of {} bytes, finished = {}", used, c.pos, fin));
                    }
                    Ok(())
                }
                (Ok(v), Err(e)) => Err(format!("the message of schema {} is refused with {}", schema_text(&from_value(v)), err_brief(&e))),
                (Err(e), Ok(s)) => Err(format!("no valid message of the meta-schema ({:?}), but read as {}", e, schema_text(&s))),
                (Err(_), Err(_)) if fin => Err("failed, but the coder reports finished".into()),
                (Err(_), Err(_)) => Ok(()),
            }
        });
        space::report(r, &case, res);
        r.state(|| format!("bytes {} -> {:?}", hex(b), want.as_ref().map(|v| schema_text(&from_value(v)))));
        r.transitions.fetch_add(1, Relaxed);
        r.traces.fetch_add(1, Relaxed);
        if matches!(want, Err(RErr::Eof)) { V::Extend } else { V::Done }
    })
}

fn explore_meta(r: &Run, m: &Schema, alpha: &[u8], depth: usize, budget: usize) -> usize {
    let a = Arena::new(m);
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    for d in 0..=depth {
        let ext: Vec<std::sync::Mutex<Vec<Vec<u8>>>> = (0..64).map(|_| Default::default()).collect();
        par_for(64, |t| {
            let mut o = Vec::new();
            for b in level.iter().skip(t).step_by(64) {
                if let V::Extend = check_meta_bytes(r, m, &a, b) {
                    o.push(b.clone());
                }
            }
            *ext[t].lock().unwrap() = o;
        });
        let next: Vec<Vec<u8>> = ext.into_iter().flat_map(|x| x.into_inner().unwrap()).collect();
        if d == depth || next.is_empty() || next.len() * alpha.len() > budget {
            return d;
        }
        level = next
            .into_iter()
            .flat_map(|b| {
                alpha.iter().map(move |&x| {
                    let mut n = b.clone();
                    n.push(x);
                    n
                })
            })
            .collect();
    }
    depth
}

/// Schemas with odd names, numbers, widths and depths.
fn odd_schemas(r: &Run) -> Vec<Schema> {
    let mut o = super::c05_machine::curated();
    for n in [0usize, 1, 127, 128, 255, 256, 16383, 16384, 1 << 32, usize::MAX - 1, usize::MAX] {
        o.push(Schema::Recurse(n));
        o.push(seq(Some(n), Schema::Unit));
        o.push(option(Schema::Recurse(n)));
        o.push(st(vec![("a", seq(Some(n), Schema::Recurse(n)))]));
    }
    for name in ["", " ", "\"", "ß", "a\nb", "\0", "😀", "r#type", "name = \"x\"):", "\\", "<--\\", "|", "- u8", "{}", "'"] {
        o.push(st(vec![(name, u8s()), ("z", Schema::Unit)]));
        o.push(en(vec![("z", Schema::Unit), (name, u8s())]));
        o.push(st(vec![(name, option(Schema::Recurse(2))), ("z", en(vec![(name, Schema::Recurse(1)), ("w", Schema::Recurse(2))]))]));
    }
    let long = "n".repeat(300);
    o.push(st(vec![(&long, Schema::Recurse(1))]));
    for n in [9usize, 10, 11, 100, 127, 128, 256, 257, r.pick(1000, 3000)] {
        o.push(Schema::Tuple((0..n).map(|i| if i % 2 == 0 { u8s() } else { Schema::Recurse(1) }).collect()));
        o.push(Schema::Struct((0..n).map(|i| StructSchemaField { name: format!("f{}", i), inner: if i % 7 == 6 { Schema::Recurse(1) } else { Schema::Str } }).collect()));
        o.push(Schema::Enum((0..n).map(|i| EnumSchemaVariant { name: format!("v{}", i), inner: if i % 5 == 4 { Schema::Recurse(2) } else { Schema::Bytes } }).collect()));
    }
    for d in [2usize, 3, 5, 8, 13, 40, 100] {
        for back in [1, 2, d / 2, d - 1, d, d + 1] {
            let mut s = Schema::Recurse(back);
            for i in 0..d {
                s = match i % 4 {
                    0 => option(s),
                    1 => Schema::Tuple(vec![Schema::Recurse(i % 5), s, Schema::Recurse(1)]),
                    2 => seq(if i % 3 == 0 { None } else { Some(i) }, s),
                    _ => en(vec![("one", s), ("two", Schema::Recurse(2))]),
                };
            }
            o.push(s);
        }
    }
    o.push(meta());
    o
}

fn universe(r: &Run) -> Vec<Schema> {
    let mut u = odd_schemas(r);
    let odd = u.len();
    u.extend(schemas_upto(&SchemaCfg::small(), r.pick(5, 6)));
    u.extend(schemas_upto(&SchemaCfg::illegal(), r.pick(4, 5)).into_iter().filter(|s| !Arena::new(s).legal()));
    let lean = SchemaCfg { leaves: vec![Schema::Bytes], seq_lens: vec![None], widths: vec![1, 2], illegal_recurse: 1, ..SchemaCfg::small() };
    u.extend(schemas_upto(&lean, r.pick(6, 7)).into_iter().filter(|s| mcore::gen::size_of_schema(s) > 4));
    r.note("schema universe", format!("{} schemas: {} with odd names, numbers, widths, depths; all of <= {} nodes (legal); all of <= {} nodes with illegal recurses; all of <= {} nodes over one leaf with recurses of every level to one beyond the root", u.len(), odd, r.pick(5, 6), r.pick(4, 5), r.pick(6, 7)));
    u
}

pub fn c15(r: &Run) {
    r.rule("a state is a schema (legal or not), serialized and deserialized under the declared meta-schema and compared with FORMAT.txt; or a byte string over an alphabet, extended while the reference misses bytes, decoded as a schema");
    let declared = Schema::schema(Default::default());
    let m = meta();
    {
        let case = || vec![kv("kind", "meta")];
        if declared != m {
            r.fail(&case, &format!("the schema declared for schemas is {}, FORMAT.txt prints {}", schema_text(&declared), schema_text(&m)));
        }
        let v: Schema = Vec::<Schema>::schema(Default::default());
        if v != seq(None, m.clone()) {
            r.fail(&case, &format!("the schema of a sequence of schemas is {}", schema_text(&v)));
        }
    }
    let u = universe(r);
    par_for(u.len(), |i| check_schema(r, &declared, &u[i]));
    let all: Vec<u8> = (0..=255).collect();
    let d = explore_meta(r, &declared, &all, 3, r.pick(1_000_000, 10_000_000));
    r.note("all bytes", format!("to length {}", d));
    let d = explore_meta(r, &declared, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 0x61, 0x80, 0xff], 9, r.pick(2_000_000, 30_000_000));
    r.note("16 bytes", format!("to length {}", d));
    let d = explore_meta(r, &declared, &[0, 1, 4, 5, 6, 8, 9, 0x80], 14, r.pick(2_000_000, 30_000_000));
    r.note("8 bytes", format!("to length {}", d));
    // one byte changed, dropped or doubled in a message
    let few: Vec<&Schema> = u.iter().filter(|s| mcore::gen::size_of_schema(s) <= r.pick(4, 5)).step_by(r.pick(7, 3)).collect();
    let a = Arena::new(&declared);
    par_for(few.len(), |i| {
        let b = ref_bytes(&m, &to_value(few[i])).unwrap();
        for at in 0..b.len() {
            for x in [0u8, 1, 2, 9, 10, 0x7f, 0x80, 0xff, b[at] ^ 1, b[at].wrapping_add(1)] {
                let mut c = b.clone();
                c[at] = x;
                check_meta_bytes(r, &declared, &a, &c);
            }
            let mut c = b.clone();
            c.remove(at);
            check_meta_bytes(r, &declared, &a, &c);
            check_meta_bytes(r, &declared, &a, &b[..at]);
        }
    });
    r.count("schemas", u.len() as u64);
}

// ---- C20 ----

struct Printed {
    line: usize,
    parent: Option<usize>,
    level: Option<usize>,
    beyond: bool,
}

struct P<'t> {
    lines: Vec<&'t str>,
    /// end of the content of each line, in bytes
    ends: Vec<usize>,
    at: usize,
    nodes: Vec<Printed>,
}

fn eat<'a>(s: &'a str, p: &str) -> Option<&'a str> {
    s.strip_prefix(p)
}
fn number(s: &str) -> Option<(usize, &str)> {
    let n = s.bytes().take_while(|b| b.is_ascii_digit()).count();
    Some((s[..n].parse().ok()?, &s[n..]))
}
/// A string literal as `{:?}` writes it.
fn literal(s: &str) -> Option<(String, &str)> {
    let mut it = s.char_indices();
    if it.next()?.1 != '"' {
        return None;
    }
    let mut o = String::new();
    loop {
        let (i, c) = it.next()?;
        match c {
            '"' => return Some((o, &s[i + 1..])),
            '\\' => match it.next()?.1 {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                '0' => o.push('\0'),
                'u' => {
                    if it.next()?.1 != '{' {
                        return None;
                    }
                    let mut x = 0u32;
                    loop {
                        let c = it.next()?.1;
                        if c == '}' {
                            break;
                        }
                        x = x * 16 + c.to_digit(16)?;
                    }
                    o.push(char::from_u32(x)?);
                }
                c => o.push(c),
            },
            c => o.push(c),
        }
    }
}

impl<'t> P<'t> {
    fn take(&mut self, indent: usize, head: &str) -> Result<&'t str, String> {
        let l = *self.lines.get(self.at).ok_or("the text ends too early")?;
        let pre = format!("{}{}", " ".repeat(4 * indent), head);
        let rest = eat(l, &pre).ok_or_else(|| format!("line {} does not begin with {:?}: {:?}", self.at, pre, l))?;
        self.at += 1;
        Ok(rest)
    }
    fn done(&mut self, rest: &str) -> Result<(), String> {
        let i = self.at - 1;
        if !rest.chars().all(|c| " <-\\|/".contains(c)) {
            return Err(format!("line {} has a strange tail {:?}", i, rest));
        }
        if !rest.is_empty() && !rest.starts_with(' ') {
            return Err(format!("line {}: no space after the node: {:?}", i, self.lines[i]));
        }
        self.ends.push(self.lines[i].len() - rest.len());
        Ok(())
    }
    fn node(&mut self, indent: usize, parent: Option<usize>) -> Result<Schema, String> {
        let id = self.nodes.len();
        self.nodes.push(Printed { line: self.at, parent, level: None, beyond: false });
        let me = Some(id);
        let rest = self.take(indent, "- ")?;
        // longer names first
        for (name, len) in [("u128", 0), ("i128", 0), ("u16", 0), ("u32", 0), ("u64", 0), ("i16", 0), ("i32", 0), ("i64", 0), ("f32", 0), ("f64", 0), ("char", 0), ("bool", 0), ("u8", 0), ("i8", 0)] {
            let _: i32 = len;
            if let Some(x) = eat(rest, name) {
                self.done(x)?;
                return Ok(Schema::Scalar(SCALARS.iter().find(|s| s.1 == name).unwrap().0));
            }
        }
        if let Some(x) = eat(rest, "struct") {
            self.done(x)?;
            return Ok(Schema::Struct(self.named(indent, "field", me)?.into_iter().map(|(name, inner)| StructSchemaField { name, inner }).collect()));
        }
        if let Some(x) = eat(rest, "str") {
            self.done(x)?;
            return Ok(Schema::Str);
        }
        if let Some(x) = eat(rest, "bytes") {
            self.done(x)?;
            return Ok(Schema::Bytes);
        }
        if let Some(x) = eat(rest, "unit") {
            self.done(x)?;
            return Ok(Schema::Unit);
        }
        if let Some(x) = eat(rest, "option:") {
            self.done(x)?;
            return Ok(option(self.node(indent + 1, me)?));
        }
        if let Some(x) = eat(rest, "seq (variable length):") {
            self.done(x)?;
            return Ok(seq(None, self.node(indent + 1, me)?));
        }
        if let Some(x) = eat(rest, "seq (length = ") {
            let (n, x) = number(x).ok_or("no length")?;
            let x = eat(x, "):").ok_or("no ) after the length")?;
            self.done(x)?;
            return Ok(seq(Some(n), self.node(indent + 1, me)?));
        }
        if let Some(x) = eat(rest, "tuple") {
            self.done(x)?;
            let mut o = Vec::new();
            loop {
                let pre = format!("{}  element ", " ".repeat(4 * indent));
                if !self.lines.get(self.at).map_or(false, |l| l.starts_with(&pre)) {
                    return Ok(Schema::Tuple(o));
                }
                let x = self.take(indent, &format!("  element {}:", o.len()))?;
                self.done(x)?;
                o.push(self.node(indent + 1, me)?);
            }
        }
        if let Some(x) = eat(rest, "enum") {
            self.done(x)?;
            return Ok(Schema::Enum(self.named(indent, "variant", me)?.into_iter().map(|(name, inner)| EnumSchemaVariant { name, inner }).collect()));
        }
        if let Some(x) = eat(rest, "recurse (level = ") {
            let (n, x) = number(x).ok_or("no level")?;
            let x = eat(x, ")").ok_or("no ) after the level")?;
            self.nodes[id].level = Some(n);
            let x = match eat(x, " --> [beyond root]") {
                Some(y) => {
                    self.nodes[id].beyond = true;
                    y
                }
                None => x,
            };
            self.done(x)?;
            return Ok(Schema::Recurse(n));
        }
        Err(format!("line {} is no schema node: {:?}", self.at - 1, rest))
    }
    fn named(&mut self, indent: usize, what: &str, me: Option<usize>) -> Result<Vec<(String, Schema)>, String> {
        let mut o = Vec::new();
        loop {
            let pre = format!("{}  {} ", " ".repeat(4 * indent), what);
            if !self.lines.get(self.at).map_or(false, |l| l.starts_with(&pre)) {
                return Ok(o);
            }
            let x = self.take(indent, &format!("  {} {} (name = ", what, o.len()))?;
            let (name, x) = literal(x).ok_or_else(|| format!("no name in line {}", self.at - 1))?;
            let x = eat(x, "):").ok_or("no ): after the name")?;
            self.done(x)?;
            o.push((name, self.node(indent + 1, me)?));
        }
    }

    /// Follow the arrow of every recurse. `chars`: columns are characters, else bytes.
    fn arrows(&self, chars: bool) -> Result<(), String> {
        let grid: Vec<Vec<char>> = self
            .lines
            .iter()
            .map(|l| if chars { l.chars().collect() } else { l.bytes().map(|b| if b < 128 { b as char } else { '?' }).collect() })
            .collect();
        let ends: Vec<usize> = (0..self.lines.len()).map(|i| if chars { self.lines[i][..self.ends[i]].chars().count() } else { self.ends[i] }).collect();
        let mut used: Vec<Vec<bool>> = grid.iter().map(|l| vec![false; l.len()]).collect();
        let at = |l: usize, c: usize| grid[l].get(c).copied().unwrap_or(' ');
        for (i, n) in self.nodes.iter().enumerate() {
            let level = match n.level {
                Some(l) => l,
                None => continue,
            };
            // the node it means
            let mut target = Some(i);
            for _ in 0..level {
                match target {
                    Some(t) => target = self.nodes[t].parent,
                    None => break,
                }
            }
            if level == 0 {
                continue;
            }
            match target {
                None => {
                    if !n.beyond {
                        return Err(format!("line {}: a recurse beyond the root is not marked", n.line));
                    }
                    continue;
                }
                Some(_) if n.beyond => return Err(format!("line {}: a recurse within the tree is marked as beyond the root", n.line)),
                Some(t) => {
                    let want = self.nodes[t].line;
                    // right along the dashes
                    let mut c = ends[n.line];
                    if at(n.line, c) != ' ' || at(n.line, c + 1) != '-' {
                        return Err(format!("line {}: no arrow leaves the recurse", n.line));
                    }
                    c += 1;
                    while at(n.line, c) == '-' {
                        used[n.line][c] = true;
                        c += 1;
                    }
                    if at(n.line, c) != '/' {
                        return Err(format!("line {}: the arrow ends in the air", n.line));
                    }
                    used[n.line][c] = true;
                    // up along the bar
                    let mut l = n.line;
                    loop {
                        if l == 0 {
                            return Err(format!("line {}: the arrow leaves the top", n.line));
                        }
                        l -= 1;
                        match at(l, c) {
                            '|' if c >= ends[l] => used[l][c] = true,
                            '\\' if c >= ends[l] => {
                                used[l][c] = true;
                                break;
                            }
                            x => return Err(format!("line {}: the arrow breaks off at line {} ({:?})", n.line, l, x)),
                        }
                    }
                    // left to the tip
                    let mut k = c;
                    loop {
                        if k == 0 || k <= ends[l] {
                            return Err(format!("line {}: the arrow has no tip at line {}", n.line, l));
                        }
                        k -= 1;
                        match at(l, k) {
                            // '|': the bar of an arrow that passes this line
                            '-' | '\\' | '|' => used[l][k] = true,
                            '<' => {
                                used[l][k] = true;
                                break;
                            }
                            x => return Err(format!("line {}: the arrow is interrupted at line {} ({:?})", n.line, l, x)),
                        }
                    }
                    if k != ends[l] + 1 {
                        return Err(format!("line {}: the tip at line {} does not touch the node", n.line, l));
                    }
                    if l != want {
                        return Err(format!("line {}: the arrow points at line {}, the recurse refers to line {}", n.line, l, want));
                    }
                }
            }
        }
        for l in 0..grid.len() {
            for c in ends[l]..grid[l].len() {
                if grid[l][c] != ' ' && !used[l][c] {
                    return Err(format!("line {}: stray {:?}", l, grid[l][c]));
                }
            }
        }
        Ok(())
    }
}

fn check_print(r: &Run, s: &Schema) {
    let case = || vec![kv("kind", "print"), kv("schema", schema_text(s))];
    in_case(&case, || {
        let res = guard(|| -> Result<(), String> {
            let text = s.pretty_fmt();
            let all = || text.lines().take(12).collect::<Vec<_>>().join(" / ");
            let mut p = P { lines: text.split('\n').collect(), ends: vec![], at: 0, nodes: vec![] };
            let back = p.node(0, None).map_err(|e| format!("{}: {}", e, all()))?;
            if p.at != p.lines.len() {
                return Err(format!("text after the tree at line {}: {}", p.at, all()));
            }
            if &back != s {
                return Err(format!("the text shows {}: {}", schema_text(&back), all()));
            }
            if let Err(e) = p.arrows(false) {
                if p.arrows(true).is_err() {
                    return Err(format!("{}: {}", e, all()));
                }
            }
            r.count("recurses followed", p.nodes.iter().filter(|n| n.level.is_some()).count() as u64);
            Ok(())
        });
        space::report(r, &case, res);
        r.state(|| schema_text(s));
        r.transitions.fetch_add(1, Relaxed);
        r.traces.fetch_add(1, Relaxed);
    })
}

pub fn c20(r: &Run) {
    r.rule("a state is a schema (legal or not); its printed text is parsed back and must give the same schema, every arrow is followed cell by cell to its tip, no stray cell remains");
    let mut u = universe(r);
    u.extend(schemas_upto(&SchemaCfg { leaves: vec![u8s()], seq_lens: vec![Some(12)], widths: vec![0, 1, 2, 3], illegal_recurse: 1, ..SchemaCfg::small() }, r.pick(6, 6)));
    // nodes whose lines are longer than those of everything below them
    u.extend(schemas_upto(&SchemaCfg { leaves: vec![u8s()], seq_lens: vec![Some(usize::MAX), None], widths: vec![1, 2], illegal_recurse: 0, ..SchemaCfg::small() }, r.pick(6, 7)));
    par_for(u.len(), |i| check_print(r, &u[i]));
    r.count("schemas", u.len() as u64);
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    let declared = Schema::schema(Default::default());
    match get(kvs, "kind") {
        "schema" => check_schema(r, &declared, &parse_schema(get(kvs, "schema"))),
        "bytes" => {
            check_meta_bytes(r, &declared, &Arena::new(&declared), &unhex(get(kvs, "bytes")));
        }
        "print" => check_print(r, &parse_schema(get(kvs, "schema"))),
        _ => c15(r),
    }
}
