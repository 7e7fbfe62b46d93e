//! Exhaustive enumerators: schemas by node count, values by size.
use crate::refm::{Arena, Kind};
use binschema::{
    value::{EnumValue, ScalarValue, StructValueField, Value},
    EnumSchemaVariant, ScalarType, Schema, SeqSchema, StructSchemaField,
};
use std::collections::HashMap;

pub const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "f"];

/// What schemas to enumerate.
#[derive(Clone)]
pub struct SchemaCfg {
    pub leaves: Vec<Schema>,
    pub seq_lens: Vec<Option<usize>>,
    /// widths of tuples, structs and enums
    pub widths: Vec<usize>,
    pub legal_recurse: bool,
    /// also recurse(0) and recurse(1..=n beyond root)
    pub illegal_recurse: usize,
    pub composites: bool,
}

pub fn scalar(t: ScalarType) -> Schema {
    Schema::Scalar(t)
}

impl SchemaCfg {
    pub fn small() -> Self {
        SchemaCfg {
            leaves: vec![scalar(ScalarType::U8), Schema::Str, Schema::Unit],
            seq_lens: vec![None, Some(0), Some(2)],
            widths: vec![0, 1, 2],
            legal_recurse: true,
            illegal_recurse: 0,
            composites: true,
        }
    }
    pub fn tiny() -> Self {
        SchemaCfg { leaves: vec![scalar(ScalarType::U8)], ..Self::small() }
    }
    pub fn illegal() -> Self {
        SchemaCfg { leaves: vec![scalar(ScalarType::U8), Schema::Unit], illegal_recurse: 2, ..Self::small() }
    }
}

/// All schemas with exactly `size` nodes, in a fixed order.
pub fn schemas(cfg: &SchemaCfg, size: usize) -> Vec<Schema> {
    let mut memo = HashMap::new();
    at(cfg, size, 0, &mut memo)
}

/// All schemas with at most `size` nodes, smallest first.
pub fn schemas_upto(cfg: &SchemaCfg, size: usize) -> Vec<Schema> {
    let mut memo = HashMap::new();
    (1..=size).flat_map(|s| at(cfg, s, 0, &mut memo)).collect()
}

type Memo = HashMap<(usize, usize), Vec<Schema>>;

fn at(cfg: &SchemaCfg, size: usize, depth: usize, memo: &mut Memo) -> Vec<Schema> {
    if let Some(v) = memo.get(&(size, depth)) {
        return v.clone();
    }
    let mut o = Vec::new();
    if size == 1 {
        o.extend(cfg.leaves.iter().cloned());
        if cfg.widths.contains(&0) {
            o.push(Schema::Tuple(Vec::new()));
            o.push(Schema::Struct(Vec::new()));
            o.push(Schema::Enum(Vec::new()));
        }
        if cfg.legal_recurse {
            for n in 1..=depth {
                o.push(Schema::Recurse(n));
            }
        }
        if cfg.illegal_recurse > 0 {
            o.push(Schema::Recurse(0));
            for n in 0..cfg.illegal_recurse {
                // one beyond the root, and far beyond
                o.push(Schema::Recurse(if n == 0 { depth + 1 } else { usize::MAX - (n - 1) }));
            }
        }
    } else {
        for c in at(cfg, size - 1, depth + 1, memo) {
            o.push(Schema::Option(Box::new(c.clone())));
            for &len in &cfg.seq_lens {
                o.push(Schema::Seq(SeqSchema { len, inner: Box::new(c.clone()) }));
            }
        }
        for &w in &cfg.widths {
            if w == 0 || size - 1 < w {
                continue;
            }
            for list in lists(cfg, w, size - 1, depth + 1, memo) {
                o.push(Schema::Tuple(list.clone()));
                o.push(Schema::Struct(
                    list.iter()
                        .enumerate()
                        .map(|(i, s)| StructSchemaField { name: NAMES[i].into(), inner: s.clone() })
                        .collect(),
                ));
                o.push(Schema::Enum(
                    list.into_iter()
                        .enumerate()
                        .map(|(i, s)| EnumSchemaVariant { name: NAMES[i].into(), inner: s })
                        .collect(),
                ));
            }
        }
    }
    memo.insert((size, depth), o.clone());
    o
}

fn lists(cfg: &SchemaCfg, w: usize, total: usize, depth: usize, memo: &mut Memo) -> Vec<Vec<Schema>> {
    if w == 0 {
        return if total == 0 { vec![Vec::new()] } else { Vec::new() };
    }
    let mut o = Vec::new();
    for first in 1..=total.saturating_sub(w - 1) {
        let heads = at(cfg, first, depth, memo);
        if heads.is_empty() {
            continue;
        }
        let tails = lists(cfg, w - 1, total - first, depth, memo);
        for h in &heads {
            for t in &tails {
                let mut v = Vec::with_capacity(w);
                v.push(h.clone());
                v.extend(t.iter().cloned());
                o.push(v);
            }
        }
    }
    o
}

// ---- values ----

#[derive(Clone)]
pub struct ValueCfg {
    /// values per scalar type / str / bytes
    pub rich: bool,
    /// maximal length of variable sequences
    pub max_seq: usize,
}

pub fn scalar_menu(t: ScalarType, rich: bool) -> Vec<ScalarValue> {
    use ScalarValue as V;
    macro_rules! ints {
        ($v:ident, $t:ty) => {{
            if rich {
                let mut m: Vec<$t> = vec![0, 1, <$t>::MAX, <$t>::MIN];
                for k in 0..<$t>::BITS {
                    let p = (1 as $t) << k;
                    m.push(p);
                    m.push(p.wrapping_sub(1));
                    m.push((0 as $t).wrapping_sub(p));
                    m.push((0 as $t).wrapping_sub(p).wrapping_sub(1));
                }
                m.sort();
                m.dedup();
                m.into_iter().map(V::$v).collect()
            } else {
                vec![V::$v(3), V::$v((<$t>::MAX / 2).wrapping_add(70))]
            }
        }};
    }
    match t {
        ScalarType::U8 => if rich { ints!(U8, u8) } else { vec![V::U8(7), V::U8(200)] },
        ScalarType::U16 => ints!(U16, u16),
        ScalarType::U32 => ints!(U32, u32),
        ScalarType::U64 => ints!(U64, u64),
        ScalarType::U128 => ints!(U128, u128),
        ScalarType::I8 => ints!(I8, i8),
        ScalarType::I16 => ints!(I16, i16),
        ScalarType::I32 => ints!(I32, i32),
        ScalarType::I64 => ints!(I64, i64),
        ScalarType::I128 => ints!(I128, i128),
        ScalarType::F32 => {
            let mut m: Vec<u32> = vec![0x3f80_0000, 0x8000_0000];
            if rich {
                m.extend([0, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f80_0001, 0xffc1_2345, 1, 0x0102_0304]);
            }
            m.into_iter().map(|b| V::F32(f32::from_bits(b))).collect()
        }
        ScalarType::F64 => {
            let mut m: Vec<u64> = vec![0x3ff0_0000_0000_0000, 0x8000_0000_0000_0000];
            if rich {
                m.extend([0, 0x7ff0_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff0_0000_0000_0001, 0xfff8_1234_5678_9abc, 1, 0x0102_0304_0506_0708]);
            }
            m.into_iter().map(|b| V::F64(f64::from_bits(b))).collect()
        }
        ScalarType::Char => {
            let m = if rich {
                vec!['\0', 'a', '\x7f', '\u{80}', 'ß', '\u{3fff}', '\u{4000}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']
            } else {
                vec!['x', '\u{1f600}']
            };
            m.into_iter().map(V::Char).collect()
        }
        ScalarType::Bool => vec![V::Bool(false), V::Bool(true)],
    }
}

pub fn str_menu(rich: bool) -> Vec<String> {
    if rich {
        vec![String::new(), "a".into(), "\0".into(), "ß€😀".into(), "x".repeat(127), "y".repeat(128)]
    } else {
        vec![String::new(), "é".into()]
    }
}

pub fn bytes_menu(rich: bool) -> Vec<Vec<u8>> {
    if rich {
        vec![vec![], vec![0], vec![0xff, 0x80], vec![0xc3; 127], vec![1; 128]]
    } else {
        vec![vec![], vec![0xff]]
    }
}

/// Enumerates the values of a schema by size (number of value nodes).
pub struct Values<'a, 's> {
    a: &'a Arena<'s>,
    cfg: ValueCfg,
    memo: HashMap<(usize, usize), Vec<Value>>,
    counts: HashMap<(usize, usize), u128>,
}

impl<'a, 's> Values<'a, 's> {
    pub fn new(a: &'a Arena<'s>, cfg: ValueCfg) -> Self {
        Values { a, cfg, memo: HashMap::new(), counts: HashMap::new() }
    }

    fn leaf_count(&self, node: usize) -> Option<u128> {
        Some(match &self.a.nodes[node].kind {
            Kind::Scalar(t) => scalar_menu(*t, self.cfg.rich).len() as u128,
            Kind::Str => str_menu(self.cfg.rich).len() as u128,
            Kind::Bytes => bytes_menu(self.cfg.rich).len() as u128,
            Kind::Unit => 1,
            _ => return None,
        })
    }

    fn list_count(&mut self, nodes: &[usize], total: usize) -> u128 {
        if nodes.is_empty() {
            return (total == 0) as u128;
        }
        let mut n = 0u128;
        for k in 1..=(total + 1).saturating_sub(nodes.len()) {
            let h = self.count(nodes[0], k);
            if h > 0 {
                n = n.saturating_add(h.saturating_mul(self.list_count(&nodes[1..], total - k)));
            }
        }
        n
    }

    /// How many values of exactly this size.
    pub fn count(&mut self, node: usize, size: usize) -> u128 {
        if size == 0 {
            return 0;
        }
        let node = match self.a.resolve(node) {
            Some(n) => n,
            None => return 0,
        };
        if let Some(&c) = self.counts.get(&(node, size)) {
            return c;
        }
        let n = if let Some(c) = self.leaf_count(node) {
            if size == 1 { c } else { 0 }
        } else {
            let kind = self.a.nodes[node].kind.clone();
            match kind {
                Kind::Option(i) => (size == 1) as u128 + self.count(i, size - 1),
                Kind::Seq(len, i) => {
                    let (lo, hi) = match len {
                        Some(l) => (l, l),
                        None => (0, self.cfg.max_seq),
                    };
                    let mut n = 0u128;
                    for l in lo..=hi {
                        if l > size - 1 {
                            break;
                        }
                        n = n.saturating_add(self.list_count(&vec![i; l], size - 1));
                    }
                    n
                }
                Kind::Tuple(v) => self.list_count(&v, size - 1),
                Kind::Struct(v) => {
                    let ids: Vec<usize> = v.iter().map(|x| x.1).collect();
                    self.list_count(&ids, size - 1)
                }
                Kind::Enum(v) => v.iter().map(|x| self.count(x.1, size - 1)).fold(0u128, |a, b| a.saturating_add(b)),
                _ => unreachable!(),
            }
        };
        self.counts.insert((node, size), n);
        n
    }

    fn lists(&mut self, nodes: &[usize], total: usize) -> Vec<Vec<Value>> {
        if nodes.is_empty() {
            return if total == 0 { vec![Vec::new()] } else { Vec::new() };
        }
        let mut o = Vec::new();
        for k in 1..=(total + 1).saturating_sub(nodes.len()) {
            if self.count(nodes[0], k) == 0 || self.list_count(&nodes[1..], total - k) == 0 {
                continue;
            }
            let heads = self.exact(nodes[0], k);
            let tails = self.lists(&nodes[1..], total - k);
            for h in &heads {
                for t in &tails {
                    let mut v = Vec::with_capacity(nodes.len());
                    v.push(h.clone());
                    v.extend(t.iter().cloned());
                    o.push(v);
                }
            }
        }
        o
    }

    /// All values of exactly this size.
    pub fn exact(&mut self, node: usize, size: usize) -> Vec<Value> {
        if self.count(node, size) == 0 {
            return Vec::new();
        }
        let node = self.a.resolve(node).unwrap();
        if let Some(v) = self.memo.get(&(node, size)) {
            return v.clone();
        }
        let rich = self.cfg.rich;
        let kind = self.a.nodes[node].kind.clone();
        let o: Vec<Value> = match kind {
            Kind::Scalar(t) => scalar_menu(t, rich).into_iter().map(Value::Scalar).collect(),
            Kind::Str => str_menu(rich).into_iter().map(Value::Str).collect(),
            Kind::Bytes => bytes_menu(rich).into_iter().map(Value::Bytes).collect(),
            Kind::Unit => vec![Value::Unit],
            Kind::Option(i) => {
                let mut o = Vec::new();
                if size == 1 {
                    o.push(Value::Option(None));
                }
                if size > 1 {
                    o.extend(self.exact(i, size - 1).into_iter().map(|v| Value::Option(Some(Box::new(v)))));
                }
                o
            }
            Kind::Seq(len, i) => {
                let (lo, hi) = match len {
                    Some(l) => (l, l),
                    None => (0, self.cfg.max_seq),
                };
                let mut o = Vec::new();
                for l in lo..=hi {
                    if l > size - 1 {
                        break;
                    }
                    for v in self.lists(&vec![i; l], size - 1) {
                        o.push(if len.is_some() { Value::FixedLenSeq(v) } else { Value::VarLenSeq(v) });
                    }
                }
                o
            }
            Kind::Tuple(v) => self.lists(&v, size - 1).into_iter().map(Value::Tuple).collect(),
            Kind::Struct(v) => {
                let ids: Vec<usize> = v.iter().map(|x| x.1).collect();
                self.lists(&ids, size - 1)
                    .into_iter()
                    .map(|l| Value::Struct(l.into_iter().zip(&v).map(|(value, f)| StructValueField { name: f.0.to_string(), value }).collect()))
                    .collect()
            }
            Kind::Enum(v) => {
                let mut o = Vec::new();
                for (ord, f) in v.iter().enumerate() {
                    if size > 1 {
                        for value in self.exact(f.1, size - 1) {
                            o.push(Value::Enum(EnumValue { variant_ord: ord, variant_name: f.0.to_string(), value: Box::new(value) }));
                        }
                    }
                }
                o
            }
            Kind::Recurse(_) => unreachable!(),
        };
        self.memo.insert((node, size), o.clone());
        o
    }

    /// All values of size <= the largest bound (<= max_size) for which there are at most `cap` of
    /// them (always at least the smallest inhabited size). Returns the bound used too.
    pub fn upto(&mut self, node: usize, max_size: usize, cap: u128) -> (Vec<Value>, usize) {
        let mut o = Vec::new();
        let mut total = 0u128;
        let mut used = 0;
        for s in 1..=max_size {
            let c = self.count(node, s);
            if total > 0 && total.saturating_add(c) > cap {
                break;
            }
            if c > 4_000_000 {
                break;
            }
            total += c;
            used = s;
            if c > 0 {
                o.extend(self.exact(node, s));
            }
        }
        (o, used)
    }
}

pub fn vcfg(rich: bool, max_seq: usize) -> ValueCfg {
    ValueCfg { rich, max_seq }
}

pub fn size_of_schema(s: &Schema) -> usize {
    match s {
        Schema::Option(i) => 1 + size_of_schema(i),
        Schema::Seq(q) => 1 + size_of_schema(&q.inner),
        Schema::Tuple(v) => 1 + v.iter().map(size_of_schema).sum::<usize>(),
        Schema::Struct(v) => 1 + v.iter().map(|x| size_of_schema(&x.inner)).sum::<usize>(),
        Schema::Enum(v) => 1 + v.iter().map(|x| size_of_schema(&x.inner)).sum::<usize>(),
        _ => 1,
    }
}
