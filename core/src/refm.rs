//! Reference model of the data format, written from FORMAT.txt alone.
use binschema::{
    value::{EnumValue, ScalarValue, StructValueField, Value},
    ScalarType, Schema, SeqSchema,
};

#[derive(Debug, Clone)]
pub enum Kind<'s> {
    Scalar(ScalarType),
    Str,
    Bytes,
    Unit,
    Option(usize),
    Seq(Option<usize>, usize),
    Tuple(Vec<usize>),
    Struct(Vec<(&'s str, usize)>),
    Enum(Vec<(&'s str, usize)>),
    Recurse(usize),
}

pub struct Node<'s> {
    pub parent: Option<usize>,
    pub kind: Kind<'s>,
    pub schema: &'s Schema,
}

/// The schema tree with parent links. Node 0 is the root.
pub struct Arena<'s> {
    pub nodes: Vec<Node<'s>>,
}

impl<'s> Arena<'s> {
    pub fn new(s: &'s Schema) -> Self {
        let mut a = Arena { nodes: Vec::new() };
        a.add(s, None);
        a
    }

    fn add(&mut self, s: &'s Schema, parent: Option<usize>) -> usize {
        let id = self.nodes.len();
        self.nodes.push(Node { parent, kind: Kind::Unit, schema: s });
        let me = Some(id);
        let kind = match s {
            Schema::Scalar(t) => Kind::Scalar(*t),
            Schema::Str => Kind::Str,
            Schema::Bytes => Kind::Bytes,
            Schema::Unit => Kind::Unit,
            Schema::Option(i) => Kind::Option(self.add(i, me)),
            Schema::Seq(SeqSchema { len, inner }) => Kind::Seq(*len, self.add(inner, me)),
            Schema::Tuple(v) => Kind::Tuple(v.iter().map(|x| self.add(x, me)).collect()),
            Schema::Struct(v) => Kind::Struct(v.iter().map(|x| (x.name.as_str(), self.add(&x.inner, me))).collect()),
            Schema::Enum(v) => Kind::Enum(v.iter().map(|x| (x.name.as_str(), self.add(&x.inner, me))).collect()),
            Schema::Recurse(n) => Kind::Recurse(*n),
        };
        self.nodes[id].kind = kind;
        id
    }

    /// The node a node stands for: itself, or the target of a recurse. `None`: illegal.
    pub fn resolve(&self, id: usize) -> Option<usize> {
        let mut id = id;
        loop {
            match self.nodes[id].kind {
                Kind::Recurse(0) => return None,
                Kind::Recurse(n) => {
                    let mut cur = id;
                    let mut left = n;
                    while left > 0 {
                        cur = self.nodes[cur].parent?;
                        left -= 1;
                    }
                    id = cur;
                }
                _ => return Some(id),
            }
        }
    }

    pub fn legal(&self) -> bool {
        (0..self.nodes.len()).all(|i| self.resolve(i).is_some())
    }

    pub fn has_recurse(&self) -> bool {
        self.nodes.iter().any(|n| matches!(n.kind, Kind::Recurse(_)))
    }

    /// Minimal number of nested steps to complete a value of each node; `None`: uninhabited (or
    /// only through an illegal recurse).
    pub fn min_height(&self) -> Vec<Option<u32>> {
        let n = self.nodes.len();
        let mut h: Vec<Option<u32>> = vec![None; n];
        loop {
            let mut changed = false;
            for i in 0..n {
                let get = |j: usize| -> Option<u32> { self.resolve(j).and_then(|k| h[k]) };
                let new = match &self.nodes[i].kind {
                    Kind::Scalar(_) | Kind::Str | Kind::Bytes | Kind::Unit | Kind::Option(_) | Kind::Seq(None, _) | Kind::Seq(Some(0), _) => Some(0),
                    Kind::Seq(Some(_), c) => get(*c).map(|x| x + 1),
                    Kind::Tuple(v) => v.iter().map(|&c| get(c)).try_fold(0, |m, x| x.map(|x| m.max(x + 1))),
                    Kind::Struct(v) => v.iter().map(|&(_, c)| get(c)).try_fold(0, |m, x| x.map(|x| m.max(x + 1))),
                    Kind::Enum(v) => v.iter().filter_map(|&(_, c)| get(c)).min().map(|x| x + 1),
                    Kind::Recurse(_) => get(i),
                };
                if new.is_some() && (h[i].is_none() || new < h[i]) {
                    h[i] = new;
                    changed = true;
                }
            }
            if !changed {
                return h;
            }
        }
    }

    /// Can a value of this node be encoded in zero bytes?
    pub fn zero_width(&self) -> Vec<bool> {
        let n = self.nodes.len();
        // greatest fixpoint is not needed: a node is zero width only through finite values
        let mut z = vec![false; n];
        loop {
            let mut changed = false;
            for i in 0..n {
                let get = |j: usize| self.resolve(j).map_or(false, |k| z[k]);
                let new = match &self.nodes[i].kind {
                    Kind::Unit => true,
                    Kind::Seq(Some(0), _) => true,
                    Kind::Seq(Some(_), c) => get(*c),
                    Kind::Tuple(v) => v.iter().all(|&c| get(c)),
                    Kind::Struct(v) => v.iter().all(|&(_, c)| get(c)),
                    Kind::Enum(v) => v.len() == 1 && get(v[0].1),
                    Kind::Recurse(_) => get(i),
                    _ => false,
                };
                if new && !z[i] {
                    z[i] = true;
                    changed = true;
                }
            }
            if !changed {
                return z;
            }
        }
    }
}

// ---- integers ----

/// Bytes of a var-len uint: 7-bit groups, least significant first, no superfluous groups.
pub fn uint(n: u128) -> Vec<u8> {
    let bits = 128 - n.leading_zeros();
    let groups = ((bits + 6) / 7).max(1);
    let mut o: Vec<u8> = (0..groups).map(|i| ((n >> (7 * i)) & 0x7f) as u8).collect();
    let last = o.len() - 1;
    for b in &mut o[..last] {
        *b |= 0x80;
    }
    o
}

/// Bytes of a var-len sint: sign in bit 6 of the first byte, 6 bits there, then 7-bit groups of
/// the integer, or of its complement when negative.
pub fn sint(n: i128) -> Vec<u8> {
    let neg = n < 0;
    let m = (if neg { !n } else { n }) as u128;
    let mut o = vec![(m & 0x3f) as u8 | if neg { 0x40 } else { 0 }];
    let mut rest = m >> 6;
    while rest != 0 {
        o.push((rest & 0x7f) as u8);
        rest >>= 7;
    }
    let last = o.len() - 1;
    for b in &mut o[..last] {
        *b |= 0x80;
    }
    o
}

/// Bytes needed for an ordinal of an enum of `n` variants (n > 0).
pub fn ord_width(n: usize) -> usize {
    let max = (n - 1) as u64;
    (0..=8).find(|&w| w == 8 || max < 1u64 << (8 * w)).unwrap()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RErr {
    /// the input ends before the value does
    Eof,
    Malformed,
    /// a length does not fit the platform
    Limits,
    Illegal,
    /// the reference decoder gave up (sequence of too many zero-width elements)
    TooBig,
}

pub struct Cur<'b> {
    pub b: &'b [u8],
    pub pos: usize,
    /// nodes entered since `stall.0` was the position: more than there are nodes means the value
    /// is infinitely deep without taking a byte
    stall: (usize, usize),
    /// zero-width sequence elements it may still produce
    pub zero_budget: usize,
}

impl<'b> Cur<'b> {
    pub fn new(b: &'b [u8]) -> Self {
        Cur { b, pos: 0, stall: (0, 0), zero_budget: MAX_ZERO }
    }
    pub fn byte(&mut self) -> Result<u8, RErr> {
        let x = *self.b.get(self.pos).ok_or(RErr::Eof)?;
        self.pos += 1;
        Ok(x)
    }
    pub fn take(&mut self, n: usize) -> Result<&'b [u8], RErr> {
        if n > self.b.len() - self.pos {
            // the reference consumes what there is and then misses the rest
            self.pos = self.b.len();
            return Err(RErr::Eof);
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    /// FORMAT.txt: at most 19 groups; bits beyond 128 are lost.
    pub fn uint(&mut self) -> Result<u128, RErr> {
        let mut n = 0u128;
        for i in 0..19u32 {
            let b = self.byte()?;
            let g = (b & 0x7f) as u128;
            let sh = 7 * i;
            n |= if sh == 126 { (g & 3) << 126 } else { g << sh };
            if b & 0x80 == 0 {
                return Ok(n);
            }
        }
        Err(RErr::Malformed)
    }
    /// FORMAT.txt: first byte carries 6 bits, then at most 18 groups at shifts 6, 13, ..., 125.
    pub fn sint(&mut self) -> Result<i128, RErr> {
        let b = self.byte()?;
        let neg = b & 0x40 != 0;
        let mut more = b & 0x80 != 0;
        let mut n = (b & 0x3f) as u128;
        let mut sh = 6u32;
        while more {
            if sh >= 128 {
                return Err(RErr::Malformed);
            }
            let b = self.byte()?;
            let g = (b & 0x7f) as u128;
            n |= if sh == 125 { (g & 7) << 125 } else { g << sh };
            sh += 7;
            more = b & 0x80 != 0;
        }
        Ok(if neg { !(n as i128) } else { n as i128 })
    }
    pub fn len(&mut self) -> Result<usize, RErr> {
        let n = self.uint()?;
        usize::try_from(n).map_err(|_| RErr::Limits)
    }
}

// ---- values ----

pub fn scalar_bytes(v: &ScalarValue, o: &mut Vec<u8>) {
    match *v {
        ScalarValue::U8(n) => o.push(n),
        ScalarValue::U16(n) => {
            o.push((n & 0xff) as u8);
            o.push((n >> 8) as u8);
        }
        ScalarValue::U32(n) => o.extend(uint(n as u128)),
        ScalarValue::U64(n) => o.extend(uint(n as u128)),
        ScalarValue::U128(n) => o.extend(uint(n)),
        ScalarValue::I8(n) => o.push(n as u8),
        ScalarValue::I16(n) => {
            let n = n as u16;
            o.push((n & 0xff) as u8);
            o.push((n >> 8) as u8);
        }
        ScalarValue::I32(n) => o.extend(sint(n as i128)),
        ScalarValue::I64(n) => o.extend(sint(n as i128)),
        ScalarValue::I128(n) => o.extend(sint(n)),
        ScalarValue::F32(n) => {
            let n = n.to_bits();
            for i in 0..4 {
                o.push((n >> (8 * i)) as u8);
            }
        }
        ScalarValue::F64(n) => {
            let n = n.to_bits();
            for i in 0..8 {
                o.push((n >> (8 * i)) as u8);
            }
        }
        ScalarValue::Char(c) => o.extend(uint(c as u32 as u128)),
        ScalarValue::Bool(b) => o.push(if b { 1 } else { 0 }),
    }
}

pub fn read_scalar(t: ScalarType, c: &mut Cur) -> Result<ScalarValue, RErr> {
    fn le(c: &mut Cur, n: usize) -> Result<u64, RErr> {
        let b = c.take(n)?;
        Ok(b.iter().enumerate().map(|(i, &x)| (x as u64) << (8 * i)).sum())
    }
    Ok(match t {
        ScalarType::U8 => ScalarValue::U8(le(c, 1)? as u8),
        ScalarType::U16 => ScalarValue::U16(le(c, 2)? as u16),
        ScalarType::U32 => ScalarValue::U32(u32::try_from(c.uint()?).map_err(|_| RErr::Malformed)?),
        ScalarType::U64 => ScalarValue::U64(u64::try_from(c.uint()?).map_err(|_| RErr::Malformed)?),
        ScalarType::U128 => ScalarValue::U128(c.uint()?),
        ScalarType::I8 => ScalarValue::I8(le(c, 1)? as u8 as i8),
        ScalarType::I16 => ScalarValue::I16(le(c, 2)? as u16 as i16),
        ScalarType::I32 => ScalarValue::I32(i32::try_from(c.sint()?).map_err(|_| RErr::Malformed)?),
        ScalarType::I64 => ScalarValue::I64(i64::try_from(c.sint()?).map_err(|_| RErr::Malformed)?),
        ScalarType::I128 => ScalarValue::I128(c.sint()?),
        ScalarType::F32 => ScalarValue::F32(f32::from_bits(le(c, 4)? as u32)),
        ScalarType::F64 => ScalarValue::F64(f64::from_bits(le(c, 8)?)),
        ScalarType::Char => {
            let n = c.uint()?;
            let ok = n < 0xd800 || (n > 0xdfff && n <= 0x10ffff);
            if !ok {
                return Err(RErr::Malformed);
            }
            ScalarValue::Char(char::from_u32(n as u32).unwrap())
        }
        ScalarType::Bool => match le(c, 1)? {
            0 => ScalarValue::Bool(false),
            1 => ScalarValue::Bool(true),
            _ => return Err(RErr::Malformed),
        },
    })
}

/// Encode; false if the value does not belong to the schema node (output then meaningless).
pub fn encode(a: &Arena, node: usize, v: &Value, o: &mut Vec<u8>) -> bool {
    let node = match a.resolve(node) {
        Some(n) => n,
        None => return false,
    };
    match (&a.nodes[node].kind, v) {
        (Kind::Scalar(t), Value::Scalar(s)) => {
            if crate::text::scalar_type(s) != *t {
                return false;
            }
            scalar_bytes(s, o);
            true
        }
        (Kind::Str, Value::Str(s)) => {
            o.extend(uint(s.len() as u128));
            o.extend_from_slice(s.as_bytes());
            true
        }
        (Kind::Bytes, Value::Bytes(s)) => {
            o.extend(uint(s.len() as u128));
            o.extend_from_slice(s);
            true
        }
        (Kind::Unit, Value::Unit) => true,
        (Kind::Option(_), Value::Option(None)) => {
            o.push(0);
            true
        }
        (Kind::Option(i), Value::Option(Some(v))) => {
            o.push(1);
            encode(a, *i, v, o)
        }
        (Kind::Seq(Some(l), i), Value::FixedLenSeq(e)) => e.len() == *l && e.iter().all(|v| encode(a, *i, v, o)),
        (Kind::Seq(None, i), Value::VarLenSeq(e)) => {
            o.extend(uint(e.len() as u128));
            e.iter().all(|v| encode(a, *i, v, o))
        }
        (Kind::Tuple(c), Value::Tuple(e)) => c.len() == e.len() && c.iter().zip(e).all(|(c, v)| encode(a, *c, v, o)),
        (Kind::Struct(c), Value::Struct(e)) => {
            c.len() == e.len() && c.iter().zip(e).all(|(c, v)| c.0 == v.name && encode(a, c.1, &v.value, o))
        }
        (Kind::Enum(c), Value::Enum(e)) => {
            if e.variant_ord >= c.len() || c[e.variant_ord].0 != e.variant_name {
                return false;
            }
            let w = ord_width(c.len());
            for i in 0..w {
                o.push((e.variant_ord as u64 >> (8 * i)) as u8);
            }
            encode(a, c[e.variant_ord].1, &e.value, o)
        }
        _ => false,
    }
}

pub const MAX_ZERO: usize = 1 << 17;

pub fn decode(a: &Arena, node: usize, c: &mut Cur) -> Result<Value, RErr> {
    let node = a.resolve(node).ok_or(RErr::Illegal)?;
    let old = c.stall;
    c.stall = if c.pos == old.0 { (old.0, old.1 + 1) } else { (c.pos, 1) };
    if c.stall.1 > a.nodes.len() {
        return Err(RErr::TooBig);
    }
    let r = decode_node(a, node, c);
    c.stall = old;
    r
}

fn decode_node(a: &Arena, node: usize, c: &mut Cur) -> Result<Value, RErr> {
    Ok(match &a.nodes[node].kind {
        Kind::Scalar(t) => Value::Scalar(read_scalar(*t, c)?),
        Kind::Str => {
            let l = c.len()?;
            let b = c.take(l)?;
            Value::Str(std::str::from_utf8(b).map_err(|_| RErr::Malformed)?.to_string())
        }
        Kind::Bytes => {
            let l = c.len()?;
            Value::Bytes(c.take(l)?.to_vec())
        }
        Kind::Unit => Value::Unit,
        Kind::Option(i) => match c.byte()? {
            0 => Value::Option(None),
            1 => Value::Option(Some(Box::new(decode(a, *i, c)?))),
            _ => return Err(RErr::Malformed),
        },
        Kind::Seq(Some(l), i) => Value::FixedLenSeq(elems(a, *l, *i, c)?),
        Kind::Seq(None, i) => {
            let l = c.len()?;
            Value::VarLenSeq(elems(a, l, *i, c)?)
        }
        Kind::Tuple(v) => Value::Tuple(v.iter().map(|&i| decode(a, i, c)).collect::<Result<_, _>>()?),
        Kind::Struct(v) => Value::Struct(
            v.iter()
                .map(|&(n, i)| Ok(StructValueField { name: n.to_string(), value: decode(a, i, c)? }))
                .collect::<Result<_, _>>()?,
        ),
        Kind::Enum(v) => {
            if v.is_empty() {
                return Err(RErr::Malformed);
            }
            let w = ord_width(v.len());
            let b = c.take(w)?;
            let ord: u64 = b.iter().enumerate().map(|(i, &x)| (x as u64) << (8 * i)).sum();
            if ord >= v.len() as u64 {
                return Err(RErr::Malformed);
            }
            let (n, i) = v[ord as usize];
            Value::Enum(EnumValue { variant_ord: ord as usize, variant_name: n.to_string(), value: Box::new(decode(a, i, c)?) })
        }
        Kind::Recurse(_) => unreachable!(),
    })
}

fn elems(a: &Arena, l: usize, i: usize, c: &mut Cur) -> Result<Vec<Value>, RErr> {
    let mut v = Vec::new();
    for _ in 0..l {
        let p = c.pos;
        let x = decode(a, i, c)?;
        if c.pos == p {
            if c.zero_budget == 0 {
                return Err(RErr::TooBig);
            }
            c.zero_budget -= 1;
        }
        v.push(x);
    }
    Ok(v)
}

/// Equality with floats compared bit for bit.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Scalar(x), Value::Scalar(y)) => same_scalar(x, y),
        (Value::Option(Some(x)), Value::Option(Some(y))) => same(x, y),
        (Value::FixedLenSeq(x), Value::FixedLenSeq(y))
        | (Value::VarLenSeq(x), Value::VarLenSeq(y))
        | (Value::Tuple(x), Value::Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (Value::Struct(x), Value::Struct(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.name == y.name && same(&x.value, &y.value))
        }
        (Value::Enum(x), Value::Enum(y)) => {
            x.variant_ord == y.variant_ord && x.variant_name == y.variant_name && same(&x.value, &y.value)
        }
        (Value::Str(x), Value::Str(y)) => x == y,
        (Value::Bytes(x), Value::Bytes(y)) => x == y,
        (Value::Unit, Value::Unit) | (Value::Option(None), Value::Option(None)) => true,
        _ => false,
    }
}

pub fn same_scalar(x: &ScalarValue, y: &ScalarValue) -> bool {
    match (x, y) {
        (ScalarValue::F32(x), ScalarValue::F32(y)) => x.to_bits() == y.to_bits(),
        (ScalarValue::F64(x), ScalarValue::F64(y)) => x.to_bits() == y.to_bits(),
        (x, y) => x == y,
    }
}
