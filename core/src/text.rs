//! Text form of schemas and values (for replay files and samples), and its parser.
use binschema::{
    value::{EnumValue, ScalarValue, StructValueField, Value},
    EnumSchemaVariant, ScalarType, Schema, SeqSchema, StructSchemaField,
};
use std::fmt::Write;

pub const SCALARS: [(ScalarType, &str); 14] = [
    (ScalarType::U8, "u8"),
    (ScalarType::U16, "u16"),
    (ScalarType::U32, "u32"),
    (ScalarType::U64, "u64"),
    (ScalarType::U128, "u128"),
    (ScalarType::I8, "i8"),
    (ScalarType::I16, "i16"),
    (ScalarType::I32, "i32"),
    (ScalarType::I64, "i64"),
    (ScalarType::I128, "i128"),
    (ScalarType::F32, "f32"),
    (ScalarType::F64, "f64"),
    (ScalarType::Char, "char"),
    (ScalarType::Bool, "bool"),
];

pub fn scalar_name(t: ScalarType) -> &'static str {
    SCALARS.iter().find(|x| x.0 == t).unwrap().1
}

pub fn scalar_type(v: &ScalarValue) -> ScalarType {
    match v {
        ScalarValue::U8(_) => ScalarType::U8,
        ScalarValue::U16(_) => ScalarType::U16,
        ScalarValue::U32(_) => ScalarType::U32,
        ScalarValue::U64(_) => ScalarType::U64,
        ScalarValue::U128(_) => ScalarType::U128,
        ScalarValue::I8(_) => ScalarType::I8,
        ScalarValue::I16(_) => ScalarType::I16,
        ScalarValue::I32(_) => ScalarType::I32,
        ScalarValue::I64(_) => ScalarType::I64,
        ScalarValue::I128(_) => ScalarType::I128,
        ScalarValue::F32(_) => ScalarType::F32,
        ScalarValue::F64(_) => ScalarType::F64,
        ScalarValue::Char(_) => ScalarType::Char,
        ScalarValue::Bool(_) => ScalarType::Bool,
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return Vec::new();
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let _ = write!(o, "\\u{{{:x}}}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn schema_text(s: &Schema) -> String {
    let mut o = String::new();
    fmt_schema(s, &mut o);
    o
}

fn fmt_schema(s: &Schema, o: &mut String) {
    match s {
        Schema::Scalar(t) => o.push_str(scalar_name(*t)),
        Schema::Str => o.push_str("str"),
        Schema::Bytes => o.push_str("bytes"),
        Schema::Unit => o.push_str("unit"),
        Schema::Option(i) => {
            o.push_str("(option ");
            fmt_schema(i, o);
            o.push(')');
        }
        Schema::Seq(SeqSchema { len, inner }) => {
            o.push_str("(seq ");
            if let Some(l) = len {
                let _ = write!(o, "{} ", l);
            }
            fmt_schema(inner, o);
            o.push(')');
        }
        Schema::Tuple(v) => {
            o.push_str("(tuple");
            for x in v {
                o.push(' ');
                fmt_schema(x, o);
            }
            o.push(')');
        }
        Schema::Struct(v) => {
            o.push_str("(struct");
            for x in v {
                let _ = write!(o, " ({} ", q(&x.name));
                fmt_schema(&x.inner, o);
                o.push(')');
            }
            o.push(')');
        }
        Schema::Enum(v) => {
            o.push_str("(enum");
            for x in v {
                let _ = write!(o, " ({} ", q(&x.name));
                fmt_schema(&x.inner, o);
                o.push(')');
            }
            o.push(')');
        }
        Schema::Recurse(n) => {
            let _ = write!(o, "(recurse {})", n);
        }
    }
}

pub fn value_text(v: &Value) -> String {
    let mut o = String::new();
    fmt_value(v, &mut o);
    o
}

pub fn scalar_text(s: &ScalarValue) -> String {
    match *s {
        ScalarValue::U8(n) => format!("(u8 {})", n),
        ScalarValue::U16(n) => format!("(u16 {})", n),
        ScalarValue::U32(n) => format!("(u32 {})", n),
        ScalarValue::U64(n) => format!("(u64 {})", n),
        ScalarValue::U128(n) => format!("(u128 {})", n),
        ScalarValue::I8(n) => format!("(i8 {})", n),
        ScalarValue::I16(n) => format!("(i16 {})", n),
        ScalarValue::I32(n) => format!("(i32 {})", n),
        ScalarValue::I64(n) => format!("(i64 {})", n),
        ScalarValue::I128(n) => format!("(i128 {})", n),
        ScalarValue::F32(n) => format!("(f32 {})", n.to_bits()),
        ScalarValue::F64(n) => format!("(f64 {})", n.to_bits()),
        ScalarValue::Char(n) => format!("(char {})", n as u32),
        ScalarValue::Bool(n) => format!("(bool {})", n as u8),
    }
}

fn fmt_list(tag: &str, v: &[Value], o: &mut String) {
    o.push('(');
    o.push_str(tag);
    for x in v {
        o.push(' ');
        fmt_value(x, o);
    }
    o.push(')');
}

fn fmt_value(v: &Value, o: &mut String) {
    match v {
        Value::Scalar(s) => o.push_str(&scalar_text(s)),
        Value::Str(s) => {
            o.push_str("(str ");
            o.push_str(&q(s));
            o.push(')');
        }
        Value::Bytes(b) => {
            o.push_str("(bytes ");
            o.push_str(&hex(b));
            o.push(')');
        }
        Value::Unit => o.push_str("unit"),
        Value::Option(None) => o.push_str("none"),
        Value::Option(Some(x)) => {
            o.push_str("(some ");
            fmt_value(x, o);
            o.push(')');
        }
        Value::FixedLenSeq(e) => fmt_list("fseq", e, o),
        Value::VarLenSeq(e) => fmt_list("vseq", e, o),
        Value::Tuple(e) => fmt_list("tuple", e, o),
        Value::Struct(f) => {
            o.push_str("(struct");
            for x in f {
                let _ = write!(o, " ({} ", q(&x.name));
                fmt_value(&x.value, o);
                o.push(')');
            }
            o.push(')');
        }
        Value::Enum(e) => {
            let _ = write!(o, "(enum {} {} ", e.variant_ord, q(&e.variant_name));
            fmt_value(&e.value, o);
            o.push(')');
        }
    }
}

// ---- parser ----

#[derive(Debug, Clone)]
enum Sx {
    Atom(String),
    Str(String),
    List(Vec<Sx>),
}

fn parse_sx(b: &[char], i: &mut usize) -> Sx {
    while b[*i].is_whitespace() {
        *i += 1;
    }
    if b[*i] == '(' {
        *i += 1;
        let mut v = Vec::new();
        loop {
            while b[*i].is_whitespace() {
                *i += 1;
            }
            if b[*i] == ')' {
                *i += 1;
                return Sx::List(v);
            }
            v.push(parse_sx(b, i));
        }
    }
    if b[*i] == '"' {
        *i += 1;
        let mut s = String::new();
        loop {
            match b[*i] {
                '"' => {
                    *i += 1;
                    return Sx::Str(s);
                }
                '\\' => {
                    *i += 1;
                    if b[*i] == 'u' {
                        *i += 2;
                        let mut h = String::new();
                        while b[*i] != '}' {
                            h.push(b[*i]);
                            *i += 1;
                        }
                        *i += 1;
                        s.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                    } else {
                        s.push(b[*i]);
                        *i += 1;
                    }
                }
                c => {
                    s.push(c);
                    *i += 1;
                }
            }
        }
    }
    let mut s = String::new();
    while *i < b.len() && !b[*i].is_whitespace() && b[*i] != '(' && b[*i] != ')' {
        s.push(b[*i]);
        *i += 1;
    }
    Sx::Atom(s)
}

fn sx(s: &str) -> Sx {
    let b: Vec<char> = s.chars().collect();
    parse_sx(&b, &mut 0)
}

fn atom(x: &Sx) -> &str {
    match x {
        Sx::Atom(s) | Sx::Str(s) => s,
        Sx::List(_) => panic!("atom expected"),
    }
}

pub fn parse_schema(s: &str) -> Schema {
    to_schema(&sx(s))
}

fn named(x: &Sx) -> (String, &Sx) {
    match x {
        Sx::List(v) => (atom(&v[0]).to_string(), &v[1]),
        _ => panic!("named item expected"),
    }
}

fn to_schema(x: &Sx) -> Schema {
    match x {
        Sx::Atom(a) => match a.as_str() {
            "str" => Schema::Str,
            "bytes" => Schema::Bytes,
            "unit" => Schema::Unit,
            a => Schema::Scalar(SCALARS.iter().find(|x| x.1 == a).unwrap_or_else(|| panic!("bad schema atom {}", a)).0),
        },
        Sx::List(v) => match atom(&v[0]) {
            "option" => Schema::Option(Box::new(to_schema(&v[1]))),
            "seq" => {
                if v.len() == 3 {
                    Schema::Seq(SeqSchema { len: Some(atom(&v[1]).parse().unwrap()), inner: Box::new(to_schema(&v[2])) })
                } else {
                    Schema::Seq(SeqSchema { len: None, inner: Box::new(to_schema(&v[1])) })
                }
            }
            "tuple" => Schema::Tuple(v[1..].iter().map(to_schema).collect()),
            "struct" => Schema::Struct(v[1..].iter().map(|x| {
                let (name, inner) = named(x);
                StructSchemaField { name, inner: to_schema(inner) }
            }).collect()),
            "enum" => Schema::Enum(v[1..].iter().map(|x| {
                let (name, inner) = named(x);
                EnumSchemaVariant { name, inner: to_schema(inner) }
            }).collect()),
            "recurse" => Schema::Recurse(atom(&v[1]).parse().unwrap()),
            t => panic!("bad schema tag {}", t),
        },
        Sx::Str(_) => panic!("schema expected"),
    }
}

pub fn parse_value(s: &str) -> Value {
    to_value(&sx(s))
}

fn to_value(x: &Sx) -> Value {
    match x {
        Sx::Atom(a) => match a.as_str() {
            "unit" => Value::Unit,
            "none" => Value::Option(None),
            a => panic!("bad value atom {}", a),
        },
        Sx::Str(_) => panic!("value expected"),
        Sx::List(v) => {
            let t = atom(&v[0]);
            macro_rules! num {
                ($c:ident) => {
                    Value::Scalar(ScalarValue::$c(atom(&v[1]).parse().unwrap()))
                };
            }
            match t {
                "u8" => num!(U8),
                "u16" => num!(U16),
                "u32" => num!(U32),
                "u64" => num!(U64),
                "u128" => num!(U128),
                "i8" => num!(I8),
                "i16" => num!(I16),
                "i32" => num!(I32),
                "i64" => num!(I64),
                "i128" => num!(I128),
                "f32" => Value::Scalar(ScalarValue::F32(f32::from_bits(atom(&v[1]).parse().unwrap()))),
                "f64" => Value::Scalar(ScalarValue::F64(f64::from_bits(atom(&v[1]).parse().unwrap()))),
                "char" => Value::Scalar(ScalarValue::Char(char::from_u32(atom(&v[1]).parse().unwrap()).unwrap())),
                "bool" => Value::Scalar(ScalarValue::Bool(atom(&v[1]) == "1")),
                "str" => Value::Str(atom(&v[1]).to_string()),
                "bytes" => Value::Bytes(unhex(atom(&v[1]))),
                "some" => Value::Option(Some(Box::new(to_value(&v[1])))),
                "fseq" => Value::FixedLenSeq(v[1..].iter().map(to_value).collect()),
                "vseq" => Value::VarLenSeq(v[1..].iter().map(to_value).collect()),
                "tuple" => Value::Tuple(v[1..].iter().map(to_value).collect()),
                "struct" => Value::Struct(v[1..].iter().map(|x| {
                    let (name, value) = named(x);
                    StructValueField { name, value: to_value(value) }
                }).collect()),
                "enum" => Value::Enum(EnumValue {
                    variant_ord: atom(&v[1]).parse().unwrap(),
                    variant_name: atom(&v[2]).to_string(),
                    value: Box::new(to_value(&v[3])),
                }),
                t => panic!("bad value tag {}", t),
            }
        }
    }
}

/// Parse a replay file into its key/value lines.
pub fn parse_case(text: &str) -> Vec<(String, String)> {
    text.lines()
        .filter_map(|l| l.split_once('='))
        .map(|(k, v)| {
            let mut o = String::new();
            let mut it = v.chars();
            while let Some(c) = it.next() {
                if c == '\\' {
                    match it.next() {
                        Some('n') => o.push('\n'),
                        Some(c) => o.push(c),
                        None => {}
                    }
                } else {
                    o.push(c);
                }
            }
            (k.to_string(), o)
        })
        .collect()
}
