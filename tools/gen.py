#!/usr/bin/env python3
"""Checks over generated programs: C14 (type definitions) and C21 (terms of the schema macro).

gen.py check C14|C21 quick|thorough     generate all programs of the bound, build, run
"""
import itertools, os, re, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = os.path.join(ROOT, "generated")
TARGET = os.environ.get("CARGO_TARGET_DIR", os.path.join(ROOT, "target"))
PARTS = 8

# ---- C14: type definitions ----
# a content is ("unit",), ("tuple", [type...]) or ("named", [(name, type)...]); a type is Rust text
# or (text, n): a field marked #[schema(recurse = n)], or (text, n, attributes as they are written)
# (with n None: attributes which are not about the schema)


class Def:
    def __init__(self, name, content=None, variants=None, attrs="", vattrs="", mod=None):
        self.name, self.content, self.variants = name, content, variants
        self.attrs, self.vattrs, self.mod = attrs, vattrs, mod

    def path(self):
        return "%s::%s" % (self.mod, self.name) if self.mod else self.name


class Nested:
    """Definitions of the same names in nested blocks of a function: [[Def...] of each block]; in
    an inner block, OuterX is the X of the block around it."""
    def __init__(self, *levels):
        self.levels = levels


def ftype(t):
    return t[0] if isinstance(t, tuple) else t


def fattr(t):
    if not isinstance(t, tuple):
        return ""
    return t[2] + " " if len(t) > 2 else "#[schema(recurse = %d)] " % t[1]


def ident(n):
    return n[2:] if n.startswith("r#") else n


def content_decl(c, pub, end):
    if c[0] == "unit":
        return end
    if c[0] == "tuple":
        return "(" + ", ".join(fattr(t) + pub + ftype(t) for t in c[1]) + ")" + end
    return " { " + ", ".join("%s%s%s: %s" % (fattr(t), pub, n, ftype(t)) for n, t in c[1]) + " }"


def field_schema(t):
    return "binschema::Schema::Recurse(%d)" % t[1] if isinstance(t, tuple) and t[1] is not None else "<%s as Ty>::sch(c)" % ftype(t)


def content_fields(c):
    return [] if c[0] == "unit" else c[1] if c[0] == "tuple" else [t for _, t in c[1]]


def content_schema(c, layer):
    """layer: how the node of this content is entered."""
    if c[0] == "unit" or (c[0] == "tuple" and not c[1]):
        return "Schema::Unit"
    if c[0] == "tuple" and len(c[1]) == 1:
        return field_schema(c[1][0])
    if c[0] == "tuple":
        return "Schema::Tuple(%s(|c| vec![%s]))" % (layer, ", ".join(field_schema(t) for t in c[1]))
    return "%s(|c| struct_schema(vec![%s]))" % (layer, ", ".join('("%s", %s)' % (ident(n), field_schema(t)) for n, t in c[1]))


def content_value(c, names):
    vals = ["Ty::value(%s, canon)" % x for x in names]
    if c[0] == "unit" or not vals and c[0] == "tuple":
        return "Val::Unit"
    if c[0] == "tuple" and len(vals) == 1:
        return vals[0]
    if c[0] == "tuple":
        return "Val::Tuple(vec![%s])" % ", ".join(vals)
    return "struct_value(vec![%s])" % ", ".join('("%s", %s)' % (ident(n), v) for (n, _), v in zip(c[1], vals))


def content_build(path, c, exprs):
    if c[0] == "unit":
        return path
    if c[0] == "tuple":
        return "%s(%s)" % (path, ", ".join(exprs))
    return "%s { %s }" % (path, ", ".join("%s: %s" % (n, e) for (n, _), e in zip(c[1], exprs)))


def content_pattern(path, c):
    return content_build(path, c, ["f%d" % i for i in range(len(content_fields(c)))])


def content_menu(path, c):
    fs = content_fields(c)
    if not fs:
        return "vec![%s]" % content_build(path, c, [])
    lets = " ".join("let m%d = <%s as Ty>::menu(p);" % (i, ftype(t)) for i, t in enumerate(fs))
    lens = ", ".join("m%d.len()" % i for i in range(len(fs)))
    return "{ %s combos(&[%s], b.width).into_iter().map(|ix| %s).collect::<Vec<Self>>() }" % (
        lets, lens, content_build(path, c, ["m%d[ix[%d]].clone()" % (i, i) for i in range(len(fs))]))


def def_text(d, derives):
    o = d.attrs + "#[derive(%s, Serialize, Deserialize, KnownSchema)]\n" % ", ".join(["Clone"] + derives)
    N = d.name
    if d.variants is None:
        c = d.content
        o += "pub struct %s%s\n" % (N, content_decl(c, "pub ", ";"))
        if c[0] == "tuple" and len(c[1]) == 1:
            body = "c.newtype::<Self, _>(|c| %s)" % content_schema(c, None)
        else:
            body = content_schema(c, "c.named::<Self, _>")
        menu = content_menu(N, c)
        value = "match self { %s => %s }" % (content_pattern(N, c), content_value(c, ["f%d" % i for i in range(len(content_fields(c)))]))
    else:
        o += "pub enum %s { %s }\n" % (N, ", ".join(d.vattrs + n + content_decl(c, "", "") for n, c in d.variants))
        body = "c.named::<Self, _>(|c| enum_schema(vec![%s]))" % ", ".join(
            '("%s", %s)' % (ident(n), content_schema(c, "c.layer")) for n, c in d.variants)
        menu = "{ let mut o: Vec<Self> = Vec::new(); %s choose(o, b.width.max(%d)) }" % (
            " ".join("o.extend(%s);" % content_menu("%s::%s" % (N, n), c) for n, c in d.variants), min(len(d.variants), 8))
        arms = ", ".join('%s => enum_value(%d, "%s", %s)' % (
            content_pattern("%s::%s" % (N, n), c), i, ident(n), content_value(c, ["f%d" % k for k in range(len(content_fields(c)))]))
            for i, (n, c) in enumerate(d.variants))
        value = "match self { %s }" % arms if d.variants else "match *self {}"
    o += """impl Ty for %s {
    fn sch(c: &mut Ctx) -> Schema {
        if let Some(n) = c.find::<Self>() { return Schema::Recurse(n); }
        %s
    }
    fn menu(b: Budget) -> Vec<Self> {
        let Some(b) = b.deeper() else { return vec![] };
        let p = b.part();
        %s
    }
    fn value(&self, canon: bool) -> Val { %s }
}
""" % (N, body, menu, value)
    if d.mod:
        o = "pub mod %s {\nuse super::*;\n%s}\n" % (d.mod, o)
    return o


def system_text(sys):
    """The text of a system and of the body of its `jobs`."""
    kind, defs, roots, derives = sys
    o, jobs = "", ""
    if isinstance(defs, Nested):
        end = ""
        for k, level in enumerate(defs.levels):
            text = "".join(def_text(d, derives) for d in level)
            text += "".join("j.push(job::<%s>());\n" % d.name for d in level)
            text += "".join("j.push(schema_job::<%s>());\n" % fill(w, d.name) for d in level for w in roots)
            jobs += "{\n" + text.replace("Outer", "O%d" % (k - 1))
            jobs += "".join("pub type O%d%s = %s;\n" % (k, d.name, d.name) for d in level)
            end += "}\n"
        return "", jobs + end
    for d in defs:
        o += def_text(d, derives)
    # (a level marked by hand is right under one root)
    for d in defs[:1] if kind.startswith("marked") else defs:
        jobs += "    j.push(job::<%s>());\n" % d.path()
        for w in roots:
            jobs += "    j.push(schema_job::<%s>());\n" % fill(w, d.path())
    return o, jobs


# ways a field can hold R, so that values of a type reached through it are finite
WRAPS = [
    "Option<Box<R>>", "Vec<R>", "BTreeMap<u8, R>", "Vec<(u8, R)>", "[Option<Box<R>>; 2]", "(Vec<R>, u8)", "HashMap<String, Vec<R>>",
    "VecDeque<R>", "LinkedList<R>", "HashMap<String, R>", "Vec<Option<R>>", "Option<Vec<R>>", "[Vec<R>; 1]", "Bound<Box<R>>",
    "BTreeMap<u8, Vec<R>>", "Vec<Box<R>>", "Option<Box<(R, u8)>>", "Vec<[R; 2]>", "Vec<Vec<R>>", "Range<Vec<R>>", "RangeInclusive<Option<Box<R>>>",
    "Option<Option<Box<R>>>", "Vec<Bound<R>>", "BTreeMap<String, BTreeMap<u8, R>>", "Box<Vec<R>>", "Cow<'static, [Vec<R>; 1]>", "Vec<Wn<R>>", "Vec<Range<R>>",
]
KEYED = ["BTreeSet<R>", "BTreeMap<R, u8>", "BTreeMap<R, Vec<R>>", "Vec<BTreeMap<R, R>>"]
WRAPS.remove("Vec<Wn<R>>")

# forms of a definition around a hole; enums can also hold a plain Box<R>
FORMS = {
    "s1": lambda n, R: Def(n, ("named", [("f", R)])),
    "s2": lambda n, R: Def(n, ("named", [("a", "u8"), ("f", R)])),
    "s3": lambda n, R: Def(n, ("named", [("f", R), ("a", "String"), ("g", R)])),
    "n1": lambda n, R: Def(n, ("tuple", [R])),
    "t2": lambda n, R: Def(n, ("tuple", [R, "u8"])),
    "t3": lambda n, R: Def(n, ("tuple", ["u8", "()", R])),
    "e1": lambda n, R: Def(n, variants=[("Leaf", ("unit",)), ("N", ("tuple", [R]))]),
    "e2": lambda n, R: Def(n, variants=[("T", ("tuple", ["u8", R])), ("Leaf", ("tuple", ["u16"]))]),
    "e3": lambda n, R: Def(n, variants=[("S", ("named", [("a", R), ("b", "u8")])), ("U", ("unit",))]),
    "e4": lambda n, R: Def(n, variants=[("N", ("tuple", [R])), ("T", ("tuple", [R, R])), ("S", ("named", [("x", R)])), ("U", ("unit",)), ("Z", ("tuple", [])), ("E", ("named", []))]),
}


def fill(w, r):
    return re.sub(r"\bR\b", r, w)


def c14_systems(thorough):
    """[(kind, [Def], root wrappers, derives)]"""
    out = []
    ORD = ["PartialEq", "Eq", "PartialOrd", "Ord"]
    roots = ["Option<R>", "Vec<R>", "(u8, R)", "BTreeMap<u8, R>", "[R; 2]", "Bound<R>", "Range<R>"]
    # one type reaching itself
    for f, mk in FORMS.items():
        for w in WRAPS + KEYED + (["Box<R>"] if f[0] == "e" else []):
            out.append(("self %s %s" % (f, w), [mk("A", fill(w, "A"))], roots, ORD if w in KEYED else []))
    # in several places of one definition, through different containers
    for w1, w2 in itertools.permutations(WRAPS[:7] if thorough else WRAPS[:5], 2):
        a, b = fill(w1, "A"), fill(w2, "A")
        out.append(("self twice struct %s %s" % (w1, w2), [Def("A", ("named", [("x", a), ("k", "u8"), ("y", b)]))], [], []))
        out.append(("self twice enum %s %s" % (w1, w2), [Def("A", variants=[("X", ("tuple", [a, "u8"])), ("Y", ("named", [("y", b)])), ("W", ("tuple", [b])), ("L", ("unit",))])], [], []))
    # two types reaching each other
    two = list(FORMS)
    ws = ["Option<Box<R>>", "Vec<R>", "BTreeMap<u8, R>"] if thorough else ["Option<Box<R>>", "Vec<(u8, R)>"]
    for f, g in itertools.product(two, two):
        for i, (w1, w2) in enumerate(itertools.product(ws, ws)):
            if not thorough and (i + two.index(f) + two.index(g)) % 4:
                continue
            out.append(("mutual %s %s %s %s" % (f, g, w1, w2), [FORMS[f]("A", fill(w1, "B")), FORMS[g]("B", fill(w2, "A"))], [], []))
    # ... one of them directly contained in the other, and reaching back
    for f, g in itertools.product(FORMS, FORMS):
        w = WRAPS[(list(FORMS).index(f) * 3 + list(FORMS).index(g)) % len(WRAPS)]
        if thorough or (list(FORMS).index(f) + list(FORMS).index(g)) % 2 == 0:
            out.append(("contained %s %s %s" % (f, g, w), [FORMS[f]("A", "B"), FORMS[g]("B", fill(w, "A"))], [], []))
            out.append(("contained, itself too %s %s %s" % (f, g, w), [FORMS[f]("A", "(B, B)"), Def("B", ("named", [("up", fill(w, "A")), ("own", "Vec<B>"), ("mid", "Option<Box<B>>")]))], [], []))
    # rings of three, with chords back
    rf = ["s2", "n1", "e2", "e4"] if thorough else ["s2", "n1", "e3"]
    for f, g, h in itertools.product(rf, rf, rf):
        for i, w in enumerate(["Option<Box<R>>", "Vec<R>"]):
            if not thorough and (i + rf.index(f) + rf.index(g)) % 2:
                continue
            back = "(%s, %s, %s)" % (fill(w, "A"), fill(w, "B"), fill(w, "C"))
            out.append(("ring %s %s %s %s" % (f, g, h, w), [FORMS[f]("A", "B"), FORMS[g]("B", "C"), FORMS[h]("C", back)], [], []))
    # chains of newtypes
    nt = lambda n, t: Def(n, ("tuple", [t]))
    for w in WRAPS if thorough else WRAPS[:8]:
        out.append(("newtype chain 2 %s" % w, [nt("A", "B"), nt("B", fill(w, "A"))], roots, []))
        out.append(("newtype chain 3 %s" % w, [nt("A", "B"), nt("B", "C"), nt("C", "(%s, %s, %s)" % tuple(fill(w, x) for x in "ABC"))], [], []))
        out.append(("newtype of a struct %s" % w, [nt("A", "B"), Def("B", ("named", [("x", fill(w, "A")), ("y", fill(w, "B")), ("c", "Vec<C>")])), nt("C", "Option<Box<A>>")], [], []))
        out.append(("newtype between %s" % w, [Def("A", ("named", [("x", "B"), ("y", "Vec<B>")])), nt("B", fill(w, "A"))], [], []))
        out.append(("newtype of a newtype in an enum %s" % w, [Def("A", variants=[("X", ("tuple", ["B"])), ("Y", ("tuple", ["B", "C"]))]), nt("B", "C"), nt("C", fill(w, "A"))], [], []))
    # marked by hand
    out.append(("marked 1", [Def("A", variants=[("L", ("unit",)), ("N", ("tuple", [("Box<A>", 1)])), ("T", ("tuple", [("Box<A>", 2), "u8", ("Box<A>", 2)])), ("S", ("named", [("l", ("Box<A>", 2)), ("k", "u8"), ("r", "Box<A>")]))])], roots, []))
    out.append(("marked 2", [Def("A", variants=[("L", ("unit",)), ("N", ("tuple", ["B"]))]), Def("B", ("named", [("x", ("Box<A>", 2)), ("y", "Option<Box<A>>"), ("z", "Vec<B>")]))], [], []))
    out.append(("marked 3", [Def("A", variants=[("N", ("tuple", ["Vec<B>"])), ("O", ("tuple", [("Box<A>", 1)])), ("L", ("unit",))]), Def("B", ("tuple", ["u8", ("Box<A>", 3)]))], [], []))
    # ... with other attributes around the mark, and the level spelled in other ways
    others = ["/// Of the field.\n", "#[doc = \"text\"] ", "#[allow(unused)] ", "#[serde(default)] ", "/** block */ ", "#[cfg(all())] ", "/// One.\n/// Two.\n"]
    marks = lambda n: ["#[schema(recurse = %s)] " % x for x in ["%d" % n, "%dusize" % n, "0x%x" % n, "0b%s" % bin(n)[2:], "0o%o" % n, "0%d" % n, "%d_" % n]] + ["#[schema(recurse=%d)]" % n, "#[schema(recurse = %d,)]" % n][:1] + ["#[schema(\n recurse\n = %d\n )] " % n]
    spelled = lambda n: [x + m for x in others for m in marks(n)[:1]] + [m + x for x in others for m in marks(n)[:1]] + [x + m + y for x, y in itertools.product(others, others) for m in marks(n)[:1]] + marks(n)
    # (serde's default needs a Default: none of these types has one; the marked field is of another type
    # of the same shape, whose own schema would not be a recurse)
    for i, at in enumerate(a for a in spelled(1) if "default" not in a):
        out.append(("marked newtype variant %d" % i, [Def("A", variants=[("L", ("unit",)), ("N", ("tuple", [("Box<P>", 1, at)]))]), Def("P", variants=[("L", ("unit",)), ("N", ("tuple", ["Box<P>"]))])], [], []))
    for i, at in enumerate(a for a in spelled(2) if "default" not in a):
        out.append(("marked attributed %d" % i, [Def("A", variants=[("L", ("unit",)), ("T", ("tuple", [("Box<P>", 2, at), "u8", ("u8", None, others[i % 3])])), ("S", ("named", [("k", ("u8", None, others[(i + 1) % 3])), ("l", ("Box<P>", 2, at)), ("r", "Box<A>")]))]), Def("P", variants=[("L", ("unit",)), ("T", ("tuple", ["Box<P>", "u8", "u8"])), ("S", ("named", [("k", "u8"), ("l", "Box<P>"), ("r", "Box<P>")]))])], [], []))
    for i, x in enumerate(o for o in others if "default" not in o):
        for f in FORMS:
            d = FORMS[f]("A", ("Vec<A>", None, x))
            d.attrs, d.vattrs = (x if "cfg" not in x else ""), (x if d.variants else "")
            out.append(("attributed %s %d" % (f, i), [d], [], []))
    # the type named Self
    for f, mk in FORMS.items():
        for w in ["Option<Box<R>>", "Vec<(R, u8)>"] + (["Box<R>"] if f[0] == "e" else []):
            out.append(("word Self %s %s" % (f, w), [mk("A", fill(w, "Self"))], [], []))
    # types of the same name, in modules
    same = list(FORMS)
    for f, g in itertools.product(same, same):
        i = same.index(f) + 2 * same.index(g)
        if thorough or i % 3 == 0:
            w = WRAPS[i % 6]
            out.append(("same name, modules %s %s" % (f, g), [FORMS[f]("A", "m::A"), Def("A", FORMS[g]("A", fill(w, "super::A")).content, FORMS[g]("A", fill(w, "super::A")).variants, mod="m")], [], []))
            out.append(("same name, modules, own %s %s" % (f, g), [FORMS[f]("A", "(m::A, n::A)"), Def("A", FORMS[g]("A", fill(w, "A")).content, FORMS[g]("A", fill(w, "A")).variants, mod="m"), Def("A", ("named", [("x", "Vec<A>"), ("y", "Vec<super::A>"), ("z", "Option<Box<super::m::A>>")]), mod="n")], [], []))
    # ... and in blocks of one function
    for f, g in itertools.product(same, same):
        i = same.index(f) + 2 * same.index(g)
        if thorough or i % 3 == 1:
            w = WRAPS[i % 6]
            out.append(("same name, blocks %s %s" % (f, g), Nested([FORMS[f]("A", "u8")], [FORMS[g]("A", "OuterA")]), [], []))
            out.append(("same name, blocks, own %s %s" % (f, g), Nested([FORMS[f]("A", fill(w, "A"))], [FORMS[g]("A", "(OuterA, %s)" % fill(w, "A"))]), [], []))
    out.append(("same name, three blocks", Nested([Def("A", ("named", [("x", "Vec<A>")]))], [Def("A", ("tuple", ["OuterA", "Vec<A>"]))], [Def("A", ("named", [("p", "OuterA"), ("q", "Vec<A>"), ("r", "Vec<OuterA>")]))]), roots, []))
    out.append(("same names, blocks, mutual", Nested([Def("A", ("named", [("x", "Vec<B>")])), Def("B", ("tuple", ["Vec<A>"]))], [Def("A", ("named", [("x", "Vec<B>"), ("o", "OuterB"), ("p", "OuterA")])), Def("B", ("tuple", ["Vec<A>", "OuterA", "OuterB"]))]), roots, []))
    # not recursive: every form over every field type
    plain = ["u8", "u64", "i128", "f64", "char", "bool", "String", "()", "usize", "isize", "Option<u8>", "Option<Option<()>>", "Vec<String>", "[u16; 3]", "[u8; 0]", "(u8,)", "(u8, (String, bool))",
             "BTreeMap<u8, String>", "HashMap<String, Vec<u8>>", "BTreeSet<i32>", "HashSet<u8>", "BinaryHeap<u8>", "LinkedList<()>", "VecDeque<char>", "Range<u8>", "RangeInclusive<i64>", "Bound<String>", "Box<u8>", "Cow<'static, String>"]
    for i, t in enumerate(plain):
        for j, (f, mk) in enumerate(FORMS.items()):
            if thorough or (i + j) % 3 == 0:
                out.append(("plain %s %s" % (f, t), [mk("A", t)], [], []))
    # recursion at every position of contents of every width
    other = ["u8", "String", "()", "Option<u8>", "[u8; 2]", "(u8,)", "Vec<u8>"]
    at = lambda n, k, R: [R if i == k else other[i % 7] for i in range(n)]
    named = lambda ts: [("f%d" % i, x) for i, x in enumerate(ts)]
    widest = 9 if thorough else 6
    for w in ["Option<Box<R>>", "Vec<R>"] + (["BTreeMap<u8, R>", "[Vec<R>; 1]"] if thorough else []):
        R = fill(w, "A")
        for n in range(2, widest + 1):
            every = [at(n, k, R) for k in range(n)]
            out.append(("width %d variants %s" % (n, w), [Def("A", variants=[("L", ("unit",))] + [("T%d" % k, ("tuple", x)) for k, x in enumerate(every)] + [("S%d" % k, ("named", named(x))) for k, x in enumerate(every)])], [], []))
            out.append(("width %d structs %s" % (n, w), [Def("A", ("tuple", [fill(w, "B"), fill(w, "A"), "u8"]))] + [Def("B", ("named", named([fill(w, "T%d" % k) for k in range(n)] + [fill(w, "S%d" % k) for k in range(n)])))] +
                        [Def("T%d" % k, ("tuple", at(n, k, fill(w, "A")))) for k in range(n)] + [Def("S%d" % k, ("named", named(at(n, k, fill(w, "B"))))) for k in range(n)], [], []))
            out.append(("width %d all %s" % (n, w), [Def("A", variants=[("L", ("unit",)), ("T", ("tuple", [R] * n)), ("S", ("named", named([R] * n)))])], [], []))
    # derived types in each other, several times
    for f, g in itertools.product(FORMS, FORMS):
        if thorough or (list(FORMS).index(f) + 2 * list(FORMS).index(g)) % 3 == 0:
            out.append(("nested %s %s" % (f, g), [FORMS[f]("A", "B"), FORMS[g]("B", "(u8, Option<C>)"), Def("C", ("named", [("x", "u8")]))], [], []))
    out.append(("diamond", [Def("A", ("named", [("l", "B"), ("r", "C"), ("m", "Vec<D>")])), Def("B", ("tuple", ["D", "u8"])), Def("C", variants=[("X", ("tuple", ["D"])), ("Y", ("named", [("d", "D"), ("e", "D")]))]), Def("D", ("named", [("v", "Vec<u8>")]))], roots, []))
    out.append(("diamond back", [Def("A", ("named", [("l", "Vec<B>"), ("r", "Vec<C>")])), Def("B", ("tuple", ["Vec<D>", "u8"])), Def("C", variants=[("X", ("tuple", ["Vec<D>"])), ("Y", ("named", [("d", "Vec<D>"), ("e", "Vec<B>")]))]), Def("D", ("named", [("a", "Option<Box<A>>"), ("b", "Option<Box<B>>"), ("c", "Option<Box<C>>")]))], roots, []))
    # sizes and names
    kw = ["r#type", "r#fn", "r#struct", "r#match", "r#enum", "r#mod"]
    out += [
        ("unit struct", [Def("A", ("unit",))], roots, []),
        ("empty tuple struct", [Def("A", ("tuple", []))], roots, []),
        ("empty braces struct", [Def("A", ("named", []))], roots, []),
        ("empty enum", [Def("A", variants=[])], roots, []),
        ("one variant", [Def("A", variants=[("Only", ("unit",))])], roots, []),
        ("one braces variant", [Def("A", variants=[("Only", ("named", []))])], [], []),
        ("raw fields", [Def("A", ("named", [(k, "u8") for k in kw]))], [], []),
        ("raw variants", [Def("A", variants=[(k, ("unit",)) for k in kw] + [("r#loop", ("tuple", ["u8"])), ("r#for", ("named", [("r#in", "u8"), ("r#while", "A2")]))]), Def("A2", ("tuple", ["Vec<A>"]))], [], []),
        ("raw recursive", [Def("A", ("named", [("r#type", "Option<Box<A>>"), ("r#ref", "Vec<r#B>")])), Def("r#B", ("named", [("r#self_", "Option<Box<A>>"), ("r#move", "Vec<r#B>")]))], [], []),
        ("names like the macro's words", [Def("A", ("named", [(n, "u8") for n in ["option", "seq", "varlen", "tuple", "recurse", "unit", "bytes", "stack", "parent_stack", "schema", "s", "inner", "name", "len"]]))], [], []),
        ("variants like the macro's words", [Def("A", variants=[(n, ("tuple", ["u8"])) for n in ["option", "seq", "tuple", "recurse", "unit", "u8_", "stack", "None_", "Schema_"]])], [], []),
        ("names of any script", [Def("A", ("named", [("\u00e9t\u00e9", "u8"), ("\u03b4", "u8"), ("_x", "u8"), ("__", "u8"), ("X1", "u8"), ("aB", "u8")]))], [], []),
        ("names of the prelude", [Def("Vec_", ("named", [("x", "Vec<u8>")])), Def("String_", variants=[("Some", ("tuple", ["u8"])), ("None", ("unit",)), ("Ok", ("tuple", ["Vec_"]))])], [], []),
        ("many fields", [Def("A", ("named", [("f%d" % i, ["u8", "String", "Option<u8>", "()"][i % 4]) for i in range(40)]))], [], []),
        ("many tuple fields", [Def("A", ("tuple", [["u8", "String", "Option<u8>", "()"][i % 4] for i in range(20)]))], [], []),
    ]
    for n in [2, 3, 4, 255, 256, 257] + ([1000] if thorough else []):
        out.append(("%d variants" % n, [Def("A", variants=[("V%d" % i, ("unit",) if i % 3 else ("tuple", ["u8"])) for i in range(n)])], [], []))
    return out


HEAD = """#![allow(unused, non_camel_case_types, non_snake_case, uncommon_codepoints, mixed_script_confusables, confusable_idents)]
use binschema::{KnownSchema, Schema};
use mcore::ty::*;
use serde::{Deserialize, Serialize};
"""
USES = """use super::*;
use std::{borrow::Cow, collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque}, ops::{Bound, Range, RangeInclusive}};
"""

PROFILE = """
[profile.release]
opt-level = 0
debug-assertions = true
overflow-checks = true
debug = 0
panic = "unwind"
codegen-units = 64
incremental = false

[profile.release.package.mcore]
opt-level = 2
"""
DEPS = """
[dependencies]
serde = { version = "1", features = ["derive"] }
binschema = { path = "/repo/binschema" }
mcore = { path = "%s/core" }
""" % ROOT


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    open(path, "w").write(text)


def crates(prop, parts, main):
    """A workspace of library crates (compiled in parallel) and a program."""
    d = os.path.join(GEN, prop.lower())
    name = prop.lower()
    members = ["p%d" % i for i in range(len(parts))]
    write(os.path.join(d, "Cargo.toml"), "[package]\nname = \"%s\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[workspace]\nmembers = [%s]\n%s%s%s" % (
        name, ", ".join('"%s"' % m for m in members), DEPS,
        "".join('%s_%s = { path = "%s" }\n' % (name, m, m) for m in members), PROFILE))
    write(os.path.join(d, "src/main.rs"), main)
    for m, p in zip(members, parts):
        write(os.path.join(d, m, "Cargo.toml"), "[package]\nname = \"%s_%s\"\nversion = \"0.1.0\"\nedition = \"2021\"\n%s" % (name, m, DEPS))
        write(os.path.join(d, m, "src/lib.rs"), p)
    return d


def gen_c14(thorough):
    systems = c14_systems(thorough)
    parts = [[] for _ in range(PARTS)]
    weight = [0] * PARTS
    ntypes = 0
    for k, (kind, defs, roots, derives) in enumerate(systems):
        o = "/// %s\npub mod s%d {\n%s" % (kind, k, USES)
        text, jobs = system_text((kind, defs, roots, derives))
        ntypes += sum(map(len, defs.levels)) if isinstance(defs, Nested) else len(defs)
        o += text + "pub fn jobs(j: &mut Vec<Job>) {\n" + jobs + "}\n}\n"
        i = weight.index(min(weight))
        parts[i].append((k, o))
        weight[i] += len(o)
    texts = [HEAD + "".join(o for _, o in p) + "pub fn jobs(j: &mut Vec<Job>) {\n" + "".join("    s%d::jobs(j);\n" % k for k, _ in p) + "}\n" for p in parts]
    kinds = {}
    for s in systems:
        w = s[0].split()[0]
        kinds[w] = kinds.get(w, 0) + 1
    note = "%d definitions in %d systems: %s" % (ntypes, len(systems), ", ".join("%s %d" % x for x in sorted(kinds.items())))
    main = """use mcore::{alloc::CheckAlloc, report::{self, Tier}, ty::*};
#[global_allocator]
static A: CheckAlloc = CheckAlloc;
fn main() {
    let tier = if std::env::args().nth(2).as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let r = report::init("C14", tier, "model_checking");
    r.rule("a state is a generated type definition (or system of definitions) and a value of it; the derived schema, from every type of the system as the root, is compared with the structural one, and every value of the type's menu is serialized, compared with the reference bytes and read back with bytes following");
    r.note("systems", "%s");
    let mut j = Vec::new();
%s    run_jobs(r, &j, Budget { depth: r.pick(5, 6), width: r.pick(16, 40) });
    r.count("jobs", j.len() as u64);
    r.finish()
}
""" % (note, "".join("    c14_p%d::jobs(&mut j);\n" % i for i in range(PARTS)))
    return crates("C14", texts, main)


# ---- C21: terms of the schema macro ----
# a term is (rust, text): what is written in the macro, and the schema in the checks' text form

LEAVES = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "char", "bool", "str", "bytes", "unit"]


def quote(s):
    return '"' + s + '"'


class Style:
    """How a term is spelled: trailing commas, and how numbers and inner schemas are given."""

    def __init__(self, comma, num, embed):
        self.comma, self.num, self.embed = comma, num, embed


NUMS = [lambda n: str(n), lambda n: "%dusize" % n, lambda n: "{ let k = %d; k }" % n, lambda n: "id(%d)" % n, lambda n: "%d + 1 - 1" % n, lambda n: "vec![0u8; %d].len()" % n, lambda n: "N%d" % n if n <= 4 else "(%d)" % n]
EMBEDS = [None, lambda t, s: "%%schema!(%s)" % t, lambda t, s: "%%parse(r#\"%s\"#)" % s, lambda t, s: "%%{ let x = schema!(%s); x.clone() }" % t, lambda t, s: "%%if id(1) == 1 { schema!(%s) } else { schema!(unit) }" % t]


def spell(t, st, top=True):
    """t: nested tuples ("leaf", name) | ("option", t) | ("seq", n|None, t) | ("tuple", [t]) | ("struct"|"enum", [(name, t)]) | ("recurse", n)."""
    def inner(x):
        s = spell(x, st, False)
        return st.embed(s, text(x)) if st.embed else s

    k = t[0]
    tail = "," if st.comma else ""
    if k == "leaf":
        return t[1]
    if k == "option":
        return "option(%s)" % inner(t[1])
    if k == "seq":
        return "seq(%s)(%s)" % ("varlen" if t[1] is None else st.num(t[1]), inner(t[2]))
    if k == "tuple":
        return "tuple { %s }" % (", ".join("(%s)" % inner(x) for x in t[1]) + (tail if t[1] else ""))
    if k == "struct":
        return "struct { %s }" % (", ".join("(%s: %s)" % (n, inner(x)) for n, x in t[1]) + (tail if t[1] else ""))
    if k == "enum":
        return "enum { %s }" % (", ".join("%s(%s)" % (n, inner(x)) for n, x in t[1]) + (tail if t[1] else ""))
    return "recurse(%s)" % st.num(t[1])


def text(t):
    k = t[0]
    if k == "leaf":
        return t[1]
    if k == "option":
        return "(option %s)" % text(t[1])
    if k == "seq":
        return "(seq %s)" % text(t[2]) if t[1] is None else "(seq %d %s)" % (t[1], text(t[2]))
    if k == "tuple":
        return "(" + " ".join(["tuple"] + [text(x) for x in t[1]]) + ")"
    if k in ("struct", "enum"):
        return "(" + " ".join([k] + ["(%s %s)" % (quote(n), text(x)) for n, x in t[1]]) + ")"
    return "(recurse %d)" % t[1]


def c21_trees(size, leaves, names, memo):
    """All terms of exactly that many nodes."""
    if size in memo:
        return memo[size]
    o = []
    if size == 1:
        o += [("leaf", l) for l in leaves]
        o += [("recurse", n) for n in (0, 1, 2)]
        o += [("tuple", []), ("struct", []), ("enum", [])]
    else:
        for x in c21_trees(size - 1, leaves, names, memo):
            o += [("option", x), ("seq", None, x), ("seq", 0, x), ("seq", 3, x), ("tuple", [x]), ("struct", [(names[0], x)]), ("enum", [(names[0], x)])]
        for a in range(1, size - 1):
            for x in c21_trees(a, leaves, names, memo):
                for y in c21_trees(size - 1 - a, leaves, names, memo):
                    o += [("tuple", [x, y]), ("struct", [(names[0], x), (names[1], y)]), ("enum", [(names[0], x), (names[1], y)])]
    memo[size] = o
    return o


def distinct(t, at=None):
    """The same term with a name of its own at every place, and lengths that tell places apart."""
    at = at or [0]
    at[0] += 1
    k = t[0]
    if k == "option":
        return (k, distinct(t[1], at))
    if k == "seq":
        return (k, t[1] + at[0] if t[1] in (3, 7) else t[1], distinct(t[2], at))
    if k == "tuple":
        return (k, [distinct(x, at) for x in t[1]])
    if k in ("struct", "enum"):
        o = []
        for n, x in t[1]:
            at[0] += 1
            o.append((n + str(at[0]), distinct(x, at)))
        return (k, o)
    return t


def gen_c21(thorough):
    L = lambda n: ("leaf", n)
    trees = []
    for s in (1, 2, 3):
        trees += c21_trees(s, LEAVES if s < 3 else ["u8", "str", "unit"], ["a", "B"], memo=trees_memo(s))
    m = {}
    four = c21_trees(4, ["u8", "str"], ["x", "y"], m)
    trees += four
    if thorough:
        trees += c21_trees(5, None, ["x", "y"], {1: [("leaf", "u8"), ("recurse", 1)]})
    trees = [distinct(t) for t in trees]
    wide = []
    for n in (3, 4, 8, 17, 33, 64):
        ls = [L(LEAVES[i % 17]) for i in range(n)]
        wide += [("tuple", ls), ("struct", [("f%d" % i, x) for i, x in enumerate(ls)]), ("enum", [("V%d" % i, x) for i, x in enumerate(ls)])]
    words = ["option", "seq", "varlen", "tuple", "struct", "enum", "recurse", "unit", "u8", "str", "bytes", "type", "fn", "self", "Self", "crate", "super", "true", "dyn", "async", "_x", "__", "X1", "aB", "caf\u00e9", "\u03b4", "union", "macro_rules", "static", "len", "inner", "schema"]
    for w in words:
        wide += [("struct", [(w, L("u8"))]), ("enum", [(w, L("u8"))]), ("struct", [("a", L("u8")), (w, ("option", L("unit"))), ("b", ("tuple", []))])]
    wide += [("struct", [(w, L("u8")) for w in words]), ("enum", [(w, ("tuple", [L("u8")])) for w in words]), ("struct", [("same", L("u8")), ("same", L("u16"))]), ("enum", [("Same", L("u8")), ("Same", L("u16"))])]
    for d in (10, 30):
        for mk in (lambda x: ("option", x), lambda x: ("seq", None, x), lambda x: ("seq", 7, x), lambda x: ("tuple", [x]), lambda x: ("struct", [("n", x)]), lambda x: ("enum", [("V", x)])):
            t = L("i64")
            for _ in range(d):
                t = mk(t)
            wide.append(distinct(t))
    for n in (0, 1, 2, 127, 128, 255, 256, 65536, 2**32, 2**63, 2**64 - 1):
        wide += [("recurse", n), ("seq", n, L("u8")), ("option", ("recurse", n))]
    terms = [(spell(t, Style(False, NUMS[0], None)), text(t)) for t in trees + wide]
    terms += [(spell(t, Style(True, NUMS[0], None)), text(t)) for t in trees + wide if t[0] in ("tuple", "struct", "enum") or "{" in spell(t, Style(True, NUMS[0], None))]
    small = trees[: 6000 if thorough else 700]
    for i, num in enumerate(NUMS[1:]):
        for j, e in enumerate(EMBEDS):
            for k, t in enumerate(small):
                if thorough and len(text(t)) < 60 and (k + i + j) % 3 == 0 or not thorough and (k + i * 3 + j) % 5 == 0:
                    terms.append((spell(t, Style((i + j + k) % 2 == 0, num, e)), text(t)))
    for e in EMBEDS[1:]:
        for t in trees[:200] + wide[:12]:
            terms.append((e(spell(t, Style(False, NUMS[0], None)), text(t)), text(t)))
            terms.append((spell(t, Style(True, NUMS[0], e)), text(t)))
    # the macro's own spelling, as in the crate and its documentation, and odd spacing
    terms += [
        ("seq(varlen)(tuple { (str), (%schema!(u8)), })", '(seq (tuple str u8))'),
        ("option(%parse(\"(seq u8)\"))", "(option (seq u8))"),
        ("struct{(a:u8),(b:option(u8))}", '(struct ("a" u8) ("b" (option u8)))'),
        ("struct {\n (a\n:\n u8)\n,\n (b : option ( u8 )) , }", '(struct ("a" u8) ("b" (option u8)))'),
        ("enum{A(unit),B(seq(4)(bool))}", '(enum ("A" unit) ("B" (seq 4 bool)))'),
        ("enum { A(struct { (l: recurse(2)), (r: recurse(2)), }), B(u8), }", '(enum ("A" (struct ("l" (recurse 2)) ("r" (recurse 2)))) ("B" u8))'),
    ]
    seen, uniq = set(), []
    for t in terms:
        if t not in seen:
            seen.add(t)
            uniq.append(t)
    parts = [[] for _ in range(PARTS)]
    for i, t in enumerate(uniq):
        parts[i % PARTS].append(t)
    texts = []
    for p in parts:
        o = """#![allow(unused, non_camel_case_types, non_snake_case)]
#![recursion_limit = "256"]
use binschema::{schema, Schema};
const N0: usize = 0; const N1: usize = 1; const N2: usize = 2; const N3: usize = 3; const N4: usize = 4;
fn id(n: usize) -> usize { n }
fn parse(s: &str) -> Schema { mcore::text::parse_schema(s) }
pub type T = (&'static str, &'static str, fn() -> Schema);
"""
        for i in range(0, len(p), 40):
            o += "fn t%d(v: &mut Vec<T>) {\n" % (i // 40)
            for rust, tx in p[i:i + 40]:
                o += "    v.push((r##\"%s\"##, r##\"%s\"##, || schema!(%s)));\n" % (rust, tx, rust)
            o += "}\n"
        o += "pub fn terms(v: &mut Vec<T>) {\n" + "".join("    t%d(v);\n" % (i // 40) for i in range(0, len(p), 40)) + "}\n"
        texts.append(o)
    main = """use mcore::{alloc::CheckAlloc, report::{self, guard, in_case, kv, Tier}, text::{parse_schema, schema_text}};
#[global_allocator]
static A: CheckAlloc = CheckAlloc;
fn main() {
    let tier = if std::env::args().nth(2).as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let r = report::init("C21", tier, "model_checking");
    r.rule("a state is a term of the macro's grammar, spelled in one of its ways (trailing commas, numbers and inner schemas given as expressions); the schema the macro builds is compared with the term's own meaning");
    let mut v = Vec::new();
%s    for (rust, text, f) in &v {
        let case = || vec![kv("term", rust), kv("schema", text)];
        in_case(&case, || match guard(f) {
            Ok(s) if s == parse_schema(text) => {}
            Ok(s) => r.fail(&case, &format!("the macro builds {}", schema_text(&s))),
            Err(e) => r.fail(&case, &e),
        });
        r.state(|| format!("{} => {}", rust, text));
        r.transitions.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        r.traces.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    }
    // embedded expressions are evaluated once, in order
    let case = || vec![kv("term", "expressions evaluated once and in order")];
    in_case(&case, || {
        let log = std::cell::RefCell::new(Vec::new());
        let e = |n: usize| { log.borrow_mut().push(n); n };
        let x = |n: usize| { log.borrow_mut().push(n); binschema::Schema::Recurse(n) };
        let s = binschema::schema!(struct { (a: seq(e(1))(%%x(2))), (b: tuple { (%%x(3)), (recurse(e(4))), (option(%%x(5))), }), (c: enum { A(seq(e(6))(recurse(e(7)))), B(%%x(8)), }) });
        let want = "(struct (\\"a\\" (seq 1 (recurse 2))) (\\"b\\" (tuple (recurse 3) (recurse 4) (option (recurse 5)))) (\\"c\\" (enum (\\"A\\" (seq 6 (recurse 7))) (\\"B\\" (recurse 8)))))";
        if s != parse_schema(want) {
            r.fail(&case, &format!("the macro builds {}", schema_text(&s)));
        }
        if *log.borrow() != (1..=8).collect::<Vec<_>>() {
            r.fail(&case, &format!("evaluated in the order {:?}", log.borrow()));
        }
    });
    r.count("terms", v.len() as u64);
    r.finish()
}
""" % "".join("    c21_p%d::terms(&mut v);\n" % i for i in range(PARTS))
    return crates("C21", texts, main)


_memos = {}


def trees_memo(s):
    return _memos.setdefault(s == 3, {})


def cargo(d, *args):
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    return subprocess.run(["cargo", *args, "--release", "--offline", "--quiet"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def check(prop, tier):
    d = {"C14": gen_c14, "C21": gen_c21}[prop](tier == "thorough")
    p = cargo(d, "build")
    if p.returncode:
        lines = [l for l in p.stdout.splitlines()]
        base = cargo(os.path.join(ROOT, "core"), "build")
        if base.returncode:
            print("the harness does not build against /repo:\n" + "\n".join(base.stdout.splitlines()[-40:]), file=sys.stderr)
            return 2
        # the crate builds, the programs that use it as documented do not
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-build.case" % prop)
        errs = [i for i, l in enumerate(lines) if l.startswith("error")]
        first = errs[0] if errs else 0
        open(path, "w").write("property=%s\nmessage=a generated program does not compile\n" % prop + "\n".join(lines[first:first + 200]) + "\n")
        print("\n".join(lines[first:first + 30]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        write_failed_evidence(prop, tier)
        return 1
    os.environ["VERIF_ROOT"] = ROOT
    return subprocess.run([os.path.join(TARGET, "release", prop.lower()), prop, tier]).returncode


def write_failed_evidence(prop, tier):
    import json
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "rule": "a generated program does not compile", "exhaustive": False, "samples": []},
               "assumptions": [], "wall_s": 0, "violations": 1}, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    if sys.argv[1] == "check":
        sys.exit(check(sys.argv[2], sys.argv[3]))
    if sys.argv[1] == "build":
        p = cargo({"C14": gen_c14, "C21": gen_c21}[sys.argv[2]](sys.argv[3] == "thorough"), "build")
        print(p.stdout)
        sys.exit(p.returncode)
    sys.exit("usage: gen.py check C14|C21 quick|thorough")
