//! C26: decoding into a buffer that is used again. Histories of readings through one buffer, good
//! and failing in every way, each reading compared with one into memory of its own.
use super::{space, util::get};
use binschema::{error::{Error, ErrorKind}, schema, CoderState, Decoder, Schema};
use mcore::{
    alloc::with_limit,
    io::{Fault, FAULTS},
    refm,
    report::{guard, in_case, kv, par_for, Run},
};
use std::{
    io::{self, Read},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::atomic::Ordering::Relaxed,
};

// ---- sources ----

/// How a source's bytes come to an end.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Eof,
    Fault(Fault),
    Panic,
}

/// How a source hands out its bytes.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Pace {
    Whole,
    /// so many bytes per call
    Bytes(usize),
    /// so many bytes per call, every other call interrupted
    Interrupted(usize),
}

struct Src<'a> {
    data: &'a [u8],
    pos: usize,
    end: End,
    pace: Pace,
    calls: u64,
}

const PANIC: &str = "the source panics";

impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        let most = match self.pace {
            Pace::Whole => usize::MAX,
            Pace::Bytes(n) => n,
            Pace::Interrupted(n) => {
                if self.calls & 1 == 1 {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                n
            }
        };
        let n = most.min(buf.len()).min(self.data.len() - self.pos);
        if n == 0 {
            return match self.end {
                End::Eof | End::Fault(Fault::Zero) => Ok(0),
                End::Fault(Fault::Err(k)) => Err(io::Error::new(k, mcore::io::Marker(26))),
                End::Panic => panic!("{}", PANIC),
            };
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// ---- the two kinds of buffers ----

trait Buf: Default + Clone + PartialEq + 'static {
    const NAME: &'static str;
    const STR: bool;
    fn schema() -> Schema {
        if Self::STR { schema!(str) } else { schema!(bytes) }
    }
    /// content of so many bytes
    fn content(len: usize, pattern: usize) -> Vec<u8>;
    fn make(cap: usize, held: usize) -> Self;
    fn bytes(&self) -> &[u8];
    fn cap(&self) -> usize;
    fn place(&self) -> usize;
    fn into<R: Read>(&mut self, d: &mut Decoder<R>) -> Result<(), Error>;
    fn fresh<R: Read>(d: &mut Decoder<R>) -> Result<Self, Error>;
}

impl Buf for String {
    const NAME: &'static str = "str";
    const STR: bool = true;
    fn content(len: usize, pattern: usize) -> Vec<u8> {
        let menu: &[&str] = match pattern {
            0 => &["a", "b", "c", "0", " ", "\0", "~"],
            _ => &["\u{10ffff}", "é", "\u{ffff}", "ß", "x", "😀", "€"],
        };
        let mut o = Vec::new();
        for i in 0.. {
            let c = menu[i % menu.len()].as_bytes();
            if o.len() + c.len() > len {
                break;
            }
            o.extend_from_slice(c);
        }
        o.resize(len, b'z');
        o
    }
    fn make(cap: usize, held: usize) -> Self {
        let mut s = String::with_capacity(cap);
        s.extend(std::iter::repeat('#').take(held));
        s
    }
    fn bytes(&self) -> &[u8] {
        self.as_bytes()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn place(&self) -> usize {
        self.as_ptr() as usize
    }
    fn into<R: Read>(&mut self, d: &mut Decoder<R>) -> Result<(), Error> {
        d.decode_str_into(self)
    }
    fn fresh<R: Read>(d: &mut Decoder<R>) -> Result<Self, Error> {
        d.decode_str()
    }
}

impl Buf for Vec<u8> {
    const NAME: &'static str = "bytes";
    const STR: bool = false;
    fn content(len: usize, pattern: usize) -> Vec<u8> {
        (0..len).map(|i| if pattern == 0 { i as u8 } else { 0xff - (i % 7) as u8 * 37 }).collect()
    }
    fn make(cap: usize, held: usize) -> Self {
        let mut s = Vec::with_capacity(cap);
        s.extend(std::iter::repeat(0xeeu8).take(held));
        s
    }
    fn bytes(&self) -> &[u8] {
        self
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn place(&self) -> usize {
        self.as_ptr() as usize
    }
    fn into<R: Read>(&mut self, d: &mut Decoder<R>) -> Result<(), Error> {
        d.decode_bytes_into(self)
    }
    fn fresh<R: Read>(d: &mut Decoder<R>) -> Result<Self, Error> {
        d.decode_bytes()
    }
}

// ---- steps ----

/// One reading.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Step {
    /// content of so many bytes, of a pattern
    Ok(usize, usize),
    /// something else is due (index in [`other`])
    Wrong(usize),
    /// a length that is none
    BadLen(usize),
    /// so many bytes declared, so many there; then the source ends so
    Cut(usize, usize, End),
    /// the length itself is cut off after so many bytes
    CutLen(usize, usize, End),
    /// so many bytes, at one place not UTF-8 (index in [`ILL`])
    Utf8(usize, usize, usize),
    /// on a coder that is broken
    Broken,
    /// on a coder that is finished
    Finished,
}

const ILL: [&[u8]; 8] = [b"\xff", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xf0\x9f\x98"];

/// Schemas of something else.
fn other<B: Buf>(i: usize) -> Schema {
    let own = B::schema();
    match i {
        0 if B::STR => schema!(bytes),
        0 => schema!(str),
        1 => schema!(u8),
        2 => Schema::Unit,
        3 => super::util::option(own),
        4 => super::util::seq(None, u8s()),
        _ => super::util::st(vec![("a", own)]),
    }
}
fn u8s() -> Schema {
    super::util::u8s()
}

fn end_text(e: End) -> String {
    match e {
        End::Eof => "eof".into(),
        End::Panic => "panic".into(),
        End::Fault(f) => f.name(),
    }
}
fn end_parse(s: &str) -> End {
    match s {
        "eof" => End::Eof,
        "panic" => End::Panic,
        f => End::Fault(Fault::parse(f)),
    }
}

impl Step {
    fn text(&self) -> String {
        match self {
            Step::Ok(n, p) => format!("ok:{}:{}", n, p),
            Step::Wrong(i) => format!("wrong:{}", i),
            Step::BadLen(i) => format!("badlen:{}", i),
            Step::Cut(n, k, e) => format!("cut:{}:{}:{}", n, k, end_text(*e)),
            Step::CutLen(n, k, e) => format!("cutlen:{}:{}:{}", n, k, end_text(*e)),
            Step::Utf8(n, k, i) => format!("utf8:{}:{}:{}", n, k, i),
            Step::Broken => "broken".into(),
            Step::Finished => "finished".into(),
        }
    }
    fn parse(s: &str) -> Step {
        let v: Vec<&str> = s.split(':').collect();
        let n = |i: usize| v[i].parse::<usize>().expect("number");
        match v[0] {
            "ok" => Step::Ok(n(1), n(2)),
            "wrong" => Step::Wrong(n(1)),
            "badlen" => Step::BadLen(n(1)),
            "cut" => Step::Cut(n(1), n(2), end_parse(v[3])),
            "cutlen" => Step::CutLen(n(1), n(2), end_parse(v[3])),
            "utf8" => Step::Utf8(n(1), n(2), n(3)),
            "broken" => Step::Broken,
            "finished" => Step::Finished,
            x => panic!("unknown step {}", x),
        }
    }
}

/// What a step's source holds, how it ends, the content if the reading is to succeed, and the
/// bytes there are of a content.
struct Feed {
    data: Vec<u8>,
    end: End,
    content: Option<Vec<u8>>,
    there: Vec<u8>,
    /// bytes a buffer has to have room for so that it needs no more
    need: usize,
}

fn feed<B: Buf>(s: Step) -> Feed {
    let none = |data: Vec<u8>, end: End| Feed { data, end, content: None, there: vec![], need: 0 };
    match s {
        Step::Ok(n, p) => {
            let c = B::content(n, p);
            let mut data = refm::uint(n as u128);
            data.extend(&c);
            // more behind it, that is not its
            data.extend(b"\x05after");
            Feed { data, end: End::Panic, there: c.clone(), content: Some(c), need: n }
        }
        Step::Wrong(_) | Step::Broken | Step::Finished => none(b"\x03abc".to_vec(), End::Panic),
        Step::BadLen(i) => none(
            match i {
                0 => refm::uint(1 << 64),
                1 => refm::uint(u128::MAX),
                2 => [vec![0x80; 19], vec![0, 1, 2]].concat(),
                _ => vec![0xff; 40],
            },
            End::Panic,
        ),
        Step::Cut(n, k, end) => {
            let c = if n <= 1 << 20 { B::content(n, 0) } else { B::content(k, 0) };
            let mut data = refm::uint(n as u128);
            data.extend(&c[..k]);
            Feed { data, end, content: None, there: c[..k].to_vec(), need: n }
        }
        Step::CutLen(n, k, end) => none(refm::uint(n as u128)[..k].to_vec(), end),
        Step::Utf8(n, k, i) => {
            let mut c = B::content(n, 0);
            let ill = ILL[i];
            let k = k.min(n.saturating_sub(ill.len()));
            let m = ill.len().min(n);
            c[k..k + m].copy_from_slice(&ill[..m]);
            let mut data = refm::uint(n as u128);
            data.extend(&c);
            let good = !B::STR;
            Feed { data, end: End::Panic, there: c.clone(), content: if good { Some(c) } else { None }, need: n }
        }
    }
}

/// How the coders of a history are had.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Coders {
    /// a new one for every step
    New,
    /// one for as many steps as it lasts, the values in a tuple
    Same,
}

fn step_schema<B: Buf>(s: Step) -> Schema {
    match s {
        Step::Wrong(i) => other::<B>(i),
        _ => B::schema(),
    }
}

enum Got<B> {
    Ok(Option<B>),
    Err(ErrorKind),
    Panic,
}
impl<B> Got<B> {
    fn name(&self) -> String {
        match self {
            Got::Ok(_) => "success".into(),
            Got::Err(k) => format!("{:?}", k),
            Got::Panic => "a panic".into(),
        }
    }
}

fn got<B>(f: impl FnOnce() -> Result<Option<B>, Error>) -> Result<Got<B>, String> {
    match guard(f) {
        Ok(Ok(x)) => Ok(Got::Ok(x)),
        Ok(Err(e)) => Ok(Got::Err(e.kind())),
        Err(m) if m.contains(PANIC) => Ok(Got::Panic),
        Err(m) => Err(m),
    }
}

/// Do one step on a coder state and its twin (`twin` reads into memory of its own).
fn step<B: Buf>(st: &mut CoderState, twin: &mut CoderState, s: Step, pace: Pace, buf: &mut B) -> Result<bool, String> {
    let f = feed::<B>(s);
    let src = || Src { data: &f.data, pos: 0, end: f.end, pace, calls: 0 };
    let (before_cap, before_place) = (buf.cap(), buf.place());
    let (mut a, mut b) = (src(), src());
    let limit = 64 * f.data.len() + before_cap + (64 << 10);
    let mine: Got<B> = got(|| with_limit(limit, limit, || buf.into(&mut Decoder::new(st, &mut a)).map(|_| None)))?;
    let theirs: Got<B> = got(|| B::fresh(&mut Decoder::new(twin, &mut b)).map(Some))?;
    if let Err(e) = std::str::from_utf8(buf.bytes()) {
        if B::STR {
            return Err(format!("{}: the String buffer now holds what is not UTF-8: {}", s.text(), e));
        }
    }
    let held = format!("{} bytes, beginning {:02x?}", buf.bytes().len(), &buf.bytes()[..buf.bytes().len().min(16)]);
    // the outcome, by what was given
    match (&mine, &f.content) {
        (Got::Ok(_), Some(c)) if !matches!(s, Step::Wrong(_) | Step::Broken | Step::Finished) => {
            if buf.bytes() != &c[..] {
                return Err(format!("{}: the buffer holds {} instead of the {} bytes that were read", s.text(), held, c.len()));
            }
        }
        (Got::Ok(_), _) => return Err(format!("{}: succeeded, the buffer holding {}", s.text(), held)),
        (_, Some(_)) => return Err(format!("{}: {} on a good value", s.text(), mine.name())),
        (Got::Err(_), None) => {
            if B::STR && !buf.bytes().is_empty() {
                return Err(format!("{}: failed, and the String buffer is not empty: {}", s.text(), held));
            }
            if !f.there.starts_with(buf.bytes()) {
                return Err(format!("{}: failed, and the buffer holds something else than was read: {}", s.text(), held));
            }
        }
        (Got::Panic, None) => {
            if !f.there.starts_with(buf.bytes()) {
                return Err(format!("{}: the source panicked, and the buffer holds something else than was read: {}", s.text(), held));
            }
        }
    }
    // the same as into memory of its own
    if mine.name() != theirs.name() {
        return Err(format!("{}: {} into the buffer, {} into memory of its own", s.text(), mine.name(), theirs.name()));
    }
    if let Got::Ok(Some(x)) = &theirs {
        if x.bytes() != buf.bytes() {
            return Err(format!("{}: another value than into memory of its own; the buffer holds {}", s.text(), held));
        }
    }
    if a.pos != b.pos {
        return Err(format!("{}: takes {} bytes into the buffer, {} into memory of its own", s.text(), a.pos, b.pos));
    }
    let look = |st: &CoderState| format!("{:?} finished {}", st, st.is_finished());
    if !matches!(mine, Got::Panic) && look(st) != look(twin) {
        return Err(format!("{}: leaves the coder otherwise than reading into memory of its own does: {} / {}", s.text(), look(st), look(twin)));
    }
    // the allocation
    if !matches!(mine, Got::Panic) {
        if buf.cap() < before_cap {
            return Err(format!("{}: the buffer had room for {} bytes and now has for {}", s.text(), before_cap, buf.cap()));
        }
        if f.need <= before_cap && (buf.place() != before_place || buf.cap() != before_cap) {
            return Err(format!("{}: {} bytes into a buffer with room for {} gave it another allocation", s.text(), f.need, before_cap));
        }
    }
    Ok(matches!(mine, Got::Ok(_)) || matches!(s, Step::Wrong(_)))
}

/// (capacity, bytes held)
type Start = (usize, usize);

fn history<B: Buf>(steps: &[Step], start: Start, coders: Coders, pace: Pace) -> Result<(), String> {
    let mut buf = B::make(start.0, start.1);
    let mut i = 0;
    while i < steps.len() {
        match (coders, steps[i]) {
            (_, Step::Broken) => {
                let s = B::schema();
                let mut pair = [CoderState::new(&s, Default::default(), None), CoderState::new(&s, Default::default(), None)];
                for st in &mut pair {
                    if B::fresh(&mut Decoder::new(st, &mut &b""[..])).is_ok() {
                        return Err("read a value from nothing".into());
                    }
                }
                let [a, b] = &mut pair;
                step(a, b, steps[i], pace, &mut buf)?;
                i += 1;
            }
            (_, Step::Finished) => {
                let s = B::schema();
                let mut pair = [CoderState::new(&s, Default::default(), None), CoderState::new(&s, Default::default(), None)];
                for st in &mut pair {
                    B::fresh(&mut Decoder::new(st, &mut &b"\x00"[..])).map_err(|e| format!("an empty value: {}", e))?;
                }
                let [a, b] = &mut pair;
                step(a, b, steps[i], pace, &mut buf)?;
                i += 1;
            }
            (Coders::New, s) => {
                let schema = step_schema::<B>(s);
                let mut a = CoderState::new(&schema, Default::default(), None);
                let mut b = CoderState::new(&schema, Default::default(), None);
                step(&mut a, &mut b, s, pace, &mut buf)?;
                i += 1;
            }
            (Coders::Same, _) => {
                // the steps up to the next one with a coder of its own, and one behind a rejected
                // call takes the part's place no more
                let rest: Vec<Step> = steps[i..].iter().copied().take_while(|s| !matches!(s, Step::Broken | Step::Finished)).collect();
                let upto = rest.iter().position(|s| matches!(s, Step::Wrong(_))).map_or(rest.len(), |p| p + 1);
                let rest = &rest[..upto];
                let schema = Schema::Tuple(rest.iter().map(|s| step_schema::<B>(*s)).collect());
                let mut a = CoderState::new(&schema, Default::default(), None);
                let mut b = CoderState::new(&schema, Default::default(), None);
                for st in [&mut a, &mut b] {
                    Decoder::new(st, &mut io::empty()).begin_tuple().map_err(|e| format!("begin_tuple: {}", e))?;
                }
                for s in rest {
                    i += 1;
                    for st in [&mut a, &mut b] {
                        Decoder::new(st, &mut io::empty()).begin_tuple_elem().map_err(|e| format!("begin_tuple_elem: {}", e))?;
                    }
                    if !step(&mut a, &mut b, *s, pace, &mut buf)? {
                        break;
                    }
                }
            }
        }
    }
    Ok(())
}

// ---- enumeration ----

fn pace_text(p: Pace) -> String {
    match p {
        Pace::Whole => "whole".into(),
        Pace::Bytes(n) => format!("bytes:{}", n),
        Pace::Interrupted(n) => format!("interrupted:{}", n),
    }
}
fn pace_parse(s: &str) -> Pace {
    let v: Vec<&str> = s.split(':').collect();
    match v[0] {
        "whole" => Pace::Whole,
        "bytes" => Pace::Bytes(v[1].parse().unwrap()),
        _ => Pace::Interrupted(v[1].parse().unwrap()),
    }
}

fn one<B: Buf>(r: &Run, steps: &[Step], start: Start, coders: Coders, pace: Pace) {
    let case = || {
        vec![
            kv("kind", "into"),
            kv("buffer", B::NAME),
            kv("steps", steps.iter().map(|s| s.text()).collect::<Vec<_>>().join(" ")),
            kv("start", format!("{}:{}", start.0, start.1)),
            kv("coders", format!("{:?}", coders)),
            kv("pace", pace_text(pace)),
        ]
    };
    in_case(&case, || {
        let res = match catch_unwind(AssertUnwindSafe(|| history::<B>(steps, start, coders, pace))) {
            Ok(x) => Ok(x),
            Err(_) => Err("panicked".to_string()),
        };
        space::report(r, &case, res);
        r.traces.fetch_add(1, Relaxed);
        r.transitions.fetch_add(steps.len() as u64, Relaxed);
    })
}

const LENS: [usize; 22] = [0, 1, 2, 3, 5, 31, 32, 33, 64, 127, 128, 129, 255, 256, 300, 4095, 4096, 4097, 8191, 8193, 16384, 70000];

fn single_menu(r: &Run) -> Vec<Step> {
    let mut o = Vec::new();
    for n in LENS {
        for p in 0..2 {
            o.push(Step::Ok(n, p));
        }
        let cuts: Vec<usize> = if n <= r.pick(130, 300) { (0..n).collect() } else { near(n) };
        for &k in &cuts {
            o.push(Step::Cut(n, k, End::Eof));
            o.push(Step::Cut(n, k, End::Panic));
            o.push(Step::Cut(n, k, End::Fault(FAULTS[k % FAULTS.len()])));
        }
        for &k in &cuts {
            for i in 0..ILL.len() {
                o.push(Step::Utf8(n, k, i));
            }
        }
        for k in 0..refm::uint(n as u128).len() {
            for e in [End::Eof, End::Panic].into_iter().chain(FAULTS.map(End::Fault)) {
                o.push(Step::CutLen(n, k, e));
                if n > 0 {
                    o.push(Step::Cut(n, 0, e));
                    o.push(Step::Cut(n, n - 1, e));
                }
            }
        }
    }
    // far more declared than there is
    for n in [1 << 21, 1 << 31, 1 << 32, u32::MAX as usize, i64::MAX as usize, 1 << 63, usize::MAX] {
        for k in [0, 1, 33, 4095, 4096, 4097, 70000] {
            o.push(Step::Cut(n, k, End::Eof));
            o.push(Step::Cut(n, k, End::Panic));
            o.push(Step::Cut(n, k, End::Fault(Fault::Err(io::ErrorKind::Other))));
        }
    }
    for i in 0..6 {
        o.push(Step::Wrong(i));
    }
    for i in 0..4 {
        o.push(Step::BadLen(i));
    }
    o.push(Step::Broken);
    o.push(Step::Finished);
    o
}

fn near(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 31, 32, 33, 127, 128, 1023, 1024, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16383, 16384, 16385, 32768, 65536, n / 2, n - 2, n - 1]
        .into_iter()
        .filter(|&k| k < n)
        .collect();
    v.sort();
    v.dedup();
    v
}

fn starts(n: usize) -> Vec<Start> {
    let mut o = vec![(0, 0), (1, 1), (8, 8), (40, 3), (4096, 4096), (5000, 10), (100_000, 100_000), (100_000, 0)];
    for c in [n.saturating_sub(1), n, n + 1] {
        o.push((c, c));
        o.push((c, c / 2));
    }
    o.sort();
    o.dedup();
    o
}

fn len_of(s: Step) -> usize {
    match s {
        Step::Ok(n, _) | Step::Cut(n, _, _) | Step::CutLen(n, _, _) | Step::Utf8(n, _, _) if n <= 1 << 20 => n,
        _ => 5,
    }
}

/// A menu for longer histories.
fn short_menu(large: bool) -> Vec<Step> {
    let other = End::Fault(Fault::Err(io::ErrorKind::Other));
    let mut o = vec![
        Step::Ok(0, 0),
        Step::Ok(1, 0),
        Step::Ok(33, 1),
        Step::Ok(300, 1),
        Step::Ok(4097, 0),
        Step::Wrong(0),
        Step::Wrong(1),
        Step::BadLen(0),
        Step::BadLen(2),
        Step::Cut(1, 0, End::Eof),
        Step::Cut(300, 299, other),
        Step::Cut(5000, 4096, End::Eof),
        Step::Cut(usize::MAX, 40, End::Eof),
        Step::Cut(33, 20, End::Panic),
        Step::CutLen(300, 1, End::Eof),
        Step::Utf8(300, 299, 0),
        Step::Utf8(4097, 0, 3),
        Step::Broken,
        Step::Finished,
    ];
    if large {
        o.extend([
            Step::Ok(2, 1),
            Step::Ok(32, 0),
            Step::Ok(127, 1),
            Step::Ok(128, 0),
            Step::Ok(4096, 1),
            Step::Ok(8193, 1),
            Step::Ok(70000, 0),
            Step::Wrong(3),
            Step::BadLen(3),
            Step::Cut(2, 1, End::Panic),
            Step::Cut(70000, 69999, End::Eof),
            Step::Cut(8193, 1, other),
            Step::Cut(1 << 32, 4097, End::Panic),
            Step::CutLen(70000, 2, other),
            Step::Utf8(1, 0, 1),
            Step::Utf8(33, 10, 5),
        ]);
    }
    o
}

fn explore<B: Buf>(r: &Run) {
    let paces = [Pace::Whole, Pace::Bytes(1), Pace::Bytes(7), Pace::Interrupted(33), Pace::Interrupted(4096)];
    let menu = single_menu(r);
    par_for(menu.len(), |i| {
        let s = menu[i];
        for start in starts(len_of(s)) {
            for pace in paces {
                if pace == Pace::Bytes(1) && len_of(s) > 9000 {
                    continue;
                }
                for coders in [Coders::New, Coders::Same] {
                    one::<B>(r, &[s], start, coders, pace);
                }
            }
        }
    });
    menu.iter().for_each(|s| r.state(|| format!("{} {}", B::NAME, s.text())));
    r.count("single readings of a kind", menu.len() as u64);
    let pairs = short_menu(true);
    par_for(pairs.len() * pairs.len(), |i| {
        let h = [pairs[i / pairs.len()], pairs[i % pairs.len()]];
        for start in [(0, 0), (1, 1), (300, 300), (5000, 100), (100_000, 9)] {
            for coders in [Coders::New, Coders::Same] {
                for pace in [Pace::Whole, Pace::Interrupted(40)] {
                    one::<B>(r, &h, start, coders, pace);
                }
            }
        }
    });
    r.count("histories of two readings", (pairs.len() * pairs.len()) as u64);
    let m = short_menu(false);
    let depth = r.pick(3, 4);
    let n = m.len().pow(depth as u32);
    par_for(n, |mut i| {
        let mut h = Vec::new();
        for _ in 0..depth {
            h.push(m[i % m.len()]);
            i /= m.len();
        }
        for start in [(0, 0), (300, 300)] {
            for coders in [Coders::New, Coders::Same] {
                one::<B>(r, &h, start, coders, Pace::Whole);
            }
        }
    });
    r.count("longest histories", n as u64);
    r.note("longest history", depth);
    if !r.quick() {
        let pairs = short_menu(true);
        let n = pairs.len().pow(3);
        par_for(n, |mut i| {
            let mut h = Vec::new();
            for _ in 0..3 {
                h.push(pairs[i % pairs.len()]);
                i /= pairs.len();
            }
            for start in [(0, 0), (300, 300), (5000, 1)] {
                for coders in [Coders::New, Coders::Same] {
                    one::<B>(r, &h, start, coders, Pace::Bytes(5000));
                }
            }
        });
        r.count("histories of three readings of the large menu", n as u64);
    }
}

pub fn c26(r: &Run) {
    r.rule("every reading of a menu (good, refused, malformed, cut off or failing at each place, panicking source) into buffers of every state, and every history of such readings through one buffer up to a depth; each compared with its given content and with a twin coder that reads into memory of its own");
    explore::<String>(r);
    explore::<Vec<u8>>(r);
}

pub fn replay(r: &Run, kvs: &[(String, String)]) {
    let steps: Vec<Step> = get(kvs, "steps").split(' ').map(Step::parse).collect();
    let (a, b) = get(kvs, "start").split_once(':').unwrap();
    let start = (a.parse().unwrap(), b.parse().unwrap());
    let coders = if get(kvs, "coders") == "New" { Coders::New } else { Coders::Same };
    let pace = pace_parse(get(kvs, "pace"));
    match get(kvs, "buffer") {
        "str" => one::<String>(r, &steps, start, coders, pace),
        _ => one::<Vec<u8>>(r, &steps, start, coders, pace),
    }
}
