//! Scripted sinks and sources: failures at a byte offset, fragmentation, interruptions.
use binschema::error::{Error, ErrorKind};
use std::{
    fmt,
    io::{self, Read, Write},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
};

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Marker(pub u32);
impl fmt::Display for Marker {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "marker {}", self.0)
    }
}
impl std::error::Error for Marker {}

/// How a sink or source fails.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
    /// an error of this kind (with a marker inside)
    Err(io::ErrorKind),
    /// `Ok(0)`
    Zero,
}

pub const FAULTS: [Fault; 9] = [
    Fault::Err(io::ErrorKind::Other),
    Fault::Zero,
    Fault::Err(io::ErrorKind::WouldBlock),
    Fault::Err(io::ErrorKind::UnexpectedEof),
    Fault::Err(io::ErrorKind::BrokenPipe),
    Fault::Err(io::ErrorKind::WriteZero),
    Fault::Err(io::ErrorKind::InvalidData),
    Fault::Err(io::ErrorKind::InvalidInput),
    Fault::Err(io::ErrorKind::TimedOut),
];

impl Fault {
    pub fn name(&self) -> String {
        format!("{:?}", self)
    }
    pub fn parse(s: &str) -> Fault {
        *FAULTS.iter().find(|f| f.name() == s).unwrap_or_else(|| panic!("unknown fault {}", s))
    }
    fn raise(&self, id: u32) -> io::Result<usize> {
        match self {
            Fault::Err(k) => Err(io::Error::new(*k, Marker(id))),
            Fault::Zero => Ok(0),
        }
    }
    /// Does this error carry this fault?
    pub fn carried_by(&self, e: &Error, id: u32, writing: bool) -> Result<(), String> {
        if e.kind() != ErrorKind::Io {
            return Err(format!("an I/O failure surfaced as {:?}: {}", e.kind(), first_line(&e.to_string())));
        }
        match self {
            Fault::Err(k) => {
                // the io::Error may be the inner error or anywhere in its source chain
                let mut cur: Option<&(dyn std::error::Error + 'static)> = Some(e.inner());
                while let Some(x) = cur {
                    if let Some(m) = x.downcast_ref::<Marker>() {
                        return if m.0 == id { Ok(()) } else { Err("carries another error".into()) };
                    }
                    if let Some(io) = x.downcast_ref::<io::Error>() {
                        if io.kind() == *k && io.get_ref().and_then(|r| r.downcast_ref::<Marker>()) == Some(&Marker(id)) {
                            return Ok(());
                        }
                    }
                    cur = x.source();
                }
                Err(format!("the I/O error does not carry the underlying error: {}", first_line(&e.to_string())))
            }
            Fault::Zero => {
                let _ = writing;
                Ok(())
            }
        }
    }
}

pub fn first_line(s: &str) -> String {
    let l = s.lines().find(|l| !l.trim().is_empty()).unwrap_or("");
    l.chars().take(200).collect()
}

/// Accepts `limit` bytes (at most `chunk` per call), then fails with `fault` forever.
pub struct LimitW {
    pub out: Vec<u8>,
    pub limit: usize,
    pub fault: Fault,
    pub id: u32,
    pub after_fault: u32,
    pub failed: bool,
}

impl LimitW {
    pub fn new(limit: usize, fault: Fault, id: u32) -> Self {
        LimitW { out: Vec::new(), limit, fault, id, after_fault: 0, failed: false }
    }
}

impl Write for LimitW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after_fault += 1;
        }
        let room = self.limit - self.out.len();
        if room == 0 {
            self.failed = true;
            return self.fault.raise(self.id);
        }
        let n = room.min(buf.len());
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Supplies `data`, then fails with `fault` forever.
pub struct LimitR<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub fault: Fault,
    pub id: u32,
    pub failed: bool,
    pub after_fault: u32,
}

impl<'a> LimitR<'a> {
    pub fn new(data: &'a [u8], fault: Fault, id: u32) -> Self {
        LimitR { data, pos: 0, fault, id, failed: false, after_fault: 0 }
    }
}

impl<'a> Read for LimitR<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after_fault += 1;
        }
        let n = buf.len().min(self.data.len() - self.pos);
        if n == 0 {
            self.failed = true;
            return self.fault.raise(self.id);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Fragmentation: bit `i` of `cuts` set = a call never crosses from byte i to byte i+1. `chunk`:
/// additionally at most that many bytes per call. Call number `c` (counting calls that make
/// progress or are interrupted) is first interrupted when bit `c` of `intr` is set.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Frag {
    pub cuts: u64,
    pub chunk: usize,
    pub intr: u64,
}

impl Frag {
    pub fn text(&self) -> String {
        format!("{:x}:{:x}:{:x}", self.cuts, self.chunk, self.intr)
    }
    pub fn parse(s: &str) -> Frag {
        let v: Vec<u64> = s.split(':').map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
        Frag { cuts: v[0], chunk: v[1] as usize, intr: v[2] }
    }
    fn step(&self, pos: usize, want: usize, call: &mut u64, done_intr: &mut bool) -> Option<usize> {
        if *call < 64 && self.intr >> *call & 1 == 1 && !*done_intr {
            *done_intr = true;
            return None;
        }
        *done_intr = false;
        *call += 1;
        let mut n = want.min(self.chunk);
        for i in 0..n {
            let at = pos + i;
            if at < 64 && self.cuts >> at & 1 == 1 {
                n = i + 1;
                break;
            }
        }
        Some(n)
    }
}

pub struct FragW {
    pub out: Vec<u8>,
    pub frag: Frag,
    call: u64,
    done: bool,
    pub interrupts: u64,
}

impl FragW {
    pub fn new(frag: Frag) -> Self {
        FragW { out: Vec::new(), frag, call: 0, done: false, interrupts: 0 }
    }
    pub fn calls(&self) -> u64 {
        self.call
    }
}

impl Write for FragW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.frag.step(self.out.len(), buf.len(), &mut self.call, &mut self.done) {
            None => {
                self.interrupts += 1;
                Err(io::Error::new(io::ErrorKind::Interrupted, Marker(77)))
            }
            Some(n) => {
                self.out.extend_from_slice(&buf[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct FragR<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub frag: Frag,
    call: u64,
    done: bool,
}

impl<'a> FragR<'a> {
    pub fn new(data: &'a [u8], frag: Frag) -> Self {
        FragR { data, pos: 0, frag, call: 0, done: false }
    }
    pub fn calls(&self) -> u64 {
        self.call
    }
}

impl<'a> Read for FragR<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let want = buf.len().min(self.data.len() - self.pos);
        match self.frag.step(self.pos, want, &mut self.call, &mut self.done) {
            None => Err(io::Error::new(io::ErrorKind::Interrupted, Marker(77))),
            Some(n) => {
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}

/// A source whose contents are set before every call; counts what is consumed.
pub struct FeedR {
    pub data: Vec<u8>,
    pub pos: usize,
    /// what happens after the data: a fault, or (None) a run of 0xEE bytes
    pub then: Option<(Fault, u32)>,
    pub over: usize,
}

impl FeedR {
    pub fn new() -> Self {
        FeedR { data: Vec::new(), pos: 0, then: None, over: 0 }
    }
    pub fn feed(&mut self, data: &[u8], then: Option<(Fault, u32)>) {
        self.data.clear();
        self.data.extend_from_slice(data);
        self.pos = 0;
        self.then = then;
        self.over = 0;
    }
}

impl Default for FeedR {
    fn default() -> Self {
        Self::new()
    }
}

impl Read for FeedR {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = buf.len().min(self.data.len() - self.pos);
        if n == 0 {
            match self.then {
                Some((f, id)) => return f.raise(id),
                None => {
                    // bytes beyond what the call is entitled to
                    self.over += buf.len();
                    buf.fill(0xee);
                    return Ok(buf.len());
                }
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A writer for the debug log.
pub struct LogW {
    pub out: Vec<u8>,
    pub mode: LogMode,
    pub calls: u64,
    handle: Arc<AtomicU64>,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum LogMode {
    Full,
    /// all calls from number n on fail
    FailFrom(u64, Fault),
    /// call number n fails, once
    FailAt(u64, Fault),
    /// at most n bytes per call
    Short(usize),
    /// every call is interrupted once
    Interrupting,
    /// whatever is written is taken, but flushing fails
    NoFlush,
}

impl LogMode {
    pub fn text(&self) -> String {
        match self {
            LogMode::Full => "full".into(),
            LogMode::FailFrom(n, f) => format!("from:{}:{}", n, f.name()),
            LogMode::FailAt(n, f) => format!("at:{}:{}", n, f.name()),
            LogMode::Short(n) => format!("short:{}", n),
            LogMode::Interrupting => "interrupting".into(),
            LogMode::NoFlush => "noflush".into(),
        }
    }
    pub fn parse(s: &str) -> Self {
        let p: Vec<&str> = s.splitn(3, ':').collect();
        match p[0] {
            "full" => LogMode::Full,
            "from" => LogMode::FailFrom(p[1].parse().unwrap(), Fault::parse(p[2])),
            "at" => LogMode::FailAt(p[1].parse().unwrap(), Fault::parse(p[2])),
            "short" => LogMode::Short(p[1].parse().unwrap()),
            "noflush" => LogMode::NoFlush,
            _ => LogMode::Interrupting,
        }
    }
}

impl LogW {
    pub fn new(mode: LogMode) -> Self {
        LogW { out: Vec::new(), mode, calls: 0, handle: Default::default() }
    }
    /// The number of calls so far, while a coder holds the writer.
    pub fn calls_handle(&self) -> Arc<AtomicU64> {
        self.handle.clone()
    }
}

impl Write for LogW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        self.handle.store(self.calls, Ordering::Relaxed);
        match self.mode {
            LogMode::FailFrom(n, f) if c >= n => return f.raise(5),
            LogMode::FailAt(n, f) if c == n => return f.raise(5),
            LogMode::Interrupting if c % 2 == 0 => return Err(io::Error::new(io::ErrorKind::Interrupted, Marker(6))),
            _ => {}
        }
        let n = match self.mode {
            LogMode::Short(n) => n.min(buf.len()),
            _ => buf.len(),
        };
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.mode {
            LogMode::NoFlush | LogMode::FailFrom(..) | LogMode::FailAt(..) => Err(io::Error::new(io::ErrorKind::Other, Marker(7))),
            _ => Ok(()),
        }
    }
}
