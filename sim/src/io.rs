//! Simulated sources, sinks and storage

use std::cell::UnsafeCell;
use std::fmt;
use std::io;
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

use crate::world::{below, block_on, callback, chance, count, draw, ev, note, notify, pick, range, sleep, yield_now};

/// Payload of injected panics and errors
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Injected(pub u64);

impl fmt::Display for Injected {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected error {}", self.0)
    }
}

impl std::error::Error for Injected {}

/// Panic with a payload of our own, without invoking the panic hook
pub fn inject_panic(id: u64) -> ! {
    count("fault_panic");
    ev("panic", id, 0);
    std::panic::resume_unwind(Box::new(Injected(id)))
}

/// A reader's or writer's error, in a form it can be compared
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    Kind(io::ErrorKind),
    Os(i32),
    Custom(io::ErrorKind, u64),
}

pub const KINDS: &[io::ErrorKind] = {
    use io::ErrorKind::*;
    &[
        Other, UnexpectedEof, BrokenPipe, TimedOut, WouldBlock, ConnectionReset, ConnectionAborted, NotFound,
        PermissionDenied, InvalidData, InvalidInput, OutOfMemory, Unsupported, WriteZero, StorageFull,
        NotConnected, HostUnreachable, NetworkDown, StaleNetworkFileHandle, FileTooLarge, ResourceBusy, Deadlock,
        AddrInUse, AlreadyExists, IsADirectory, NotADirectory, ReadOnlyFilesystem, NotSeekable, QuotaExceeded,
        ExecutableFileBusy, TooManyLinks, ArgumentListTooLong, DirectoryNotEmpty, NetworkUnreachable,
        AddrNotAvailable, ConnectionRefused,
    ]
};

impl Fail {
    pub fn draw() -> Self {
        match draw(3) {
            0 => Fail::Kind(pick(KINDS)),
            // EIO, EAGAIN, ECONNRESET, ENOSPC, EPIPE, EISDIR, ESTALE, ETIMEDOUT, EBADF, ENOMEM, an unknown one
            1 => Fail::Os(pick(&[5, 11, 104, 28, 32, 21, 116, 110, 9, 12, 999])),
            _ => Fail::Custom(pick(KINDS), 1 + draw(1 << 16)),
        }
    }

    pub fn error(&self) -> io::Error {
        match *self {
            Fail::Kind(k) => k.into(),
            Fail::Os(c) => io::Error::from_raw_os_error(c),
            Fail::Custom(k, id) => io::Error::new(k, Injected(id)),
        }
    }

    /// Why some error is not the one this stands for, if so
    pub fn mismatch(&self, e: &io::Error) -> Option<String> {
        let kind = self.error().kind();
        if e.kind() != kind {
            return Some(format!("kind {:?} instead of {:?}", e.kind(), kind));
        }
        match *self {
            Fail::Kind(_) if e.get_ref().is_some() || e.raw_os_error().is_some() =>
                Some(format!("unexpected payload: {e:?}")),
            Fail::Os(c) if e.raw_os_error() != Some(c) => Some(format!("OS code {:?} instead of {c}", e.raw_os_error())),
            Fail::Custom(_, id) => match e.get_ref().and_then(|p| p.downcast_ref::<Injected>()) {
                Some(p) if p.0 == id => None,
                other => Some(format!("payload {other:?} instead of {id}")),
            },
            _ => None,
        }
    }
}

/// How a source or sink splits a transfer
#[derive(Clone, Debug)]
pub struct Split {
    /// Upper limits for the size of individual transfers to choose from
    pub sizes: Vec<usize>,
    /// Chances (in 64)
    pub eintr: u64,
    pub stall: u64,
    /// Interruptions following immediately
    pub storm: std::cell::Cell<u64>,
}

impl Split {
    /// Everything at once
    pub fn whole() -> Self {
        Split { sizes: vec![usize::MAX], eintr: 0, stall: 0, storm: Default::default() }
    }

    pub fn draw(len: usize) -> Self {
        let sizes = match draw(8) {
            0 => vec![usize::MAX],
            1 if len < 20_000 => vec![1],
            2 if len < 50_000 => vec![1, 2, 3, 5],
            3 if len < 2_000_000 => vec![7, 31, 32, 33],
            4 if len < 2_000_000 => vec![31, 32, 33, 64, usize::MAX],
            5 => vec![512, 4095, 4096, 4097],
            6 => vec![8191, 8192, 8193, 65536, usize::MAX],
            _ if len < 50_000 => vec![1, 4, 16, 64, 1024, usize::MAX],
            _ => vec![1, 4096, 100_000],
        };
        Split { sizes, eintr: pick(&[0, 0, 4, 24]), stall: pick(&[0, 0, 4]), storm: Default::default() }
    }

    fn limit(&self) -> usize {
        if self.sizes.len() == 1 {
            self.sizes[0]
        } else {
            pick(&self.sizes)
        }
    }

    /// Interrupt or delay the transfer
    fn disturb(&self) -> io::Result<()> {
        if self.stall > 0 && chance(self.stall, 64) {
            count("fault_stall");
            let dt = 1 + draw(10_000_000);
            ev("stall", dt, 0);
            sleep(dt);
        }
        let more = self.storm.get();
        if more > 0 || self.eintr > 0 && chance(self.eintr, 64) {
            count("fault_eintr");
            if more > 0 {
                self.storm.set(more - 1);
            } else if draw(32) == 31 {
                count("fault_eintr_storm");
                self.storm.set(draw(300));
            }
            ev("eintr", 0, 0);
            return Err(if draw(2) == 0 { io::ErrorKind::Interrupted.into() } else { io::Error::from_raw_os_error(4) });
        }
        Ok(())
    }
}

/// What happens at some point of a transfer
pub enum Action {
    Fail(Fail),
    Panic(u64),
    /// Call a function and go on
    Call(Box<dyn FnMut()>),
    /// Report the end of data although more follows
    End,
}

/// State of a source visible from outside
#[derive(Clone, Copy, Debug, Default)]
pub struct ReadStats {
    pub reads: u64,
    pub pos: usize,
    pub drops: u64,
    pub failed: bool,
    pub ended: bool,
    pub reads_after_failure: u64,
    pub reads_after_end: u64,
    /// A read got a buffer which was not empty
    pub fired: bool,
}

pub struct Shared<T>(Arc<UnsafeCell<T>>);
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
// Only one task runs at any time
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

impl<T> Shared<T> {
    pub fn new(v: T) -> Self {
        Shared(Arc::new(UnsafeCell::new(v)))
    }

    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

/// Part of something which has to be dropped at some time
pub struct Live(());

static LIVE: AtomicI64 = AtomicI64::new(0);

impl Live {
    pub fn new() -> Self {
        LIVE.fetch_add(1, Relaxed);
        Live(())
    }
}

impl Clone for Live {
    fn clone(&self) -> Self {
        Self::new()
    }
}

impl Drop for Live {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}

/// Number of sources which were not dropped yet
pub fn live_sources() -> i64 {
    LIVE.load(Relaxed)
}

/// A source of bytes
pub struct SimRead {
    pub data: Arc<[u8]>,
    pub split: Split,
    /// Position and action to be taken there
    pub plan: Vec<(usize, Action)>,
    pub stats: Shared<ReadStats>,
    _live: Live,
}

impl SimRead {
    pub fn new(data: impl Into<Arc<[u8]>>, split: Split) -> Self {
        SimRead { data: data.into(), split, plan: Vec::new(), stats: Shared::new(Default::default()), _live: Live::new() }
    }

    pub fn with(mut self, at: usize, action: Action) -> Self {
        self.plan.push((at, action));
        self
    }

    fn do_read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let st = self.stats.clone();
        let st = st.get();
        st.reads += 1;
        if st.failed {
            st.reads_after_failure += 1;
        }
        yield_now("read");
        if st.ended {
            // Whatever is delivered from here on is none of the reader's business
            st.reads_after_end += 1;
            ev("read_after_end", 0, 0);
            if let (Some(b), true) = (buf.first_mut(), st.reads_after_end < 3) {
                *b = b'?';
                return Ok(1);
            }
            return Ok(0);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        self.split.disturb()?;
        let mut limit = self.data.len() - st.pos;
        let mut i = 0;
        while i < self.plan.len() {
            let at = self.plan[i].0;
            if at == st.pos {
                let (_, mut a) = self.plan.remove(i);
                st.fired = true;
                match &mut a {
                    Action::Fail(f) => {
                        count("fault_read_error");
                        ev("read_error", st.pos as u64, 0);
                        note(|| format!("read fails: {f:?}"));
                        st.failed = true;
                        return Err(f.error());
                    }
                    Action::Panic(id) => {
                        st.failed = true;
                        inject_panic(*id)
                    }
                    Action::Call(f) => {
                        count("fault_reentry");
                        ev("reentry", st.pos as u64, 0);
                        f();
                        continue;
                    }
                    Action::End => {
                        count("fault_premature_end");
                        ev("end_early", st.pos as u64, 0);
                        st.ended = true;
                        return Ok(0);
                    }
                }
            } else if at > st.pos {
                limit = limit.min(at - st.pos);
            }
            i += 1;
        }
        let n = limit.min(buf.len()).min(self.split.limit().max(1));
        if n < limit.min(buf.len()) {
            count("fault_short_read");
        }
        buf[..n].copy_from_slice(&self.data[st.pos..st.pos + n]);
        st.pos += n;
        ev("read", buf.len() as u64, n as u64);
        if n == 0 {
            st.ended = true;
        }
        Ok(n)
    }
}

impl io::Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        callback(|| self.do_read(buf))
    }
}

impl Drop for SimRead {
    fn drop(&mut self) {
        callback(|| {
            self.stats.get().drops += 1;
            ev("drop_reader", self.stats.get().pos as u64, 0);
        })
    }
}

/// State of a sink
#[derive(Clone, Debug, Default)]
pub struct SinkState {
    pub got: Vec<u8>,
    pub calls: u64,
    pub failed: bool,
    pub after_failure: u64,
    pub fired: bool,
}

/// When a sink fails
pub enum SinkPlan {
    Never,
    /// At the n-th call (counting from 0)
    Call(u64, Action),
    /// As soon as there would be more than n bytes; the flag tells whether the
    /// part which fits is accepted
    Byte(usize, bool, Action),
}

/// Sink for text
pub struct SimFmt {
    pub state: Shared<SinkState>,
    pub plan: SinkPlan,
}

impl SimFmt {
    pub fn new(plan: SinkPlan) -> Self {
        SimFmt { state: Shared::new(Default::default()), plan }
    }

    fn act(st: &mut SinkState, a: &mut Action) -> fmt::Result {
        st.fired = true;
        match a {
            Action::Call(f) => {
                count("fault_reentry");
                ev("reentry", st.calls, 0);
                f();
                Ok(())
            }
            Action::Panic(id) => {
                st.failed = true;
                inject_panic(*id)
            }
            _ => {
                count("fault_write_error");
                ev("write_error", st.calls, st.got.len() as u64);
                st.failed = true;
                Err(fmt::Error)
            }
        }
    }

    fn put(&mut self, s: &[u8]) -> fmt::Result {
        let state = self.state.clone();
        let st = state.get();
        if st.failed {
            st.after_failure += 1;
        }
        yield_now("write");
        let call = st.calls;
        st.calls += 1;
        match &mut self.plan {
            SinkPlan::Call(n, a) if *n == call => Self::act(st, a)?,
            SinkPlan::Byte(n, partial, a) if !st.fired && st.got.len() + s.len() > *n => {
                if matches!(a, Action::Call(_)) {
                    Self::act(st, a)?;
                } else {
                    if *partial {
                        let k = *n - st.got.len().min(*n);
                        st.got.extend_from_slice(&s[..k.min(s.len())]);
                    }
                    Self::act(st, a)?;
                }
            }
            _ => (),
        }
        st.got.extend_from_slice(s);
        ev("write", s.len() as u64, 0);
        Ok(())
    }
}

impl fmt::Write for SimFmt {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        callback(|| self.put(s.as_bytes()))
    }

    fn write_char(&mut self, c: char) -> fmt::Result {
        let mut b = [0; 4];
        let s = c.encode_utf8(&mut b);
        callback(|| self.put(s.as_bytes()))
    }
}

/// Sink for bytes
pub struct SimWrite {
    pub state: Shared<SinkState>,
    pub split: Split,
    /// Position the sink fails at
    pub fail: Option<(usize, Fail)>,
}

impl SimWrite {
    pub fn new(split: Split, fail: Option<(usize, Fail)>) -> Self {
        SimWrite { state: Shared::new(Default::default()), split, fail }
    }
}

impl io::Write for SimWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        callback(|| {
            let st = self.state.get();
            st.calls += 1;
            if st.failed {
                st.after_failure += 1;
            }
            yield_now("write");
            if buf.is_empty() {
                return Ok(0);
            }
            self.split.disturb()?;
            let mut n = buf.len().min(self.split.limit().max(1));
            if let Some((at, f)) = &self.fail {
                let room = at.saturating_sub(st.got.len());
                if room == 0 {
                    count("fault_write_error");
                    ev("write_error", st.got.len() as u64, 0);
                    st.failed = true;
                    st.fired = true;
                    return match f {
                        Fail::Kind(io::ErrorKind::WriteZero) => Ok(0),
                        f => Err(f.error()),
                    };
                }
                n = n.min(room);
            }
            if n < buf.len() {
                count("fault_short_write");
            }
            st.got.extend_from_slice(&buf[..n]);
            ev("write", buf.len() as u64, n as u64);
            Ok(n)
        })
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ----------------------------------------------------------------------- disk

/// A file on a simulated disk with a volatile cache
pub struct Disk {
    pub block: usize,
    /// Contents as seen by the running system
    pub cache: Vec<u8>,
    /// Contents which survive for sure
    pub durable: Vec<u8>,
    /// What was there before the file was (over)written
    pub old: Vec<u8>,
    pub capacity: usize,
}

impl Disk {
    pub fn new(old: Vec<u8>) -> Self {
        Disk { block: pick(&[16, 1, 4, 64, 512, 4096]), cache: Vec::new(), durable: Vec::new(), old, capacity: usize::MAX }
    }

    pub fn sync(&mut self) {
        ev("fsync", self.cache.len() as u64, 0);
        self.durable = self.cache.clone();
    }

    /// Lose power. Everything durable survives, of what was written since only
    /// some prefix.
    pub fn crash_prefix(&mut self) -> Vec<u8> {
        count("fault_power_loss");
        let keep = range(self.durable.len(), self.cache.len());
        ev("power_loss", self.cache.len() as u64, keep as u64);
        self.cache[..keep].to_vec()
    }

    /// Lose power on a disk which reorders and tears writes: any subset of the
    /// blocks written since the last sync survives
    pub fn crash_torn(&mut self) -> Vec<u8> {
        count("fault_power_loss");
        let len = match draw(3) {
            0 => self.cache.len(),
            1 => range(self.durable.len(), self.cache.len()),
            _ => self.cache.len().max(self.old.len()),
        };
        ev("power_loss", self.cache.len() as u64, len as u64);
        let mut out: Vec<u8> = (0..len).map(|i| self.old.get(i).copied().unwrap_or(0)).collect();
        let mut at = 0;
        while at < len {
            let end = (at + self.block).min(len);
            let synced = end <= self.durable.len();
            let kind = if synced { 0 } else { draw(4) };
            let have = self.cache.len().min(end);
            match kind {
                _ if have <= at => (),
                0 | 1 => out[at..have].copy_from_slice(&self.cache[at..have]),
                2 => count("fault_lost_block"),
                _ => {
                    count("fault_torn_block");
                    let k = at + below(have - at + 1);
                    out[at..k].copy_from_slice(&self.cache[at..k]);
                }
            }
            at = end;
        }
        out
    }
}

impl io::Write for Disk {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        callback(|| {
            yield_now("disk_write");
            let n = buf.len().min(self.capacity - self.cache.len().min(self.capacity));
            if n == 0 && !buf.is_empty() {
                count("fault_disk_full");
                ev("disk_full", self.cache.len() as u64, 0);
                return Err(io::Error::from_raw_os_error(28));
            }
            self.cache.extend_from_slice(&buf[..n]);
            ev("disk_write", n as u64, 0);
            Ok(n)
        })
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Damage bytes at rest or in transit
pub fn corrupt(data: &mut Vec<u8>, other: &[u8]) {
    if data.is_empty() {
        return;
    }
    match draw(18) {
        0 => {
            count("fault_bit_flip");
            let i = below(data.len());
            data[i] ^= 1 << draw(8);
        }
        1 => {
            count("fault_byte_overwrite");
            let i = below(data.len());
            // Mostly bytes with a meaning to somebody
            data[i] = if draw(4) == 0 { draw(256) as u8 } else { pick(b" \n\t\r:;,.()[]{}<>=-+@\\\"'%_0123459azAZeEhobxdcn$") };
        }
        2 => {
            count("fault_zeroed_block");
            let (a, b) = span(data.len());
            data[a..b].fill(0);
        }
        3 => {
            count("fault_lost_block");
            let (a, b) = span(data.len());
            data.drain(a..b);
        }
        4 => {
            count("fault_duplicated_block");
            let (a, b) = span(data.len());
            let t = data[a..b].to_vec();
            let at = if draw(2) == 0 { b } else { below(data.len() + 1) };
            data.splice(at..at, t);
        }
        5 => {
            count("fault_swapped_blocks");
            let n = range(1, (data.len() / 2).clamp(1, 64));
            let a = below(data.len() - n + 1);
            let b = below(data.len() - n + 1);
            let (a, b) = (a.min(b), a.max(b));
            if a + n <= b {
                for i in 0..n {
                    data.swap(a + i, b + i);
                }
            }
        }
        6 => {
            count("fault_spliced_file");
            if !other.is_empty() {
                let (a, b) = span(other.len());
                let at = below(data.len() + 1);
                let t = other[a..b].to_vec();
                data.splice(at..at, t);
            }
        }
        7 => {
            count("fault_overwritten_tail");
            let at = below(data.len());
            let tail: Vec<u8> = other.get(at..).unwrap_or(&[]).to_vec();
            data.truncate(at);
            data.extend(tail);
        }
        8 => {
            count("fault_lost_line");
            let l = lines(data);
            let (a, b) = l[below(l.len())];
            data.drain(a..b);
        }
        9 => {
            count("fault_duplicated_line");
            let l = lines(data);
            let (a, b) = l[below(l.len())];
            let t = data[a..b].to_vec();
            let at = l[below(l.len())].0;
            data.splice(at..at, t);
        }
        10 => {
            count("fault_inserted_bytes");
            let at = below(data.len() + 1);
            let t: &[u8] = pick(&[
                &b" "[..], b"\n", b"\t", b"\r", b"\r\n", b"0", b"1", b"-", b"+", b"E", b".", b"\"", b"'", b"\\", b"%", b"%d",
                b";", b"@[", b"]", b"[", b"(", b")", b"<", b">", b"{", b"}", b",", b":", b"flip ", b"else:\n",
                b"65536", b"99999999999999999999", b"\xc3\xa9", b"\xe6\xbc\xa2", b"\xc2\xa0", b"\x0c", b"\xe2\x80\xa8", b"\xef\xbb\xbf", b"_", b"$", b"\0", b"0x", b"  skip\n", b"h",
            ]);
            data.splice(at..at, t.iter().copied());
        }
        11 => {
            count("fault_number");
            let t = words(data, |b| b.is_ascii_digit());
            if t.is_empty() { return }
            let (a, b) = t[below(t.len())];
            match draw(5) {
                4 => {
                    // An exponent
                    if data.get(b).is_some_and(|c| c | 0x20 == b'e') { data[b] ^= 0x20 } else { data.splice(b..b, pick(&[&b"e1"[..], b"E1", b"E+", b".", b"E-2", b"e-3"]).iter().copied()); }
                }
                0 => {
                    // A stuttering transfer
                    let d = data[a..b].to_vec();
                    if chance(1, 100) {
                        // Around the largest number of bits there are
                        count("fault_huge_number");
                        let n = pick(&[16384, 19728, 19729, 21845, 21846, 65535, 65536, 70_000, 3000, 40_000]) + below(4);
                        let t: Vec<u8> = d.iter().copied().cycle().take(n).collect();
                        data.splice(a..b, t);
                        // Maybe in a literal, the width of which may get lost
                        let from = data[..a].iter().rposition(|b| *b == b'<');
                        if let Some(from) = from {
                            let g = &data[from..a];
                            if g.len() < 14 && draw(2) == 0 {
                                if let Some(to) = g.iter().position(|b| *b == b'>') { data.drain(from..from + to + 1); }
                            }
                        }
                        return;
                    }
                    let n = range(1, 5);
                    for _ in 0..n { data.splice(a..a, d.iter().copied()); }
                }
                1 => {
                    let base: u128 = 1 << pick(&[8, 15, 16, 16, 17, 31, 32, 32, 33, 63, 64, 64, 65, 127]);
                    let v = match draw(4) {
                        0 => base,
                        1 => base - 1,
                        _ => base + draw(70_000) as u128,
                    };
                    data.splice(a..b, v.to_string().into_bytes());
                }
                2 => { data.insert(a, pick(b"-+0_")); }
                _ => { data[a + below(b - a)] = b'0' + below(10) as u8; }
            }
        }
        12 => {
            count("fault_word");
            let t = words(data, |b| b.is_ascii_alphanumeric() || b >= 128 || b"_$".contains(&b));
            let o = words(other, |b| b.is_ascii_alphanumeric() || b"_$".contains(&b));
            if t.is_empty() { return }
            let (a, b) = t[below(t.len())];
            let new = match draw(6) {
                5 => {
                    // A letter of the other case
                    let mut w = data[a..b].to_vec();
                    let l: Vec<usize> = (0..w.len()).filter(|i| w[*i].is_ascii_alphabetic()).collect();
                    if l.is_empty() { return }
                    w[pick(&l)] ^= 0x20;
                    w
                }
                // Another word of this text
                0 => { let (c, d) = t[below(t.len())]; data[c..d].to_vec() }
                1 if !o.is_empty() => { let (c, d) = o[below(o.len())]; other[c..d].to_vec() }
                2 => Vec::new(),
                3 => {
                    // A character which is a number, a letter or neither, depending on who is asked
                    let odd = pick(&["\u{b2}", "\u{663}", "\u{bd}", "\u{2168}", "\u{3007}", "\u{301}", "\u{200d}", "\u{203f}", "\u{b7}", "\u{aa}", "\u{37e}", "0", "$", "_"]);
                    if draw(3) == 0 { [&data[a..b], odd.as_bytes()].concat() } else { [odd.as_bytes(), &data[a..b]].concat() }
                }
                _ => [&data[a..b], b" ", &data[a..b]].concat(),
            };
            data.splice(a..b, new);
        }
        13 => {
            count("fault_mark");
            let t: Vec<usize> = (0..data.len()).filter(|i| data[*i].is_ascii_punctuation() || data[*i] == b'\n').collect();
            if t.is_empty() { return }
            let i = t[below(t.len())];
            match draw(4) {
                0 => { data.remove(i); }
                1 => { let b = data[i]; data.insert(i, b); }
                2 => { let b = data[t[below(t.len())]]; data.insert(i, b); }
                _ => { let j = t[below(t.len())]; data.swap(i, j); }
            }
        }
        14 => {
            count("fault_indentation");
            let l = lines(data);
            let (a, b) = l[below(l.len())];
            let ind = data[a..b].iter().take_while(|b| **b == b' ' || **b == b'\t').count();
            let n = range(1, 4);
            match draw(4) {
                0 => { data.splice(a..a, std::iter::repeat(b' ').take(n)); }
                1 => { data.drain(a..a + n.min(ind)); }
                2 if ind > 0 => { data[a + below(ind)] = pick(b"\t\n\r_"); }
                _ => { data.insert(a + ind, pick(b" \t\n\r;")); }
            }
        }
        15 => {
            // Something in brackets
            count("fault_group");
            let t: Vec<usize> = (0..data.len()).filter(|i| b"<([{\"".contains(&data[*i])).collect();
            if t.is_empty() { return }
            let a = t[below(t.len())];
            let close = match data[a] { b'<' => b'>', b'(' => b')', b'[' => b']', b'{' => b'}', b => b };
            let Some(n) = data[a + 1..].iter().position(|b| *b == close) else { return };
            let b = a + n + 2;
            match draw(4) {
                0 => { data.drain(a..b); }
                1 => { data.drain(a + 1..b - 1); }
                2 => {
                    let g = data[a..b].to_vec();
                    let at = if draw(2) == 0 { b } else { t[below(t.len())] };
                    data.splice(at..at, g);
                }
                _ => {
                    let c = t[below(t.len())];
                    let g = data[a..b].to_vec();
                    data.drain(a..b);
                    let at = if c > a { c.saturating_sub(b - a) } else { c };
                    data.splice(at..at, g);
                }
            }
        }
        16 => {
            // What separates words
            count("fault_space");
            let t: Vec<(usize, usize)> = words(data, |b| b == b' ').into_iter().filter(|(a, _)| *a > 0 && data[a - 1] != b'\n').collect();
            if t.is_empty() { return }
            let (a, b) = t[below(t.len())];
            let new: &[u8] = match draw(3) {
                0 | 1 => b"",
                _ => pick(&[&b"\t"[..], b"\x0b", b"\x0c", b"\0", b"\xc2\xa0", b"\xe3\x80\x80", b"\xe2\x80\xa8", b"\xc2\x85", b"\x1f", b"_", b";", b"\\"]),
            };
            data.splice(a..b, new.iter().copied());
        }
        _ => {
            count("fault_lost_bytes");
            let n = range(1, 3.min(data.len()));
            let at = below(data.len() - n + 1);
            data.drain(at..at + n);
        }
    }
}

fn span(len: usize) -> (usize, usize) {
    let b = pick(&[16, 1, 2, 4, 8, 64, 512]);
    let a = if draw(2) == 0 { below(len) } else { below(len) / b * b };
    (a, (a + b).min(len))
}

/// Longest runs of certain bytes
fn words(data: &[u8], is: impl Fn(u8) -> bool) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < data.len() {
        let a = i;
        while i < data.len() && is(data[i]) { i += 1 }
        if i > a { v.push((a, i)) } else { i += 1 }
    }
    v
}

fn lines(data: &[u8]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut a = 0;
    for (i, b) in data.iter().enumerate() {
        if *b == b'\n' {
            v.push((a, i + 1));
            a = i + 1;
        }
    }
    if a < data.len() {
        v.push((a, data.len()));
    }
    v
}

// ----------------------------------------------------------------------- pipe

#[derive(Default)]
struct PipeState {
    buf: Vec<u8>,
    capacity: usize,
    closed: bool,
    /// The writer's end crashed: what the reader sees instead of the end
    reset: Option<Fail>,
    no_reader: bool,
    id: u64,
}

/// A bounded pipe
pub struct PipeWrite {
    p: Shared<PipeState>,
    pub sent: Shared<Vec<u8>>,
    split: Split,
    /// Crash after that many bytes
    pub crash_at: Option<(usize, Option<Fail>)>,
}

pub struct PipeRead {
    p: Shared<PipeState>,
    split: Split,
    pub crash_at: Option<usize>,
    got: usize,
}

/// Payload of panics simulating the crash of a node
pub struct Crash;

pub fn pipe(capacity: usize, id: u64, ws: Split, rs: Split) -> (PipeWrite, PipeRead) {
    let p = Shared::new(PipeState { capacity, id, ..Default::default() });
    (
        PipeWrite { p: p.clone(), sent: Shared::new(Vec::new()), split: ws, crash_at: None },
        PipeRead { p, split: rs, crash_at: None, got: 0 },
    )
}

impl io::Write for PipeWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        callback(|| {
            yield_now("pipe_write");
            if buf.is_empty() {
                return Ok(0);
            }
            self.split.disturb()?;
            let mut max = self.split.limit().max(1);
            if let Some((at, reset)) = &self.crash_at {
                let left = at.saturating_sub(self.sent.get().len());
                if left == 0 {
                    count("fault_writer_crash");
                    ev("writer_crash", *at as u64, 0);
                    self.p.get().reset = *reset;
                    std::panic::resume_unwind(Box::new(Crash));
                }
                max = max.min(left);
            }
            loop {
                let p = self.p.get();
                if p.no_reader {
                    count("fault_broken_pipe");
                    ev("broken_pipe", 0, 0);
                    return Err(io::Error::from_raw_os_error(32));
                }
                let room = p.capacity - p.buf.len();
                if room > 0 {
                    let n = room.min(buf.len()).min(max);
                    if n < buf.len() {
                        count("fault_short_write");
                    }
                    p.buf.extend_from_slice(&buf[..n]);
                    self.sent.get().extend_from_slice(&buf[..n]);
                    ev("pipe_write", buf.len() as u64, n as u64);
                    notify(p.id, u64::MAX);
                    return Ok(n);
                }
                block_on(p.id);
            }
        })
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Drop for PipeWrite {
    fn drop(&mut self) {
        callback(|| {
            let p = self.p.get();
            p.closed = true;
            ev("pipe_close", self.sent.get().len() as u64, 0);
            notify(p.id, u64::MAX);
        })
    }
}

impl io::Read for PipeRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        callback(|| {
            yield_now("pipe_read");
            if buf.is_empty() {
                return Ok(0);
            }
            self.split.disturb()?;
            if let Some(at) = self.crash_at {
                if self.got >= at {
                    count("fault_reader_crash");
                    ev("reader_crash", at as u64, 0);
                    std::panic::resume_unwind(Box::new(Crash));
                }
            }
            let max = self.split.limit().max(1);
            loop {
                let p = self.p.get();
                if !p.buf.is_empty() {
                    let n = p.buf.len().min(buf.len()).min(max);
                    buf[..n].copy_from_slice(&p.buf[..n]);
                    p.buf.drain(..n);
                    self.got += n;
                    ev("pipe_read", buf.len() as u64, n as u64);
                    notify(p.id, u64::MAX);
                    return Ok(n);
                }
                if p.closed {
                    ev("pipe_end", 0, 0);
                    return match p.reset.take() {
                        Some(f) => {
                            count("fault_connection_reset");
                            Err(f.error())
                        }
                        None => Ok(0),
                    };
                }
                block_on(p.id);
            }
        })
    }
}

impl Drop for PipeRead {
    fn drop(&mut self) {
        callback(|| {
            let p = self.p.get();
            p.no_reader = true;
            ev("pipe_no_reader", 0, 0);
            notify(p.id, u64::MAX);
        })
    }
}
