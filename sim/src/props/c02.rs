//! C02: Reading depends only on the bytes a source delivers

use std::io::Read;

use super::*;
use crate::gen;
use crate::io::*;
use crate::render::{render, Style};

pub static PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 70_000,
    level: "exploration",
    rule: "A text (well-formed, damaged or not even UTF-8; from some bytes up to a megabyte, sometimes 40, often just around buffer sizes or with a multi-byte character across such a boundary) is read through a source splitting, delaying and interrupting the transfers, possibly through one of the standard library's adapters, and possibly after a sibling text (same length, one character changed) was read the same way or from the same buffer; the result is compared to that of parsing the same bytes from memory.",
    assumptions: &["the result of parsing from memory is taken as reference here (it is decided by C01 and C05)"],
    cases: &[],
};

/// Well-formed text enlarged to about `len` bytes
pub fn padded(text: &str, len: usize) -> String {
    if text.len() >= len {
        return text.to_string();
    }
    // Fillers may go in front of everything or behind it, but not in between, as
    // strings may contain line breaks
    let front = draw(2) == 0;
    let mut o = if front { String::new() } else { text.to_string() };
    let missing = len - text.len();
    let filler = draw(3);
    // Reading lots of lines takes long
    match if missing > 6_000_000 { 0 } else { filler } {
        0 => {
            // One long comment
            if missing > 2 {
                o.push(';');
                let c = pick(&["x", "é", "漢", "😀"]);
                let n = missing.saturating_sub(2) / c.len();
                (0..n).for_each(|_| o.push_str(c));
                o.push('\n');
            }
        }
        1 => (0..missing / 20).for_each(|_| o.push_str("    ; comment line \n")),
        _ => (0..missing).for_each(|_| o.push('\n')),
    }
    if front { o.push_str(text) }
    o
}

/// Move a multi-byte character across (or next to) a boundary by means of a comment in front of
/// everything
pub fn straddle(text: &str, at: usize) -> String {
    let c = pick(&["é", "漢", "😀"]);
    let before = at.saturating_sub(1 + below(c.len() + 1));
    let mut o = String::from(";");
    while o.len() < before { o.push('-') }
    o.push_str(c);
    o.push('\n');
    o.push_str(text);
    o
}

const BOUNDS: &[usize] = &[32, 64, 128, 1024, 4096, 8192, 16384, 65536];

pub fn bytes() -> Vec<u8> {
    let spec = gen::circuit(&gen::small_cfg());
    let text = render(&spec, &if draw(2) == 0 { Style::plain() } else { Style::draw() }).text;
    let mut text = match draw(6) {
        0 | 1 => text,
        2 => {
            let b = pick(BOUNDS);
            straddle(&text, b)
        }
        3 => {
            let b = pick(BOUNDS) as i64 + draw(5) as i64 - 2;
            padded(&text, b as usize)
        }
        4 if chance(1, 20) => {
            count("large_source");
            let len = if draw(8) == 7 {
                count("huge_source");
                range(2_000_000, 40_000_000)
            } else {
                range(300_000, 1_200_000)
            };
            padded(&text, len)
        }
        _ => {
            let b = draw(20_000) as usize;
            padded(&text, b)
        }
    };
    if draw(8) == 7 { text.truncate(0) }
    let mut data = text.into_bytes();
    match draw(8) {
        0 => {
            // Another circuit's text for splicing
            let other = render(&gen::circuit(&gen::small_cfg()), &Style::plain()).text;
            for _ in 0..range(1, 3) { corrupt(&mut data, other.as_bytes()) }
        }
        1 => {
            let k = below(data.len() + 1);
            data.truncate(k);
        }
        2 => {
            count("fault_invalid_utf8");
            let at = below(data.len() + 1);
            let bad: &[u8] = pick(&[&b"\xff"[..], b"\xc3", b"\xe6\xbc", b"\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80"]);
            data.splice(at..at, bad.iter().copied());
        }
        3 => {
            // Marks some tools put at the beginning or the end of files
            count("fault_marked_file");
            let t: &[u8] = pick(&[&b"\xef\xbb\xbf"[..], b"\xef\xbb", b"\0", b"\x1a", b"\xff\xfe", b"\xe2\x80\xa8", b"\x0c", b"#!firrtl\n", b"FIRRTL version 1.1.0\n", b"\r\n", b"\xc2\x85"]);
            let at = if draw(4) == 0 { data.len() } else { 0 };
            data.splice(at..at, t.iter().copied());
        }
        _ => (),
    }
    data
}

/// What parsing these very bytes yields
pub fn reference(data: &[u8]) -> Out {
    match std::str::from_utf8(data) {
        Ok(t) => outcome(&parse(t)),
        Err(_) => Out::Io(std::io::ErrorKind::InvalidData),
    }
}

/// A text of the same length which differs in some place
pub fn sibling(data: &[u8]) -> Vec<u8> {
    let mut o = data.to_vec();
    let n = o.len();
    for _ in 0..64 {
        if n == 0 { break }
        // Somewhere, near the beginning or near the end
        let at = match draw(3) {
            0 => below(n),
            1 => below(n.min(64)),
            _ => n - 1 - below(n.min(64)),
        };
        if o[at].is_ascii_digit() {
            o[at] = b'0' + (o[at] - b'0' + 1) % 10;
            break
        } else if o[at].is_ascii_lowercase() && draw(4) == 0 {
            o[at] = b'a' + (o[at] - b'a' + 1) % 26;
            break
        }
    }
    o
}

fn run() -> Res {
    let mut data = bytes();
    state(&data);
    note(|| format!("{} bytes:\n{}", data.len(), text_excerpt(&String::from_utf8_lossy(&data))));
    let other: Option<Arc<[u8]>> = (draw(4) == 0).then(|| sibling(&data).into());
    if let Some(o) = &other {
        // Another text was read before, from the very same place
        count("sibling_read_before");
        let original = data.clone();
        data.copy_from_slice(o);
        let _ = reference(&data);
        data.copy_from_slice(&original);
    }
    let want = reference(&data);
    let len = data.len();
    let data: Arc<[u8]> = data.into();
    for _ in 0..range(1, 2) {
        if let Some(o) = &other {
            if draw(2) == 0 { let _ = from_read(SimRead::new(o.clone(), Split::draw(len))); }
        }
        let r = SimRead::new(data.clone(), Split::draw(len));
        let st = r.stats.clone();
        let got = match draw(6) {
            0..=2 => from_read(r),
            3 => {
                count("buffered");
                let cap = pick(&[8192, 1, 3, 16, 100]);
                from_read(std::io::BufReader::with_capacity(cap, r))
            }
            4 => {
                count("by_reference");
                let mut r = r;
                from_read(&mut r)
            }
            _ => {
                // The source proper is made of two
                count("chained");
                let at = below(len + 1);
                let mut a = SimRead::new(data[..at].to_vec(), Split::draw(len));
                a.stats.get().ended = false;
                let b = SimRead::new(data[at..].to_vec(), Split::draw(len));
                let sb = b.stats.clone();
                let got = from_read(Box::new(a.chain(b)) as Box<dyn Read>);
                let s = st.get();
                s.pos = at + sb.get().pos;
                s.ended = sb.get().ended;
                s.reads_after_end = sb.get().reads_after_end;
                got
            }
        };
        let out = outcome(&got);
        ensure!(out == want, "result", "reading differs from parsing the same bytes: {}", out_diff(&want, &out));
        let s = *st.get();
        ensure!(s.pos == len || matches!(out, Out::Io(_)), "not consumed", "{} of {len} bytes were consumed", s.pos);
        ensure!(s.ended || matches!(out, Out::Io(_)), "end not reached", "reading ended before the source reported the end");
        ensure!(s.reads_after_end == 0, "read after end", "{} reads after the end was reported", s.reads_after_end);
    }
    Ok(())
}
