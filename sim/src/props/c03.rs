//! C03: Read failures surface as that I/O error and nothing else

use std::error::Error;
use std::io::ErrorKind;

use super::*;
use crate::gen;
use crate::io::*;
use crate::render::{render, Style};

pub static PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 180_000,
    level: "fault_enumeration",
    rule: "A source fails at some byte (anywhere, biased towards line and character boundaries, the very beginning and the end) with one of 36 error kinds, some OS error or an error with a payload, or delivers invalid UTF-8, while splitting and interrupting transfers; afterwards, a healthy source is read.",
    assumptions: &[],
    cases: &[],
};

fn run() -> Res {
    let spec = gen::circuit(&gen::small_cfg());
    let mut data = render(&spec, &if draw(2) == 0 { Style::plain() } else { Style::draw() }).text.into_bytes();
    if chance(1, 6) {
        let b = pick(&[40usize, 4096, 8192, 70_000]);
        data = super::c02::padded(&String::from_utf8(data).unwrap(), b).into_bytes();
    }
    let healthy = data.clone();
    match draw(6) {
        0 => corrupt(&mut data, b"circuit x:\n  module x:\n"),
        1 => {
            count("fault_invalid_utf8");
            let at = below(data.len() + 1);
            let bad: &[u8] = pick(&[&b"\xff"[..], b"\xc3", b"\xe6\xbc", b"\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80"]);
            data.splice(at..at, bad.iter().copied());
        }
        _ => (),
    }
    state(&data);
    let len = data.len();
    let at = match draw(6) {
        0 => len,
        1 => 0,
        2 => data.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1).nth(below(10)).unwrap_or(len),
        3 => len - 1.min(len),
        _ => below(len + 1),
    };
    let fail = Fail::draw();
    let valid_before = std::str::from_utf8(&data[..at]).is_ok();
    let valid = std::str::from_utf8(&data).is_ok();
    let fails = valid || draw(2) == 1;
    note(|| format!("{len} bytes, failing at {at}: {fails} with {fail:?}\n{}", text_excerpt(&String::from_utf8_lossy(&data))));

    let mut r = SimRead::new(data.clone(), Split::draw(len));
    if fails {
        r = r.with(at, Action::Fail(fail));
    }
    let st = r.stats.clone();
    let res = match draw(4) {
        3 => {
            count("buffered");
            let cap = pick(&[8192, 1, 16]);
            from_read(std::io::BufReader::with_capacity(cap, r))
        }
        _ => from_read(r),
    };
    let s = *st.get();
    ensure!(s.drops == 1, "drop", "the source was dropped {} times", s.drops);
    ensure!(s.reads_after_failure == 0, "read after failure", "{} reads after the failure", s.reads_after_failure);
    match &res {
        Ok(_) => return viol("circuit despite failure", format!("reading succeeded although the source failed after {at} of {len} bytes with {fail:?} (failing: {fails})")),
        Err(ParseError::Other(e)) => return viol("syntax error despite failure", format!("expected an I/O error, got: {e}")),
        Err(e @ ParseError::IO(io)) => {
            let encoding = io.kind() == ErrorKind::InvalidData && io.raw_os_error().is_none();
            if fails {
                // Bytes delivered before may be objected to just as well
                if let (Some(m), false) = (fail.mismatch(io), encoding && !valid_before) {
                    return viol("other error", format!("the source failed with {fail:?}, but the error is {io:?}: {m}"));
                }
                ensure!(s.failed || !valid_before, "fabricated", "an error was reported before the source failed");
            } else {
                ensure!(encoding, "encoding error", "invalid UTF-8 led to {io:?}");
            }
            match e.source() {
                Some(s) if s.is::<std::io::Error>() => (),
                other => return viol("source", format!("the error's source is {other:?} instead of the I/O error")),
            }
        }
    }
    drop(res);
    // Reading something else is not affected
    let want = outcome(&parse(std::str::from_utf8(&healthy).unwrap()));
    let r = SimRead::new(healthy, Split::draw(len));
    let st = r.stats.clone();
    let out = outcome(&from_read(r));
    ensure!(out == want, "later read", "a later read is affected: {}", out_diff(&want, &out));
    ensure!(st.get().drops == 1, "drop", "the source was dropped {} times", st.get().drops);
    let expected = normal(&spec);
    ensure!(want == Out::Circuit(Box::new(expected.clone())), "later read", "{}", out_diff(&Out::Circuit(Box::new(expected)), &want));
    Ok(())
}
