//! C06: A failing sink gets a clean prefix and its failure is reported

use std::io::Write;

use super::shown::Shown;
use super::*;
use crate::gen;
use crate::io::*;

pub static PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 700_000,
    level: "fault_enumeration",
    rule: "A circuit (or any of its parts which can be formatted) is formatted into sinks failing at some call, at some byte, with part of a write accepted, or by being full; small ones at every single call and byte. What the sink got is compared to the complete text, the error returned to the one injected, and formatting is repeated afterwards.",
    assumptions: &["what the standard library's formatting machinery and buffered writers do with errors is the real thing"],
    cases: &[],
};

fn check(text: &str, what: &str, st: &SinkState, ok: bool) -> Res {
    ensure!(text.as_bytes().starts_with(&st.got), "not a prefix", "{what}: the sink got something which is not a prefix of the text: {}",
        first_diff(text, &String::from_utf8_lossy(&st.got)));
    ensure!(st.after_failure == 0, "written after failure", "{what}: {} write(s) after the sink failed", st.after_failure);
    if ok {
        ensure!(!st.fired, "swallowed", "{what}: formatting succeeded although the sink failed after {} of {} bytes", st.got.len(), text.len());
        ensure!(st.got.len() == text.len(), "incomplete", "{what}: formatting succeeded with {} of {} bytes", st.got.len(), text.len());
    } else {
        ensure!(st.fired, "spurious", "{what}: formatting failed although the sink did not");
    }
    Ok(())
}

fn fmt_sink(s: &Shown, text: &str, plan: SinkPlan) -> Res {
    let mut sink = SimFmt::new(plan);
    let st = sink.state.clone();
    let r = lib(|| s.fmt(&mut sink));
    check(text, s.what, st.get(), r.is_ok())
}

fn io_sink(s: &Shown, text: &str, at: usize) -> Res {
    let f = if draw(4) == 0 { Fail::Kind(std::io::ErrorKind::WriteZero) } else { Fail::draw() };
    let mut w = SimWrite::new(Split::draw(text.len()), Some((at, f)));
    let st = w.state.clone();
    let r = match draw(4) {
        0..=1 => lib(|| s.io(&mut w)),
        2 => {
            count("line_writer");
            let r = lib(|| {
                let mut b = std::io::LineWriter::new(&mut w);
                s.io(&mut b).and_then(|_| b.flush())
            });
            return buffered(text, s.what, st.get(), r);
        }
        _ => {
            count("buf_writer");
            let cap = pick(&[8192, 1, 16, 100, 4096]);
            let r = lib(|| {
                let mut b = std::io::BufWriter::with_capacity(cap, &mut w);
                let r = s.io(&mut b).and_then(|_| b.flush());
                let _ = b.into_parts();
                r
            });
            return buffered(text, s.what, st.get(), r);
        }
    };
    check(text, s.what, st.get(), r.is_ok())?;
    if let Err(e) = r {
        if let Some(m) = f.mismatch(&e) {
            // WriteZero is what the standard library makes of a sink accepting nothing
            if f != Fail::Kind(std::io::ErrorKind::WriteZero) || e.kind() != std::io::ErrorKind::WriteZero {
                return viol("wrong error", format!("{}: {m}", s.what));
            }
        }
    }
    Ok(())
}

/// With a buffer in between, failures surface later
fn buffered(text: &str, what: &str, st: &SinkState, r: std::io::Result<()>) -> Res {
    let mut st = st.clone();
    st.after_failure = 0;
    check(text, what, &st, r.is_ok())
}

fn disk_sink(s: &Shown, text: &str) -> Res {
    let mut d = Disk::new(Vec::new());
    d.capacity = below(text.len() + 2);
    let cap = d.capacity;
    let r = lib(|| s.io(&mut d));
    let full = cap < text.len();
    ensure!(r.is_ok() != full, "full disk", "{}: {r:?} with a capacity of {cap} for {} bytes", s.what, text.len());
    ensure!(text.as_bytes().starts_with(&d.cache), "not a prefix", "{}: the file is not a prefix of the text", s.what);
    if let Err(e) = r {
        ensure!(e.raw_os_error() == Some(28), "wrong error", "{}: {e:?} instead of a full disk", s.what);
    }
    Ok(())
}

fn run() -> Res {
    let cfg = if chance(1, 6) { gen::cfg() } else { gen::small_cfg() };
    let spec = gen::circuit(&cfg);
    let expected = normal(&spec);
    let c = build(&spec);
    let s = lib(|| shown::choose(&c));
    let text = lib(|| s.text());
    state(text.as_bytes());
    note(|| format!("{}:\n{}", s.what, text_excerpt(&text)));

    // A healthy sink, counting the calls
    let mut sink = SimFmt::new(SinkPlan::Never);
    let st = sink.state.clone();
    let r = lib(|| s.fmt(&mut sink));
    check(&text, s.what, st.get(), r.is_ok())?;
    let calls = st.get().calls;
    ensure!(calls > 0 || text.is_empty(), "no write", "{}: text without any write", s.what);

    let err = || Action::Fail(Fail::Kind(std::io::ErrorKind::Other));
    if calls <= 60 && text.len() <= 200 && chance(1, 4) {
        // Every point a sink can fail at
        count("every_point");
        for i in 0..calls {
            fmt_sink(&s, &text, SinkPlan::Call(i, err()))?;
        }
        for k in 0..text.len() {
            fmt_sink(&s, &text, SinkPlan::Byte(k, k % 2 == 0, err()))?;
            io_sink(&s, &text, k)?;
        }
    } else {
        for _ in 0..range(1, 4) {
            match draw(4) {
                0 => {
                    let n = draw(calls + 1);
                    fmt_sink(&s, &text, SinkPlan::Call(n, err()))?
                }
                1 => {
                    let k = below(text.len() + 1);
                    let partial = draw(2) == 1;
                    fmt_sink(&s, &text, SinkPlan::Byte(k, partial, err()))?
                }
                2 => {
                    let k = below(text.len() + 1);
                    io_sink(&s, &text, k)?
                }
                _ => disk_sink(&s, &text)?,
            }
        }
    }
    let again = lib(|| s.text());
    ensure!(again == text, "repetition", "{}: {}", s.what, first_diff(&text, &again));
    if s.what != "Circuit" {
        // The part's text is independent of what happened to the whole
        let whole = format(&c);
        let k = below(whole.len() + 1);
        fmt_sink(&Shown::new("Circuit", c.clone()), &whole, SinkPlan::Byte(k, true, err()))?;
    }
    same("changed", &expected, &c)
}

