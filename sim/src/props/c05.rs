//! C05: Corrupted text is rejected or read for what it says

use super::*;
use crate::gen;
use crate::io::*;
use crate::refparse;
use crate::render::{render, Style};

pub static PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 700_000,
    level: "exploration",
    rule: "The text of a random circuit suffers one to several of 17 kinds of damage (bits, bytes, blocks, lines, splices with another circuit's text, tails of old contents) or a disk losing power in between, and is read as a whole (also from a buffer in which the undamaged text was read before); the result must be an error or exactly what an independent parser reads from the damaged text.",
    assumptions: &["the harness' reference parser defines what a text denotes", "apart from the cases listed as known findings, nesting stays within what the stack can hold"],
    cases: &[
        Case { name: "deep-expression", what: "reading an expression nested 400000 levels deep exhausts the stack", run: deep_expression },
        Case { name: "deep-type", what: "reading a type nested 400000 levels deep exhausts the stack", run: deep_type },
    ],
};

pub fn damaged() -> (Vec<u8>, SCircuit) {
    let cfg = if chance(1, 5) { gen::cfg() } else { gen::small_cfg() };
    let spec = gen::circuit(&cfg);
    let text = render(&spec, &if draw(3) == 0 { Style::draw() } else { Style::plain() }).text;
    let mut data = text.clone().into_bytes();
    let other = render(&gen::circuit(&gen::small_cfg()), &Style::plain()).text.into_bytes();
    if chance(1, 8) {
        use std::io::Write;
        let mut d = Disk::new(other.clone());
        let synced = below(data.len() + 1);
        let _ = d.write_all(&data[..synced]);
        d.sync();
        let _ = d.write_all(&data[synced..]);
        data = d.crash_torn();
    } else {
        let n = pick(&[1, 1, 2, 3, 6]);
        for _ in 0..n {
            corrupt(&mut data, &other);
        }
    }
    (data, spec)
}

fn run() -> Res {
    let (data, spec) = damaged();
    state(&data);
    note(|| format!("text:\n{}", String::from_utf8_lossy(&data)));
    let res = if draw(2) == 0 || std::str::from_utf8(&data).is_err() {
        from_read(SimRead::new(data.clone(), Split::draw(data.len())))
    } else if draw(4) == 0 {
        // The damage happens within a buffer which was read from before
        count("damaged_in_place");
        let before = render(&spec, &Style::plain()).text;
        let mut buf = String::with_capacity(data.len().max(before.len()));
        buf.push_str(&before);
        let first = parse(&buf);
        ensure!(first.is_ok(), "rejected", "the undamaged text was rejected: {}", first.map(|_| ()).unwrap_err());
        buf.clear();
        buf.push_str(std::str::from_utf8(&data).unwrap());
        if draw(2) == 0 { drop(first) }
        parse(&buf)
    } else {
        parse(std::str::from_utf8(&data).unwrap())
    };
    let Ok(text) = std::str::from_utf8(&data) else {
        count("not_utf8");
        ensure!(res.is_err(), "accepted", "text which is not UTF-8 was accepted");
        return Ok(());
    };
    let reading = refparse::read(text);
    let want = reading.circuit();
    match (&res, want) {
        (Ok(c), Some(w)) => {
            count("damaged_but_accepted");
            let w = normal(&w);
            let got = extract(c);
            ensure!(got == w, "misread", "{}\n--- text:\n{}", circuit_diff(&w, &got), text_excerpt(text));
        }
        (Ok(_), None) => {
            return viol("accepted", format!("text was accepted which does not denote a circuit:\n{}", text_excerpt(text)));
        }
        (Err(_), Some(_)) => {
            count("rejected_but_meaningful");
            note(|| "rejected although the reference parser accepts it".into());
            if std::env::var_os("FSIM_STRICT").is_some() {
                return viol("rejected", format!("{}\n{}", err_text(res.as_ref().unwrap_err()), text));
            }
        }
        (Err(e), None) => {
            count("rejected");
            // The report must be printable, too
            let _ = err_text(e);
        }
    }
    Ok(())
}

const DEEP: usize = 400_000;

fn deep_expression() -> Res {
    let text = format!("circuit a:\n  module a:\n    input x: UInt<1>\n    node y = {}x\n", "not(".repeat(DEEP));
    let r = parse(&text);
    ensure!(r.is_err(), "accepted", "text was accepted which does not denote a circuit");
    Ok(())
}

fn deep_type() -> Res {
    let text = format!("circuit a:\n  module a:\n    input x: {}UInt<1>\n", "{a: ".repeat(DEEP));
    let r = parse(&text);
    ensure!(r.is_err(), "accepted", "text was accepted which does not denote a circuit");
    Ok(())
}
