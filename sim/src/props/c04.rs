//! C04: Torn text is never accepted as something it is not

use super::*;
use crate::gen;
use crate::io::*;
use crate::render::{assemble, render, Line, Style};

pub static PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 250_000,
    level: "fault_enumeration",
    rule: "A rendered circuit is torn at a random byte (biased towards line ends) by a writer crashing on a pipe, a disk losing power or running full, or a source ending early; the result of reading as a whole and module by module is compared to what the complete lines of the prefix denote.",
    assumptions: &["the harness' printer, which tells the meaning of every line"],
    cases: &[],
};

/// What the first `n` lines denote
fn model(lines: &[Line], n: usize) -> Option<SCircuit> {
    let (name, info, mods) = assemble(&lines[..n])?;
    if !mods.iter().any(|m| m.name == name) {
        return None;
    }
    Some(normal(&SCircuit { name, info, mods }))
}

fn run() -> Res {
    let mut spec = gen::circuit(&if chance(1, 4) { gen::cfg() } else { gen::small_cfg() });
    // The top module often is not the last one, such that a prefix may contain it
    if spec.mods.len() > 1 && draw(2) == 1 {
        let top = below(spec.mods.len());
        spec.name = spec.mods[top].name.clone();
    }
    let r = render(&spec, &if draw(3) == 0 { Style::draw() } else { Style::plain() });
    let text = r.text.clone();
    let data = text.clone().into_bytes();
    let ends: Vec<usize> = r.lines.iter().flat_map(|l| [l.payload, l.end]).collect();
    let cut = match draw(5) {
        0 | 1 => pick(&ends),
        2 => (pick(&ends) + below(3)).saturating_sub(1).min(data.len()),
        3 => below(data.len() + 1),
        _ => data.len(),
    };

    // Tear
    let (got, kept) = match draw(5) {
        0 => {
            count("fault_truncation");
            let mut c = cut;
            while !text.is_char_boundary(c) { c -= 1 }
            (parse(&text[..c]), c)
        }
        1 => {
            let r = SimRead::new(data.clone(), Split::draw(data.len())).with(cut, Action::End);
            (from_read(r), cut)
        }
        2 => {
            use std::io::Write;
            let mut d = Disk::new(Vec::new());
            d.capacity = if draw(2) == 0 { cut } else { usize::MAX };
            let synced = below(cut + 1);
            let _ = d.write_all(&data[..synced]);
            d.sync();
            let _ = d.write_all(&data[synced..cut]);
            let kept = d.crash_prefix();
            let n = kept.len();
            (from_read(SimRead::new(kept, Split::draw(n))), n)
        }
        _ => {
            use std::io::Write;
            let cap = pick(&[4096, 1, 7, 64]);
            let (mut w, rd) = pipe(cap, 0x70_0000, Split::draw(data.len()), Split::draw(data.len()));
            w.crash_at = Some((cut, None));
            let sent = w.sent.clone();
            let d2 = data.clone();
            let wr = spawn(move || guard(move || w.write_all(&d2).map_err(|e| e.to_string())).map(|_| ()));
            let rr = spawn(move || from_read(rd));
            join(wr)??;
            let got = join(rr)?;
            let n = sent.get().len();
            (got, n)
        }
    };
    state(&data[..kept]);
    note(|| format!("torn after {kept} of {} bytes:\n{}\n--- torn here, lost:\n{}", data.len(),
        String::from_utf8_lossy(&data[..kept]), String::from_utf8_lossy(&data[kept..])));

    let complete = r.lines.iter().filter(|l| l.end <= kept).count();
    let tail = r.lines.get(complete).is_some_and(|l| l.payload <= kept);
    let allowed = |n: usize| model(&r.lines, n);
    match &got {
        Err(e) => {
            // The complete text must not be rejected
            ensure!(kept < data.len(), "rejected", "{}", err_text(e));
            count("torn_rejected");
        }
        Ok(c) => {
            let c = extract(c);
            let whole = allowed(complete);
            let more = if tail { allowed(complete + 1) } else { None };
            if Some(&c) == whole.as_ref() {
                count("torn_accepted");
            } else if Some(&c) == more.as_ref() {
                count("torn_accepted_without_line_end");
            } else {
                let why = match whole {
                    Some(w) => circuit_diff(&w, &c),
                    None => "the complete lines do not make up a circuit".to_string(),
                };
                return viol("torn text accepted", format!("{kept} of {} bytes: {why}", data.len()));
            }
        }
    }

    // Module by module
    let mut end = kept;
    while !text.is_char_boundary(end) { end -= 1 }
    let prefix = &text[..end];
    let n_lines = r.lines.iter().filter(|l| l.end <= end).count();
    let mut yielded = Vec::new();
    let mut failed = false;
    match lib(|| firrtl_ast::circuit::consumer(prefix)) {
        Err(_) => failed = true,
        Ok(mut it) => {
            while let Some(x) = lib(|| it.next()) {
                match x {
                    Ok(m) => {
                        ensure!(!failed, "module after error", "a module was yielded after an error");
                        yielded.push(m);
                    }
                    Err(_) => failed = true,
                }
                ensure!(yielded.len() <= r.lines.len(), "endless", "more modules than lines");
            }
        }
    }
    let mods = lib(|| x_list(&yielded));
    let mut fits = false;
    for k in (0..=n_lines + 1).rev() {
        if let Some((_, _, m)) = r.lines.get(..k).and_then(assemble) {
            // Modules following are missing, those present are complete except for the last one
            if m == mods {
                // Without an error, everything complete has to be there
                fits |= failed || k >= n_lines;
            }
        }
    }
    fits |= failed && mods.is_empty();
    ensure!(fits, "modules of torn text", "{} modules {} are none which the lines of the prefix define:\n{}",
        mods.len(), if failed { "followed by an error" } else { "without any error" }, mods.iter().map(dump).collect::<String>());
    Ok(())
}
