//! C15: Effort and memory stay in proportion to the text

use super::*;
use crate::gen;
use crate::io::*;
use crate::render::{render, Style};

pub static PROP: Prop = Prop {
    id: "C15",
    run,
    quick: 12_000,
    level: "exploration",
    rule: "Texts of 1 to 100 kB, made of what is likely to be costly (one part of a text repeated over and over, operators, subscripts, types and conditionals nested up to a thousand levels, long chains, lists and numbers, large random circuits), mostly damaged, are read from memory or from a source delivering in pieces and with interruptions; if accepted, the circuit is written. Steps (edges of the library's control flow graph), peak memory and allocations are counted and compared to a fixed multiple of the text's size.",
    assumptions: &["work done within precompiled functions of the standard library is not counted as steps"],
    cases: &[],
};

/// One part of a text, repeated
fn pumped(len: usize) -> Vec<u8> {
    count("gen_pumped");
    let spec = gen::circuit(&gen::small_cfg());
    let data = render(&spec, &if draw(3) == 0 { Style::draw() } else { Style::plain() }).text.into_bytes();
    let marks: Vec<usize> = match draw(3) {
        // Whole lines
        0 => std::iter::once(0).chain((0..data.len()).filter(|i| data[*i] == b'\n').map(|i| i + 1)).collect(),
        // From mark to mark
        1 => (0..data.len()).filter(|i| data[*i].is_ascii_punctuation() || data[*i] == b' ').collect(),
        _ => (0..data.len()).collect(),
    };
    if marks.len() < 2 { return data }
    let i = below(marks.len() - 1);
    let j = i + 1 + size((marks.len() - i - 2).min(12));
    let part = &data[marks[i]..marks[j]];
    // What nests is not repeated as often, as there is only so much stack
    let nests = part.iter().any(|b| b"([{".contains(b)) || part.windows(4).any(|w| w == b"else");
    let n = (len / part.len()).clamp(1, if nests { 500 } else { usize::MAX });
    let mut o = data[..marks[j]].to_vec();
    for _ in 0..n { o.extend_from_slice(part) }
    o.extend_from_slice(&data[marks[j]..]);
    o
}

const HEAD: &str = "circuit a:\n  module a:\n    input x: UInt<1>\n    input v: {a: UInt<1>, b: UInt<2>[4]}\n    cmem m : UInt<4>[7]\n";

/// Texts of one kind, differing in size only
enum Family {
    /// Constructs containing something of their own kind
    Nested { cycle: Vec<(&'static str, &'static str)>, core: &'static str, open: (usize, usize), front: &'static str, again: Option<&'static str>, back: &'static str },
    /// Conditionals within conditionals, and one after another
    Conditionals { cycle: Vec<u64>, step: usize, last: &'static str },
    /// Modules in great number, one instantiating others
    Hierarchy { fan: usize, shape: u64, salt: u64, bad: bool },
    /// Something repeated
    List { front: &'static str, item: Box<dyn Fn(usize) -> String>, back: &'static str },
}

fn nested() -> Family {
    count("gen_nested");
    let of_type = draw(4) == 3;
    let all: &[(&str, &str)] = if of_type {
        &[("{a: ", "}"), ("{flip b : ", ", c: Clock}"), ("{x: Clock, d: ", "}"), ("", "[3]"), ("{e: ", "}[2]")]
    } else {
        &[
            ("not(", ")"), ("mux(x, x, ", ")"), ("mux(x, ", ", x)"), ("mux(", ", x, x)"), ("validif(x, ", ")"), ("validif(", ", x)"),
            ("v[", "]"), ("v.b[", "]"), ("add(x, ", ")"), ("add(", ", x)"), ("bits(", ", 1, 0)"), ("pad(", ", 3)"), ("", ".b"), ("", "[2]"),
            ("asFixed(", ", -2)"), ("cat(UInt<3>(5), ", ")"), ("x[", "]"), ("", "[x]"), ("neg( ", " )"), ("tail(", ",1)"), ("cvt(", ")"),
        ]
    };
    let cycle = (0..range(1, 3)).map(|_| pick(all)).collect();
    let core = if of_type { "UInt<3>" } else { pick(&["x", "v", "UInt(1)", "z", "SInt<4>(-3)"]) };
    // The share of brackets left open
    let open = if draw(4) == 3 { (range(1, 4), 4) } else { (0, 1) };
    let (front, again, back) = if of_type {
        pick(&[
            ("    wire w: ", None, "\n"), ("    reg w: ", None, ", x\n"), ("    cmem w: ", None, "\n"),
            ("    mem w:\n      data-type => ", None, "\n      depth => 4\n"),
            ("  module b:\n    input w: ", None, "\n"),
        ])
    } else {
        pick(&[
            ("    node y = ", None, "\n"), ("    x <= ", None, "\n"), ("    ", None, " is invalid\n"), ("    ", Some(" <- "), "\n"), ("    ", Some(" <= "), "\n"),
            ("    when ", None, ":\n      skip\n"), ("    printf(x, ", Some(", \"%d\", "), ")\n"), ("    attach(", Some(", "), ")\n"),
            ("    reg r: UInt<1>, ", Some(" with: (reset => (x, "), "))\n"), ("    read mport p = m[", Some("], "), "\n"), ("    stop(x, ", None, ", 1)\n"),
            ("    when x:\n      skip\n    else when ", None, ":\n      skip\n"),
        ])
    };
    // What follows brackets left open may be taken for one thing or another
    Family::Nested { cycle, core, open, front, again: if open.0 > 0 { None } else { again }, back }
}

fn list() -> Family {
    count("gen_list");
    fn same(s: &'static str) -> Box<dyn Fn(usize) -> String> { Box::new(move |_| s.to_string()) }
    let (front, item, back): (&'static str, Box<dyn Fn(usize) -> String>, &'static str) = match draw(30) {
        0 => ("", Box::new(|i| format!("    node n{i} = x\n")), ""),
        1 => ("", Box::new(|i| format!("    wire n{i}: UInt<{i}>\n    n{i} <= x\n")), ""),
        2 => ("", same("    x <= v.a\n"), ""),
        3 => ("", same("   ;\n"), ""),
        4 => ("", same("\n"), ""),
        5 => ("", same("    skip ; ab\n"), "    skap\n"),
        6 => ("    attach(x", same(", x"), ")\n"),
        7 => ("    attach(x", same(", x"), "\n"),
        8 => ("    printf(x, x, \"", same("%%ab"), "\")\n"),
        9 => ("    printf(x, x, \"", same("\\n"), "\"\n"),
        10 => ("    wire w: {a: Clock", Box::new(|i| format!(", flip a{i} : UInt<3>")), "}\n"),
        11 => ("    wire w: {a: Clock", Box::new(|i| format!(", a{i} : UInt<3>")), "\n"),
        12 => ("  extmodule e:\n", Box::new(|i| format!("    parameter p{i} = {i}\n")), ""),
        13 => ("  extmodule e:\n    parameter p = \"", same("\\\"x\\\\"), "\"\n"),
        14 => ("  module b:\n", Box::new(|i| format!("    input p{i}: UInt<8>\n    output q{i}: Clock\n")), "    p1 <= q2\n"),
        15 => ("    mem w:\n      data-type => Clock\n      depth => 4\n", Box::new(|i| format!("      reader => r{i}\n")), ""),
        16 => ("    node y = UInt(1", same("23"), ")\n"),
        17 => ("    node y = UInt(\"h1", same("fa"), "\")\n"),
        18 => ("    node y = SInt(\"b-1", same("01"), "\")\n"),
        19 => ("    node y = UInt<1", same("0"), ">(3)\n"),
        20 => ("    node y", same("y"), " = x\n"),
        21 => ("    skip @[", same("a\\]"), "]\n"),
        22 => ("    skip @[", same("ab "), "\n"),
        23 => ("    skip", same(" "), "\n"),
        24 => ("", Box::new(|i| format!("    when x:\n      node n{i} = x\n    else:\n      node m{i} = n{i}\n")), ""),
        25 => ("", Box::new(|i| format!("    inst i{i} of b{i}\n")), ""),
        26 => ("", Box::new(|i| format!("    cmem m{i} : Clock[3]\n    write mport p{i} = m{i}[x], x\n")), ""),
        27 => ("  module b:\n    skip\n", Box::new(|i| format!("  module c{i}:\n    inst i of b\n")), ""),
        28 => ("    node y = x", same(".a"), "\n"),
        _ => ("    stop(x, x, 1) : s", same("\u{e9}"), "\n"),
    };
    Family::List { front, item, back: if draw(4) == 3 { "    z <= z\n" } else { back } }
}

fn family() -> Family {
    match draw(4) {
        0 => nested(),
        1 => {
            count("gen_conditionals");
            Family::Conditionals {
                cycle: (0..range(1, 3)).map(|_| draw(5)).collect(),
                step: pick(&[1, 2, 3]),
                last: pick(&["skip\n", "x <= v.a\n", "z <= x\n", "", "when x:\n"]),
            }
        }
        2 => {
            count("gen_hierarchy");
            Family::Hierarchy { fan: pick(&[1, 2, 3, 8]), shape: draw(3), salt: draw(1 << 32), bad: draw(4) == 3 }
        }
        _ => list(),
    }
}

impl Family {
    /// How often the unit may be repeated, at most
    fn most(&self) -> usize {
        match self {
            // There is only so much stack
            Family::Nested { .. } => 1000,
            // The size grows quadratically, due to the indentation
            Family::Conditionals { .. } => 192,
            Family::Hierarchy { .. } => 1000,
            Family::List { .. } => 3000,
        }
    }

    fn build(&self, n: usize) -> String {
        match self {
            Family::Nested { cycle, core, open, front, again, back } => {
                let mut e = String::new();
                for i in 0..n { e.push_str(cycle[i % cycle.len()].0) }
                e.push_str(core);
                for i in (n * open.0 / open.1..n).rev() { e.push_str(cycle[i % cycle.len()].1) }
                match again {
                    None => format!("{HEAD}{front}{e}{back}"),
                    Some(a) => format!("{HEAD}{front}{e}{a}{e}{back}"),
                }
            }
            Family::Conditionals { cycle, step, last } => {
                let mut o = HEAD.to_string();
                let mut ind = 4;
                for i in 0..n {
                    let s = " ".repeat(ind);
                    let t = " ".repeat(ind + step);
                    match cycle[i % cycle.len()] {
                        0 => { o.push_str(&format!("{s}when x:\n")); ind += step; }
                        1 => { o.push_str(&format!("{s}when x:\n{t}skip\n{s}else:\n")); ind += step; }
                        2 => o.push_str(&format!("{s}when x:\n{t}x <= v.a\n{s}else when v.a:\n{t}node n{i} = x\n")),
                        3 => {
                            o.push_str(&format!("{s}when x:\n{t}skip\n"));
                            for _ in 0..4 { o.push_str(&format!("{s}else when v.a:\n{t}node n{i} = x\n")) }
                        }
                        _ => o.push_str(&format!("{s}wire w{i}: UInt<3>\n{s}when w{i}:\n{t}w{i} <= x\n{s}else:\n{t}wire w{i}: UInt<4>\n")),
                    }
                }
                o.push_str(&" ".repeat(ind));
                o.push_str(last);
                o
            }
            Family::Hierarchy { fan, shape, salt, bad } => {
                let mut o = format!("circuit m{}:\n", n - 1);
                for i in 0..n {
                    o.push_str(&format!("  module m{i}:\n    input x: UInt<{i}>\n    skip\n"));
                    for k in 0..(*fan).min(i) {
                        let of = match shape {
                            0 => i - 1,
                            1 => i - 1 - k,
                            _ => mix(*salt, (i * 8 + k) as u64) as usize % i,
                        };
                        o.push_str(&format!("    inst i{k} of m{of}\n"));
                    }
                }
                if *bad { o.push_str("    inst j of mm\n") }
                o
            }
            Family::List { front, item, back } => {
                let mut o = format!("{HEAD}{front}");
                for i in 0..n { o.push_str(&item(i)) }
                o.push_str(back);
                o
            }
        }
    }
}

fn text() -> Vec<u8> {
    let len = pick(&[1_000, 4_000, 16_000, 50_000, 100_000]);
    let mut data = match draw(4) {
        0 | 1 => pumped(len),
        2 => {
            let f = family();
            f.build(range(1, f.most())).into_bytes()
        }
        _ => {
            let mut c = gen::cfg();
            c.vast = range(1, 10) as u64;
            gen::vastly(&mut c);
            render(&gen::circuit(&c), &if draw(3) == 0 { Style::draw() } else { Style::plain() }).text.into_bytes()
        }
    };
    if draw(3) > 0 {
        let other = HEAD.as_bytes();
        for _ in 0..range(1, 3) { corrupt(&mut data, other) }
    }
    data
}

/// What an operation on so many bytes may take
struct Limits {
    steps: u64,
    peak: u64,
    allocs: u64,
    volume: u64,
}

const READ: Limits = Limits { steps: 3000, peak: 400, allocs: 100, volume: 8000 };
const WRITE: Limits = Limits { steps: 200, peak: 50, allocs: 5, volume: 600 };
const REPORT: Limits = Limits { steps: 200, peak: 50, allocs: 5, volume: 200 };
/// Bytes which come on top of what is there
const FREE: u64 = 1000;

fn measured<R>(what: &str, l: &Limits, size: usize, f: impl FnOnce() -> R) -> Res<(R, Effort)> {
    let n = size as u64 + FREE;
    let (r, e) = metered(&format!("{what} {size} bytes"), n * l.steps, f);
    ev("effort", e.steps, e.peak);
    meter(what, size, &[e.steps * 100 / n, e.peak * 100 / n, e.allocs * 100 / n, e.volume * 100 / n]);
    note(|| format!("{what} {size} bytes took {e:?}"));
    ensure!(e.peak <= n * l.peak, "memory", "{what} {size} bytes took up to {} bytes of memory", e.peak);
    ensure!(e.allocs <= n * l.allocs, "allocations", "{what} {size} bytes took {} allocations", e.allocs);
    ensure!(e.volume <= n * l.volume, "volume", "{what} {size} bytes took allocating {} bytes", e.volume);
    Ok((r, e))
}

/// Write down figures for choosing limits
fn meter(what: &str, size: usize, figures: &[u64]) {
    if let Some(p) = std::env::var_os("FSIM_METER") {
        use std::io::Write;
        let mut l = format!("{} {size}", what.split(' ').next().unwrap());
        figures.iter().for_each(|f| l.push_str(&format!(" {f}")));
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap();
        f.write_all((l + "\n").as_bytes()).unwrap();
    }
}

struct Efforts {
    accepted: bool,
    /// Bytes read and written
    len: usize,
    out: usize,
    read: Effort,
    write: Effort,
}

/// Effort for reading and for what is done with the result
fn efforts(data: &[u8]) -> Res<Efforts> {
    state(data);
    count_n("bytes", data.len() as u64);
    let (res, read) = match std::str::from_utf8(data) {
        Ok(text) if draw(3) > 0 => measured("parsing", &READ, data.len(), || parse(text))?,
        _ => {
            let mut s = Split::draw(data.len());
            s.stall = 0;
            let src = SimRead::new(data.to_vec(), s);
            let stats = src.stats.clone();
            let res = measured("reading", &READ, data.len(), || from_read(src))?;
            let n = stats.get().reads;
            ensure!(n <= 40 * (data.len() as u64 + FREE), "reads", "reading {} bytes took {n} calls", data.len());
            res
        }
    };
    match res {
        Ok(c) => {
            count("accepted");
            // What is written may well be longer than what was read, e.g. due to indentation
            use std::fmt::Write;
            let mut probe = Probe(0);
            let (r, _) = metered("writing", (8 * data.len() as u64 + FREE) * WRITE.steps, || lib(|| write!(probe, "{c}")));
            ensure!(r.is_ok(), "not written", "an accepted circuit cannot be written");
            let size = probe.0;
            let (out, write) = measured("writing", &WRITE, size, || format(&c))?;
            ensure!(out.len() == size, "different", "writing yields {} bytes, then {}", size, out.len());
            Ok(Efforts { accepted: true, len: data.len(), out: size, read, write })
        }
        Err(e) => {
            count("rejected");
            let (report, write) = measured("reporting", &REPORT, data.len(), || lib(|| e.to_string()))?;
            ensure!(report.len() <= 40 * (data.len() + FREE as usize), "report", "the report on {} bytes has {}", data.len(), report.len());
            Ok(Efforts { accepted: false, len: data.len(), out: report.len(), read, write })
        }
    }
}

/// Effort grows in proportion to the size
///
/// What each further byte costs is told from three texts of different sizes.
fn scaled() -> Res {
    count("scaled");
    let f = family();
    // Multiples of what matters for where brackets are missing
    let least = 12 * range(1, f.most() / 192);
    let mut got = Vec::new();
    for n in [least, 4 * least, 16 * least] {
        let t = f.build(n);
        note(|| if t.len() < 10_000 { format!("text:\n{t}") } else { format!("text of {} bytes", t.len()) });
        got.push(efforts(t.as_bytes())?);
    }
    if got.iter().any(|g| g.accepted != got[0].accepted) {
        // Some number is too large in the longer text
        count("scaled_differently");
        return Ok(());
    }
    // What further bytes cost, in thousandths per byte. Space is doubled every now and then, hence
    // what is allocated is not as exact.
    let figures: [(&str, u64, u64, fn(&Efforts) -> (u64, usize)); 4] = [
        ("steps reading", 500, 14, |g| (g.read.steps, g.len)),
        ("bytes allocated reading", 8000, 26, |g| (g.read.volume, g.len)),
        ("steps writing", 500, 14, |g| (g.write.steps, g.out)),
        ("bytes allocated writing", 8000, 26, |g| (g.write.volume, g.out)),
    ];
    for (what, free, limit, v) in figures {
        let cost = |i: usize, j: usize| {
            let ((s, l), (t, m)) = (v(&got[i]), v(&got[j]));
            if m < 2 * l + 500 { None } else { Some(t.saturating_sub(s) * 1000 / (m - l) as u64 + free) }
        };
        let (Some(x), Some(y)) = (cost(0, 1), cost(1, 2)) else { continue };
        meter(&what.replace(' ', "-"), got[2].len, &[y * 100 / x, y / 10]);
        ensure!(10 * y <= limit * x, "growth", "{} {what} {} bytes, {} for {}, but {} for {}",
            v(&got[0]).0, v(&got[0]).1, v(&got[1]).0, v(&got[1]).1, v(&got[2]).0, v(&got[2]).1);
    }
    let memory: [(&str, fn(&Efforts) -> (u64, usize)); 2] = [("reading", |g| (g.read.peak, g.len)), ("writing", |g| (g.write.peak, g.out))];
    for (what, v) in memory {
        let per = |i: usize| (v(&got[i]).0 + 50 * FREE) * 1000 / (v(&got[i]).1 as u64 + FREE);
        meter(&format!("{what}-memory"), got[2].len, &[per(2) * 100 / per(0)]);
        ensure!(per(2) <= 4 * per(0), "memory growth", "{what} took {} bytes of memory for {} bytes, but {} for {}", v(&got[0]).0, v(&got[0]).1, v(&got[2]).0, v(&got[2]).1);
    }
    Ok(())
}

fn run() -> Res {
    if draw(2) == 0 {
        let data = text();
        note(|| format!("text:\n{}", String::from_utf8_lossy(&data)));
        efforts(&data).map(|_| ())
    } else {
        scaled()
    }
}

/// Counts what is written
struct Probe(usize);
impl std::fmt::Write for Probe {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
