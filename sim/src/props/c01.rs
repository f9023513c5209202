//! C01: A circuit written out and read back is the same circuit

use std::io::Write;

use super::*;
use crate::gen;
use crate::io::*;
use crate::render::{render, Style};

pub static PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 300_000,
    level: "exploration",
    rule: "A random circuit is built through the public constructors, formatted, moved through memory, a sink and a source, a disk losing power, or a pipe between two tasks, and read back; or it is rendered by an independent printer in some other style and read.",
    assumptions: &[
        "circuits are limited to those FIRRTL text can express (see DESIGN.md for the list of exclusions)",
        "the reference model, printer and parser of the harness",
    ],
    cases: &[
        Case { name: "deep-expression", what: "writing and reading an expression nested 400000 levels deep exhausts the stack", run: deep },
    ],
};

fn run() -> Res {
    let cfg = if chance(1, 3) { gen::cfg() } else { gen::small_cfg() };
    let spec = gen::circuit(&cfg);
    let expected = normal(&spec);
    if draw(3) == 2 {
        return renderings(&spec, &expected);
    }
    let c = build(&spec);
    same("construction", &expected, &c)?;
    let text = format(&c);
    state(text.as_bytes());
    note(|| format!("text:\n{text}"));

    let back = match draw(5) {
        0 => {
            count("via_memory");
            parse(&text)
        }
        1 => {
            count("via_source");
            let r = SimRead::new(arc(&text), Split::draw(text.len()));
            from_read(r)
        }
        2 => {
            count("via_sink");
            let mut w = SimWrite::new(Split::draw(text.len()), None);
            let st = w.state.clone();
            let r = lib(|| write!(w, "{c}"));
            ensure!(r.is_ok(), "write", "a healthy sink led to {r:?}");
            let got = st.get().got.clone();
            ensure!(got == text.as_bytes(), "write", "the sink got something else than the text: {}", first_diff(&text, &String::from_utf8_lossy(&got)));
            from_read(SimRead::new(got, Split::draw(text.len())))
        }
        3 => {
            count("via_disk");
            let mut d = Disk::new(text.to_uppercase().into_bytes());
            let buffered = draw(2) == 1;
            let r = if buffered {
                let cap = pick(&[8192, 1, 16, 100, 4096]);
                let mut b = std::io::BufWriter::with_capacity(cap, &mut d);
                lib(|| write!(b, "{c}")).and_then(|_| b.flush())
            } else {
                lib(|| write!(d, "{c}"))
            };
            ensure!(r.is_ok(), "write", "a healthy disk led to {r:?}");
            d.sync();
            // Losing power afterwards must not matter
            let kept = if draw(2) == 1 { d.crash_torn() } else { d.crash_prefix() };
            // The file system truncates the file to its length
            let mut kept = kept;
            kept.truncate(text.len());
            from_read(SimRead::new(kept, Split::draw(text.len())))
        }
        _ => {
            count("via_pipe");
            let cap = pick(&[4096, 1, 7, 64, 512]);
            let (mut w, r) = pipe(cap, 0x70_0000, Split::draw(text.len()), Split::draw(text.len()));
            let c2 = c.clone();
            let wr = spawn(move || lib(|| write!(w, "{c2}")).map_err(|e| e.to_string()));
            let rd = spawn(move || from_read(r));
            let sent = join(wr)?;
            let got = join(rd)?;
            ensure!(sent.is_ok(), "write", "a healthy pipe led to {sent:?}");
            got
        }
    };
    let back = read_ok("rejected", back, &text)?;
    same("round-trip", &expected, &back)?;
    if cheap(&spec) {
        count("compared_by_library");
        ensure!(lib(|| back == c && c == back), "round-trip", "the library does not consider the circuits equal\n{text}");
    }
    let again = format(&back);
    ensure!(again == text, "reformatted", "{}", first_diff(&text, &again));
    same("unchanged", &expected, &c)
}

/// Texts of other tools
fn renderings(spec: &SCircuit, expected: &SCircuit) -> Res {
    count("rendered");
    let st = Style::draw();
    let r = render(spec, &st);
    state(r.text.as_bytes());
    note(|| format!("rendered:\n{}", r.text));
    let back = if draw(2) == 0 {
        parse(&r.text)
    } else {
        from_read(SimRead::new(arc(&r.text), Split::draw(r.text.len())))
    };
    let back = read_ok("rejected rendering", back, &r.text)?;
    same("rendering", expected, &back)?;
    let text = format(&back);
    let c = build(spec);
    let direct = format(&c);
    ensure!(text == direct, "reformatted rendering", "{}", first_diff(&direct, &text));
    let back = read_ok("rejected", parse(&text), &text)?;
    same("round-trip", expected, &back)
}

fn deep() -> Res {
    use firrtl_ast::expr::{primitive::Operation, Expression};
    use firrtl_ast::module::{Kind, Module, Port, Direction};
    use firrtl_ast::stmt::{Entity, Statement};
    const DEEP: usize = 400_000;
    let port = Arc::new(Port::new("x", firrtl_ast::types::GroundType::UInt(Some(1)).into(), Direction::Input));
    let ent = Arc::new(Entity::from(port.clone()));
    let mut e = Expression::Reference(ent);
    for _ in 0..DEEP { e = Expression::PrimitiveOp(Operation::Not(Arc::new(e))) }
    let node = Entity::Node { name: "y".into(), value: e };
    let m = Module::new("a".into(), [port], Kind::Regular { stmts: vec![Statement::from(firrtl_ast::stmt::Kind::Declaration(Arc::new(node)))] });
    let text = format(&Circuit::new(Arc::new(m)));
    let want = format!("circuit a:\n  module a:\n    input x: UInt<1>\n    node y = {}x{}\n", "not(".repeat(DEEP), ")".repeat(DEEP));
    ensure!(text == want, "text", "{}", first_diff(&want, &text));
    read_ok("rejected", parse(&text), "")?;
    Ok(())
}
