//! C08 bootstrap, C09 generated code: both compile what the library generates and run it.

use super::parse::{parser_error, the_meta, the_zoo};
use super::peg::{corpus_text, differential, random_peg_grammar};
use super::Prop;
use crate::ctx::{target, Ctx, Res};
use crate::model::{Rules, E};
use crate::rng::Rng;
use crate::{conv, gen, pegtext, viol, zoo};
use dynparser::parser::expression::SetOfRules;
use std::collections::BTreeMap;
use std::fs;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    let p = |id, case, quick, thorough, rule| Prop {
        id,
        case,
        quick,
        thorough,
        shards: 1,
        cpu_limit: 400,
        mem_limit: 0,
        min_distinct: 100,
        rule,
        assumptions: &["the Rust toolchain compiles a control program (checked whenever generated code does not compile)"],
    };
    vec![
        p("C08", c08, 1, 12, "the printed rules are compiled into a program; case = 30,000 grammar texts (rendered, mutated, truncated, token soup, literal and class spellings); verdict and failure point of the program against rules_from_peg; non-trivial: all, distinct by text"),
        p("C09", c09, 1, 14, "case = 1,500 rule sets from PEG text (all operators, hostile characters in literals, messages, classes), the generated code of each compiled as a module of one program; the rules it builds are compared with the original ones, also by parsing texts with both; non-trivial: all, distinct by grammar text"),
    ]
}

// ------------------------------------------------------------------- the generated program

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

const PROFILE: &str = r#"
[profile.dev]
opt-level = 1
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
incremental = false
[profile.dev.package.genprog]
opt-level = 0
debug = 0
"#;

fn build(dir: &Path, mods: &[String]) -> Result<PathBuf, String> {
    let h = env!("CARGO_MANIFEST_DIR");
    fs::create_dir_all(dir.join("src")).expect("gen dir");
    fs::write(
        dir.join("Cargo.toml"),
        format!(
            "[package]\nname = \"genprog\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\ndynparser = {{ path = \"/repo\" }}\ndpmon = {{ path = {:?} }}\n[workspace]\n{}",
            h, PROFILE
        ),
    )
    .expect("write");
    if let Ok(lock) = fs::read(Path::new(h).join("Cargo.lock")) {
        // same versions of everything
        let l = String::from_utf8_lossy(&lock).to_string();
        fs::write(
            dir.join("Cargo.lock"),
            format!("{}\n[[package]]\nname = \"genprog\"\nversion = \"0.1.0\"\ndependencies = [\n \"dpmon\",\n \"dynparser\",\n]\n", l),
        )
        .expect("write");
    }
    let mut main = String::from("#![recursion_limit = \"1024\"]\n#![allow(unused)]\n#[macro_use] extern crate dynparser;\n");
    for i in 0..mods.len() {
        main.push_str(&format!("mod g{};\n", i));
    }
    main.push_str("fn main() { dpmon::props::codegen::serve(&[\n");
    for i in 0..mods.len() {
        main.push_str(&format!("    g{}::rules,\n", i));
    }
    main.push_str("]) }\n");
    fs::write(dir.join("src/main.rs"), main).expect("write");
    for (i, m) in mods.iter().enumerate() {
        fs::write(
            dir.join(format!("src/g{}.rs", i)),
            format!("pub fn rules() -> dynparser::parser::expression::SetOfRules {{\n    rules!{{\n{}\n    }}\n}}\n", m),
        )
        .expect("write");
    }
    let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| format!("{}/../.target", h));
    let out = Command::new("cargo")
        .args(["build", "--offline", "--quiet", "--message-format", "short", "--manifest-path"])
        .arg(dir.join("Cargo.toml"))
        .env("CARGO_TARGET_DIR", &target)
        .stdin(Stdio::null())
        .output()
        .expect("cargo");
    if out.status.success() {
        // keep the program aside: the target directory is shared
        let exe = dir.join("genprog");
        fs::copy(Path::new(&target).join("debug/genprog"), &exe).expect("copy program");
        Ok(exe)
    } else {
        Err(String::from_utf8_lossy(&out.stderr).into_owned())
    }
}

fn control(dir: &Path) {
    // the same program around code that is known to be right
    let ok = r##"  r#"main"# => and!(rep!(lit!("a"), 0), not!(dot!()), or!(ref_rule!(r#"a"#), ematch!(chlist "x", from 'a', to 'b')))
       , r#"a"# => error!("x")"##;
    if let Err(e) = build(dir, &[ok.to_string()]) {
        panic!("the control program does not compile either:\n{}", e);
    }
}

/// in the generated program: requests on stdin, answers on stdout
pub fn serve(table: &[fn() -> SetOfRules]) {
    let sets: Vec<SetOfRules> = table.iter().map(|f| f()).collect();
    let mut inp = String::new();
    std::io::stdin().read_to_string(&mut inp).expect("stdin");
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for (i, s) in sets.iter().enumerate() {
        writeln!(out, "R {} {}", i, enc(&encode_rules(&conv::back_rules(s)))).expect("stdout");
    }
    let out = &mut out;
    let sent = crate::ctx::Sent::new(sets);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(1 << 29)
            .spawn_scoped(sc, move || {
                let sets = sent.get();
                for l in inp.lines() {
                    if let Some((i, t)) = l.split_once(' ') {
                        let i: usize = i.parse().expect("index");
                        let r = dynparser::parse(&dec(t), &sets[i]);
                        let s = match r {
                            Ok(n) => format!("ok {:x}", crate::rng::hash_str(&format!("{:?}", n))),
                            Err(e) => format!(
                                "err {} {} {} {:?} {:x}",
                                e.pos.n, e.pos.row, e.pos.col, e.priority, crate::rng::hash_str(&e.descr)
                            ),
                        };
                        writeln!(out, "T {}", s).expect("stdout");
                    }
                }
                out.flush().expect("stdout");
            })
            .expect("spawn")
            .join()
            .expect("thread");
    });
}

fn enc(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn dec(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect();
    String::from_utf8(b).expect("utf8")
}

// a plain prefix encoding of rules
fn encode_rules(r: &Rules) -> String {
    fn s(x: &str, o: &mut String) {
        o.push_str(&format!("{}:{}", x.len(), x));
    }
    fn e(x: &E, o: &mut String) {
        match x {
            E::Lit(a) => {
                o.push('L');
                s(a, o)
            }
            E::Err(a) => {
                o.push('E');
                s(a, o)
            }
            E::Ref(a) => {
                o.push('R');
                s(a, o)
            }
            E::Dot => o.push('D'),
            E::Eof => o.push('F'),
            E::Class(c, rs) => {
                o.push('C');
                s(c, o);
                let v: String = rs.iter().flat_map(|(a, b)| [*a, *b]).collect();
                s(&v, o);
            }
            E::And(v) => {
                o.push_str(&format!("A{}:", v.len()));
                v.iter().for_each(|x| e(x, o))
            }
            E::Or(v) => {
                o.push_str(&format!("O{}:", v.len()));
                v.iter().for_each(|x| e(x, o))
            }
            E::Not(x) => {
                o.push('N');
                e(x, o)
            }
            E::Rep(x, a, b) => {
                o.push_str(&format!("P{}:{}:", a, b.map_or("-".into(), |b| b.to_string())));
                e(x, o)
            }
        }
    }
    let mut o = format!("{}:", r.len());
    for (n, x) in r {
        s(n, &mut o);
        e(x, &mut o);
    }
    o
}

fn decode_rules(t: &str) -> Rules {
    struct D<'a>(&'a str);
    impl<'a> D<'a> {
        fn upto(&mut self) -> &'a str {
            let i = self.0.find(':').expect("colon");
            let r = &self.0[..i];
            self.0 = &self.0[i + 1..];
            r
        }
        fn n(&mut self) -> usize {
            self.upto().parse().expect("number")
        }
        fn s(&mut self) -> String {
            let n = self.n();
            let r = self.0[..n].to_string();
            self.0 = &self.0[n..];
            r
        }
        fn e(&mut self) -> E {
            let k = self.0.as_bytes()[0];
            self.0 = &self.0[1..];
            match k {
                b'L' => E::Lit(self.s()),
                b'E' => E::Err(self.s()),
                b'R' => E::Ref(self.s()),
                b'D' => E::Dot,
                b'F' => E::Eof,
                b'C' => {
                    let c = self.s();
                    let v: Vec<char> = self.s().chars().collect();
                    E::Class(c, v.chunks(2).map(|p| (p[0], p[1])).collect())
                }
                b'A' => {
                    let n = self.n();
                    E::And((0..n).map(|_| self.e()).collect())
                }
                b'O' => {
                    let n = self.n();
                    E::Or((0..n).map(|_| self.e()).collect())
                }
                b'N' => E::Not(Box::new(self.e())),
                b'P' => {
                    let a = self.n();
                    let b = self.upto();
                    let b = if b == "-" { None } else { Some(b.parse().expect("number")) };
                    E::Rep(Box::new(self.e()), a, b)
                }
                x => panic!("kind {}", x),
            }
        }
    }
    let mut d = D(t);
    let n = d.n();
    (0..n)
        .map(|_| {
            let s = d.s();
            (s, d.e())
        })
        .collect()
}

fn ask(exe: &Path, reqs: &str) -> Result<(BTreeMap<usize, Rules>, Vec<String>), String> {
    let mut c = Command::new(exe)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("run the generated program");
    let mut i = c.stdin.take().expect("stdin");
    let reqs = reqs.to_string();
    let w = std::thread::spawn(move || {
        let _ = i.write_all(reqs.as_bytes());
    });
    let out = c.wait_with_output().expect("wait");
    let _ = w.join();
    if !out.status.success() {
        return Err(format!("the generated program failed: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
    }
    let txt = String::from_utf8_lossy(&out.stdout);
    let mut rules = BTreeMap::new();
    let mut res = vec![];
    for l in txt.lines() {
        if let Some(x) = l.strip_prefix("R ") {
            let (i, r) = x.split_once(' ').expect("rule line");
            rules.insert(i.parse().expect("index"), decode_rules(&dec(r)));
        } else if let Some(x) = l.strip_prefix("T ") {
            res.push(x.to_string());
        }
    }
    Ok((rules, res))
}

fn scratch(cx: &Ctx) -> Scratch {
    Scratch(std::env::temp_dir().join(format!("dpmon.gen.{}.{}.{}", cx.prop, std::process::id(), cx.idx)))
}

// ------------------------------------------------------------------------------------- C08

fn c08(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let exe = std::env::current_exe().expect("exe");
    let out = Command::new(exe).args(["aux", "print-peg"]).output().expect("print-peg");
    if !out.status.success() {
        viol!("printing the rules failed: {:?}\n{}", out.status, String::from_utf8_lossy(&out.stdout));
    }
    let code = String::from_utf8_lossy(&out.stdout).into_owned();
    let sc = scratch(cx);
    let prog = match build(&sc.0, &[code.clone()]) {
        Ok(p) => p,
        Err(e) => {
            control(&sc.0);
            viol!("the printed rules do not compile:\n{}\n{}", e, code);
        }
    };
    let n = 30_000;
    let texts: Vec<String> = (0..n).map(|_| corpus_text(rng)).collect();
    let reqs: String = texts.iter().map(|t| format!("0 {}\n", enc(t))).collect();
    let (_, res) = ask(&prog, &reqs)?;
    if res.len() != texts.len() {
        panic!("{} answers for {} texts", res.len(), texts.len());
    }
    for (t, r) in texts.iter().zip(&res) {
        let built_in = target(|| dynparser::rules_from_peg(t)).map_err(|e| format!("{}\ngrammar text {:?}", e, t))?;
        cx.eval();
        cx.nontrivial(t);
        let f: Vec<&str> = r.split(' ').collect();
        match built_in {
            Ok(_) => {
                cx.count("accepted_by_both", 1);
                if f[0] != "ok" {
                    viol!("rules_from_peg accepts it, the printed rules say {}\ngrammar text {:?}", r, t);
                }
            }
            Err(e) => {
                cx.count("rejected_by_both", 1);
                let p = match parser_error(&e) {
                    Some(p) => p,
                    None => viol!("rules_from_peg rejects it after parsing it ({}), the printed rules say {}\ngrammar text {:?}", e, r, t),
                };
                let pos = format!("{} {} {}", p.pos.n, p.pos.row, p.pos.col);
                if f[0] != "err" || f[1..4].join(" ") != pos {
                    viol!("rules_from_peg fails at {}, the printed rules say {}\ngrammar text {:?}", pos, r, t);
                }
            }
        }
    }
    cx.sample(|| texts[0].clone());
    cx.count("programs_compiled", 1);
    Ok(())
}

// ------------------------------------------------------------------------------------- C09

/// characters that generated code could get wrong
fn nasty(rng: &mut Rng) -> Vec<char> {
    let pools = [
        "\"'\\#r",
        "\"#",
        "{}()!;,",
        "\n\r\t\0",
        "\u{7f}\u{80}\u{a0}\u{ad}\u{200b}\u{202e}\u{feff}\u{fffd}",
        "é∑😀",
        "\u{301}a",
        "$e:%",
        "'a-",
        "/*/",
        "\\u{41}",
        "\\x41n",
    ];
    let mut v: Vec<char> = rng.pick::<&str>(&pools).chars().collect();
    if rng.chance(1, 3) {
        v.push(gen::any_char(rng));
    }
    if rng.chance(1, 3) {
        v.push('a');
    }
    v
}

/// characters that mean something in source code, in format strings or to line readers
const HOT: &str = "\\\"'#\r\n\t\0{}[](),;!/*%$rnxu0a -]^_\u{7f}\u{80}\u{85}\u{a0}\u{ad}\u{301}\u{200b}\u{200d}\u{200e}\u{202e}\u{2028}\u{2066}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{ffff}é😀\u{10ffff}";

/// all pairs that begin with one of them, in literals, messages and classes
fn hot_pairs(i: usize) -> Rules {
    let hot: Vec<char> = HOT.chars().collect();
    let a = hot[i];
    let mut r = Rules::new();
    let mut all = vec![];
    for (j, &b) in hot.iter().enumerate() {
        r.insert(format!("l{}", j), E::Or(vec![E::Lit([a, b].iter().collect()), E::Lit([b, 'x', a, a].iter().collect())]));
        r.insert(format!("e{}", j), E::Err([a, b, a].iter().collect()));
        r.insert(format!("c{}", j), E::Class([a, b].iter().collect(), vec![(a.min(b), a.max(b)), (b, b)]));
        all.push(E::Ref(format!("l{}", j)));
        all.push(E::Ref(format!("c{}", j)));
    }
    r.insert("main".into(), E::Rep(Box::new(E::Or(all)), 0, None));
    pegtext::expressible(&r)
}

fn c09(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let n = 1500;
    let mut texts: Vec<String> = vec![];
    let mut origs: Vec<SetOfRules> = vec![];
    let mut codes = vec![];
    let mut tries = 0;
    while codes.len() < n && tries < 10 * n {
        tries += 1;
        let g = if codes.len() < the_zoo().len() {
            the_zoo()[codes.len()].rules.clone()
        } else if codes.len() > the_zoo().len() && codes.len() - the_zoo().len() <= HOT.chars().count() {
            cx.count("rule_sets_of_character_pairs", 1);
            hot_pairs(codes.len() - the_zoo().len() - 1)
        } else if rng.chance(1, 50) {
            // nested macros are limited by rustc
            let g = pegtext::expressible(&gen::big_case(rng).0);
            if g.values().any(|e| e.depth() > 20 || e.size() > 700) {
                continue;
            }
            cx.count("large_rule_sets", 1);
            g
        } else if rng.chance(1, 2) {
            let al = nasty(rng);
            let p = gen::Profile { peg: true, names: 2 * rng.below(2) as u8, ..gen::profile(rng) };
            pegtext::expressible(&gen::grammar(rng, &p, &al))
        } else {
            random_peg_grammar(rng)
        };
        if g.is_empty() {
            continue;
        }
        let t = if codes.len() == the_zoo().len() {
            // the grammar of grammars itself
            pegtext::render(rng, the_meta(), &pegtext::plain())
        } else {
            pegtext::render(rng, &g, &pegtext::plain())
        };
        let rs = match target(|| dynparser::rules_from_peg(&t)).map_err(|e| format!("{}\ngrammar text {:?}", e, t))? {
            Ok(r) => r,
            Err(_) => {
                cx.count("rejected_grammar_texts", 1);
                continue;
            }
        };
        let code = target(|| dynparser::peg::gcode::rust_from_rules(&rs)).map_err(|e| format!("{}\ngrammar text {:?}", e, t))?;
        codes.push(code);
        origs.push(rs);
        texts.push(t);
    }
    let sc = scratch(cx);
    let prog = match build(&sc.0, &codes) {
        Ok(p) => p,
        Err(e) => {
            control(&sc.0);
            let bad: Vec<usize> = e
                .lines()
                .filter_map(|l| l.strip_prefix("src/g").or_else(|| l.split("/src/g").nth(1)))
                .filter_map(|l| l.split(".rs").next()?.parse().ok())
                .collect();
            let lines: String = e.lines().filter(|l| l.contains("error")).take(8).collect::<Vec<_>>().join("\n");
            match bad.first() {
                Some(&i) => viol!("generated code does not compile:\n{}\ngrammar text {:?}\ncode {}", lines, texts[i], codes[i]),
                None => viol!("generated code does not compile:\n{}", e.chars().take(3000).collect::<String>()),
            }
        }
    };
    cx.count("programs_compiled", 1);
    cx.count("modules_compiled", codes.len() as u64);
    cx.count("bytes_of_code", codes.iter().map(|c| c.len() as u64).sum());
    // texts to parse with both
    let mut reqs = String::new();
    let mut asked: Vec<(usize, String)> = vec![];
    for (i, rs) in origs.iter().enumerate() {
        let src = conv::back_rules(rs);
        if !src.contains_key("main") {
            continue;
        }
        let al = zoo::alphabet(&src);
        for _ in 0..8 {
            let t = gen::text(rng, &src, &al);
            if super::parse::run_model(cx, &src, &t).is_some() {
                reqs.push_str(&format!("{} {}\n", i, enc(&t)));
                asked.push((i, t));
            }
        }
    }
    let (rules, res) = ask(&prog, &reqs)?;
    if rules.len() != origs.len() || res.len() != asked.len() {
        panic!("{} rule sets of {}, {} answers of {}", rules.len(), origs.len(), res.len(), asked.len());
    }
    for (i, rs) in origs.iter().enumerate() {
        let src = conv::back_rules(rs);
        let got = &rules[&i];
        cx.eval();
        cx.nontrivial(&texts[i]);
        if src.keys().ne(got.keys()) {
            viol!("the generated code defines {:?}, the rules are {:?}\ngrammar text {:?}\ncode {}", got.keys(), src.keys(), texts[i], codes[i]);
        }
        let (a, b) = (pegtext::normal(&src), pegtext::normal(got));
        for name in src.keys() {
            if a[name] != b[name] {
                cx.count("rules_built_differently", 1);
                differential(cx, rng, &src, got, name, 400)
                    .map_err(|e| format!("{}\nrule {:?} is {:?}, the generated code builds {:?}\ngrammar text {:?}", e, name, src[name], got[name], texts[i]))?;
            }
        }
    }
    for ((i, t), r) in asked.iter().zip(&res) {
        cx.eval();
        cx.count("texts_parsed_with_both", 1);
        let x = target(|| dynparser::parse(t, &origs[*i]))?;
        let mine = match &x {
            Ok(n) => format!("ok {:x}", crate::rng::hash_str(&format!("{:?}", n))),
            Err(e) => format!("err {} {} {} {:?} {:x}", e.pos.n, e.pos.row, e.pos.col, e.priority, crate::rng::hash_str(&e.descr)),
        };
        if &mine != r {
            viol!("{:?} gives {} with the original rules and {} with the generated ones\ngrammar text {:?}\ncode {}", t, mine, r, texts[*i], codes[*i]);
        }
    }
    cx.sample(|| texts[n / 2].clone());
    cx.sample(|| codes[n / 2].clone());
    Ok(())
}
