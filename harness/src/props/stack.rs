//! C16: a stack of fixed size is enough, however long things are.

use super::Prop;
use crate::ctx::{on_measured_stack, Ctx, Res};
use crate::model::{self, Limits, Rules, E};
use crate::rng::Rng;
use crate::viol;
use dynparser::ast::{flat, Node};
use dynparser::parser::atom::{Atom, MatchRules};
use dynparser::parser::expression::{Expression as X, MultiExpr, RepInfo, SetOfRules};
use std::collections::HashMap;

/// enough for the nesting these cases have (the same case with 50 elements runs first), and far
/// too little for anything that takes a stack frame per element
const STACK: usize = 1 << 20;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        case: c16,
        quick: 4 * NSCEN + 2400,
        thorough: 24 * NSCEN + 60_000,
        shards: 8,
        cpu_limit: 60,
        mem_limit: 16,
        min_distinct: 20,
        rule: "case = scenario (text, repetition, sequence, choice, rule set, literal, class, sibling list, failing and succeeding, normal and debug) at a size drawn up to 50,000 (thorough: 200,000) elements on a 1 MB stack; first run at a small size to see that the stack suffices for the nesting; the stack used at both sizes is measured and must be the same but for 24 KB; a stack overflow kills the process, which the supervisor sees; non-trivial: all, distinct by scenario and size",
        assumptions: &["growth is seen from 24 KB on: with 20,000 elements and more a byte or two per element, with the 1,500 of some grammar texts 16 bytes per element"],
    }]
}

const NSCEN: u64 = 64;

fn lit(s: &str) -> X {
    X::Simple(Atom::Literal(s.into()))
}
fn rule(n: &str) -> X {
    X::RuleName(n.into())
}
fn and(v: Vec<X>) -> X {
    X::And(MultiExpr::new(v))
}
fn or(v: Vec<X>) -> X {
    X::Or(MultiExpr::new(v))
}
fn rep(e: X, a: usize, b: Option<usize>) -> X {
    X::Repeat(RepInfo::new(Box::new(e), a, b))
}
fn not(e: X) -> X {
    X::Not(Box::new(e))
}
fn dot() -> X {
    X::Simple(Atom::Dot)
}
fn set(v: Vec<(&str, X)>) -> SetOfRules {
    SetOfRules::new(v.into_iter().map(|(n, e)| (n.to_string(), e)).collect::<HashMap<_, _>>())
}
fn lines(n: usize) -> String {
    let mut s = String::with_capacity(n);
    for i in 0..n {
        s.push(if i % 40 == 39 { '\n' } else { 'a' });
    }
    s
}

/// (rules, text, accepted?, debug?)
fn scenario(k: u64, n: usize) -> Option<(&'static str, SetOfRules, String, bool, bool)> {
    let a = || "a".repeat(n);
    Some(match k {
        0 => ("dots", set(vec![("main", rep(dot(), 0, None))]), lines(n), true, false),
        1 => ("repeated rule", set(vec![("main", rep(rule("c"), 1, None)), ("c", dot())]), lines(n), true, false),
        2 => ("repeated sequence", set(vec![("main", rep(and(vec![not(lit("@")), dot()]), 0, None))]), lines(n), true, false),
        3 => ("repetition, then failure", set(vec![("main", and(vec![rep(and(vec![not(lit("@")), dot()]), 0, None), lit("@")]))]), lines(n), false, false),
        4 => ("sequence", set(vec![("main", and((0..n).map(|_| lit("a")).collect()))]), a(), true, false),
        5 => ("sequence failing at its end", set(vec![("main", and((0..n).map(|_| lit("a")).collect()))]), "a".repeat(n - 1), false, false),
        6 => {
            let mut v: Vec<X> = (0..n).map(|i| lit(&format!("b{}", i))).collect();
            v.push(lit("a"));
            ("choice, the last one", set(vec![("main", or(v))]), "a".into(), true, false)
        }
        7 => ("choice, none", set(vec![("main", or((0..n).map(|i| lit(&format!("b{}", i))).collect()))]), "a".into(), false, false),
        8 => ("sequence of empty matches", set(vec![("main", and((0..n).map(|_| rep(lit("b"), 0, None)).collect()))]), "".into(), true, false),
        9 => ("literal", set(vec![("main", lit(&a()))]), a(), true, false),
        10 => ("literal failing at its end", set(vec![("main", lit(&(a() + "b")))]), a(), false, false),
        11 => {
            let cs: String = (0..n as u32).filter_map(|i| char::from_u32(0x100 + i % 0x10000)).collect();
            ("listed characters", set(vec![("main", X::Simple(Atom::Match(MatchRules::init(&cs, vec![]))))]), "a".into(), false, false)
        }
        12 => {
            let mut rs: Vec<(char, char)> = (0..n).map(|_| ('b', 'c')).collect();
            rs.push(('a', 'a'));
            ("ranges", set(vec![("main", X::Simple(Atom::Match(MatchRules::init("", rs))))]), "a".into(), true, false)
        }
        13 => ("repetition with exact count", set(vec![("main", rep(lit("a"), n, Some(n)))]), a(), true, false),
        14 => ("repetition below its minimum", set(vec![("main", rep(lit("a"), n + 1, None))]), a(), false, false),
        15 => ("repetition of nothing", set(vec![("main", rep(lit(""), n, None))]), "".into(), true, false),
        16 => {
            let mut m: HashMap<String, X> = (0..n).map(|i| (format!("r{}", i), rule(&format!("r{}", i + 1)))).collect();
            m.insert("main".into(), lit("a"));
            ("many rules", SetOfRules::new(m), "a".into(), true, false)
        }
        17 => ("not consumed", set(vec![("main", rep(lit("a"), 0, Some(n - 1)))]), a(), false, false),
        18 => (
            "lines",
            set(vec![
                ("main", rep(rule("line"), 0, None)),
                ("line", and(vec![rep(rule("c"), 0, None), rule("nl")])),
                ("c", and(vec![not(rule("nl")), dot()])),
                ("nl", or(vec![lit("\r\n"), lit("\n")])),
            ]),
            lines(n) + "\n",
            true,
            false,
        ),
        19 => ("negation of a long match", set(vec![("main", and(vec![not(and(vec![rep(dot(), 0, None), lit("x")])), rep(dot(), 0, None)]))]), lines(n), true, false),
        20 => ("nested repetitions", set(vec![("main", rep(rep(rep(lit("a"), 1, Some(2)), 1, Some(2)), 0, None))]), a(), true, false),
        21 => ("critical error after a long match", set(vec![("main", and(vec![rep(dot(), 0, None), X::Simple(Atom::Error("x".into()))]))]), lines(n), false, false),
        22 => ("debug, repetition of a character", set(vec![("main", rep(lit("a"), 0, None))]), a(), true, true),
        23 => ("debug, many rules entered", set(vec![("main", rep(rule("c"), 0, None)), ("c", lit("a"))]), "a".repeat(n.min(2000)), true, true),
        42 => ("debug, sequence", set(vec![("main", and((0..n).map(|_| lit("a")).collect()))]), a(), true, true),
        43 => ("debug, choice", set(vec![("main", or((0..n).map(|i| lit(&format!("b{}", i))).collect()))]), "a".into(), false, true),
        44 => (
            "repetitions ended by failure",
            set(vec![("main", rep(and(vec![rep(lit("a"), 0, None), or(vec![lit(";"), lit("\n")])]), 0, None))]),
            lines(n).replace("aaa", "aa;") + ";",
            true,
            false,
        ),
        45 => (
            "statements with alternatives",
            set(vec![
                ("main", rep(rule("st"), 0, None)),
                ("st", or(vec![and(vec![rule("n"), lit("="), rule("n"), lit("\n")]), and(vec![rule("n"), lit("\n")])])),
                ("n", rep(lit("a"), 1, Some(9))),
            ]),
            "a\na=aa\n".repeat(n / 7),
            true,
            false,
        ),
        46 => (
            "critical error swallowed by a negation",
            set(vec![("main", rep(and(vec![not(and(vec![lit("a"), X::Simple(Atom::Error("x".into()))])), dot()]), 0, None))]),
            lines(n),
            true,
            false,
        ),
        47 => ("end of file", set(vec![("main", and((0..n).map(|_| X::Simple(Atom::EOF)).collect()))]), "".into(), true, false),
        _ => return None,
    })
}

/// rule sets to print, wide in one respect
fn to_print(k: u64, n: usize) -> (&'static str, SetOfRules) {
    let some = |i: usize| match i % 4 {
        0 => lit("a"),
        1 => dot(),
        2 => not(lit("b")),
        _ => rep(dot(), 0, None),
    };
    match k {
        48 => ("items", set(vec![("main", and((0..n).map(some).collect()))])),
        49 => ("alternatives", set(vec![("main", or((0..n).map(some).collect()))])),
        50 => ("rules", SetOfRules::new((0..n).map(|i| (format!("r{}", i), some(i))).collect())),
        51 => {
            let cs: String = (0..n as u32).filter_map(|i| char::from_u32(0x100 + i)).collect();
            let rs = (0..n).map(|_| ('a', 'b')).collect();
            ("characters and ranges", set(vec![("main", X::Simple(Atom::Match(MatchRules::init(&cs, rs))))]))
        }
        _ => ("characters of a literal, a message, a name", set(vec![("main", and(vec![lit(&"é\n".repeat(n)), X::Simple(Atom::Error("x\"".repeat(n))), rule(&"n".repeat(n))]))])),
    }
}

fn wide(n: usize, k: usize) -> Node {
    let kids = (0..n)
        .map(|i| match (k, i % 3) {
            (0, _) => Node::Val("a".into()),
            (1, 0) => Node::Val("a".into()),
            (1, 1) => Node::Rule(("x".into(), vec![Node::Val("b".into())])),
            (1, _) => Node::Rule(("y".into(), vec![])),
            _ => Node::Rule(("x".into(), vec![])),
        })
        .collect();
    Node::Rule(("main".into(), kids))
}

/// stack used by the steps of a scenario, at the small size and at the large one
#[derive(Default)]
struct Meter {
    used: Vec<Vec<usize>>,
    elements: usize,
}

/// what buffers of library functions and other ways through the code may add
const SLACK: usize = 24 << 10;

impl Meter {
    fn next(&mut self, n: usize) {
        self.used.push(vec![]);
        self.elements = n;
    }
    fn run<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        let (r, used) = on_measured_stack(STACK, f)?;
        let step = self.used.last().map_or(0, |v| v.len());
        if let Some(v) = self.used.last_mut() {
            v.push(used);
        }
        if let [small, _] = &self.used[..] {
            let small = small.get(step).copied().unwrap_or(0);
            if used > small + SLACK {
                return Err(format!("{} bytes of stack, and {} with 50 elements", used, small));
            }
        }
        Ok(r)
    }
    fn growth(&self) -> usize {
        match &self.used[..] {
            [a, b] => a.iter().zip(b).map(|(x, y)| y.saturating_sub(*x)).max().unwrap_or(0),
            _ => 0,
        }
    }
    fn most(&self) -> usize {
        self.used.iter().flatten().copied().max().unwrap_or(0)
    }
}

/// stack allowed to a parse: the most that the unchanged tree needs is about 8 KB per level
const BASE: usize = 64 << 10;
const PER_LEVEL: usize = 20 << 10;
const LEVELS: usize = 250;
const BIG_STACK: usize = 6 << 20;

fn bounded(cx: &mut Ctx, rules: &Rules, rs: &SetOfRules, text: &str, debug: bool) -> Res {
    let cs: Vec<char> = text.chars().collect();
    let lim = Limits { steps: 400_000, depth: LEVELS };
    let o = match model::run(rules, &cs, &lim) {
        Ok(o) => o,
        Err(_) => {
            cx.count("skipped_by_model_limits", 1);
            return Ok(());
        }
    };
    if super::parse::too_costly(cx, &o.events, text, debug) {
        return Ok(());
    }
    cx.eval();
    cx.nontrivial(&super::parse::key(rules, text));
    cx.note(|| super::parse::show(rules, text));
    let (_, used) = on_measured_stack(BIG_STACK, || {
        let r = if debug { dynparser::parse_debug(text, rs) } else { dynparser::parse(text, rs) };
        drop(r)
    })?;
    let d = o.events.max_depth;
    cx.count("parses_measured", 1);
    cx.max("max_iterations", o.events.rep_iter);
    cx.max("max_depth", d as u64);
    if d >= 40 {
        cx.max("max_stack_bytes_per_level", (used / d) as u64);
    } else {
        cx.max("max_stack_bytes_below_40_levels", used as u64);
    }
    if used > BASE + PER_LEVEL * d {
        viol!(
            "{} bytes of stack for a parse nested {} levels ({} iterations of repetitions)\n{}",
            used, d, o.events.rep_iter, super::parse::show(rules, text)
        );
    }
    Ok(())
}

/// any rule set and text; and the same again and again in a long text
fn random(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let c = super::parse::gen_case_big(rng);
    let rs = crate::conv::rules_plain(&c.rules);
    let debug = rng.chance(1, 4);
    for t in c.texts.iter().take(2) {
        bounded(cx, &c.rules, &rs, t, debug)?;
    }
    // main = (unit mark)*
    let mut many: Rules = c
        .rules
        .iter()
        .map(|(n, e)| {
            let f = |x: &E| match x {
                E::Ref(r) if r == "main" => Some(E::Ref("unit of text".into())),
                _ => None,
            };
            (if n == "main" { "unit of text".to_string() } else { n.clone() }, e.map(&f))
        })
        .collect();
    let mark = *rng.pick(&["", "\u{10fffd}", "\n", "\n", ";\n"]);
    let one = E::And(vec![E::Ref("unit of text".into()), E::Lit(mark.into())]);
    many.insert("main".into(), E::Rep(Box::new(one), 0, None));
    let rs = crate::conv::rules_plain(&many);
    let t: String = match c.texts.get(0) {
        Some(t) => t.clone(),
        None => return Ok(()),
    };
    let k = 8000 / (1 + t.chars().count());
    if k > 3 {
        bounded(cx, &many, &rs, &format!("{}{}", t, mark).repeat(k), debug)?;
    }
    // a grammar text again and again
    if rng.chance(1, 4) {
        let t = super::peg::corpus_text(rng);
        let k = 1200 / (1 + t.chars().count());
        let run = |t: &str| {
            on_measured_stack(BIG_STACK, || match dynparser::rules_from_peg(t) {
                Ok(r) => {
                    let n = dynparser::peg::gcode::rust_from_rules(&r).len();
                    drop(r);
                    n
                }
                Err(_) => 0,
            })
        };
        let twice = t.repeat(2);
        let long = t.repeat(k);
        // (one that is not complete in itself would nest)
        if k > 12 && dynparser::rules_from_peg(&t).is_ok() {
            cx.note(|| long.clone());
            let (a, b) = (run(&twice)?, run(&long)?);
            cx.count("grammar_texts_measured", (b.0 > 0) as u64);
            if a.0 > 0 && b.0 > 0 {
                cx.max("max_stack_growth_bytes_grammar_texts", b.1.saturating_sub(a.1) as u64);
                if b.1 > a.1 + SLACK {
                    viol!("{} bytes of stack to translate {} times the grammar text {:?}, and {} for 2 times", b.1, k, t, a.1);
                }
            }
        }
    }
    Ok(())
}

fn c16(cx: &mut Ctx, rng: &mut Rng) -> Res {
    if cx.idx >= if cx.thorough { 24 * NSCEN } else { 4 * NSCEN } {
        return random(cx, rng);
    }
    let k = cx.idx % NSCEN;
    let round = cx.idx / NSCEN;
    let mut mt = Meter::default();
    for &n in &[50usize, if round == 0 { if cx.thorough { 200_000 } else { 40_000 } } else { rng.range(20_000, if cx.thorough { 200_000 } else { 50_000 }) }] {
        // quadratic ones: copying is not what this is about
        let n = match k {
            15 | 23 | 48 | 49 => n.min(20_000),
            25 => n.min(30_000),
            _ => n,
        };
        mt.next(n);
        cx.eval();
        cx.max("max_elements", n as u64);
        cx.nontrivial(&format!("{} {}", k, n));
        if let Some((name, rs, text, ok, debug)) = scenario(k, n) {
            cx.count("parses", 1);
            let got = mt.run(|| {
                let r = if debug { dynparser::parse_debug(&text, &rs) } else { dynparser::parse(&text, &rs) };
                r.is_ok()
            })
            .map_err(|e| format!("{} of {} elements: {}", name, n, e))?;
            if got != ok {
                viol!("{} of {} elements: accepted {}, expected {}", name, n, got, ok);
            }
            // dropping a rule set of that size
            mt.run(move || drop(rs)).map_err(|e| format!("dropping {} of {}: {}", name, n, e))?;
            cx.max("max_stack_growth_bytes", mt.growth() as u64);
            cx.max("max_stack_bytes", mt.most() as u64);
            cx.sample(|| format!("{} of {} elements on a {} KB stack", name, n, STACK >> 10));
            continue;
        }
        cx.count("other_operations", 1);
        match k {
            24 | 25 | 26 => {
                let t = wide(n, match k { 25 => 0, 24 => 1, _ => 2 });
                let m = mt.run(|| {
                    let p = t.prune(&["y"]);
                    let q = t.pass_through_except(&["y"]);
                    let c = t.compact();
                    let f = t.flatten();
                    let g = c.flatten().len();
                    drop((p, q, c));
                    (f.len(), g)
                })
                .map_err(|e| format!("tree operations on {} siblings: {}", n, e))?;
                if m.0 < n {
                    viol!("{} flat nodes of {} siblings", m.0, n);
                }
                mt.run(move || drop(t)).map_err(|e| format!("dropping a tree: {}", e))?;
                cx.sample(|| format!("tree of {} siblings on a {} KB stack", n, STACK >> 10));
            }
            27 => {
                // walking a long flat list
                let f = wide(n, 1).flatten();
                let left = mt.run(|| {
                    let mut rest: &[flat::Node] = &f;
                    let mut c = 0;
                    while let Ok((_, r)) = flat::split_first_nodes(rest) {
                        let _ = flat::consume_val(rest);
                        let _ = flat::consume_node_start_rule_name("x", rest);
                        rest = r;
                        c += 1;
                    }
                    c
                })?;
                if left != f.len() {
                    viol!("walked {} of {} flat nodes", left, f.len());
                }
            }
            28 => {
                // add and merge
                let r = mt.run(|| {
                    let mut s = SetOfRules::new(HashMap::new());
                    for i in 0..n {
                        s = s.add(&format!("r{}", i), lit("a"));
                    }
                    let t = SetOfRules::new((0..n).map(|i| (format!("q{}", i), lit("b"))).collect());
                    s.merge(t).0.len()
                })
                .map_err(|e| format!("add and merge of {} rules: {}", n, e))?;
                if r != 2 * n {
                    viol!("{} rules of {}", r, 2 * n);
                }
            }
            48..=52 => {
                let (name, rs) = to_print(k, n);
                let len = mt.run(|| dynparser::peg::gcode::rust_from_rules(&rs).len()).map_err(|e| format!("code for {} {}: {}", n, name, e))?;
                if len < n {
                    viol!("code of {} characters for {} {}", len, n, name);
                }
                mt.run(move || drop(rs))?;
            }
            53 => {
                // walking a long list of trees
                if let Node::Rule((_, v)) = wide(n, 1) {
                    use dynparser::ast;
                    let left = mt.run(|| {
                        let mut rest: &[Node] = &v;
                        let mut c = 0;
                        while let Ok((_, r)) = ast::split_first_nodes(rest) {
                            let _ = ast::consume_val(rest);
                            let _ = ast::consume_this_value("b", rest);
                            let _ = ast::consume_node_get_subnodes_for_rule_name_is("x", rest);
                            let _ = ast::get_nodes_unique_val(rest);
                            rest = r;
                            c += 1;
                        }
                        c
                    })?;
                    if left != v.len() {
                        viol!("walked {} of {} nodes", left, v.len());
                    }
                }
            }
            _ => {
                // through PEG text: lists and tokens of that length
                let m = n.min(if cx.thorough { 12_000 } else { 6_000 });
                let (name, t, want) = peg_text(k, m);
                cx.count("grammar_texts", 1);
                cx.max("max_elements_in_grammar_texts", m as u64);
                cx.note(|| format!("grammar text with {} {}", m, name));
                let r = mt.run(|| {
                    dynparser::rules_from_peg(&t).map(|r| (r.0.len(), dynparser::peg::gcode::rust_from_rules(&r).len())).map_err(|e| format!("{:?}", e).chars().take(300).collect::<String>())
                })
                .map_err(|e| format!("grammar text with {} {}: {}", m, name, e))?;
                match r {
                    Ok((rules, _)) if rules == want => (),
                    r => viol!("grammar text with {} {}: {:?}, expected {} rules", m, name, r, want),
                }
                cx.sample(|| format!("grammar text with {} {} on a {} KB stack", m, name, STACK >> 10));
            }
        }
    }
    cx.max("max_stack_growth_bytes", mt.growth() as u64);
    cx.max("max_stack_bytes", mt.most() as u64);
    Ok(())
}

/// (what, text, number of rules)
fn peg_text(k: u64, n: usize) -> (&'static str, String, usize) {
    let list = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    match k {
        29 => {
            let m = n / 4;
            ("characters in each of a literal, a class and a comment", format!("main = '{}' / [{}]  // {}\n{}", "a".repeat(m), "b".repeat(m), "c".repeat(m), "\n".repeat(m)), 1)
        }
        30 => ("rules", format!("main = 'a'\n{}", list(&|i| format!("r{} = .\n", i))), n + 1),
        31 => ("alternatives", format!("main = 'a'\n{}\n", list(&|i| format!(" / 'b{}'\n", i))), 1),
        32 => ("items", format!("main = 'a'\n{}\n", list(&|i| format!("  'b{}'\n", i))), 1),
        33 => ("escaped characters", format!("main = \"{}\"\n", "\\n".repeat(n / 4)), 1),
        34 => ("ranges", format!("main = [{}]\n", "a-b".repeat(n / 4)), 1),
        35 => ("modules", format!("main = 'a'\n{}", (0..n / 6).map(|i| format!("m{} {{\n r{} = .\n}}\n", i, i)).collect::<String>()), n / 6 + 1),
        36 => ("parts of a name", format!("main = a{}\n", ".b".repeat(n / 4)), 1),
        37 => ("groups", format!("main = 'a'\n{}\n", list(&|_| "  ('b' / .)*\n".into())), 1),
        38 => ("errors", format!("main = 'a'\n{}\n", list(&|_| " error('x')\n".into())), 1),
        39 => ("comments", format!("main = 'a'\n{}", list(&|i| if i % 2 == 0 { "// x\n".into() } else { "/* x\n */ ".into() })) + "r = .\n", 2),
        40 => ("negations", format!("main = 'a'\n{}\n", list(&|_| " !'x'\n".into())), 1),
        54 => ("characters of a comment in lines", format!("/*{}*/ main = 'a' /*{}*/\n", lines(n), lines(n)), 1),
        55 => ("characters of a literal in lines", format!("main = '{}' / \"{}\"\n", lines(n), lines(n)), 1),
        56 => ("characters of a literal with escapes, in lines", format!("main = \"{}\"\n", list(&|i| ["a", "\\n", "\\0x41", "\\x", "\n", "é"][i % 6].into())), 1),
        57 => ("spaces", format!("{}main{}={}'a'{}\n", " ".repeat(n / 8), " ".repeat(n / 8), " ".repeat(n / 8), " ".repeat(n / 8)), 1),
        58 => ("blank lines and spaces", format!("{}main =\n{}'a'{}\n{}", " \n".repeat(n), " \r\n".repeat(n), " \n \r".repeat(n / 2), "\n  ".repeat(n)), 1),
        59 => ("characters of a message, in lines", format!("main = error('{}')\n", lines(n)), 1),
        60 => ("characters of a name", format!("main = {}\n{} = 'a'\n", "n".repeat(n / 6), "n".repeat(n / 6)), 2),
        61 => ("stars, slashes and quotes in a comment", format!("/*{}*/\nmain = 'a' //{}\n", list(&|i| ["/", "//", "'", "*", "**", "\n", "(*", "\""][i % 8].into()), "/".repeat(n / 8)), 1),
        62 => ("listed characters and ranges of several classes", format!("main = {}\n", list(&|i| if i % 20 == 0 { "\n [ab-ce-f] ".into() } else { "[xy0-9]".into() }).replace("][", "] [")), 1),
        63 => ("dots and references", format!("main = {}\n", list(&|i| if i % 20 == 0 { "\n . ".into() } else if i % 2 == 0 { " main".into() } else { " .".into() })), 1),
        _ => ("definitions of a rule", list(&|_| "main = .\n".into()), 1),
    }
}
