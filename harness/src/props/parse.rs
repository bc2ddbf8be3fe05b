//! C01 recognition, C02 tree, C03 renaming, C04 coordinates, C05 failure, C14 trail.

use super::{Prop, SEMANTICS};
use crate::ctx::{target, Ctx, Res};
use crate::model::{self, coord, trail_vec, Abort, Events, Fail, Limits, Rules, What, E, N};
use crate::rng::Rng;
use crate::{conv, gen, pegtext, probe, viol, zoo};
use dynparser::parser::expression::SetOfRules;
use dynparser::parser::{Error, ErrPriority};
use std::collections::{BTreeMap, BTreeSet};

const RULE: &str = "case = grammar (random over all operators, 14 shapes; idioms of real grammars; a realistic grammar; one with a long text; or one large in one respect) with texts derived from it, mutated or random; non-trivial: the evaluation abandoned an alternative, ran a repetition or a negation, or raised a critical error, and distinct by grammar and text";

pub fn props() -> Vec<Prop> {
    let p = |id, case, quick, thorough, rule| Prop {
        id,
        case,
        quick,
        thorough,
        shards: 8,
        cpu_limit: 20,
        mem_limit: 10,
        min_distinct: 500,
        rule,
        assumptions: SEMANTICS,
    };
    vec![
        p("C01", c01, 200_000, 1_500_000, RULE),
        p("C02", c02, 200_000, 1_500_000, RULE),
        p("C03", c03, 100_000, 700_000, "case as for C01 plus an order-preserving injection of its characters (to 1, 2, 3 and 4-byte ones) fixing CR and LF; both are parsed; non-trivial: some character of the text changed its encoded length; distinct by grammar and text"),
        p("C04", c04, 200_000, 1_500_000, "failing parses (grammars and texts as for C01, with many line breaks of all kinds) and rejected grammar texts; non-trivial: an error with coordinates was checked; distinct by grammar and text"),
        p("C05", c05, 200_000, 1_500_000, RULE),
        p("C14", c14, 120_000, 1_500_000, RULE),
    ]
}

pub struct Case {
    pub rules: Rules,
    pub texts: Vec<String>,
    pub al: Vec<char>,
    pub kind: &'static str,
}

thread_local! {
    static ZOO: &'static [zoo::Zoo] = Box::leak(zoo::zoo().into_boxed_slice());
    static META: &'static Rules = Box::leak(Box::new(pegtext::meta()));
}

pub fn the_zoo() -> &'static [zoo::Zoo] {
    ZOO.with(|z| *z)
}
pub fn the_meta() -> &'static Rules {
    META.with(|z| *z)
}

/// the grammar of grammars over a small grammar text
fn meta_text(rng: &mut Rng) -> String {
    let al = gen::alphabet(rng);
    let p = gen::Profile { peg: true, rules: (1, 3), depth: 2, ..gen::profile(rng) };
    let g = pegtext::expressible(&gen::grammar(rng, &p, &al));
    let lay = pegtext::random_layout(rng);
    let t = pegtext::render(rng, &g, &lay);
    if rng.chance(1, 2) {
        gen::mutate(rng, &t, &['a', ' ', '=', '/', '\'', '"', '(', ')', '[', ']', '\n', '.', '*', '!'])
    } else {
        t
    }
}

pub fn gen_case(rng: &mut Rng) -> Case {
    match rng.below(64) {
        0 => {
            let (rules, t) = gen::long_case(rng);
            Case { rules, texts: vec![t], al: vec!['a'], kind: "long" }
        }
        1..=7 => {
            let z = rng.pick(the_zoo());
            let texts = (0..5).map(|_| zoo::text(rng, z)).collect();
            Case { rules: z.rules.clone(), texts, al: zoo::alphabet(&z.rules), kind: "realistic" }
        }
        8 => {
            let texts = (0..2).map(|_| meta_text(rng)).collect();
            Case { rules: the_meta().clone(), texts, al: vec!['a'], kind: "grammar of grammars" }
        }
        9..=24 => {
            let rules = gen::idioms(rng);
            let al = zoo::alphabet(&rules);
            let texts = (0..6).map(|_| gen::text(rng, &rules, &al)).collect();
            Case { rules, texts, al, kind: "idioms" }
        }
        25..=28 => {
            let (rules, texts) = gen::wide_case(rng);
            Case { al: zoo::alphabet(&rules), rules, texts, kind: "wide" }
        }
        _ => {
            let al = gen::alphabet(rng);
            let mut p = gen::profile(rng);
            p.names = rng.below(3) as u8;
            let rules = gen::grammar(rng, &p, &al);
            let texts = (0..6).map(|_| gen::text(rng, &rules, &al)).collect();
            Case { rules, texts, al, kind: "random" }
        }
    }
}

/// with those that are large in one respect
pub fn gen_case_big(rng: &mut Rng) -> Case {
    if rng.chance(1, 2000) {
        let (rules, texts) = gen::deep_case(rng);
        return Case { al: zoo::alphabet(&rules), rules, texts, kind: "deep" };
    }
    if rng.chance(1, 6000) {
        let (rules, texts) = gen::far_case(rng);
        return Case { al: vec!['a', 'b'], rules, texts, kind: "far" };
    }
    if rng.chance(1, 24) {
        let (rules, texts) = gen::big_case(rng);
        return Case { al: zoo::alphabet(&rules), rules, texts, kind: "big" };
    }
    let c = gen_case(rng);
    if rng.chance(1, 100) && c.kind != "long" {
        let n = match rng.below(4) {
            0 => (1usize << rng.range(7, 16)) - rng.below(12),
            1 => rng.log(70_000),
            _ => rng.range(1, 600),
        };
        let (rules, texts) = gen::shifted(rng, &c.rules, &c.texts, n);
        return Case { rules, texts, kind: "shifted", al: c.al };
    }
    c
}

pub fn show(rules: &Rules, text: &str) -> String {
    let t: String = text.chars().take(2000).collect();
    let mut s = String::from("rules:\n");
    for (n, e) in rules {
        let d: String = format!("{:?}", e).chars().take(3000).collect();
        s.push_str(&format!("  {:?} = {}\n", n, d));
    }
    s.push_str(&format!("text ({} chars): {:?}", text.chars().count(), t));
    s
}

pub fn key(rules: &Rules, text: &str) -> String {
    let r: String = format!("{:?}", rules);
    format!("{}\u{0}{}", r, text)
}

pub fn run_model(cx: &mut Ctx, rules: &Rules, text: &str) -> Option<model::Outcome> {
    let cs: Vec<char> = text.chars().collect();
    // most texts that nest deep are bad luck of the generator
    let deep = text.starts_with("(((((((((((((((((((((((((((((");
    let lim = Limits { steps: 60_000.max(40 * cs.len() as u64), depth: if deep { 40_000 } else { 400 } };
    match model::run(rules, &cs, &lim) {
        Ok(o) => {
            let e = &o.events;
            if too_costly(cx, e, text, false) {
                return None;
            }
            cx.count("steps", e.steps);
            cx.count("alternatives_abandoned", e.alt_abandoned);
            cx.count("negations", e.not_ok + e.not_fail);
            cx.count("repetitions_ended_by_failure", e.rep_end_fail);
            cx.count("repetitions_ended_by_maximum", e.rep_end_max);
            cx.count("repetitions_ended_by_empty_match", e.rep_end_empty);
            cx.count("repetitions_below_minimum", e.rep_below_min);
            cx.count("critical_errors", e.critical);
            cx.count("rules_entered", e.rules_entered);
            cx.max("max_depth", e.max_depth as u64);
            cx.max("max_text_chars", cs.len() as u64);
            cx.count(if o.result.is_ok() { "accepted" } else { "rejected" }, 1);
            Some(o)
        }
        Err(a) => {
            cx.count(
                match a {
                    Abort::LeftRecursion => "skipped_left_recursion",
                    Abort::Steps => "skipped_too_long",
                    Abort::Depth => "skipped_too_deep",
                },
                1,
            );
            None
        }
    }
}

/// every failure copies its line (in debug mode also the trail): such cases take too long
pub fn too_costly(cx: &mut Ctx, e: &Events, text: &str, debug: bool) -> bool {
    let line = text.split('\n').map(|l| l.len()).max().unwrap_or(0) as u64;
    let r = e.steps * line > 1_000_000_000 || debug && e.trail_work > 10_000_000;
    if r {
        cx.count("skipped_too_costly", 1);
    }
    r
}

pub fn interesting(e: &Events) -> bool {
    e.alt_abandoned + e.not_ok + e.not_fail + e.rep_iter + e.rep_end_fail + e.rep_below_min + e.critical > 0
}

/// the real rules: built in one of the ways a user has
pub fn real_rules(rules: &Rules, rng: &mut Rng) -> SetOfRules {
    conv::rules(rules, rng)
}

fn each(
    cx: &mut Ctx,
    rng: &mut Rng,
    debug: bool,
    mut f: impl FnMut(&mut Ctx, &Rules, &SetOfRules, &str, &model::Outcome, &mut Rng) -> Res,
) -> Res {
    let mut c = gen_case_big(rng);
    cx.count(&format!("grammars_{}", c.kind.replace(' ', "_")), 1);
    let mut rs = real_rules(&c.rules, rng);
    // sometimes by way of PEG text (that the text denotes those rules is checked by C06)
    if (c.kind == "random" || c.kind == "idioms") && rng.chance(1, 6) {
        let g = pegtext::expressible(&c.rules);
        if g.contains_key("main") {
            let t = pegtext::render(rng, &g, &pegtext::plain());
            if let Some((Ok(d), _)) = pegtext::meaning(the_meta(), &t) {
                if pegtext::normal(&d) == pegtext::normal(&g) {
                    match target(|| dynparser::rules_from_peg(&t))? {
                        Ok(r) => {
                            rs = r;
                            c.rules = d;
                            cx.count("rules_by_peg_text", 1);
                        }
                        Err(e) => viol!("valid grammar text rejected: {:?}\n{}", e, t),
                    }
                }
            }
        }
    }
    for t in &c.texts {
        let o = match run_model(cx, &c.rules, t) {
            Some(o) => o,
            None => continue,
        };
        if debug && too_costly(cx, &o.events, t, true) {
            continue;
        }
        cx.eval();
        if interesting(&o.events) {
            cx.nontrivial(&key(&c.rules, t));
        }
        cx.note(|| show(&c.rules, t));
        f(cx, &c.rules, &rs, t, &o, rng)?;
        cx.sample(|| show(&c.rules, t));
    }
    Ok(())
}

fn verdict(r: &Result<N, Fail>) -> String {
    match r {
        Ok(_) => "match".into(),
        Err(f) => format!("failure of {:?} at {}", f.what, f.pos),
    }
}

fn c01(cx: &mut Ctx, rng: &mut Rng) -> Res {
    each(cx, rng, false, |_, rules, rs, t, o, _| {
        let got = target(|| dynparser::parse(t, rs)).map_err(|e| format!("{}\n{}", e, show(rules, t)))?;
        if got.is_ok() != o.result.is_ok() {
            viol!("expected {}, parse gave {:?}\n{}", verdict(&o.result), got.map(|_| "Ok"), show(rules, t));
        }
        Ok(())
    })
}

fn c02(cx: &mut Ctx, rng: &mut Rng) -> Res {
    each(cx, rng, false, |cx, rules, rs, t, o, _| {
        let exp = match &o.result {
            Ok(n) => n,
            Err(_) => return Ok(()),
        };
        let got = target(|| dynparser::parse(t, rs)).map_err(|e| format!("{}\n{}", e, show(rules, t)))?;
        match got {
            Err(e) => viol!("no tree: {:?}, expected {:?}\n{}", e, exp, show(rules, t)),
            Ok(n) => {
                cx.count("trees", 1);
                cx.count("nodes", exp.count() as u64);
                if !conv::same(exp, &n) {
                    let g: String = format!("{:?}", conv::node(&n)).chars().take(4000).collect();
                    let x: String = format!("{:?}", exp).chars().take(4000).collect();
                    viol!("tree {}\nexpected {}\n{}", g, x, show(rules, t));
                }
                let mut s = String::new();
                conv::node(&n).text(&mut s);
                if s != *t {
                    viol!("the values spell {:?}\n{}", s, show(rules, t));
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------- C04

pub fn check_coords(e: &Error, text: &str) -> Res {
    let cs: Vec<char> = text.chars().collect();
    let p = &e.pos;
    if p.n > cs.len() {
        viol!("error position {} beyond the {} characters of the text", p.n, cs.len());
    }
    let c = coord(&cs, p.n);
    if (p.row, p.col, p.start_line) != (c.row, c.col, c.start_line) {
        viol!(
            "error at character {}: row {} col {} start_line {}, expected row {} col {} start_line {}",
            p.n, p.row, p.col, p.start_line, c.row, c.col, c.start_line
        );
    }
    if e.line_before != c.before {
        viol!("error at character {}: before {:?}, expected {:?}", p.n, e.line_before, c.before);
    }
    if e.line_after != c.after {
        viol!("error at character {}: after {:?}, expected {:?}", p.n, e.line_after, c.after);
    }
    Ok(())
}

pub fn parser_error(e: &dynparser::peg::Error) -> Option<&Error> {
    match e {
        dynparser::peg::Error::Parser(p) => Some(p),
        dynparser::peg::Error::Peg((_, Some(b))) => parser_error(b),
        _ => None,
    }
}

fn breaks(rng: &mut Rng, t: &str) -> String {
    // sprinkle line breaks
    let mut v: Vec<char> = vec![];
    for c in t.chars() {
        if rng.chance(1, 6) {
            v.extend(rng.pick::<&str>(&["\n", "\r", "\r\n", "\n\r", "\n\n"]).chars());
        }
        v.push(c);
    }
    v.into_iter().collect()
}

fn c04(cx: &mut Ctx, rng: &mut Rng) -> Res {
    if rng.chance(1, 12) {
        // grammar texts
        for _ in 0..3 {
            let mut t = meta_text(rng);
            if rng.chance(1, 2) {
                t = breaks(rng, &t);
            }
            if rng.chance(1, 2) {
                let n = t.chars().count();
                t = t.chars().take(rng.below(n + 1)).collect();
            }
            cx.eval();
            cx.note(|| t.clone());
            if let Err(e) = target(|| dynparser::rules_from_peg(&t)).map_err(|e| format!("{}\ngrammar text {:?}", e, t))? {
                if let Some(p) = parser_error(&e) {
                    cx.count("grammar_text_errors", 1);
                    cx.nontrivial(&t);
                    check_coords(p, &t).map_err(|e| format!("{}\ngrammar text {:?}", e, t))?;
                }
            }
        }
        return Ok(());
    }
    let mut c = gen_case_big(rng);
    for t in c.texts.iter_mut() {
        if rng.chance(1, 3) {
            *t = breaks(rng, t);
        }
    }
    let rs = real_rules(&c.rules, rng);
    for t in &c.texts {
        // the model only tells that the case terminates
        let debug = rng.chance(1, 4);
        match run_model(cx, &c.rules, t) {
            Some(o) if !too_costly(cx, &o.events, t, debug) => (),
            _ => continue,
        }
        cx.eval();
        cx.note(|| show(&c.rules, t));
        let got = target(|| if debug { dynparser::parse_debug(t, &rs) } else { dynparser::parse(t, &rs) })
            .map_err(|e| format!("{}\n{}", e, show(&c.rules, t)))?;
        if let Err(e) = got {
            cx.nontrivial(&key(&c.rules, t));
            cx.count("errors", 1);
            cx.count("errors_on_row_0", (e.pos.row == 0) as u64);
            cx.count("errors_after_cr", t.chars().take(e.pos.n).any(|c| c == '\r') as u64);
            cx.count("errors_at_end", (e.pos.n == t.chars().count()) as u64);
            cx.max("max_row", e.pos.row as u64);
            cx.max("max_col", e.pos.col as u64);
            check_coords(&e, t).map_err(|x| format!("{}\n{}", x, show(&c.rules, t)))?;
            cx.sample(|| show(&c.rules, t));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C05

fn c05(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let debug = rng.chance(1, 5);
    each(cx, rng, debug, |cx, rules, rs, t, o, _| {
        let exp = match &o.result {
            Ok(_) => return Ok(()),
            Err(f) => f,
        };
        let got = target(|| if debug { dynparser::parse_debug(t, rs) } else { dynparser::parse(t, rs) })
            .map_err(|e| format!("{}\n{}", e, show(rules, t)))?;
        let e = match got {
            Ok(_) => viol!("succeeded, expected {}\n{}", verdict(&o.result), show(rules, t)),
            Err(e) => e,
        };
        let kind = match &exp.what {
            What::Lit(_) => "literal",
            What::Class(..) => "class",
            What::Dot => "dot",
            What::Eof => "eof",
            What::Not => "negation",
            What::EmptyOr => "empty_choice",
            What::Msg(_) => "error_message",
            What::Missing(_) => "missing_rule",
            What::NotConsumed => "not_consumed",
        };
        cx.count(&format!("reported_{}", kind), 1);
        let crit = e.priority == ErrPriority::Critical;
        if e.pos.n != exp.pos || crit != exp.critical {
            viol!(
                "reported {:?} at {} ({:?}), expected {:?} at {} (critical: {})\n{}",
                e.descr, e.pos.n, e.priority, exp.what, exp.pos, exp.critical, show(rules, t)
            );
        }
        match &exp.what {
            What::Msg(m) => {
                if e.descr != *m {
                    viol!("message {:?}, expected {:?}\n{}", e.descr, m, show(rules, t));
                }
            }
            What::Missing(n) => {
                if !e.descr.contains(n.as_str()) {
                    viol!("{:?} does not name the missing rule {:?}\n{}", e.descr, n, show(rules, t));
                }
            }
            w => {
                if let Some(d) = probe::descr(w)? {
                    if e.descr != d {
                        viol!("reported {:?}, expected {:?} at {}\n{}", e.descr, d, exp.pos, show(rules, t));
                    }
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------- C14

fn c14(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let (pre, post) = probe::trail_format()?;
    each(cx, rng, true, |cx, rules, rs, t, o, _| {
        let f = |e| format!("{}\n{}", e, show(rules, t));
        let norm = target(|| dynparser::parse(t, rs)).map_err(f)?;
        let deb = target(|| dynparser::parse_debug(t, rs)).map_err(f)?;
        match (norm, deb) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    viol!("debug mode gives another tree\n{}", show(rules, t));
                }
            }
            (Err(a), Err(b)) => {
                if a.pos != b.pos || a.descr != b.descr || a.line_before != b.line_before || a.line_after != b.line_after || a.priority != b.priority {
                    viol!("normal mode {:?}\ndebug mode {:?}\n{}", a, b, show(rules, t));
                }
                if !a.parsing_rules.is_empty() {
                    viol!("trail {:?} in normal mode\n{}", a.parsing_rules, show(rules, t));
                }
                if let Err(x) = &o.result {
                    let exp: Vec<String> = trail_vec(&x.trail).iter().map(|n| format!("{}{}{}", pre, n, post)).collect();
                    cx.count("trails", 1);
                    cx.max("max_trail", exp.len() as u64);
                    if exp != b.parsing_rules {
                        viol!(
                            "trail {:?}\nexpected {:?} (failure {:?} at {})\n{}",
                            b.parsing_rules, exp, x.what, x.pos, show(rules, t)
                        );
                    }
                }
            }
            (a, b) => viol!("normal {:?}, debug {:?}\n{}", a.map(|_| ()), b.map(|_| ()), show(rules, t)),
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------- C03

type Ren = BTreeMap<char, char>;

pub fn ren_str(m: &Ren, s: &str) -> String {
    s.chars().map(|c| *m.get(&c).unwrap_or(&c)).collect()
}

pub fn ren_rules(m: &Ren, r: &Rules) -> Rules {
    r.iter()
        .map(|(n, e)| {
            (
                n.clone(),
                e.map(&|e| match e {
                    E::Lit(s) => Some(E::Lit(ren_str(m, s))),
                    E::Class(c, rs) => Some(E::Class(
                        ren_str(m, c),
                        rs.iter().map(|(a, b)| (*m.get(a).unwrap_or(a), *m.get(b).unwrap_or(b))).collect(),
                    )),
                    _ => None,
                }),
            )
        })
        .collect()
}

fn ren_node(m: &Ren, n: &N) -> N {
    match n {
        N::Val(v) => N::Val(ren_str(m, v)),
        N::Eof => N::Eof,
        N::Rule(s, v) => N::Rule(s.clone(), v.iter().map(|x| ren_node(m, x)).collect()),
    }
}

/// increasing injection of the given characters, CR and LF fixed; None if there is no room
fn renaming(rng: &mut Rng, used: &BTreeSet<char>, only_ge: u32) -> Option<Ren> {
    let mut m = Ren::new();
    let fixed: Vec<u32> = vec![10, 13];
    // bands between the fixed points
    let bands = [(0u32, 9u32), (11, 12), (14, 0x10ffff)];
    for f in fixed {
        m.insert(char::from_u32(f).unwrap(), char::from_u32(f).unwrap());
    }
    for (lo, hi) in bands {
        let cs: Vec<char> = used.iter().copied().filter(|&c| (lo..=hi).contains(&(c as u32))).collect();
        if cs.is_empty() {
            continue;
        }
        if (hi - lo + 1) < cs.len() as u32 {
            return None;
        }
        let mut targets = BTreeSet::new();
        let mode = rng.below(6);
        let mut guard = 0;
        let mut spare: Vec<char> = vec![];
        while targets.len() < cs.len() {
            guard += 1;
            if guard > 20_000 {
                return None;
            }
            let c = if hi < 14 {
                rng.range(lo as usize, hi as usize) as u32
            } else {
                match mode {
                    0 => rng.range(0x80, 0x7ff) as u32,
                    1 => rng.range(0x800, 0xffff) as u32,
                    2 => rng.range(0x10000, 0x10ffff) as u32,
                    3 => *rng.pick(&[0x7e, 0x7f, 0x80, 0x81, 0x7fe, 0x7ff, 0x800, 0x801, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff])
                        + rng.below(3) as u32,
                    4 => {
                        // characters that some programs take for each other
                        if spare.is_empty() {
                            let g = if rng.chance(1, 2) { gen::some_alike(rng) } else { rng.pick(gen::alike()) };
                            spare = g.iter().flat_map(|t| t.chars()).collect();
                        }
                        spare.pop().map_or(0, |c| c as u32)
                    }
                    _ => gen::any_char(rng) as u32,
                }
            };
            if c >= lo.max(only_ge) && c <= hi {
                if let Some(c) = char::from_u32(c) {
                    targets.insert(c);
                }
            }
        }
        for (a, b) in cs.into_iter().zip(targets) {
            m.insert(a, b);
        }
    }
    Some(m)
}

fn collect_chars(r: &Rules, texts: &[String]) -> BTreeSet<char> {
    let mut s: BTreeSet<char> = texts.iter().flat_map(|t| t.chars()).collect();
    for e in r.values() {
        e.walk(&mut |e| match e {
            E::Lit(x) => s.extend(x.chars()),
            E::Class(c, rs) => {
                s.extend(c.chars());
                for &(a, b) in rs {
                    s.insert(a);
                    s.insert(b);
                }
            }
            _ => (),
        });
    }
    s
}

fn c03(cx: &mut Ctx, rng: &mut Rng) -> Res {
    if rng.chance(1, 8) {
        return c03_peg(cx, rng);
    }
    let c = gen_case_big(rng);
    let used = collect_chars(&c.rules, &c.texts);
    let m = match renaming(rng, &used, 0) {
        Some(m) => m,
        None => {
            cx.count("skipped_no_renaming", 1);
            return Ok(());
        }
    };
    let r2 = ren_rules(&m, &c.rules);
    let a_rules = conv::rules_plain(&c.rules);
    let b_rules = conv::rules_plain(&r2);
    for t in &c.texts {
        if run_model(cx, &c.rules, t).is_none() {
            continue;
        }
        let t2 = ren_str(&m, t);
        cx.eval();
        if t.chars().zip(t2.chars()).any(|(a, b)| a.len_utf8() != b.len_utf8()) {
            cx.nontrivial(&format!("{}{}", key(&c.rules, t), t2));
            cx.count("texts_with_changed_byte_lengths", 1);
        }
        let sh = || format!("{}\nrenamed {}", show(&c.rules, t), show(&r2, &t2));
        cx.note(sh);
        let a = target(|| dynparser::parse(t, &a_rules)).map_err(|e| format!("{}\n{}", e, sh()))?;
        let b = target(|| dynparser::parse(&t2, &b_rules)).map_err(|e| format!("{}\n{}", e, sh()))?;
        match (a, b) {
            (Ok(a), Ok(b)) => {
                if !conv::same(&ren_node(&m, &conv::node(&a)), &b) {
                    viol!("the renamed tree differs: {:?} / {:?}\n{}", a, b, sh());
                }
            }
            (Err(a), Err(b)) => {
                if a.pos != b.pos || a.priority != b.priority || ren_str(&m, &a.line_before) != b.line_before || ren_str(&m, &a.line_after) != b.line_after {
                    viol!("the renamed error differs: {:?} / {:?}\n{}", a, b, sh());
                }
            }
            (a, b) => viol!("verdict {:?}, renamed {:?}\n{}", a.map(|_| ()), b.map(|_| ()), sh()),
        }
        cx.sample(sh);
    }
    Ok(())
}

/// the same through PEG text: characters above 0x7f are never syntax, so renaming among them
/// can be done on the text itself
fn c03_peg(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let mut al: Vec<char> = vec![];
    while al.len() < 4 {
        let c = gen::any_char(rng);
        if c as u32 >= 0x100 {
            al.push(c);
        }
    }
    if rng.chance(1, 2) {
        al.push('a');
        al.push('\n');
    }
    let p = gen::Profile { peg: true, ..gen::profile(rng) };
    let g = pegtext::expressible(&gen::grammar(rng, &p, &al));
    let lay = pegtext::random_layout(rng);
    let t = pegtext::render(rng, &g, &lay);
    let used: BTreeSet<char> = t.chars().collect();
    // low characters stay, high ones move
    let high: BTreeSet<char> = used.iter().copied().filter(|&c| c as u32 >= 0x100).collect();
    let m = match renaming(rng, &high, 0x100) {
        Some(m) => m,
        None => return Ok(()),
    };
    let mut t = t;
    if rng.chance(1, 3) {
        let v: Vec<char> = used.iter().copied().collect();
        t = gen::mutate(rng, &t, &v);
        if t.chars().any(|c| c as u32 >= 0x100 && !m.contains_key(&c)) {
            return Ok(());
        }
    }
    let t2 = ren_str(&m, &t);
    cx.eval();
    cx.count("grammar_texts", 1);
    if t.len() != t2.len() {
        cx.nontrivial(&format!("{}{}", t, t2));
    }
    let sh = || format!("grammar text {:?}\nrenamed {:?}", t, t2);
    cx.note(sh);
    let a = target(|| dynparser::rules_from_peg(&t)).map_err(|e| format!("{}\n{}", e, sh()))?;
    let b = target(|| dynparser::rules_from_peg(&t2)).map_err(|e| format!("{}\n{}", e, sh()))?;
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let ra = pegtext::normal(&ren_rules(&m, &conv::back_rules(&a)));
            let rb = pegtext::normal(&conv::back_rules(&b));
            if err_free(&ra) != err_free(&rb) {
                viol!("the renamed grammar text gives other rules:\n{:?}\n{:?}\n{}", ra, rb, sh());
            }
        }
        (Err(a), Err(b)) => match (parser_error(&a), parser_error(&b)) {
            (Some(a), Some(b)) => {
                if a.pos != b.pos || ren_str(&m, &a.line_before) != b.line_before || ren_str(&m, &a.line_after) != b.line_after {
                    viol!("the renamed grammar text gives another error: {:?} / {:?}\n{}", a, b, sh());
                }
            }
            (None, None) => (),
            _ => viol!("the renamed grammar text gives another kind of error: {:?} / {:?}\n{}", a, b, sh()),
        },
        (a, b) => viol!("verdict {:?}, renamed {:?}\n{}", a.map(|_| ()), b.map(|_| ()), sh()),
    }
    Ok(())
}

/// error messages are renamed in the text too: leave them out of the comparison
fn err_free(r: &Rules) -> Rules {
    r.iter()
        .map(|(n, e)| {
            (n.clone(), e.map(&|e| if let E::Err(_) = e { Some(E::Err(String::new())) } else { None }))
        })
        .collect()
}
