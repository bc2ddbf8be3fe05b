//! C15: no panic, abort, overflow, undefined behaviour or endless run.

use super::parse::{gen_case, run_model, show, the_zoo, too_costly};
use super::Prop;
use crate::ctx::{on_stack, Ctx, Res};
use crate::model::{Rules, E, N};
use crate::rng::Rng;
use crate::{conv, gen, pegtext, viol};
use dynparser::ast::{self, flat, Node};
use dynparser::parser::expression::SetOfRules;

/// the stack of a main thread
const STACK: usize = 16 << 20;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        case: c15,
        quick: 36_000,
        thorough: 1_000_000,
        shards: 8,
        cpu_limit: 20,
        mem_limit: 10,
        min_distinct: 500,
        rule: "case = hostile grammar text (soup, arbitrary Unicode, mutated, nested up to 50 levels, long lists), hostile rule set (nested up to 50 levels, undefined references, empty choices, repetitions of nothing, huge bounds, odd names) with texts, or hostile tree; every public operation is called on it and on its results, and results are formatted, on a 16 MB stack with overflow checks and debug assertions on; non-trivial: all, distinct by content",
        assumptions: &["a call is taken to run forever after 20 s of CPU time, where the model needs fewer than 60,000 steps"],
    }]
}

fn use_rules(cx: &mut Ctx, rng: &mut Rng, src: &Rules, rs: &SetOfRules, texts: &[String]) -> Res {
    cx.note(|| show(src, ""));
    let n = on_stack(STACK, || {
        let a = dynparser::peg::gcode::rust_from_rules(rs).len();
        let b = format!("{:?}{:#?}", rs, rs).len();
        a + b
    })
    .map_err(|e| format!("code generation or formatting: {}\n{}", e, show(src, "")))?;
    cx.count("bytes_of_code_and_formatting", n as u64);
    cx.eval();
    for t in texts {
        let debug = rng.chance(1, 3);
        if src.contains_key("main") {
            match run_model(cx, src, t) {
                Some(o) if !too_costly(cx, &o.events, t, debug) => (),
                _ => continue,
            }
        }
        cx.eval();
        cx.note(|| show(src, t));
        on_stack(STACK, || {
            let r = if debug { dynparser::parse_debug(t, rs) } else { dynparser::parse(t, rs) };
            let f = format!("{:?}{:#?}", r, r).len();
            if let Ok(n) = &r {
                use_tree(n, &["main", "a"]);
            }
            f
        })
        .map_err(|e| format!("{}\n{}", e, show(src, t)))?;
        cx.nontrivial(&super::parse::key(src, t));
    }
    Ok(())
}

fn use_tree(n: &Node, names: &[&str]) {
    let v = [n.prune(names), n.pass_through_except(names), n.compact(), n.compact().prune(names)];
    let _ = format!("{:?}", v);
    let f = n.flatten();
    let _ = format!("{:?}", f);
    let _ = (ast::get_node_val(n), ast::get_nodename_and_nodes(n));
    if let Ok((_, kids)) = ast::get_nodename_and_nodes(n) {
        let mut k = kids;
        loop {
            let _ = (
                ast::check_empty_nodes(k),
                ast::peek_first_node(k),
                ast::consume_val(k),
                ast::consume_this_value("a", k),
                ast::get_nodes_unique_val(k),
                ast::consume_node_get_subnodes_for_rule_name_is("a", k),
            );
            match ast::split_first_nodes(k) {
                Ok((_, r)) if r.len() < 50 => k = r,
                _ => break,
            }
        }
    }
    let mut k: &[flat::Node] = &f;
    while let Ok((x, r)) = flat::split_first_nodes(k) {
        let _ = (
            flat::consume_node_start_rule_name("a", k),
            flat::consume_node_end_rule_name("a", k),
            flat::consume_this_value("a", k),
            flat::consume_val(k),
            flat::get_nodename(x),
            flat::get_node_val(x),
            flat::peek_first_node(k),
        );
        k = r;
    }
    let _ = (flat::peek_first_node(k), flat::consume_val(k), flat::consume_this_value("", k));
}

fn hostile_peg(cx: &mut Ctx, rng: &mut Rng) -> String {
    let al: Vec<char> = " \n\r='\"/*+?!().[]-{}_aerro\\0xé,\t#<".chars().collect();
    match rng.below(12) {
        11 => {
            // long tokens of characters of all widths
            let l = gen::long_mixed(rng);
            let m = gen::long_mixed(rng);
            match rng.below(8) {
                0 => format!("main = '{}' \"{}\"\n", l, m),
                1 => format!("main = [{}]\n", l),
                2 => format!("main = 'a' / error('{}')\n", l),
                3 => format!("/*{}*/ main = 'a' //{}\n", l, m),
                4 => format!("main = 'a' {}\n", l),
                5 => format!("{}", l),
                6 => format!("main = '{}", l),
                _ => format!("main = \"{}\\{}\"\n", l, m),
            }
        }
        0 => {
            // arbitrary Unicode
            let n = rng.log(200);
            (0..n).map(|_| gen::any_char(rng)).collect()
        }
        1 => {
            // arbitrary bytes
            let n = rng.log(200);
            let b: Vec<u8> = (0..n).map(|_| rng.below(256) as u8).collect();
            String::from_utf8_lossy(&b).into_owned()
        }
        2 => {
            let n = rng.log(120);
            (0..n).map(|_| *rng.pick(&al)).collect()
        }
        3 => {
            // nested parentheses, closed or not
            let d = rng.range(1, 50);
            cx.max("max_nesting_in_grammar_text", d as u64);
            let close = if rng.chance(1, 4) { rng.below(d + 1) } else { d };
            let mut s = String::from("main = ");
            for _ in 0..d {
                s.push_str(rng.pick::<&str>(&["(", "(", "( ", "!(", "('a' / ", "('b' "]));
            }
            s.push_str("'x'");
            for _ in 0..close {
                s.push_str(rng.pick::<&str>(&[")", ")", " )", ")*", ")?", ")+"]));
            }
            s.push('\n');
            s
        }
        4 => {
            let d = rng.range(1, 50);
            let mut s = String::new();
            for i in 0..d {
                s.push_str(&format!("m{} {{\n", i));
            }
            s.push_str("main = 'a'\n");
            for _ in 0..d {
                s.push_str("}\n");
            }
            s
        }
        5 => {
            // long lists
            let n = rng.log(2000);
            let (a, b) = *rng.pick(&[(" / ", "'a'"), (" ", "'a'"), (" ", "!b"), ("\n / ", "error('x')"), ("\nmain = ", "."), ("\nm { a = ", "b\n}")]);
            let mut s = String::from("main = 'z'");
            for _ in 0..n {
                s.push_str(a);
                s.push_str(b);
            }
            s.push('\n');
            s
        }
        6 => {
            // one long token
            let n = rng.log(3000);
            let (a, m, z) = *rng.pick(&[
                ("main = '", "x", "'\n"),
                ("main = \"", "\\n", "\"\n"),
                ("main = \"", "\\0x41", "\"\n"),
                ("main = \"", "\\", "\"\n"),
                ("main = [", "a-b", "]\n"),
                ("main = [", "-", "]\n"),
                ("main = ", "a", "\n"),
                ("main = ", "a.", "a\n"),
                ("/*", "*", "*/ main = 'a'\n"),
                ("//", "/", "\nmain = 'a'\n"),
                ("", "\n", "main = 'a'\n"),
                ("main = 'a'", " ", "\n"),
                ("main = [", "é", "]\n"),
            ]);
            format!("{}{}{}", a, m.repeat(n), z)
        }
        _ => {
            let p = gen::Profile { peg: true, ..gen::profile(rng) };
            let a = gen::alphabet(rng);
            let g = if rng.chance(1, 5) {
                rng.pick(the_zoo()).rules.clone()
            } else {
                pegtext::expressible(&gen::grammar(rng, &p, &a))
            };
            let lay = pegtext::random_layout(rng);
            let t = pegtext::render(rng, &g, &lay);
            match rng.below(8) {
                0..=3 => gen::mutate(rng, &t, &al),
                4 | 5 => gen::oddity(rng, &t),
                6 => {
                    let t = gen::oddity(rng, &t);
                    gen::oddity(rng, &t)
                }
                _ => t,
            }
        }
    }
}

/// small cases for slow interpreters and sanitizers: everything public is called, nothing compared
pub fn smoke(seed: u64, from: u64, to: u64) -> i32 {
    let (mut parses, mut ok, mut chars, mut pairs) = (0, 0, 0, 0);
    for i in from..to {
        let mut rng = Rng::for_case(seed, "smoke", i);
        let rng = &mut rng;
        let al: Vec<char> = match rng.below(4) {
            0 => vec!['a', 'b'],
            1 => vec!['a', 'é', '\n'],
            2 => vec!['∑', '\r', '\n'],
            _ => vec!['😀', 'a', '\u{7ff}'],
        };
        let p = gen::Profile { rules: (1, 3), depth: 3, ..gen::profile(rng) };
        let src = gen::grammar(rng, &p, &al);
        let rs = conv::rules_plain(&src);
        let code = dynparser::peg::gcode::rust_from_rules(&rs);
        if i % 8 == 0 {
            println!("code of {} bytes", code.len());
        }
        for _ in 0..3 {
            let t: String = gen::text(rng, &src, &al).chars().take(12).collect();
            let cs: Vec<char> = t.chars().collect();
            match crate::model::run(&src, &cs, &crate::model::Limits { steps: 300, depth: 60 }) {
                Ok(_) => (),
                Err(_) => continue,
            }
            let r = if rng.chance(1, 3) { dynparser::parse_debug(&t, &rs) } else { dynparser::parse(&t, &rs) };
            let _ = format!("{:?}", r);
            parses += 1;
            chars += cs.len();
            if let Ok(n) = &r {
                ok += 1;
                use_tree(n, &["main", "a"]);
            }
        }
        if i % 5 == 2 {
            // two threads at once, for the race detector of Miri
            #[allow(unused_imports)]
            use crate::ctx::NotSync;
            let t: String = gen::text(rng, &src, &al).chars().take(8).collect();
            let cs: Vec<char> = t.chars().collect();
            if (&crate::ctx::Probe::new(&rs)).is_sync() && crate::model::run(&src, &cs, &crate::model::Limits { steps: 150, depth: 60 }).is_ok() {
                let (rs, t) = (&rs, &t);
                std::thread::scope(|s| {
                    for _ in 0..2 {
                        let rs = crate::ctx::Sent::new(rs);
                        s.spawn(move || drop(format!("{:?}", dynparser::parse(t, rs.get()))));
                    }
                });
                parses += 2;
                pairs += 1;
            }
        }
        if i % 16 == 0 {
            let t = rng.pick::<&str>(&["main='é'\n", "main=[ab-c]\n", "main=\"\\n\"\n", "main=a/.\n", "main='\n"]).to_string();
            let r = dynparser::rules_from_peg(&t);
            let _ = format!("{:?}", r.map(|_| ()));
            parses += 1;
        }
    }
    println!("smoke parses={} accepted={} chars={} pairs={}", parses, ok, chars, pairs);
    0
}

/// expressions nested to the given depth
fn deep(rng: &mut Rng, depth: usize, al: &[char], names: &[String]) -> E {
    let mut e = match rng.below(5) {
        0 => E::Lit(rng.pick(al).to_string()),
        1 => E::Dot,
        2 => E::Lit(String::new()),
        3 => E::Or(vec![]),
        _ => E::And(vec![]),
    };
    for _ in 0..depth {
        let b = Box::new(e.clone());
        let side = match rng.below(4) {
            0 => E::Ref(rng.pick(names).clone()),
            1 => E::Lit(rng.pick(al).to_string()),
            2 => E::Class(rng.pick(al).to_string(), vec![]),
            _ => E::Eof,
        };
        e = match rng.below(9) {
            0 => E::And(vec![e]),
            1 => E::Or(vec![e]),
            2 => E::And(vec![side, e]),
            3 => E::Or(vec![side, e]),
            4 => E::Or(vec![e, side]),
            5 => E::Not(b),
            6 => E::Rep(b, 0, None),
            7 => E::Rep(b, rng.below(2), Some(1 + rng.log(3))),
            _ => E::And(vec![e, side]),
        };
    }
    e
}

fn absurd(rng: &mut Rng, e: &E) -> E {
    let big = [usize::MAX, usize::MAX - 1, 1 << 63, 1 << 32, u32::MAX as usize, 65536, 0, 1];
    let pick: Vec<usize> = (0..40).map(|_| *rng.pick(&big)).collect();
    let k = std::cell::Cell::new(0usize);
    fn go(e: &E, pick: &[usize], k: &std::cell::Cell<usize>) -> E {
        let next = || {
            k.set(k.get() + 1);
            pick[k.get() % pick.len()]
        };
        match e {
            E::And(v) => E::And(v.iter().map(|x| go(x, pick, k)).collect()),
            E::Or(v) => E::Or(v.iter().map(|x| go(x, pick, k)).collect()),
            E::Not(x) => E::Not(Box::new(go(x, pick, k))),
            E::Rep(x, a, b) => {
                let x = Box::new(go(x, pick, k));
                let (mut a, mut b) = (*a, *b);
                match next() % 5 {
                    0 => a = next(),
                    1 => b = Some(next()),
                    2 => {
                        a = next();
                        b = Some(next());
                    }
                    _ => (),
                }
                E::Rep(x, a, b)
            }
            x => x.clone(),
        }
    }
    go(e, &pick, &k)
}

/// the same rules, some of their texts and names long and of characters of all widths
fn wordy(rng: &mut Rng, r: &Rules) -> Rules {
    fn go(rng: &mut Rng, e: &E, names: &[(String, String)]) -> E {
        match e {
            E::And(v) => E::And(v.iter().map(|x| go(rng, x, names)).collect()),
            E::Or(v) => E::Or(v.iter().map(|x| go(rng, x, names)).collect()),
            E::Not(x) => E::Not(Box::new(go(rng, x, names))),
            E::Rep(x, a, b) => E::Rep(Box::new(go(rng, x, names)), *a, *b),
            E::Ref(n) => E::Ref(names.iter().find(|x| x.0 == *n).map(|x| x.1.clone()).unwrap_or(n.clone())),
            E::Lit(_) if rng.chance(1, 2) => E::Lit(gen::long_mixed(rng)),
            E::Err(_) if rng.chance(2, 3) => E::Err(gen::long_mixed(rng)),
            E::Class(_, rs) if rng.chance(1, 2) => E::Class(gen::long_mixed(rng), rs.clone()),
            E::Class(cs, _) if rng.chance(1, 3) => E::Class(cs.clone(), gen::long_mixed(rng).chars().map(|c| (c, c)).collect()),
            x => x.clone(),
        }
    }
    let mut names = vec![];
    for n in r.keys() {
        if n != "main" && rng.chance(1, 2) {
            names.push((n.clone(), gen::long_mixed(rng)));
        }
    }
    r.iter()
        .map(|(n, e)| {
            let m = names.iter().find(|x| x.0 == *n).map(|x| x.1.clone()).unwrap_or(n.clone());
            let e = go(rng, e, &names);
            (m, e)
        })
        .collect()
}

fn c15(cx: &mut Ctx, rng: &mut Rng) -> Res {
    match rng.below(11) {
        10 => {
            // long names, literals, classes and messages
            let c = gen_case(rng);
            let rs = wordy(rng, &c.rules);
            let al = crate::zoo::alphabet(&rs);
            let mut texts: Vec<String> = (0..3).map(|_| gen::text(rng, &rs, &al)).collect();
            texts.push(gen::long_mixed(rng));
            let real = conv::rules_plain(&rs);
            cx.count("rule_sets_with_long_words", 1);
            use_rules(cx, rng, &rs, &real, &texts)?;
        }
        0..=4 => {
            let t = hostile_peg(cx, rng);
            cx.count("grammar_texts", 1);
            cx.eval();
            cx.nontrivial(&t);
            cx.note(|| t.clone());
            let r = on_stack(STACK, || {
                let r = dynparser::rules_from_peg(&t);
                if let Err(e) = &r {
                    let _ = format!("{:?}{}{:#?}", e, e, e);
                }
                // text as input of itself
                r
            })
            .map_err(|e| format!("{}\ngrammar text {:?}", e, t))?;
            if let Ok(rs) = r {
                cx.count("grammar_texts_accepted", 1);
                let src = conv::back_rules(&rs);
                let al = crate::zoo::alphabet(&src);
                let texts: Vec<String> = (0..2).map(|_| gen::text(rng, &src, &al)).collect();
                if src.contains_key("main") {
                    use_rules(cx, rng, &src, &rs, &texts)?;
                }
            }
            cx.sample(|| t.clone());
        }
        5 | 6 => {
            // deep rule sets
            let al = gen::alphabet(rng);
            let names: Vec<String> = ["main", "", "a b", "\n", "é", "r:x", "nowhere", "\"#"].iter().map(|s| s.to_string()).collect();
            let mut r = Rules::new();
            let k = rng.range(1, 4);
            for n in names.iter().take(k) {
                let d = rng.range(1, 50 / k);
                cx.max("max_nesting_in_rules", d as u64);
                r.insert(n.clone(), deep(rng, d, &al, &names));
            }
            if rng.chance(1, 2) {
                r = r.into_iter().map(|(n, e)| (n, absurd(rng, &e))).collect();
            }
            let texts: Vec<String> = (0..4).map(|_| gen::text(rng, &r, &al)).collect();
            let rs = conv::rules_plain(&r);
            use_rules(cx, rng, &r, &rs, &texts)?;
            cx.sample(|| show(&r, &texts[0]));
        }
        7 => {
            // recursion through rules, 50 levels
            let d = rng.range(1, 50);
            let (o, c) = *rng.pick(&[("(", ")"), ("é", "😀"), ("\n", "\r"), ("a", "a")]);
            let mut r = Rules::new();
            let rec = E::And(vec![E::Lit(o.into()), E::Ref("main".into()), E::Lit(c.into())]);
            let e = match rng.below(4) {
                0 => E::Or(vec![rec, E::Lit("x".into())]),
                1 => E::Rep(Box::new(rec), 0, None),
                2 => E::Or(vec![E::And(vec![E::Not(Box::new(E::Not(Box::new(rec.clone())))), rec]), E::Lit("x".into())]),
                _ => E::Rep(Box::new(rec), 0, Some(1)),
            };
            r.insert("main".into(), e);
            let d = if matches!(r["main"], E::Or(ref v) if matches!(&v[0], E::And(w) if matches!(w[0], E::Not(_)))) { d.min(10) } else { d };
            let mut t = o.repeat(d) + rng.pick::<&str>(&["x", "", "y"]) + &c.repeat(if rng.chance(1, 4) { rng.below(d + 1) } else { d });
            if rng.chance(1, 6) {
                t.push('!');
            }
            let rs = conv::rules_plain(&r);
            use_rules(cx, rng, &r, &rs, &[t])?;
        }
        8 => {
            let c = gen_case(rng);
            let rs: Rules = c.rules.iter().map(|(n, e)| (n.clone(), if rng.chance(1, 2) { absurd(rng, e) } else { e.clone() })).collect();
            let real = conv::rules_plain(&rs);
            use_rules(cx, rng, &rs, &real, &c.texts)?;
        }
        _ => {
            let names = gen::names(rng);
            let mut budget = 400;
            let (d, w) = *rng.pick(&[(100, 1), (99, 2), (3, 300), (5, 5)]);
            let n: N = gen::tree(rng, &names, d, w, &mut budget);
            let l: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            let real = conv::unnode(&n);
            cx.eval();
            cx.nontrivial(&format!("{:?}", n));
            cx.note(|| format!("{:?}", n));
            on_stack(STACK, || use_tree(&real, &l)).map_err(|e| format!("{}\ntree {:?} names {:?}", e, n, l))?;
        }
    }
    if cx.evals == u64::MAX {
        viol!("unreachable");
    }
    Ok(())
}
