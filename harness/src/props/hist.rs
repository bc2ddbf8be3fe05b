//! C12 histories of rule-set edits, C13 purity.

use super::parse::{gen_case_big, key, run_model, show, the_zoo};
use super::{Prop, SEMANTICS};
use crate::conv::{self, Style};
use crate::ctx::{target, Ctx, Probe, Res, Sent};
use crate::model::{N, Rules, E};
use crate::rng::{hash_str, Rng};
use crate::{gen, pegtext, viol, world};
use dynparser::parser::expression::SetOfRules;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            case: c12,
            quick: 40_000,
            thorough: 1_000_000,
            shards: 8,
            cpu_limit: 20,
            mem_limit: 10,
            min_distinct: 300,
            rule: "case = history of new / add / merge / parse operations on several sets with few names (many clashes), against a map; the contents are compared after every operation and parses with a set built at once; non-trivial: the history had a name clash; distinct by history",
            assumptions: SEMANTICS,
        },
        Prop {
            id: "C13",
            case: c13,
            quick: 1_600,
            thorough: 60_000,
            shards: 4,
            cpu_limit: 60,
            mem_limit: 10,
            min_distinct: 200,
            rule: "case = 30-60 jobs (parses, debug parses, grammar translations, tree operations; rule sets that share names, texts that share contents or memory) run in order, again in other orders with rebuilt arguments, on 4 threads at once sharing the rule sets, with other answers of the environment and the clocks, and (1 of 16) in a fresh process with another environment; two cases are a million small calls in one process and thousands of threads; all results of a job must be equal; non-trivial: all, distinct by job list",
            assumptions: &["the interleavings are the ones the scheduler gave"],
        },
    ]
}

// ------------------------------------------------------------------------------------- C12

fn some_expr(rng: &mut Rng, names: &[String], al: &[char]) -> E {
    let p = gen::Profile { missing: false, ..gen::profile(rng) };
    let d = rng.range(1, 3);
    let mut p = p;
    p.arity = p.arity.min(4);
    let g = gen::G { p, al, names: names.to_vec() };
    g.expr(rng, d)
}

/// sets of many rules
fn c12_big(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let size = |rng: &mut Rng| match rng.below(5) {
        0 => rng.range(0, 4),
        1 => (1usize << rng.range(4, 11)) + rng.below(3) - 1,
        2 => rng.range(200, 700),
        _ => rng.log(3000),
    };
    let build = |from: usize, n: usize, tag: &str| -> Rules { (from..from + n).map(|i| (format!("r{}", i), E::Lit(format!("{}{}", tag, i)))).collect() };
    let (na, nb) = (size(rng), size(rng));
    let from = if rng.chance(1, 3) { 0 } else { rng.below(na + 1) };
    let mut a = build(0, na, "a");
    let mut b = build(from, nb, "b");
    if rng.chance(1, 2) {
        a.insert("main".into(), E::Ref(format!("r{}", rng.below(na + nb + 1))));
    }
    if rng.chance(1, 2) {
        b.insert("main".into(), E::Ref(format!("r{}", rng.below(na + nb + 1))));
    }
    let real = |rng: &mut Rng, m: &Rules| {
        let mut v: Vec<(&String, &E)> = m.iter().collect();
        rng.shuffle(&mut v);
        if rng.chance(1, 2) {
            SetOfRules::new(v.into_iter().map(|(n, e)| (n.clone(), conv::expr(e, Style::Ctor))).collect())
        } else {
            v.into_iter().fold(conv::empty_set(), |s, (n, e)| s.add(n, conv::expr(e, Style::Macro)))
        }
    };
    let (ra, rb) = (real(rng, &a), real(rng, &b));
    let mut merged = target(|| ra.merge(rb))?;
    let mut m = b.clone();
    m.extend(a.clone());
    // rules replaced and added afterwards
    for i in 0..rng.below(6) {
        let n = match rng.below(3) {
            0 => format!("new{}", i),
            _ => format!("r{}", rng.below(na + nb + 1)),
        };
        let e = E::Lit(format!("c{}", i));
        merged = target(|| merged.add(&n, conv::expr(&e, Style::Ctor)))?;
        m.insert(n, e);
        cx.count("rules_added_to_big_sets", 1);
    }
    if rng.chance(1, 3) {
        let c = build(rng.below(na + 1), rng.below(4), "d");
        merged = if rng.chance(1, 2) {
            let x = target(|| merged.merge(conv::rules_plain(&c)))?;
            for (n, e) in c {
                m.entry(n).or_insert(e);
            }
            x
        } else {
            let x = target(|| conv::rules_plain(&c).merge(merged))?;
            m.extend(c);
            x
        };
    }
    cx.eval();
    cx.count("sets_of_many_rules", 1);
    cx.max("max_rules_in_a_set", m.len() as u64);
    cx.nontrivial(&format!("{} {} {}", na, nb, from));
    let what = || format!("r0..r{} (as \"a\"+number) merged with r{}..r{} (as \"b\"+number)", na, from, from + nb);
    if merged.0.len() != m.len() {
        viol!("{} rules, expected {}: {}", merged.0.len(), m.len(), what());
    }
    let got = conv::back_rules(&merged);
    for (n, e) in &m {
        if got.get(n) != Some(e) {
            viol!("rule {} is {:?}, expected {:?}: {}", n, got.get(n), e, what());
        }
    }
    if let Some(E::Ref(n)) = m.get("main") {
        if let Some(E::Lit(t)) = m.get(n) {
            if target(|| dynparser::parse(t, &merged).is_err())? {
                viol!("main = {} does not match {:?}: {}", n, t, what());
            }
        }
    }
    Ok(())
}

fn c12(cx: &mut Ctx, rng: &mut Rng) -> Res {
    if rng.chance(1, 200) {
        return c12_big(cx, rng);
    }
    let al = gen::alphabet(rng);
    let mut names: Vec<String> = vec!["main".into(), "a".into(), "b".into()];
    if rng.chance(1, 2) {
        names.extend(["", "A", "é", "main2", "a.b", "main ", "ma"].iter().map(|s| s.to_string()));
    }
    if rng.chance(1, 2) {
        for _ in 0..rng.range(1, 4) {
            let x = rng.pick(&names).clone();
            names.push(gen::near_name(rng, &x));
        }
    }
    if rng.chance(1, 10) {
        names.extend((0..60).map(|i| format!("r{}", i)));
    }
    // a few sets live at the same time
    let mut real: Vec<SetOfRules> = vec![];
    let mut model: Vec<Rules> = vec![];
    let mut hist: Vec<String> = vec![];
    let mut clash = 0u64;
    let steps = rng.range(3, 14) + if rng.chance(1, 10) { 60 } else { 0 };
    for _ in 0..steps {
        let op = if real.is_empty() { 0 } else { rng.below(10) };
        match op {
            0 | 1 => {
                // new, at once, with some rules
                let k = rng.below(4);
                let mut m = Rules::new();
                for _ in 0..k {
                    let n = rng.pick(&names).clone();
                    m.insert(n, some_expr(rng, &names, &al));
                }
                hist.push(format!("set{} = new {:?}", real.len(), m));
                let st = if rng.chance(1, 2) { Style::Ctor } else { Style::Macro };
                let r = if m.len() == 2 && rng.chance(1, 2) {
                    let mut it = m.iter();
                    let (a, b) = (it.next().unwrap(), it.next().unwrap());
                    target(|| dynparser::rules! { a.0 => conv::expr(a.1, st), b.0 => conv::expr(b.1, st) })?
                } else {
                    target(|| SetOfRules::new(m.iter().map(|(n, e)| (n.clone(), conv::expr(e, st))).collect()))?
                };
                real.push(r);
                model.push(m);
            }
            2 => {
                // the macro, with a name defined twice
                let n = rng.pick(&names).clone();
                let o = rng.pick(&names).clone();
                let e = [some_expr(rng, &names, &al), some_expr(rng, &names, &al), some_expr(rng, &names, &al)];
                let st = Style::Macro;
                hist.push(format!("set{} = rules!{{{:?} => {:?}, {:?} => {:?}, {:?} => {:?}}}", real.len(), n, e[0], o, e[1], n, e[2]));
                let r = target(|| dynparser::rules! { &n => conv::expr(&e[0], st), &o => conv::expr(&e[1], st), &n => conv::expr(&e[2], st) })?;
                let mut m = Rules::new();
                m.insert(n.clone(), e[0].clone());
                m.insert(o, e[1].clone());
                m.insert(n, e[2].clone());
                clash += 1;
                real.push(r);
                model.push(m);
            }
            3..=6 => {
                let i = rng.below(real.len());
                let n = rng.pick(&names).clone();
                let e = some_expr(rng, &names, &al);
                hist.push(format!("set{}.add({:?}, {:?})", i, n, e));
                let s = std::mem::replace(&mut real[i], conv::empty_set());
                let x = conv::expr(&e, Style::Ctor);
                real[i] = target(|| s.add(&n, x))?;
                if model[i].insert(n, e).is_some() {
                    clash += 1;
                }
            }
            7 | 8 if real.len() > 1 => {
                let i = rng.below(real.len());
                let mut j = rng.below(real.len() - 1);
                if j >= i {
                    j += 1;
                }
                hist.push(format!("set{}.merge(set{})", i, j));
                let a = std::mem::replace(&mut real[i], conv::empty_set());
                let b = std::mem::replace(&mut real[j], conv::empty_set());
                real[i] = target(|| a.merge(b))?;
                let mb = std::mem::take(&mut model[j]);
                for (n, e) in mb {
                    if model[i].contains_key(&n) {
                        clash += 1;
                    } else {
                        model[i].insert(n, e);
                    }
                }
            }
            _ => {
                // parse with it as it is now, and with one built at once
                let i = rng.below(real.len());
                if !model[i].contains_key("main") {
                    continue;
                }
                let t = gen::text(rng, &model[i], &al);
                hist.push(format!("parse {:?} with set{}", t, i));
                if run_model(cx, &model[i], &t).is_none() {
                    continue;
                }
                let mut order: Vec<(&String, &E)> = model[i].iter().collect();
                rng.shuffle(&mut order);
                let once = SetOfRules::new(order.into_iter().map(|(n, e)| (n.clone(), conv::expr(e, Style::Ctor))).collect());
                let a = target(|| format!("{:?}", dynparser::parse(&t, &real[i])))?;
                let b = target(|| format!("{:?}", dynparser::parse(&t, &once)))?;
                cx.count("parses", 1);
                if a != b {
                    viol!("history\n {}\nparse gives {}\nwith a set built at once {}", hist.join("\n "), a, b);
                }
            }
        }
        cx.eval();
        // contents of every set, after every operation
        for (r, m) in real.iter().zip(&model) {
            if r.0.len() != m.len() || &conv::back_rules(r) != m {
                viol!("history\n {}\nthe set has {:?}\nexpected {:?}", hist.join("\n "), conv::back_rules(r), m);
            }
        }
    }
    cx.count("operations", hist.len() as u64);
    cx.count("name_clashes", clash);
    if clash > 0 {
        cx.nontrivial(&hist.join("\n"));
    }
    cx.sample(|| hist.join("; "));
    Ok(())
}

// ------------------------------------------------------------------------------------- C13

enum Job {
    Parse { set: usize, text: usize, debug: bool },
    Peg { text: usize },
    Ast { tree: usize, names: Vec<String> },
}

struct Bench {
    rules: Vec<Rules>,
    texts: Vec<String>,
    trees: Vec<N>,
    jobs: Vec<Job>,
}

fn variant(rng: &mut Rng, r: &Rules, al: &[char]) -> Rules {
    // same names, one rule changed or taken away
    let mut v = r.clone();
    let names: Vec<String> = r.keys().cloned().collect();
    let n = rng.pick(&names).clone();
    if n != "main" && rng.chance(1, 3) {
        v.remove(&n);
        return v;
    }
    let e = some_expr(rng, &names, al);
    let old = v[&n].clone();
    v.insert(
        n,
        match rng.below(4) {
            0 => e,
            1 => E::Or(vec![e, old]),
            2 => E::And(vec![old, e]),
            _ => E::Rep(Box::new(old), 0, Some(1)),
        },
    );
    v
}

/// nested some hundreds of levels with something long inside, or a long text of alternatives that
/// enter many rules
fn deep_case(rng: &mut Rng) -> (Rules, String, String) {
    let mut r = Rules::new();
    let l = |s: &str| E::Lit(s.into());
    let b = Box::new;
    let rf = |s: &str| E::Ref(s.into());
    let d = rng.range(30, 220);
    let n = rng.range(100, 3000);
    if rng.chance(1, 2) {
        r.insert("main".into(), E::Or(vec![E::And(vec![l("("), rf("main"), l(")")]), rf("body")]));
        r.insert("body".into(), E::Rep(b(E::Or(vec![rf("x"), rf("y")])), 0, None));
        r.insert("x".into(), l("x"));
        r.insert("y".into(), E::Or(vec![l("y"), l("\n")]));
        let mut body = String::new();
        for i in 0..n {
            body.push(if i % 61 == 60 { '\n' } else if rng.chance(1, 5) { 'x' } else { 'y' });
        }
        let t = format!("{}{}{}", "(".repeat(d), body, ")".repeat(d));
        let u = format!("{}{}{}", "(".repeat(d + 1), body, ")".repeat(d));
        (r, t, u)
    } else {
        // rules entered again and again that consume nothing
        r.insert("main".into(), E::Rep(b(E::Or(vec![rf("k"), rf("no"), E::And(vec![rf("e"), E::Class("a\n".into(), vec![])])])), 0, None));
        r.insert("k".into(), l("k"));
        r.insert("no".into(), E::And(vec![E::Not(b(rf("e"))), E::Dot]));
        r.insert("e".into(), l(""));
        let mut t = String::new();
        for i in 0..n + 1500 {
            t.push(if i % 61 == 60 { '\n' } else { 'a' });
        }
        let u = format!("{}!", t);
        (r, t, u)
    }
}

/// made from the seed and the index alone, so that another process makes the same
fn bench(cx: &mut Ctx, rng: &mut Rng) -> Bench {
    let mut c = gen_case_big(rng);
    while c.kind == "far" {
        c = gen_case_big(rng);
    }
    let mut texts: Vec<String> = c.texts.iter().filter(|t| t.len() < 3000).take(4).cloned().collect();
    if texts.is_empty() {
        texts.push("ab".into());
    }
    let al: Vec<char> = c.al.clone();
    // same contents, other memory; same length, other contents
    texts.push(texts[0].clone());
    let t0 = gen::mutate(rng, &texts[0], &al);
    texts.push(t0);
    let rev: String = texts[0].chars().rev().collect();
    texts.push(rev);
    let mut rules = vec![c.rules.clone()];
    rules.push(variant(rng, &c.rules, &al));
    rules.push(variant(rng, &c.rules, &al));
    // some parses that are deep inside for a while, and some long ones
    let heavy = rng.chance(1, 6);
    if heavy {
        let nl = rng.range(1, texts.len());
        let (r, t, u) = deep_case(rng);
        rules.push(r);
        texts.truncate(nl);
        texts.push(t);
        texts.push(u);
    }
    let p = gen::Profile { peg: true, rules: (1, 3), depth: 3, ..gen::profile(rng) };
    let g = pegtext::expressible(&gen::grammar(rng, &p, &al));
    rules.push(g.clone());
    let g2 = pegtext::expressible(&variant(rng, &g, &al));
    let n_parse_texts = texts.len();
    // grammar texts: also used as texts to parse
    let lay = pegtext::random_layout(rng);
    let p1 = pegtext::render(rng, &g, &lay);
    let p2 = pegtext::render(rng, &g2, &pegtext::plain());
    let p3 = gen::mutate(rng, &p1, &['=', ' ', '\'', '(', '\n', '/']);
    texts.extend([p1, p2, p3]);
    texts.push(rng.pick(the_zoo()).peg.clone());
    let mut trees = vec![];
    for _ in 0..2 {
        let names = gen::names(rng);
        let mut b = 60;
        trees.push(gen::tree(rng, &names, 4, 5, &mut b));
    }
    let mut jobs = vec![];
    for s in 0..rules.len() {
        for t in 0..n_parse_texts {
            // the long texts are for their own rule set
            if texts[t].len() > 1000 && heavy && s != 3 {
                continue;
            }
            if let Some(o) = run_model(cx, &rules[s], &texts[t]) {
                jobs.push(Job::Parse { set: s, text: t, debug: false });
                if rng.chance(1, 2) && o.events.trail_work < 1_000_000 {
                    jobs.push(Job::Parse { set: s, text: t, debug: true });
                }
            }
        }
    }
    for t in n_parse_texts..texts.len() {
        jobs.push(Job::Peg { text: t });
    }
    for t in 0..trees.len() {
        jobs.push(Job::Ast { tree: t, names: gen::names(rng) });
    }
    Bench { rules, texts, trees, jobs }
}

fn do_job<T: AsRef<str>>(j: &Job, sets: &[SetOfRules], texts: &[T], trees: &[N]) -> String {
    match j {
        Job::Parse { set, text, debug } => {
            let r = if *debug {
                dynparser::parse_debug(texts[*text].as_ref(), &sets[*set])
            } else {
                dynparser::parse(texts[*text].as_ref(), &sets[*set])
            };
            format!("{:?}", r)
        }
        Job::Peg { text } => match dynparser::rules_from_peg(texts[*text].as_ref()) {
            Ok(r) => format!("{:?}", conv::back_rules(&r)),
            Err(e) => format!("{:?}", e),
        },
        Job::Ast { tree, names } => {
            let n = conv::unnode(&trees[*tree]);
            let l: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            format!("{:?} {:?} {:?} {:?}", n.prune(&l), n.pass_through_except(&l), n.compact(), n.flatten())
        }
    }
}

fn describe(b: &Bench, i: usize) -> String {
    match &b.jobs[i] {
        Job::Parse { set, text, debug } => format!("parse (debug: {}) {}", debug, show(&b.rules[*set], &b.texts[*text])),
        Job::Peg { text } => format!("rules_from_peg of {:?}", b.texts[*text]),
        Job::Ast { tree, names } => format!("tree operations with {:?} on {:?}", names, b.trees[*tree]),
    }
}

/// thousands of levels of rules at the same time in each of several threads
fn c13_very_deep(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let mut r = Rules::new();
    r.insert("main".into(), E::Or(vec![E::And(vec![E::Lit("(".into()), E::Ref("main".into()), E::Lit(")".into())]), E::Ref("x".into())]));
    r.insert("x".into(), E::Rep(Box::new(E::Class("xy\n".into(), vec![])), 0, None));
    let d = rng.range(800, 3200);
    let long = rng.range(1, 20_000);
    let body: String = (0..long).map(|i| if i % 80 == 79 { '\n' } else { 'x' }).collect();
    let texts = [
        format!("{}x{}", "(".repeat(d), ")".repeat(d)),
        format!("{}y{}", "(".repeat(d), ")".repeat(d - 1)),
        format!("({})", body),
        format!("({}!", body),
    ];
    let job = |rs: &SetOfRules, i: usize| {
        let r = dynparser::parse(&texts[i % 4], rs);
        // the tree is as deep as the text
        let s = match &r {
            Ok(t) => format!("Ok {}", t.flatten().len()),
            Err(e) => format!("Err {:?} {} {} {}", e.pos, e.descr, e.line_before.len(), e.line_after.len()),
        };
        drop(r);
        s
    };
    let stack = 256 << 20;
    let first: Vec<String> = crate::ctx::on_stack(stack, || {
        let rs = conv::rules_plain(&r);
        (0..4).map(|i| job(&rs, i)).collect()
    })?;
    cx.nontrivial(&format!("very deep {} {}", d, long));
    let threads = 8;
    let barrier = std::sync::Barrier::new(threads);
    let (r_, job_, first_, barrier_) = (&r, &job, &first, &barrier);
    let bad: Vec<Option<(usize, String)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(s, move || {
                        let rs = conv::rules_plain(r_);
                        let mut bad = None;
                        for r in 0..6 {
                            // all threads wait, whatever they found
                            barrier_.wait();
                            let i = if r < 3 { 0 } else { k + r };
                            let x = target(|| job_(&rs, i)).unwrap_or_else(|e| e);
                            if x != first_[i % 4] {
                                bad = Some((i % 4, x));
                            }
                        }
                        bad
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
    });
    cx.evals += 6 * threads as u64;
    cx.count("results_from_concurrent_very_deep_calls", 6 * threads as u64);
    cx.max("max_levels_of_concurrent_calls", (threads * d) as u64);
    for (i, x) in bad.into_iter().flatten() {
        viol!("in 8 threads at once, {} levels deep: text {} of {:?}\nfirst result {}\nthis result {}", d, i, show(&r, &texts[i]), first[i], x);
    }
    Ok(())
}

/// small calls of every kind; the result as a number
fn tiny_call(k: usize, sets: &[SetOfRules], tree: &dynparser::ast::Node) -> u64 {
    let h = |r: &Result<dynparser::ast::Node, dynparser::parser::Error>| match r {
        Ok(_) => 1,
        Err(e) => 2 + (e.pos.n + 10 * e.pos.row + 100 * e.pos.col + 1000 * e.descr.len() + 100_000 * e.line_before.len() + 1_000_000 * e.parsing_rules.len()) as u64,
    };
    match k {
        0 => h(&dynparser::parse("ab", &sets[0])),
        1 => h(&dynparser::parse("a\nb", &sets[0])),
        2 => h(&dynparser::parse("ab", &sets[1])),
        3 => h(&dynparser::parse_debug("x", &sets[0])),
        4 => h(&dynparser::parse("b", &sets[1])),
        5 => h(&dynparser::parse_debug("ab", &sets[1])),
        6 => {
            let f = tree.compact().prune(&["b"]).pass_through_except(&["a"]).flatten();
            f.len() as u64 + 1000 * (f == tree.flatten()) as u64
        }
        7 => match dynparser::rules_from_peg("main='a'\n") {
            Ok(r) => h(&dynparser::parse("a", &r)) + 10 * r.0.len() as u64,
            Err(_) => 0,
        },
        _ => dynparser::rules_from_peg("main='a\n").is_err() as u64,
    }
}

fn tiny_args() -> (Vec<SetOfRules>, dynparser::ast::Node) {
    use dynparser::ast::Node;
    let sets = vec![
        dynparser::rules! {"main" => dynparser::and!(dynparser::lit!("a"), dynparser::or!(dynparser::lit!("b"), dynparser::ref_rule!("c"))), "c" => dynparser::lit!("c")},
        dynparser::rules! {"main" => dynparser::or!(dynparser::and!(dynparser::lit!("a"), dynparser::ref_rule!("none")), dynparser::lit!("b"))},
    ];
    let v = |s: &str| Node::Val(s.into());
    let r = |s: &str, n: Vec<Node>| Node::Rule((s.into(), n));
    (sets, r("main", vec![r("a", vec![v("x"), v("y")]), r("b", vec![v("z")]), r("c", vec![r("a", vec![v("1")])]), Node::EOF]))
}

/// more calls in one process than any small counter counts
fn c13_many_calls(cx: &mut Ctx) -> Res {
    let (sets, tree) = tiny_args();
    let first: Vec<u64> = (0..9).map(|k| tiny_call(k, &sets, &tree)).collect();
    cx.nontrivial("many calls");
    let (parses, others) = (1usize << 20, 70_000);
    for (from, to, n) in [(0, 6, parses + 10), (6, 7, others), (7, 9, others)] {
        for i in 0..n {
            let k = from + i % (to - from);
            let x = target(|| tiny_call(k, &sets, &tree))?;
            if x != first[k] {
                viol!("call {} of kind {} (see tiny_call in props/hist.rs) in one process gives {}, the first {}", i, k, x, first[k]);
            }
        }
        cx.evals += n as u64;
        cx.count("small_calls_in_one_process", n as u64);
    }
    Ok(())
}

/// more threads than small tables hold: one after another, and all alive at the same time
fn c13_many_threads(cx: &mut Ctx) -> Res {
    let (sets, tree) = tiny_args();
    let first: Vec<u64> = (0..9).map(|k| tiny_call(k, &sets, &tree)).collect();
    cx.nontrivial("many threads");
    let all = |_: usize| -> Result<(), String> {
        let (sets, tree) = tiny_args();
        for (k, f) in first.iter().enumerate() {
            let x = target(|| tiny_call(k, &sets, &tree))?;
            if x != *f {
                viol!("one of many threads: call of kind {} (see tiny_call in props/hist.rs) gives {}, the first {}", k, x, f);
            }
        }
        Ok(())
    };
    let (serial, alive) = (3_000, 700);
    for i in 0..serial {
        crate::ctx::on_stack(1 << 20, || all(i))??;
    }
    let barrier = std::sync::Barrier::new(alive);
    let rs: Vec<Result<(), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..alive)
            .map(|i| {
                let (all, barrier) = (&all, &barrier);
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(s, move || {
                        barrier.wait();
                        let r = all(i);
                        // everybody stays alive until all have finished
                        barrier.wait();
                        r
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
    });
    cx.evals += 9 * (serial + alive) as u64;
    cx.count("threads", (serial + alive) as u64);
    cx.max("max_threads_alive", alive as u64);
    rs.into_iter().collect()
}

fn c13(cx: &mut Ctx, rng: &mut Rng) -> Res {
    if cx.idx % 40_000 == 57 {
        return c13_many_calls(cx);
    }
    if cx.idx % 40_000 == 58 {
        return c13_many_threads(cx);
    }
    if cx.idx % 100 == 37 {
        return c13_very_deep(cx, rng);
    }
    let b = bench(cx, rng);
    if b.jobs.is_empty() {
        return Ok(());
    }
    let n = b.jobs.len();
    cx.nontrivial(&b.rules.iter().zip(&b.texts).map(|(r, t)| key(r, t)).collect::<Vec<_>>().join("\n"));
    let sets: Vec<SetOfRules> = b.rules.iter().map(conv::rules_plain).collect();
    let run = |i: usize| target(|| do_job(&b.jobs[i], &sets, &b.texts, &b.trees)).map_err(|e| format!("{}\n{}", e, describe(&b, i)));
    let diff = |i: usize, how: &str, a: &str, x: &str| -> Res {
        viol!("{}: {}\nfirst result {}\nthis result {}", how, describe(&b, i), a, x)
    };
    let mut first = vec![];
    for i in 0..n {
        first.push(run(i)?);
    }
    cx.evals += n as u64;
    // another order, some jobs several times in a row
    let mut order: Vec<usize> = (0..n).chain(0..n).collect();
    rng.shuffle(&mut order);
    for &i in &order {
        let k = if rng.chance(1, 10) { 3 } else { 1 };
        for _ in 0..k {
            let x = run(i)?;
            cx.eval();
            if x != first[i] {
                return diff(i, "interleaved with other calls", &first[i], &x);
            }
        }
    }
    // other environment variables, other clocks
    for mode in 1..=2 {
        for &i in order.iter().take(n) {
            world::set_mode(mode);
            let x = run(i);
            world::set_mode(0);
            let x = x?;
            cx.eval();
            cx.count("results_with_other_environment_and_clock", 1);
            if x != first[i] {
                return diff(i, ["", "with all environment variables set and clocks that jump", "without environment and with clocks that stand still"][mode as usize], &first[i], &x);
            }
        }
    }
    cx.max("environment_reads_by_the_library", world::ENV_READS.load(std::sync::atomic::Ordering::SeqCst));
    cx.max("clock_reads_by_the_library", world::CLOCK_READS.load(std::sync::atomic::Ordering::SeqCst));
    // one text buffer and one rule-set slot, reused again and again for different contents
    let mut buf: Vec<String> = vec![String::with_capacity(4096)];
    for &i in order.iter().take(n) {
        if let Job::Parse { set, text, debug } = &b.jobs[i] {
            buf[0].clear();
            buf[0].push_str(&b.texts[*text]);
            let fresh = vec![conv::rules_plain(&b.rules[*set])];
            let j = Job::Parse { set: 0, text: 0, debug: *debug };
            let x = target(|| do_job(&j, &fresh, &buf, &b.trees))?;
            cx.eval();
            if x != first[i] {
                return diff(i, "with rebuilt arguments", &first[i], &x);
            }
        }
    }
    // as a part of another text, at any address
    for &i in order.iter().take(n) {
        let text = match &b.jobs[i] {
            Job::Parse { text, .. } | Job::Peg { text } => *text,
            _ => continue,
        };
        let t = &b.texts[text];
        let pad = rng.below(16) + if rng.chance(1, 20) { 4096 } else { 0 };
        let after = ["", "", "x", "\n", t];
        let big = format!("{}{}{}", "é".repeat(pad / 2) + &"(".repeat(pad % 2), t, rng.pick::<&str>(&after));
        let part = &big[pad..pad + t.len()];
        let parts: Vec<&str> = vec![part; text + 1];
        let x = target(|| do_job(&b.jobs[i], &sets, &parts, &b.trees))?;
        cx.eval();
        cx.count("results_with_part_of_a_text", 1);
        if x != first[i] {
            return diff(i, &format!("as a part of a text, after {} bytes", pad), &first[i], &x);
        }
    }
    // in a thread with another name
    if rng.chance(1, 4) {
        let name = match rng.below(6) {
            0 => None,
            1 => Some("main".to_string()),
            2 => Some("worker-7".to_string()),
            3 => Some(String::new()),
            4 => Some("é".repeat(rng.range(1, 40))),
            _ => Some("tokio-runtime-worker".to_string()),
        };
        let (fst, ord, bb) = (&first, &order, &b);
        let bad: Result<Option<(usize, String)>, String> = std::thread::scope(|s| {
            let th = std::thread::Builder::new().stack_size(64 << 20);
            let th = match &name {
                Some(x) => th.name(x.clone()),
                None => th,
            };
            th.spawn_scoped(s, move || {
                let own: Vec<SetOfRules> = bb.rules.iter().map(conv::rules_plain).collect();
                for &i in ord.iter().take(n) {
                    let x = target(|| do_job(&bb.jobs[i], &own, &bb.texts, &bb.trees))?;
                    if x != fst[i] {
                        return Ok(Some((i, x)));
                    }
                }
                Ok(None)
            })
            .expect("spawn")
            .join()
            .expect("named thread")
        });
        cx.evals += n as u64;
        cx.count("results_in_threads_with_a_name", n as u64);
        if let Some((i, x)) = bad? {
            return diff(i, &format!("in a thread with the name {:?}", name), &first[i], &x);
        }
    }
    // concurrently, sharing rule sets and texts
    let orders: Vec<Vec<usize>> = (0..4)
        .map(|_| {
            let mut o: Vec<usize> = (0..n).collect();
            rng.shuffle(&mut o);
            o
        })
        .collect();
    let barrier = std::sync::Barrier::new(4);
    #[allow(unused_imports)]
    use crate::ctx::NotSync;
    let shared = (&Probe::new(&sets)).is_sync();
    cx.count("jobs_with_shared_rule_sets", if shared { n as u64 } else { 0 });
    let results: Vec<Result<Vec<(usize, String)>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .map(|o| {
                let (b, barrier) = (&b, &barrier);
                let own: Vec<SetOfRules> = if shared { vec![] } else { b.rules.iter().map(conv::rules_plain).collect() };
                let theirs = Sent::new((own, &sets));
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let (own, theirs) = theirs.get();
                        let sets = if shared { theirs } else { &own };
                        barrier.wait();
                        let mut v = vec![];
                        for &i in o {
                            v.push((i, target(|| do_job(&b.jobs[i], sets, &b.texts, &b.trees))?));
                            if i % 3 == 0 {
                                std::thread::yield_now();
                            }
                        }
                        Ok(v)
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
    });
    for r in results {
        for (i, x) in r? {
            cx.eval();
            cx.count("results_from_concurrent_calls", 1);
            if x != first[i] {
                return diff(i, "concurrently in 4 threads", &first[i], &x);
            }
        }
    }
    // the same few calls again and again at the same time
    let hot: Vec<usize> = (0..4).map(|_| rng.below(n)).collect();
    let reps = if hot.iter().any(|&i| first[i].len() > 20_000) { 2 } else { 25 };
    let results: Vec<Result<Option<(usize, String)>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|k| {
                let (b, barrier, hot, first) = (&b, &barrier, &hot, &first);
                let own: Vec<SetOfRules> = if shared { vec![] } else { b.rules.iter().map(conv::rules_plain).collect() };
                let theirs = Sent::new((own, &sets));
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let (own, theirs) = theirs.get();
                        let sets = if shared { theirs } else { &own };
                        barrier.wait();
                        for r in 0..reps {
                            let i = hot[(k + r % 2) % 4];
                            let x = target(|| do_job(&b.jobs[i], sets, &b.texts, &b.trees))?;
                            if x != first[i] {
                                return Ok(Some((i, x)));
                            }
                        }
                        Ok(None)
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("worker thread")).collect()
    });
    for r in results {
        cx.evals += reps as u64;
        cx.count("results_from_concurrent_calls", reps as u64);
        if let Some((i, x)) = r? {
            return diff(i, "concurrently in 4 threads, again and again", &first[i], &x);
        }
    }
    // the rule sets are as they were
    for (s, r) in sets.iter().zip(&b.rules) {
        if &conv::back_rules(s) != r {
            viol!("a rule set was modified by parsing:\n{:?}\nwas {:?}", conv::back_rules(s), r);
        }
    }
    // in a fresh process
    if cx.idx % 16 == 3 {
        let exe = std::env::current_exe().expect("exe");
        let mut cmd = std::process::Command::new(exe);
        match cx.idx / 16 % 3 {
            0 => (),
            1 => {
                cmd.env_clear().current_dir("/");
            }
            _ => {
                for v in ["RUST_LOG", "RUST_BACKTRACE", "DEBUG", "TRACE", "LOG", "VERBOSE", "NO_COLOR", "CI", "TERM", "DYNPARSER", "DYNPARSER_DEBUG", "DYNPARSER_TRACE", "PEG_DEBUG", "HOME", "USER"] {
                    cmd.env(v, "1");
                }
                cmd.env("LANG", "tr_TR.UTF-8").env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Kathmandu");
            }
        }
        let out = cmd
            .args(["aux", "digest", &format!("{}", cx.seed.wrapping_mul(1 << 20).wrapping_add(cx.idx))])
            .output()
            .expect("digest process");
        let txt = String::from_utf8_lossy(&out.stdout);
        let got: BTreeMap<usize, u64> = txt
            .lines()
            .filter_map(|l| {
                let (a, b) = l.split_once(' ')?;
                Some((a.parse().ok()?, b.parse().ok()?))
            })
            .collect();
        if got.len() != n {
            viol!("the same calls in a fresh process: {} results of {} ({:?})", got.len(), n, out.status);
        }
        for i in 0..n {
            cx.count("results_from_fresh_processes", 1);
            if got[&i] != hash_str(&first[i]) {
                return diff(i, "in a fresh process, in another order", &first[i], "differs");
            }
        }
    }
    cx.sample(|| describe(&b, n / 2));
    Ok(())
}

pub fn digest_main(code: u64) -> i32 {
    crate::ctx::install_hook();
    let (seed, idx) = (code >> 20, code & ((1 << 20) - 1));
    let h = std::thread::Builder::new()
        .stack_size(1 << 28)
        .spawn(move || {
            let mut cx = Ctx { prop: "C13".into(), seed, idx, ..Default::default() };
            let mut rng = Rng::for_case(seed, "C13", idx);
            let b = bench(&mut cx, &mut rng);
            let sets: Vec<SetOfRules> = b.rules.iter().map(conv::rules_plain).collect();
            for i in (0..b.jobs.len()).rev() {
                println!("{} {}", i, hash_str(&do_job(&b.jobs[i], &sets, &b.texts, &b.trees)));
            }
        })
        .expect("spawn");
    match h.join() {
        Ok(_) => 0,
        Err(_) => 2,
    }
}
