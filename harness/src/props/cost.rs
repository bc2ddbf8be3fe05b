//! C18: no repeated work, no memory kept. Measured with the counting allocator.

use super::parse::{gen_case, show};
use super::{Prop, SEMANTICS};
use crate::alloc;
use crate::ctx::{target, Ctx, Res};
use crate::model::{self, Limits, Rules, E};
use crate::rng::Rng;
use crate::{conv, gen, pegtext, viol};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C18",
        case: c18,
        quick: 24_000,
        thorough: 600_000,
        shards: 8,
        cpu_limit: 40,
        mem_limit: 10,
        min_distinct: 300,
        rule: "case = (a) grammar and text as for C01, or a chain of 6-40 nested operators or rules with a text that makes every level backtrack, allocations of the parse against the evaluations of the model; or (b) a batch of calls repeated for several rounds with the same and with new inputs, live bytes before and after; non-trivial: the parse made more than 50 evaluations, or the batch is new; distinct by content",
        assumptions: SEMANTICS,
    }]
}

/// allocations per evaluation: the largest ratio seen on the unchanged tree is about a fifth
/// of this (max_allocations_per_1000_steps in the evidence)
const PER_STEP: u64 = 60;
const FIXED: u64 = 400;

/// operators nested so that anything evaluated twice per level costs 2^depth
fn nested(rng: &mut Rng, depth: usize) -> (Rules, String) {
    let mut r = Rules::new();
    let l = |s: &str| E::Lit(s.into());
    let mut e = rng.pick(&[l("x"), E::Dot, E::Class("x".into(), vec![]), E::And(vec![l("x"), l("")])]).clone();
    let single = rng.below(8);
    let one_kind = rng.chance(1, 2);
    let mut names = 0;
    for _ in 0..depth {
        let kind = if one_kind { single } else { rng.below(8) };
        e = match kind {
            0 => E::And(vec![E::Lit(String::new()), e]),
            1 => E::Or(vec![l("@"), e]),
            2 => E::Or(vec![e, l("@")]),
            3 => E::Not(Box::new(E::Not(Box::new(e)))),
            4 => E::Rep(Box::new(e), 0, Some(1)),
            5 => E::Rep(Box::new(e), 1, Some(1)),
            6 => E::And(vec![e, E::Rep(Box::new(l("@")), 0, None)]),
            _ => {
                names += 1;
                let n = format!("n{}", names);
                r.insert(n.clone(), e);
                E::Ref(n)
            }
        };
    }
    // negations consume nothing: match the text afterwards anyway
    let tail = E::Rep(Box::new(E::Dot), 0, None);
    r.insert("main".into(), if rng.chance(1, 2) { E::And(vec![e, tail]) } else { e });
    let t = rng.pick::<&str>(&["x", "x", "y", "", "xx"]).to_string();
    (r, t)
}

/// rules that call themselves, nested by the text
fn recursive(rng: &mut Rng) -> (Rules, String) {
    let l = |s: &str| E::Lit(s.into());
    let m = || E::Ref("main".into());
    let d = rng.range(5, 40);
    let mut r = Rules::new();
    let body = match rng.below(5) {
        0 => E::Or(vec![E::And(vec![l("("), m(), l(")")]), l("x")]),
        1 => E::And(vec![l("("), E::Or(vec![m(), l("x")]), l(")")]),
        2 => E::And(vec![l("("), E::Rep(Box::new(m()), 0, Some(1)), l(")")]),
        3 => E::And(vec![l("("), E::Rep(Box::new(m()), 0, None), l(")")]),
        _ => E::Or(vec![l("x"), E::And(vec![E::Not(Box::new(l("x"))), l("("), m(), E::Or(vec![l(")"), E::Err("missing".into())])])]),
    };
    r.insert("main".into(), body);
    let close = if rng.chance(1, 4) { rng.below(d + 1) } else { d };
    (r, format!("{}{}{}", "(".repeat(d), rng.pick::<&str>(&["x", "", "y"]), ")".repeat(close)))
}

fn work(cx: &mut Ctx, rules: &Rules, text: &str) -> Res {
    let cs: Vec<char> = text.chars().collect();
    let lim = Limits { steps: 60_000.max(40 * cs.len() as u64), depth: 400 };
    let steps = match model::run(rules, &cs, &lim) {
        Ok(o) => o.events.steps + o.events.rules_entered,
        Err(_) => return Ok(()),
    };
    let rs = conv::rules_plain(rules);
    let sh = |e: String| format!("{}\n{}", e, show(rules, text));
    let a0 = alloc::allocs();
    let r = target(|| dynparser::parse(text, &rs)).map_err(sh)?;
    let n = alloc::allocs() - a0;
    drop(r);
    cx.eval();
    cx.count("allocations", n);
    cx.count("evaluations_by_the_model", steps);
    if steps > 50 {
        cx.nontrivial(&super::parse::key(rules, text));
        cx.max("max_allocations_per_1000_steps", n * 1000 / steps);
    } else {
        cx.max("max_allocations_of_short_parses", n);
    }
    if n > PER_STEP * steps + FIXED {
        return Err(sh(format!("{} allocations for {} evaluations", n, steps)));
    }
    Ok(())
}

/// allocations made for a grammar text against the evaluations its documented grammar needs
fn work_peg(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let t = match rng.below(6) {
        0..=2 => {
            let d = rng.range(3, 34);
            let opens = ["(", "( ", "('b' / ", "('c' ", "(", "!(", "(!'d' ", "(.* / "];
            let closes = [")", ")*", ")?", ")+", " )", ") 'e'", " / 'f')", ")"];
            let (o, c) = (*rng.pick(&opens), *rng.pick(&closes));
            let same = rng.chance(1, 2);
            let mut s = String::from("main = ");
            for _ in 0..d {
                s.push_str(if same { o } else { rng.pick::<&str>(&opens) });
            }
            s.push_str(rng.pick::<&str>(&["'x'", "a.b", "[a-z]", "\"\\n\"", "error('m')", "."]));
            let k = if rng.chance(1, 6) { rng.below(d + 1) } else { d };
            for _ in 0..k {
                s.push_str(if same { c } else { rng.pick::<&str>(&closes) });
            }
            s.push('\n');
            s
        }
        3 => {
            let d = rng.range(2, 24);
            let mut s = String::new();
            for i in 0..d {
                s.push_str(&format!("m{} {{\n", i));
                if rng.chance(1, 3) {
                    s.push_str("r = 'a'\n");
                }
            }
            s.push_str("main = 'a'\n");
            s.push_str(&"}\n".repeat(if rng.chance(1, 6) { d - 1 } else { d }));
            s
        }
        _ => super::peg::corpus_text(rng),
    };
    let ev = match pegtext::meaning(super::parse::the_meta(), &t) {
        Some((_, ev)) => ev,
        None => return Ok(()),
    };
    let steps = ev.steps + ev.rules_entered;
    cx.note(|| t.clone());
    let a0 = alloc::allocs();
    let r = target(|| dynparser::rules_from_peg(&t)).map_err(|e| format!("{}\ngrammar text {:?}", e, t))?;
    let n = alloc::allocs() - a0;
    drop(r);
    cx.eval();
    cx.count("grammar_texts_measured", 1);
    cx.nontrivial(&t);
    cx.max("max_allocations_per_1000_steps_grammar_texts", n * 1000 / steps);
    // (the rules of the grammar of grammars are built anew)
    if n > PER_STEP * steps + 20_000 {
        viol!("{} allocations for a grammar text that needs {} evaluations\ngrammar text {:?}", n, steps, t);
    }
    Ok(())
}

/// memory asked for per evaluation stays the same however long the text is (in short lines:
/// each failure holds a copy of the line it is in)
fn volume(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let l = |s: &str| E::Lit(s.into());
    let mut r = Rules::new();
    let n_items = rng.range(1, 4);
    let mut items: Vec<E> = (0..n_items).map(|_| vol_item(rng, 3)).collect();
    if rng.chance(1, 3) {
        items.insert(rng.below(n_items), E::Ref("r2".into()));
    }
    items.push(E::Dot);
    let body = E::Rep(Box::new(E::Or(items)), 0, None);
    r.insert("r1".into(), vol_item(rng, 2));
    r.insert("r2".into(), E::Rep(Box::new(vol_item(rng, 1)), 1, rng.pick(&[None, Some(3)]).clone()));
    let main = match rng.below(4) {
            0 => E::And(vec![body, E::Eof]),
            1 => E::Rep(Box::new(E::And(vec![body, l("")])), 1, None),
            2 => {
                r.insert("body".into(), body);
                E::Ref("body".into())
            }
            _ => body,
        };
    r.insert("main".into(), main);
    let piece: String = (0..rng.range(3, 30)).map(|_| *rng.pick(&['a', 'b', 'c', ' ', '1', 'é', '\n'])).chain(['\n']).collect();
    let text = |n: usize| -> String { piece.chars().cycle().take(n).collect() };
    let rs = conv::rules_plain(&r);
    let mut per = vec![];
    for &n in &[1_500usize, 12_000] {
        let t = text(n);
        let cs: Vec<char> = t.chars().collect();
        let lim = Limits { steps: 3_000_000, depth: 400 };
        let steps = match model::run(&r, &cs, &lim) {
            Ok(o) => o.events.steps + o.events.rules_entered,
            Err(_) => return Ok(()),
        };
        let v0 = alloc::volume();
        let x = target(|| dynparser::parse(&t, &rs)).map_err(|e| format!("{}\n{}", e, show(&r, &text(60))))?;
        let v = alloc::volume() - v0;
        drop(x);
        per.push((v, steps));
    }
    cx.eval();
    cx.count("volumes_compared", 1);
    let (a, b) = (per[0].0 as f64 / per[0].1 as f64, per[1].0 as f64 / per[1].1 as f64);
    cx.max("max_bytes_per_evaluation", b as u64);
    if a > 1.0 {
        cx.max("max_growth_of_bytes_per_evaluation_percent", (b / a * 100.0) as u64);
    }
    // (two blocks that grow by doubling may be full in one case and half empty in the other)
    if b > 3.0 * a + 100.0 {
        viol!(
            "{} bytes were asked for in {} evaluations on 1500 characters, but {} bytes in {} evaluations on 12000 characters\n{}",
            per[0].0, per[0].1, per[1].0, per[1].1, show(&r, &format!("{} ... (these lines again and again)", text(60)))
        );
    }
    Ok(())
}

fn vol_item(rng: &mut Rng, depth: usize) -> E {
    let l = |s: &str| E::Lit(s.into());
    if depth == 0 {
        return match rng.below(5) {
            0 => E::Class("ab1".into(), vec![]),
            1 => E::Class("".into(), vec![('a', 'c')]),
            2 => l("a"),
            3 => l("ab"),
            _ => l("\n"),
        };
    }
    match rng.below(8) {
        0 | 1 => E::And((0..rng.range(2, 4)).map(|_| vol_item(rng, depth - 1)).collect()),
        2 => E::Or((0..rng.range(2, 4)).map(|_| vol_item(rng, depth - 1)).collect()),
        3 => E::Rep(Box::new(vol_item(rng, depth - 1)), 1, None),
        4 => E::And(vec![vol_item(rng, depth - 1), E::Rep(Box::new(vol_item(rng, 0)), 0, Some(1))]),
        5 => E::And(vec![E::Not(Box::new(vol_item(rng, depth - 1))), E::Dot]),
        6 if depth == 3 => E::Ref("r1".into()),
        _ => vol_item(rng, 0),
    }
}

/// an operand that costs the same (a lot) wherever it is evaluated in these texts
fn heavy(rng: &mut Rng) -> (E, bool) {
    let l = |s: &str| E::Lit(s.into());
    let n = 1500;
    let (end, ok) = match rng.below(3) {
        0 => (l("#"), false),
        1 => (l(""), true),
        _ => (E::Class("ab".into(), vec![]), true),
    };
    let body = match rng.below(3) {
        0 => vec![E::And((0..n).map(|_| l("")).collect()), end],
        1 => {
            let mut v: Vec<E> = (0..n).map(|_| l("#")).collect();
            v.push(end);
            vec![E::Or(v)]
        }
        _ => vec![E::And((0..n / 2).map(|_| E::Not(Box::new(l("#")))).collect()), end],
    };
    let mut v = vec![E::Rep(Box::new(l("@")), 0, None)];
    v.extend(body);
    (E::And(v), ok)
}

/// small expressions around the heavy one
fn around(rng: &mut Rng, depth: usize, heavy: &mut usize) -> E {
    if depth == 0 || rng.chance(1, 6) {
        return match rng.below(6) {
            0 | 1 | 2 if *heavy > 0 => {
                *heavy -= 1;
                E::Ref(model::HEAVY.into())
            }
            3 => E::Lit(rng.pick::<&str>(&["a", "b", "ab", ""]).to_string()),
            4 => E::Class("a".into(), vec![('b', 'b')]),
            _ => E::Ref(rng.pick::<&str>(&["r1", "r2"]).to_string()),
        };
    }
    let n = rng.range(1, 3);
    match rng.below(8) {
        0 | 1 => E::And((0..n).map(|_| around(rng, depth - 1, heavy)).collect()),
        2 | 3 => E::Or((0..n).map(|_| around(rng, depth - 1, heavy)).collect()),
        4 => E::Not(Box::new(around(rng, depth - 1, heavy))),
        _ => {
            let (a, b) = *rng.pick(&[(0, None), (1, None), (0, Some(1)), (1, Some(1)), (2, Some(3)), (0, Some(2)), (2, None)]);
            E::Rep(Box::new(around(rng, depth - 1, heavy)), a, b)
        }
    }
}

fn allocs_of(text: &str, rules: &Rules) -> Result<u64, String> {
    let rs = conv::rules_plain(rules);
    let a0 = alloc::allocs();
    let r = target(|| dynparser::parse(text, &rs))?;
    let n = alloc::allocs() - a0;
    drop(r);
    Ok(n)
}

/// an operand is evaluated exactly as often as the model says
fn operand(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let l = |s: &str| E::Lit(s.into());
    let (h, _) = heavy(rng);
    let tail = || E::Rep(Box::new(E::Dot), 0, None);
    // what one evaluation costs
    let mut base = Rules::new();
    base.insert(model::HEAVY.into(), h.clone());
    base.insert("main".into(), E::And(vec![l("<"), E::Or(vec![E::Ref(model::HEAVY.into()), l("")]), tail()]));
    let one = allocs_of("<ab>", &base)?;
    base.insert("main".into(), E::And(vec![l("<"), E::Or(vec![l("#"), l("")]), tail()]));
    let none = allocs_of("<ab>", &base)?;
    let cost = one.saturating_sub(none);
    if cost < 1000 {
        // a parser that allocates (nearly) nothing: this way of counting does not apply
        cx.count("operand_counts_not_applicable", 1);
        return Ok(());
    }
    for _ in 0..4 {
        let mut rules = base.clone();
        let mut left = rng.range(1, 3);
        let d = rng.range(1, 4);
        let mut e = around(rng, d, &mut left);
        if left > 1 && !matches!(e, E::Ref(ref n) if n == model::HEAVY) && rng.chance(2, 3) {
            let x = E::Ref(model::HEAVY.into());
            e = match rng.below(5) {
                0 => E::And(vec![x, e]),
                1 => E::Or(vec![e, x]),
                2 => E::And(vec![e, x]),
                3 => E::Or(vec![x, e]),
                _ => E::And(vec![E::Not(Box::new(x)), e]),
            };
        }
        rules.insert("main".into(), E::And(vec![l("<"), e, tail()]));
        let mut some = 1;
        let r1 = around(rng, 2, &mut some);
        rules.insert("r1".into(), r1);
        rules.insert("r2".into(), E::Or(vec![l("ba"), l("a")]));
        let k = rng.below(5);
        let text: String = format!("<{}>", (0..k).map(|_| *rng.pick(&['a', 'b'])).collect::<String>());
        let cs: Vec<char> = text.chars().collect();
        let lim = Limits { steps: 60_000, depth: 400 };
        let ev = match model::run(&rules, &cs, &lim) {
            Ok(o) => o.events,
            Err(_) => continue,
        };
        let times = ev.heavy_entered;
        if times > 12 {
            continue;
        }
        // steps elsewhere
        let inner = match &h {
            E::And(_) => {
                let mut r = Rules::new();
                r.insert("main".into(), h.clone());
                match model::run(&r, &['a'], &lim) {
                    Ok(o) => o.events.steps,
                    Err(_) => continue,
                }
            }
            _ => continue,
        };
        let other = ev.steps.saturating_sub(times * inner) + ev.rules_entered;
        let n = allocs_of(&text, &rules).map_err(|e| format!("{}\n{}", e, show(&rules, &text)))?;
        cx.eval();
        cx.count("operand_evaluations_counted", times);
        if times > 0 {
            cx.nontrivial(&super::parse::key(&rules, &text));
        }
        let spare = n.saturating_sub(times * cost) * 100 / cost;
        cx.max("max_percent_of_an_evaluation_unexplained", spare);
        if n > times * cost + cost * 4 / 10 + times * cost / 50 + 20 * other + 300 {
            rules.remove(model::HEAVY);
            viol!(
                "the operand {:?} has to be evaluated {} times at {} allocations each, the parse made {} ({} evaluations elsewhere)\n{}",
                model::HEAVY, times, cost, n, other, show(&rules, &text)
            );
        }
    }
    Ok(())
}

fn batch(rules: &Rules, texts: &[String], peg: &[String]) -> Result<(), String> {
    let rs = conv::rules_plain(rules);
    for t in texts {
        let r = target(|| dynparser::parse(t, &rs))?;
        let d = target(|| dynparser::parse_debug(t, &rs))?;
        if let Ok(n) = &r {
            let _ = target(|| (n.prune(&["a"]), n.pass_through_except(&["a"]), n.compact(), n.flatten()))?;
        }
        drop((r, d));
    }
    for p in peg {
        let r = target(|| dynparser::rules_from_peg(p))?;
        if let Ok(r) = r {
            let s = target(|| dynparser::peg::gcode::rust_from_rules(&r))?;
            drop(s);
        }
    }
    Ok(())
}

fn c18(cx: &mut Ctx, rng: &mut Rng) -> Res {
    match rng.below(10) {
        8 | 9 => operand(cx, rng)?,
        4 if rng.chance(1, 12) => volume(cx, rng)?,
        0..=2 => {
            let c = gen_case(rng);
            for t in &c.texts {
                work(cx, &c.rules, t)?;
            }
            cx.sample(|| show(&c.rules, &c.texts[0]));
        }
        3 | 4 => {
            let d = rng.range(6, 40);
            let (r, t) = nested(rng, d);
            cx.count("nested_operator_chains", 1);
            work(cx, &r, &t)?;
        }
        5 if rng.chance(1, 2) => work_peg(cx, rng)?,
        5 => {
            let (r, t) = recursive(rng);
            cx.count("nested_texts", 1);
            work(cx, &r, &t)?;
        }
        _ => {
            // memory
            let mut sets: Vec<(Rules, Vec<String>, Vec<String>)> = vec![];
            for _ in 0..6 {
                let c = gen_case(rng);
                let mut texts = vec![];
                for t in c.texts {
                    if t.len() < 2000 && super::parse::run_model(cx, &c.rules, &t).is_some() {
                        texts.push(t);
                    }
                }
                let p = gen::Profile { peg: true, rules: (1, 2), depth: 3, ..gen::profile(rng) };
                let g = pegtext::expressible(&gen::grammar(rng, &p, &c.al));
                let lay = pegtext::random_layout(rng);
                let p1 = pegtext::render(rng, &g, &lay);
                let p2 = gen::mutate(rng, &p1, &['=', '(', '\'', ' ']);
                sets.push((c.rules, texts, vec![p1, p2]));
            }
            // warm up: whatever is allocated once per process or thread
            batch(&sets[0].0, &sets[0].1, &sets[0].2)?;
            let t0 = alloc::live();
            for round in 0..4 {
                batch(&sets[0].0, &sets[0].1, &sets[0].2)?;
                cx.eval();
                let t1 = alloc::live();
                if t1 != t0 {
                    viol!(
                        "after {} rounds of the same calls {} more bytes are in use\n{}\ngrammar texts {:?}",
                        round + 1, t1 - t0, show(&sets[0].0, &format!("{:?}", sets[0].1)), sets[0].2
                    );
                }
            }
            for s in &sets[1..] {
                batch(&s.0, &s.1, &s.2)?;
                cx.eval();
                let t1 = alloc::live();
                if t1 != t0 {
                    viol!(
                        "after calls with new inputs {} more bytes are in use\n{}\ngrammar texts {:?}",
                        t1 - t0, show(&s.0, &format!("{:?}", s.1)), s.2
                    );
                }
            }
            // threads leave nothing behind either
            if rng.chance(1, 4) {
                let small = |s: &(Rules, Vec<String>, Vec<String>)| -> Res { crate::ctx::on_stack(64 << 20, || batch(&s.0, &s.1, &s.2))? };
                small(&sets[0])?;
                cx.count("batches_in_threads", 3);
                let t0 = alloc::live();
                for k in 1..4 {
                    small(&sets[0])?;
                    cx.eval();
                    let t1 = alloc::live();
                    if t1 != t0 {
                        viol!(
                            "after the same calls in {} threads, all ended, {} more bytes are in use\n{}\ngrammar texts {:?}",
                            k, t1 - t0, show(&sets[0].0, &format!("{:?}", sets[0].1)), sets[0].2
                        );
                    }
                }
            }
            cx.count("batches", 9);
            cx.nontrivial(&format!("{:?}{:?}", sets[0].0, sets[0].1));
        }
    }
    Ok(())
}
