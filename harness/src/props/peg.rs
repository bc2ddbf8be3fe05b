//! C06 denotation of PEG text, C07 accepted syntax, C17 literals and classes.

use super::parse::{check_coords, parser_error, run_model, the_meta, the_zoo};
use super::Prop;
use crate::ctx::{target, Ctx, Res};
use crate::model::{class_has, Rules, E};
use crate::rng::Rng;
use crate::{conv, gen, pegtext, viol};
use dynparser::parser::expression::SetOfRules;
use dynparser::parser::ErrPriority;

const META_ASM: &[&str] = &[
    "the model copy of the documented grammar of grammars (harness/src/pegtext.rs) is right",
    "grammar texts need at most 3,000,000 model steps",
];

pub fn props() -> Vec<Prop> {
    let p = |id, case, quick, thorough, rule| Prop {
        id,
        case,
        quick,
        thorough,
        shards: 8,
        cpu_limit: 20,
        mem_limit: 10,
        min_distinct: 300,
        rule,
        assumptions: META_ASM,
    };
    vec![
        p("C06", c06, 16_000, 300_000, "case = random or realistic grammar written in a random layout (line ends, comments, redundant parentheses, quotes, escapes, modules, duplicated rules); the rules obtained are compared with the ones the text denotes, rule by rule, and by parsing texts with both; non-trivial: all, distinct by grammar text"),
        p("C07", c07, 24_000, 500_000, "case = grammar text: rendered grammar, mutated, truncated, spliced, or token soup; plus twelve texts per case of a systematic sweep (all pairs of signs at 17 places of small grammars, all triples at 4 places, every character at 17 places); verdict compared with the documented grammar; non-trivial: texts that are not equal to a rendered grammar, or rejected; distinct by text"),
        p("C17", c17, 20_000, 300_000, "cases 0..4351 sweep all Unicode characters in blocks of 256 through both quotings, classes, ranges, messages and dot; case 4352 all \\0xHH; the next 240 all pairs of ASCII characters as literals, classes and ranges, and letters with each combining accent; the next 401 all groups of characters that case folding or compatibility normalization makes the same, and all pairs of units such as CR LF; then every \\0xHH with another digit after it and all triples of escapes; the rest are random spellings with escapes and look-alikes, and random classes; non-trivial: all, distinct by grammar text"),
    ]
}

fn grammar(rng: &mut Rng) -> Rules {
    if rng.chance(1, 10) {
        return rng.pick(the_zoo()).rules.clone();
    }
    if rng.chance(1, 8) {
        return pegtext::expressible(&gen::idioms(rng));
    }
    if rng.chance(1, 40) {
        return pegtext::expressible(&gen::big_case(rng).0);
    }
    if rng.chance(1, 16) {
        return pegtext::expressible(&gen::wide_case(rng).0);
    }
    let al = gen::alphabet(rng);
    let p = gen::Profile { peg: true, names: if rng.chance(1, 3) { 2 } else { 0 }, ..gen::profile(rng) };
    pegtext::expressible(&gen::grammar(rng, &p, &al))
}

fn token_soup(rng: &mut Rng) -> String {
    let toks = [
        "main", " ", " ", "=", "'a'", "\"b\"", "/", "*", "+", "?", "!", "(", ")", ".", "[a-z]", "[ab]", "\n", "\n", "\r\n",
        "//c\n", "/*c*/", "error", "('m')", "{", "}", "m", "_", "a.b", ".x", "'", "\"", "\\", "[", "]", "-", "\t", "é", "0",
        " = ", "\nmain = ", "error('x')", " / ", "\u{85}", "\u{a0}", "\r",
    ];
    let n = 1 + rng.log(25);
    let mut s = String::new();
    if rng.chance(1, 2) {
        s.push_str("main = ");
    }
    for _ in 0..n {
        s.push_str(rng.pick::<&str>(&toks));
    }
    if rng.chance(2, 3) {
        s.push('\n');
    }
    s
}

fn with_main(rs: &Rules, main: &str) -> Rules {
    let mut r = rs.clone();
    if main != "main" {
        r.insert("main".into(), E::Ref(main.into()));
    }
    r
}

/// do the real rules behave as the expected ones? on n texts, starting from the given rule
pub fn differential(cx: &mut Ctx, rng: &mut Rng, exp: &Rules, got: &Rules, start: &str, n: usize) -> Res {
    let e = with_main(exp, start);
    let real_src = with_main(got, start);
    let real: SetOfRules = conv::rules_plain(&real_src);
    let al = crate::zoo::alphabet(&e);
    for _ in 0..n {
        let t = if rng.chance(1, 3) { gen::text(rng, &real_src, &al) } else { gen::text(rng, &e, &al) };
        let o = match run_model(cx, &e, &t) {
            Some(o) => o,
            None => continue,
        };
        cx.count("behaviours_compared", 1);
        let r = target(|| dynparser::parse(&t, &real))?;
        match (&o.result, &r) {
            (Ok(a), Ok(b)) => {
                if !conv::same(a, b) {
                    viol!("with the rules of the text {:?} gives the tree {:?}, expected {:?}", t, b, a);
                }
            }
            (Err(f), Err(x)) => {
                if f.pos != x.pos.n || f.critical != (x.priority == ErrPriority::Critical) {
                    viol!("with the rules of the text {:?} fails at {} ({}), expected at {} ({:?})", t, x.pos.n, x.descr, f.pos, f.what);
                }
            }
            _ => viol!("with the rules of the text {:?} gives {:?}, expected {:?}", t, r, o.result),
        }
    }
    Ok(())
}

/// rules obtained against rules denoted
fn compare(cx: &mut Ctx, rng: &mut Rng, exp: &Rules, got: &Rules, text: &str) -> Res {
    let f = |e: String| format!("{}\ngrammar text {:?}", e, text);
    let en: Vec<&String> = exp.keys().collect();
    let gn: Vec<&String> = got.keys().collect();
    if en != gn {
        viol!("rules {:?}, expected {:?}\ngrammar text {:?}", gn, en, text);
    }
    let ne = pegtext::normal(exp);
    let ng = pegtext::normal(got);
    for n in en {
        cx.count("rules_compared", 1);
        if ne[n] != ng[n] {
            // written differently: does it behave differently?
            cx.count("rules_written_differently", 1);
            differential(cx, rng, exp, got, n, 400)
                .map_err(|e| f(format!("{}\nrule {}: {:?}\nexpected {:?}", e, n, got[n], exp[n])))?;
        }
    }
    if exp.contains_key("main") {
        differential(cx, rng, exp, got, "main", 2).map_err(f)?;
    }
    Ok(())
}

pub fn random_peg_grammar(rng: &mut Rng) -> Rules {
    grammar(rng)
}

/// one grammar text, good or bad
pub fn corpus_text(rng: &mut Rng) -> String {
    match rng.below(10) {
        0 | 1 => token_soup(rng),
        2..=4 => {
            // spellings
            let pieces = [
                "\\", "r", "n", "\n", "\r", "\t", "\\\\", "\\\"", "\\0x41", "\\0xFf", "\\0xGG", "\\0x", "A", "F", "7", "a", "'", "é",
                "]", "[", "-", "a-z", "-]", "//", "/*", "*/", "\n", "\r\n", " ", ".", "\"", "0", "x", "_", "Z", "9", "z",
            ];
            let n = rng.log(8);
            let mut raw: String = (0..n).map(|_| rng.pick::<&str>(&pieces).to_string()).collect();
            if rng.chance(1, 3) {
                raw.push_str(&format!("\\0x{:02X}", rng.below(256)));
            }
            if rng.chance(1, 4) {
                raw.push(gen::any_char(rng));
            }
            let (a, z) = *rng.pick(&[
                ("main = \"", "\"\n"), ("main = '", "'\n"), ("main = [", "]\n"), ("", " = 'a'\n"), ("main = ", "\n"), ("main = error(\"", "\")\n"),
                ("main = 'a' ", " 'b'\n"), ("/*", "*/ main = 'a'\n"), ("//", "\nmain = 'a'\n"), ("m", " { main = 'a'\n }\n"), ("main = 'a' //", "\n"),
            ]);
            format!("{}{}{}", a, raw, z)
        }
        k => {
            let al: Vec<char> = " \n\r='\"/*+?!().[]-{}_aerro\\0xé,\t#<".chars().collect();
            let g = grammar(rng);
            let mut lay = pegtext::random_layout(rng);
            if g.len() > 6 {
                lay.wild = lay.wild.min(1);
            }
            let t = pegtext::render(rng, &g, &lay);
            match k {
                5 => t,
                6 => {
                    let n = t.chars().count();
                    t.chars().take(rng.below(n + 1)).collect()
                }
                7 => gen::oddity(rng, &t),
                _ => gen::mutate(rng, &t, &al),
            }
        }
    }
}

fn c06(cx: &mut Ctx, rng: &mut Rng) -> Res {
    if rng.chance(1, 5) {
        return c06_levels(cx, rng);
    }
    if rng.chance(1, 400) {
        return c06_large(cx, rng);
    }
    let g = grammar(rng);
    if g.is_empty() {
        return Ok(());
    }
    // the same grammar in several layouts
    for _ in 0..2 {
        let lay = pegtext::random_layout(rng);
        let t = pegtext::render(rng, &g, &lay);
        let m = match pegtext::meaning(the_meta(), &t) {
            Some((m, ev)) => {
                cx.count("model_steps", ev.steps);
                m
            }
            None => {
                cx.count("skipped_too_long", 1);
                continue;
            }
        };
        let exp = match m {
            Ok(e) => e,
            Err(f) => panic!("the renderer wrote a text that is no grammar, at {} {:?}\n{}\n{:?}", f.pos, f.what, t, g),
        };
        if pegtext::normal(&exp) != pegtext::normal(&g) {
            panic!("the renderer wrote another grammar\n{}\n{:?}\n{:?}", t, g, exp);
        }
        cx.eval();
        cx.nontrivial(&t);
        cx.count("texts_with_comments", (t.contains("//") || t.contains("/*")) as u64);
        cx.count("texts_with_modules", lay.modules as u64);
        cx.count("texts_with_duplicates", lay.dup as u64);
        cx.count("texts_with_cr", t.contains('\r') as u64);
        cx.max("max_text_chars", t.chars().count() as u64);
        cx.note(|| t.clone());
        let got = match target(|| dynparser::rules_from_peg(&t)).map_err(|e| format!("{}\ngrammar text {:?}", e, t))? {
            Ok(r) => conv::back_rules(&r),
            Err(e) => viol!("valid grammar text rejected: {}\ngrammar text {:?}", e, t),
        };
        compare(cx, rng, &exp, &got, &t)?;
        cx.sample(|| t.clone());
    }
    Ok(())
}

/// large texts, whose meaning is known by construction
fn c06_large(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let size = |rng: &mut Rng, max: usize| -> usize {
        let n = match rng.below(3) {
            0 => (1usize << rng.range(8, 17)) + rng.below(5) - 2,
            1 => rng.range(max / 4, max),
            _ => 1 + rng.log(max),
        };
        n.clamp(1, max)
    };
    // text of literals, classes and comments; with line ends, since long lines take long
    let body = |rng: &mut Rng, n: usize| -> String {
        let c = *rng.pick(&['a', 'x', 'é', '😀', '.']);
        let lines = rng.chance(1, 2);
        (0..n)
            .map(|i| match i % 61 {
                60 if lines || n > 3000 => '\n',
                k if k % 7 == 3 => char::from(b'0' + (i / 61 % 10) as u8),
                _ => c,
            })
            .collect()
    };
    let lit = |s: String| E::Lit(s);
    let mut exp = Rules::new();
    let mut t = String::new();
    let what;
    match rng.below(7) {
        0 => {
            let n = size(rng, 6_000);
            what = "rules";
            for i in 0..n {
                let (nm, e) = if i == 0 { ("main".to_string(), E::Ref(format!("r{}", n / 2))) } else { (format!("r{}", i), lit(format!("v{}", i))) };
                match &e {
                    E::Lit(s) => t.push_str(&format!("{} = '{}'\n", nm, s)),
                    _ => t.push_str(&format!("{} = r{}\n", nm, n / 2)),
                }
                exp.insert(nm, e);
            }
        }
        1 => {
            let n = size(rng, 70_000);
            what = "literal";
            let s = body(rng, n);
            let q = rng.chance(1, 2);
            t = if q { format!("main = \"{}\" 'z'\n", s) } else { format!("main = '{}' 'z'\n", s) };
            exp.insert("main".into(), E::And(vec![lit(s), lit("z".into())]));
        }
        2 | 3 => {
            let or = rng.chance(1, 2);
            let n = size(rng, 4_000).max(2);
            what = if or { "alternatives" } else { "items" };
            t.push_str("main = ");
            let mut v = vec![];
            for i in 0..n {
                if i > 0 {
                    t.push_str(match (or, i % 8) {
                        (true, 0) => "\n / ",
                        (true, _) => " / ",
                        (false, 0) => "\n ",
                        (false, _) => " ",
                    });
                }
                let x = E::Lit(format!("v{}", i));
                match rng.below(8) {
                    0 => {
                        t.push_str(&format!("!'v{}'", i));
                        v.push(E::Not(Box::new(x)));
                    }
                    1 => {
                        t.push_str(&format!("'v{}'*", i));
                        v.push(E::Rep(Box::new(x), 0, None));
                    }
                    _ => {
                        t.push_str(&format!("'v{}'", i));
                        v.push(x);
                    }
                }
            }
            t.push('\n');
            exp.insert("main".into(), if or { E::Or(v) } else { E::And(v) });
        }
        4 => {
            let n = size(rng, 70_000);
            what = "comment";
            let s = body(rng, n);
            t = match rng.below(3) {
                0 => format!("/*{}*/ main = 'a' /*{}*/ 'b'\n", s, s),
                1 => format!("main = 'a' //{}\n 'b'\n", s.replace('\n', " ").chars().take(2000).collect::<String>()),
                _ => format!("main = 'a' 'b'\n/*{}*/", s),
            };
            exp.insert("main".into(), E::And(vec![lit("a".into()), lit("b".into())]));
        }
        5 => {
            let n = size(rng, 4_000);
            what = "class or name";
            if rng.chance(1, 2) {
                let s: String = (0..n).map(|i| char::from_u32(0x4e00 + i as u32).unwrap()).collect();
                t = format!("main = [{}]\n", s);
                exp.insert("main".into(), E::Class(s, vec![]));
            } else {
                let nm: String = "n".repeat(n);
                t = format!("main = {}\n{} = 'a'\n{}n = 'b'\n", nm, nm, nm);
                exp.insert("main".into(), E::Ref(nm.clone()));
                exp.insert(format!("{}n", nm), lit("b".into()));
                exp.insert(nm, lit("a".into()));
            }
        }
        _ => {
            let n = size(rng, 40_000);
            what = "space";
            let s: String = (0..n).map(|i| if i % 61 == 60 { '\n' } else { ' ' }).collect();
            t = format!("{}main{}={}'a'{}/{}'b'{}\n", s, " ".repeat(n.min(500)), s, s, s, s);
            exp.insert("main".into(), E::Or(vec![lit("a".into()), lit("b".into())]));
        }
    }
    cx.eval();
    cx.nontrivial(&t);
    cx.count("large_texts", 1);
    let n = t.chars().count();
    cx.max("max_text_chars", n as u64);
    let head = || format!("large grammar text of {} characters ({}): {:?}...", n, what, t.chars().take(200).collect::<String>());
    cx.note(head);
    let got = match target(|| dynparser::rules_from_peg(&t)).map_err(|e| format!("{}\n{}", e, head()))? {
        Ok(r) => pegtext::normal(&conv::back_rules(&r)),
        Err(e) => viol!("valid grammar text rejected: {}\n{}", e, head()),
    };
    let exp = pegtext::normal(&exp);
    if got.len() != exp.len() {
        viol!("{} rules, expected {}\n{}", got.len(), exp.len(), head());
    }
    for (k, e) in &exp {
        match got.get(k) {
            None => viol!("no rule {:.200}\n{}", k, head()),
            Some(g) if g != e => {
                let (a, b) = (format!("{:?}", e), format!("{:?}", g));
                let i = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
                let from = i.saturating_sub(20);
                let cut = |s: &str| s.chars().skip(from).take(120).collect::<String>();
                viol!("rule {:.60} differs at {}: ...{} expected ...{}\n{}", k, i, cut(&b), cut(&a), head());
            }
            _ => (),
        }
    }
    Ok(())
}

/// which of the definitions of a name counts
fn c06_levels(cx: &mut Ctx, rng: &mut Rng) -> Res {
    for _ in 0..2 {
        let t = pegtext::skeleton(rng);
        let exp = match pegtext::meaning(the_meta(), &t) {
            Some((Ok(m), _)) => m,
            Some((Err(f), _)) => panic!("the renderer wrote a text that is no grammar, at {} {:?}\n{}", f.pos, f.what, t),
            None => {
                cx.count("skipped_too_long", 1);
                continue;
            }
        };
        cx.eval();
        cx.nontrivial(&t);
        cx.count("texts_with_names_defined_many_times", 1);
        cx.note(|| t.clone());
        let got = match target(|| dynparser::rules_from_peg(&t)).map_err(|e| format!("{}\ngrammar text {:?}", e, t))? {
            Ok(r) => conv::back_rules(&r),
            Err(e) => viol!("valid grammar text rejected: {}\ngrammar text {:?}", e, t),
        };
        if pegtext::normal(&exp) != pegtext::normal(&got) {
            let (a, b): (Vec<_>, Vec<_>) = (exp.keys().collect(), got.keys().collect());
            if a != b {
                viol!("rules {:?} for a text with rules {:?}\ngrammar text {:?}", b, a, t);
            }
            compare(cx, rng, &exp, &got, &t)?;
        }
        cx.sample(|| t.clone());
    }
    Ok(())
}

fn c07(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let al: Vec<char> = " \n\r='\"/*+?!().[]-{}_aerro\\0xé,\t#<".chars().collect();
    let mut base = || {
        let g = grammar(rng);
        let mut lay = pegtext::random_layout(rng);
        if g.len() > 6 {
            lay.wild = lay.wild.min(1);
        }
        let t = pegtext::render(rng, &g, &lay);
        t
    };
    let a = base();
    let b = base();
    let mut texts = vec![];
    for _ in 0..6 {
        texts.push(match rng.below(16) {
            0 => a.clone(),
            1..=5 => gen::mutate(rng, &a, &al),
            12..=14 => gen::oddity(rng, &a),
            15 => {
                let t = gen::oddity(rng, &a);
                gen::oddity(rng, &t)
            }
            6 => {
                let n = a.chars().count();
                a.chars().take(rng.below(n + 1)).collect()
            }
            7 => {
                let n = a.chars().count();
                a.chars().skip(rng.below(n + 1)).collect()
            }
            8 => {
                let x: Vec<char> = a.chars().collect();
                let y: Vec<char> = b.chars().collect();
                let i = rng.below(x.len() + 1);
                let j = rng.below(y.len() + 1);
                x[..i].iter().chain(y[j..].iter()).collect()
            }
            9 => format!("{}{}", a, b),
            10 => {
                // one line removed or doubled
                let mut v: Vec<&str> = a.split('\n').collect();
                let i = rng.below(v.len());
                if rng.chance(1, 2) {
                    v.remove(i);
                } else {
                    v.insert(i, v[i]);
                }
                v.join("\n")
            }
            _ => token_soup(rng),
        });
    }
    for t in &texts {
        c07_text(cx, rng, t, &a)?;
        cx.sample(|| t.clone());
    }
    let k = SWEEP_PER_CASE;
    for j in cx.idx * k..(cx.idx + 1) * k {
        match sweep_text(j) {
            Some(t) => {
                cx.count("texts_of_the_sweep", 1);
                c07_text(cx, rng, &t, "")?
            }
            None => break,
        }
    }
    Ok(())
}

const SWEEP_PER_CASE: u64 = 12;

/// systematic: signs, pairs and triples of signs and every character at each place of a small grammar
fn sweep_text(j: u64) -> Option<String> {
    const PLACES: &[&str] = &[
        "main = 'a' X 'b'\n",
        "main X 'a'\n",
        "X grammar\nmain = 'a'\n",
        "main = aXb\naXb = 'c'\n",
        "main = 'a'X 'b'\n",
        "main = X'a'\n",
        "X\nmain = 'a'\n",
        "main X = 'a'\n",
        "main = ('a' X)\n",
        "main = \"a\"X\n",
        "m X\nmain = 'a'\n}\n",
        "main = X a\na = 'b'\n",
        "main = 'a' / X\n",
        "main = 'a'\nX",
        "main = error('a'X)\n",
        "Xa = 'b'\nmain = Xa\n",
        "m {\nmain = 'a'\n} X\nn = 'c'\n",
    ];
    const SIGNS: &[u8] = b"!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ a0\t";
    let (p, n) = (PLACES.len() as u64, SIGNS.len() as u64);
    let sign = |i: u64| SIGNS[(i % n) as usize] as char;
    let mut j = j;
    // all pairs everywhere
    if j < p * n * n {
        let x: String = [sign(j / p), sign(j / p / n)].iter().collect();
        return Some(PLACES[(j % p) as usize].replace('X', &x));
    }
    j -= p * n * n;
    // all triples at four of the places
    if j < 4 * n * n * n {
        let x: String = [sign(j / 4), sign(j / 4 / n), sign(j / 4 / n / n)].iter().collect();
        return Some(PLACES[(j % 4) as usize].replace('X', &x));
    }
    j -= 4 * n * n * n;
    // every character everywhere
    let c = (j / p) as u32;
    match char::from_u32(c) {
        Some(c) => Some(PLACES[(j % p) as usize].replace('X', &c.to_string())),
        None if c < 0x11_0000 => Some(String::new()),
        None => None,
    }
}

fn c07_text(cx: &mut Ctx, rng: &mut Rng, t: &str, rendered: &str) -> Res {
    let m = match pegtext::meaning(the_meta(), t) {
        Some((m, _)) => m,
        None => {
            cx.count("skipped_too_long", 1);
            return Ok(());
        }
    };
    cx.eval();
    if t != rendered || m.is_err() {
        cx.nontrivial(t);
    }
    cx.note(|| t.to_string());
    let got = target(|| dynparser::rules_from_peg(t)).map_err(|e| format!("{}\ngrammar text {:?}", e, t))?;
    match (m, got) {
        (Ok(exp), Ok(r)) => {
            cx.count("accepted", 1);
            let mut names: Vec<&String> = r.0.keys().collect();
            names.sort();
            let en: Vec<&String> = exp.keys().collect();
            if names != en {
                viol!("rules {:?} for a text with rules {:?}\ngrammar text {:?}", names, en, t);
            }
            let (a, b) = (pegtext::normal(&exp), pegtext::normal(&conv::back_rules(&r)));
            if a != b {
                compare(cx, rng, &exp, &conv::back_rules(&r), t)?;
            }
        }
        (Err(f), Err(e)) => {
            cx.count("rejected", 1);
            cx.count("rejected_by_error_message", f.critical as u64);
            match parser_error(&e) {
                Some(p) => check_coords(p, t).map_err(|e| format!("{}\ngrammar text {:?}", e, t))?,
                None => viol!("error without location: {:?}\ngrammar text {:?}", e, t),
            }
        }
        (Ok(_), Err(e)) => viol!("valid grammar text rejected: {}\ngrammar text {:?}", e, t),
        (Err(f), Ok(r)) => viol!(
            "accepted (rules {:?}) although it is no grammar from character {} on ({:?})\ngrammar text {:?}",
            r.0.keys().collect::<Vec<_>>(), f.pos, f.what, t
        ),
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- C17

/// what the inside of a double-quoted literal denotes; None if it is not the inside of one
fn unescape(raw: &[char]) -> Option<String> {
    let hex = |c: char| c.is_ascii_digit() || ('A'..='F').contains(&c);
    let mut out = String::new();
    let mut i = 0;
    while i < raw.len() {
        let c = raw[i];
        if c == '"' {
            return None;
        }
        if c == '\\' && i + 1 < raw.len() {
            let e = match raw[i + 1] {
                'r' => Some('\r'),
                'n' => Some('\n'),
                't' => Some('\t'),
                '\\' => Some('\\'),
                '"' => Some('"'),
                _ => None,
            };
            if let Some(e) = e {
                out.push(e);
                i += 2;
                continue;
            }
            if i + 4 < raw.len() && raw[i + 1] == '0' && raw[i + 2] == 'x' && hex(raw[i + 3]) && hex(raw[i + 4]) {
                let v = raw[i + 3].to_digit(16)? * 16 + raw[i + 4].to_digit(16)?;
                out.push(char::from_u32(v)?);
                i += 5;
                continue;
            }
        }
        out.push(c);
        i += 1;
    }
    // a final single backslash would escape the closing quote
    if raw.last() == Some(&'\\') {
        let n = raw.iter().rev().take_while(|&&c| c == '\\').count();
        if n % 2 == 1 {
            return None;
        }
    }
    Some(out)
}

fn rules_of(t: &str) -> Result<SetOfRules, String> {
    match target(|| dynparser::rules_from_peg(t)).map_err(|e| format!("{}\ngrammar text {:?}", e, t))? {
        Ok(r) => Ok(r),
        Err(e) => Err(format!("valid grammar text rejected: {}\ngrammar text {:?}", e, t)),
    }
}

fn expect(cx: &mut Ctx, rs: &SetOfRules, g: &str, t: &str, ok: bool) -> Res {
    cx.eval();
    let r = target(|| dynparser::parse(t, rs)).map_err(|e| format!("{}\ngrammar text {:?}\ntext {:?}", e, g, t))?;
    if r.is_ok() != ok {
        viol!("text {:?}: match expected: {}, got {:?}\ngrammar text {:?}", t, ok, r, g);
    }
    Ok(())
}

fn check_literal(cx: &mut Ctx, rng: &mut Rng, spelled: &str, denotes: &str) -> Res {
    let g = format!("main = {}\n", spelled);
    cx.nontrivial(&g);
    let rs = rules_of(&g)?;
    expect(cx, &rs, &g, denotes, true)?;
    let v: Vec<char> = denotes.chars().collect();
    // near misses
    let mut near: Vec<String> = vec![format!("{}x", denotes), spelled.to_string()];
    if !v.is_empty() {
        near.push(v[..v.len() - 1].iter().collect());
        near.push(v[1..].iter().collect());
        let i = rng.below(v.len());
        let mut w = v.clone();
        w[i] = char::from_u32(v[i] as u32 ^ 1).unwrap_or('x');
        near.push(w.iter().collect());
        let mut w = v.clone();
        w.insert(i, '\\');
        near.push(w.iter().collect());
        near.push(String::new());
        near.push(denotes.to_lowercase());
        near.push(denotes.to_uppercase());
    }
    for n in near {
        expect(cx, &rs, &g, &n, n == denotes)?;
    }
    // as part of a sequence, so that its length matters
    let g2 = format!("main = '<' {} '>'\n", spelled);
    let rs = rules_of(&g2)?;
    expect(cx, &rs, &g2, &format!("<{}>", denotes), true)?;
    // as an error message
    let g3 = format!("main = error({})\n", spelled);
    let rs = rules_of(&g3)?;
    match target(|| dynparser::parse("x", &rs))? {
        Err(e) if e.descr == denotes => (),
        r => viol!("message {:?}, expected {:?}\ngrammar text {:?}", r.map_err(|e| e.descr), denotes, g3),
    }
    cx.count("literals", 1);
    cx.sample(|| g.clone());
    Ok(())
}

/// what the inside of a class denotes; None if it is not a class
fn class_of(raw: &[char]) -> Option<(Vec<char>, Vec<(char, char)>)> {
    let mut i = 0;
    let mut cs = vec![];
    // raw is followed by ']'
    let at = |i: usize| raw.get(i).copied().or(if i == raw.len() { Some(']') } else { None });
    while i < raw.len() && at(i) != Some(']') && at(i + 1) != Some('-') {
        cs.push(raw[i]);
        i += 1;
    }
    let mut rs = vec![];
    while i + 2 < raw.len() + 0 && raw[i + 1] == '-' {
        rs.push((raw[i], raw[i + 2]));
        i += 3;
    }
    if i != raw.len() || (cs.is_empty() && rs.is_empty()) {
        return None;
    }
    Some((cs, rs))
}

fn check_class(cx: &mut Ctx, rng: &mut Rng, inside: &str, cs: &str, rs: &[(char, char)], extra: &[char]) -> Res {
    let g = format!("main = [{}]\n", inside);
    cx.nontrivial(&g);
    let real = rules_of(&g)?;
    let mut probes: Vec<char> = extra.to_vec();
    probes.extend(cs.chars());
    probes.extend(inside.chars());
    for &(a, b) in rs {
        for c in [a, b] {
            let u = c as u32;
            for d in [u.wrapping_sub(1), u, u + 1] {
                probes.extend(char::from_u32(d));
            }
        }
        if a < b {
            probes.extend(char::from_u32(rng.range(a as usize, b as usize) as u32));
        }
    }
    for _ in 0..6 {
        probes.push(gen::any_char(rng));
    }
    probes.extend("\0 -]\\^[\n\r\u{10ffff}".chars());
    probes.sort();
    probes.dedup();
    for c in probes {
        expect(cx, &real, &g, &c.to_string(), class_has(cs, rs, c))?;
        cx.count("class_memberships", 1);
    }
    expect(cx, &real, &g, "", false)?;
    if let Some(c) = cs.chars().next().or(rs.iter().find(|r| r.0 <= r.1).map(|r| r.0)) {
        expect(cx, &real, &g, &format!("{}{}", c, c), false)?;
    }
    cx.count("classes", 1);
    cx.sample(|| g.clone());
    Ok(())
}

/// literals and classes of two ASCII characters, ranges between them
fn pairs(cx: &mut Ctx, rng: &mut Rng, a: char) -> Res {
    let ascii: Vec<char> = (0..128u8).map(|c| c as char).collect();
    for &b in &ascii {
        if b < ' ' && a < ' ' && b > '\r' {
            continue;
        }
        cx.count("ascii_pairs", 1);
        let raw = [a, b];
        let t: String = raw.iter().collect();
        if a != '\'' && b != '\'' {
            check_literal(cx, rng, &format!("'{}'", t), &t)?;
        }
        if let Some(d) = unescape(&raw) {
            check_literal(cx, rng, &format!("\"{}\"", t), &d)?;
        }
        for raw in [vec![a, b], vec![a, '-', b]] {
            if let Some((c, r)) = class_of(&raw) {
                let inside: String = raw.iter().collect();
                let c: String = c.into_iter().collect();
                let probes: &[char] = if raw.len() == 3 { &ascii } else { &[] };
                check_class(cx, rng, &inside, &c, &r, probes)?;
            }
        }
    }
    Ok(())
}

fn block(cx: &mut Ctx, rng: &mut Rng, i: u64) -> Res {
    let lo = (i * 256) as u32;
    let cs: Vec<char> = (lo..lo + 256).filter_map(char::from_u32).collect();
    if cs.is_empty() {
        return Ok(());
    }
    cx.count("unicode_characters_swept", cs.len() as u64);
    let all: String = cs.iter().collect();
    let single: String = cs.iter().filter(|&&c| c != '\'').collect();
    check_literal(cx, rng, &format!("'{}'", single), &single)?;
    let mut esc = String::new();
    for &c in &cs {
        match c {
            '"' => esc.push_str("\\\""),
            '\\' => esc.push_str("\\\\"),
            c => esc.push(c),
        }
    }
    check_literal(cx, rng, &format!("\"{}\"", esc), &all)?;
    // the whole block as listed characters
    let listed: String = cs.iter().filter(|&&c| c != ']' && c != '-').collect();
    check_class(cx, rng, &listed, &listed, &[], &cs)?;
    // and as a range, and as a range of a few in the middle
    let (a, b) = (cs[0], cs[cs.len() - 1]);
    check_class(cx, rng, &format!("{}-{}", a, b), "", &[(a, b)], &cs)?;
    let (a, b) = (cs[cs.len() / 3], cs[cs.len() / 2]);
    check_class(cx, rng, &format!("{}-{}", a, b), "", &[(a, b)], &cs)?;
    // dot
    let g = "main = .\n";
    let rs = rules_of(g)?;
    for c in &cs {
        expect(cx, &rs, g, &c.to_string(), true)?;
    }
    expect(cx, &rs, g, &all[..], cs.len() == 1)?;
    expect(cx, &rs, g, "", false)?;
    let g = "main = '<' .* '>'\n";
    let rs = rules_of(g)?;
    expect(cx, &rs, g, &format!("<{}", all), false)?;
    // a dot, and a class, takes one character, whatever stands around it
    let mut t: String = String::new();
    for &c in &cs {
        for _ in 0..rng.below(3) {
            t.push(*rng.pick(UNITS));
        }
        t.push(c);
    }
    one_by_one(cx, ".", &t)?;
    one_by_one(cx, "[\0-\u{10ffff}]", &t)?;
    one_by_one(cx, "!'\u{1}\u{2}\u{1}' .", &t)?;
    let g = "main = .\n";
    let rs = rules_of(g)?;
    for _ in 0..16 {
        let others: &[char] = if rng.chance(1, 2) { UNITS } else { &cs };
        let (a, b) = (*rng.pick(&cs), *rng.pick(others));
        for t in [format!("{}{}", a, b), format!("{}{}", b, a)] {
            expect(cx, &rs, g, &t, false)?;
        }
    }
    Ok(())
}

/// characters that other programs take together with the next or the previous one
const UNITS: &[char] = &[
    '\r', '\n', '\r', '\n', '\u{301}', '\u{200d}', '\u{fe0f}', '\u{feff}', '\u{1f1ea}', '\u{1f3fb}', '\u{d7ff}', '\u{e000}', '\\', '-', ' ',
    '\t', '\0', '\u{85}', '\u{2028}', 'a', '\u{1100}', '\u{1161}',
];

/// a rule that takes one character makes one node of each character of the text
fn one_by_one(cx: &mut Ctx, expr: &str, t: &str) -> Res {
    use dynparser::ast::Node;
    let g = format!("c = {}\nmain = c*\n", expr);
    let rs = rules_of(&g)?;
    cx.eval();
    match target(|| dynparser::parse(t, &rs))? {
        Ok(Node::Rule((_, ns))) => {
            let mut it = t.chars();
            let mut n = 0;
            for node in ns.iter().filter(|n| !matches!(n, Node::EOF)) {
                n += 1;
                let (v, c) = match (node, it.next()) {
                    (Node::Rule((_, v)), Some(c)) => (v, c),
                    _ => viol!("unexpected node {:?}\ngrammar text {:?}\ntext {:?}", node, g, t),
                };
                match &v[..] {
                    [Node::Val(s)] if *s == c.to_string() => (),
                    _ => viol!("took {:?} as one character, expected {:?}\ngrammar text {:?}\ntext {:?}", v, c, g, t),
                }
            }
            if it.next().is_some() {
                viol!("{} characters taken one by one gave {} nodes\ngrammar text {:?}\ntext {:?}", t.chars().count(), n, g, t);
            }
            cx.count("characters_taken_one_by_one", n);
        }
        r => viol!("characters taken one by one: got {:?}\ngrammar text {:?}\ntext {:?}", r, g, t),
    }
    Ok(())
}

/// texts that some programs take for each other are all different here
fn alike(cx: &mut Ctx, group: &[String]) -> Res {
    for a in group {
        let quoted = if a.contains('\'') { format!("\"{}\"", a) } else { format!("'{}'", a) };
        let mut gs = vec![format!("main = {}\n", quoted), format!("main = {} / ({} 'x')\n", quoted, quoted)];
        if a.chars().count() == 1 && a != "]" {
            gs.push(format!("main = [{}]\n", a));
            gs.push(format!("main = [{}-{}]\n", a, a));
        }
        for g in gs {
            cx.nontrivial(&g);
            let rs = rules_of(&g)?;
            for b in group {
                expect(cx, &rs, &g, b, a == b)?;
            }
            cx.count("literals_and_classes_of_look_alikes", 1);
        }
    }
    Ok(())
}

fn c17(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let i = cx.idx;
    if i < 4352 {
        // the low blocks matter most, and come first for every shard
        return block(cx, rng, i);
    }
    if i == 4352 {
        for v in 0..256u32 {
            let c = char::from_u32(v).unwrap();
            check_literal(cx, rng, &format!("\"\\0x{:02X}\"", v), &c.to_string())?;
            cx.count("hex_escapes_swept", 1);
        }
        return Ok(());
    }
    if i < 4353 + 128 {
        return pairs(cx, rng, (i - 4353) as u8 as char);
    }
    if i < 4353 + 128 + 112 {
        // letters with an accent of their own
        let c = char::from_u32(0x300 + (i - 4353 - 128) as u32).unwrap();
        let t: String = ('A'..='z').filter(|c| c.is_alphabetic()).flat_map(|l| [l, c]).collect();
        check_literal(cx, rng, &format!("'{}'", t), &t)?;
        check_literal(cx, rng, &format!("\"{}\"", t), &t)?;
        return one_by_one(cx, ".", &t);
    }
    let i = i - (4353 + 128 + 112);
    if i < 400 {
        for g in gen::alike().iter().skip(i as usize).step_by(400) {
            alike(cx, g)?;
        }
        return Ok(());
    }
    if i == 400 {
        let g = "main = .\n";
        let rs = rules_of(g)?;
        for &a in UNITS {
            for &b in UNITS {
                expect(cx, &rs, g, &format!("{}{}", a, b), false)?;
                one_by_one(cx, ".", &format!("{}{}", a, b))?;
                one_by_one(cx, "[\0-\u{10ffff}]", &format!("{}{}", a, b))?;
            }
        }
        return Ok(());
    }
    if i > 400 && i <= 400 + 64 {
        // each escape by number, with another sign that could belong to it
        let tail: Vec<char> = "0123456789ABCDEFabcdefgxX".chars().collect();
        for v in 4 * (i as u32 - 401)..4 * (i as u32 - 401) + 4 {
            let c = char::from_u32(v).unwrap();
            let (mut raw, mut d) = (String::new(), String::new());
            for t in &tail {
                raw.push_str(&format!("\\0x{:02X}{}", v, t));
                d.push(c);
                d.push(*t);
            }
            check_literal(cx, rng, &format!("\"{}\"", raw), &d)?;
        }
        cx.count("hex_escapes_before_digits", 4 * tail.len() as u64);
        return Ok(());
    }
    if i == 465 {
        // escapes in any combination of three
        let pieces = ["\\n", "\\r", "\\t", "\\\\", "\\\"", "\\0x0A", "\\0x0D", "\\0x5C", "\\0x22", "\\0x80", "n", "\n", "\r", "'"];
        for a in &pieces {
            for b in &pieces {
                let mut raw = String::new();
                for c in &pieces {
                    raw.push_str(&format!("{}{}{} ", a, b, c));
                }
                let d = unescape(&raw.chars().collect::<Vec<char>>()).expect("escapes only");
                check_literal(cx, rng, &format!("\"{}\"", raw), &d)?;
            }
        }
        return Ok(());
    }
    match rng.below(6) {
        5 => {
            // what other languages have as escapes
            let starts = [
                "\\0x", "\\0x", "\\0x", "\\x", "\\u", "\\u{", "\\U", "\\0", "\\", "\\0X", "\\o", "\\N{", "\\c", "&#x", "&#", "%", "U+", "\\0b", "\\d", "\\0d",
            ];
            let digits: Vec<char> = match rng.below(3) {
                0 => "0".chars().collect(),
                1 => "0014AF".chars().collect(),
                _ => "0123456789ABCDEFabcdef".chars().collect(),
            };
            let mut raw = String::new();
            for _ in 0..rng.range(1, 3) {
                raw.push_str(rng.pick::<&str>(&starts));
                for _ in 0..rng.below(8) {
                    raw.push(*rng.pick(&digits));
                }
                if rng.chance(1, 3) {
                    raw.push(*rng.pick(&['4', '1', 'A', 'F', '}', ';', ' ', 'n', '\'']));
                }
            }
            if let Some(d) = unescape(&raw.chars().collect::<Vec<char>>()) {
                check_literal(cx, rng, &format!("\"{}\"", raw), &d)?;
            }
            if !raw.contains('\'') {
                check_literal(cx, rng, &format!("'{}'", raw), &raw)?;
            }
            cx.count("literals_with_foreign_escapes", 1);
        }
        4 => {
            // what looks like other parts of a grammar
            let pieces = [
                "\n", "\n", "\r\n", "\r", "// a", "//", "// ", "/*", "*/", "/**/", "#", "# a", ";", "--", " / ", "=", "main", "\nmain = ", "{", "}", "(", ")",
                "error(", "m {", "[a-z]", "*", "+", "?", "!", ".", " ", "  ", "\t", "a", "b", "\\\n", "%", "$", "${a}", "{}", "{:?}", "&amp;", "<", ">",
            ];
            let n = rng.range(1, 9);
            let raw: String = (0..n).map(|_| rng.pick::<&str>(&pieces).to_string()).collect();
            check_literal(cx, rng, &format!("'{}'", raw), &raw)?;
            if let Some(d) = unescape(&raw.chars().collect::<Vec<char>>()) {
                check_literal(cx, rng, &format!("\"{}\"", raw), &d)?;
            }
            cx.count("literals_like_grammar_text", 1);
        }
        0 | 1 => {
            let pieces = [
                "\\", "\\", "r", "n", "t", "0", "x", "\\n", "\\r", "\\t", "\\\\", "\\\"", "\\0x41", "\\0x0a", "\\0xFF", "\\0x", "\\x41",
                "\\0X41", "A", "F", "7", "a", "'", "é", "😀", " ", "\n", "\r", "//", "/*", "[", "\\'", "\\a", "\\0", "\\u0041", "0x41",
                "\\0xE9", "\\0x4", "\\0xAg",
            ];
            let n = rng.log(8);
            let raw: String = (0..n).map(|_| rng.pick::<&str>(&pieces).to_string()).collect();
            let raw = if rng.chance(1, 4) {
                let c = gen::any_char(rng);
                format!("{}{}", raw, if c == '"' { 'q' } else { c })
            } else {
                raw
            };
            let rv: Vec<char> = raw.chars().collect();
            match unescape(&rv) {
                Some(d) => check_literal(cx, rng, &format!("\"{}\"", raw), &d)?,
                None => cx.count("not_a_literal", 1),
            }
            if !raw.contains('\'') {
                check_literal(cx, rng, &format!("'{}'", raw), &raw)?;
            }
        }
        _ => {
            let pool: Vec<char> = match rng.below(4) {
                0 => "ab-z".chars().collect(),
                1 => "-[^\\ab]0".chars().collect(),
                2 => "\\nrt\"'0x-.\n\r ".chars().collect(),
                _ => (0..6).map(|_| gen::any_char(rng)).chain(std::iter::once('-')).collect(),
            };
            let n = rng.range(1, 9);
            let raw: Vec<char> = (0..n).map(|_| *rng.pick(&pool)).collect();
            match class_of(&raw) {
                Some((c, r)) => {
                    let inside: String = raw.iter().collect();
                    let c: String = c.into_iter().collect();
                    check_class(cx, rng, &inside, &c, &r, &[])?
                }
                None => cx.count("not_a_class", 1),
            }
        }
    }
    Ok(())
}
