//! Workload generators: grammars, texts derived from them, mutations, trees.

use crate::model::{E, N, Rules};
use crate::rng::Rng;

/// character pools; a case works mostly on one of them so that coincidences are frequent
pub fn alphabet(rng: &mut Rng) -> Vec<char> {
    let pools: &[&str] = &[
        "ab",
        "ab",
        "abc",
        "a",
        "ab\n",
        "a\r\n",
        "ab\n\r",
        "aé",
        "é∑😀a",
        "\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}",
        "a \t\n\"'\\#",
        "ab ",
        "\0\u{1}a\u{7f}",
        "01.+-*/() ",
        "abcdefghij",
        "áà\u{301}a\n",
        "\u{feff}\u{2028}\u{85}\u{202e}x",
        "xyz\u{fffd}\n\u{1f600}\u{1f468}\u{200d}",
        "<>{}[]!?.",
    ];
    if rng.chance(1, 25) {
        let n = rng.range(1, 12);
        return (0..n).map(|_| any_char(rng)).collect();
    }
    if rng.chance(1, 20) {
        let mut v: Vec<char> = vec![];
        for _ in 0..rng.range(1, 3) {
            v.extend(some_alike(rng).iter().flat_map(|t| t.chars()));
        }
        v.sort();
        v.dedup();
        rng.shuffle(&mut v);
        v.truncate(rng.range(2, 8));
        return v;
    }
    rng.pick(pools).chars().collect()
}

/// groups of texts of a few characters that some programs take for each other (tools/mkalike.py)
pub fn alike() -> &'static [Vec<String>] {
    static GROUPS: std::sync::OnceLock<Vec<Vec<String>>> = std::sync::OnceLock::new();
    GROUPS.get_or_init(|| {
        let text = |t: &str| t.split('+').map(|h| u32::from_str_radix(h, 16).ok().and_then(char::from_u32).expect("alike.txt")).collect();
        include_str!("alike.txt").lines().map(|l| l.split(' ').map(text).collect()).collect()
    })
}

/// one group, often one of the letters that everybody knows
pub fn some_alike(rng: &mut Rng) -> &'static [String] {
    let g = alike();
    let n = match rng.below(4) {
        0 | 1 => 60,
        2 => 1750,
        _ => g.len(),
    };
    &g[rng.below(n)]
}

pub fn any_char(rng: &mut Rng) -> char {
    let c = match rng.below(8) {
        0 | 1 => rng.range(0x20, 0x7e) as u32,
        2 => rng.range(0, 0x1f) as u32,
        3 => rng.range(0x7f, 0xff) as u32,
        4 => rng.range(0x100, 0x7ff) as u32,
        5 => rng.range(0x800, 0xd7ff) as u32,
        6 => rng.range(0xe000, 0xffff) as u32,
        _ => rng.range(0x10000, 0x10ffff) as u32,
    };
    char::from_u32(c).unwrap_or('x')
}

pub fn string(rng: &mut Rng, al: &[char], len: usize) -> String {
    (0..len).map(|_| *rng.pick(al)).collect()
}

/// a long string of characters of one to four bytes
pub fn long_mixed(rng: &mut Rng) -> String {
    let n = match rng.below(4) {
        0 => rng.range(10, 40),
        1 => (1usize << rng.range(4, 9)) + rng.below(5) - 2,
        _ => rng.range(30, 300),
    };
    let wide = ['é', 'ß', '中', '€', '😀', '\u{301}', '\u{a0}'];
    let c = *rng.pick(&wide);
    let odds = rng.range(1, 12);
    (0..n)
        .map(|_| match rng.below(odds) {
            0 => c,
            1 => *rng.pick(&wide),
            _ => *rng.pick(&['a', 'b', ' ', '-', '.', 'z']),
        })
        .collect()
}

#[derive(Clone)]
pub struct Profile {
    pub rules: (usize, usize),
    pub depth: usize,
    pub arity: usize,
    /// only what PEG text can express
    pub peg: bool,
    pub eof: bool,
    pub missing: bool,
    pub errors: bool,
    pub rep_max: usize,
    pub names: u8,
}

pub fn profile(rng: &mut Rng) -> Profile {
    let base = Profile {
        rules: (1, 2),
        depth: 3,
        arity: 3,
        peg: false,
        eof: true,
        missing: true,
        errors: true,
        rep_max: 4,
        names: 0,
    };
    match rng.below(12) {
        0..=3 => base,
        4..=6 => Profile { rules: (2, 6), depth: 3, arity: 4, ..base },
        7 => Profile { rules: (3, 14), depth: 4, arity: 5, missing: false, ..base },
        8 => Profile { rules: (1, 3), depth: 7, arity: 2, ..base },
        9 => Profile { rules: (1, 3), depth: 2, arity: 30, rep_max: 40, ..base },
        10 => Profile { rules: (2, 5), depth: 3, arity: 4, errors: false, missing: false, eof: false, ..base },
        _ => Profile { rules: (2, 5), depth: 4, arity: 3, rep_max: 300, ..base },
    }
}

pub struct G<'a> {
    pub p: Profile,
    pub al: &'a [char],
    pub names: Vec<String>,
}

const NAMES: &[&str] = &[
    "a", "b", "r1", "r2", "_", "expr", "Mains", "mai", "x_y", "c'", "c''", "q\"", "9", "rule", "aa",
    "term", "item", "value", "list", "sp", "eol", "main2", "N", "fact", "error", "errors", "Error", "err", "EOF", "eof", "dot", "not", "rules",
    "lit", "grammar", "main_", "fn", "self", "or", "and", "u", "n", "t", "x", "r",
];

pub fn grammar(rng: &mut Rng, p: &Profile, al: &[char]) -> Rules {
    let n = rng.range(p.rules.0, p.rules.1);
    let mut names = vec!["main".to_string()];
    let mut pool: Vec<&str> = NAMES.to_vec();
    rng.shuffle(&mut pool);
    for i in 1..n {
        let nm = match p.names {
            _ if rng.chance(1, 8) => {
                let of = rng.pick(&names).clone();
                near_symbol(rng, &of)
            }
            1 if rng.chance(1, 20) => {
                let of = rng.pick(&names).clone();
                near_name(rng, &of)
            }
            // names only the API can create
            1 if rng.chance(1, 3) => rng
                .pick(&["", " ", "é∑", "a b", "\n", "r:x", "EOF", "main ", "a.b.c", "\u{10ffff}"])
                .to_string(),
            2 if rng.chance(1, 6) => {
                format!("{}{}.{}", if rng.chance(1, 2) { "." } else { "" }, pool[i % pool.len()], i)
            }
            _ if i < pool.len() => pool[i].to_string(),
            _ => format!("r{}", i),
        };
        if !names.contains(&nm) {
            names.push(nm);
        }
    }
    let g = G { p: p.clone(), al, names };
    let mut rules = Rules::new();
    for n in &g.names {
        let d = rng.range(1, p.depth);
        let e = g.expr(rng, d);
        rules.insert(n.clone(), e);
    }
    rules
}

impl<'a> G<'a> {
    fn lit(&self, rng: &mut Rng) -> E {
        let len = match rng.below(20) {
            0 => 0,
            1..=11 => 1,
            12..=15 => 2,
            16..=18 => rng.range(2, 5),
            _ if rng.chance(1, 4) => rng.log(200),
            _ => rng.log(40),
        };
        let mut l = string(rng, self.al, len);
        if len > 12 && rng.chance(1, 2) {
            // words
            let mut at = 0;
            l = l.chars().map(|c| { at += 1; if at % 6 == 5 { ' ' } else { c } }).collect();
        }
        E::Lit(l)
    }
    fn class(&self, rng: &mut Rng) -> E {
        let nc = rng.below(4);
        let mut chars = string(rng, self.al, nc);
        let nr = if chars.is_empty() { rng.range(1, 2) } else { rng.below(3) };
        let nr = if rng.chance(1, 10) { rng.range(3, 12) } else { nr };
        let mut rs = vec![];
        for _ in 0..nr {
            let mut a = *rng.pick(self.al);
            let mut b = *rng.pick(self.al);
            if nr > 2 {
                // narrow ones in any order around the alphabet
                let near = |rng: &mut Rng, c: char| char::from_u32(c as u32 + rng.below(3) as u32).unwrap_or(c);
                a = near(rng, a);
                b = near(rng, a);
            }
            rs.push(if a <= b || rng.chance(1, 12) { (a, b) } else { (b, a) });
        }
        if chars.is_empty() && rs.is_empty() {
            chars.push(*rng.pick(self.al));
        }
        if !self.p.peg && rng.chance(1, 60) {
            chars.clear();
            rs.clear();
        }
        E::Class(chars, rs)
    }
    fn atom(&self, rng: &mut Rng) -> E {
        match rng.below(20) {
            0..=8 => self.lit(rng),
            9..=11 => self.class(rng),
            12 | 13 => E::Dot,
            14 if self.p.eof && !self.p.peg => E::Eof,
            15 if self.p.errors && rng.chance(1, 2) => {
                let n = rng.below(4);
                E::Err(match rng.below(12) {
                    0 => String::new(),
                    1 => rng
                        .pick(&[
                            " ", "not", "not consumed full input", "Missing rule: main", "expected literal: <a>", "dot", "expected EOF", "\n", " m ", "m\n",
                            "LOGIC ERROR", "{}", "%s",
                        ])
                        .to_string(),
                    2 => string(rng, self.al, 40 + 20 * n),
                    3 if rng.chance(1, 4) => {
                        let n = rng.range(100, 6000);
                        string(rng, self.al, n)
                    }
                    _ => format!("msg{}", string(rng, self.al, n)),
                })
            }
            16 if self.p.missing && rng.chance(1, 6) => {
                let of = rng.pick(&self.names).clone();
                E::Ref(match rng.below(6) {
                    0 | 1 => near_symbol(rng, &of),
                    2 if !self.p.peg => near_name(rng, &of),
                    3 if !self.p.peg => rng.pick(&["", " ", "\n", "r:", "a ", " a", "r:a", "é", "Missing rule: a"]).to_string(),
                    4 => "u".repeat(rng.range(20, 90)),
                    _ => "undefined".into(),
                })
            }
            _ => E::Ref(rng.pick(&self.names).clone()),
        }
    }
    pub fn expr(&self, rng: &mut Rng, depth: usize) -> E {
        if depth <= 1 {
            return self.atom(rng);
        }
        match rng.below(22) {
            0..=5 => {
                let v = self.many(rng, depth);
                E::And(v)
            }
            6..=11 => {
                let v = self.many(rng, depth);
                E::Or(v)
            }
            12 | 13 => E::Not(Box::new(self.expr(rng, depth - 1))),
            14..=18 => {
                let x = Box::new(self.expr(rng, depth - 1));
                if self.p.peg || rng.chance(1, 2) {
                    match rng.below(3) {
                        0 => E::Rep(x, 0, None),
                        1 => E::Rep(x, 1, None),
                        _ => E::Rep(x, 0, Some(1)),
                    }
                } else {
                    if rng.chance(1, 60) {
                        return huge_rep(rng, x);
                    }
                    let min = rng.log(self.p.rep_max);
                    let max = if rng.chance(1, 3) { None } else { Some(min + rng.log(self.p.rep_max)) };
                    E::Rep(x, min, max)
                }
            }
            19 => {
                // common idiom: (!x .)*
                E::Rep(
                    Box::new(E::And(vec![E::Not(Box::new(self.expr(rng, depth - 1))), E::Dot])),
                    rng.below(2),
                    None,
                )
            }
            20 => {
                // literals that start alike, chosen, negated or skipped
                let k = rng.range(2, 5);
                let w = string(rng, self.al, 5);
                let v: Vec<char> = w.chars().collect();
                let o = E::Or(
                    (0..k)
                        .map(|_| {
                            let i = if rng.chance(1, 3) { rng.below(4) } else { 0 };
                            let j = rng.range(i + 1, 5);
                            E::Lit(v[i..j].iter().collect())
                        })
                        .collect(),
                );
                match rng.below(4) {
                    0 => o,
                    1 => E::And(vec![E::Not(Box::new(o)), self.expr(rng, depth - 1)]),
                    _ => E::Rep(Box::new(E::And(vec![E::Not(Box::new(o)), E::Dot])), 0, None),
                }
            }
            _ => self.atom(rng),
        }
    }
    fn many(&self, rng: &mut Rng, depth: usize) -> Vec<E> {
        let lo = if self.p.peg { 2 } else if rng.chance(1, 12) { 0 } else { 2 };
        let hi = if self.p.arity > 8 { 2 + rng.log(self.p.arity) } else { self.p.arity };
        let n = rng.range(lo, hi.max(lo));
        let mut v: Vec<E> = (0..n).map(|_| { let d = 1 + rng.below(depth - 1); self.expr(rng, d.max(1)) }).collect();
        // alternatives that share a prefix make backtracking matter
        if v.len() >= 2 && rng.chance(1, 3) {
            let pre = self.lit(rng);
            for e in v.iter_mut() {
                if rng.chance(2, 3) {
                    *e = E::And(vec![pre.clone(), e.clone()]);
                }
            }
        }
        v
    }
}

/// a text sampled from the grammar ignoring negation and commitment; often matches
pub fn derive(rng: &mut Rng, rules: &Rules, al: &[char], fuel: usize) -> String {
    let mut out = String::new();
    let mut f = fuel;
    if let Some(m) = rules.get("main") {
        der(rng, rules, m, al, &mut f, &mut out, 0);
    }
    out
}

fn der(rng: &mut Rng, rules: &Rules, e: &E, al: &[char], fuel: &mut usize, out: &mut String, depth: usize) {
    if *fuel == 0 || depth > 150 {
        return;
    }
    *fuel -= 1;
    match e {
        E::Lit(s) => out.push_str(s),
        E::Class(cs, rs) => out.push(class_char(rng, cs, rs)),
        E::Dot => out.push(if rng.chance(1, 10) { any_char(rng) } else { *rng.pick(al) }),
        E::Err(_) | E::Eof => (),
        E::Not(x) => {
            // almost what must not come
            if rng.chance(1, 4) {
                let mut o = String::new();
                der(rng, rules, x, al, fuel, &mut o, depth + 1);
                let v: Vec<char> = o.chars().collect();
                if v.len() > 1 {
                    let k = rng.range(1, v.len() - 1);
                    out.extend(&v[..k]);
                }
            }
        }
        E::And(v) => {
            for x in v {
                der(rng, rules, x, al, fuel, out, depth + 1);
            }
        }
        E::Or(v) => {
            if !v.is_empty() {
                // avoid error alternatives most times
                let mut i = rng.below(v.len());
                if matches!(v[i], E::Err(_)) {
                    i = rng.below(v.len());
                }
                der(rng, rules, &v[i], al, fuel, out, depth + 1);
            }
        }
        E::Rep(x, min, max) => {
            let extra = match max {
                Some(m) => rng.below((m.saturating_sub(*min)).min(6) + 1),
                None => rng.log(6),
            };
            let k = match max {
                Some(m) if rng.chance(1, 4) => *m,
                _ => min.saturating_add(extra),
            };
            // sometimes one too few / too many
            let k = if rng.chance(1, 12) { k.saturating_sub(1) } else if rng.chance(1, 12) { k.saturating_add(1) } else { k };
            for _ in 0..k.min(400) {
                der(rng, rules, x, al, fuel, out, depth + 1);
            }
        }
        E::Ref(n) => {
            if let Some(e) = rules.get(n) {
                der(rng, rules, e, al, fuel, out, depth + 1)
            }
        }
    }
}

pub fn class_char(rng: &mut Rng, cs: &str, rs: &[(char, char)]) -> char {
    let n = cs.chars().count() + rs.len();
    if n == 0 {
        return 'a';
    }
    let i = rng.below(n);
    if let Some(c) = cs.chars().nth(i) {
        return c;
    }
    let (a, b) = rs[i - cs.chars().count()];
    if a > b {
        return a;
    }
    match rng.below(4) {
        0 => a,
        1 => b,
        _ => char::from_u32(rng.range(a as usize, b as usize) as u32).unwrap_or(a),
    }
}

pub fn mutate(rng: &mut Rng, s: &str, al: &[char]) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let k = 1 + rng.log(3);
    for _ in 0..k {
        let c = if rng.chance(1, 12) { any_char(rng) } else { *rng.pick(al) };
        match rng.below(9) {
            0 | 1 => v.insert(rng.below(v.len() + 1), c),
            2 => v.push(c),
            3 | 4 if !v.is_empty() => {
                let i = rng.below(v.len());
                v.remove(i);
            }
            5 if !v.is_empty() => {
                let i = rng.below(v.len());
                v[i] = c;
            }
            6 if !v.is_empty() => {
                let n = rng.below(v.len());
                v.truncate(n);
            }
            7 if v.len() > 1 => {
                let i = rng.below(v.len());
                let j = rng.range(i, (i + 6).min(v.len() - 1));
                let part: Vec<char> = v[i..=j].to_vec();
                let at = rng.below(v.len() + 1);
                for (k, c) in part.into_iter().enumerate() {
                    v.insert(at + k, c);
                }
            }
            _ => {
                v.pop();
            }
        }
    }
    v.into_iter().collect()
}

/// things that other notations have and this one may not, at the places where they would matter
pub fn oddity(rng: &mut Rng, s: &str) -> String {
    const ODD: &[&str] = &[
        "\0", "\u{feff}", "\u{1a}", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{2029}", "\u{200b}", "\u{3000}", "\u{7f}", "\u{1b}[0m",
        "\t", " \t", "\r", "\n\r", "\r\r\n", "\\\n", "\\", "\\n", ";", ";\n", "#", "# c\n", "#!x\n", "-- c\n", "% c\n", "%", ",", ":", ":=", "<-",
        "::=", "->", "=>", "==", "|", "||", "&", "&&", "$", "^", "~", "@", "`", "`x`", "<", ">", "<x>", "{", "}", "{2}", "{2,3}", "*?", "+?", "??", "**",
        "++", "*+", "!!", "! ", "?!", "..", "...", "'a'..'z'", "'a'-'z'", "'a'i", "i'a'", "'''", "\"\"", "''", "\"\"\"", "[]", "[^a]", "[^]", "[!a]", "[[:alpha:]]",
        "[a-]", "[-a]", "[z-a]", "\\d", "\\w", "EOF", "eof", "x:", "x:'a'", "_", "__", ".", "./", "/.", "/ /", "//", "///", "/", "/**/", "/*/", "*/", "/*", "/***/",
        "/* /* */", "/* /* */ */", "()", "( )", "(", ")", "=", "= =", "error", "error(", "error()", "error(x)", "error('')", "error ('m')", "error( 'm' )",
        "errors", "ERROR('m')", "grammar g;\n", "---\n", "\n\n", "\n \n", " \n", "\n ", "  ", "\\0x41", "0x41", "\u{e9}", "m{", "m {\n}\n", "}\n", "..x", ".x", "x.", "x..y", "a-b", "a'", "1a", "A9",
    ];
    // one sign written in another way everywhere
    if rng.chance(1, 8) {
        const OTHER: &[(&str, &[&str])] = &[
            ("'", &["\u{2018}", "\u{2019}", "`", "\u{b4}", "\u{2032}", "\u{ff07}", "''", "\\'", "\""]),
            ("\"", &["\u{201c}", "\u{201d}", "\u{ab}", "\u{ff02}", "''", "\"\"", "\\\"", "'"]),
            (" ", &["\u{a0}", "\t", "\u{3000}", "\u{2003}", "\u{200b}", "\u{feff}", "_", "\u{c}", "\r", "\u{b}", "\u{85}"]),
            ("\n", &["\u{2028}", "\u{85}", "\u{b}", "\u{c}", ";", "\n\r", "\u{2029}", "\\n", "\r", "\r\r\n"]),
            ("=", &["<-", ":=", "::=", "->", "==", ":", "\u{2190}", "\u{ff1d}", "\u{2254}"]),
            ("/", &["|", "||", "//", "\\", "\u{2044}", "\u{ff0f}", "\u{2215}", "/ /"]),
            ("*", &["\u{d7}", "\u{2217}", "{0,}", "\u{ff0a}", "**"]),
            ("+", &["{1,}", "\u{ff0b}", "++"]),
            ("?", &["{0,1}", "\u{ff1f}", "??"]),
            ("!", &["~", "\u{ac}", "\u{ff01}", "!!", "^", "not ", "&!"]),
            (".", &["\u{3002}", "..", "\u{b7}", "any", "\u{ff0e}", "\u{2024}"]),
            ("-", &["\u{2013}", "\u{2212}", "..", "\u{2010}", "\u{ff0d}", "--", "~"]),
            ("(", &["[", "{", "\u{ff08}", "(("]),
            (")", &["]", "}", "\u{ff09}", "))"]),
            ("[", &["(", "{", "[^", "[[", "\u{ff3b}"]),
            ("error", &["Error", "ERROR", "err", "fail", "error "]),
            ("\\", &["/", "\u{ff3c}", "\\\\", "%", "\u{a5}"]),
            ("\\0x", &["\\x", "\\0X", "\\u00", "0x"]),
            ("main", &["Main", "MAIN", "start", "main "]),
        ];
        let (a, bs) = rng.pick(OTHER);
        let b = rng.pick(bs);
        let odd = s.replace(a, b);
        // the closing one of the pair
        return match *b {
            "\u{2018}" if rng.chance(1, 2) => odd.replace("\u{2018}x", "\u{2019}x"),
            "[" => odd.replace(')', "]"),
            "{" => odd.replace(')', "}").replace(']', "}"),
            _ => odd,
        };
    }
    let o = rng.pick::<&str>(ODD).to_string();
    let v: Vec<char> = s.chars().collect();
    let kind = |c: char| match c {
        '\n' => 1,
        c if c.is_alphanumeric() || c == '_' => 0,
        c if c.is_whitespace() => 2,
        c => 3 + c as u32,
    };
    // a place of the chosen sort
    let places: Vec<usize> = match rng.below(8) {
        0 => vec![0],
        1 => vec![v.len()],
        2 => vec![v.len().saturating_sub(1)],
        3 => (0..v.len()).filter(|&i| i == 0 || v[i - 1] == '\n').collect(),
        4 => (0..v.len()).filter(|&i| v[i] == '\n').collect(),
        5 | 6 => (1..v.len()).filter(|&i| kind(v[i]) != kind(v[i - 1])).collect(),
        _ => (0..v.len()).collect(),
    };
    let i = if places.is_empty() { v.len() } else { *rng.pick(&places) };
    // inserted, or in the place of what was there
    let mut j = i;
    match rng.below(6) {
        0 if j < v.len() => j += 1,
        1 => {
            while j < v.len() && kind(v[j]) == kind(v[i]) {
                j += 1;
            }
        }
        _ => (),
    }
    let mut r: String = v[..i].iter().collect();
    r.push_str(&o);
    r.extend(&v[j..]);
    r
}

pub fn text(rng: &mut Rng, rules: &Rules, al: &[char]) -> String {
    let fuel = match rng.below(10) {
        0..=6 => 60,
        7 | 8 => 300,
        _ => 2000,
    };
    match rng.below(10) {
        0 => String::new(),
        1 | 2 => {
            let n = rng.log(12);
            string(rng, al, n)
        }
        3..=6 => derive(rng, rules, al, fuel),
        7 | 8 => {
            let s = derive(rng, rules, al, fuel);
            mutate(rng, &s, al)
        }
        _ => {
            let n = rng.log(60);
            string(rng, al, n)
        }
    }
}

pub fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

/// grammars simple to match over long texts, to push positions, counters and buffers past
/// 2^8, 2^16 and typical buffer sizes
pub fn long_case(rng: &mut Rng) -> (Rules, String) {
    let al = alphabet(rng);
    let a = *rng.pick(&al);
    let b = *rng.pick(&al);
    let n = match rng.below(7) {
        0 => rng.range(250, 260),
        1 => rng.range(500, 1100),
        2 => rng.range(2000, 5000),
        3 => rng.range(60_000, 70_000),
        4 => 255 + rng.below(4),
        5 => 65_533 + rng.below(6),
        _ => rng.log(9000),
    };
    // lines are kept short enough: an error copies its line, and long scans make many errors
    let kind = rng.below(8);
    let one_line = rng.chance(1, 3) && [0, 3, 4, 7].contains(&kind);
    let line = if one_line { n + 1 } else { rng.range(1, 120) };
    let mut t = String::new();
    for i in 0..n {
        if i % line == line - 1 {
            t.push_str(rng.pick::<&str>(&["\n", "\n", "\r\n", "\r"]));
        } else {
            t.push(if rng.chance(1, 2) { a } else { b });
        }
    }
    let mut r = Rules::new();
    let dots = |e: E| E::Rep(Box::new(e), 0, None);
    let bl = |e: E| Box::new(e);
    let r1 = |s: &str| E::Ref(s.into());
    match kind {
        0 => {
            r.insert("main".into(), dots(E::Dot));
        }
        7 => {
            r.insert("main".into(), E::And(vec![dots(E::Dot), E::Lit(a.to_string())]));
        }
        1 => {
            r.insert("main".into(), dots(r1("c")));
            r.insert("c".into(), E::Or(vec![E::Lit(a.to_string()), E::Lit(b.to_string()), E::Class("\r\n".into(), vec![])]));
        }
        2 => {
            r.insert("main".into(), E::And(vec![dots(E::And(vec![E::Not(bl(E::Lit("@".into()))), E::Dot])), E::Lit("@".into())]));
            if rng.chance(2, 3) {
                t.push('@');
            }
        }
        3 => {
            // exact number of characters
            let k = t.chars().count();
            let (lo, hi) = match rng.below(4) {
                0 => (k, Some(k)),
                1 => (k + 1, None),
                2 => (0, Some(k.saturating_sub(1))),
                _ => (k.saturating_sub(1), Some(k + 1)),
            };
            r.insert("main".into(), E::Rep(bl(E::Dot), lo, hi));
        }
        4 => {
            // one literal with the whole text, maybe not exactly
            let mut l = t.clone();
            if rng.chance(1, 2) {
                l.push('!');
            }
            r.insert("main".into(), E::Lit(l));
        }
        5 => {
            // lines
            r.insert("main".into(), dots(r1("line")));
            r.insert(
                "line".into(),
                E::And(vec![dots(E::And(vec![E::Not(bl(r1("nl"))), E::Dot])), r1("nl")]),
            );
            r.insert("nl".into(), E::Or(vec![E::Lit("\r\n".into()), E::Lit("\n".into()), E::Lit("\r".into())]));
            if rng.chance(1, 2) {
                t.push('\n');
            }
        }
        _ => {
            r.insert("main".into(), E::And(vec![dots(E::Class("\r\n".into(), vec![(a.min(b), a.max(b))])), E::Eof]));
        }
    }
    if rng.chance(1, 3) {
        t = mutate(rng, &t, &al);
    }
    (r, t)
}

/// random trees for the AST operations
pub fn tree(rng: &mut Rng, names: &[String], depth: usize, width: usize, budget: &mut usize) -> N {
    fn kids(rng: &mut Rng, names: &[String], depth: usize, width: usize, budget: &mut usize) -> Vec<N> {
        let n = if width > 12 { rng.log(width) } else { rng.below(width + 1) };
        let mut v = vec![];
        for _ in 0..n {
            if *budget == 0 {
                break;
            }
            *budget -= 1;
            let k = rng.below(10);
            v.push(if depth == 0 || k < 5 {
                if rng.chance(1, 14) {
                    N::Eof
                } else {
                    N::Val(val(rng))
                }
            } else {
                let nm = rng.pick(names).clone();
                N::Rule(nm, kids(rng, names, depth - 1, width, budget))
            });
        }
        v
    }
    if rng.chance(1, 40) {
        return if rng.chance(1, 3) { N::Eof } else { N::Val(val(rng)) };
    }
    let nm = rng.pick(names).clone();
    N::Rule(nm, kids(rng, names, depth, width, budget))
}

fn val(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => String::new(),
        1..=7 => rng.pick(&["a", "b", "c", " ", "hello", "x"]).to_string(),
        8 => any_char(rng).to_string(),
        9 => rng.pick(&["é", "\n", "EOF", "_", "main", "1", "\"", "\\"]).to_string(),
        _ => {
            let n = rng.log(30);
            (0..n).map(|_| any_char(rng)).collect()
        }
    }
}

pub fn names(rng: &mut Rng) -> Vec<String> {
    let pool = ["a", "b", "_", "_1", "main", "root", "", "A", "ab", "a ", "é", "expr", "node1", "node1.1", "EOF", "x", "_eol", "aa"];
    let n = rng.range(1, 8);
    let mut v: Vec<String> = (0..n).map(|_| rng.pick(&pool).to_string()).collect();
    if rng.chance(1, 3) {
        let x = rng.pick(&v).clone();
        v.push(near_name(rng, &x));
    }
    v
}

/// grammars composed of the idioms of real ones: separated lists, delimited bodies, escapes,
/// keywords, optional parts, lookahead, error alternatives
pub fn idioms(rng: &mut Rng) -> Rules {
    let seps: &[&str] = &[" ", ",", ", ", ";", "\n", "\r\n", " ", "\t", "--", "é", "::", "/"];
    let opens: &[(&str, &str)] = &[("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("\"", "\""), ("'", "'"), ("/*", "*/"), ("begin", "end"), ("<!", "!>"), ("«", "»")];
    let words: &[&str] = &["if", "ifx", "in", "int", "a", "ab", "abc", "b", "x", "1", "10", "é", "éa", "not", "n", "==", "=", "<=", "<", ""];
    let mut r = Rules::new();
    let n = rng.range(1, 4);
    let names: Vec<String> = std::iter::once("main".to_string()).chain((1..n).map(|i| format!("r{}", i))).collect();
    struct C<'a> {
        seps: &'a [&'a str],
        opens: &'a [(&'a str, &'a str)],
        words: &'a [&'a str],
        names: &'a [String],
    }
    fn b(e: E) -> Box<E> {
        Box::new(e)
    }
    fn l(s: &str) -> E {
        E::Lit(s.into())
    }
    fn star(e: E) -> E {
        E::Rep(b(e), 0, None)
    }
    fn opt(e: E) -> E {
        E::Rep(b(e), 0, Some(1))
    }
    fn word(rng: &mut Rng, c: &C) -> E {
        match rng.below(8) {
            0..=3 => l(rng.pick::<&str>(c.words)),
            4 => E::Class("".into(), vec![('a', 'z')]),
            5 => E::Class("_".into(), vec![('a', 'c'), ('0', '9')]),
            6 => E::Rep(b(E::Class("".into(), vec![('a', 'b')])), 1, None),
            _ => E::Rep(b(E::Class("".into(), vec![('0', '9')])), 1, if rng.chance(1, 2) { Some(3) } else { None }),
        }
    }
    fn ex(rng: &mut Rng, c: &C, depth: usize) -> E {
        if depth == 0 {
            return word(rng, c);
        }
        let d = depth - 1;
        let sep = *rng.pick(c.seps);
        let (op, cl) = *rng.pick(c.opens);
        let ws = || star(l(" "));
        match rng.below(16) {
            0 | 1 => {
                // list
                let x = ex(rng, c, d);
                let it = match rng.below(4) {
                    0 => vec![l(sep), x.clone()],
                    1 => vec![ws(), l(sep), ws(), x.clone()],
                    2 => vec![E::Rep(b(l(sep)), 1, None), x.clone()],
                    _ => vec![l(sep), E::Or(vec![x.clone(), E::Err("item expected".into())])],
                };
                let mut v = vec![x, star(E::And(it))];
                match rng.below(4) {
                    0 => v.push(opt(l(sep))),
                    1 => v.push(l(sep)),
                    _ => (),
                }
                E::And(v)
            }
            2 => {
                // items before separators
                let x = ex(rng, c, d);
                let y = word(rng, c);
                E::And(vec![star(E::And(vec![x, l(sep)])), if rng.chance(1, 2) { y } else { opt(y) }])
            }
            3 => {
                // items that bring their own separator
                let x = ex(rng, c, d);
                let y = word(rng, c);
                E::And(vec![star(E::Or(vec![x.clone(), E::And(vec![l(sep), x])])), l(sep), y])
            }
            4 | 5 => {
                let x = ex(rng, c, d);
                let end = if rng.chance(1, 3) { E::Or(vec![l(cl), E::Err(format!("missing {}", cl))]) } else { l(cl) };
                E::And(vec![l(op), if rng.chance(1, 3) { ws() } else { l("") }, x, end])
            }
            6 => E::And(vec![l(op), star(E::And(vec![E::Not(b(l(cl))), E::Dot])), l(cl)]),
            7 => {
                // body with escapes or nesting
                let esc = match rng.below(3) {
                    0 => E::And(vec![l("\\"), E::Dot]),
                    1 => l(&format!("{}{}", cl, cl)),
                    _ => E::And(vec![l(op), star(E::And(vec![E::Not(b(l(cl))), E::Dot])), l(cl)]),
                };
                E::And(vec![l(op), star(E::Or(vec![esc, E::And(vec![E::Not(b(l(cl))), E::Dot])])), l(cl)])
            }
            8 => {
                let k = rng.range(2, 5);
                E::Or((0..k).map(|_| if rng.chance(1, 2) { word(rng, c) } else { ex(rng, c, d) }).collect())
            }
            9 => {
                // keyword not followed by a letter, or anything else
                let w = l(rng.pick::<&str>(c.words));
                let k = E::And(vec![w.clone(), E::Not(b(E::Class("".into(), vec![('a', 'z')])))]);
                let id = E::Rep(b(E::Class("".into(), vec![('a', 'z')])), 1, None);
                match rng.below(3) {
                    0 => E::Or(vec![k, id]),
                    1 => E::And(vec![E::Not(b(k)), id]),
                    _ => E::And(vec![k, star(l(" ")), id]),
                }
            }
            10 => {
                let p = word(rng, c);
                let x = ex(rng, c, d);
                let s = word(rng, c);
                E::And(vec![opt(p), x, opt(E::And(vec![l(sep), s]))])
            }
            11 => {
                let x = ex(rng, c, d);
                let lo = rng.below(4);
                E::Rep(b(x), lo, if rng.chance(1, 2) { Some(lo + rng.below(4).max(1)) } else { None })
            }
            12 => {
                let x = ex(rng, c, d);
                E::And(vec![ws(), x, ws()])
            }
            13 => {
                // lines
                let x = ex(rng, c, d);
                E::Rep(b(E::And(vec![x, E::Or(vec![l("\r\n"), l("\n"), l("\r")])])), rng.below(2), None)
            }
            14 => {
                // the same start, told apart later
                let x = ex(rng, c, d);
                let y = word(rng, c);
                let z = word(rng, c);
                E::Or(vec![E::And(vec![x.clone(), y]), E::And(vec![x.clone(), l(sep), z]), x])
            }
            _ => E::Ref(rng.pick(c.names).clone()),
        }
    }
    let c = C { seps, opens, words, names: &names };
    for nm in &names {
        let d = rng.range(1, 4);
        let e = ex(rng, &c, d);
        r.insert(nm.clone(), e);
    }
    if rng.chance(1, 3) {
        let m = r["main"].clone();
        r.insert("main".into(), E::And(vec![m, E::Not(b(E::Dot))]));
    }
    r
}

/// names that only just differ from a name, and that PEG text can have if it can have that one
pub fn near_symbol(rng: &mut Rng, n: &str) -> String {
    let swap = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let len = n.chars().count();
    match rng.below(12) {
        0 | 1 => n.chars().map(swap).collect(),
        2 | 3 if len > 0 => {
            let i = rng.below(len);
            n.chars().enumerate().map(|(j, c)| if i == j { swap(c) } else { c }).collect()
        }
        4 => format!("{}{}", n, rng.below(10)),
        5 => format!("{}_", n),
        6 => format!("_{}", n.trim_start_matches('.')),
        7 => format!("{}'", n),
        8 if !n.starts_with('.') => format!(".{}", n),
        9 if !n.starts_with('.') => format!("x.{}", n),
        10 => {
            let mut s = n.to_string();
            for _ in 0..if rng.chance(1, 2) { 1 } else { rng.range(1, 9) } {
                s.push('.');
                s.push_str(rng.pick::<&str>(&["x", "a", "y", "x", "main", "1", "_"]));
            }
            s
        }
        _ => format!("{}{}", n, n.trim_start_matches('.')),
    }
}

/// very deep texts
pub fn deep_case(rng: &mut Rng) -> (Rules, Vec<String>) {
    let n = match rng.below(4) {
        0 => rng.range(990, 1030),
        1 => rng.range(2000, 2100),
        2 => rng.range(400, 3000),
        _ => 4100,
    };
    let l = |s: &str| E::Lit(s.into());
    let m = || E::Ref("main".into());
    let mut r = Rules::new();
    r.insert(
        "main".into(),
        match rng.below(4) {
            0 => E::Or(vec![E::And(vec![l("("), m(), l(")")]), l("a")]),
            1 => E::And(vec![l("("), E::Rep(Box::new(E::Or(vec![m(), l("a")])), 0, None), l(")")]),
            2 => E::Or(vec![E::And(vec![l("("), E::Not(Box::new(l(")"))), E::Ref("in".into()), E::Or(vec![l(")"), E::Err("open".into())])]), l("a")]),
            _ => E::And(vec![l("("), E::Rep(Box::new(m()), 0, Some(1)), E::Rep(Box::new(l("a")), 0, None), l(")")]),
        },
    );
    r.insert("in".into(), m());
    let t = format!("{}a{}", "(".repeat(n), ")".repeat(n));
    let mut ts = vec![t.clone()];
    ts.push(if rng.chance(1, 2) { mutate(rng, &t, &['(', ')', 'a']) } else { t[..t.len() - 1].to_string() });
    (r, ts)
}

/// the same rules after a long literal (the text begins with it): everything happens far from the start
pub fn shifted(rng: &mut Rng, rules: &Rules, texts: &[String], n: usize) -> (Rules, Vec<String>) {
    let line = match rng.below(4) {
        0 => 1,
        1 => 200,
        2 => rng.range(1, 70),
        _ => n + 2,
    };
    let nl = *rng.pick::<&str>(&["\n", "\n", "\r\n", "\r"]);
    let c = *rng.pick(&['a', 'a', '=', 'é', '€', '😀']);
    let mut pre = String::with_capacity(n + 8);
    let mut k = 0;
    while k < n {
        if k % line == line - 1 {
            pre.push_str(nl);
            k += nl.len();
        } else {
            pre.push(c);
            k += 1;
        }
    }
    if n < 1_000_000 && rng.chance(1, 2) {
        pre.push('\n');
    }
    let away = |e: &E| e.map(&|x| if *x == E::Ref("main".into()) { Some(E::Ref("inner".into())) } else { None });
    let mut r: Rules = rules.iter().map(|(k, e)| (if k == "main" { "inner".into() } else { k.clone() }, away(e))).collect();
    r.insert("main".into(), E::And(vec![E::Lit(pre.clone()), E::Ref("inner".into())]));
    (r, texts.iter().map(|t| format!("{}{}", pre, t)).collect())
}

/// positions, rows or numbers of iterations in the millions
pub fn far_case(rng: &mut Rng) -> (Rules, Vec<String>) {
    let r1 = |s: &str| E::Ref(s.into());
    let mut r = Rules::new();
    if rng.chance(1, 3) {
        // iterations; short lines, as every failure copies its line
        let n = (1usize << 20) + if rng.chance(1, 2) { rng.below(8) } else { rng.log(70_000) } - 2;
        let mut t = String::with_capacity(n + 1);
        for i in 0..n {
            t.push(if i % 50 == 49 { '\n' } else { 'x' });
        }
        let all = match rng.below(3) {
            0 => E::Dot,
            1 => E::Class("\n".into(), vec![('a', 'z')]),
            _ => r1("c"),
        };
        r.insert("c".into(), E::Or(vec![E::Lit("x".into()), E::Lit("\n".into())]));
        r.insert("main".into(), E::And(vec![E::Rep(Box::new(all), 0, None), E::Eof]));
        let u = format!("{}{}", t, if rng.chance(1, 2) { "" } else { "!" });
        return (r, vec![u]);
    }
    let k = (1usize << *rng.pick(&[24, 24, 24, 20, 22])) + rng.below(6);
    if rng.chance(1, 2) {
        let (rules, al) = if rng.chance(1, 2) {
            let r = idioms(rng);
            (r, vec!['a', 'b', '\n', ' '])
        } else {
            let al = alphabet(rng);
            let p = Profile { rules: (2, 4), depth: 3, ..profile(rng) };
            (grammar(rng, &p, &al), al)
        };
        let ts: Vec<String> = (0..2).map(|_| text(rng, &rules, &al)).collect();
        return shifted(rng, &rules, &ts, k - 3);
    }
    r.insert("main".into(), E::And(vec![E::Rep(Box::new(r1("x")), 1, None), E::Lit("b".into()), E::Not(Box::new(r1("x"))), E::Rep(Box::new(E::Lit("\n".into())), 0, Some(1)), r1("y")]));
    r.insert("y".into(), E::Rep(Box::new(r1("x")), 0, Some(2)));
    r.insert("x".into(), E::Or(vec![E::And(vec![E::Lit("a".into()), E::Class("\n".into(), vec![('b', 'd')])]), E::Lit("aa".into())]));
    let al = ['a', 'a', 'b', 'c', '\n'];
    let t = (0..rng.range(2, 8)).map(|_| *rng.pick(&al)).collect::<String>();
    shifted(rng, &r, &[t], k - 3)
}

/// names that only just differ from a name
pub fn near_name(rng: &mut Rng, n: &str) -> String {
    match rng.below(16) {
        0 => format!(".{}", n),
        1 => format!("{}.", n),
        2 => format!(" {}", n),
        3 => format!("{} ", n),
        4 => n.to_uppercase(),
        5 => format!("{}1", n),
        6 => format!("_{}", n),
        7 => format!("{}_", n),
        8 => format!("x.{}", n),
        9 => format!("{}.x", n),
        10 => format!("{}'", n),
        11 => format!("r:{}", n),
        12 => n.chars().skip(1).collect(),
        13 => format!("{}\n", n),
        14 => format!("{}\u{301}", n),
        _ => format!("{}{}", n, n),
    }
}

/// bounds around powers of two, up to the largest number
fn huge_rep(rng: &mut Rng, x: Box<E>) -> E {
    let near = |rng: &mut Rng| {
        let k = *rng.pick(&[7, 8, 15, 16, 16, 31, 32, 32, 63]);
        ((1u64 << k) + rng.below(6) as u64 - 2) as usize
    };
    let max = match rng.below(4) {
        0 => usize::MAX - rng.below(4),
        _ => near(rng),
    };
    let consuming = match *x {
        E::Lit(ref s) => !s.is_empty(),
        E::Class(..) | E::Dot => true,
        _ => false,
    };
    let min = match rng.below(4) {
        0 if consuming => near(rng).min(max),
        1 if consuming => max,
        _ => rng.below(3),
    };
    E::Rep(x, min, if rng.chance(1, 8) { None } else { Some(max) })
}

/// a sequence or a choice of many simple items, with texts that reach all of them
pub fn wide_case(rng: &mut Rng) -> (Rules, Vec<String>) {
    let al = alphabet(rng);
    let n = match rng.below(6) {
        0 => rng.range(2, 6),
        1 => (1usize << rng.range(2, 6)) + rng.below(3) - 1,
        2 => rng.range(25, 70),
        _ => rng.range(5, 24),
    };
    let bx = |e: E| Box::new(e);
    let rf = |s: &str| E::Ref(s.into());
    let p = Profile { rules: (1, 1), depth: 2, arity: 2, peg: false, eof: false, missing: false, errors: false, rep_max: 3, names: 0 };
    let g = G { p, al: &al, names: vec!["a".into(), "b".into()] };
    let mut r = Rules::new();
    let word = |rng: &mut Rng| {
        let k = rng.below(4);
        string(rng, &al, k)
    };
    r.insert("a".into(), E::Lit(word(rng)));
    r.insert("b".into(), g.class(rng));
    let simple = |rng: &mut Rng, kind: usize| match kind {
        0 => E::Lit(word(rng)),
        1 => g.class(rng),
        2 => rf(if rng.chance(1, 2) { "a" } else { "b" }),
        3 => E::Dot,
        4 => E::Not(bx(E::Lit(word(rng)))),
        5 => E::Rep(bx(E::Lit(string(rng, &al, 1))), rng.below(2), None),
        6 => E::Rep(bx(E::Lit(string(rng, &al, 1))), 0, Some(1)),
        7 => E::Eof,
        8 => E::Not(bx(g.class(rng))),
        9 => E::Lit(String::new()),
        10 => {
            let d = 2;
            g.expr(rng, d)
        }
        11 => E::Not(bx(E::Dot)),
        12 => E::Err(format!("m{}", word(rng))),
        13 => E::And(vec![E::Lit(word(rng)), E::Lit(word(rng))]),
        _ => E::Or(vec![E::Lit(word(rng)), E::Lit(word(rng))]),
    };
    // mostly of one kind
    let kind = *rng.pick(&[0, 0, 0, 1, 2, 3, 13, 14]);
    let mixed = *rng.pick(&[0, 0, 4, 8]);
    let seq = rng.chance(1, 2);
    let mut v: Vec<E> = (0..n)
        .map(|_| {
            let k = if mixed > 0 && rng.chance(1, mixed) { rng.below(if seq { 7 } else { 15 }) } else { kind };
            simple(rng, k)
        })
        .collect();
    if rng.chance(2, 3) {
        // one of another kind at the end, or elsewhere
        let at = match rng.below(4) {
            0 => 0,
            1 => rng.below(n),
            _ => n - 1,
        };
        let k = rng.below(15);
        v[at] = simple(rng, k);
    }
    let wide = if seq { E::And(v.clone()) } else { E::Or(v.clone()) };
    r.insert("w".into(), wide.clone());
    let w = if rng.chance(1, 2) { wide } else { rf("w") };
    let rest = E::Rep(bx(E::Dot), 0, None);
    r.insert(
        "main".into(),
        match rng.below(8) {
            0 | 1 => w,
            2 => E::And(vec![w, rest]),
            3 => E::Rep(bx(w), rng.below(2), None),
            4 => E::And(vec![E::Not(bx(w)), rest]),
            5 => E::And(vec![w.clone(), w]),
            6 => {
                let x = simple(rng, 0);
                E::And(vec![w, x])
            }
            _ => {
                let x = simple(rng, 10);
                E::Or(vec![w, x, rest])
            }
        },
    );
    let mut ts = vec![];
    for i in 0..5 {
        let t = derive(rng, &r, &al, 200);
        ts.push(match i {
            0 | 1 => t,
            2 => format!("{}{}", t, *rng.pick(&al)),
            3 => mutate(rng, &t, &al),
            _ => {
                // what begins like one of the items
                let mut fuel = 50;
                let mut one = String::new();
                let e = rng.pick(&v).clone();
                der(rng, &r, &e, &al, &mut fuel, &mut one, 0);
                let k = rng.below(one.chars().count() + 1);
                let c = if rng.chance(1, 3) { any_char(rng) } else { *rng.pick(&al) };
                format!("{}{}{}", one.chars().take(k).collect::<String>(), c, word(rng))
            }
        });
    }
    (r, ts)
}

/// grammars and texts that are large in one respect: number of alternatives, of elements, of
/// rules, of characters of a class, of levels, of iterations, length of names and literals
pub fn big_case(rng: &mut Rng) -> (Rules, Vec<String>) {
    let al = alphabet(rng);
    let n = match rng.below(8) {
        0 => rng.range(30, 34),
        1 => rng.range(62, 67),
        2 => rng.range(98, 102),
        3 => rng.range(126, 130),
        4 => rng.range(254, 258),
        5 => rng.range(5, 40),
        _ => rng.range(20, 300),
    };
    let bl = |e: E| Box::new(e);
    let r1 = |s: &str| E::Ref(s.into());
    let lit = |s: &str| E::Lit(s.into());
    let mut r = Rules::new();
    let mut ts: Vec<String> = vec![];
    let word = |rng: &mut Rng, i: usize| {
        let c = *rng.pick(&al);
        format!("{}{}", c, i)
    };
    match rng.below(11) {
        10 => {
            // many rules tried at the same place
            let n = if rng.chance(1, 4) { rng.range(200, 700) } else { n };
            let ws: Vec<String> = (0..n).map(|i| format!("{};", word(rng, i))).collect();
            let mut v: Vec<E> = vec![];
            for (i, w) in ws.iter().enumerate() {
                let nm = format!("k{}", i);
                let e = match rng.below(6) {
                    0 => E::And(vec![E::Not(bl(r1(&format!("k{}", rng.below(i + 1))))), lit(w)]),
                    1 => E::Or(vec![lit(w), lit(&format!("{}?", w))]),
                    _ => lit(w),
                };
                // no rule may call itself before it consumes something
                let e = match e {
                    E::And(ref x) if x[0] == E::Not(bl(r1(&nm))) => lit(w),
                    e => e,
                };
                r.insert(nm.clone(), e);
                v.push(r1(&nm));
            }
            if rng.chance(1, 3) {
                rng.shuffle(&mut v);
            }
            r.insert("main".into(), if rng.chance(1, 2) { E::Or(v) } else { E::Rep(bl(E::Or(v)), 1, None) });
            for i in [0, n / 2, n - 1, rng.below(n)] {
                let mut t = ws[i].clone();
                for _ in 0..rng.below(3) {
                    t.push_str(&ws[rng.below(n)]);
                }
                ts.push(t);
            }
        }
        0 | 1 => {
            // many alternatives, the right one anywhere
            let ws: Vec<String> = (0..n).map(|i| word(rng, i)).collect();
            let end = if rng.chance(1, 3) { E::Err("none".into()) } else { E::Dot };
            let mut v: Vec<E> = ws.iter().map(|w| lit(w)).collect();
            if rng.chance(1, 2) {
                v.push(end);
            }
            let o = E::Or(v);
            let one = rng.chance(1, 2);
            r.insert("main".into(), if one { o } else { E::And(vec![E::Rep(bl(o), 1, None), lit(";")]) });
            for i in [0, n / 2, n - 1, rng.below(n)] {
                let mut t = ws[i].clone();
                if !one {
                    t.push_str(&ws[rng.below(n)]);
                    t.push(';');
                }
                ts.push(t);
            }
        }
        2 => {
            // a long sequence
            let ws: Vec<String> = (0..n).map(|i| word(rng, i % 10)).collect();
            let opt = rng.chance(1, 3);
            let v = ws
                .iter()
                .map(|w| match rng.below(6) {
                    0 => E::And(vec![lit(w)]),
                    1 if opt => E::Rep(bl(lit(w)), 0, Some(1)),
                    2 => E::And(vec![E::Not(bl(lit(";"))), lit(w)]),
                    _ => lit(w),
                })
                .collect();
            r.insert("main".into(), E::And(v));
            let t: String = ws.concat();
            ts.push(t.clone());
            ts.push(mutate(rng, &t, &al));
            ts.push(t.chars().take(rng.below(t.chars().count() + 1)).collect());
        }
        3 => {
            // many rules, each reached by way of the previous one
            let long = rng.chance(1, 3);
            let nm = |i: usize| match (i, long) {
                (0, _) => "main".to_string(),
                (_, true) => format!("{}{}", "n".repeat(i), i),
                _ => format!("rule{}", i),
            };
            let how = rng.below(4);
            for i in 0..n {
                let c = lit(&word(rng, i % 7));
                let next = r1(&nm(i + 1));
                let e = if i + 1 == n {
                    E::Rep(bl(E::Dot), 0, None)
                } else {
                    match how {
                        0 => E::And(vec![c, next]),
                        1 => E::Or(vec![E::And(vec![c.clone(), next]), c]),
                        2 => E::And(vec![E::Rep(bl(c), 0, Some(1)), next]),
                        _ => next,
                    }
                };
                r.insert(nm(i), e);
            }
            let t = derive(rng, &r, &al, 3 * n);
            ts.push(t.clone());
            ts.push(mutate(rng, &t, &al));
            ts.push(String::new());
        }
        4 => {
            // a class of many characters or ranges
            let mut cs = String::new();
            let mut rs = vec![];
            for _ in 0..n {
                if rng.chance(1, 2) {
                    cs.push(any_char(rng));
                } else {
                    let a = any_char(rng);
                    rs.push((a, char::from_u32(a as u32 + rng.below(4) as u32).unwrap_or(a)));
                }
            }
            let c = E::Class(cs.clone(), rs.clone());
            for _ in 0..4 {
                let mut t: String = (0..rng.range(1, 5)).map(|_| class_char(rng, &cs, &rs)).collect();
                if rng.chance(1, 3) {
                    t.push(any_char(rng));
                }
                ts.push(t);
            }
            r.insert("main".into(), E::Rep(bl(c), 1, None));
        }
        5 | 6 => {
            // nested text
            let (o, c) = (word(rng, 1), word(rng, 2));
            let inner = match rng.below(4) {
                0 => E::Rep(bl(r1("main")), 0, None),
                1 => E::Or(vec![r1("main"), lit("x"), lit("")]),
                2 => E::And(vec![E::Not(bl(lit("!"))), E::Or(vec![r1("main"), lit("x")])]),
                _ => E::Rep(bl(E::And(vec![E::Rep(bl(lit(" ")), 0, None), r1("main")])), 0, Some(2)),
            };
            let end = if rng.chance(1, 3) { E::Or(vec![lit(&c), E::Err("unbalanced".into())]) } else { lit(&c) };
            r.insert("main".into(), E::And(vec![lit(&o), inner, end]));
            let n = n.min(120);
            let t = format!("{}{}{}", o.repeat(n), if rng.chance(1, 2) { "x" } else { "" }, c.repeat(n));
            ts.push(t.clone());
            ts.push(format!("{}{}", o.repeat(n), c.repeat(n)));
            ts.push(mutate(rng, &t, &al));
        }
        7 => {
            // nested expressions
            let n = n.min(120);
            let a = word(rng, 3);
            let mut e = E::Or(vec![lit(&a), E::Rep(bl(E::Dot), 2, None)]);
            for i in 0..n {
                e = match rng.below(8) {
                    0 => E::Not(bl(E::Not(bl(e)))),
                    1 => E::Or(vec![E::And(vec![lit("no")]), e]),
                    2 => E::Rep(bl(e), 1, Some(1)),
                    3 => E::Rep(bl(e), 0, Some(1)),
                    4 => E::And(vec![E::And(vec![]), e]),
                    5 if i % 16 == 0 => E::And(vec![e, E::Rep(bl(lit(" ")), 0, None)]),
                    6 => E::Or(vec![e]),
                    _ => E::And(vec![e]),
                };
            }
            r.insert("main".into(), e);
            ts.push(a.clone());
            ts.push(format!("{} ", a));
            ts.push("zz".into());
            ts.push(String::new());
        }
        8 => {
            // exact counts
            let x = E::Or(vec![lit(&word(rng, 1)), E::And(vec![lit("("), E::Rep(bl(lit("-")), 0, Some(n)), lit(")")])]);
            let (lo, hi) = match rng.below(4) {
                0 => (n, Some(n)),
                1 => (n, None),
                2 => (0, Some(n)),
                _ => (n / 2, Some(n)),
            };
            r.insert("main".into(), E::And(vec![E::Rep(bl(x), lo, hi), E::Rep(bl(lit("$")), 0, None)]));
            let one = match &r["main"] {
                E::And(v) => match &v[0] {
                    E::Rep(x, ..) => match &**x {
                        E::Or(v) => match &v[0] {
                            E::Lit(s) => s.clone(),
                            _ => String::new(),
                        },
                        _ => String::new(),
                    },
                    _ => String::new(),
                },
                _ => String::new(),
            };
            for k in [n, n + 1, n - 1, n / 2] {
                let mut t = one.repeat(k);
                if rng.chance(1, 3) {
                    t.push_str(&format!("({})", "-".repeat(rng.range(n.saturating_sub(2), n + 1))));
                }
                ts.push(t);
            }
        }
        _ => {
            // many items of a mixed list
            r.insert("main".into(), E::And(vec![r1("it"), E::Rep(bl(E::And(vec![lit(","), r1("it")])), 0, None)]));
            r.insert("it".into(), E::Or(vec![r1("num"), r1("par"), E::And(vec![])]));
            r.insert("num".into(), E::Rep(bl(E::Class("".into(), vec![('0', '9')])), 1, None));
            r.insert("par".into(), E::And(vec![lit("["), r1("main"), lit("]")]));
            let mut t = String::new();
            let mut open = 0;
            for i in 0..n {
                match rng.below(8) {
                    0 => {
                        t.push('[');
                        open += 1;
                        continue;
                    }
                    1 if open > 0 => {
                        t.push(']');
                        open -= 1;
                    }
                    2 => (),
                    _ => t.push_str(&i.to_string()),
                }
                t.push(',');
            }
            t.push_str(&"]".repeat(open));
            ts.push(t.clone());
            ts.push(mutate(rng, &t, &['1', ',', '[', ']']));
        }
    }
    (r, ts)
}
