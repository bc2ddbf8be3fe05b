//! PEG text: the documented grammar of grammars as model data, what a text denotes, and a
//! renderer that writes a grammar in a random layout. Independent of dynparser's own rules.

use crate::model::{self, E, Limits, N, Rules};
use crate::rng::Rng;

fn l(s: &str) -> E {
    E::Lit(s.into())
}
fn a(v: Vec<E>) -> E {
    E::And(v)
}
fn o(v: Vec<E>) -> E {
    E::Or(v)
}
fn not(e: E) -> E {
    E::Not(Box::new(e))
}
fn star(e: E) -> E {
    E::Rep(Box::new(e), 0, None)
}
fn plus(e: E) -> E {
    E::Rep(Box::new(e), 1, None)
}
fn opt(e: E) -> E {
    E::Rep(Box::new(e), 0, Some(1))
}
fn r(s: &str) -> E {
    E::Ref(s.into())
}
fn cls(c: &str, rs: &[(char, char)]) -> E {
    E::Class(c.into(), rs.to_vec())
}

/// the documented PEG grammar of PEG grammars
pub fn meta() -> Rules {
    let alnum = [('a', 'z'), ('A', 'Z'), ('0', '9')];
    let hex = [('0', '9'), ('A', 'F')];
    let q = "_\"";
    let v: Vec<(&str, E)> = vec![
        ("main", r("grammar")),
        ("grammar", plus(o(vec![r("rule"), r("module")]))),
        (
            "module",
            a(vec![r("_"), r("mod_name"), r("_"), l("{"), r("_"), r("grammar"), r("_"), l("}"), r("_eol"), r("_")]),
        ),
        ("mod_name", r("symbol")),
        ("symbol", a(vec![cls("_", &alnum), star(cls("_'\"", &alnum))])),
        (
            "rule",
            a(vec![r("_"), r("rule_name"), r("_"), l("="), r("_"), r("expr"), r("_eol"), r("_")]),
        ),
        ("rule_name", a(vec![opt(l(".")), r("symbol"), star(a(vec![l("."), r("symbol")]))])),
        ("expr", r("or")),
        ("or", a(vec![r("and"), opt(a(vec![r("_"), l("/"), r("_"), r("or")]))])),
        ("error", a(vec![l("error"), r("_"), l("("), r("_"), r("literal"), r("_"), l(")")])),
        (
            "and",
            o(vec![
                r("error"),
                a(vec![
                    r("rep_or_neg"),
                    star(a(vec![
                        r("_1"),
                        r("_"),
                        not(a(vec![r("rule_name"), r("_"), o(vec![l("="), l("{")])])),
                        r("and"),
                    ])),
                ]),
            ]),
        ),
        ("_1", o(vec![l(" "), r("eol")])),
        (
            "rep_or_neg",
            o(vec![
                a(vec![r("atom_or_par"), opt(o(vec![l("*"), l("+"), l("?")]))]),
                a(vec![l("!"), r("atom_or_par")]),
            ]),
        ),
        ("atom_or_par", o(vec![r("atom"), r("parenth")])),
        (
            "parenth",
            a(vec![
                l("("),
                r("_"),
                r("expr"),
                r("_"),
                o(vec![l(")"), E::Err("unbalanced parethesis: missing ')'".into())]),
            ]),
        ),
        ("atom", o(vec![r("literal"), r("match"), r("rule_name"), r("dot")])),
        ("literal", o(vec![r("lit_noesc"), r("lit_esc")])),
        ("lit_noesc", a(vec![r("_'"), star(a(vec![not(r("_'")), E::Dot])), r("_'")])),
        ("_'", l("'")),
        (
            "lit_esc",
            a(vec![
                r(q),
                star(o(vec![r("esc_char"), r("hex_char"), a(vec![not(r(q)), E::Dot])])),
                r(q),
            ]),
        ),
        (q, l("\"")),
        ("esc_char", o(vec![l("\\r"), l("\\n"), l("\\t"), l("\\\\"), l("\\\"")])),
        ("hex_char", a(vec![l("\\0x"), cls("", &hex), cls("", &hex)])),
        ("eol", o(vec![l("\r\n"), l("\n"), l("\r")])),
        ("_eol", a(vec![star(o(vec![l(" "), r("comment")])), r("eol")])),
        (
            "match",
            a(vec![
                l("["),
                o(vec![a(vec![r("mchars"), star(r("mbetween"))]), plus(r("mbetween"))]),
                l("]"),
            ]),
        ),
        ("mchars", plus(a(vec![not(l("]")), not(a(vec![E::Dot, l("-")])), E::Dot]))),
        ("mbetween", a(vec![E::Dot, l("-"), E::Dot])),
        ("dot", l(".")),
        ("_", star(o(vec![l(" "), r("eol"), r("comment")]))),
        ("comment", o(vec![r("line_comment"), r("mline_comment")])),
        ("line_comment", a(vec![l("//"), star(a(vec![not(r("eol")), E::Dot]))])),
        ("mline_comment", a(vec![l("/*"), star(a(vec![not(l("*/")), E::Dot])), l("*/")])),
    ];
    v.into_iter().map(|(n, e)| (n.to_string(), e)).collect()
}

pub const META_LIMITS: Limits = Limits { steps: 3_000_000, depth: 6000 };

// ------------------------------------------------------------------------------- denotation

fn kids(n: &N) -> &[N] {
    match n {
        N::Rule(_, v) => v,
        _ => &[],
    }
}
fn name(n: &N) -> &str {
    match n {
        N::Rule(s, _) => s,
        _ => "",
    }
}
fn txt(n: &N) -> String {
    let mut s = String::new();
    n.text(&mut s);
    s
}
fn sub<'a>(n: &'a N, nm: &str) -> Option<&'a N> {
    kids(n).iter().find(|k| name(k) == nm)
}

/// the rules denoted by a derivation tree of the grammar of grammars
pub fn denote(main: &N) -> Rules {
    d_grammar(sub(main, "grammar").expect("grammar"))
}

fn d_grammar(g: &N) -> Rules {
    let mut out = Rules::new();
    for k in kids(g) {
        match name(k) {
            "rule" => {
                let nm = txt(sub(k, "rule_name").expect("rule_name"));
                out.insert(nm, d_expr(sub(k, "expr").expect("expr")));
            }
            "module" => {
                for (n, e) in d_grammar(sub(k, "grammar").expect("grammar")) {
                    out.entry(n).or_insert(e);
                }
            }
            _ => (),
        }
    }
    out
}

fn one(mut v: Vec<E>, f: fn(Vec<E>) -> E) -> E {
    if v.len() == 1 {
        v.pop().unwrap()
    } else {
        f(v)
    }
}

fn d_expr(e: &N) -> E {
    let mut alts = vec![];
    let mut cur = sub(e, "or");
    while let Some(or) = cur {
        let mut items = vec![];
        d_and(sub(or, "and").expect("and"), &mut items);
        alts.push(one(items, E::And));
        cur = sub(or, "or");
    }
    one(alts, E::Or)
}

fn d_and(n: &N, items: &mut Vec<E>) {
    for k in kids(n) {
        match name(k) {
            "error" => items.push(E::Err(d_literal(sub(k, "literal").expect("literal")))),
            "rep_or_neg" => items.push(d_rep(k)),
            "and" => d_and(k, items),
            _ => (),
        }
    }
}

fn d_rep(n: &N) -> E {
    let aop = sub(n, "atom_or_par").expect("atom_or_par");
    let e = match sub(aop, "atom") {
        Some(at) => d_atom(&kids(at)[0]),
        None => d_expr(sub(sub(aop, "parenth").expect("parenth"), "expr").expect("expr")),
    };
    let first = matches!(&kids(n)[0], N::Val(v) if v == "!");
    if first {
        return not(e);
    }
    match kids(n).last() {
        Some(N::Val(v)) => match v.as_str() {
            "*" => star(e),
            "+" => plus(e),
            "?" => opt(e),
            x => panic!("indicator {}", x),
        },
        _ => e,
    }
}

fn d_atom(n: &N) -> E {
    match name(n) {
        "literal" => E::Lit(d_literal(n)),
        "rule_name" => E::Ref(txt(n)),
        "dot" => E::Dot,
        "match" => {
            let cs = sub(n, "mchars").map(txt).unwrap_or_default();
            let rs = kids(n)
                .iter()
                .filter(|k| name(k) == "mbetween")
                .map(|k| {
                    let v: Vec<char> = txt(k).chars().collect();
                    (v[0], v[2])
                })
                .collect();
            E::Class(cs, rs)
        }
        x => panic!("atom {}", x),
    }
}

fn d_literal(n: &N) -> String {
    let k = &kids(n)[0];
    if name(k) == "lit_noesc" {
        let t: Vec<char> = txt(k).chars().collect();
        return t[1..t.len() - 1].iter().collect();
    }
    let mut s = String::new();
    let v = kids(k);
    for x in &v[1..v.len() - 1] {
        match name(x) {
            "esc_char" => s.push(match txt(x).as_str() {
                "\\r" => '\r',
                "\\n" => '\n',
                "\\t" => '\t',
                "\\\\" => '\\',
                "\\\"" => '"',
                y => panic!("escape {}", y),
            }),
            "hex_char" => {
                let t = txt(x);
                s.push(u8::from_str_radix(&t[3..], 16).expect("hex") as char)
            }
            _ => s.push_str(&txt(x)),
        }
    }
    s
}

/// what the text is: the rules it denotes, or where it stops being a grammar; None when the
/// model has no answer within its limits
pub fn meaning(meta: &Rules, text: &str) -> Option<(Result<Rules, model::Fail>, model::Events)> {
    let cs: Vec<char> = text.chars().collect();
    let out = model::run(meta, &cs, &META_LIMITS).ok()?;
    Some((out.result.map(|n| denote(&n)), out.events))
}

// ---------------------------------------------------------------------------------- renderer

#[derive(Clone)]
pub struct Layout {
    /// 0: one space everywhere, LF, no comments; larger: wilder
    pub wild: usize,
    pub eol: &'static str,
    pub parens: bool,
    pub modules: bool,
    pub dup: bool,
}

pub fn plain() -> Layout {
    Layout { wild: 0, eol: "\n", parens: false, modules: false, dup: false }
}

pub fn random_layout(rng: &mut Rng) -> Layout {
    Layout {
        wild: *rng.pick(&[0, 1, 1, 2, 2, 3]),
        eol: rng.pick::<&'static str>(&["\n", "\n", "\r\n", "\r"]),
        parens: rng.chance(1, 2),
        modules: rng.chance(1, 4),
        dup: rng.chance(1, 4),
    }
}

pub struct W<'a> {
    pub rng: &'a mut Rng,
    pub lay: Layout,
    pub out: String,
}

const COMMENT_BITS: &[&str] = &[
    "", "x", " hello ", "'", "\"", "a = b", "/", "*", "* /", "//", "(", ")", "[a-z]", "é∑😀", "error(\"x\")",
    " }", "{", "main = 'z'", "\\", "!", "#", "/ / *",
];

impl<'a> W<'a> {
    fn comment(&mut self, may_end_line: bool) -> bool {
        let body: String = (0..self.rng.below(3)).map(|_| self.rng.pick::<&str>(COMMENT_BITS).to_string()).collect();
        if may_end_line && self.rng.chance(1, 2) {
            self.out.push_str("//");
            self.out.push_str(&body);
            let e = self.eol();
            self.out.push_str(e);
            true
        } else {
            let mut body = body;
            if self.rng.chance(1, 4) {
                body.push('\n');
                body.push_str(self.rng.pick::<&str>(COMMENT_BITS));
            }
            let body = body.replace("*/", "* /");
            self.out.push_str("/*");
            self.out.push_str(&body);
            // "/*" + "/" would not close it, and a body ending in '*' is fine
            self.out.push_str("*/");
            false
        }
    }
    fn eol(&mut self) -> &'static str {
        if self.lay.wild >= 2 && self.rng.chance(1, 3) {
            self.rng.pick::<&'static str>(&["\n", "\r\n", "\r"])
        } else {
            self.lay.eol
        }
    }
    /// `_`, maybe nothing
    fn ws(&mut self) {
        match self.lay.wild {
            0 => self.out.push(' '),
            w => {
                let n = if self.rng.chance(1, 3) { 0 } else { 1 + self.rng.log(w) };
                for _ in 0..n {
                    self.blank(w);
                }
            }
        }
    }
    fn blank(&mut self, w: usize) {
        match self.rng.below(if w >= 2 { 8 } else { 5 }) {
            0..=3 => {
                let k = 1 + self.rng.log(4);
                self.out.extend(std::iter::repeat(' ').take(k));
            }
            4 | 5 => {
                let e = self.eol();
                self.out.push_str(e);
            }
            _ => {
                self.comment(true);
            }
        }
    }
    /// at least a space or a line break first (between sequence items, after '/')
    fn sep(&mut self) {
        if self.lay.wild == 0 || self.rng.chance(2, 3) {
            self.out.push(' ');
        } else {
            let e = self.eol();
            self.out.push_str(e);
        }
        if self.lay.wild > 0 && self.rng.chance(1, 2) {
            self.ws();
        }
    }
    fn end_rule(&mut self) {
        if self.lay.wild > 0 {
            for _ in 0..self.rng.below(3) {
                if self.rng.chance(1, 2) {
                    self.out.push(' ');
                } else if self.lay.wild >= 2 {
                    if self.comment(true) {
                        // the line comment took its line end with it: that one ends the rule
                        if self.rng.chance(1, 2) {
                            self.ws();
                        }
                        return;
                    }
                }
            }
        }
        let e = self.eol();
        self.out.push_str(e);
        if self.lay.wild > 0 {
            self.ws();
        }
    }

    pub fn rules(&mut self, rules: &Rules) {
        let mut v: Vec<(String, E)> = rules.iter().map(|(n, e)| (n.clone(), e.clone())).collect();
        if self.rng.chance(2, 3) {
            self.rng.shuffle(&mut v);
        }
        if self.lay.wild > 0 {
            self.ws();
        }
        self.level(v, 0);
    }

    fn level(&mut self, v: Vec<(String, E)>, depth: usize) {
        let mut i = 0;
        while i < v.len() {
            if self.lay.modules && depth < 4 && self.rng.chance(1, 3) {
                let k = self.rng.range(1, v.len() - i);
                let nm = self.rng.pick::<&str>(&["m", "mod_a", "A", "9x", "_", "main", "it's"]).to_string();
                self.ws();
                self.out.push_str(&nm);
                self.ws();
                self.out.push('{');
                self.ws();
                self.level(v[i..i + k].to_vec(), depth + 1);
                self.ws();
                self.out.push('}');
                self.end_rule();
                // a rule that the outer level defines wins
                if self.lay.dup && self.rng.chance(1, 3) {
                    // nothing to add: clashes are written below
                }
                i += k;
                continue;
            }
            let (n, e) = &v[i];
            if self.lay.dup && self.rng.chance(1, 4) {
                // an earlier definition that must not count
                let junk = self.rng.pick(&[E::Dot, E::Lit("junk".into()), E::Ref("junk".into())]).clone();
                if self.rng.chance(1, 2) || depth > 3 {
                    self.rule(n, &junk);
                } else {
                    // inside a module before it
                    self.ws();
                    self.out.push_str("dup");
                    self.ws();
                    self.out.push('{');
                    self.ws();
                    self.rule(n, &junk);
                    self.ws();
                    self.out.push('}');
                    self.end_rule();
                }
            }
            self.rule(n, e);
            if self.lay.dup && self.rng.chance(1, 6) && depth <= 3 {
                // in a module after it: does not count either
                self.ws();
                self.out.push_str("late");
                self.ws();
                self.out.push('{');
                self.ws();
                self.rule(n, &E::Lit("late".into()));
                self.ws();
                self.out.push('}');
                self.end_rule();
            }
            i += 1;
        }
    }

    /// a tree of modules where few names are defined many times, each time as another literal
    fn skeleton(&mut self, names: &[&str], depth: usize, budget: &mut usize) {
        let n = match self.rng.below(6) {
            0 => 1,
            1 => 1 + self.rng.log(12),
            _ => self.rng.range(1, 4),
        };
        let mut wrote = false;
        for i in 0..n {
            if *budget == 0 && wrote {
                return;
            }
            *budget = budget.saturating_sub(1);
            wrote = true;
            if depth < 7 && *budget > 0 && self.rng.chance(if depth < 2 { 1 } else { 2 }, if depth < 2 { 2 } else { 5 }) {
                let nm = if self.rng.chance(1, 3) { self.rng.pick::<&str>(names).trim_matches('.').replace('.', "_") } else { "m".into() };
                self.ws();
                self.out.push_str(&nm);
                self.ws();
                self.out.push('{');
                self.ws();
                self.skeleton(names, depth + 1, budget);
                self.ws();
                self.out.push('}');
                self.end_rule();
            } else {
                let nm = self.rng.pick::<&str>(names).to_string();
                let e = match self.rng.below(8) {
                    0 => E::Ref(self.rng.pick::<&str>(names).to_string()),
                    1 => E::Or(vec![E::Ref(self.rng.pick::<&str>(names).to_string()), E::Lit(format!("{}", i))]),
                    2 => E::Dot,
                    _ => E::Lit(format!("{}_{}_{}", nm, *budget, i)),
                };
                self.rule(&nm, &e);
            }
        }
    }

    pub fn rule(&mut self, n: &str, e: &E) {
        if self.lay.wild > 0 {
            self.ws();
        }
        self.out.push_str(n);
        self.ws();
        self.out.push('=');
        self.ws();
        self.expr(e);
        self.end_rule();
    }

    pub fn expr(&mut self, e: &E) {
        match e {
            E::Or(v) if v.len() >= 2 => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        // "//" would start a comment
                        if self.out.ends_with('/') || self.lay.wild == 0 {
                            self.out.push(' ');
                        } else {
                            self.ws();
                        }
                        self.out.push('/');
                        self.sep();
                    }
                    self.seq(x);
                }
            }
            x => self.seq(x),
        }
    }

    fn seq(&mut self, e: &E) {
        match e {
            E::And(v) if v.len() >= 2 && !self.extra_paren() => {
                let n = v.len();
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.sep();
                    }
                    match x {
                        // error(..) cannot be followed by anything when it comes first
                        E::Err(_) if i == 0 && n > 1 => self.paren(x),
                        E::Err(m) if !self.extra_paren() => self.err(m),
                        // the rule called error, without a parenthesis after its name
                        E::Ref(r) if r == "error" && i + 1 == n => self.out.push_str(r),
                        x => self.item(x),
                    }
                }
            }
            E::Ref(r) if r == "error" => self.out.push_str(r),
            E::Err(m) if !self.extra_paren() => self.err(m),
            x => self.item(x),
        }
    }

    fn extra_paren(&mut self) -> bool {
        self.lay.parens && self.rng.chance(1, 6)
    }

    fn err(&mut self, m: &str) {
        self.out.push_str("error");
        if self.lay.wild > 0 {
            self.ws();
        }
        self.out.push('(');
        if self.lay.wild > 0 {
            self.ws();
        }
        self.literal(m);
        if self.lay.wild > 0 {
            self.ws();
        }
        self.out.push(')');
    }

    fn item(&mut self, e: &E) {
        match e {
            E::Not(x) => {
                if self.extra_paren() {
                    return self.paren(e);
                }
                self.out.push('!');
                self.atom(x);
            }
            E::Rep(x, min, max) => {
                if self.extra_paren() {
                    return self.paren(e);
                }
                self.atom(x);
                self.out.push(match (min, max) {
                    (0, None) => '*',
                    (1, None) => '+',
                    (0, Some(1)) => '?',
                    x => panic!("not expressible {:?}", x),
                });
            }
            x => self.atom(x),
        }
    }

    fn paren(&mut self, e: &E) {
        self.out.push('(');
        self.ws();
        self.expr(e);
        self.ws();
        self.out.push(')');
    }

    fn atom(&mut self, e: &E) {
        if self.extra_paren() {
            return self.paren(e);
        }
        match e {
            E::Lit(s) => self.literal(s),
            E::Class(cs, rs) => {
                self.out.push('[');
                self.out.push_str(cs);
                for (x, y) in rs {
                    self.out.push(*x);
                    self.out.push('-');
                    self.out.push(*y);
                }
                self.out.push(']');
            }
            E::Dot => self.out.push('.'),
            E::Ref(n) if n == "error" => {
                self.out.push('(');
                self.ws();
                self.out.push_str(n);
                self.ws();
                self.out.push(')');
            }
            E::Ref(n) => self.out.push_str(n),
            x => self.paren(x),
        }
    }

    pub fn literal(&mut self, s: &str) {
        if !s.contains('\'') && self.rng.chance(1, 2) {
            self.out.push('\'');
            self.out.push_str(s);
            self.out.push('\'');
            return;
        }
        self.out.push('"');
        let v: Vec<char> = s.chars().collect();
        for (i, &c) in v.iter().enumerate() {
            let hex = (c as u32) < 256 && self.rng.chance(1, 8);
            if hex {
                self.out.push_str(&format!("\\0x{:02X}", c as u32));
                continue;
            }
            match c {
                '"' => self.out.push_str("\\\""),
                '\\' => {
                    // a backslash that starts no escape denotes itself
                    let lone = v.get(i + 1).map_or(false, |n| !"rnt\\\"0".contains(*n) && *n != '\n' && *n != '\r');
                    // the next character could itself be written as an escape
                    if lone && (v[i + 1] as u32) >= 256 && self.rng.chance(1, 2) {
                        self.out.push('\\');
                    } else {
                        self.out.push_str("\\\\");
                    }
                }
                '\n' if self.rng.chance(2, 3) => self.out.push_str("\\n"),
                '\r' if self.rng.chance(2, 3) => self.out.push_str("\\r"),
                '\t' if self.rng.chance(2, 3) => self.out.push_str("\\t"),
                c => self.out.push(c),
            }
        }
        self.out.push('"');
    }
}

pub fn render(rng: &mut Rng, rules: &Rules, lay: &Layout) -> String {
    let mut w = W { rng, lay: lay.clone(), out: String::new() };
    w.rules(rules);
    w.out
}

pub fn name_ok(n: &str) -> bool {
    let n = n.strip_prefix('.').unwrap_or(n);
    !n.is_empty()
        && n.split('.').all(|s| {
            let mut it = s.chars();
            let f = match it.next() {
                Some(c) => c,
                None => return false,
            };
            (f == '_' || f.is_ascii_alphanumeric())
                && it.all(|c| c == '_' || c == '\'' || c == '"' || c.is_ascii_alphanumeric())
        })
}

/// rewrite a rule set into the part of it that PEG text can write: no end-of-file, classes
/// without ']' in the list, bounds of * + ?, at least two items
pub fn expressible(rules: &Rules) -> Rules {
    fn fix(e: &E) -> E {
        match e {
            E::And(v) | E::Or(v) if v.is_empty() => E::Lit(String::new()),
            E::And(v) | E::Or(v) if v.len() == 1 => fix(&v[0]),
            E::And(v) => E::And(v.iter().map(fix).collect()),
            E::Or(v) => E::Or(v.iter().map(fix).collect()),
            E::Not(x) => not(fix(x)),
            E::Rep(x, 0, Some(1)) => opt(fix(x)),
            E::Rep(x, 0, _) => star(fix(x)),
            E::Rep(x, _, _) => plus(fix(x)),
            E::Eof => not(E::Dot),
            E::Class(cs, rs) => {
                let mut rs = rs.clone();
                let mut out = String::new();
                let v: Vec<char> = cs.chars().collect();
                for (i, &c) in v.iter().enumerate() {
                    if c == ']' || v.get(i + 1) == Some(&'-') || (c == '-' && i > 0) {
                        rs.push((c, c));
                    } else {
                        out.push(c);
                    }
                }
                if rs.first().map_or(false, |r| r.0 == '-') && !out.is_empty() {
                    // "x--a": move a harmless range in front or drop to single ranges
                    for c in out.chars() {
                        rs.push((c, c));
                    }
                    out.clear();
                }
                if out.is_empty() && rs.is_empty() {
                    return not(E::Lit(String::new()));
                }
                E::Class(out, rs)
            }
            E::Ref(n) if !name_ok(n) => E::Ref("undefined".into()),
            x => x.clone(),
        }
    }
    rules
        .iter()
        .filter(|(n, _)| name_ok(n))
        .map(|(n, e)| (n.clone(), fix(e)))
        .collect()
}

/// normal form up to what cannot be observed: nested sequences and choices flattened,
/// order and repetition inside a class
pub fn normal(rules: &Rules) -> Rules {
    fn nf(e: &E) -> E {
        match e {
            E::And(v) => {
                let mut out = vec![];
                for x in v {
                    match nf(x) {
                        E::And(w) => out.extend(w),
                        x => out.push(x),
                    }
                }
                one(out, E::And)
            }
            E::Or(v) => {
                let mut out = vec![];
                for x in v {
                    match nf(x) {
                        E::Or(w) if !w.is_empty() => out.extend(w),
                        x => out.push(x),
                    }
                }
                one(out, E::Or)
            }
            E::Not(x) => not(nf(x)),
            E::Rep(x, a, b) => E::Rep(Box::new(nf(x)), *a, *b),
            E::Class(c, rs) => {
                let mut cs: Vec<char> = c.chars().collect();
                let mut keep = vec![];
                for &(x, y) in rs {
                    if x == y {
                        cs.push(x)
                    } else if x < y {
                        keep.push((x, y))
                    }
                }
                cs.sort();
                cs.dedup();
                keep.sort();
                keep.dedup();
                E::Class(cs.into_iter().collect(), keep)
            }
            x => x.clone(),
        }
    }
    rules.iter().map(|(n, e)| (n.clone(), nf(e))).collect()
}

/// a grammar text of modules and rules where the same names are defined again and again
pub fn skeleton(rng: &mut Rng) -> String {
    let pool = ["main", "a", "b", "m", ".a", "a.b", ".main", "m.a", "main'", "A", "B", "c", "d", "e", "_", "x1"];
    let most = if rng.chance(1, 3) { pool.len() } else { 4 };
    let k = rng.range(1, most);
    let lay = random_layout(rng);
    let mut budget = 4 + rng.log(60);
    let mut w = W { rng, lay, out: String::new() };
    w.lay.wild = w.lay.wild.min(2);
    w.skeleton(&pool[..k], 0, &mut budget);
    w.out
}
