//! Conversions between the model's types and dynparser's, in both directions.

use crate::model::{E, N, Rules};
use crate::rng::Rng;
use dynparser::ast;
use dynparser::parser::atom::{Atom, MatchRules};
use dynparser::parser::expression::{Expression, MultiExpr, RepInfo, SetOfRules};
use dynparser::{and, dot, ematch, error, lit, not, or, ref_rule, rep, rules};

/// how the real expression is built: the constructors or the macros
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Ctor,
    Macro,
}

pub fn expr(e: &E, st: Style) -> Expression {
    match st {
        Style::Ctor => ctor(e),
        Style::Macro => mac(e),
    }
}

fn ctor(e: &E) -> Expression {
    let s = Style::Ctor;
    match e {
        E::Lit(x) => Expression::Simple(Atom::Literal(x.clone())),
        E::Class(c, r) => Expression::Simple(Atom::Match(MatchRules::init(c, r.clone()))),
        E::Err(m) => Expression::Simple(Atom::Error(m.clone())),
        E::Dot => Expression::Simple(Atom::Dot),
        E::Eof => Expression::Simple(Atom::EOF),
        E::And(v) => Expression::And(MultiExpr::new(v.iter().map(|e| expr(e, s)).collect())),
        E::Or(v) => Expression::Or(MultiExpr::new(v.iter().map(|e| expr(e, s)).collect())),
        E::Not(x) => Expression::Not(Box::new(expr(x, s))),
        E::Rep(x, a, b) => Expression::Repeat(RepInfo::new(Box::new(expr(x, s)), *a, *b)),
        E::Ref(n) => Expression::RuleName(n.clone()),
    }
}

fn mac(e: &E) -> Expression {
    let m = mac;
    match e {
        E::Lit(x) => lit!(x),
        E::Class(c, r) => match r.as_slice() {
            [(a, b)] => ematch!(chlist c, from * a, to * b),
            [(a, b), (x, y)] => ematch!(chlist c, from *a, to *b, from *x, to *y),
            [(a, b), (x, y), (p, q)] => ematch!(chlist c, from *a, to *b, from *x, to *y, from *p, to *q),
            _ => ematch!(chlist c, from2 r.clone()),
        },
        E::Err(x) => error!(x),
        E::Dot => dot!(),
        E::Eof => Expression::Simple(Atom::EOF),
        E::And(v) => match v.as_slice() {
            [] => and!(),
            [a] => and!(m(a)),
            [a, b] => and!(m(a), m(b)),
            [a, b, c] => and!(m(a), m(b), m(c)),
            [a, b, c, d] => and!(m(a), m(b), m(c), m(d)),
            [a, b, c, d, e] => and!(m(a), m(b), m(c), m(d), m(e)),
            [a, b, c, d, e, f] => and!(m(a), m(b), m(c), m(d), m(e), m(f)),
            [a, b, c, d, e, f, g, h, i] => and!(m(a), m(b), m(c), m(d), m(e), m(f), m(g), m(h), m(i)),
            v => Expression::And(MultiExpr::new(v.iter().map(m).collect())),
        },
        E::Or(v) => match v.as_slice() {
            [] => or!(),
            [a] => or!(m(a)),
            [a, b] => or!(m(a), m(b)),
            [a, b, c] => or!(m(a), m(b), m(c)),
            [a, b, c, d] => or!(m(a), m(b), m(c), m(d)),
            [a, b, c, d, e] => or!(m(a), m(b), m(c), m(d), m(e)),
            [a, b, c, d, e, f] => or!(m(a), m(b), m(c), m(d), m(e), m(f)),
            [a, b, c, d, e, f, g, h, i] => or!(m(a), m(b), m(c), m(d), m(e), m(f), m(g), m(h), m(i)),
            v => Expression::Or(MultiExpr::new(v.iter().map(m).collect())),
        },
        E::Not(x) => not!(m(x)),
        E::Rep(x, a, None) => rep!(m(x), *a),
        E::Rep(x, a, Some(b)) => rep!(m(x), *a, *b),
        E::Ref(n) => ref_rule!(n),
    }
}

pub fn empty_set() -> SetOfRules {
    SetOfRules::new(Default::default())
}

/// build the real rule set; the style and the insertion order are chosen at random, they must
/// not matter
pub fn rules(r: &Rules, rng: &mut Rng) -> SetOfRules {
    let mut names: Vec<&String> = r.keys().collect();
    rng.shuffle(&mut names);
    let style = if rng.chance(1, 2) { Style::Macro } else { Style::Ctor };
    if style == Style::Macro && rng.chance(1, 2) {
        let x = |i: usize| expr(&r[names[i]], style);
        match names.as_slice() {
            [] => return rules!(),
            [a] => return rules! { *a => x(0) },
            [a, b] => return rules! { *a => x(0), *b => x(1) },
            [a, b, c] => return rules! { *a => x(0), *b => x(1), *c => x(2) },
            [a, b, c, d] => return rules! { *a => x(0), *b => x(1), *c => x(2), *d => x(3) },
            _ => (),
        }
    }
    match rng.below(3) {
        0 => {
            let mut s = empty_set();
            for n in names {
                s = s.add(n, expr(&r[n], style));
            }
            s
        }
        1 => SetOfRules::new(names.iter().map(|n| (n.to_string(), expr(&r[*n], style))).collect()),
        _ => {
            let k = names.len() / 2;
            let mut a = empty_set();
            let mut b = empty_set();
            for n in &names[..k] {
                a = a.add(n, expr(&r[*n], style));
            }
            for n in &names[k..] {
                b = b.add(n, expr(&r[*n], style));
            }
            a.merge(b)
        }
    }
}

pub fn rules_plain(r: &Rules) -> SetOfRules {
    SetOfRules::new(r.iter().map(|(n, e)| (n.clone(), ctor(e))).collect())
}

/// read a real expression back
pub fn back(e: &Expression) -> E {
    match e {
        Expression::Simple(Atom::Literal(s)) => E::Lit(s.clone()),
        Expression::Simple(Atom::Match(m)) => E::Class(m.chars().to_string(), m.ranges().clone()),
        Expression::Simple(Atom::Error(s)) => E::Err(s.clone()),
        Expression::Simple(Atom::Dot) => E::Dot,
        Expression::Simple(Atom::EOF) => E::Eof,
        Expression::And(v) => E::And(v.0.iter().map(back).collect()),
        Expression::Or(v) => E::Or(v.0.iter().map(back).collect()),
        Expression::Not(x) => E::Not(Box::new(back(x))),
        Expression::Repeat(r) => E::Rep(
            Box::new(back(&r.expression)),
            r.min.to_string().parse().unwrap_or(usize::MAX),
            r.max.as_ref().map(|m| m.to_string().parse().unwrap_or(usize::MAX)),
        ),
        Expression::RuleName(n) => E::Ref(n.clone()),
    }
}

pub fn back_rules(r: &SetOfRules) -> Rules {
    r.0.iter().map(|(n, e)| (n.clone(), back(e))).collect()
}

/// canonical form: the order and repetition of characters and ranges in a class do not matter
pub fn canon(r: &Rules) -> Rules {
    r.iter()
        .map(|(n, e)| {
            (
                n.clone(),
                e.map(&|e| match e {
                    E::Class(c, r) => {
                        let mut cs: Vec<char> = c.chars().collect();
                        cs.sort();
                        cs.dedup();
                        let mut rs = r.clone();
                        rs.sort();
                        rs.dedup();
                        Some(E::Class(cs.into_iter().collect(), rs))
                    }
                    _ => None,
                }),
            )
        })
        .collect()
}

pub fn node(n: &ast::Node) -> N {
    match n {
        ast::Node::Val(v) => N::Val(v.clone()),
        ast::Node::EOF => N::Eof,
        ast::Node::Rule((name, v)) => N::Rule(name.clone(), v.iter().map(node).collect()),
    }
}

pub fn unnode(n: &N) -> ast::Node {
    match n {
        N::Val(v) => ast::Node::Val(v.clone()),
        N::Eof => ast::Node::EOF,
        N::Rule(name, v) => ast::Node::Rule((name.clone(), v.iter().map(unnode).collect())),
    }
}

/// equality without building anything
pub fn same(n: &N, r: &ast::Node) -> bool {
    match (n, r) {
        (N::Val(a), ast::Node::Val(b)) => a == b,
        (N::Eof, ast::Node::EOF) => true,
        (N::Rule(a, v), ast::Node::Rule((b, w))) => {
            a == b && v.len() == w.len() && v.iter().zip(w).all(|(x, y)| same(x, y))
        }
        _ => false,
    }
}
