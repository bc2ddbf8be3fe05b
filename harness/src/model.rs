//! Reference model: an executable definition of PEG matching, written from the property
//! statements (not from the code under test). Deliberately naive: positions are indices on a
//! vector of chars, nothing is shared with dynparser.

use std::collections::BTreeMap;
use std::collections::HashSet;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum E {
    Lit(String),
    Class(String, Vec<(char, char)>),
    Err(String),
    Dot,
    Eof,
    And(Vec<E>),
    Or(Vec<E>),
    Not(Box<E>),
    Rep(Box<E>, usize, Option<usize>),
    Ref(String),
}

pub type Rules = BTreeMap<String, E>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum N {
    Val(String),
    Rule(String, Vec<N>),
    Eof,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum What {
    Lit(String),
    Class(String, Vec<(char, char)>),
    Dot,
    Eof,
    Not,
    EmptyOr,
    Msg(String),
    Missing(String),
    NotConsumed,
}

#[derive(Debug)]
pub struct Trail {
    name: String,
    len: u64,
    prev: Option<Rc<Trail>>,
}

pub fn trail_vec(t: &Option<Rc<Trail>>) -> Vec<String> {
    let mut v = vec![];
    let mut cur = t.clone();
    while let Some(x) = cur {
        v.push(x.name.clone());
        cur = x.prev.clone();
    }
    v.reverse();
    v
}

impl Drop for Trail {
    fn drop(&mut self) {
        // iterative, trails can be long
        let mut cur = self.prev.take();
        while let Some(rc) = cur {
            match Rc::try_unwrap(rc) {
                Ok(mut t) => cur = t.prev.take(),
                Err(_) => break,
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub pos: usize,
    pub critical: bool,
    pub what: What,
    pub trail: Option<Rc<Trail>>,
}

#[derive(Clone)]
struct St {
    pos: usize,
    pot: Option<Rc<Fail>>,
    trail: Option<Rc<Trail>>,
}

/// a rule whose evaluations are counted apart
pub const HEAVY: &str = "heavy!";

/// why the model gives no answer (the case is then not used)
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Abort {
    LeftRecursion,
    Steps,
    Depth,
}

/// what the evaluation went through: the events used to measure coverage
#[derive(Clone, Debug, Default)]
pub struct Events {
    pub steps: u64,
    pub atoms_ok: u64,
    pub atoms_fail: u64,
    pub alt_abandoned: u64,
    pub not_ok: u64,
    pub not_fail: u64,
    pub rep_iter: u64,
    pub rep_end_fail: u64,
    pub rep_end_max: u64,
    pub rep_end_empty: u64,
    pub rep_below_min: u64,
    pub rules_entered: u64,
    pub critical: u64,
    pub max_depth: usize,
    pub nodes: u64,
    /// sum over the steps of the length of the trail
    pub trail_work: u64,
    /// times the rule HEAVY was entered
    pub heavy_entered: u64,
}

pub struct Outcome {
    pub result: Result<N, Fail>,
    pub events: Events,
}

pub struct Limits {
    pub steps: u64,
    pub depth: usize,
}

impl Default for Limits {
    fn default() -> Self {
        Limits { steps: 60_000, depth: 400 }
    }
}

struct M<'a> {
    text: &'a [char],
    rules: &'a Rules,
    lim: &'a Limits,
    ev: Events,
    depth: usize,
    active: HashSet<(&'a str, usize)>,
}

type R = Result<Result<(St, Vec<N>), Rc<Fail>>, Abort>;

pub fn class_has(chars: &str, ranges: &[(char, char)], c: char) -> bool {
    chars.chars().any(|x| x == c) || ranges.iter().any(|&(a, b)| a <= c && c <= b)
}

impl<'a> M<'a> {
    fn fail(&self, st: &St, pos: usize, critical: bool, what: What) -> R {
        Ok(Err(Rc::new(Fail { pos, critical, what, trail: st.trail.clone() })))
    }

    fn rule(&mut self, name: &'a str, mut st: St) -> R {
        let len = st.trail.as_ref().map_or(0, |t| t.len) + 1;
        st.trail = Some(Rc::new(Trail { name: name.to_string(), len, prev: st.trail.take() }));
        self.ev.rules_entered += 1;
        self.ev.heavy_entered += (name == HEAVY) as u64;
        let e = match self.rules.get(name) {
            Some(e) => e,
            None => {
                self.ev.critical += 1;
                return self.fail(&st, st.pos, true, What::Missing(name.to_string()));
            }
        };
        if !self.active.insert((name, st.pos)) {
            return Err(Abort::LeftRecursion);
        }
        let key = (name, st.pos);
        let r = self.eval(e, st)?;
        self.active.remove(&key);
        self.ev.nodes += 1;
        Ok(r.map(|(st, nodes)| (st, vec![N::Rule(name.to_string(), nodes)])))
    }

    fn eval(&mut self, e: &'a E, st: St) -> R {
        self.ev.steps += 1;
        if self.ev.steps > self.lim.steps {
            return Err(Abort::Steps);
        }
        self.ev.trail_work += st.trail.as_ref().map_or(0, |t| t.len);
        self.depth += 1;
        if self.depth > self.lim.depth {
            return Err(Abort::Depth);
        }
        if self.depth > self.ev.max_depth {
            self.ev.max_depth = self.depth;
        }
        let r = self.eval_(e, st);
        self.depth -= 1;
        r
    }

    fn one_char(&mut self, mut st: St, what: What, ok: impl Fn(char) -> bool) -> R {
        match self.text.get(st.pos) {
            None => {
                self.ev.atoms_fail += 1;
                self.fail(&st, st.pos, false, what)
            }
            Some(&c) => {
                if ok(c) {
                    self.ev.atoms_ok += 1;
                    self.ev.nodes += 1;
                    st.pos += 1;
                    Ok(Ok((st, vec![N::Val(c.to_string())])))
                } else {
                    self.ev.atoms_fail += 1;
                    self.fail(&st, st.pos + 1, false, what)
                }
            }
        }
    }

    fn eval_(&mut self, e: &'a E, st: St) -> R {
        match e {
            E::Lit(s) => {
                let mut pos = st.pos;
                for c in s.chars() {
                    match self.text.get(pos) {
                        None => {
                            self.ev.atoms_fail += 1;
                            return self.fail(&st, pos, false, What::Lit(s.clone()));
                        }
                        Some(&t) if t != c => {
                            self.ev.atoms_fail += 1;
                            return self.fail(&st, pos + 1, false, What::Lit(s.clone()));
                        }
                        _ => pos += 1,
                    }
                }
                self.ev.atoms_ok += 1;
                self.ev.nodes += 1;
                Ok(Ok((St { pos, ..st }, vec![N::Val(s.clone())])))
            }
            E::Class(cs, rs) => {
                self.one_char(st, What::Class(cs.clone(), rs.clone()), |c| class_has(cs, rs, c))
            }
            E::Dot => self.one_char(st, What::Dot, |_| true),
            E::Eof => {
                if st.pos == self.text.len() {
                    self.ev.atoms_ok += 1;
                    self.ev.nodes += 1;
                    Ok(Ok((st, vec![N::Eof])))
                } else {
                    self.ev.atoms_fail += 1;
                    self.fail(&st, st.pos + 1, false, What::Eof)
                }
            }
            E::Err(m) => {
                self.ev.critical += 1;
                self.fail(&st, st.pos, true, What::Msg(m.clone()))
            }
            E::Ref(name) => self.rule(name, st),
            E::And(v) => {
                let mut st = st;
                let mut nodes = vec![];
                for x in v {
                    match self.eval(x, st)? {
                        Ok((s, mut n)) => {
                            st = s;
                            nodes.append(&mut n);
                        }
                        Err(f) => return Ok(Err(f)),
                    }
                }
                Ok(Ok((st, nodes)))
            }
            E::Or(v) => {
                let mut best: Option<Rc<Fail>> = None;
                for x in v {
                    match self.eval(x, st.clone())? {
                        Ok(r) => return Ok(Ok(r)),
                        Err(f) => {
                            if f.critical {
                                return Ok(Err(f));
                            }
                            self.ev.alt_abandoned += 1;
                            best = match best {
                                Some(b) if b.pos > f.pos => Some(b),
                                _ => Some(f),
                            };
                        }
                    }
                }
                match best {
                    Some(f) => Ok(Err(f)),
                    None => self.fail(&st, st.pos, false, What::EmptyOr),
                }
            }
            E::Not(x) => match self.eval(x, st.clone())? {
                Ok(_) => {
                    self.ev.not_fail += 1;
                    self.fail(&st, st.pos, false, What::Not)
                }
                Err(_) => {
                    self.ev.not_ok += 1;
                    Ok(Ok((st, vec![])))
                }
            },
            E::Rep(x, min, max) => {
                let mut st = st;
                let mut nodes = vec![];
                let mut count = 0usize;
                loop {
                    if *max == Some(count) {
                        self.ev.rep_end_max += 1;
                        return Ok(Ok((st, nodes)));
                    }
                    match self.eval(x, st.clone())? {
                        Ok((s, mut n)) => {
                            self.ev.rep_iter += 1;
                            count += 1;
                            let stuck = s.pos == st.pos;
                            st = s;
                            nodes.append(&mut n);
                            if stuck && count >= *min {
                                self.ev.rep_end_empty += 1;
                                return Ok(Ok((st, nodes)));
                            }
                        }
                        Err(f) => {
                            if f.critical {
                                return Ok(Err(f));
                            }
                            if count < *min {
                                self.ev.rep_below_min += 1;
                                return Ok(Err(f));
                            }
                            self.ev.rep_end_fail += 1;
                            st.pot = Some(f);
                            return Ok(Ok((st, nodes)));
                        }
                    }
                }
            }
        }
    }
}

pub fn run(rules: &Rules, text: &[char], lim: &Limits) -> Result<Outcome, Abort> {
    let mut m = M { text, rules, lim, ev: Events::default(), depth: 0, active: HashSet::new() };
    let r = m.rule("main", St { pos: 0, pot: None, trail: None })?;
    let result = match r {
        Err(f) => Err((*f).clone()),
        Ok((st, mut nodes)) => {
            if st.pos == text.len() {
                Ok(nodes.pop().unwrap())
            } else {
                match st.pot {
                    Some(f) => Err((*f).clone()),
                    None => Err(Fail {
                        pos: st.pos,
                        critical: false,
                        what: What::NotConsumed,
                        trail: st.trail,
                    }),
                }
            }
        }
    };
    Ok(Outcome { result, events: m.ev })
}

/// coordinates of a point of a text, by definition
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Coord {
    pub n: usize,
    pub row: usize,
    pub col: usize,
    pub start_line: usize,
    pub before: String,
    pub after: String,
}

pub fn coord(text: &[char], n: usize) -> Coord {
    let before_all = &text[..n];
    let row = before_all.iter().filter(|&&c| c == '\n').count();
    let start_line = before_all.iter().rposition(|&c| c == '\n').map_or(0, |p| p + 1);
    let col_start =
        before_all.iter().rposition(|&c| c == '\n' || c == '\r').map_or(0, |p| p + 1);
    Coord {
        n,
        row,
        col: n - col_start,
        start_line,
        before: text[start_line..n].iter().collect(),
        after: text[n..].iter().take_while(|&&c| c != '\n' && c != '\r').collect(),
    }
}

impl N {
    pub fn text(&self, out: &mut String) {
        match self {
            N::Val(v) => out.push_str(v),
            N::Eof => (),
            N::Rule(_, v) => v.iter().for_each(|n| n.text(out)),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            N::Rule(_, v) => 1 + v.iter().map(|n| n.count()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            N::Rule(_, v) => 1 + v.iter().map(|n| n.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }
}

impl E {
    pub fn size(&self) -> usize {
        match self {
            E::And(v) | E::Or(v) => 1 + v.iter().map(|e| e.size()).sum::<usize>(),
            E::Not(e) | E::Rep(e, _, _) => 1 + e.size(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            E::And(v) | E::Or(v) => 1 + v.iter().map(|e| e.depth()).max().unwrap_or(0),
            E::Not(e) | E::Rep(e, _, _) => 1 + e.depth(),
            _ => 1,
        }
    }
    pub fn walk(&self, f: &mut dyn FnMut(&E)) {
        f(self);
        match self {
            E::And(v) | E::Or(v) => v.iter().for_each(|e| e.walk(f)),
            E::Not(e) | E::Rep(e, _, _) => e.walk(f),
            _ => (),
        }
    }
    pub fn map(&self, f: &dyn Fn(&E) -> Option<E>) -> E {
        if let Some(e) = f(self) {
            return e;
        }
        match self {
            E::And(v) => E::And(v.iter().map(|e| e.map(f)).collect()),
            E::Or(v) => E::Or(v.iter().map(|e| e.map(f)).collect()),
            E::Not(e) => E::Not(Box::new(e.map(f))),
            E::Rep(e, a, b) => E::Rep(Box::new(e.map(f)), *a, *b),
            x => x.clone(),
        }
    }
}
