//! One module per group of properties.

pub mod ast;
pub mod codegen;
pub mod cost;
pub mod hist;
pub mod hostile;
pub mod parse;
pub mod peg;
pub mod stack;

use crate::ctx::{Ctx, Res};
use crate::rng::Rng;

pub struct Prop {
    pub id: &'static str,
    pub case: fn(&mut Ctx, &mut Rng) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub shards: usize,
    /// CPU seconds after which a case counts as hanging
    pub cpu_limit: u64,
    /// GB of address space, 0: no limit
    pub mem_limit: u64,
    pub min_distinct: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const SEMANTICS: &[&str] = &[
    "the reference model (harness/src/model.rs) states PEG matching correctly",
    "left-recursive rule sets and repetitions with min > max are outside the property",
];

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(parse::props());
    v.extend(peg::props());
    v.extend(codegen::props());
    v.extend(ast::props());
    v.extend(hist::props());
    v.extend(hostile::props());
    v.extend(stack::props());
    v.extend(cost::props());
    v.sort_by_key(|p| p.id);
    v
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}

/// helper processes
pub fn aux(args: &[&str]) -> i32 {
    match args {
        ["print-peg"] => {
            dynparser::peg::peg2code::print_rules2parse_peg();
            0
        }
        ["smoke", seed, from, to] => {
            let n = |s: &str| s.parse::<u64>().expect("number");
            hostile::smoke(n(seed), n(from), n(to))
        }
        ["digest", seed] => hist::digest_main(seed.parse().expect("seed")),
        _ => 2,
    }
}
