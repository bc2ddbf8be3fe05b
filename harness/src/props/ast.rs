//! C10 tree transformations, C11 cursor helpers.

use super::parse::{gen_case, run_model};
use super::Prop;
use crate::ctx::{target, Ctx, Res};
use crate::model::N;
use crate::rng::Rng;
use crate::{conv, gen, viol};
use dynparser::ast::{self, flat, Node};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C10",
            case: c10,
            quick: 160_000,
            thorough: 4_000_000,
            shards: 8,
            cpu_limit: 20,
            mem_limit: 10,
            min_distinct: 500,
            rule: "case = random tree (5 shapes: bushy, deep, wide, runs of values, parsed) and random lists of names; non-trivial: some operation changed the tree; distinct by tree and names",
            assumptions: &["the reference transformations (harness/src/props/ast.rs) are right"],
        },
        Prop {
            id: "C11",
            case: c11,
            quick: 200_000,
            thorough: 5_000_000,
            shards: 8,
            cpu_limit: 20,
            mem_limit: 10,
            min_distinct: 500,
            rule: "case = random node list (tree and flattened form, also lists cut at random and lists of marks in any order), every helper on it with matching and near-miss names and values, then a walk that consumes it to the end; non-trivial: non-empty list; distinct by list and request",
            assumptions: &[],
        },
    ]
}

// ------------------------------------------------------------------------------- references

fn r_prune(n: &N, names: &[&str]) -> N {
    match n {
        N::Rule(s, v) => N::Rule(
            s.clone(),
            v.iter()
                .filter(|k| !matches!(k, N::Rule(s, _) if names.contains(&s.as_str())))
                .map(|k| r_prune(k, names))
                .collect(),
        ),
        x => x.clone(),
    }
}

fn r_pass(n: &N, names: &[&str]) -> N {
    fn kids(v: &[N], names: &[&str], out: &mut Vec<N>) {
        for k in v {
            match k {
                N::Rule(s, w) if names.contains(&s.as_str()) => {
                    let mut o = vec![];
                    kids(w, names, &mut o);
                    out.push(N::Rule(s.clone(), o));
                }
                N::Rule(_, w) => kids(w, names, out),
                x => out.push(x.clone()),
            }
        }
    }
    match n {
        N::Rule(s, v) => {
            let mut o = vec![];
            kids(v, names, &mut o);
            N::Rule(s.clone(), o)
        }
        x => x.clone(),
    }
}

fn r_compact(n: &N) -> N {
    match n {
        N::Rule(s, v) => {
            let mut o: Vec<N> = vec![];
            let mut run: Option<String> = None;
            for k in v {
                if let N::Val(x) = k {
                    run.get_or_insert_with(String::new).push_str(x);
                } else {
                    if let Some(x) = run.take() {
                        o.push(N::Val(x));
                    }
                    o.push(r_compact(k));
                }
            }
            if let Some(x) = run {
                o.push(N::Val(x));
            }
            N::Rule(s.clone(), o)
        }
        x => x.clone(),
    }
}

fn r_flatten(n: &N, out: &mut Vec<flat::Node>) {
    match n {
        N::Val(v) => out.push(flat::Node::Val(v.clone())),
        N::Eof => (),
        N::Rule(s, v) => {
            out.push(flat::Node::BeginRule(s.clone()));
            v.iter().for_each(|k| r_flatten(k, out));
            out.push(flat::Node::EndRule(s.clone()));
        }
    }
}

fn names_in(n: &N, out: &mut Vec<String>) {
    if let N::Rule(s, v) = n {
        out.push(s.clone());
        v.iter().for_each(|k| names_in(k, out));
    }
}

fn some_tree(cx: &mut Ctx, rng: &mut Rng) -> N {
    let names = gen::names(rng);
    if rng.chance(1, 60) {
        // many children, many levels, or long values
        let n = match rng.below(4) {
            0 => rng.range(254, 258),
            1 => rng.range(100, 600),
            2 => rng.range(1000, 1100),
            _ => rng.range(2000, 9000),
        };
        let runs = rng.below(40);
        let leaf = |rng: &mut Rng| match rng.below(runs + 2) {
            0 => N::Rule(rng.pick(&names).clone(), vec![N::Val("v".into())]),
            1 if rng.chance(1, 9) => N::Eof,
            _ => N::Val(rng.pick(&["a", "", "bc", "é", "\n"]).to_string()),
        };
        cx.count("large_trees", 1);
        return match rng.below(3) {
            0 => N::Rule(rng.pick(&names).clone(), (0..n).map(|_| leaf(rng)).collect()),
            1 => {
                let mut t = leaf(rng);
                for _ in 0..n.min(600) {
                    let mut v = vec![t];
                    if rng.chance(1, 3) {
                        v.push(leaf(rng));
                    }
                    if rng.chance(1, 6) {
                        v.insert(0, leaf(rng));
                    }
                    t = N::Rule(rng.pick(&names).clone(), v);
                }
                t
            }
            _ => {
                let v = vec![N::Val("x".repeat(n)), leaf(rng), N::Val("é".repeat(n)), N::Rule("n".repeat(n), vec![leaf(rng)]), leaf(rng)];
                N::Rule(rng.pick(&names).clone(), v)
            }
        };
    }
    if rng.chance(1, 8) {
        // a path of some depth with trees hanging from it
        let mut t = N::Val("v".into());
        for _ in 0..1 + rng.log(120) {
            let mut b = 6;
            let mut v = vec![t];
            if rng.chance(1, 4) {
                v.push(gen::tree(rng, &names, 2, 2, &mut b));
            }
            if rng.chance(1, 4) {
                v.insert(0, gen::tree(rng, &names, 2, 2, &mut b));
            }
            t = N::Rule(rng.pick(&names).clone(), v);
        }
        return t;
    }
    let (depth, width, mut budget) = match rng.below(8) {
        0 => (30, 2, 60),
        1 => (2, 400, 500),
        2 => (80, 1, 90),
        3 => (6, 6, 400),
        _ => (4, 5, 60),
    };
    if rng.chance(1, 12) {
        // a tree from a real parse
        let c = gen_case(rng);
        for t in &c.texts {
            if let Some(o) = run_model(cx, &c.rules, t) {
                if let Ok(n) = o.result {
                    if n.count() < 5000 {
                        cx.count("trees_from_parses", 1);
                        return n;
                    }
                }
            }
        }
    }
    gen::tree(rng, &names, depth, width, &mut budget)
}

/// other names down to some level (so that the names below can be asked for without those above)
fn rename_above(n: &N, level: usize) -> N {
    match n {
        N::Rule(s, v) if level > 0 => N::Rule(format!("{}{}", s, level % 7), v.iter().map(|k| rename_above(k, level - 1)).collect()),
        x => x.clone(),
    }
}

fn c10(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let mut n = some_tree(cx, rng);
    if rng.chance(1, 3) {
        let d = n.depth();
        n = rename_above(&n, rng.below(d + 1));
    }
    let real = conv::unnode(&n);
    let mut pool = vec![];
    names_in(&n, &mut pool);
    if pool.len() > 200 {
        // as likely from below as from above
        let at = rng.below(pool.len() - 199);
        pool.drain(..at);
        pool.truncate(200);
    }
    pool.extend(gen::names(rng));
    pool.push("absent".into());
    let k = rng.below(6);
    let mut list: Vec<String> = (0..k).map(|_| rng.pick(&pool).clone()).collect();
    if rng.chance(1, 20) {
        list = pool.clone();
    }
    if rng.chance(1, 200) {
        // many names, the right ones anywhere
        let k = rng.range(20, 400);
        list = (0..k).map(|i| format!("n{}", i)).collect();
        for _ in 0..3 {
            let x = rng.pick(&pool).clone();
            list.insert(rng.below(list.len() + 1), x);
        }
    }
    let l: Vec<&str> = list.iter().map(|s| s.as_str()).collect();
    cx.max("max_tree_nodes", n.count() as u64);
    cx.max("max_tree_depth", n.depth() as u64);
    let sh = |op: &str| {
        let t: String = format!("{:?}", n).chars().take(4000).collect();
        format!("{} with names {:?} on {}", op, l, t)
    };
    let mut changed = false;
    let mut check = |op: &str, exp: N, got: Node| -> Res {
        changed |= exp != n;
        if !conv::same(&exp, &got) {
            viol!("got {:?}\nexpected {:?}\n{}", conv::node(&got), exp, sh(op));
        }
        if !conv::same(&n, &real) {
            viol!("the original tree is now {:?}\n{}", conv::node(&real), sh(op));
        }
        Ok(())
    };
    let e = |op: &'static str| move |x: String| format!("{}: {}", op, x);
    check("prune", r_prune(&n, &l), target(|| real.prune(&l)).map_err(e("prune"))?)?;
    check("pass_through_except", r_pass(&n, &l), target(|| real.pass_through_except(&l)).map_err(e("pass_through_except"))?)?;
    check("compact", r_compact(&n), target(|| real.compact()).map_err(e("compact"))?)?;
    // the chains users write
    check(
        "compact, prune",
        r_prune(&r_compact(&n), &l),
        target(|| real.compact().prune(&l)).map_err(e("compact prune"))?,
    )?;
    check(
        "prune, pass_through_except, compact",
        r_compact(&r_pass(&r_prune(&n, &l), &l[..l.len() / 2])),
        target(|| real.prune(&l).pass_through_except(&l[..l.len() / 2]).compact()).map_err(e("chain"))?,
    )?;
    let mut exp = vec![];
    r_flatten(&n, &mut exp);
    let got = target(|| real.flatten()).map_err(e("flatten"))?;
    if got != exp {
        viol!("got {:?}\nexpected {:?}\n{}", got, exp, sh("flatten"));
    }
    cx.evals += 6;
    cx.count("flat_nodes", exp.len() as u64);
    if changed {
        cx.nontrivial(&format!("{:?}{:?}", n, l));
    }
    cx.sample(|| sh("all operations"));
    Ok(())
}

// ------------------------------------------------------------------------------------- C11

/// the rest must be the very same memory: the tail of the list given
fn is_tail<T>(rest: &[T], of: &[T]) -> bool {
    !of.is_empty() && rest.len() + 1 == of.len() && std::ptr::eq(rest.as_ptr(), of[1..].as_ptr())
}

fn near(rng: &mut Rng, s: &str) -> String {
    match rng.below(7) {
        0 => format!("{}x", s),
        1 => {
            let mut v: Vec<char> = s.chars().collect();
            v.pop();
            v.into_iter().collect()
        }
        2 => s.to_uppercase(),
        3 => String::new(),
        4 => format!(" {}", s),
        5 => format!("{} ", s),
        _ => rng.pick(&["a", "b", "main", "_", "é", "EOF"]).to_string(),
    }
}

fn tree_helpers(cx: &mut Ctx, rng: &mut Rng, v: &[Node]) -> Res {
    let what = |h: &str| {
        let s: String = format!("{:?}", v).chars().take(3000).collect();
        format!("{} on {}", h, s)
    };
    macro_rules! must {
        ($c:expr, $h:expr, $($a:tt)*) => { if !$c { viol!("{}: {}", what($h), format!($($a)*)); } };
    }
    let t = |h: &'static str| move |e: String| format!("{}: {}", h, e);
    let first = v.first();
    // check_empty_nodes
    let r = target(|| ast::check_empty_nodes(v)).map_err(t("check_empty_nodes"))?;
    must!(r.is_ok() == v.is_empty(), "check_empty_nodes", "{:?}", r);
    // peek
    let r = target(|| ast::peek_first_node(v)).map_err(t("peek_first_node"))?;
    match (first, &r) {
        (Some(f), Ok(x)) => must!(std::ptr::eq(f, *x), "peek_first_node", "{:?}", x),
        (None, Err(_)) => (),
        _ => viol!("{}: {:?}", what("peek_first_node"), r),
    }
    // split
    let r = target(|| ast::split_first_nodes(v)).map_err(t("split_first_nodes"))?;
    match (first, &r) {
        (Some(f), Ok((x, rest))) => must!(std::ptr::eq(f, *x) && is_tail(rest, v), "split_first_nodes", "{:?}", r),
        (None, Err(_)) => (),
        _ => viol!("{}: {:?}", what("split_first_nodes"), r),
    }
    // consume_val
    let r = target(|| ast::consume_val(v)).map_err(t("consume_val"))?;
    match (first, &r) {
        (Some(Node::Val(s)), Ok((x, rest))) => must!(s == x && is_tail(rest, v), "consume_val", "{:?}", r),
        (Some(Node::Val(_)), Err(_)) => viol!("{}: {:?}", what("consume_val"), r),
        (_, Err(_)) => (),
        _ => viol!("{}: {:?}", what("consume_val"), r),
    }
    // get_nodes_unique_val
    let r = target(|| ast::get_nodes_unique_val(v)).map_err(t("get_nodes_unique_val"))?;
    match (v, &r) {
        ([Node::Val(s)], Ok(x)) => must!(s == x, "get_nodes_unique_val", "{:?}", r),
        ([Node::Val(_)], Err(_)) => viol!("{}: {:?}", what("get_nodes_unique_val"), r),
        (_, Err(_)) => (),
        _ => viol!("{}: {:?}", what("get_nodes_unique_val"), r),
    }
    // with a requested value or name
    let own = match first {
        Some(Node::Val(s)) => s.clone(),
        Some(Node::Rule((s, _))) => s.clone(),
        _ => "a".into(),
    };
    let asks = [own.clone(), near(rng, &own), near(rng, &own)];
    for a in &asks {
        let r = target(|| ast::consume_this_value(a, v)).map_err(t("consume_this_value"))?;
        match (first, &r) {
            (Some(Node::Val(s)), Ok(rest)) if s == a => must!(is_tail(rest, v), "consume_this_value", "{:?} {:?}", a, r),
            (Some(Node::Val(s)), Err(_)) if s != a => (),
            (Some(Node::Val(_)), _) => viol!("{} {:?}: {:?}", what("consume_this_value"), a, r),
            (_, Err(_)) => (),
            _ => viol!("{} {:?}: {:?}", what("consume_this_value"), a, r),
        }
        let h = "consume_node_get_subnodes_for_rule_name_is";
        let r = target(|| ast::consume_node_get_subnodes_for_rule_name_is(a, v)).map_err(t(h))?;
        match (first, &r) {
            (Some(Node::Rule((s, sub))), Ok((rest, kids))) if s == a => {
                // one of the two slices is the tail and the other the children, in the documented order
                must!(
                    is_tail(rest, v) && kids.len() == sub.len() && std::ptr::eq(kids.as_ptr(), sub.as_ptr()),
                    h, "{:?} {:?}", a, r
                )
            }
            (Some(Node::Rule((s, _))), Err(_)) if s != a => (),
            (Some(Node::Rule(_)), _) => viol!("{} {:?}: {:?}", what(h), a, r),
            (_, Err(_)) => (),
            _ => viol!("{} {:?}: {:?}", what(h), a, r),
        }
        cx.evals += 2;
        cx.count("requests_with_matching_name", (a == &own) as u64);
    }
    // on one node
    if let Some(f) = first {
        let r = target(|| ast::get_node_val(f)).map_err(t("get_node_val"))?;
        match (f, &r) {
            (Node::Val(s), Ok(x)) => must!(s == x, "get_node_val", "{:?}", r),
            (Node::Val(_), Err(_)) | (_, Ok(_)) => viol!("{}: {:?}", what("get_node_val"), r),
            _ => (),
        }
        let r = target(|| ast::get_nodename_and_nodes(f)).map_err(t("get_nodename_and_nodes"))?;
        match (f, &r) {
            (Node::Rule((s, k)), Ok((x, kids))) => {
                must!(s == x && kids.len() == k.len() && std::ptr::eq(kids.as_ptr(), k.as_ptr()), "get_nodename_and_nodes", "{:?}", r)
            }
            (Node::Rule(_), Err(_)) | (_, Ok(_)) => viol!("{}: {:?}", what("get_nodename_and_nodes"), r),
            _ => (),
        }
        cx.evals += 2;
    }
    cx.evals += 5;
    Ok(())
}

fn flat_helpers(cx: &mut Ctx, rng: &mut Rng, v: &[flat::Node]) -> Res {
    use flat::Node as F;
    let what = |h: &str| {
        let s: String = format!("{:?}", v).chars().take(3000).collect();
        format!("flat::{} on {}", h, s)
    };
    macro_rules! must {
        ($c:expr, $h:expr, $($a:tt)*) => { if !$c { viol!("{}: {}", what($h), format!($($a)*)); } };
    }
    let t = |h: &'static str| move |e: String| format!("flat::{}: {}", h, e);
    let first = v.first();
    let r = target(|| flat::peek_first_node(v)).map_err(t("peek_first_node"))?;
    match (first, &r) {
        (Some(f), Ok(x)) => must!(std::ptr::eq(f, *x), "peek_first_node", "{:?}", x),
        (None, Err(_)) => (),
        _ => viol!("{}: {:?}", what("peek_first_node"), r),
    }
    let r = target(|| flat::split_first_nodes(v)).map_err(t("split_first_nodes"))?;
    match (first, &r) {
        (Some(f), Ok((x, rest))) => must!(std::ptr::eq(f, *x) && is_tail(rest, v), "split_first_nodes", "{:?}", r),
        (None, Err(_)) => (),
        _ => viol!("{}: {:?}", what("split_first_nodes"), r),
    }
    let r = target(|| flat::consume_val(v)).map_err(t("consume_val"))?;
    match (first, &r) {
        (Some(F::Val(s)), Ok((x, rest))) => must!(s == x && is_tail(rest, v), "consume_val", "{:?}", r),
        (Some(F::Val(_)), Err(_)) | (_, Ok(_)) => viol!("{}: {:?}", what("consume_val"), r),
        _ => (),
    }
    let own = match first {
        Some(F::Val(s)) | Some(F::BeginRule(s)) | Some(F::EndRule(s)) => s.clone(),
        _ => "a".into(),
    };
    let asks = [own.clone(), near(rng, &own), near(rng, &own)];
    for a in &asks {
        let r = target(|| flat::consume_this_value(a, v)).map_err(t("consume_this_value"))?;
        let exp = matches!(first, Some(F::Val(s)) if s == a);
        must!(r.is_ok() == exp && r.as_ref().map_or(true, |x| is_tail(x, v)), "consume_this_value", "{:?} {:?}", a, r);
        let r = target(|| flat::consume_node_start_rule_name(a, v)).map_err(t("consume_node_start_rule_name"))?;
        let exp = matches!(first, Some(F::BeginRule(s)) if s == a);
        must!(r.is_ok() == exp && r.as_ref().map_or(true, |x| is_tail(x, v)), "consume_node_start_rule_name", "{:?} {:?}", a, r);
        let r = target(|| flat::consume_node_end_rule_name(a, v)).map_err(t("consume_node_end_rule_name"))?;
        let exp = matches!(first, Some(F::EndRule(s)) if s == a);
        must!(r.is_ok() == exp && r.as_ref().map_or(true, |x| is_tail(x, v)), "consume_node_end_rule_name", "{:?} {:?}", a, r);
        cx.evals += 3;
    }
    if let Some(f) = first {
        let r = target(|| flat::get_node_val(f)).map_err(t("get_node_val"))?;
        match (f, &r) {
            (F::Val(s), Ok(x)) => must!(s == x, "get_node_val", "{:?}", r),
            (F::Val(_), Err(_)) | (_, Ok(_)) => viol!("{}: {:?}", what("get_node_val"), r),
            _ => (),
        }
        let r = target(|| flat::get_nodename(f)).map_err(t("get_nodename"))?;
        match (f, &r) {
            (F::BeginRule(s), Ok(x)) | (F::EndRule(s), Ok(x)) => must!(s == x, "get_nodename", "{:?}", r),
            (F::BeginRule(_), Err(_)) | (F::EndRule(_), Err(_)) | (_, Ok(_)) => viol!("{}: {:?}", what("get_nodename"), r),
            _ => (),
        }
        cx.evals += 2;
    }
    cx.evals += 3;
    Ok(())
}

fn c11(cx: &mut Ctx, rng: &mut Rng) -> Res {
    let n = some_tree(cx, rng);
    let list: Vec<Node> = match &n {
        N::Rule(_, v) if rng.chance(5, 6) => v.iter().take(40).map(conv::unnode).collect(),
        x => vec![conv::unnode(x)],
    };
    // every suffix is a list too: this is the walk a user does
    let copy: Vec<N> = list.iter().map(conv::node).collect();
    let mut rest: &[Node] = &list;
    loop {
        if !rest.is_empty() {
            cx.nontrivial(&format!("t{:?}", rest));
        }
        tree_helpers(cx, rng, rest)?;
        if rest.is_empty() {
            break;
        }
        if rng.chance(1, 4) && rest.len() > 1 {
            // only the first one
            tree_helpers(cx, rng, &rest[..1])?;
        }
        rest = &rest[1..];
    }
    if list.iter().map(conv::node).collect::<Vec<_>>() != copy {
        viol!("the list was altered: {:?}", copy);
    }
    let mut fl: Vec<flat::Node> = vec![];
    r_flatten(&n, &mut fl);
    if rng.chance(1, 3) {
        // marks in any order, end-of-file marks
        fl.truncate(30);
        fl.push(flat::Node::EOF);
        rng.shuffle(&mut fl);
    }
    let i = if rng.chance(1, 2) { 0 } else { rng.below(fl.len().max(1)) };
    let mut rest: &[flat::Node] = &fl[i.min(fl.len())..];
    if rest.len() > 40 {
        rest = &rest[..40];
    }
    loop {
        if !rest.is_empty() {
            cx.nontrivial(&format!("f{:?}", rest));
        }
        flat_helpers(cx, rng, rest)?;
        if rest.is_empty() {
            break;
        }
        rest = &rest[1..];
    }
    cx.sample(|| format!("{:?}", copy));
    Ok(())
}
