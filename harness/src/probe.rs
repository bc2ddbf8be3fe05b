//! Learns, from the library itself, how it words things that the properties leave free.

use crate::conv;
use crate::ctx::target;
use crate::model::{Rules, What, E};

fn main_is(e: E) -> Rules {
    let mut r = Rules::new();
    r.insert("main".into(), e);
    r
}

/// the description of a failure of this very expression, alone
pub fn descr(w: &What) -> Result<Option<String>, String> {
    let (e, t) = match w {
        What::Lit(s) => (E::Lit(s.clone()), ""),
        What::Class(c, r) => (E::Class(c.clone(), r.clone()), ""),
        What::Dot => (E::Dot, ""),
        What::Eof => (E::Eof, "x"),
        What::Not => (E::Not(Box::new(E::Lit(String::new()))), ""),
        What::EmptyOr => (E::Or(vec![]), ""),
        What::NotConsumed => (E::Lit(String::new()), "x"),
        What::Msg(m) => return Ok(Some(m.clone())),
        What::Missing(_) => return Ok(None),
    };
    let rs = conv::rules_plain(&main_is(e));
    match target(|| dynparser::parse(t, &rs))? {
        Err(e) => Ok(Some(e.descr)),
        Ok(_) => Ok(None),
    }
}

/// how a rule is written in the trail: (before the name, after the name)
pub fn trail_format() -> Result<(String, String), String> {
    let rs = conv::rules_plain(&main_is(E::Err("x".into())));
    match target(|| dynparser::parse_debug("", &rs))? {
        Err(e) => match e.parsing_rules.as_slice() {
            [one] => match one.find("main") {
                Some(i) => Ok((one[..i].to_string(), one[i + 4..].to_string())),
                None => Err(format!("the trail of a failing main does not name main: {:?}", one)),
            },
            t => Err(format!("the trail of an error directly in main is {:?}", t)),
        },
        Ok(_) => Err("error() succeeded".into()),
    }
}
