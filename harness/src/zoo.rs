//! Realistic grammars, as users write them, with sample documents.

use crate::model::{E, Rules};
use crate::pegtext;
use crate::rng::Rng;

pub struct Zoo {
    pub name: &'static str,
    pub peg: String,
    pub rules: Rules,
    pub docs: Vec<String>,
}

const CALC: &str = r#"
    main            =   _  expr  _

    expr            =   add_t       (_  add_op   _  add_t)*
                    /   portion_expr

    add_t           =   fact_t      (_  fact_op  _  fact_t)*

    fact_t          =   portion_expr
                    /   number

    portion_expr    =   '(' _ expr _ ( ')' / error("unbalanced parenthesis: missing ')'") )

    add_op          =   '+'  /  '-'
    fact_op         =   '*'  /  '/'

    number          =   ([0-9]+  ('.'  [0-9]+)?)

    //  this is for spaces
    _               =   ' '*
"#;

const JSON: &str = r#"
    main    = _ value _
    value   = object / array / string / number / 'true' / 'false' / 'null'
    object  = '{' _ (pair (_ ',' _ pair)*)? _ '}'
    pair    = string _ ':' _ (value / error("value expected"))
    array   = '[' _ (value (_ ',' _ value)*)? _ ']'
    string  = '"' char* '"'
    char    = '\' ( ["\/bfnrt] / 'u' hex hex hex hex ) / !'"' .
    hex     = [0-9a-fA-F]
    number  = '-'? int frac? exp?
    int     = '0' / [1-9] [0-9]*
    frac    = '.' [0-9]+
    exp     = [eE] [-+]? [0-9]+
    _       = ( ' ' / "\t" / "\n" / "\r" )*
"#;

const INI: &str = r#"
    main     = (blank / comment / section / entry)*
    section  = '[' (!']' !eol .)+ ( ']' / error("missing ]") ) sp eol
    entry    = key sp '=' sp text eol
    key      = [_a-zA-Z0-9]+
    text     = (!eol .)*
    comment  = [;#] (!eol .)* eol
    blank    = sp eol
    sp       = [ ]*
    eol      = "\r\n" / "\n" / "\r"
"#;

const LISP: &str = r#"
    main    = _ sexp (sep sexp)* _
    sexp    = list / quoted / atom
    quoted  = "'" sexp
    list    = '(' _ (sexp (sep sexp)*)? _ ( ')' / error("unclosed list") )
    atom    = str / num / sym
    num     = [0-9]+ !symc
    sym     = symc+
    symc    = !sepc !'(' !')' !"'" !'"' .
    str     = '"' ( '\' . / !'"' . )* '"'
    sep     = sepc+
    sepc    = ' ' / "\n" / "\t"
    _       = sepc*
"#;

const CSV: &str = r#"
    main   = line (nl line)* !.
    line   = field (',' field)*
    field  = quoted / bare
    quoted = '"' ( '""' / !'"' . )* '"'
    bare   = (!',' !nl !'"' .)*
    nl     = "\r\n" / "\n"
"#;

const LANG: &str = r#"
    main    = _ stmt* !.
    stmt    = ifs / whiles / assign / block
    block   = '{' _ stmt* ( '}' _ / error("missing }") )
    ifs     = kw_if cond stmt (kw_else stmt)?
    whiles  = kw_while cond stmt
    cond    = '(' _ expr ( ')' _ / error("missing )") )
    assign  = id '=' _ expr ( ';' _ / error("missing ;") )
    expr    = cmp
    cmp     = sum ( ( '<=' / '<' / '==' ) _ sum )?
    sum     = prod ( [-+] _ prod )*
    prod    = un ( [*/] _ un )*
    un      = '-' _ un / prim
    prim    = num / id / '(' _ expr ')' _
    id      = !(kw !idc) [_a-z] idc* _
    idc     = [_a-z0-9]
    num     = [0-9]+ !idc _
    kw      = 'if' / 'else' / 'while'
    kw_if   = 'if' !idc _
    kw_else = 'else' !idc _
    kw_while = 'while' !idc _
    _       = ( ' ' / "\n" / com )*
    com     = '/*' ( com / !'*/' . )* ( '*/' / error("unclosed comment") )
"#;

const XML: &str = r#"
    main    = elem
    elem    = '<' name '/>' / open (elem / text)* close
    open    = '<' name '>'
    close   = '</' name ( '>' / error("bad close") )
    name    = [a-z]+
    text    = (!'<' .)+
"#;

const PALIN: &str = r#"
    main = p !.
    p    = 'a' p 'a' / 'b' p 'b' / 'a' / 'b' / ''
"#;

const UNI: &str = r#"
    main   = palabra (sep palabra)* fin
    palabra = letra+
    letra  = [ña-zà-öø-ÿα-ωа-я一-龥]
    sep    = [ ,;:—…]+
    fin    = [.!?。！]+ "\n"?
"#;

const GREET: &str = r#"
    main    =   'hello'   ' '   'world'  dot
    dot     =   "\0x2E"
"#;

const PAREN: &str = r#"
    main    =   '('  main  ( ')'  /  error("unbalanced parenthesys") )
            /   'hello'
"#;

const MODS: &str = r#"
    main = a.b (',' a.b)*
    mod_a {
        a.b  = [a-z]+ .c?
        mod_b {
            .c = '.' [0-9]
        }
    }
"#;

pub fn zoo() -> Vec<Zoo> {
    let meta = pegtext::meta();
    let d = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let list: Vec<(&'static str, &str, Vec<String>)> = vec![
        ("calc", CALC, d(&["1", "1+2*3", " (1+2)*3 - 4.5/ (6) ", "((1))", "(1", "1+", "2*(3+(4-5)", "12.", "1 + + 2"])),
        (
            "json",
            JSON,
            d(&[
                "{\"a\": [1, 2.5e-3, true, null], \"b\": {\"c\": \"x\\n\\u00e9\"}}",
                "[]",
                "[1,2,",
                "{\"k\": }",
                "  \"é😀\"  ",
                "{\"a\":1,}",
                "01",
                "[[[[[[[[[]]]]]]]]]",
            ]),
        ),
        ("ini", INI, d(&["[s]\nk=v\n# c\n\n[t]  \r\nx = 1 2 3\r\n", "a=1", "[s\n", "k = é∑\n", "=1\n", "[a]\n;\n;\r;\n"])),
        ("lisp", LISP, d(&["(a (b 12 \"x\\\"y\") 'c)", "(", "()", "(a b", "(λ x (* x 2))", "'(1 2a)", "(a\n\tb)\n"])),
        ("csv", CSV, d(&["a,b,c\n1,\"x\"\"y\",3", "", ",,,\r\n,,", "a,\"b\nc\",d", "a\"b", "\"unclosed"])),
        (
            "lang",
            LANG,
            d(&[
                "x = 1; while (x <= 10) { x = x + 2*(y - 3); /* c /* nested */ */ }",
                "if (a == b) x = 1; else { y = -z; }",
                "if (a x = 1;",
                "x = 1",
                "{ { { a = 1; } }",
                "whilex = 3;",
                "while = 3;",
                "/* /* */",
            ]),
        ),
        ("xml", XML, d(&["<a><b/>text<c>é</c></a>", "<a>", "<a></a", "<a/>", "<a><a><a></a></a></a>", "<a>x</b>"])),
        ("palin", PALIN, d(&["aba", "abba", "aaaa", "ababa", "abab"])),
        ("uni", UNI, d(&["hola niña, ça va… да.", "漢字 かな。", "λόγος!\n", "a b", "übung?!"])),
        ("greet", GREET, d(&["hello world.", "hello world", "hello  world."])),
        ("paren", PAREN, d(&["hello", "((hello))", "((hello)", "(hellO)", "()"])),
        ("mods", MODS, d(&["abc.1,d", "a,b,c", "a.,b", ","])),
    ];
    list.into_iter()
        .map(|(name, peg, docs)| {
            let rules = pegtext::meaning(&meta, peg)
                .expect("zoo limits")
                .0
                .unwrap_or_else(|f| panic!("zoo grammar {} does not parse: {:?} at {}", name, f.what, f.pos));
            Zoo { name, peg: peg.to_string(), rules, docs }
        })
        .collect()
}

/// characters of the literals and classes of a grammar
pub fn alphabet(r: &Rules) -> Vec<char> {
    let mut v: Vec<char> = vec![];
    for e in r.values() {
        e.walk(&mut |e| match e {
            E::Lit(s) => v.extend(s.chars()),
            E::Class(c, rs) => {
                v.extend(c.chars());
                for &(a, b) in rs {
                    v.push(a);
                    v.push(b);
                }
            }
            _ => (),
        });
    }
    v.sort();
    v.dedup();
    if v.is_empty() {
        v.push('a');
    }
    v
}

pub fn text(rng: &mut Rng, z: &Zoo) -> String {
    let al = alphabet(&z.rules);
    match rng.below(8) {
        0 | 1 => rng.pick(&z.docs).clone(),
        2 | 3 => {
            let d = rng.pick(&z.docs).clone();
            crate::gen::mutate(rng, &d, &al)
        }
        4 => {
            // two documents mixed
            let a: Vec<char> = rng.pick(&z.docs).chars().collect();
            let b: Vec<char> = rng.pick(&z.docs).chars().collect();
            let i = rng.below(a.len() + 1);
            let j = rng.below(b.len() + 1);
            a[..i].iter().chain(b[j..].iter()).collect()
        }
        5 => crate::gen::derive(rng, &z.rules, &al, 400),
        6 => {
            let d = crate::gen::derive(rng, &z.rules, &al, 400);
            crate::gen::mutate(rng, &d, &al)
        }
        _ => crate::gen::derive(rng, &z.rules, &al, 40),
    }
}
