use dpmon::{alloc, props, sup};
use std::path::Path;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let num = |x: &str| x.parse::<u64>().expect("number");
    let code = match s.as_slice() {
        ["run", id] => sup::run_main(id),
        ["case", id, seed, i] => sup::case_main(id, num(seed), num(i), false),
        ["case", id, seed, i, tier] => sup::case_main(id, num(seed), num(i), *tier == "thorough"),
        ["worker", id, seed, sh, shs, n, dir, tier, wall] => {
            sup::worker_main(id, num(seed), num(sh), num(shs), num(n), Path::new(dir), *tier == "thorough", num(wall))
        }
        ["aux", rest @ ..] => props::aux(rest),
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dpmon run ID | case ID SEED I [tier] | list");
            2
        }
    };
    std::process::exit(code);
}
