//! harness run <ID> | child <ID> <slots> | single <ID> <part> <index> | replay <file>
mod checks;
mod engine;
mod hand;
mod util;

use std::process::ExitCode;

use engine::Cx;

#[global_allocator]
static ALLOCATOR: checks::cost::Counting = checks::cost::Counting;

fn context() -> Cx {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let themes = xmodel::schema::parse_themes(types::THEMES);
    Cx {
        seed,
        thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
        fams: (0..types::FAMILIES).map(|i| xmodel::schema::gen_family(types::SEED, i, &themes)).collect(),
        entries: types::entries(),
    }
}

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let check = |id: &str| checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| panic!("no check {id}"));
    match get(0) {
        "run" => engine::parent(&check(get(1)), &[]),
        "child" => engine::child(&context(), &check(get(1)), std::path::Path::new(get(2))),
        "single" => engine::single(&context(), &check(get(1)), get(2).parse().unwrap(), get(3).parse().unwrap()),
        "replay" => {
            let text = std::fs::read_to_string(get(1)).unwrap();
            let val = |k: &str| {
                text.lines().find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix(": "))).unwrap_or("").to_owned()
            };
            let choices = val("choices").split_whitespace().map(|c| c.parse().unwrap()).collect();
            engine::replay(&context(), &check(&val("property")), &val("part"), val("index").parse().unwrap_or(0), choices)
        }
        "list" => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            ExitCode::SUCCESS
        }
        _ => ExitCode::from(2),
    }
}
