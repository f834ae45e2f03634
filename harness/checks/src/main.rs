#![allow(dead_code)]
mod common;
mod dut;
mod c01;
mod c02;
mod c03;
mod c04;
mod c07;
mod c08;
mod c11;
mod c14;
mod c16;
mod c18;
mod c19;
mod c20;
mod c21;
mod c23;
mod hostile;

use vcore::Ctx;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (id, replay) = match args.get(1).map(String::as_str) {
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("cannot read the replay file");
            let get = |name: &str| {
                text.lines().find_map(|l| l.strip_prefix(name)).map(|l| l.trim().to_string()).unwrap_or_default()
            };
            if get("tier=") == "thorough" {
                // SAFETY: single threaded so far
                unsafe { std::env::set_var("VERIF_TIER", "thorough") };
            }
            (get("property="), Some((get("batch="), get("case_seed=").parse().expect("case_seed"), get("case_idx=").parse().unwrap_or(0))))
        }
        // Only ever used with the base version, see DESIGN.md
        Some("golden") => return c20::generate(&args[2]),
        Some(id) => (id.to_string(), None),
        None => panic!("usage: checks <id> | replay <file>"),
    };
    let checks: &[(&'static str, fn(&mut Ctx))] = &[
        ("C01", c01::run),
        ("C02", c02::run),
        ("C03", c03::run),
        ("C04", c04::run),
        ("C05", c03::run05),
        ("C06", c04::run06),
        ("C07", c07::run),
        ("C08", c08::run),
        ("C09", c08::run9),
        ("C10", c08::run10),
        ("C11", c11::run),
        ("C12", c11::run12),
        ("C13", hostile::run),
        ("C14", c14::run),
        ("C15", c02::run15),
        ("C16", c16::run),
        ("C17", t0::run),
        ("C18", c18::run),
        ("C19", c19::run),
        ("C20", c20::run),
        ("C21", c21::run),
        ("C22", c08::run22),
        ("C23", c23::run),
        ("C24", c02::run24),
        ("C25", c07::run25),
    ];
    let Some((id, run)) = checks.iter().find(|c| c.0 == id) else {
        eprintln!("no check {id}");
        std::process::exit(2);
    };
    let mut ctx = Ctx::new(id, replay);
    run(&mut ctx);
    std::process::exit(ctx.finish());
}
