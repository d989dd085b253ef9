//! Runtime monitors for the tedium TDMS library. See /verif/DESIGN.md.

mod alloc;
mod checks;
mod cx;
mod disk;
mod kinds;
mod long;
mod rng;
mod scale;
mod spec;
mod sup;
mod view;
mod workload;

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") if args.len() >= 3 => sup::supervise(&args[2]),
        Some("worker") if args.len() >= 9 => sup::worker(&args[2..]),
        Some("case") if args.len() >= 6 => sup::one_case(&args[2..]),
        Some("long") if args.len() >= 4 => sup::long_main(&args[2..]),
        Some("miri") => sup::miri_main(&args[2..]),
        _ => {
            eprintln!("usage: monitor run <property> | case <property> <seed> <tier> <index>");
            2
        }
    };
    std::process::exit(code);
}
