use vharness::{alloc, props, run};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("probe") {
        std::process::exit(match args[2].as_str() {
            "vm" => props::vm::probe(&args[2..]),
            "deep" => props::hostile::probe(&args[2..]),
            _ => props::det::probe(&args[2..]),
        });
    }
    std::process::exit(run::main(&args, props::all()));
}
