//! Runs one harness natively with the values of a counterexample.
//! usage: replay <harness> <file>, with one value per line of the file, in hex.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 2 && args[1] == "--list" {
        for t in harness::TABLES {
            for (n, _) in t.iter() {
                println!("{}", n);
            }
        }
        return;
    }
    let text = std::fs::read_to_string(&args[2]).expect("replay file");
    let values: Vec<Vec<u8>> = text
        .lines()
        .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
        .map(|l| {
            let l = l.trim();
            (0..l.len() / 2)
                .map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("hex"))
                .collect()
        })
        .collect();
    for t in harness::TABLES {
        for (n, f) in t.iter() {
            if *n == args[1] {
                harness::sym::set_values(values);
                f();
                println!("REPLAY-OK: {} holds for these values", n);
                return;
            }
        }
    }
    eprintln!("REPLAY-UNKNOWN: no harness named {}", args[1]);
    std::process::exit(5);
}
