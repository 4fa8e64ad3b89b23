use vh::*;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => runner::check(&a[1..]),
        Some("worker") => runner::worker(&a[1..]),
        Some("guided") => guided::run(&a[1..]),
        Some("single") => runner::single(&a[1..]),
        Some("replay") => runner::replay(&a[1..]),
        Some("selftest") => {
            selftest::run();
            println!("the reference agrees with the published vectors");
            0
        }
        Some("dict") => {
            let d = dict::get();
            println!("{:?}\n{:?}", d.ints, d.strs.iter().map(|s| String::from_utf8_lossy(s)).collect::<Vec<_>>());
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.subs.len());
            }
            0
        }
        _ => {
            eprintln!("usage: vh check|replay|list ...");
            2
        }
    };
    std::process::exit(code)
}
