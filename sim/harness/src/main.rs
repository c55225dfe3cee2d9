#![recursion_limit = "256"]
//! simharness check <property> | replay <file> | selfcheck <property> <n> | one <property> <index>
mod exec;
mod gen;
mod model;
mod oracle;
mod rt;
mod scen;
mod verify;
mod check;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check::check(&a[2]),
        Some("replay") => check::replay(&a[2]),
        Some("selfcheck") => check::selfcheck(&a[2], a[3].parse().unwrap()),
        Some("one") => check::one(&a[2], a[3].parse().unwrap()),
        _ => {
            eprintln!("usage: simharness check <property> | replay <file> | selfcheck <property> <n> | one <property> <index>");
            2
        }
    };
    std::process::exit(code);
}
