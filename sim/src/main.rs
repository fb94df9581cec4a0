mod compcase;
mod exec;
mod gen;
mod plan;
mod props;
mod search;
mod seeds;

#[global_allocator]
static A: simrt::SimAlloc = simrt::SimAlloc;

fn main() {
    simrt::init();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| -> Option<String> { a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned()) };
    let seed: u64 = opt("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let root = opt("--root").unwrap_or("/verif".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => search::check(&a[2], seed, tier == "thorough", &root, opt("--runs").and_then(|s| s.parse().ok()),
            opt("--workers").and_then(|s| s.parse().ok())),
        Some("replay") => search::replay(&a[2]),
        Some("events") => {
            search::events(&a[2], seed, a[3].parse().unwrap(), a[4].parse().unwrap());
            0
        }
        _ => {
            eprintln!("usage: weedle-sim check ID | replay FILE | events ID FROM TO");
            2
        }
    };
    std::process::exit(code);
}
