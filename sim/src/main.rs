mod alloc;
mod gcs;
mod gen;
mod interpose;
mod minimise;
mod ops;
mod oracle;
mod plan;
mod prng;
mod proc;
mod report;
mod rt;
mod world;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn usage() -> ! {
    eprintln!(
        "usage: sim check <property> <quick|thorough> <seed> <verif dir>\n       sim replay <file>\n       sim one <property> <seed> <index>\n       sim plan <property> <seed> <index>\n       sim run <plan file>\n       sim selftest <runs> <seed>"
    );
    std::process::exit(2)
}

fn main() {
    for v in [
        "HTTP_PROXY",
        "http_proxy",
        "HTTPS_PROXY",
        "https_proxy",
        "ALL_PROXY",
        "all_proxy",
        "NO_PROXY",
        "no_proxy",
        "REQUEST_METHOD",
        "GCE_METADATA_HOST",
    ] {
        std::env::remove_var(v);
    }
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let num = |s: &str| s.parse::<u64>().unwrap_or_else(|_| usage());
    let code = match a.as_slice() {
        [_, "check", p, tier, seed, dir] => report::check(p, tier, num(seed), dir),
        [_, "replay", file] => report::replay(file),
        [_, "one", p, seed, idx] => report::one(p, num(seed), num(idx)),
        [_, "run", file] => report::run_file(file),
        [_, "plan", p, seed, idx] => report::plan(p, num(seed), num(idx)),
        [_, "selftest", n, seed] => report::selftest(num(n), num(seed)),
        _ => usage(),
    };
    std::process::exit(code);
}
