mod exec;
mod expr;
mod mem;
mod wasm;
mod z3;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).map(|i| a[i + 1].clone()).unwrap_or(d.to_string())
    };
    let wasm = std::fs::read(&a[1]).expect("wasm file");
    let m = wasm::parse(&wasm);
    if a.iter().any(|x| x == "--list") {
        for (n, _) in m.exports.iter() {
            println!("{n}");
        }
        return;
    }
    let cfg = exec::Cfg {
        out: get("--out", "/tmp"),
        procs: get("--procs", "8").parse().unwrap(),
        time: get("--time", "600").parse().unwrap(),
        rlimit: get("--rlimit", "20000000").parse().unwrap(),
        samples: get("--samples", "6").parse().unwrap(),
        dump: get("--dump", "0").parse().unwrap(),
        show: a.iter().any(|x| x == "--show"),
        trace: a.iter().any(|x| x == "--trace"),
        prof: a.iter().any(|x| x == "--prof"),
        after: get("--after", "100000").parse().unwrap(),
        max_instr: get("--max-instr", "2000000000").parse().unwrap(),
        stop_after: get("--stop-after", "40").parse().unwrap(),
    };
    let jobs: Vec<String> = get("--jobs", "").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    exec::run_jobs(m, cfg, jobs);
}
