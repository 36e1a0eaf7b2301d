#[cfg(target_arch = "wasm32")]
fn main() {}
#[cfg(not(target_arch = "wasm32"))]
fn main() {
    use harness::sym::native::*;
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("replay file");
    let inputs = text.lines().filter(|l| l.starts_with("u ") || l.starts_with("c ") || l.starts_with("b ")).map(|l| l.to_string()).collect();
    RT.with(|r| r.borrow_mut().inputs = inputs);
    std::panic::set_hook(Box::new(|info| {
        println!("PANIC {info}");
        let allow = RT.with(|r| r.try_borrow().map(|r| r.allow_trap).unwrap_or(false));
        finish(if allow { 5 } else { 101 });
    }));
    let name = a[1].as_str();
    let Some((_, f)) = harness::props::JOBS.iter().find(|(n, _)| *n == name) else {
        println!("unknown job {name}");
        std::process::exit(2)
    };
    f();
    let failed = RT.with(|r| !r.borrow().failed.is_empty());
    let left = RT.with(|r| r.borrow().inputs.len());
    if left > 0 {
        println!("DESYNC: {left} inputs left");
        finish(3)
    }
    finish(if failed { 10 } else { 0 })
}
