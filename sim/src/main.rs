mod alloc;
mod bystander;
mod cg;
mod exec;
mod foreign;
mod known;
mod loose;
mod peer;
mod plan;
mod rng;
mod run;
mod seam;
mod sess;
mod stats;
mod values;
mod world;

use std::path::PathBuf;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn on_big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).expect("thread").join().unwrap_or(3)
}

fn main() {
    seam::install();
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| -> u64 { a.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
    let root = PathBuf::from(std::env::var("SVGSIM_ROOT").unwrap_or_else(|_| "/verif".into()));
    let repo = PathBuf::from("/repo");
    let me = std::env::current_exe().expect("exe");
    // .../target/{release,checked}/svgsim
    let t = me.parent().and_then(|p| p.parent()).expect("target dir").to_path_buf();
    let bins = [t.join("release/svgsim"), t.join("checked/svgsim")];
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = run::prop_no(&a[2]).expect("property");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = if a.get(3).map(|s| s == "thorough").unwrap_or(false) || tier == "thorough" { "thorough" } else { "quick" }.to_string();
            let runs: Option<u64> = std::env::var("SVGSIM_RUNS").ok().and_then(|s| s.parse().ok());
            if prop == 15 { cg::check(&root, &repo, seed, &tier, runs) } else { run::Check { prop, seed, tier, bins, root, runs, jobs: 8 }.run() }
        }
        Some("worker") => {
            let w = run::WArgs { prop: run::prop_no(&a[2]).unwrap(), seed: n(3), start: n(4), stride: n(5), end: n(6), dir: a[7].clone(), k: n(8) as usize, secs: n(9) };
            on_big_stack(move || run::worker(&w))
        }
        Some("sweep") => { let (s, r) = (n(2), n(3)); on_big_stack(move || run::sweep(s, r)) }
        Some("digests") => { let p = run::prop_no(&a[2]).unwrap(); let (s, b, st, e) = (n(3), n(4), n(5), n(6)); on_big_stack(move || run::digests(p, s, b, st, e)) }
        Some("replay-child") => { let f = a[2].clone(); on_big_stack(move || run::replay_child(&f)) }
        Some("replay") => {
            let text = std::fs::read_to_string(&a[2]).unwrap_or_default();
            if text.lines().any(|l| l.starts_with("tool ")) { cg::replay(&root, &repo, &text) } else { run::replay(&bins, &a[2]) }
        }
        _ => { eprintln!("usage: svgsim check Cnn [thorough] | replay FILE"); 2 }
    };
    std::process::exit(code);
}
