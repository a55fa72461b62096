mod agent;
mod alloc;
mod bus;
mod def;
mod driver;
mod interpose;
mod props;
mod raw;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

use std::{
    io::{BufRead, Write},
    path::PathBuf,
};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let defs = props::all();
    let find = |id: &str| defs.iter().find(|d| d.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
    match a(1) {
        "worker" => {
            let def = find(a(2));
            def::install_panic_hook();
            unsafe {
                // as in programs other than Rust ones
                libc::signal(libc::SIGPIPE, libc::SIG_DFL);
            }
            let out = std::io::stdout();
            for line in std::io::stdin().lock().lines() {
                let Ok(line) = line else { break };
                let v = serde_json::from_str(&line).expect("case");
                let o = (def.run)(&v);
                let mut s = serde_json::to_string(&o).unwrap();
                s.push('\n');
                let mut out = out.lock();
                let _ = out.write_all(s.as_bytes());
                let _ = out.flush();
            }
            // don't run destructors of the hosting threads
            unsafe { libc::_exit(0) }
        }
        "check" | "replay" => {
            let id = a(2);
            let opts = driver::Opts {
                root: PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into())),
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
                cases: std::env::var("VH_CASES").ok().and_then(|s| s.parse().ok()),
            };
            let code = if a(1) == "check" {
                driver::check(find(id), &opts)
            } else {
                driver::replay(find(id), &opts, &PathBuf::from(a(3)))
            };
            std::process::exit(code);
        }
        "agent" => agent::main(),
        "fds" => props::leaks::inherited(),
        "list" => {
            for d in &defs {
                println!("{}", d.id);
            }
        }
        _ => {
            eprintln!("usage: vh check|replay|worker|list ...");
            std::process::exit(2);
        }
    }
}
