#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_session;
extern crate rustc_span;

mod facts;
mod form;
mod fp;
mod interp;
mod jobs;
mod lower;
mod merlin;
mod models;
mod spec;
mod val;


pub fn is_workspace(k: &str) -> bool {
    matches!(k, "poseidon377" | "poseidon_permutation" | "poseidon_parameters")
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WRAPPER: argv[1] is the real rustc
    args.remove(0);
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1].clone()).unwrap_or_default();
    let ours = name == "probe" || is_workspace(&name);
    let build_script = args.iter().any(|a| a == "build_script_build") || name.starts_with("build_script");
    if !ours || build_script || !args.iter().any(|a| a == "--crate-type") {
        let e = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(e.code().unwrap_or(1));
    }
    if is_workspace(&name) {
        // report unsafe code even where the source allows it
        args.push("--force-warn=unsafe_code".into());
    }
    let out = std::env::var("VP_OUT").unwrap_or_default();
    let r = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(move || {
            let code = rustc_driver::catch_fatal_errors(|| {
                let mut res = rustc_public::run_with_tcx!(&args, |tcx| -> ControlFlow<(), ()> {
                    if !out.is_empty() {
                        if name == "probe" {
                            jobs::run(&out);
                        } else {
                            facts::run(tcx, &out, &name);
                        }
                    }
                    ControlFlow::Continue(())
                });
                let _ = &mut res;
                matches!(res, Ok(_))
            });
            match code {
                Ok(true) => 0,
                _ => 1,
            }
        })
        .unwrap()
        .join();
    match r {
        Ok(c) => std::process::exit(c),
        Err(_) => {
            eprintln!("vpdriver: analysis thread failed");
            std::process::exit(101)
        }
    }
}
