#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_middle;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
mod text;
mod bdd;
mod body;
mod checks;
mod chk_bits;
mod consts;
mod dom;
mod interp;
mod models;
mod models2;
mod models3;
mod chk_flow;
mod chk_lit;
mod chk_tree;
mod chk_graph;
mod chk_parse;
mod chk_small;
mod chk_safe;
mod chk_ue2;
mod chk_flags;
mod callg;
mod tyx;
mod val;
mod widen;
use std::ops::ControlFlow;

fn go() -> ControlFlow<(), ()> {
    checks::run();
    ControlFlow::Continue(())
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if let Ok(p) = std::env::var("SA_ARGS_OUT") {
        // Recording pass under cargo: note the exact compiler invocation of the crate.
        let named = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "rescan");
        if named && !args.iter().any(|a| a == "--test") {
            let mut o = String::new();
            o.push_str(&format!("D{}\0", std::env::current_dir().unwrap().display()));
            for (k, v) in std::env::vars() {
                if k.starts_with("CARGO") {
                    o.push_str(&format!("E{k}={v}\0"));
                }
            }
            for a in &args[1..] {
                o.push_str(&format!("A{a}\0"));
            }
            std::fs::write(p, o).unwrap();
        }
    }
    let r = run!(&args, go);
    match r {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
