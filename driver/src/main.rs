//! rustc driver that dumps the resolved, monomorphised MIR of the program under analysis as JSON.
//!
//! Used as RUSTC_WRAPPER: every crate is compiled by the real compiler; for the crate named by
//! IKAL_FACTS_CRATE the facts reachable from it and from crate `ikal` are written to IKAL_FACTS_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Cb {
    active: bool,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if self.active {
            let out = std::env::var("IKAL_FACTS_OUT").expect("IKAL_FACTS_OUT");
            let text = dump::dump(tcx);
            std::fs::write(out, text).expect("write facts");
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("IKAL_FACTS_CRATE").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let active = !want.is_empty() && name == want;
    rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { active })
    })
}
