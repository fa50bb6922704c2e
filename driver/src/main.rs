#![feature(rustc_private)]
#![allow(rustc::internal)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(out) = &self.out {
            dump::dump(tcx, out);
        }
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the path of the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned());
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").ok();
    let is_want = crate_name
        .as_deref()
        .map(|c| want.split(',').any(|w| w == c))
        .unwrap_or(false);
    let out = match (is_want, dir) {
        (true, Some(d)) => Some(format!("{}/{}.json", d, crate_name.unwrap())),
        _ => None,
    };
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
