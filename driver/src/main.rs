//! Fact extractor: a rustc driver that dumps the type-checked, resolved MIR of the
//! crates it is asked to analyse (environment: GENCO_FACTS_OUT = directory,
//! GENCO_FACTS_CRATES = comma separated crate names) as JSON.  It makes no decisions.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
mod dump;

use rustc_driver::Compilation;
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        // Keep the MIR close to the source.
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.ub_checks = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            dump::dump(tcx, out);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // Invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut name = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned();
        }
    }
    let wanted = std::env::var("GENCO_FACTS_CRATES").unwrap_or_default();
    let dir = std::env::var("GENCO_FACTS_OUT").ok();
    let is_test = args.iter().any(|a| a == "--test");
    let out = match (&name, dir) {
        (Some(n), Some(d)) if !is_test && wanted.split(',').any(|w| w == n) => {
            Some(format!("{d}/{n}.json"))
        }
        _ => None,
    };
    let mut cb = Cb { out };
    rustc_driver::compiler_entrypoint(&args, &mut cb);
}
