//! Dumps what rustc knows about one crate, after type checking and MIR
//! construction, as JSON: the analyses in ../engine read it.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. Environment:
//!   ADP_FACTS_CRATE  name of the crate to dump (others are compiled as usual)
//!   ADP_FACTS_OUT    file to write

#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::Compilation;
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Facts {
    out: String,
}

impl rustc_driver::Callbacks for Facts {
    fn config(&mut self, config: &mut interface::Config) {
        // Every body, as written: no inlining, no const propagation.
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }

    fn after_analysis<'tcx>(
        &mut self,
        _compiler: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let j = dump::dump(tcx);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper we are called as: adp-facts /path/to/rustc ARGS...
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }

    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned();

    let want = std::env::var("ADP_FACTS_CRATE").ok();
    let out = std::env::var("ADP_FACTS_OUT").ok();

    match (name, want, out) {
        (Some(n), Some(w), Some(out)) if n == w => {
            args.push("--cap-lints=allow".into());
            args.push("-Coverflow-checks=on".into());
            rustc_driver::compiler_entrypoint(&args, &mut Facts { out });
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    }
}
