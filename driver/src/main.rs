//! Facts extractor: a rustc driver that dumps the type-checked program (types, layouts, constants,
//! visibility, unsafety) and the resolved, monomorphised MIR of every function of the workspace
//! crate being compiled as JSON.  It decides nothing; all rules live in /verif/sa.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out_dir: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.trimmed_def_paths = false;
    }

    fn after_analysis<'tcx>(
        &mut self,
        _compiler: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(dir) = &self.out_dir {
            let mut name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            if tcx.sess.opts.crate_types.iter().any(|t| format!("{t:?}") == "Executable") {
                name.push_str("-bin");
            }
            if name != "build_script_build" {
                let text = dump::dump_crate(tcx);
                let tmp = format!("{dir}/.{name}.json.{}.tmp", std::process::id());
                std::fs::write(&tmp, text).expect("cannot write facts");
                std::fs::rename(&tmp, format!("{dir}/{name}.json")).expect("cannot rename facts");
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as first argument.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_build = args.iter().any(|a| a == "--crate-name");
    let mut out_dir = None;
    if is_build {
        out_dir = std::env::var("STARLIT_FACTS_DIR").ok();
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        args.push("--cap-lints".into());
        args.push("allow".into());
    }
    rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out_dir })
    })
}
