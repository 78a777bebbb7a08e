//! Compiler sessions on in-memory sources.

use std::{
  io,
  path::Path,
  sync::{Arc, LazyLock},
};

use rustc_hir::{def::DefKind, def_id::LocalDefId};
use rustc_middle::ty::TyCtxt;
use rustc_span::source_map::FileLoader;
use rustc_utils::mir::borrowck_facts;

pub static SYSROOT: LazyLock<String> = LazyLock::new(|| {
  std::env::var("FLOWSIM_SYSROOT").unwrap_or_else(|_| {
    let out = std::process::Command::new("rustc")
      .args(["--print", "sysroot"])
      .output()
      .expect("rustc")
      .stdout;
    String::from_utf8(out).unwrap().trim().to_owned()
  })
});

struct StringLoader(String);
impl FileLoader for StringLoader {
  fn file_exists(&self, _: &Path) -> bool {
    true
  }
  fn read_file(&self, _: &Path) -> io::Result<String> {
    Ok(self.0.clone())
  }
  fn read_binary_file(&self, path: &Path) -> io::Result<Arc<[u8]>> {
    Ok(std::fs::read(path)?.into())
  }
}

struct Cb<F> {
  src: String,
  f: Option<F>,
  done: bool,
}

impl<F> rustc_driver::Callbacks for Cb<F>
where
  F: for<'tcx> FnOnce(TyCtxt<'tcx>) + Send,
{
  fn config(&mut self, config: &mut rustc_interface::Config) {
    config.override_queries = Some(borrowck_facts::override_queries);
    config.file_loader = Some(Box::new(StringLoader(self.src.clone())));
    config.psess_created = Some(Box::new(|psess| psess.dcx().make_silent()));
  }

  fn after_expansion<'tcx>(
    &mut self,
    _c: &rustc_interface::interface::Compiler,
    tcx: TyCtxt<'tcx>,
  ) -> rustc_driver::Compilation {
    (self.f.take().unwrap())(tcx);
    self.done = true;
    rustc_driver::Compilation::Stop
  }
}

fn run(extra: &[String], cb: &mut (dyn rustc_driver::Callbacks + Send)) {
  let mut args: Vec<String> = [
    "rustc",
    "sim.rs",
    "--crate-type",
    "lib",
    "--edition=2024",
    "-Zidentify-regions",
    "-Zmir-opt-level=0",
    "-Zmaximal-hir-to-mir-coverage",
    "--allow",
    "warnings",
    "--sysroot",
    &*SYSROOT,
  ]
  .into_iter()
  .map(str::to_owned)
  .collect();
  args.extend(extra.iter().cloned());
  let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    let _ = rustc_driver::catch_fatal_errors(|| {
      rustc_driver::run_compiler(&args, cb);
    });
  }));
}

/// Runs `f` within a compiler session on `src`. Returns whether `f` completed.
pub fn session<F>(src: &str, extra: &[String], f: F) -> bool
where
  F: for<'tcx> FnOnce(TyCtxt<'tcx>) + Send,
{
  borrowck_facts::enable_mir_simplification();
  let mut cb = Cb { src: src.to_owned(), f: Some(f), done: false };
  run(extra, &mut cb);
  cb.done
}

struct CbAnalysed<'a, F> {
  src: String,
  inner: &'a mut (dyn rustc_driver::Callbacks + Send),
  f: Option<F>,
  done: bool,
}

impl<F> rustc_driver::Callbacks for CbAnalysed<'_, F>
where
  F: for<'tcx> FnOnce(TyCtxt<'tcx>, &mut dyn FnMut()) + Send,
{
  fn config(&mut self, config: &mut rustc_interface::Config) {
    self.inner.config(config);
    config.file_loader = Some(Box::new(StringLoader(self.src.clone())));
    config.psess_created = Some(Box::new(|psess| psess.dcx().make_silent()));
  }

  fn after_analysis<'tcx>(
    &mut self,
    c: &rustc_interface::interface::Compiler,
    tcx: TyCtxt<'tcx>,
  ) -> rustc_driver::Compilation {
    let inner = &mut self.inner;
    (self.f.take().unwrap())(tcx, &mut || {
      inner.after_analysis(c, tcx);
    });
    self.done = true;
    rustc_driver::Compilation::Stop
  }
}

/// Runs `f` after the analysis of a crate that compiles, with the work of `inner` at that point.
pub fn session_analysed<F>(
  src: &str,
  extra: &[String],
  inner: &mut (dyn rustc_driver::Callbacks + Send),
  f: F,
) -> bool
where
  F: for<'tcx> FnOnce(TyCtxt<'tcx>, &mut dyn FnMut()) + Send,
{
  let mut cb = CbAnalysed { src: src.to_owned(), inner, f: Some(f), done: false };
  run(extra, &mut cb);
  cb.done
}

/// The free functions and methods of the crate, in source order.
pub fn functions(tcx: TyCtxt<'_>) -> Vec<(String, LocalDefId)> {
  let mut out: Vec<_> = tcx
    .hir_body_owners()
    .filter(|d| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn))
    .map(|d| (tcx.def_path_str(d), d))
    .collect();
  out.sort_by_key(|(n, d)| (tcx.def_span(*d).lo(), n.clone()));
  out
}

pub fn has_errors(tcx: TyCtxt<'_>, d: LocalDefId) -> bool {
  if tcx.typeck(d).tainted_by_errors.is_some() {
    return true;
  }
  if tcx.mir_borrowck(d).is_err() {
    return true;
  }
  borrowck_facts::get_body_with_borrowck_facts(tcx, d)
    .body
    .tainted_by_errors
    .is_some()
}

/// Functions with type or borrow errors, by name.
pub fn erroneous(src: &str, extra: &[String]) -> Option<Vec<String>> {
  let out = std::sync::Mutex::new(vec![]);
  let ok = session(src, extra, |tcx| {
    for (n, d) in functions(tcx) {
      if has_errors(tcx, d) {
        out.lock().unwrap().push(n);
      }
    }
  });
  ok.then(|| out.into_inner().unwrap())
}
