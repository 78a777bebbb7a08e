//! C19: the report of the real checker versus fault propagation.

use std::{
  collections::BTreeSet,
  io::{Read, Seek, SeekFrom},
  os::fd::{AsRawFd, FromRawFd},
  panic::{AssertUnwindSafe, catch_unwind},
};

use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::{
  mir::*,
  ty::{AdtDef, Ty, TyCtxt, TyKind},
};
use rustc_utils::{PlaceExt, mir::borrowck_facts::get_body_with_borrowck_facts};
use serde_json::json;

use crate::{
  flow::{Seen, Stats, Violation, describe_panic, hash_of, sub_places},
  interp::{EventKind, Fault, Interp, Loops, Query, Record, Stop},
  rng::Rng,
  session,
  worker::Only,
};

const ALL_CLEAR: &str = "No security issues found!";

pub fn traits_rlib() -> String {
  std::env::var("FLOWSIM_IFC_TRAITS").unwrap_or_else(|_| {
    let exe = std::env::current_exe().unwrap();
    exe.parent().unwrap().parent().unwrap().join("ifc/libflowistry_ifc_traits.rlib").display().to_string()
  })
}

pub fn extern_args() -> Vec<String> {
  vec!["--extern".into(), format!("flowistry_ifc_traits={}", traits_rlib())]
}

/// Runs `f` with what it writes to standard error captured.
fn captured(f: impl FnOnce()) -> Result<String, String> {
  unsafe {
    let fd = libc::memfd_create(c"stderr".as_ptr(), 0);
    let mut file = std::fs::File::from_raw_fd(fd);
    let old = libc::dup(2);
    libc::dup2(file.as_raw_fd(), 2);
    let r = catch_unwind(AssertUnwindSafe(f));
    libc::dup2(old, 2);
    libc::close(old);
    let mut s = String::new();
    file.seek(SeekFrom::Start(0)).unwrap();
    file.read_to_string(&mut s).unwrap();
    r.map(|_| s).map_err(|p| describe_panic(&*p))
  }
}

/// Without the sequences that set colours.
fn plain(s: &str) -> String {
  let mut out = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c == '\u{1b}' {
      for d in it.by_ref() {
        if d.is_ascii_alphabetic() {
          break;
        }
      }
    } else {
      out.push(c);
    }
  }
  out
}

/// Lines that the report names; `None`: some flow names no line.
fn reported_lines(report: &str) -> Option<BTreeSet<usize>> {
  let mut out = BTreeSet::new();
  let mut known = true;
  let mut any = true;
  for l in report.lines() {
    let start = l.starts_with("ERROR");
    if start {
      // the one before
      known &= any;
      any = false;
    }
    if start || l.starts_with("to data at") {
      let n = l.split(" at ").last().and_then(|r| r.split(':').next()).and_then(|n| n.trim().parse().ok());
      if let Some(n) = n {
        out.insert(n);
        any = true;
      }
    }
  }
  (known && any).then_some(out)
}

/// Runs the checker and the executions on a crate.
pub fn run_all(src: &str, seed: u64, only: &Only) -> (Stats, Seen, Vec<(String, Violation)>) {
  let out = std::sync::Mutex::new((Stats::default(), Seen::default(), vec![]));
  out.lock().unwrap().1.program = hash_of(src);
  session::session_analysed(src, &extern_args(), &mut flowistry_ifc::Callbacks, |tcx, checker| {
    let report = captured(checker);
    let o = &mut *out.lock().unwrap();
    check(tcx, report.map(|r| plain(&r)), seed, only, &mut o.0, &mut o.1, &mut o.2);
  });
  let mut o = out.into_inner().unwrap_or_else(|e| e.into_inner());
  if o.0.0.is_empty() {
    o.0.add("crates that do not compile", 1);
  }
  o
}

fn check<'tcx>(
  tcx: TyCtxt<'tcx>,
  report: Result<String, String>,
  seed: u64,
  only: &Only,
  st: &mut Stats,
  seen: &mut Seen,
  vs: &mut Vec<(String, Violation)>,
) {
  st.add("crates checked", 1);
  let v = |what: String, key: &str| Violation { what, key: key.into(), pin: json!({}) };
  let report = match report {
    Ok(r) => r,
    Err(e) => {
      vs.push(("".into(), v(format!("the checker gave no verdict: {e}"), "no answer")));
      return;
    }
  };
  let clear = report.contains(ALL_CLEAR);
  let errors = report.lines().filter(|l| l.starts_with("ERROR")).count();
  st.add("flows reported", errors as u64);
  st.add(if clear { "crates given the all-clear" } else { "crates reported" }, 1);
  if clear && errors > 0 {
    vs.push(("".into(), v(format!("the checker reports {errors} insecure flows and prints its all-clear"), "all-clear")));
  }
  if !clear && errors == 0 {
    vs.push(("".into(), v("the checker prints neither a flow nor its all-clear".into(), "no verdict")));
  }
  let lines = reported_lines(&report);
  let map = tcx.sess.source_map();
  for (name, d) in session::functions(tcx) {
    let last = name.rsplit("::").next().unwrap();
    match &only.name {
      Some(n) if !n.is_empty() && *n != name => continue,
      _ if !last.starts_with(['t', 'h', 'd']) => continue,
      _ => {}
    }
    let sp = tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(d));
    let (lo, hi) = (map.lookup_char_pos(sp.lo()).line, map.lookup_char_pos(sp.hi()).line);
    let reported = errors > 0
      && match &lines {
        Some(ls) => ls.range(lo ..= hi).next().is_some(),
        None => true,
      };
    st.add(if reported { "functions reported" } else { "functions not reported" }, 1);
    let h = name.bytes().fold(seed, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
    if let Some(x) = executions(tcx, d, h, reported, only, st, seen) {
      let mut x = x;
      if clear {
        x.what += "; the all-clear was printed";
      }
      vs.push((name.clone(), x));
    }
    if let Some(s) = &mut seen.sample
      && s.get("function").is_none()
    {
      s["function"] = json!(name);
    }
  }
}

fn implements(tcx: TyCtxt<'_>, adt: AdtDef<'_>, name: &str) -> bool {
  let of = |t: DefId| tcx.item_name(t).as_str() == name && tcx.crate_name(t.krate).as_str() == "flowistry_ifc_traits";
  tcx.all_local_trait_impls(()).iter().any(|(t, impls)| {
    of(*t)
      && impls.iter().any(|i| {
        let r = tcx.impl_trait_ref(*i).unwrap().instantiate_identity();
        matches!(r.self_ty().kind(), TyKind::Adt(a, _) if *a == adt)
      })
  })
}

fn executions<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  seed: u64,
  reported: bool,
  only: &Only,
  st: &mut Stats,
  seen: &mut Seen,
) -> Option<Violation> {
  let pinned = |k: &str| only.pin.as_ref().and_then(|p| p.get(k));
  let number = |k: &str| pinned(k).and_then(|v| v.as_str()).map(|s| s.parse::<u64>().unwrap());
  let mut rng = Rng::new(seed);
  let facts = get_body_with_borrowck_facts(tcx, def);
  let body = &facts.body;
  let loops = Loops::build(body);
  let insecure = |t: Ty<'tcx>| matches!(t.kind(), TyKind::Adt(a, _) if implements(tcx, *a, "Insecure"));
  let mut places = vec![];
  for l in body.local_decls.indices() {
    let mut ps = vec![];
    sub_places(tcx, body, Place::from_local(l, tcx), 4, def, &mut ps);
    places.extend(ps.into_iter().filter(|p| insecure(p.ty(body.local_decls(), tcx).ty)));
  }
  if places.is_empty() {
    st.add("functions without insecure places", 1);
    return None;
  }
  for _ in 0 .. if only.pin.is_some() { 1 } else { only.execs } {
    let exec_seed = number("exec").unwrap_or_else(|| rng.next());
    let fault_seed = rng.next();
    let run = |queries: &[Query<'tcx>], fault: Option<Fault>| {
      let mut m = Interp::new(tcx, def.to_def_id(), queries, &loops);
      m.fault = fault;
      m.only_of = Some(Box::new(move |a: AdtDef<'tcx>| implements(tcx, a, "Secure")));
      let mut r = Rng::new(exec_seed);
      let mut args = vec![];
      for i in 1 ..= body.arg_count {
        let ty = tcx.erase_regions(body.local_decls[Local::from_usize(i)].ty);
        match m.gen_val(ty, &mut r, 0) {
          Ok(v) => args.push(v),
          Err(e) => return (Record::default(), Err(e)),
        }
      }
      let res = m.run_top(args);
      (std::mem::take(&mut m.rec), res.map(|_| ()))
    };
    let (plan, res) = run(&[], None);
    st.add("executions", 1);
    if let Err(Stop::Unsupported(s)) = res {
      st.add(&format!("executions cut: unsupported {s}"), 1);
    }
    let visited: BTreeSet<Location> = plan.visited.iter().copied().collect();
    let queries: Vec<Query<'tcx>> = match (pinned("place"), pinned("location")) {
      (Some(p), Some(l)) => places
        .iter()
        .flat_map(|place| visited.iter().map(|loc| Query { place: *place, loc: *loc }))
        .filter(|q| Some(&*format!("{:?}", q.place)) == p.as_str() && Some(&*format!("{:?}", q.loc)) == l.as_str())
        .collect(),
      _ => {
        let mut all: Vec<_> = places
          .iter()
          .flat_map(|place| visited.iter().map(|loc| Query { place: *place, loc: *loc }))
          .collect();
        while all.len() > 60 {
          let i = rng.below(all.len());
          all.swap_remove(i);
        }
        all
      }
    };
    let (base, _) = run(&queries, None);
    st.add("simulated instructions", base.steps as u64);
    let candidates: Vec<usize> = (0 .. base.events.len())
      .filter(|i| {
        let e = &base.events[*i];
        e.leaves > 0 && e.depth == 0 && e.kind != EventKind::Switch
      })
      .collect();
    if candidates.is_empty() {
      st.add("executions without secure data", 1);
      continue;
    }
    let mut fr = Rng::new(fault_seed);
    for _ in 0 .. if only.pin.is_some() { 1 } else { 12 } {
      let mut fault = Fault { event: *fr.pick(&candidates), salt: fr.next() };
      if only.pin.is_some() {
        fault = Fault { event: pinned("event")?.as_u64()? as usize, salt: number("salt")? };
        if !candidates.contains(&fault.event) {
          return None;
        }
      }
      let (rec, _) = run(&queries, Some(fault.clone()));
      st.add("simulated instructions", rec.steps as u64);
      let Some(done) = &rec.fault else { continue };
      let ev = &base.events[fault.event];
      st.add(
        match ev.kind {
          EventKind::Arg(_) => "fault corrupted secure argument",
          EventKind::Assign => "fault corrupted secure value when assigned",
          EventKind::CallRet => "fault corrupted secure call result",
          _ => "fault corrupted secure memory a call can mutate",
        },
        1,
      );
      st.add("faults injected", 1);
      let mut effects = 0;
      let mut keys: Vec<_> = base.observed.keys().collect();
      keys.sort();
      for k in keys {
        let (d, shown) = &base.observed[k];
        st.add("observations compared", 1);
        let Some((d2, shown2)) = rec.observed.get(k) else { continue };
        if d == d2 {
          continue;
        }
        effects += 1;
        let q = &queries[k.0];
        seen.cases.insert(hash_of((seen.program, exec_seed, fault.event, format!("{:?}{:?}", q.place, q.loc))));
        let what = format!(
          "{} in secure data changes the insecure {:?} after {:?} from {shown} to {shown2}",
          done.what, q.place, q.loc
        );
        if seen.sample.is_none() {
          seen.sample = Some(json!({"execution seed": exec_seed.to_string(), "event": fault.event, "flow": what, "reported": reported}));
        }
        if !reported {
          return Some(Violation {
            what: format!("{what}, but the checker reports no flow in the function"),
            key: "missed flow".into(),
            pin: json!({"exec": exec_seed.to_string(), "event": fault.event, "salt": fault.salt.to_string(),
              "place": format!("{:?}", q.place), "location": format!("{:?}", q.loc)}),
          });
        }
      }
      if effects > 0 {
        st.add("faults with an observable effect", 1);
        st.add("observed influences checked", effects);
      }
    }
  }
  None
}
