//! C12, C13, C20: slices versus fault propagation in simulated executions.

use std::{
  cell::{Cell, RefCell},
  collections::{BTreeMap, BTreeSet, HashMap},
  panic::{AssertUnwindSafe, catch_unwind},
  rc::Rc,
};

use flowistry::{
  extensions::{ContextMode, EVAL_MODE, EvalMode, MutabilityMode, PointerMode},
  infoflow::{Direction, FlowResults, compute_dependencies, compute_flow},
  mir::sim,
};
use fluid_let::fluid_set;
use rustc_hir::def_id::LocalDefId;
use rustc_middle::{
  mir::*,
  ty::{Ty, TyCtxt, TyKind},
};
use rustc_mir_dataflow::{Analysis, impls::MaybeLiveLocals};
use rustc_utils::{
  BodyExt, PlaceExt,
  mir::{
    borrowck_facts::get_body_with_borrowck_facts,
    location_or_arg::{LocationOrArg, index::LocationOrArgSet},
  },
};
use serde_json::{Value, json};

use crate::{
  interp::{Elem, EventKind, Fault, Interp, Loops, Query, Record, Stop},
  rng::Rng,
};

#[derive(Default, Clone)]
pub struct Stats(pub BTreeMap<String, u64>);
impl Stats {
  pub fn add(&mut self, k: &str, n: u64) {
    *self.0.entry(k.to_string()).or_insert(0) += n;
  }
  pub fn json(&self) -> Value {
    json!(self.0)
  }
}

#[derive(Clone, Debug)]
pub struct Violation {
  pub what: String,
  /// identifies the failure independently of the input program
  pub key: String,
  pub pin: Value,
}

/// Counts steps of the analysis and stops it when it exceeds its budget.
pub struct Budget {
  left: Cell<u64>,
  pub used: Cell<u64>,
}
pub struct OutOfBudget;
impl Budget {
  pub fn new(n: u64) -> Rc<Self> {
    Rc::new(Budget { left: Cell::new(n), used: Cell::new(0) })
  }
}
impl sim::Hooks for Budget {
  fn pick(&self, _: usize) -> usize {
    0
  }
  fn step(&self) {
    self.used.set(self.used.get() + 1);
    if self.left.get() == 0 {
      std::panic::panic_any(OutOfBudget);
    }
    self.left.set(self.left.get() - 1);
  }
}

pub fn with_hooks<T>(h: Rc<dyn sim::Hooks>, f: impl FnOnce() -> T) -> T {
  struct Guard(Option<Rc<dyn sim::Hooks>>);
  impl Drop for Guard {
    fn drop(&mut self) {
      sim::install(self.0.take());
    }
  }
  let _g = Guard(sim::install(Some(h)));
  f()
}

pub fn describe_panic(p: &(dyn std::any::Any + Send)) -> String {
  if p.downcast_ref::<OutOfBudget>().is_some() {
    return "it does not terminate (step budget exhausted)".into();
  }
  let m = p
    .downcast_ref::<String>()
    .cloned()
    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
    .unwrap_or_else(|| "unknown panic".into());
  format!("it panics: {m}")
}

pub fn mode_of(n: usize) -> EvalMode {
  EvalMode {
    mutability_mode: if n & 1 == 0 {
      MutabilityMode::DistinguishMut
    } else {
      MutabilityMode::IgnoreMut
    },
    pointer_mode: if n & 2 == 0 { PointerMode::Precise } else { PointerMode::Conservative },
    context_mode: if n & 4 == 0 { ContextMode::SigOnly } else { ContextMode::Recurse },
  }
}

pub fn loa(l: LocationOrArg) -> String {
  match l {
    LocationOrArg::Location(l) => format!("{l:?}"),
    LocationOrArg::Arg(a) => format!("arg {a:?}"),
  }
}

/// Places to ask about: locals, their fields, and what references point to.
pub fn sub_places<'tcx>(
  tcx: TyCtxt<'tcx>,
  body: &Body<'tcx>,
  place: Place<'tcx>,
  depth: u32,
  def: LocalDefId,
  out: &mut Vec<Place<'tcx>>,
) {
  out.push(place);
  if depth == 0 {
    return;
  }
  let ty = place.ty(body.local_decls(), tcx).ty;
  let field = |i: usize, t: Ty<'tcx>| {
    place.project_deeper(&[ProjectionElem::Field(i.into(), t)], tcx)
  };
  match ty.kind() {
    TyKind::Tuple(ts) => {
      for (i, t) in ts.iter().enumerate() {
        sub_places(tcx, body, field(i, t), depth - 1, def, out);
      }
    }
    TyKind::Ref(_, t, _) if t.is_sized(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized()) => {
      sub_places(tcx, body, place.project_deeper(&[ProjectionElem::Deref], tcx), depth - 1, def, out);
    }
    TyKind::Adt(adt, args) if adt.is_struct() && adt.did().is_local() => {
      for (i, f) in adt.non_enum_variant().fields.iter().enumerate() {
        if !f.vis.is_accessible_from(tcx.parent_module_from_def_id(def), tcx) {
          continue;
        }
        sub_places(tcx, body, field(i, f.ty(tcx, args)), depth - 1, def, out);
      }
    }
    TyKind::Adt(..) if ty.is_box() => {
      sub_places(tcx, body, place.project_deeper(&[ProjectionElem::Deref], tcx), depth - 1, def, out);
    }
    _ => {}
  }
}

pub fn has_ref(ty: Ty<'_>) -> bool {
  ty.walk().any(|a| a.as_type().is_some_and(|t| t.is_ref() || t.is_closure()))
}

#[derive(Default)]
pub struct Params {
  pub execs: usize,
  pub faults: usize,
  pub verbose: bool,
  /// runs one execution with one fault and one question
  pub pin: Option<Value>,
}

/// What a run of a check covered, beyond counts.
#[derive(Default)]
pub struct Seen {
  /// distinct effects of faults (C12, C13, C20) or schedules (C11)
  pub cases: BTreeSet<u64>,
  pub sample: Option<Value>,
  pub program: u64,
}

pub fn hash_of(x: impl std::hash::Hash) -> u64 {
  use std::hash::Hasher;
  struct Fnv(u64);
  impl Hasher for Fnv {
    fn finish(&self) -> u64 {
      self.0
    }
    fn write(&mut self, b: &[u8]) {
      for x in b {
        self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
      }
    }
  }
  let mut h = Fnv(0xcbf29ce484222325);
  x.hash(&mut h);
  h.finish()
}

/// Runs the executions of one function. `recurse`: C20.
pub fn check<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  prop: &str,
  seed: u64,
  pr: &Params,
  st: &mut Stats,
  seen: &mut Seen,
) -> Option<Violation> {
  let r = catch_unwind(AssertUnwindSafe(|| check_inner(tcx, def, prop, seed, pr, st, seen)));
  match r {
    Ok(v) => v,
    Err(p) => Some(Violation {
      what: format!("the analysis gave no answer: {}", describe_panic(&*p)),
      key: "no answer".into(),
      pin: json!({}),
    }),
  }
}

fn check_inner<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  prop: &str,
  seed: u64,
  pr: &Params,
  st: &mut Stats,
  seen: &mut Seen,
) -> Option<Violation> {
  let pinned = |k: &str| pr.pin.as_ref().and_then(|p| p.get(k));
  let number = |k: &str| pinned(k).and_then(|v| v.as_str()).map(|s| s.parse::<u64>().unwrap());
  let mut rng = Rng::new(seed);
  let recurse = prop == "C20";
  let forward = prop == "C13";
  let facts = get_body_with_borrowck_facts(tcx, def);
  let body = &facts.body;
  if body.all_returns().next().is_none() {
    st.add("functions that never return (skipped)", 1);
    return None;
  }
  let body_id = tcx.hir_body_owned_by(def).id();
  let mut mode_n = if rng.chance(1, 6) { rng.below(4) } else { 0 };
  if recurse {
    mode_n |= 4;
  }
  if let Some(m) = pinned("mode").and_then(|m| m.as_u64()) {
    mode_n = m as usize;
  }
  let mode = mode_of(mode_n);
  fluid_set!(EVAL_MODE, &mode);
  let budget = Budget::new(300_000);
  let flow: FlowResults<'_, 'tcx> =
    with_hooks(budget.clone(), || compute_flow(tcx, body_id, facts));
  st.add("analysis steps", budget.used.get());
  st.add("functions analysed", 1);

  let loops = Loops::build(body);
  // live locals after each location
  let live = {
    let mut cur = MaybeLiveLocals.iterate_to_fixpoint(tcx, body, None).into_results_cursor(body);
    let mut m: HashMap<Location, Vec<bool>> = HashMap::new();
    for loc in body.all_locations() {
      // backward analysis: state "before" the statement effect in flow order
      // of a backward analysis is the state after it in program order
      cur.seek_before_primary_effect(loc);
      let s = cur.get();
      m.insert(loc, (0 .. body.local_decls.len()).map(|i| s.contains(Local::from_usize(i))).collect());
    }
    m
  };

  let mut all_places = vec![];
  for l in body.local_decls.indices() {
    let n = all_places.len();
    sub_places(tcx, body, Place::from_local(l, tcx), 3, def, &mut all_places);
    all_places.truncate(n + 12);
  }

  for _ in 0 .. if pr.pin.is_some() { 1 } else { pr.execs } {
    let exec_seed = number("exec").unwrap_or_else(|| rng.next());
    let fault_seed = rng.next();
    // 1: plan
    let no_queries: Vec<Query<'tcx>> = vec![];
    let run = |queries: &[Query<'tcx>], fault: Option<Fault>, verbose: bool| {
      let mut m = Interp::new(tcx, def.to_def_id(), queries, &loops);
      m.fault = fault;
      m.opaque_calls = !recurse;
      m.verbose = verbose;
      let mut r = Rng::new(exec_seed);
      let mut args = vec![];
      for i in 1 ..= body.arg_count {
        let ty = tcx.erase_regions(body.local_decls[Local::from_usize(i)].ty);
        match m.gen_val(ty, &mut r, 0) {
          Ok(v) => args.push(v),
          Err(e) => return (Record::default(), Err(e)),
        }
      }
      if verbose {
        for (i, a) in args.iter().enumerate() {
          println!("    arg _{} = {}", i + 1, m.digest(a, 0, true).map(|d| d.1).unwrap_or("?".into()));
        }
      }
      let res = m.run_top(args);
      (std::mem::take(&mut m.rec), res.map(|_| ()))
    };
    let (plan, res) = run(&no_queries, None, false);
    st.add("executions", 1);
    match res {
      Ok(()) => st.add("executions that returned", 1),
      Err(Stop::Panic) => st.add("executions that panicked", 1),
      Err(Stop::Limit) => st.add("executions cut at the step limit", 1),
      Err(Stop::Unsupported(s)) => {
        st.add(&format!("executions cut: unsupported {s}"), 1);
      }
      Err(Stop::Invalid(s)) => {
        st.add(&format!("executions cut: invalid {s}"), 1);
      }
    }
    if plan.events.is_empty() {
      continue;
    }
    // 2: queries
    let mut queries = vec![];
    if let (Some(place), false) = (pinned("place"), forward) {
      let loc = pinned("location").and_then(|l| l.as_str());
      let l = plan.visited.iter().find(|l| Some(&*format!("{l:?}")) == loc);
      let p = all_places.iter().find(|p| Some(&*format!("{p:?}")) == place.as_str());
      let (Some(loc), Some(place)) = (l, p) else { return None };
      queries.push(Query { place: *place, loc: *loc });
    } else if !forward {
      let visited: Vec<Location> =
        plan.visited.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
      for _ in 0 .. 40 {
        let place = *rng.pick(&all_places);
        let mut loc = *rng.pick(&visited);
        if rng.chance(1, 3) {
          loc = visited[visited.len() - 1 - rng.below(visited.len().min(4))];
        }
        if std::env::var("DIRECT").is_ok() && !place.is_direct(body, tcx) {
          continue;
        }
        let lty = body.local_decls[place.local].ty;
        if has_ref(lty) && !live[&loc][place.local.as_usize()] {
          continue;
        }
        queries.push(Query { place, loc });
      }
    }
    let (base, _) = run(&queries, None, false);
    st.add("simulated instructions", base.steps as u64);
    // 3: faults
    let mut deps_cache: HashMap<(bool, Place<'tcx>, LocationOrArg), LocationOrArgSet> = HashMap::new();
    let mut ask = |fwd: bool, place: Place<'tcx>, at: LocationOrArg| -> LocationOrArgSet {
      deps_cache
        .entry((fwd, place, at))
        .or_insert_with(|| {
          compute_dependencies(
            &flow,
            vec![vec![(place, at)]],
            if fwd { Direction::Forward } else { Direction::Backward },
          )
          .remove(0)
        })
        .clone()
    };
    let mut fr = Rng::new(fault_seed);
    let candidates: Vec<usize> = (0 .. base.events.len())
      .filter(|i| {
        let e = &base.events[*i];
        e.leaves > 0
          && (!forward
            || (e.depth == 0
              && matches!(e.kind, EventKind::Arg(_) | EventKind::Assign | EventKind::CallRet)))
          && (!recurse || true)
      })
      .collect();
    if candidates.is_empty() {
      continue;
    }
    for _ in 0 .. if pr.pin.is_some() { 1 } else { pr.faults } {
      let mut fault = Fault { event: *fr.pick(&candidates), salt: fr.next() };
      if pr.pin.is_some() {
        fault = Fault { event: pinned("event")?.as_u64()? as usize, salt: number("salt")? };
        if !candidates.contains(&fault.event) {
          return None;
        }
      }
      let (rec, _) = run(&queries, Some(fault.clone()), false);
      st.add("simulated instructions", rec.steps as u64);
      let Some(done) = &rec.fault else { continue };
      let ev = &base.events[fault.event];
      st.add(&format!("fault {}", kind_name(ev.kind, ev.depth)), 1);
      let source = match ev.kind {
        EventKind::Arg(i) => LocationOrArg::Arg(Local::from_u32(i)),
        _ => LocationOrArg::Location(ev.loc),
      };
      let mut effects = 0;
      if !forward {
        for (k, (d, shown)) in &base.observed {
          st.add("observations compared", 1);
          if let Some((d2, shown2)) = rec.observed.get(k)
            && d != d2
          {
            effects += 1;
            let q = &queries[k.0];
            let deps = ask(false, q.place, LocationOrArg::Location(q.loc));
            seen.cases.insert(hash_of((seen.program, exec_seed, fault.event, format!("{:?}{:?}", q.place, q.loc))));
            if seen.sample.is_none() && ev.depth == 0 && deps.iter().count() > 3 {
              seen.sample = Some(json!({"execution seed": exec_seed.to_string(), "fault": done.what, "event": fault.event,
                "observed": format!("{} after {:?} changes from {} to {}", name_of(tcx, body, q.place), q.loc, short(shown), short(shown2)),
                "slice": deps.iter().map(|l| loa(*l)).collect::<Vec<_>>().join(", ")}));
            }
            if !deps.contains(source) {
              let pin = json!({"mode": mode_n, "exec": exec_seed.to_string(), "event": fault.event, "salt": fault.salt.to_string(),
                               "place": format!("{:?}", q.place), "location": format!("{:?}", q.loc)});
              if pr.verbose {
                explain(tcx, body, &flow, q.place, q.loc, &deps);
                println!("  without the fault:");
                let _ = run(&queries, None, true);
                println!("  with it:");
                let _ = run(&queries, Some(fault.clone()), true);
              }
              return Some(Violation {
                what: format!(
                  "{} changes {} after {:?} from {} to {}, but {} is not in its backward slice {{{}}} (mode {:?})",
                  done.what,
                  name_of(tcx, body, q.place),
                  q.loc,
                  short(shown),
                  short(shown2),
                  loa(source),
                  deps.iter().map(|l| loa(*l)).collect::<Vec<_>>().join(", "),
                  mode
                ),
                key: "missing dependency".into(),
                pin,
              });
            }
          }
        }
      } else {
        let targets = forward_targets(tcx, body, ev.kind, source, &done.path);
        for (k, (d, shown)) in &base.written {
          st.add("observations compared", 1);
          if LocationOrArg::Location(k.0) == source {
            continue;
          }
          if let Some((d2, shown2)) = rec.written.get(k)
            && d != d2
          {
            effects += 1;
            seen.cases.insert(hash_of((seen.program, exec_seed, fault.event, format!("{:?}", k.0))));
            for t in &targets {
              let deps = ask(true, *t, source);
              if pinned("place").and_then(|p| p.as_str()).is_some_and(|p| p != format!("{t:?}"))
                || pinned("affected").and_then(|p| p.as_str()).is_some_and(|p| p != format!("{:?}", k.0))
              {
                continue;
              }
              if seen.sample.is_none() && deps.iter().count() > 3 {
                seen.sample = Some(json!({"execution seed": exec_seed.to_string(), "fault": done.what, "event": fault.event,
                  "observed": format!("what {:?} writes or decides changes from {} to {}", k.0, short(shown), short(shown2)),
                  "forward slice": format!("of {} at {}: {}", name_of(tcx, body, *t), loa(source), deps.iter().map(|l| loa(*l)).collect::<Vec<_>>().join(", "))}));
              }
              if !deps.contains(k.0) {
                let pin = json!({"mode": mode_n, "exec": exec_seed.to_string(), "event": fault.event, "salt": fault.salt.to_string(),
                               "place": format!("{t:?}"), "location": loa(source), "affected": format!("{:?}", k.0)});
                if pr.verbose {
                  println!("{}", body.to_string(tcx).unwrap());
                  println!("  without the fault:");
                  let _ = run(&queries, None, true);
                  println!("  with it:");
                  let _ = run(&queries, Some(fault.clone()), true);
                }
                return Some(Violation {
                  what: format!(
                    "{} changes what {:?} writes or decides from {} to {}, but {:?} is not in the forward slice of {} at {}: {{{}}} (mode {:?})",
                    done.what,
                    k.0,
                    short(shown),
                    short(shown2),
                    k.0,
                    name_of(tcx, body, *t),
                    loa(source),
                    deps.iter().map(|l| loa(*l)).collect::<Vec<_>>().join(", "),
                    mode
                  ),
                  key: "missing forward dependency".into(),
                  pin,
                });
              }
            }
          }
        }
      }
      st.add("faults injected", 1);
      if effects > 0 {
        st.add("faults with an observable effect", 1);
        st.add("observed influences checked", effects);
      }
    }
  }
  None
}

pub fn short(s: &str) -> String {
  s.chars().take(80).collect()
}

pub fn kind_name(k: EventKind, depth: u32) -> String {
  let n = match k {
    EventKind::Arg(_) => "corrupted argument",
    EventKind::Assign => "corrupted assigned value",
    EventKind::Switch => "flipped branch",
    EventKind::CallRet => "corrupted call result",
    EventKind::CallMut => "corrupted memory mutably reachable by a call",
  };
  if depth > 0 { format!("{n} inside a callee") } else { n.to_string() }
}

pub fn name_of<'tcx>(tcx: TyCtxt<'tcx>, body: &Body<'tcx>, p: Place<'tcx>) -> String {
  let n = catch_unwind(AssertUnwindSafe(|| PlaceExt::to_string(&p, tcx, body))).ok().flatten();
  match n {
    Some(n) => format!("{p:?} ({n})"),
    None => format!("{p:?}"),
  }
}

pub fn forward_targets<'tcx>(
  tcx: TyCtxt<'tcx>,
  body: &Body<'tcx>,
  kind: EventKind,
  source: LocationOrArg,
  path: &[Elem],
) -> Vec<Place<'tcx>> {
  let place = match (kind, source) {
    (EventKind::Arg(i), _) => return vec![Place::from_local(Local::from_u32(i), tcx)],
    (_, LocationOrArg::Location(l)) => {
      let s = body.stmt_at(l);
      if let Some(Statement { kind: StatementKind::Assign(box (p, _)), .. }) = s.left() {
        *p
      } else if let Some(Terminator { kind: TerminatorKind::Call { destination, .. }, .. }) =
        s.right()
      {
        *destination
      } else {
        return vec![];
      }
    }
    _ => return vec![],
  };
  let mut out = vec![place];
  // the altered part of it
  let base = match source {
    LocationOrArg::Location(_) => place,
    _ => return out,
  };
  let mut cur = base;
  // the path recorded is absolute within the allocation: take its tail
  let depth = base
    .projection
    .iter()
    .rev()
    .take_while(|e| !matches!(e, ProjectionElem::Deref))
    .filter(|e| matches!(e, ProjectionElem::Field(..) | ProjectionElem::Index(..)))
    .count();
  if base.is_indirect() {
    return out;
  }
  for e in path.iter().skip(depth) {
    let Elem::Field(i) = e else { break };
    let ty = cur.ty(body.local_decls(), tcx).ty;
    let t = match ty.kind() {
      TyKind::Tuple(ts) => ts[*i as usize],
      TyKind::Adt(adt, args) if adt.is_struct() && !ty.is_box() => {
        adt.non_enum_variant().fields[rustc_abi::FieldIdx::from_usize(*i as usize)].ty(tcx, args)
      }
      _ => break,
    };
    cur = cur.project_deeper(&[ProjectionElem::Field((*i as usize).into(), t)], tcx);
    out.push(cur);
  }
  out
}

fn explain<'tcx>(
  tcx: TyCtxt<'tcx>,
  body: &Body<'tcx>,
  flow: &FlowResults<'_, 'tcx>,
  place: Place<'tcx>,
  loc: Location,
  deps: &LocationOrArgSet,
) {
  println!("{}", body.to_string(tcx).unwrap());
  println!("query {place:?} after {loc:?}: {:?}", deps.iter().map(|l| loa(*l)).collect::<Vec<_>>());
  println!("state:");
  let state = flow.state_at(loc);
  let mut rows: Vec<String> = state
    .rows()
    .map(|(p, s)| format!("  {p:?}: {:?}", s.iter().map(|l| loa(*l)).collect::<Vec<_>>()))
    .collect();
  rows.sort();
  for r in rows {
    println!("{r}");
  }
}

thread_local! {
  pub static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId, mode: usize) {
  let mode = mode_of(mode);
  fluid_set!(EVAL_MODE, &mode);
  let facts = get_body_with_borrowck_facts(tcx, def);
  let flow = compute_flow(tcx, tcx.hir_body_owned_by(def).id(), facts);
  for (bb, data) in facts.body.basic_blocks.iter_enumerated() {
    for i in 0 ..= data.statements.len() {
      let loc = Location { block: bb, statement_index: i };
      if i < data.statements.len() {
        println!("{loc:?} {:?}", data.statements[i]);
      } else {
        println!("{loc:?} {:?}", data.terminator().kind);
      }
      if i == data.statements.len() {
        let mut rows: Vec<String> = flow.state_at(loc)
          .rows()
          .map(|(p, s)| format!("  {p:?}: {:?}", s.iter().map(|l| loa(*l)).collect::<Vec<_>>()))
          .collect();
        rows.sort();
        println!("{}", rows.join("\n"));
      }
    }
  }
}
