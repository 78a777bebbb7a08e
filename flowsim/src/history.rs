//! C14, C15, C16: histories of analyses and questions, aborted or concurrent,
//! against what a fresh process answers.
//!
//! A plan is a list of sessions (source, operations), run one after another (C14, C15)
//! or at the same time under a scheduler (C16). Everything that touches the compiler or
//! the analyser runs in forked children, so that no process-global state is shared
//! between a history and the reference answers.

use std::{
  cell::{Cell, RefCell},
  collections::{BTreeMap, BTreeSet},
  panic::{AssertUnwindSafe, catch_unwind},
  rc::Rc,
  sync::{Arc, Condvar, Mutex},
  time::Duration,
};

use flowistry::{
  extensions::{EVAL_MODE, REACHED_LIBRARY},
  infoflow::{Direction, FlowResults, compute_dependencies, compute_flow},
  mir::{placeinfo::PlaceInfo, sim},
};
use rustc_hir::def_id::LocalDefId;
use rustc_middle::{
  mir::*,
  ty::TyCtxt,
};
use rustc_utils::{
  BodyExt, PlaceExt,
  mir::{
    borrowck_facts::get_body_with_borrowck_facts, location_or_arg::LocationOrArg,
  },
};
use serde_json::{Value, json};

use crate::{
  flow::{OutOfBudget, Stats, describe_panic, loa, mode_of, sub_places, with_hooks},
  generate::gen_crate,
  rng::Rng,
  session,
};

/// No mode is set.
const NO_MODE: usize = 8;

// ---------------------------------------------------------------- processes

/// Runs `f` in a forked child and returns what it wrote.
pub fn in_child(timeout: i32, f: impl FnOnce() -> String) -> Option<String> {
  unsafe {
    let mut fds = [0; 2];
    assert!(libc::pipe(fds.as_mut_ptr()) == 0);
    let pid = libc::fork();
    assert!(pid >= 0);
    if pid == 0 {
      libc::close(fds[0]);
      std::panic::set_hook(Box::new(|_| {}));
      let s = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "null".into());
      let mut b = s.as_bytes();
      while !b.is_empty() {
        let n = libc::write(fds[1], b.as_ptr().cast(), b.len());
        if n <= 0 {
          break;
        }
        b = &b[n as usize ..];
      }
      libc::_exit(0);
    }
    libc::close(fds[1]);
    let mut out = vec![];
    let mut buf = vec![0u8; 1 << 16];
    let mut ok = true;
    loop {
      let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
      let r = libc::poll(&mut p, 1, timeout * 1000);
      if r < 0 {
        continue;
      }
      if r == 0 {
        ok = false;
        libc::kill(pid, libc::SIGKILL);
        break;
      }
      let n = libc::read(fds[0], buf.as_mut_ptr().cast(), buf.len());
      if n <= 0 {
        break;
      }
      out.extend_from_slice(&buf[.. n as usize]);
    }
    libc::close(fds[0]);
    let mut st = 0;
    libc::waitpid(pid, &mut st, 0);
    ok.then(|| String::from_utf8_lossy(&out).into_owned())
  }
}

// ---------------------------------------------------------------- scheduler

struct SchedState {
  holder: usize,
  alive: Vec<bool>,
  rng: Rng,
  /// switches in 1 of n steps
  every: usize,
  slow: Option<usize>,
  /// runs alone up to this many points, then not before the others are done
  park: Option<(usize, usize)>,
  replay: Option<Vec<usize>>,
  pos: usize,
  trace: Vec<usize>,
  switches: u64,
  blocked: u64,
}

/// At most one session makes progress at any time; who does is decided at each step.
pub struct Sched {
  s: Mutex<SchedState>,
  cv: Condvar,
}

impl Sched {
  fn choose(s: &mut SchedState) {
    let alive: Vec<usize> = (0 .. s.alive.len()).filter(|i| s.alive[*i]).collect();
    if alive.is_empty() {
      return;
    }
    let next = match &s.replay {
      Some(r) => {
        let n = r.get(s.pos).copied().unwrap_or(s.holder);
        if s.alive[n] { n } else { alive[0] }
      }
      None if s.park.is_some_and(|(w, n)| n > 0 && s.alive[w]) => {
        let (w, n) = s.park.unwrap();
        s.park = Some((w, n - 1));
        w
      }
      None if s.park.is_some_and(|(w, _)| s.holder == w && alive.len() > 1) => {
        let w = s.park.unwrap().0;
        let others: Vec<usize> = alive.iter().copied().filter(|i| *i != w).collect();
        *s.rng.pick(&others)
      }
      None => {
        let parked = s.park.map(|p| p.0);
        if s.alive[s.holder] && !s.rng.chance(1, s.every as u32) {
          s.holder
        } else {
          let c: Vec<usize> = alive
            .iter()
            .copied()
            .filter(|i| (Some(*i) != s.slow && Some(*i) != parked) || alive.len() == 1)
            .collect();
          let all = (parked.is_none() && s.rng.chance(1, 24)) || c.is_empty();
          *s.rng.pick(if all { &alive } else { &c })
        }
      }
    };
    s.pos += 1;
    s.trace.push(next);
    if next != s.holder {
      s.switches += 1;
    }
    s.holder = next;
  }

  fn wait(&self, id: usize) {
    let mut s = self.s.lock().unwrap_or_else(|e| e.into_inner());
    while s.holder != id {
      let (t, r) = self
        .cv
        .wait_timeout(s, Duration::from_secs(10))
        .unwrap_or_else(|e| e.into_inner());
      s = t;
      if r.timed_out() && s.holder != id {
        // the holder waits for something this session has
        s.blocked += 1;
        s.holder = id;
      }
    }
  }

  fn point(&self, id: usize) {
    {
      let mut s = self.s.lock().unwrap_or_else(|e| e.into_inner());
      if s.holder != id {
        // after a forced switch
        drop(s);
        self.wait(id);
        return;
      }
      Self::choose(&mut s);
      if s.holder == id {
        return;
      }
      self.cv.notify_all();
    }
    self.wait(id);
  }

  fn finish(&self, id: usize) {
    let mut s = self.s.lock().unwrap_or_else(|e| e.into_inner());
    s.alive[id] = false;
    if s.holder == id {
      Self::choose(&mut s);
    }
    self.cv.notify_all();
  }
}

// ---------------------------------------------------------------- operations

pub struct Aborted;

struct Stepper {
  n: Cell<u64>,
  abort: Option<u64>,
  sched: Option<(Arc<Sched>, usize)>,
}

impl sim::Hooks for Stepper {
  fn pick(&self, _: usize) -> usize {
    0
  }
  fn step(&self) {
    self.n.set(self.n.get() + 1);
    if Some(self.n.get()) == self.abort {
      std::panic::panic_any(Aborted);
    }
    if self.n.get() > 500_000 {
      std::panic::panic_any(OutOfBudget);
    }
    if let Some((s, id)) = &self.sched {
      s.point(*id);
    }
  }
}

fn with_modes<T>(modes: &[usize], f: impl FnOnce() -> T) -> T {
  match modes {
    [] => f(),
    [m, rest @ ..] if *m == NO_MODE => with_modes(rest, f),
    [m, rest @ ..] => {
      let m = mode_of(*m);
      EVAL_MODE.set(&m, || with_modes(rest, f))
    }
  }
}

fn places_of<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId, body: &Body<'tcx>) -> Vec<Place<'tcx>> {
  let mut v = vec![];
  for l in body.local_decls.indices() {
    let n = v.len();
    sub_places(tcx, body, Place::from_local(l, tcx), 3, def, &mut v);
    v.truncate(n + 10);
  }
  v
}

fn text_of_flow(body: &Body<'_>, flow: &FlowResults<'_, '_>) -> String {
  let mut out = String::new();
  for (bb, _) in traversal::reachable(body) {
    for l in body.locations_in_block(bb) {
      for (p, d) in crate::fixpoint::rows(flow.state_at(l)) {
        out.push_str(&format!("{l:?} {p} {}\n", d.join(",")));
      }
    }
  }
  let mut v: Vec<&str> = out.lines().collect();
  v.sort();
  v.join("\n")
}

struct Asked<'tcx> {
  place: Place<'tcx>,
  at: LocationOrArg,
  dir: Direction,
}

fn question<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  body: &Body<'tcx>,
  q: &Value,
) -> Asked<'tcx> {
  let n = |i: usize| q[i].as_u64().unwrap() as usize;
  let places = places_of(tcx, def, body);
  let mut place = places[n(0) % places.len()];
  let deep: Vec<&Place<'tcx>> = places
    .iter()
    .filter(|p| p.projection.len() >= 2 && p.projection.contains(&ProjectionElem::Deref))
    .collect();
  if n(0) % 4 == 0 && !deep.is_empty() {
    place = *deep[n(0) / 4 % deep.len()];
  }
  if n(3) == 1 {
    place = place.normalize(tcx, def.to_def_id());
  }
  let reach: BTreeSet<BasicBlock> = traversal::reachable(body).map(|(b, _)| b).collect();
  let locs: Vec<Location> =
    body.all_locations().filter(|l| reach.contains(&l.block)).collect();
  let at = if body.arg_count > 0 && n(1) % 9 == 0 {
    LocationOrArg::Arg(Local::from_usize(1 + n(1) / 9 % body.arg_count))
  } else {
    LocationOrArg::Location(locs[n(1) % locs.len()])
  };
  let dir = [Direction::Backward, Direction::Forward, Direction::Both][n(2) % 3];
  Asked { place, at, dir }
}

fn set_text(s: &rustc_utils::mir::location_or_arg::index::LocationOrArgSet) -> String {
  let mut v: Vec<String> = s.iter().map(|l| loa(*l)).collect();
  v.sort();
  v.join(",")
}

fn set_of_places<'a, 'tcx: 'a>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  i: impl IntoIterator<Item = &'a Place<'tcx>>,
) -> String {
  let v: BTreeSet<String> =
    i.into_iter().map(|p| format!("{:?}", p.normalize(tcx, def.to_def_id()))).collect();
  v.into_iter().collect::<Vec<_>>().join(" ")
}

fn ask<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  flow: &FlowResults<'_, 'tcx>,
  body: &Body<'tcx>,
  q: &Value,
) -> String {
  let a = question(tcx, def, body, q);
  let r = catch_unwind(AssertUnwindSafe(|| {
    set_text(&compute_dependencies(flow, vec![vec![(a.place, a.at)]], a.dir).remove(0))
  }));
  r.unwrap_or_else(|p| describe_panic(&*p))
}

fn place_answer<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  pi: &PlaceInfo<'_, 'tcx>,
  body: &Body<'tcx>,
  q: &Value,
) -> String {
  let a = question(tcx, def, body, q);
  let r = catch_unwind(AssertUnwindSafe(|| match q[2].as_u64().unwrap() % 4 {
    0 => set_of_places(tcx, def, pi.aliases(a.place)),
    1 => set_of_places(tcx, def, pi.conflicts(a.place)),
    2 => set_of_places(tcx, def, pi.reachable_values(a.place, Mutability::Not)),
    _ => set_of_places(tcx, def, pi.reachable_values(a.place, Mutability::Mut)),
  }));
  r.unwrap_or_else(|p| describe_panic(&*p))
}

fn analyse<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  hooks: Rc<Stepper>,
) -> Result<(FlowResults<'tcx, 'tcx>, String), String> {
  let facts = get_body_with_borrowck_facts(tcx, def);
  let body_id = tcx.hir_body_owned_by(def).id();
  let reached = RefCell::new(false);
  let r = catch_unwind(AssertUnwindSafe(|| {
    REACHED_LIBRARY.set(&reached, || with_hooks(hooks, || compute_flow(tcx, body_id, facts)))
  }));
  match r {
    Ok(flow) => {
      let t = format!("{}\nreached library: {}", text_of_flow(&facts.body, &flow), reached.borrow());
      Ok((flow, t))
    }
    Err(p) if p.downcast_ref::<Aborted>().is_some() => Err("aborted".into()),
    Err(p) => Err(describe_panic(&*p)),
  }
}

fn usizes(v: &Value) -> Vec<usize> {
  v.as_array().map_or(vec![], |a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
}

/// Runs the operations of a session; the answer of each is null or a list of strings.
fn exec(tcx: TyCtxt<'_>, ops: &[Value], sched: Option<(Arc<Sched>, usize)>) -> Vec<Value> {
  let fns: BTreeMap<String, LocalDefId> = session::functions(tcx).into_iter().collect();
  let mut slots = BTreeMap::new();
  let mut infos = BTreeMap::new();
  let mut out = vec![];
  let mut steps = 0;
  for op in ops {
    if let Some((s, id)) = &sched {
      s.point(*id);
    }
    let slot = op["slot"].as_u64().unwrap_or(0);
    let mode = op["mode"].as_u64().unwrap_or(0) as usize;
    let mut modes = usizes(&op["outer"]);
    modes.push(mode);
    let def = op["f"].as_str().and_then(|f| fns.get(f));
    let ans = match op["op"].as_str().unwrap() {
      "analyse" => match def {
        None => Value::Null,
        Some(d) => {
          let h = Rc::new(Stepper {
            n: Cell::new(0),
            abort: op["abort"].as_u64(),
            sched: sched.clone(),
          });
          let r = with_modes(&modes, || analyse(tcx, *d, h.clone()));
          steps += h.n.get();
          match r {
            Ok((flow, t)) => {
              slots.insert(slot, (*d, mode, flow));
              json!([t])
            }
            Err(t) => {
              slots.remove(&slot);
              json!([t])
            }
          }
        }
      },
      "ask" => match slots.get(&slot) {
        None => Value::Null,
        Some((d, m, flow)) => {
          *modes.last_mut().unwrap() = *m;
          let body = &get_body_with_borrowck_facts(tcx, *d).body;
          let mut v = vec![];
          for q in op["q"].as_array().unwrap() {
            if let Some((s, id)) = &sched {
              s.point(*id);
            }
            v.push(with_modes(&modes, || ask(tcx, *d, flow, body, q)));
          }
          if op["batch"] == true {
            // the same questions at once
            let qs: Vec<_> = op["q"]
              .as_array()
              .unwrap()
              .iter()
              .map(|q| question(tcx, *d, body, q))
              .collect();
            let targets = qs.iter().map(|a| vec![(a.place, a.at)]).collect();
            let dir = qs[0].dir;
            let r = catch_unwind(AssertUnwindSafe(|| {
              with_modes(&modes, || compute_dependencies(flow, targets, dir))
            }));
            match r {
              Ok(r) => v.extend(r.iter().map(set_text)),
              Err(p) => v.push(describe_panic(&*p)),
            }
          }
          json!(v)
        }
      },
      "drop" => {
        slots.remove(&slot);
        infos.remove(&slot);
        Value::Null
      }
      "places" => match def {
        None => Value::Null,
        Some(d) => {
          let facts = get_body_with_borrowck_facts(tcx, *d);
          with_modes(&modes, || {
            let pi = infos
              .entry(slot)
              .and_modify(|e: &mut (LocalDefId, usize, PlaceInfo<'_, '_>)| {
                if e.0 != *d || e.1 != mode {
                  *e = (*d, mode, PlaceInfo::build(tcx, d.to_def_id(), facts));
                }
              })
              .or_insert_with(|| (*d, mode, PlaceInfo::build(tcx, d.to_def_id(), facts)));
            let v: Vec<String> = op["q"]
              .as_array()
              .unwrap()
              .iter()
              .map(|q| place_answer(tcx, *d, &pi.2, &facts.body, q))
              .collect();
            json!(v)
          })
        }
      },
      o => panic!("{o}"),
    };
    out.push(ans);
  }
  out.push(json!(steps));
  out
}

/// Runs a plan in this process.
pub fn run_here(plan: &Value) -> Value {
  let sessions = plan["sessions"].as_array().unwrap();
  let results: Vec<Arc<Mutex<Value>>> =
    sessions.iter().map(|_| Arc::new(Mutex::new(Value::Null))).collect();
  let one = |i: usize, sched: Option<(Arc<Sched>, usize)>| {
    let ops: Vec<Value> = sessions[i]["ops"].as_array().unwrap().clone();
    let src = sessions[i]["src"].as_str().unwrap().to_string();
    let res = results[i].clone();
    move || {
      session::session(&src, &[], |tcx| {
        let r = match catch_unwind(AssertUnwindSafe(|| exec(tcx, &ops, sched))) {
          Ok(v) => json!(v),
          Err(p) => json!(describe_panic(&*p)),
        };
        *res.lock().unwrap() = r;
      });
    }
  };
  let mut meta = json!({});
  if let Some(c) = plan.get("schedule") {
    let st = SchedState {
      holder: 0,
      alive: vec![true; sessions.len()],
      rng: Rng::new(c["seed"].as_u64().unwrap_or(0)),
      every: c["every"].as_u64().unwrap_or(1) as usize,
      slow: c["slow"].as_u64().map(|n| n as usize),
      park: c["park"].as_array().map(|a| {
        (a[0].as_u64().unwrap() as usize, a[1].as_u64().unwrap() as usize)
      }),
      replay: c.get("trace").map(usizes),
      pos: 0,
      trace: vec![],
      switches: 0,
      blocked: 0,
    };
    let sched = Arc::new(Sched { s: Mutex::new(st), cv: Condvar::new() });
    std::thread::scope(|sc| {
      for i in 0 .. sessions.len() {
        let s = sched.clone();
        let f = one(i, Some((s.clone(), i)));
        sc.spawn(move || {
          s.wait(i);
          f();
          s.finish(i);
        });
      }
    });
    let s = sched.s.lock().unwrap();
    meta = json!({"trace": s.trace, "switches": s.switches, "blocked": s.blocked});
  } else {
    // one after another, in the same thread as far as the caller is concerned
    for i in 0 .. sessions.len() {
      one(i, None)();
    }
  }
  let rs: Vec<Value> = results.iter().map(|r| r.lock().unwrap().clone()).collect();
  json!({"answers": rs, "meta": meta})
}

/// The answers of a fresh process to everything asked about one function under one mode.
fn reference(src: &str, f: &str, mode: usize, qs: &[Value], ps: &[Value]) -> Value {
  let out = Mutex::new(Value::Null);
  session::session(src, &[], |tcx| {
    let Some((_, d)) = session::functions(tcx).into_iter().find(|(n, _)| n == f) else {
      return;
    };
    let facts = get_body_with_borrowck_facts(tcx, d);
    let go = || {
      let fresh = || {
        analyse(tcx, d, Rc::new(Stepper { n: Cell::new(0), abort: None, sched: None }))
      };
      let (text, answers) = match fresh() {
        Ok((flow, t)) => {
          let mut v = vec![];
          for q in qs {
            // (every question to a result of its own)
            let own = fresh().ok();
            v.push(ask(tcx, d, own.as_ref().map_or(&flow, |o| &o.0), &facts.body, q));
          }
          (t, v)
        }
        Err(t) => (t, vec![]),
      };
      let places: Vec<String> = ps
        .iter()
        .map(|q| {
          let pi = PlaceInfo::build(tcx, d.to_def_id(), facts);
          place_answer(tcx, d, &pi, &facts.body, q)
        })
        .collect();
      json!({"text": text, "answers": answers, "places": places})
    };
    *out.lock().unwrap() = with_modes(&[mode], go);
  });
  out.into_inner().unwrap()
}

// ---------------------------------------------------------------- checking

pub struct Failure {
  pub key: String,
  pub what: String,
}

fn first_difference(a: &str, b: &str) -> String {
  let (x, y): (BTreeSet<&str>, BTreeSet<&str>) = (a.lines().collect(), b.lines().collect());
  let extra: Vec<_> = x.difference(&y).take(2).collect();
  let missing: Vec<_> = y.difference(&x).take(2).collect();
  format!("got {extra:?} where a fresh process gives {missing:?}")
}

/// Runs a plan and compares it. `Err`: no verdict (e.g. the sources do not compile).
pub fn run_plan(plan: &Value, st: &mut Stats) -> Result<Option<Failure>, String> {
  let out = in_child(120, || run_here(plan).to_string()).ok_or("timeout")?;
  let res: Value = serde_json::from_str(&out).map_err(|e| format!("no result: {e}"))?;
  if let Some(t) = res["meta"]["switches"].as_u64() {
    st.add("switches between sessions", t);
    st.add("scheduling decisions", res["meta"]["trace"].as_array().map_or(0, |a| a.len() as u64));
    st.0.insert("#schedule".into(), crate::flow::hash_of(res["meta"]["trace"].to_string()));
    st.add("schedules where a session was blocked", res["meta"]["blocked"].as_u64().unwrap_or(0));
  }
  st.add("histories", 1);
  for (si, s) in plan["sessions"].as_array().unwrap().iter().enumerate() {
    let answers = &res["answers"][si];
    let Some(answers) = answers.as_array() else {
      if let Some(e) = answers.as_str() {
        return Ok(Some(Failure {
          key: "panic".into(),
          what: format!("session {si}: {e}"),
        }));
      }
      return Err("a session did not run".into());
    };
    st.add("sessions", 1);
    st.add("analysis steps", answers.last().and_then(|v| v.as_u64()).unwrap_or(0));
    // what has to be asked from the reference
    let ops = s["ops"].as_array().unwrap();
    let mut slots: BTreeMap<u64, (String, usize)> = BTreeMap::new();
    // (operation, index, answer, key, question index or None)
    let mut checks: Vec<(usize, String, (String, usize), char, usize)> = vec![];
    let mut qs: BTreeMap<(String, usize), (Vec<Value>, Vec<Value>)> = BTreeMap::new();
    for (oi, op) in ops.iter().enumerate() {
      let a = &answers[oi];
      let slot = op["slot"].as_u64().unwrap_or(0);
      let text = |i: usize| a[i].as_str().unwrap().to_string();
      match op["op"].as_str().unwrap() {
        "analyse" if !a.is_null() => {
          let k = (
            op["f"].as_str().unwrap().to_string(),
            op["mode"].as_u64().unwrap() as usize,
          );
          if text(0) == "aborted" {
            st.add("analyses aborted", 1);
            slots.remove(&slot);
            continue;
          }
          st.add("analyses compared", 1);
          slots.insert(slot, k.clone());
          qs.entry(k.clone()).or_default();
          checks.push((oi, text(0), k, 't', 0));
        }
        "ask" if !a.is_null() => {
          let k = slots[&slot].clone();
          let e = qs.get_mut(&k).unwrap();
          let list = op["q"].as_array().unwrap();
          for (i, q) in list.iter().enumerate() {
            st.add("answers compared", 1);
            e.0.push(q.clone());
            checks.push((oi, text(i), k.clone(), 'q', e.0.len() - 1));
          }
          if op["batch"] == true {
            if a.as_array().unwrap().len() == list.len() + 1 {
              // the batch panicked; so has one of the single questions to
              let msg = text(list.len());
              if !(0 .. list.len()).any(|i| text(i) == msg) {
                return Ok(Some(Failure { key: "batch".into(), what: format!("session {si}, operation {oi}: {msg}") }));
              }
              continue;
            }
            for (i, q) in list.iter().enumerate() {
              let mut q = q.clone();
              q[2] = list[0][2].clone();
              st.add("answers compared", 1);
              e.0.push(q);
              checks.push((oi, text(list.len() + i), k.clone(), 'q', e.0.len() - 1));
            }
          }
        }
        "places" if !a.is_null() => {
          let k = (
            op["f"].as_str().unwrap().to_string(),
            op["mode"].as_u64().unwrap() as usize,
          );
          let e = qs.entry(k.clone()).or_default();
          for (i, q) in op["q"].as_array().unwrap().iter().enumerate() {
            st.add("answers compared", 1);
            e.1.push(q.clone());
            checks.push((oi, text(i), k.clone(), 'p', e.1.len() - 1));
          }
        }
        _ => {}
      }
    }
    let src = s["src"].as_str().unwrap();
    let mut refs: BTreeMap<(String, usize), Value> = BTreeMap::new();
    for (k, (q, p)) in &qs {
      let r = in_child(120, || reference(src, &k.0, k.1, q, p).to_string()).ok_or("timeout")?;
      let r: Value = serde_json::from_str(&r).map_err(|e| format!("no reference: {e}"))?;
      if r.is_null() {
        return Err("no reference".into());
      }
      refs.insert(k.clone(), r);
    }
    for (oi, got, k, kind, i) in checks {
      let r = &refs[&k];
      let want = match kind {
        't' => &r["text"],
        'q' => &r["answers"][i],
        _ => &r["places"][i],
      };
      let Some(want) = want.as_str() else { continue };
      if got != want {
        let about = match kind {
          't' => format!("the result of analysing {} in mode {:?}", k.0, mode_of(k.1 & 7)),
          'q' => format!("the answer to {} about {} in mode {:?}", qs[&k].0[i], k.0, mode_of(k.1 & 7)),
          _ => format!("what is said about the place of {} of {} in mode {:?}", qs[&k].1[i], k.0, mode_of(k.1 & 7)),
        };
        let key = match kind { 't' => "result", 'q' => "answer", _ => "place" };
        return Ok(Some(Failure {
          key: key.into(),
          what: format!(
            "session {si}, operation {oi}: {about} is not the one of a fresh process: {}",
            first_difference(&got, want)
          ),
        }));
      }
    }
  }
  Ok(None)
}

// ---------------------------------------------------------------- plans

fn random_mode(rng: &mut Rng) -> usize {
  match rng.below(6) {
    0 | 1 => 0,
    2 => 4,
    3 => NO_MODE,
    _ => rng.below(8),
  }
}

fn questions(rng: &mut Rng, n: usize) -> Vec<Value> {
  let mut v = vec![];
  while v.len() < n {
    let q = [rng.below(60), rng.below(200), rng.below(12)];
    if rng.chance(1, 3) {
      // the same place as the compiler writes it and without its regions
      let e = rng.below(2);
      v.push(json!([q[0], q[1], q[2], e]));
      v.push(json!([q[0], q[1], if rng.chance(1, 2) { q[2] } else { rng.below(12) }, 1 - e]));
    } else {
      v.push(json!([q[0], q[1], q[2], 0]));
    }
  }
  v
}

/// Functions that call each other in a row, each letting only some of what it is given through.
fn gen_chain(rng: &mut Rng, src: &mut String) {
  let n = rng.range(3, 8);
  src.push_str("pub fn d9_0(x: &mut i32, v: i32, w: i32) -> i32 { *x = v; w }\n");
  for k in 1 .. n {
    let (p, q) = *rng.pick(&[("v", "w"), ("w", "v"), ("v", "1"), ("0", "w")]);
    let call = format!("d9_{}(x, {p}, {q})", k - 1);
    let body = match rng.below(6) {
      0 => format!("let y = {call}; y"),
      1 => format!("let mut y = 0; let z = d9_{}(&mut y, {p}, {q}); *x = y; z", k - 1),
      2 => format!("if v > 1 {{ {call} }} else {{ w }}"),
      3 => format!("let y = {call}; *x ^= w; y ^ v"),
      4 => format!("let y = {call}; let z = d9_{}(x, y, {q}); z", rng.below(k)),
      _ => format!("let mut y = v; let z = {call}; y ^= *x; *x = z; y"),
    };
    src.push_str(&format!("pub fn d9_{k}(x: &mut i32, v: i32, w: i32) -> i32 {{ {body} }}\n"));
  }
}

pub fn gen_plan(prop: &str, seed: u64) -> Value {
  let mut rng = Rng::new(seed);
  let nsess = match prop {
    "C16" => rng.range(2, 3),
    _ => if rng.chance(1, 3) { 2 } else { 1 },
  };
  let fns = rng.range(3, 6);
  let base = gen_crate(&mut rng, fns, false);
  let mut sessions = vec![];
  for si in 0 .. nsess {
    let mut src = if si == 0 || rng.chance(1, 3) { base.clone() } else { gen_crate(&mut rng, fns, false) };
    let chain = rng.chance(1, 2);
    if chain {
      gen_chain(&mut rng, &mut src);
    }
    let names: Vec<String> = src
      .lines()
      .filter_map(|l| l.strip_prefix("pub fn "))
      .filter_map(|l| l.split(['(', '<']).next())
      .filter(|n| n.starts_with(['t', 'h', 'd']))
      .map(|s| s.to_string())
      .collect();
    // few functions and modes, so that they meet
    let mut few: Vec<&String> = (0 .. 3).map(|_| rng.pick(&names)).collect();
    if rng.chance(1, 4) {
      few = names.iter().collect();
    }
    if chain && rng.chance(2, 3) {
      let links: Vec<&String> = names.iter().filter(|n| n.starts_with("d9_")).collect();
      few[0] = links[links.len() - 1];
      few[1] = *rng.pick(&links);
    }
    let modes: Vec<usize> = if prop == "C16" && rng.chance(1, 2) {
      vec![4]
    } else {
      (0 .. rng.range(1, 3)).map(|_| random_mode(&mut rng)).collect()
    };
    let nops = rng.range(4, 16);
    let mut ops: Vec<Value> = vec![];
    let mut filled: Vec<usize> = vec![];
    for _ in 0 .. nops {
      let slot = rng.below(3);
      let mode = *rng.pick(&modes);
      let outer: Vec<usize> = if mode != NO_MODE && rng.chance(1, 4) {
        (0 .. rng.range(1, 2)).map(|_| rng.below(8)).collect()
      } else {
        vec![]
      };
      let f = *rng.pick(&few);
      let k = rng.below(10);
      let op = match k {
        0 ..= 4 => {
          let abort = match prop {
            "C15" => rng.chance(1, 2),
            "C16" => rng.chance(1, 8),
            _ => false,
          };
          let mut op = json!({"op": "analyse", "f": f, "mode": mode, "outer": outer, "slot": slot});
          if !abort && !filled.contains(&slot) {
            filled.push(slot);
          } else if abort {
            filled.retain(|s| *s != slot);
          }
          if abort {
            // any step, early ones more often; long ones are reached in called functions
            let m = *rng.pick(&[3usize, 20, 60, 200]);
            op["abort"] = json!(1 + rng.below(m));
          }
          op
        }
        5 ..= 7 if !filled.is_empty() => {
          let n = rng.range(1, 6);
          let slot = *rng.pick(&filled);
          json!({"op": "ask", "slot": slot, "outer": if outer.is_empty() { vec![] } else { outer }, "q": questions(&mut rng, n), "batch": rng.chance(1, 3)})
        }
        8 => {
          let n = rng.range(2, 8);
          json!({"op": "places", "f": f, "mode": mode, "outer": outer, "slot": slot, "q": questions(&mut rng, n)})
        }
        _ => {
          filled.retain(|s| *s != slot);
          json!({"op": "drop", "slot": slot})
        }
      };
      ops.push(op);
    }
    // whatever happened, ask once more at the end
    for m in [4, 0] {
      if rng.chance(1, 2) {
        ops.push(json!({"op": "analyse", "f": rng.pick(&few), "mode": m, "outer": [], "slot": 7}));
        ops.push(json!({"op": "ask", "slot": 7, "outer": [], "q": questions(&mut rng, 4), "batch": false}));
      }
    }
    sessions.push(json!({"src": src, "ops": ops}));
  }
  let mut plan = json!({"property": prop, "sessions": sessions});
  if prop == "C16" {
    plan["schedule"] = json!({
      "seed": rng.next() >> 1,
      "every": *rng.pick(&[1usize, 2, 8, 40]),
      "slow": if rng.chance(1, 4) { json!(rng.below(nsess)) } else { Value::Null },
      "park": if rng.chance(1, 3) {
        let far = *rng.pick(&[10usize, 40, 150, 400]);
        json!([rng.below(nsess), 1 + rng.below(far)])
      } else {
        Value::Null
      },
    });
  }
  plan
}

/// Reduces a failing plan: sessions, operations, questions, schedule.
pub fn minimise(plan: &Value, key: &str, mut budget: usize) -> Value {
  let mut best = plan.clone();
  let fails = |p: &Value, budget: &mut usize| {
    if *budget == 0 {
      return false;
    }
    *budget -= 1;
    matches!(run_plan(p, &mut Stats::default()), Ok(Some(f)) if f.key == key)
  };
  if best.get("schedule").is_some() {
    // without concurrency?
    let mut p = best.clone();
    p.as_object_mut().unwrap().remove("schedule");
    if fails(&p, &mut budget) {
      best = p;
    }
  }
  loop {
    let before = best.to_string().len();
    for si in (0 .. best["sessions"].as_array().unwrap().len()).rev() {
      if best["sessions"].as_array().unwrap().len() > 1 {
        let mut p = best.clone();
        p["sessions"].as_array_mut().unwrap().remove(si);
        if fails(&p, &mut budget) {
          best = p;
          continue;
        }
      }
      for oi in (0 .. best["sessions"][si]["ops"].as_array().unwrap().len()).rev() {
        let mut p = best.clone();
        p["sessions"][si]["ops"].as_array_mut().unwrap().remove(oi);
        if fails(&p, &mut budget) {
          best = p;
          continue;
        }
        let op = best["sessions"][si]["ops"][oi].clone();
        if !usizes(&op["outer"]).is_empty() {
          let mut p = best.clone();
          p["sessions"][si]["ops"][oi]["outer"] = json!([]);
          if fails(&p, &mut budget) {
            best = p;
          }
        }
        for qi in (0 .. op["q"].as_array().map_or(0, |q| q.len())).rev() {
          if best["sessions"][si]["ops"][oi]["q"].as_array().unwrap().len() == 1 {
            break;
          }
          let mut p = best.clone();
          p["sessions"][si]["ops"][oi]["q"].as_array_mut().unwrap().remove(qi);
          if fails(&p, &mut budget) {
            best = p;
          }
        }
      }
    }
    if best.to_string().len() == before || budget == 0 {
      break;
    }
  }
  for si in 0 .. best["sessions"].as_array().unwrap().len() {
    let src = best["sessions"][si]["src"].as_str().unwrap().to_string();
    let share = budget / 2;
    let small = crate::minimise::minimise(
      &src,
      |s| {
        let mut p = best.clone();
        p["sessions"][si]["src"] = json!(s);
        matches!(session_compiles(s), true)
          && matches!(run_plan(&p, &mut Stats::default()), Ok(Some(f)) if f.key == key)
      },
      share.min(150),
    );
    best["sessions"][si]["src"] = json!(small);
  }
  best
}

fn session_compiles(src: &str) -> bool {
  in_child(60, || format!("{:?}", session::erroneous(src, &[]))).as_deref() == Some("Some([])")
}

/// Replaces the seeded schedule by an explicit one, if that still fails.
pub fn explicit_schedule(plan: &Value, key: &str, mut budget: usize) -> Value {
  if plan.get("schedule").is_none() {
    return plan.clone();
  }
  let Some(out) = in_child(120, || run_here(plan).to_string()) else { return plan.clone() };
  let Ok(res) = serde_json::from_str::<Value>(&out) else { return plan.clone() };
  let mut trace = usizes(&res["meta"]["trace"]);
  let with = |t: &[usize]| {
    let mut p = plan.clone();
    p["schedule"] = json!({"trace": t});
    p
  };
  let fails = |t: &[usize]| {
    matches!(run_plan(&with(t), &mut Stats::default()), Ok(Some(f)) if f.key == key)
  };
  if !fails(&trace) {
    return plan.clone();
  }
  // the shortest failing prefix, then fewer switches
  let (mut lo, mut hi) = (0, trace.len());
  while lo < hi && budget > 0 {
    budget -= 1;
    let mid = (lo + hi) / 2;
    if fails(&trace[.. mid]) { hi = mid } else { lo = mid + 1 }
  }
  if fails(&trace[.. hi]) {
    trace.truncate(hi);
  }
  let mut i = 1;
  while i < trace.len() && budget > 0 {
    if trace[i] != trace[i - 1] {
      let mut t = trace.clone();
      let end = (i .. t.len()).find(|j| t[*j] != t[i]).unwrap_or(t.len());
      for j in i .. end {
        t[j] = t[i - 1];
      }
      budget -= 1;
      if fails(&t) {
        trace = t;
      }
    }
    i += 1;
  }
  with(&trace)
}
