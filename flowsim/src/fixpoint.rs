//! C11: the solver under random processing orders.

use std::{cell::RefCell, collections::BTreeMap, panic::AssertUnwindSafe, rc::Rc};

use flowistry::{
  extensions::EVAL_MODE,
  infoflow::{FlowDomain, FlowResults, compute_flow},
  mir::{engine, placeinfo::PlaceInfo, sim},
};
use fluid_let::fluid_set;
use rustc_hir::def_id::LocalDefId;
use rustc_middle::{mir::*, ty::TyCtxt};
use rustc_mir_dataflow::{Analysis, JoinSemiLattice, fmt::DebugWithContext};
use rustc_utils::{BodyExt, mir::borrowck_facts::get_body_with_borrowck_facts};
use serde_json::{Value, json};

use crate::{
  flow::{OutOfBudget, Seen, Stats, Violation, describe_panic, hash_of, loa, mode_of, with_hooks},
  rng::Rng,
};

/// How the next pending instruction is chosen.
#[derive(Clone, Copy, Debug)]
pub enum Order {
  Fifo,
  Lifo,
  Random,
  /// stays with one end for a while
  Bursts,
  /// the picks recorded in a replay file, then the first pending one
  Explicit,
}

pub struct Picker {
  order: Order,
  rng: RefCell<Rng>,
  front: RefCell<bool>,
  pub picks: RefCell<u64>,
  /// identifies the schedule
  pub trace: RefCell<u64>,
  /// the picks themselves
  pub log: RefCell<Vec<usize>>,
  explicit: Vec<usize>,
  budget: u64,
}

impl Picker {
  pub fn new((order, seed, explicit): (Order, u64, Vec<usize>), budget: u64) -> Rc<Self> {
    Rc::new(Picker {
      order,
      explicit,
      log: RefCell::new(vec![]),
      rng: RefCell::new(Rng::new(seed)),
      front: RefCell::new(true),
      picks: RefCell::new(0),
      trace: RefCell::new(0xcbf29ce484222325),
      budget,
    })
  }
}

impl sim::Hooks for Picker {
  fn pick(&self, pending: usize) -> usize {
    let n = match self.order {
      Order::Fifo => 0,
      Order::Lifo => pending - 1,
      Order::Random => self.rng.borrow_mut().below(pending),
      Order::Bursts => {
        if self.rng.borrow_mut().chance(1, 8) {
          let f = *self.front.borrow();
          *self.front.borrow_mut() = !f;
        }
        if *self.front.borrow() { 0 } else { pending - 1 }
      }
      Order::Explicit => {
        let i = self.log.borrow().len();
        self.explicit.get(i).copied().unwrap_or(0).min(pending - 1)
      }
    };
    if (self.log.borrow().len() as u64) < self.budget {
      self.log.borrow_mut().push(n);
    }
    let mut t = self.trace.borrow_mut();
    *t = (*t ^ (n as u64 + 1)).wrapping_mul(0x100000001b3);
    n
  }

  fn step(&self) {
    let mut p = self.picks.borrow_mut();
    *p += 1;
    if *p > self.budget {
      drop(p);
      std::panic::panic_any(OutOfBudget);
    }
  }
}

type Sched = (Order, u64, Vec<usize>);
type Failed = (String, String, Vec<Vec<usize>>);
type Rows = BTreeMap<String, Vec<String>>;

pub fn rows(state: &FlowDomain<'_>) -> Rows {
  let mut out = Rows::new();
  for (p, s) in state.rows() {
    let mut v: Vec<String> = s.iter().map(|l| loa(*l)).collect();
    if !v.is_empty() {
      v.sort();
      out.insert(format!("{p:?}"), v);
    }
  }
  out
}

fn diff(a: &Rows, b: &Rows) -> Option<String> {
  for k in a.keys().chain(b.keys()) {
    let (x, y) = (a.get(k), b.get(k));
    if x != y {
      return Some(format!("{k}: {x:?} against {y:?}"));
    }
  }
  None
}

pub fn check<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  seed: u64,
  orders: usize,
  pinned: Option<&Value>,
  st: &mut Stats,
  seen: &mut Seen,
) -> Option<Violation> {
  let mut rng = Rng::new(seed);
  let mut mode_n = if rng.chance(1, 2) { 0 } else { rng.below(8) };
  let mut seeds: Vec<Sched> = (0 .. orders)
    .map(|i| {
      let o = match i {
        0 => Order::Fifo,
        1 => Order::Lifo,
        2 => Order::Bursts,
        _ => Order::Random,
      };
      (o, rng.next(), vec![])
    })
    .collect();
  let mut gen_seed = rng.next();
  let mut part = None;
  if let Some(p) = pinned {
    mode_n = p["mode"].as_u64().unwrap() as usize;
    gen_seed = p["random analysis"].as_str().unwrap().parse().unwrap();
    part = p["part"].as_str();
    if let Some(s) = p["schedules"].as_array() {
      seeds = s
        .iter()
        .map(|s| {
          (Order::Explicit, 0, s.as_array().unwrap().iter().map(|n| n.as_u64().unwrap() as usize).collect())
        })
        .collect();
    }
  }
  let mut pin = json!({"mode": mode_n, "random analysis": gen_seed.to_string()});
  let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
    let a = if part != Some("random analysis") { flow_orders(tcx, def, mode_n, &seeds, st, seen) } else { None };
    match a {
      Some(x) => Some(("flow", x)),
      None if part != Some("flow") => bit_orders(tcx, def, gen_seed, &seeds, st, seen).map(|x| ("random analysis", x)),
      None => None,
    }
  }));
  match r {
    Ok(None) => None,
    Ok(Some((part, (key, what, logs)))) => {
      pin["part"] = json!(part);
      pin["schedules"] = json!(logs);
      Some(Violation { what, key, pin })
    }
    Err(p) => Some(Violation {
      what: format!("the solver gave no answer: {}", describe_panic(&*p)),
      key: "no answer".into(),
      pin,
    }),
  }
}

fn successors(body: &Body<'_>, loc: Location) -> Vec<Location> {
  match body.stmt_at(loc).right() {
    None => vec![loc.successor_within_block()],
    Some(t) => t
      .successors()
      .map(|block| Location { block, statement_index: 0 })
      .collect(),
  }
}

fn reachable(body: &Body<'_>) -> Vec<Location> {
  let blocks: std::collections::HashSet<BasicBlock> =
    traversal::reachable(body).map(|(b, _)| b).collect();
  body.all_locations().filter(|l| blocks.contains(&l.block)).collect()
}

fn apply<'tcx, A: Analysis<'tcx>>(
  a: &mut A,
  body: &Body<'tcx>,
  loc: Location,
  s: &mut A::Domain,
) {
  let data = &body.basic_blocks[loc.block];
  if loc.statement_index < data.statements.len() {
    a.apply_primary_statement_effect(s, &data.statements[loc.statement_index], loc);
  } else {
    a.apply_primary_terminator_effect(s, data.terminator(), loc);
  }
}

fn flow_orders<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  mode_n: usize,
  seeds: &[Sched],
  st: &mut Stats,
  seen: &mut Seen,
) -> Option<Failed> {
  let facts = get_body_with_borrowck_facts(tcx, def);
  let body = &facts.body;
  let body_id = tcx.hir_body_owned_by(def).id();
  let mode = mode_of(mode_n);
  fluid_set!(EVAL_MODE, &mode);
  let locs = reachable(body);
  // generous: the lattice height bounds the visits of one instruction
  let budget = 300_000;
  let mut first: Option<(BTreeMap<Location, Rows>, Vec<usize>)> = None;
  for sched in seeds {
    let order = sched.0;
    let p = Picker::new(sched.clone(), budget);
    let mut flow: FlowResults<'_, 'tcx> =
      with_hooks(p.clone(), || compute_flow(tcx, body_id, facts));
    st.add("solver runs", 1);
    st.add("instructions processed", *p.picks.borrow());
    if seen.cases.insert(hash_of((seen.program, tcx.def_path_str(def), mode_n, *p.trace.borrow()))) {
      st.add("distinct schedules", 1);
    }
    if seen.sample.is_none() && matches!(order, Order::Random) && p.log.borrow().len() > 20 {
      seen.sample = Some(json!({"order": "random", "seed": sched.1.to_string(), "instructions": locs.len(),
        "picks": p.log.borrow().iter().take(60).map(|n| n.to_string()).collect::<Vec<_>>().join(" ")}));
    }
    let states: BTreeMap<Location, Rows> =
      locs.iter().map(|l| (*l, rows(flow.state_at(*l)))).collect();
    // (outside of compute_flow, recursive calls would not be recognised as such)
    if mode_n < 4 {
      // each state is the effect of the instruction on what precedes it
      let mut before: BTreeMap<Location, FlowDomain<'tcx>> =
        locs.iter().map(|l| (*l, flow.analysis.bottom_value(body))).collect();
      flow.analysis.initialize_start_block(body, before.get_mut(&Location::START).unwrap());
      for l in &locs {
        for m in successors(body, *l) {
          before.get_mut(&m).unwrap().join(flow.state_at(*l));
          st.add("edges checked", 1);
        }
      }
      for (l, mut s) in before {
        apply(&mut flow.analysis, body, l, &mut s);
        st.add("instructions re-applied", 1);
        if let Some(d) = diff(&rows(&s), &states[&l]) {
          return Some((
            "not closed".into(),
            format!("the state at {l:?} is not the effect of {l:?} on the join of its predecessors' states: {d} (order {order:?}, mode {mode:?})"),
            vec![p.log.borrow().clone()],
          ));
        }
      }
    }
    match &first {
      None => first = Some((states, p.log.borrow().clone())),
      Some((f, flog)) => {
        for l in &locs {
          st.add("states compared", 1);
          if let Some(d) = diff(&f[l], &states[l]) {
            return Some((
              "depends on order".into(),
              format!("the state at {l:?} differs between processing orders {:?} and {order:?}: {d} (mode {mode:?})", seeds[0].0),
              vec![flog.clone(), p.log.borrow().clone()],
            ));
          }
        }
      }
    }
  }
  st.add("functions analysed", 1);
  None
}

// ---------------------------------------------------------------- arbitrary analyses

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Bits(u64);

impl JoinSemiLattice for Bits {
  fn join(&mut self, o: &Self) -> bool {
    let old = self.0;
    self.0 |= o.0;
    self.0 != old
  }
}

impl<C> DebugWithContext<C> for Bits {}

#[derive(Clone)]
struct Eff {
  gens: u64,
  kill: u64,
  /// (target, sources): the target bit becomes the disjunction of the sources
  moves: Vec<(u32, u64)>,
}

struct BitAnalysis {
  init: u64,
  eff: BTreeMap<Location, Eff>,
}

impl BitAnalysis {
  fn f(&self, l: Location, s: &mut Bits) {
    let e = &self.eff[&l];
    let old = s.0;
    s.0 &= !e.kill;
    for (t, src) in &e.moves {
      s.0 &= !(1 << t);
      if old & src != 0 {
        s.0 |= 1 << t;
      }
    }
    s.0 |= e.gens;
  }
}

impl<'tcx> Analysis<'tcx> for BitAnalysis {
  type Domain = Bits;
  const NAME: &'static str = "bits";
  fn bottom_value(&self, _: &Body<'tcx>) -> Bits {
    Bits(0)
  }
  fn initialize_start_block(&self, _: &Body<'tcx>, s: &mut Bits) {
    s.0 |= self.init;
  }
  fn apply_primary_statement_effect(&mut self, s: &mut Bits, _: &Statement<'tcx>, l: Location) {
    self.f(l, s);
  }
  fn apply_primary_terminator_effect<'mir>(
    &mut self,
    s: &mut Bits,
    t: &'mir Terminator<'tcx>,
    l: Location,
  ) -> TerminatorEdges<'mir, 'tcx> {
    self.f(l, s);
    t.edges()
  }
}

fn bit_orders<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  seed: u64,
  seeds: &[Sched],
  st: &mut Stats,
  seen: &mut Seen,
) -> Option<Failed> {
  let mut rng = Rng::new(seed);
  let facts = get_body_with_borrowck_facts(tcx, def);
  let body = &facts.body;
  let pi = PlaceInfo::build(tcx, def.to_def_id(), facts);
  let locs = reachable(body);
  let dense = rng.chance(1, 3);
  let mut eff = BTreeMap::new();
  for l in body.all_locations() {
    let mut e = Eff { gens: 0, kill: 0, moves: vec![] };
    let pick = |rng: &mut Rng| 1u64 << rng.below(24);
    if rng.chance(1, if dense { 2 } else { 6 }) {
      e.gens = pick(&mut rng);
    }
    if rng.chance(1, 3) {
      e.kill = pick(&mut rng) | pick(&mut rng);
      e.kill &= !e.gens;
    }
    if rng.chance(1, 2) {
      let t = rng.below(24) as u32;
      let mut src = 0;
      for _ in 0 .. rng.range(1, 3) {
        src |= pick(&mut rng);
      }
      e.moves.push((t, src));
    }
    eff.insert(l, e);
  }
  let a = BitAnalysis { init: rng.next() & 0xff, eff };
  // reference: chaotic iteration over explicit before- and after-states
  let mut after: BTreeMap<Location, Bits> = locs.iter().map(|l| (*l, Bits(0))).collect();
  let mut before = after.clone();
  before.get_mut(&Location::START).unwrap().0 = a.init;
  loop {
    let mut changed = false;
    for l in &locs {
      let mut s = before[l].clone();
      a.f(*l, &mut s);
      changed |= after[l] != s;
      for m in successors(body, *l) {
        let b = before.get_mut(&m).unwrap();
        changed |= b.join(&s);
      }
      after.insert(*l, s);
    }
    if !changed {
      break;
    }
  }
  let mut a = Some(a);
  for sched in seeds.iter().rev().take(3) {
    let order = sched.0;
    let p = Picker::new(sched.clone(), 300_000);
    let res = with_hooks(p.clone(), || {
      engine::iterate_to_fixpoint(tcx, body, pi.location_domain().clone(), a.take().unwrap())
    });
    st.add("solver runs of random analyses", 1);
    if seen.cases.insert(hash_of((seen.program, seed, *p.trace.borrow()))) {
      st.add("distinct schedules", 1);
    }
    st.add("instructions processed", *p.picks.borrow());
    for l in &locs {
      st.add("states compared with the reference", 1);
      if *res.state_at(*l) != after[l] {
        return Some((
          "wrong fixpoint".into(),
          format!(
            "for a random monotone analysis, the state at {l:?} is {:b} instead of {:b} (order {order:?})",
            res.state_at(*l).0, after[l].0
          ),
          vec![p.log.borrow().clone()],
        ));
      }
    }
    a = Some(res.analysis);
  }
  None
}
