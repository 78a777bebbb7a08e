//! A simulated machine for MIR: runs the very bodies flowistry analyses, with
//! dynamically typed values, and injects one fault (a corrupted value or a
//! flipped branch) at a chosen event of the execution.

use std::{
  collections::HashMap,
  hash::{Hash, Hasher},
};

use rustc_data_structures::fx::FxHasher;
use rustc_hir::def_id::DefId;
use rustc_middle::{
  mir::*,
  ty::{
    self, AdtDef, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind,
    TypeFoldable, TypingEnv,
  },
};
use rustc_utils::mir::borrowck_facts::get_body_with_borrowck_facts;

use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct IntTy {
  pub bits: u8,
  pub signed: bool,
}

#[derive(Clone, Debug)]
pub enum Val<'tcx> {
  Uninit,
  Int(i128, IntTy),
  Bool(bool),
  Opaque(u64),
  Agg(Option<AdtDef<'tcx>>, u32, Vec<Val<'tcx>>),
  Arr(Vec<Val<'tcx>>),
  Clo(DefId, GenericArgsRef<'tcx>, Vec<Val<'tcx>>),
  Box(Box<Val<'tcx>>),
  Ref(Ptr),
  Fn(DefId, GenericArgsRef<'tcx>),
  /// slice or array iterator: pointer to the array/slice, next, end
  Iter(Ptr, usize, usize),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ptr {
  pub alloc: usize,
  pub path: Vec<Elem>,
  pub mutable: bool,
  pub slice: Option<(usize, usize)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Elem {
  Field(u32),
  Index(usize),
  Unbox,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Stop {
  Panic,
  Limit,
  Unsupported(&'static str),
  Invalid(&'static str),
}
pub type R<T> = Result<T, Stop>;

pub fn unit<'tcx>() -> Val<'tcx> {
  Val::Agg(None, 0, vec![])
}

/// What happened at an event, i.e. where a fault can be injected.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EventKind {
  Arg(u32),
  Assign,
  Switch,
  CallRet,
  CallMut,
}

#[derive(Clone, Debug)]
pub struct Event {
  pub kind: EventKind,
  /// location in the function under test (the call, for events inside callees)
  pub loc: Location,
  pub depth: u32,
  pub leaves: u32,
}

#[derive(Clone, Debug)]
pub struct Fault {
  pub event: usize,
  pub salt: u64,
}

/// What the fault did, in words.
#[derive(Clone, Debug)]
pub struct FaultDone {
  pub what: String,
  /// path of the corrupted leaf within the written place (assignments only)
  pub path: Vec<Elem>,
  /// memory that holds the corrupted leaf
  pub alloc: usize,
}

pub type Idx = u64;

/// A question: which value does `place` hold right after `loc`?
#[derive(Clone, Debug)]
pub struct Query<'tcx> {
  pub place: Place<'tcx>,
  pub loc: Location,
}

#[derive(Default)]
pub struct Record {
  pub events: Vec<Event>,
  /// (query, loop index) -> digest of the value observed
  pub observed: HashMap<(usize, Idx), (u64, String)>,
  /// which memory that was
  pub observed_at: HashMap<(usize, Idx), (usize, Vec<Elem>)>,
  /// (location, loop index) -> digest of what the instruction wrote or decided
  pub written: HashMap<(Location, Idx), (u64, String)>,
  pub visited: Vec<Location>,
  pub steps: usize,
  pub fault: Option<FaultDone>,
}

pub struct Loops {
  /// for each block, headers of the loops that contain it, outermost first
  of_block: Vec<Vec<BasicBlock>>,
  body_of: HashMap<BasicBlock, Vec<bool>>,
}

impl Loops {
  pub fn build(body: &Body<'_>) -> Self {
    let n = body.basic_blocks.len();
    let doms = body.basic_blocks.dominators();
    let preds = body.basic_blocks.predecessors();
    let mut body_of: HashMap<BasicBlock, Vec<bool>> = HashMap::new();
    let reachable = traversal::reachable_as_bitset(body);
    for (t, data) in body.basic_blocks.iter_enumerated() {
      if !reachable.contains(t) {
        continue;
      }
      for h in data.terminator().successors() {
        if doms.dominates(h, t) {
          let set = body_of.entry(h).or_insert_with(|| vec![false; n]);
          set[h.as_usize()] = true;
          let mut stack = vec![t];
          while let Some(b) = stack.pop() {
            if !std::mem::replace(&mut set[b.as_usize()], true) {
              stack.extend(preds[b].iter().copied());
            }
          }
        }
      }
    }
    let size = |h: &BasicBlock| body_of[h].iter().filter(|b| **b).count();
    let of_block = (0 .. n)
      .map(|b| {
        let mut hs: Vec<_> =
          body_of.iter().filter(|(_, s)| s[b]).map(|(h, _)| *h).collect();
        hs.sort_by_key(|h| (std::cmp::Reverse(size(h)), h.as_usize()));
        hs
      })
      .collect();
    Loops { of_block, body_of }
  }
}

pub struct Interp<'a, 'tcx> {
  pub tcx: TyCtxt<'tcx>,
  pub top: DefId,
  pub mem: Vec<Option<Val<'tcx>>>,
  pub rec: Record,
  pub queries: &'a [Query<'tcx>],
  pub loops: &'a Loops,
  pub fault: Option<Fault>,
  /// corrupt only data within such types
  pub only_of: Option<Box<dyn Fn(AdtDef<'tcx>) -> bool + 'a>>,
  /// corrupt memory reachable from the arguments of opaque calls
  pub opaque_calls: bool,
  pub max_steps: usize,
  pub verbose: bool,
  counters: HashMap<BasicBlock, u32>,
  cur: Location,
  depth: u32,
  top_base: usize,
  /// writes of the callee to memory that existed when it was called
  watch: Option<(usize, FxHasher)>,
}

struct Frame<'tcx> {
  base: usize,
  args: GenericArgsRef<'tcx>,
  def: DefId,
}

impl<'a, 'tcx> Interp<'a, 'tcx> {
  pub fn new(
    tcx: TyCtxt<'tcx>,
    top: DefId,
    queries: &'a [Query<'tcx>],
    loops: &'a Loops,
  ) -> Self {
    Interp {
      tcx,
      top,
      mem: vec![],
      rec: Record::default(),
      queries,
      loops,
      fault: None,
      only_of: None,
      opaque_calls: true,
      max_steps: 4000,
      verbose: false,
      counters: HashMap::new(),
      cur: Location::START,
      depth: 0,
      top_base: 0,
      watch: None,
    }
  }

  fn env(&self) -> TypingEnv<'tcx> {
    TypingEnv::fully_monomorphized()
  }

  fn mono<T: TypeFoldable<TyCtxt<'tcx>>>(&self, f: &Frame<'tcx>, t: T) -> T {
    let t = self.tcx.erase_regions(t);
    let t = EarlyBinder::bind(t).instantiate(self.tcx, f.args);
    match self.tcx.try_normalize_erasing_regions(self.env(), t.clone()) {
      Ok(t) => t,
      Err(_) => t,
    }
  }

  // ---------------------------------------------------------------- memory

  pub fn alloc(&mut self, v: Val<'tcx>) -> usize {
    self.mem.push(Some(v));
    self.mem.len() - 1
  }

  pub fn get(&self, alloc: usize, path: &[Elem]) -> R<&Val<'tcx>> {
    let mut v = self
      .mem
      .get(alloc)
      .and_then(|v| v.as_ref())
      .ok_or(Stop::Invalid("dangling"))?;
    for e in path {
      v = match (v, e) {
        (Val::Agg(_, _, fs), Elem::Field(i)) | (Val::Clo(_, _, fs), Elem::Field(i)) => {
          fs.get(*i as usize).ok_or(Stop::Invalid("field"))?
        }
        (Val::Arr(xs), Elem::Index(i)) => xs.get(*i).ok_or(Stop::Panic)?,
        (Val::Box(b), Elem::Unbox) => b,
        _ => return Err(Stop::Invalid("path")),
      };
    }
    Ok(v)
  }

  pub fn get_mut(&mut self, alloc: usize, path: &[Elem]) -> R<&mut Val<'tcx>> {
    let mut v = self
      .mem
      .get_mut(alloc)
      .and_then(|v| v.as_mut())
      .ok_or(Stop::Invalid("dangling"))?;
    for e in path {
      v = match (v, e) {
        (Val::Agg(_, _, fs), Elem::Field(i)) | (Val::Clo(_, _, fs), Elem::Field(i)) => {
          fs.get_mut(*i as usize).ok_or(Stop::Invalid("field"))?
        }
        (Val::Arr(xs), Elem::Index(i)) => xs.get_mut(*i).ok_or(Stop::Panic)?,
        (Val::Box(b), Elem::Unbox) => &mut **b,
        _ => return Err(Stop::Invalid("path")),
      };
    }
    Ok(v)
  }

  fn write(&mut self, alloc: usize, path: &[Elem], v: Val<'tcx>) -> R<()> {
    if let Some((limit, _)) = &self.watch
      && alloc < *limit
    {
      let d = self.digest(&v, 0, false).map(|d| d.0).unwrap_or(0);
      if let Some((_, h)) = &mut self.watch {
        (alloc, path, d).hash(h);
      }
    }
    *self.get_mut(alloc, path)? = v;
    Ok(())
  }

  /// A digest and rendering of a value; `None` if part of it is uninitialised.
  pub fn digest(
    &self,
    v: &Val<'tcx>,
    level: usize,
    follow: bool,
  ) -> Option<(u64, String)> {
    let mut h = FxHasher::default();
    let mut s = String::new();
    self.digest_into(v, level, follow, &mut h, &mut s)?;
    Some((h.finish(), s))
  }

  fn digest_into(
    &self,
    v: &Val<'tcx>,
    level: usize,
    follow: bool,
    h: &mut FxHasher,
    s: &mut String,
  ) -> Option<()> {
    use std::fmt::Write;
    if level > 12 {
      return None;
    }
    match v {
      Val::Uninit => return None,
      Val::Int(i, _) => {
        (1u8, i).hash(h);
        write!(s, "{i}").ok();
      }
      Val::Bool(b) => {
        (2u8, b).hash(h);
        write!(s, "{b}").ok();
      }
      Val::Opaque(x) => (3u8, x).hash(h),
      Val::Agg(adt, var, fs) => {
        (4u8, var, fs.len()).hash(h);
        if let Some(a) = adt
          && a.is_enum()
        {
          write!(s, "{}", a.variant((*var as usize).into()).name).ok();
        }
        s.push('(');
        for f in fs {
          self.digest_into(f, level + 1, follow, h, s)?;
          s.push(',');
        }
        s.push(')');
      }
      Val::Clo(_, _, fs) => {
        (5u8, fs.len()).hash(h);
        s.push('|');
        for f in fs {
          self.digest_into(f, level + 1, follow, h, s)?;
          s.push(',');
        }
        s.push('|');
      }
      Val::Arr(fs) => {
        (6u8, fs.len()).hash(h);
        s.push('[');
        for f in fs {
          self.digest_into(f, level + 1, follow, h, s)?;
          s.push(',');
        }
        s.push(']');
      }
      Val::Box(b) => {
        7u8.hash(h);
        self.digest_into(b, level + 1, follow, h, s)?;
      }
      Val::Fn(d, _) => (8u8, d).hash(h),
      Val::Iter(p, i, n) => {
        (9u8, n - i).hash(h);
        if follow {
          for k in *i .. *n {
            let mut q = p.clone();
            q.path.push(Elem::Index(k));
            let x = self.get(q.alloc, &q.path).ok()?;
            self.digest_into(x, level + 1, follow, h, s)?;
          }
        }
      }
      Val::Ref(p) => {
        10u8.hash(h);
        if follow {
          s.push('&');
          let x = self.get(p.alloc, &p.path).ok()?;
          match (p.slice, x) {
            (Some((st, n)), Val::Arr(xs)) => {
              for x in xs.get(st .. st + n)? {
                self.digest_into(x, level + 1, follow, h, s)?;
                s.push(',');
              }
            }
            _ => self.digest_into(x, level + 1, follow, h, s)?,
          }
        }
      }
    }
    Some(())
  }

  /// Corruptible scalars within the value at (alloc, path).
  /// `refs`: 0 = do not follow references, 1 = only mutable ones, 2 = all.
  fn leaves(
    &self,
    alloc: usize,
    path: &mut Vec<Elem>,
    refs: u8,
    out: &mut Vec<(usize, Vec<Elem>)>,
    level: usize,
  ) {
    if level > 10 || out.len() > 64 {
      return;
    }
    let Ok(v) = self.get(alloc, path) else { return };
    match v {
      Val::Int(..) | Val::Bool(..) => out.push((alloc, path.clone())),
      Val::Agg(adt, _, fs) => {
        if let Some(adt) = adt
          && adt.is_enum()
          && adt.variants().len() > 1
          && adt.variants().iter().any(|v| v.fields.is_empty())
        {
          out.push((alloc, path.clone()));
        }
        for i in 0 .. fs.len() {
          path.push(Elem::Field(i as u32));
          self.leaves(alloc, path, refs, out, level + 1);
          path.pop();
        }
      }
      Val::Clo(_, _, fs) => {
        for i in 0 .. fs.len() {
          path.push(Elem::Field(i as u32));
          self.leaves(alloc, path, refs, out, level + 1);
          path.pop();
        }
      }
      Val::Arr(fs) => {
        for i in 0 .. fs.len() {
          path.push(Elem::Index(i));
          self.leaves(alloc, path, refs, out, level + 1);
          path.pop();
        }
      }
      Val::Box(_) => {
        path.push(Elem::Unbox);
        self.leaves(alloc, path, refs, out, level + 1);
        path.pop();
      }
      Val::Ref(p) if refs == 2 || (refs == 1 && p.mutable) => {
        let p = p.clone();
        let mut q = p.path.clone();
        match p.slice {
          Some((s, n)) => {
            for i in s .. s + n {
              q.push(Elem::Index(i));
              self.leaves(p.alloc, &mut q, refs, out, level + 1);
              q.pop();
            }
          }
          None => self.leaves(p.alloc, &mut q, refs, out, level + 1),
        }
      }
      Val::Iter(p, i, n) if refs == 2 || (refs == 1 && p.mutable) => {
        let (p, i, n) = (p.clone(), *i, *n);
        let mut q = p.path.clone();
        for k in i .. n {
          q.push(Elem::Index(k));
          self.leaves(p.alloc, &mut q, refs, out, level + 1);
          q.pop();
        }
      }
      _ => {}
    }
  }

  fn corrupt(&mut self, alloc: usize, path: &[Elem], rng: &mut Rng) -> R<String> {
    let v = self.get_mut(alloc, path)?;
    let old = match v {
      Val::Int(i, _) => i.to_string(),
      Val::Bool(b) => b.to_string(),
      Val::Agg(_, n, _) => format!("variant {n}"),
      _ => return Err(Stop::Invalid("corrupt")),
    };
    let new = match v {
      Val::Int(i, t) => {
        let o = *i;
        let c = [o + 1, o - 1, 0, 1, 2, -o, o + 7, 3];
        let mut x = wrap(c[rng.below(c.len())], *t);
        if x == o {
          x = wrap(o + 1, *t);
        }
        *i = x;
        x.to_string()
      }
      Val::Bool(b) => {
        *b = !*b;
        b.to_string()
      }
      Val::Agg(Some(adt), n, fs) => {
        let c: Vec<u32> = adt
          .variants()
          .iter_enumerated()
          .filter(|(i, v)| v.fields.is_empty() && i.as_u32() != *n)
          .map(|(i, _)| i.as_u32())
          .collect();
        if c.is_empty() {
          return Err(Stop::Invalid("no other variant"));
        }
        *n = c[rng.below(c.len())];
        fs.clear();
        format!("variant {n}")
      }
      _ => unreachable!(),
    };
    Ok(format!("{old} -> {new}"))
  }

  /// Registers an event and injects the planned fault if it belongs here.
  fn event(
    &mut self,
    kind: EventKind,
    leaves: impl FnOnce(&Self) -> Vec<(usize, Vec<Elem>)>,
  ) -> R<()> {
    let id = self.rec.events.len();
    let hit = self.fault.as_ref().is_some_and(|f| f.event == id);
    let planning = self.fault.is_none();
    let n = if hit || planning {
      let mut ls = leaves(self);
      if let Some(f) = &self.only_of {
        ls.retain(|(a, path)| {
          (0 ..= path.len()).any(|n| {
            matches!(self.get(*a, &path[.. n]), Ok(Val::Agg(Some(adt), ..)) if f(*adt))
          })
        });
      }
      if hit && !ls.is_empty() {
        let mut rng = Rng::new(self.fault.as_ref().unwrap().salt);
        let (alloc, path) = ls[rng.below(ls.len())].clone();
        let what = self.corrupt(alloc, &path, &mut rng)?;
        self.rec.fault = Some(FaultDone {
          what: format!("{kind:?} at {:?} (depth {}): {what}", self.cur, self.depth),
          path,
          alloc,
        });
      }
      ls.len() as u32
    } else {
      0
    };
    self.rec.events.push(Event {
      kind,
      loc: self.cur,
      depth: self.depth,
      leaves: n,
    });
    Ok(())
  }

  // ---------------------------------------------------------------- running

  /// Runs the function under test on `args` (values in memory).
  pub fn run_top(&mut self, args: Vec<Val<'tcx>>) -> R<Val<'tcx>> {
    let generic =
      ty::GenericArgs::identity_for_item(self.tcx, self.top);
    let generic = self.tcx.erase_regions(generic);
    self.exec(self.top, generic, args, true)
  }

  fn exec(
    &mut self,
    def: DefId,
    generic: GenericArgsRef<'tcx>,
    args: Vec<Val<'tcx>>,
    top: bool,
  ) -> R<Val<'tcx>> {
    let local = def.as_local().ok_or(Stop::Unsupported("not local"))?;
    let body = &get_body_with_borrowck_facts(self.tcx, local).body;
    if body.tainted_by_errors.is_some() {
      return Err(Stop::Unsupported("erroneous body"));
    }
    self.exec_body(body, def, generic, args, top)
  }

  fn exec_body(
    &mut self,
    body: &Body<'tcx>,
    def: DefId,
    generic: GenericArgsRef<'tcx>,
    args: Vec<Val<'tcx>>,
    top: bool,
  ) -> R<Val<'tcx>> {
    if self.depth > 24 {
      return Err(Stop::Limit);
    }
    if args.len() != body.arg_count {
      return Err(Stop::Unsupported("arity"));
    }
    let base = self.mem.len();
    for _ in 0 .. body.local_decls.len() {
      self.mem.push(Some(Val::Uninit));
    }
    for (i, a) in args.into_iter().enumerate() {
      self.mem[base + 1 + i] = Some(a);
    }
    let frame = Frame { base, args: generic, def };
    if top {
      self.top_base = base;
      self.cur = Location::START;
      for i in 1 ..= body.arg_count {
        self.event(EventKind::Arg(i as u32), |m| {
          let mut out = vec![];
          m.leaves(base + i, &mut vec![], 2, &mut out, 0);
          out
        })?;
      }
    } else {
      self.depth += 1;
    }
    let r = self.run_blocks(body, &frame, top);
    if !top {
      self.depth -= 1;
    }
    let ret = match r {
      Ok(()) => std::mem::replace(&mut self.mem[base], None).unwrap_or(Val::Uninit),
      Err(e) => return Err(e),
    };
    if !top {
      for i in 0 .. body.local_decls.len() {
        self.mem[base + i] = None;
      }
    }
    Ok(ret)
  }

  fn idx_at(&self, block: BasicBlock) -> Idx {
    let mut h = FxHasher::default();
    for l in &self.loops.of_block[block.as_usize()] {
      self.counters.get(l).copied().unwrap_or(0).hash(&mut h);
    }
    h.finish()
  }

  fn enter(&mut self, from: Option<BasicBlock>, b: BasicBlock) {
    if let Some(set) = self.loops.body_of.get(&b) {
      let back = from.is_some_and(|f| set[f.as_usize()]);
      if back {
        *self.counters.entry(b).or_insert(0) += 1;
      } else {
        self.counters.insert(b, 0);
      }
    }
  }

  fn visit_done(&mut self, loc: Location, frame: &Frame<'tcx>) {
    let idx = self.idx_at(loc.block);
    self.rec.visited.push(loc);
    for (i, q) in self.queries.iter().enumerate() {
      if q.loc == loc
        && let Ok((alloc, path, sl)) = self.resolve(q.place, frame)
        && sl.is_none()
        && let Ok(v) = self.get(alloc, &path)
        && let Some(d) = self.digest(v, 0, true)
      {
        self.rec.observed.insert((i, idx), d);
        self.rec.observed_at.insert((i, idx), (alloc, path));
      }
    }
  }

  fn note_written(&mut self, loc: Location, d: (u64, String)) {
    let idx = self.idx_at(loc.block);
    self.rec.written.insert((loc, idx), d);
  }

  fn run_blocks(&mut self, body: &Body<'tcx>, f: &Frame<'tcx>, top: bool) -> R<()> {
    let mut prev: Option<BasicBlock> = None;
    let mut block = START_BLOCK;
    loop {
      if top {
        self.enter(prev, block);
      }
      let data = &body.basic_blocks[block];
      for (i, stmt) in data.statements.iter().enumerate() {
        self.rec.steps += 1;
        if self.rec.steps > self.max_steps {
          return Err(Stop::Limit);
        }
        let loc = Location { block, statement_index: i };
        if top {
          self.cur = loc;
        }
        match &stmt.kind {
          StatementKind::Assign(box_) => {
            let (place, rvalue) = &**box_;
            let v = self.rvalue(rvalue, body, f)?;
            let (alloc, path, _) = self.resolve(*place, f)?;
            self.write(alloc, &path, v)?;
            let p2 = path.clone();
            self.event(EventKind::Assign, |m| {
              let mut out = vec![];
              m.leaves(alloc, &mut p2.clone(), 0, &mut out, 0);
              out
            })?;
            if top {
              let v = self.get(alloc, &path)?;
              if let Some(d) = self.digest(v, 0, false) {
                self.note_written(loc, d);
              }
            }
            if self.verbose {
              let v = self.get(alloc, &path)?;
              println!(
                "    {:indent$}{loc:?} {:?} <- {}",
                "",
                place,
                self.digest(v, 0, false).map(|d| d.1).unwrap_or("?".into()),
                indent = self.depth as usize * 2
              );
            }
          }
          StatementKind::SetDiscriminant { .. } | StatementKind::Deinit(..) => {
            return Err(Stop::Unsupported("set discriminant"));
          }
          StatementKind::Intrinsic(..) => return Err(Stop::Unsupported("intrinsic")),
          _ => {}
        }
        if top {
          self.visit_done(loc, f);
        }
      }
      let loc = Location { block, statement_index: data.statements.len() };
      self.rec.steps += 1;
      if self.rec.steps > self.max_steps {
        return Err(Stop::Limit);
      }
      if top {
        self.cur = loc;
      }
      let next = match &data.terminator().kind {
        TerminatorKind::Goto { target } => *target,
        TerminatorKind::FalseEdge { real_target, .. }
        | TerminatorKind::FalseUnwind { real_target, .. } => *real_target,
        TerminatorKind::Return => {
          if top {
            self.visit_done(loc, f);
          }
          return Ok(());
        }
        TerminatorKind::Drop { place, target, .. } => {
          if let Ok((alloc, path, _)) = self.resolve(*place, f)
            && let Ok(v) = self.get_mut(alloc, &path)
          {
            *v = Val::Uninit;
          }
          *target
        }
        TerminatorKind::Assert { cond, expected, target, .. } => {
          let c = self.operand(cond, body, f)?;
          match c {
            Val::Bool(b) if b == *expected => *target,
            Val::Bool(_) => return Err(Stop::Panic),
            _ => return Err(Stop::Invalid("assert")),
          }
        }
        TerminatorKind::SwitchInt { discr, targets } => {
          let v = self.operand(discr, body, f)?;
          let raw = match v {
            Val::Bool(b) => b as u128,
            Val::Int(i, t) => {
              if t.bits >= 128 {
                i as u128
              } else {
                (i as u128) & ((1u128 << t.bits) - 1)
              }
            }
            _ => return Err(Stop::Invalid("switch")),
          };
          let mut target = targets.target_for_value(raw);
          let id = self.rec.events.len();
          if let Some(flt) = &self.fault
            && flt.event == id
          {
            let others: Vec<_> = targets
              .all_targets()
              .iter()
              .copied()
              .filter(|t| {
                *t != target
                  && !matches!(
                    body.basic_blocks[*t].terminator().kind,
                    TerminatorKind::Unreachable
                  )
              })
              .collect();
            if !others.is_empty() {
              let mut rng = Rng::new(flt.salt);
              let t2 = others[rng.below(others.len())];
              self.rec.fault = Some(FaultDone {
                what: format!(
                  "branch at {:?} (depth {}): {target:?} -> {t2:?}",
                  self.cur, self.depth
                ),
                path: vec![],
                alloc: usize::MAX,
              });
              target = t2;
            }
          }
          self.rec.events.push(Event {
            kind: EventKind::Switch,
            loc: self.cur,
            depth: self.depth,
            leaves: targets.all_targets().len() as u32 - 1,
          });
          if self.verbose {
            println!(
              "    {:indent$}{loc:?} switch {raw} -> {target:?}",
              "",
              indent = self.depth as usize * 2
            );
          }
          if top {
            self.note_written(loc, (target.as_u32() as u64, format!("branch to {target:?}")));
          }
          target
        }
        TerminatorKind::Call { func, args, destination, target, .. } => {
          let fv = self.operand(func, body, f)?;
          let mut vals = vec![];
          for a in args.iter() {
            vals.push(self.operand(&a.node, body, f)?);
          }
          if self.verbose {
            println!(
              "    {:indent$}{loc:?} call {fv:?}",
              "",
              indent = self.depth as usize * 2
            );
          }
          let keep = vals.clone();
          let limit = self.mem.len();
          let old_watch = if top {
            self.watch.replace((limit, FxHasher::default()))
          } else {
            None
          };
          let (ret, opaque) = self.call(fv, vals)?;
          let Some(target) = target else { return Err(Stop::Panic) };
          let (alloc, path, _) = self.resolve(*destination, f)?;
          let ext = if top {
            let w = std::mem::replace(&mut self.watch, old_watch);
            w.map(|(_, h)| h.finish()).unwrap_or(0)
          } else {
            0
          };
          self.write(alloc, &path, ret)?;
          let p2 = path.clone();
          if top || opaque {
            self.event(EventKind::CallRet, |m| {
              let mut out = vec![];
              m.leaves(alloc, &mut p2.clone(), 0, &mut out, 0);
              out
            })?;
          }
          if top && (opaque || self.opaque_calls) {
            // the callee may have written anything it can reach mutably
            let holder = self.alloc(Val::Agg(None, 0, keep));
            self.event(EventKind::CallMut, |m| {
              let mut all = vec![];
              m.leaves(holder, &mut vec![], 1, &mut all, 0);
              all.retain(|(a, _)| *a != holder);
              all
            })?;
            self.mem[holder] = None;
          }
          if top {
            let v = self.get(alloc, &path)?;
            if let Some((d, s)) = self.digest(v, 0, false) {
              let mut h = FxHasher::default();
              (d, ext).hash(&mut h);
              self.note_written(loc, (h.finish(), format!("{s} (memory log {ext:x})")));
            }
          }
          *target
        }
        TerminatorKind::Unreachable => return Err(Stop::Invalid("unreachable")),
        TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
          return Err(Stop::Panic);
        }
        _ => return Err(Stop::Unsupported("terminator")),
      };
      if top {
        self.visit_done(loc, f);
      }
      prev = Some(block);
      block = next;
    }
  }

  /// Resolves a place to memory.
  fn resolve(
    &self,
    place: Place<'tcx>,
    f: &Frame<'tcx>,
  ) -> R<(usize, Vec<Elem>, Option<(usize, usize)>)> {
    let mut alloc = f.base + place.local.as_usize();
    let mut path: Vec<Elem> = vec![];
    let mut slice: Option<(usize, usize)> = None;
    for e in place.projection.iter() {
      match e {
        ProjectionElem::Deref => match self.get(alloc, &path)? {
          Val::Ref(p) => {
            alloc = p.alloc;
            path = p.path.clone();
            slice = p.slice;
          }
          Val::Box(_) => {
            path.push(Elem::Unbox);
            slice = None;
          }
          Val::Uninit => return Err(Stop::Invalid("uninit deref")),
          _ => return Err(Stop::Unsupported("deref")),
        },
        ProjectionElem::Field(i, _) => {
          path.push(Elem::Field(i.as_u32()));
          slice = None;
        }
        ProjectionElem::Downcast(_, v) => match self.get(alloc, &path)? {
          Val::Agg(_, n, _) if *n == v.as_u32() => {}
          _ => return Err(Stop::Invalid("downcast")),
        },
        ProjectionElem::Index(l) => {
          let i = match self.get(f.base + l.as_usize(), &[])? {
            Val::Int(i, _) => *i as usize,
            _ => return Err(Stop::Invalid("index")),
          };
          let (st, n) = match slice {
            Some(x) => x,
            None => match self.get(alloc, &path)? {
              Val::Arr(xs) => (0, xs.len()),
              _ => return Err(Stop::Invalid("index base")),
            },
          };
          if i >= n {
            return Err(Stop::Panic);
          }
          path.push(Elem::Index(st + i));
          slice = None;
        }
        ProjectionElem::ConstantIndex { offset, from_end, .. } => {
          let (st, n) = match slice {
            Some(x) => x,
            None => match self.get(alloc, &path)? {
              Val::Arr(xs) => (0, xs.len()),
              _ => return Err(Stop::Invalid("index base")),
            },
          };
          let o = offset as usize;
          let i = if from_end { n.checked_sub(o).ok_or(Stop::Panic)? } else { o };
          if i >= n {
            return Err(Stop::Panic);
          }
          path.push(Elem::Index(st + i));
          slice = None;
        }
        _ => return Err(Stop::Unsupported("projection")),
      }
    }
    Ok((alloc, path, slice))
  }

  fn operand(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, f: &Frame<'tcx>) -> R<Val<'tcx>> {
    match op {
      Operand::Copy(p) => {
        let (a, path, _) = self.resolve(*p, f)?;
        let v = self.get(a, &path)?.clone();
        if matches!(v, Val::Uninit) {
          return Err(Stop::Invalid("uninit read"));
        }
        Ok(v)
      }
      Operand::Move(p) => {
        let (a, path, _) = self.resolve(*p, f)?;
        let v = self.get_mut(a, &path)?;
        let v = std::mem::replace(v, Val::Uninit);
        if matches!(v, Val::Uninit) {
          return Err(Stop::Invalid("uninit move"));
        }
        Ok(v)
      }
      Operand::Constant(c) => self.constant(c, body, f),
    }
  }

  fn constant(
    &mut self,
    c: &ConstOperand<'tcx>,
    _body: &Body<'tcx>,
    f: &Frame<'tcx>,
  ) -> R<Val<'tcx>> {
    let ty = self.mono(f, c.const_.ty());
    match ty.kind() {
      TyKind::FnDef(d, args) => return Ok(Val::Fn(*d, args)),
      TyKind::Tuple(ts) if ts.is_empty() => return Ok(unit()),
      TyKind::Adt(adt, _) if adt.is_struct() && adt.all_fields().next().is_none() => {
        return Ok(Val::Agg(Some(*adt), 0, vec![]));
      }
      _ => {}
    }
    if let Const::Unevaluated(uv, _) = c.const_
      && let Some(promoted) = uv.promoted
    {
      let facts = get_body_with_borrowck_facts(
        self.tcx,
        f.def.as_local().ok_or(Stop::Unsupported("promoted"))?,
      );
      let pbody = &facts.promoted[promoted];
      // events in promoteds are not part of the function
      let (depth, fault) = (self.depth, self.fault.take());
      let n = self.rec.events.len();
      let planning = fault.is_none();
      let r = self.exec_promoted(pbody, f);
      self.rec.events.truncate(n);
      if !planning {
        self.fault = fault;
      }
      self.depth = depth;
      return r;
    }
    let k = self.mono(f, c.const_);
    if let Some(s) = k.try_eval_scalar_int(self.tcx, self.env()) {
      return scalar_to_val(s, ty).ok_or(Stop::Unsupported("scalar const"));
    }
    match ty.kind() {
      TyKind::Ref(_, t, _) if t.is_str() => Ok(Val::Opaque(0)),
      _ => Err(Stop::Unsupported("const")),
    }
  }

  fn exec_promoted(&mut self, pbody: &Body<'tcx>, f: &Frame<'tcx>) -> R<Val<'tcx>> {
    let base = self.mem.len();
    for _ in 0 .. pbody.local_decls.len() {
      self.mem.push(Some(Val::Uninit));
    }
    let frame = Frame { base, args: f.args, def: f.def };
    self.depth += 1;
    self.run_blocks(pbody, &frame, false)?;
    self.depth -= 1;
    // locals stay alive: promoteds are 'static
    Ok(self.mem[base].clone().unwrap_or(Val::Uninit))
  }

  fn rvalue(&mut self, rv: &Rvalue<'tcx>, body: &Body<'tcx>, f: &Frame<'tcx>) -> R<Val<'tcx>> {
    Ok(match rv {
      Rvalue::Use(op) => self.operand(op, body, f)?,
      Rvalue::CopyForDeref(p) => self.operand(&Operand::Copy(*p), body, f)?,
      Rvalue::Repeat(op, n) => {
        let v = self.operand(op, body, f)?;
        let n = self.mono(f, *n);
        let n = n.try_to_target_usize(self.tcx).ok_or(Stop::Unsupported("repeat"))?;
        Val::Arr(vec![v; n as usize])
      }
      Rvalue::Ref(_, kind, p) => {
        let (alloc, path, slice) = self.resolve(*p, f)?;
        // the path must exist
        self.get(alloc, &path)?;
        Val::Ref(Ptr { alloc, path, mutable: matches!(kind, BorrowKind::Mut { .. }), slice })
      }
      Rvalue::Len(p) => {
        let (alloc, path, slice) = self.resolve(*p, f)?;
        let n = match slice {
          Some((_, n)) => n,
          None => match self.get(alloc, &path)? {
            Val::Arr(xs) => xs.len(),
            _ => return Err(Stop::Unsupported("len")),
          },
        };
        usize_val(n)
      }
      Rvalue::Cast(kind, op, ty) => {
        let v = self.operand(op, body, f)?;
        let ty = self.mono(f, *ty);
        match kind {
          CastKind::IntToInt => {
            let i = match v {
              Val::Int(i, _) => i,
              Val::Bool(b) => b as i128,
              _ => return Err(Stop::Unsupported("cast")),
            };
            let t = int_ty(ty).ok_or(Stop::Unsupported("cast to"))?;
            Val::Int(wrap(i, t), t)
          }
          CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) => match v {
            Val::Ref(mut p) => {
              let to = ty.builtin_deref(true);
              if to.is_some_and(|t| matches!(t.kind(), TyKind::Dynamic(..))) {
                // what it points to is found in memory when a method is called
              } else if p.slice.is_none()
                && let Val::Arr(xs) = self.get(p.alloc, &p.path)?
                && ty
                  .builtin_deref(true)
                  .is_some_and(|t| matches!(t.kind(), TyKind::Slice(_)))
              {
                p.slice = Some((0, xs.len()));
              } else {
                return Err(Stop::Unsupported("unsize"));
              }
              Val::Ref(p)
            }
            v @ Val::Box(_) => v,
            _ => return Err(Stop::Unsupported("unsize")),
          },
          CastKind::PointerCoercion(
            ty::adjustment::PointerCoercion::ReifyFnPointer
            | ty::adjustment::PointerCoercion::ClosureFnPointer(_),
            _,
          ) => v,
          _ => return Err(Stop::Unsupported("cast kind")),
        }
      }
      Rvalue::BinaryOp(op, box_) => {
        let a = self.operand(&box_.0, body, f)?;
        let b = self.operand(&box_.1, body, f)?;
        binop(*op, a, b)?
      }
      Rvalue::UnaryOp(op, a) => {
        let a = self.operand(a, body, f)?;
        match (op, a) {
          (UnOp::Not, Val::Bool(b)) => Val::Bool(!b),
          (UnOp::Not, Val::Int(i, t)) => Val::Int(wrap(!i, t), t),
          (UnOp::Neg, Val::Int(i, t)) => Val::Int(wrap(-i, t), t),
          (UnOp::PtrMetadata, Val::Ref(p)) => match p.slice {
            Some((_, n)) => usize_val(n),
            None => unit(),
          },
          _ => return Err(Stop::Unsupported("unop")),
        }
      }
      Rvalue::Discriminant(p) => {
        let (alloc, path, _) = self.resolve(*p, f)?;
        match self.get(alloc, &path)? {
          Val::Agg(Some(adt), n, _) if adt.is_enum() => {
            let d = adt.discriminant_for_variant(self.tcx, (*n as usize).into());
            let t = int_ty(d.ty).ok_or(Stop::Unsupported("discr"))?;
            Val::Int(wrap(d.val as i128, t), t)
          }
          _ => return Err(Stop::Invalid("discriminant")),
        }
      }
      Rvalue::Aggregate(kind, ops) => {
        let mut vs = vec![];
        for o in ops.iter() {
          vs.push(self.operand(o, body, f)?);
        }
        match &**kind {
          AggregateKind::Array(_) => Val::Arr(vs),
          AggregateKind::Tuple => Val::Agg(None, 0, vs),
          AggregateKind::Adt(d, v, _, _, None) => {
            Val::Agg(Some(self.tcx.adt_def(*d)), v.as_u32(), vs)
          }
          AggregateKind::Closure(d, args) => Val::Clo(*d, self.mono(f, *args), vs),
          _ => return Err(Stop::Unsupported("aggregate")),
        }
      }
      _ => return Err(Stop::Unsupported("rvalue")),
    })
  }

  // ---------------------------------------------------------------- calls

  /// Returns the value and whether the callee was opaque (a library function).
  fn call(&mut self, fv: Val<'tcx>, mut args: Vec<Val<'tcx>>) -> R<(Val<'tcx>, bool)> {
    let tcx = self.tcx;
    let (def, generic) = match fv {
      Val::Fn(d, a) => (d, a),
      Val::Clo(..) => return self.call_closure(fv, args).map(|v| (v, false)),
      _ => return Err(Stop::Unsupported("callee")),
    };
    if let Some(tr) = tcx.trait_of_assoc(def)
      && tcx.fn_trait_kind_from_def_id(tr).is_some()
    {
      let mut callee = args.remove(0);
      let tuple = match args.pop() {
        Some(Val::Agg(None, 0, vs)) => vs,
        _ => return Err(Stop::Unsupported("fn call args")),
      };
      loop {
        match callee {
          Val::Ref(ref p) => {
            let (alloc, path) = (p.alloc, p.path.clone());
            match self.get(alloc, &path)? {
              Val::Ref(q) => callee = Val::Ref(q.clone()),
              Val::Clo(..) => return self.call_closure(callee, tuple).map(|v| (v, false)),
              Val::Fn(d, a) => {
                let g = Val::Fn(*d, a);
                return self.call(g, tuple);
              }
              Val::Box(_) => {
                let mut q = p.clone();
                q.path.push(Elem::Unbox);
                callee = Val::Ref(q);
              }
              _ => return Err(Stop::Unsupported("callee ref")),
            }
          }
          Val::Clo(..) => return self.call_closure(callee, tuple).map(|v| (v, false)),
          Val::Fn(..) => return self.call(callee, tuple),
          _ => return Err(Stop::Unsupported("callee value")),
        }
      }
    }
    if let Some(v) = self.builtin(def, generic, &mut args)? {
      return Ok((v, true));
    }
    let inst = match Instance::try_resolve(tcx, self.env(), def, generic) {
      Ok(Some(i)) => i,
      _ => return Err(Stop::Unsupported("unresolved")),
    };
    match inst.def {
      InstanceKind::Item(d) if d.is_local() => {
        self.exec(d, inst.args, args, false).map(|v| (v, false))
      }
      InstanceKind::Virtual(d, _) => {
        // the receiver tells its type
        let p = self.deref_to(&args[0])?;
        let adt = match self.get(p.alloc, &p.path)? {
          Val::Agg(Some(adt), ..) => *adt,
          _ => return Err(Stop::Unsupported("receiver")),
        };
        if tcx.generics_of(adt.did()).own_counts().types > 0 {
          return Err(Stop::Unsupported("generic receiver"));
        }
        let slf = tcx.erase_regions(tcx.type_of(adt.did()).instantiate_identity());
        let mut ga: Vec<_> = generic.iter().collect();
        ga[0] = slf.into();
        let ga = tcx.mk_args(&ga);
        match Instance::try_resolve(tcx, self.env(), d, ga) {
          Ok(Some(i)) => match i.def {
            InstanceKind::Item(d) if d.is_local() => {
              self.exec(d, i.args, args, false).map(|v| (v, false))
            }
            _ => Err(Stop::Unsupported("method")),
          },
          _ => Err(Stop::Unsupported("method")),
        }
      }
      _ => Err(Stop::Unsupported("library call")),
    }
  }

  fn call_closure(&mut self, callee: Val<'tcx>, tuple: Vec<Val<'tcx>>) -> R<Val<'tcx>> {
    let (d, args, by_ref) = match &callee {
      Val::Clo(d, a, _) => (*d, *a, false),
      Val::Ref(p) => match self.get(p.alloc, &p.path)? {
        Val::Clo(d, a, _) => (*d, *a, true),
        _ => return Err(Stop::Unsupported("closure ref")),
      },
      _ => return Err(Stop::Unsupported("closure")),
    };
    let body = &get_body_with_borrowck_facts(
      self.tcx,
      d.as_local().ok_or(Stop::Unsupported("closure not local"))?,
    )
    .body;
    let wants_ref = body.local_decls[Local::from_usize(1)].ty.is_ref();
    let slf = match (by_ref, wants_ref) {
      (true, true) => callee,
      (false, false) => callee,
      (false, true) => {
        let alloc = self.alloc(callee);
        Val::Ref(Ptr { alloc, path: vec![], mutable: true, slice: None })
      }
      (true, false) => return Err(Stop::Unsupported("closure self")),
    };
    let mut all = vec![slf];
    all.extend(tuple);
    self.exec_body(body, d, args, all, false)
  }

  fn deref_to(&self, v: &Val<'tcx>) -> R<Ptr> {
    // follow references until something that is not a reference
    let mut p = match v {
      Val::Ref(p) => p.clone(),
      _ => return Err(Stop::Unsupported("expected ref")),
    };
    while p.slice.is_none()
      && let Val::Ref(q) = self.get(p.alloc, &p.path)?
    {
      p = q.clone();
    }
    Ok(p)
  }

  fn option(&self, v: Option<Val<'tcx>>) -> Val<'tcx> {
    let adt = self
      .tcx
      .adt_def(self.tcx.lang_items().option_type().expect("Option"));
    match v {
      Some(v) => Val::Agg(Some(adt), 1, vec![v]),
      None => Val::Agg(Some(adt), 0, vec![]),
    }
  }

  fn builtin(
    &mut self,
    def: DefId,
    generic: GenericArgsRef<'tcx>,
    args: &mut Vec<Val<'tcx>>,
  ) -> R<Option<Val<'tcx>>> {
    if def.is_local() {
      return Ok(None);
    }
    let tcx = self.tcx;
    let name = tcx.def_path_str(def);
    let name = name.as_str();
    let elem = |p: &Ptr, i: usize| {
      let mut q = p.clone();
      q.slice = None;
      q.path.push(Elem::Index(i));
      q
    };
    let v = match name {
      "std::boxed::Box::<T>::new" | "std::boxed::box_new" => Val::Box(Box::new(args.remove(0))),
      "std::vec::Vec::<T>::new" => Val::Arr(vec![]),
      "std::vec::Vec::<T, A>::push" => {
        let x = args.pop().unwrap();
        let p = self.deref_to(&args[0])?;
        let d = self.digest(&x, 0, false).map(|d| d.0).unwrap_or(0);
        if let Some((limit, h)) = &mut self.watch
          && p.alloc < *limit
        {
          (p.alloc, &p.path, d).hash(h);
        }
        match self.get_mut(p.alloc, &p.path)? {
          Val::Arr(xs) => xs.push(x),
          _ => return Err(Stop::Invalid("push")),
        }
        unit()
      }
      "std::vec::Vec::<T, A>::pop" => {
        let p = self.deref_to(&args[0])?;
        let x = match self.get_mut(p.alloc, &p.path)? {
          Val::Arr(xs) => xs.pop(),
          _ => return Err(Stop::Invalid("pop")),
        };
        self.option(x)
      }
      "std::vec::Vec::<T, A>::len" | "core::slice::<impl [T]>::len" => {
        let p = self.deref_to(&args[0])?;
        match (p.slice, self.get(p.alloc, &p.path)?) {
          (Some((_, n)), _) => usize_val(n),
          (None, Val::Arr(xs)) => usize_val(xs.len()),
          _ => return Err(Stop::Invalid("len")),
        }
      }
      "std::vec::Vec::<T, A>::is_empty" | "core::slice::<impl [T]>::is_empty" => {
        let p = self.deref_to(&args[0])?;
        match (p.slice, self.get(p.alloc, &p.path)?) {
          (Some((_, n)), _) => Val::Bool(n == 0),
          (None, Val::Arr(xs)) => Val::Bool(xs.is_empty()),
          _ => return Err(Stop::Invalid("len")),
        }
      }
      "std::ops::Index::index" | "std::ops::IndexMut::index_mut" => {
        let mutable = name.ends_with("_mut");
        let mut p = self.deref_to(&args[0])?;
        let i = match &args[1] {
          Val::Int(i, _) => *i as usize,
          Val::Agg(Some(a), 0, fs)
            if fs.is_empty() && Some(a.did()) == tcx.lang_items().range_full_struct() =>
          {
            p.slice = Some(self.extent(&p)?);
            p.mutable = mutable;
            return Ok(Some(Val::Ref(p)));
          }
          _ => return Err(Stop::Unsupported("index kind")),
        };
        let n = match self.get(p.alloc, &p.path)? {
          Val::Arr(xs) => xs.len(),
          _ => return Err(Stop::Unsupported("index of")),
        };
        if i >= n {
          return Err(Stop::Panic);
        }
        let mut q = elem(&p, i);
        q.mutable = mutable;
        Val::Ref(q)
      }
      "core::slice::<impl [T]>::get" | "core::slice::<impl [T]>::get_mut" => {
        let mutable = name.ends_with("_mut");
        let p = self.deref_to(&args[0])?;
        let i = match &args[1] {
          Val::Int(i, _) => *i as usize,
          _ => return Err(Stop::Unsupported("index kind")),
        };
        let (st, n) = self.extent(&p)?;
        if i < n {
          let mut q = elem(&p, st + i);
          q.mutable = mutable;
          self.option(Some(Val::Ref(q)))
        } else {
          self.option(None)
        }
      }
      "std::ops::Deref::deref" | "std::ops::DerefMut::deref_mut" => {
        let mut p = self.deref_to(&args[0])?;
        p.mutable = name.ends_with("_mut");
        match self.get(p.alloc, &p.path)? {
          Val::Arr(xs) => {
            p.slice = Some((0, xs.len()));
            Val::Ref(p)
          }
          Val::Box(_) => {
            p.path.push(Elem::Unbox);
            Val::Ref(p)
          }
          _ => return Err(Stop::Unsupported("deref of")),
        }
      }
      "core::slice::<impl [T]>::split_at_mut" => {
        let p = self.deref_to(&args[0])?;
        let m = match &args[1] {
          Val::Int(i, _) => *i as usize,
          _ => return Err(Stop::Invalid("split")),
        };
        let (st, n) = self.extent(&p)?;
        if m > n {
          return Err(Stop::Panic);
        }
        let mut a = p.clone();
        a.slice = Some((st, m));
        let mut b = p;
        b.slice = Some((st + m, n - m));
        Val::Agg(None, 0, vec![Val::Ref(a), Val::Ref(b)])
      }
      "core::slice::<impl [T]>::iter" | "core::slice::<impl [T]>::iter_mut" => {
        let mut p = self.deref_to(&args[0])?;
        p.mutable = name.ends_with("_mut");
        let (st, n) = self.extent(&p)?;
        p.slice = None;
        Val::Iter(p, st, st + n)
      }
      "std::iter::IntoIterator::into_iter" => match args.remove(0) {
        v @ (Val::Agg(..) | Val::Iter(..)) => v,
        Val::Ref(mut p) => {
          let (st, n) = self.extent(&p)?;
          p.slice = None;
          Val::Iter(p, st, st + n)
        }
        _ => return Err(Stop::Unsupported("into_iter")),
      },
      "std::iter::Iterator::next" => {
        let p = self.deref_to(&args[0])?;
        let out = match self.get_mut(p.alloc, &p.path)? {
          Val::Agg(Some(_), 0, fs) if fs.len() == 2 => match (&fs[0], &fs[1]) {
            (Val::Int(a, t), Val::Int(b, _)) => {
              if a < b {
                let (a, t) = (*a, *t);
                fs[0] = Val::Int(a + 1, t);
                Some(Val::Int(a, t))
              } else {
                None
              }
            }
            _ => return Err(Stop::Unsupported("next")),
          },
          Val::Iter(q, i, n) => {
            if i < n {
              let r = elem(q, *i);
              *i += 1;
              Some(Val::Ref(r))
            } else {
              None
            }
          }
          _ => return Err(Stop::Unsupported("next of")),
        };
        self.option(out)
      }
      "std::clone::Clone::clone" => {
        let p = self.deref_to(&args[0])?;
        // local impls are interpreted
        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env(), def, generic)
          && let InstanceKind::Item(d) = i.def
          && d.is_local()
        {
          return Ok(None);
        }
        let v = self.get(p.alloc, &p.path)?.clone();
        match v {
          Val::Int(..) | Val::Bool(..) => v,
          _ => return Err(Stop::Unsupported("clone")),
        }
      }
      "std::cmp::PartialEq::eq" | "std::cmp::PartialEq::ne" => {
        if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env(), def, generic)
          && let InstanceKind::Item(d) = i.def
          && d.is_local()
        {
          return Ok(None);
        }
        let a = self.deref_to(&args[0])?;
        let b = self.deref_to(&args[1])?;
        let (a, b) = (self.get(a.alloc, &a.path)?, self.get(b.alloc, &b.path)?);
        match (a, b) {
          (Val::Int(a, _), Val::Int(b, _)) => Val::Bool((a == b) == name.ends_with("eq")),
          (Val::Bool(a), Val::Bool(b)) => Val::Bool((a == b) == name.ends_with("eq")),
          _ => return Err(Stop::Unsupported("eq")),
        }
      }
      "std::cmp::PartialOrd::lt" | "std::cmp::PartialOrd::gt" => {
        let a = self.deref_to(&args[0])?;
        let b = self.deref_to(&args[1])?;
        match (self.get(a.alloc, &a.path)?, self.get(b.alloc, &b.path)?) {
          (Val::Int(a, _), Val::Int(b, _)) => {
            Val::Bool(if name.ends_with("lt") { a < b } else { a > b })
          }
          _ => return Err(Stop::Unsupported("cmp")),
        }
      }
      "std::ops::AddAssign::add_assign" => {
        let p = self.deref_to(&args[0])?;
        let x = match &args[1] {
          Val::Int(i, _) => *i,
          _ => return Err(Stop::Unsupported("add_assign")),
        };
        let n = match self.get(p.alloc, &p.path)? {
          Val::Int(i, t) => Val::Int(wrap(i + x, *t), *t),
          _ => return Err(Stop::Unsupported("add_assign")),
        };
        self.write(p.alloc, &p.path, n)?;
        unit()
      }
      "std::mem::swap" => {
        let (a, b) = match (&args[0], &args[1]) {
          (Val::Ref(a), Val::Ref(b)) => (a.clone(), b.clone()),
          _ => return Err(Stop::Invalid("swap")),
        };
        let x = self.get(a.alloc, &a.path)?.clone();
        let y = self.get(b.alloc, &b.path)?.clone();
        self.write(a.alloc, &a.path, y)?;
        self.write(b.alloc, &b.path, x)?;
        unit()
      }
      "std::mem::replace" => {
        let x = args.pop().unwrap();
        let a = match &args[0] {
          Val::Ref(a) => a.clone(),
          _ => return Err(Stop::Invalid("replace")),
        };
        let y = self.get(a.alloc, &a.path)?.clone();
        self.write(a.alloc, &a.path, x)?;
        y
      }
      "std::option::Option::<T>::take" => {
        let a = match &args[0] {
          Val::Ref(a) => a.clone(),
          _ => return Err(Stop::Invalid("take")),
        };
        let y = self.get(a.alloc, &a.path)?.clone();
        let none = self.option(None);
        self.write(a.alloc, &a.path, none)?;
        y
      }
      "std::option::Option::<T>::is_some" | "std::option::Option::<T>::is_none" => {
        let a = self.deref_to(&args[0])?;
        match self.get(a.alloc, &a.path)? {
          Val::Agg(_, n, _) => Val::Bool((*n == 1) == name.ends_with("some")),
          _ => return Err(Stop::Invalid("is_some")),
        }
      }
      "std::option::Option::<T>::as_ref" | "std::option::Option::<T>::as_mut" => {
        let a = self.deref_to(&args[0])?;
        let some = match self.get(a.alloc, &a.path)? {
          Val::Agg(_, n, _) => *n == 1,
          _ => return Err(Stop::Invalid("as_ref")),
        };
        if some {
          let mut q = a;
          q.path.push(Elem::Field(0));
          q.mutable = name.ends_with("mut");
          self.option(Some(Val::Ref(q)))
        } else {
          self.option(None)
        }
      }
      "std::option::Option::<T>::map" => {
        let f = args.pop().unwrap();
        match args.remove(0) {
          Val::Agg(_, 1, mut fs) => {
            let x = fs.remove(0);
            let y = match f {
              Val::Clo(..) => self.call_closure(f, vec![x])?,
              _ => self.call(f, vec![x])?.0,
            };
            self.option(Some(y))
          }
          v => v,
        }
      }
      "std::ops::Try::branch" => {
        let some = tcx
          .lang_items()
          .get(rustc_hir::LangItem::ControlFlowContinue)
          .ok_or(Stop::Unsupported("ControlFlow"))?;
        let mut adt = tcx.parent(some);
        if !matches!(tcx.def_kind(adt), rustc_hir::def::DefKind::Enum) {
          adt = tcx.parent(adt);
        }
        let adt = tcx.adt_def(adt);
        match args.remove(0) {
          Val::Agg(Some(a), 1, fs) if Some(a.did()) == tcx.lang_items().option_type() => {
            Val::Agg(Some(adt), 0, fs)
          }
          Val::Agg(Some(a), 0, _) if Some(a.did()) == tcx.lang_items().option_type() => {
            let none = self.option(None);
            Val::Agg(Some(adt), 1, vec![none])
          }
          _ => return Err(Stop::Unsupported("try")),
        }
      }
      "std::ops::FromResidual::from_residual" => match args.remove(0) {
        v @ Val::Agg(Some(_), 0, _) => v,
        _ => return Err(Stop::Unsupported("residual")),
      },
      "std::option::Option::<T>::unwrap" => match args.remove(0) {
        Val::Agg(_, 1, mut fs) => fs.remove(0),
        _ => return Err(Stop::Panic),
      },
      "std::option::Option::<T>::unwrap_or" => {
        let d = args.pop().unwrap();
        match args.remove(0) {
          Val::Agg(_, 1, mut fs) => fs.remove(0),
          _ => d,
        }
      }
      _ if name.starts_with("core::num::<impl ") => {
        let op = name.rsplit("::").next().unwrap();
        let xs: Vec<(i128, IntTy)> = args
          .iter()
          .filter_map(|a| match a {
            Val::Int(i, t) => Some((*i, *t)),
            _ => None,
          })
          .collect();
        match (op, &xs[..]) {
          ("wrapping_add", [(a, t), (b, _)]) => Val::Int(wrap(a + b, *t), *t),
          ("wrapping_sub", [(a, t), (b, _)]) => Val::Int(wrap(a - b, *t), *t),
          ("wrapping_mul", [(a, t), (b, _)]) => Val::Int(wrap(a * b, *t), *t),
          _ => return Err(Stop::Unsupported("num method")),
        }
      }
      _ => {
        if std::env::var("FLOWSIM_UNSUPPORTED").is_ok()
          && !matches!(Instance::try_resolve(tcx, self.env(), def, generic),
               Ok(Some(i)) if i.def_id().is_local())
        {
          eprintln!("UNSUPPORTED {name}");
        }
        return Ok(None);
      }
    };
    Ok(Some(v))
  }

  fn extent(&self, p: &Ptr) -> R<(usize, usize)> {
    match (p.slice, self.get(p.alloc, &p.path)?) {
      (Some(x), _) => Ok(x),
      (None, Val::Arr(xs)) => Ok((0, xs.len())),
      _ => Err(Stop::Unsupported("extent")),
    }
  }

  // ---------------------------------------------------------------- inputs

  /// A random value of type `ty`, allocating what its references point to.
  pub fn gen_val(&mut self, ty: Ty<'tcx>, rng: &mut Rng, depth: u32) -> R<Val<'tcx>> {
    let tcx = self.tcx;
    if depth > 6 {
      return Err(Stop::Unsupported("deep input"));
    }
    Ok(match ty.kind() {
      TyKind::Bool => Val::Bool(rng.chance(1, 2)),
      TyKind::Int(_) | TyKind::Uint(_) => {
        let t = int_ty(ty).ok_or(Stop::Unsupported("int"))?;
        Val::Int(rng.below(5) as i128, t)
      }
      TyKind::Tuple(ts) => {
        let mut vs = vec![];
        for t in ts.iter() {
          vs.push(self.gen_val(t, rng, depth + 1)?);
        }
        Val::Agg(None, 0, vs)
      }
      TyKind::Array(t, n) => {
        let n = n.try_to_target_usize(tcx).ok_or(Stop::Unsupported("array"))?;
        let mut vs = vec![];
        for _ in 0 .. n {
          vs.push(self.gen_val(*t, rng, depth + 1)?);
        }
        Val::Arr(vs)
      }
      TyKind::Ref(_, t, m) => {
        if let TyKind::Slice(e) = t.kind() {
          let n = 1 + rng.below(3);
          let mut vs = vec![];
          for _ in 0 .. n {
            vs.push(self.gen_val(*e, rng, depth + 1)?);
          }
          let alloc = self.alloc(Val::Arr(vs));
          return Ok(Val::Ref(Ptr {
            alloc,
            path: vec![],
            mutable: m.is_mut(),
            slice: Some((0, n)),
          }));
        }
        let v = self.gen_val(*t, rng, depth + 1)?;
        let alloc = self.alloc(v);
        Val::Ref(Ptr { alloc, path: vec![], mutable: m.is_mut(), slice: None })
      }
      TyKind::Adt(..) if ty.is_box() => {
        Val::Box(Box::new(self.gen_val(ty.boxed_ty().unwrap(), rng, depth + 1)?))
      }
      TyKind::Adt(adt, args) => {
        let name = tcx.def_path_str(adt.did());
        if name == "std::vec::Vec" {
          let n = rng.below(4);
          let mut vs = vec![];
          for _ in 0 .. n {
            vs.push(self.gen_val(args.type_at(0), rng, depth + 1)?);
          }
          return Ok(Val::Arr(vs));
        }
        if adt.is_union() || (!adt.did().is_local() && name != "std::option::Option") {
          return Err(Stop::Unsupported("input adt"));
        }
        let n = adt.variants().len();
        if n == 0 {
          return Err(Stop::Unsupported("empty"));
        }
        let vi = rng.below(n);
        let variant = adt.variant(vi.into());
        let mut vs = vec![];
        for f in variant.fields.iter() {
          let t = tcx
            .try_normalize_erasing_regions(self.env(), f.ty(tcx, args))
            .map_err(|_| Stop::Unsupported("field ty"))?;
          vs.push(self.gen_val(t, rng, depth + 1)?);
        }
        Val::Agg(Some(*adt), vi as u32, vs)
      }
      _ => return Err(Stop::Unsupported("input type")),
    })
  }
}

pub fn wrap(i: i128, t: IntTy) -> i128 {
  if t.bits >= 128 {
    return i;
  }
  let m = 1i128 << t.bits;
  let mut x = i.rem_euclid(m);
  if t.signed && x >= m / 2 {
    x -= m;
  }
  x
}

pub fn int_ty(ty: Ty<'_>) -> Option<IntTy> {
  Some(match ty.kind() {
    TyKind::Int(i) => IntTy { bits: i.bit_width().unwrap_or(64) as u8, signed: true },
    TyKind::Uint(i) => IntTy { bits: i.bit_width().unwrap_or(64) as u8, signed: false },
    TyKind::Char => IntTy { bits: 32, signed: false },
    _ => return None,
  })
}

fn usize_val<'tcx>(n: usize) -> Val<'tcx> {
  Val::Int(n as i128, IntTy { bits: 64, signed: false })
}

fn scalar_to_val<'tcx>(s: ty::ScalarInt, ty: Ty<'tcx>) -> Option<Val<'tcx>> {
  if ty.is_bool() {
    return Some(Val::Bool(s.try_to_bool().ok()?));
  }
  let t = int_ty(ty)?;
  Some(Val::Int(wrap(s.to_bits(s.size()) as i128, t), t))
}

fn binop<'tcx>(op: BinOp, a: Val<'tcx>, b: Val<'tcx>) -> R<Val<'tcx>> {
  use BinOp::*;
  if let (Val::Bool(x), Val::Bool(y)) = (&a, &b) {
    return Ok(Val::Bool(match op {
      Eq => x == y,
      Ne => x != y,
      BitAnd => *x & *y,
      BitOr => *x | *y,
      BitXor => *x ^ *y,
      Lt => x < y,
      Le => x <= y,
      Gt => x > y,
      Ge => x >= y,
      _ => return Err(Stop::Unsupported("bool op")),
    }));
  }
  let (Val::Int(x, t), Val::Int(y, _)) = (a, b) else {
    return Err(Stop::Unsupported("binop operands"));
  };
  let w = |v: i128| Val::Int(wrap(v, t), t);
  let ov = |v: i128| Val::Agg(None, 0, vec![Val::Int(wrap(v, t), t), Val::Bool(wrap(v, t) != v)]);
  Ok(match op {
    Add | AddUnchecked => w(x + y),
    Sub | SubUnchecked => w(x - y),
    Mul | MulUnchecked => w(x * y),
    AddWithOverflow => ov(x + y),
    SubWithOverflow => ov(x - y),
    MulWithOverflow => ov(x * y),
    Div => {
      if y == 0 {
        return Err(Stop::Panic);
      }
      w(x / y)
    }
    Rem => {
      if y == 0 {
        return Err(Stop::Panic);
      }
      w(x % y)
    }
    BitXor => w(x ^ y),
    BitAnd => w(x & y),
    BitOr => w(x | y),
    Shl | ShlUnchecked => w(x << (y.rem_euclid(t.bits as i128))),
    Shr | ShrUnchecked => w(x >> (y.rem_euclid(t.bits as i128))),
    Eq => Val::Bool(x == y),
    Ne => Val::Bool(x != y),
    Lt => Val::Bool(x < y),
    Le => Val::Bool(x <= y),
    Gt => Val::Bool(x > y),
    Ge => Val::Bool(x >= y),
    _ => return Err(Stop::Unsupported("binop")),
  })
}
