//! Generator of safe Rust programs. It tracks loans and moves well enough that
//! nearly all functions pass the borrow checker; the others are skipped.

use std::fmt::Write;

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
  I,
  U, // usize-like fuel, only as parameter
  B,
  S,
  N,
  Tup,
  E,
  O,
  A,
  Bx,
  BxN,
  V,
  R(bool, Box<Ty>),
  P,
  Q,
  Sec,
  Ins,
  Sec2,
  Ins2,
  Wr,
  /// fields that are private to a module
  H,
  HR,
  /// private and public fields alternate, both references have one lifetime
  HX,
  /// a generic struct
  W(Box<Ty>),
  /// Option<&mut i32>
  OR,
  /// slice, behind references only
  Sl,
}
use Ty::*;

fn r(m: bool, t: Ty) -> Ty {
  R(m, Box::new(t))
}
fn w(t: Ty) -> Ty {
  W(Box::new(t))
}

impl Ty {
  fn text(&self) -> String {
    match self {
      I => "i32".into(),
      U => "u32".into(),
      B => "bool".into(),
      S => "S".into(),
      N => "N".into(),
      Tup => "(i32, i32)".into(),
      E => "E".into(),
      O => "Option<i32>".into(),
      A => "[i32; 3]".into(),
      Bx => "Box<i32>".into(),
      BxN => "Box<N>".into(),
      V => "Vec<i32>".into(),
      R(true, t) => format!("&mut {}", t.text()),
      R(false, t) => format!("&{}", t.text()),
      P => "P<'_>".into(),
      Q => "Q<'_>".into(),
      Sec => "Sec".into(),
      Ins => "Ins".into(),
      Sec2 => "Sec2".into(),
      Ins2 => "Ins2".into(),
      Wr => "Wr".into(),
      H => "H".into(),
      HR => "HR<'_>".into(),
      HX => "HX<'_>".into(),
      W(t) => format!("W<{}>", t.text()),
      OR => "Option<&mut i32>".into(),
      Sl => "[i32]".into(),
    }
  }
  fn is_copy(&self) -> bool {
    matches!(self, I | U | B | S | Tup | E | O | A | R(false, _))
  }
  fn has_ref(&self) -> bool {
    match self {
      R(..) | P | Q | HR | HX | OR => true,
      W(t) => t.has_ref(),
      _ => false,
    }
  }
}

#[derive(Clone)]
struct Var {
  name: String,
  ty: Ty,
  depth: usize,
  dead: bool,
  loans: Vec<(usize, bool)>,
  /// never assign (loop counters, fuel)
  fixed: bool,
}

#[derive(Clone, Debug)]
pub struct Sig {
  pub name: String,
  pub params: Vec<Ty>,
  pub ret: Ty,
  pub fuel: bool,
}

#[derive(Clone)]
struct Pl {
  text: String,
  ty: Ty,
  root: usize,
  write: bool,
}

#[derive(Clone, Debug)]
pub struct Opts {
  /// constructs that may appear
  pub closures: bool,
  pub vecs: bool,
  pub refs: bool,
  pub structs_with_refs: bool,
  pub loops: bool,
  pub calls: bool,
  pub enums: bool,
  pub early: bool,
  /// private fields, generics, traits
  pub abs: bool,
  /// nested data, partial moves, slices
  pub more: bool,
  pub ifc: bool,
  /// the prelude has a function with a flow
  pub open: bool,
  pub size: usize,
  pub helpers: usize,
}

impl Opts {
  pub fn sample(rng: &mut Rng, ifc: bool) -> Self {
    Opts {
      closures: rng.chance(1, 3),
      vecs: rng.chance(1, 3),
      refs: rng.chance(4, 5),
      structs_with_refs: rng.chance(1, 3),
      loops: rng.chance(2, 3),
      calls: rng.chance(2, 3),
      enums: rng.chance(1, 2),
      early: rng.chance(1, 2),
      abs: rng.chance(1, 3),
      more: rng.chance(1, 2),
      ifc,
      open: false,
      size: rng.range(3, 14),
      helpers: rng.below(4),
    }
  }
}

pub const PRELUDE: &str = r#"
#[derive(Clone, Copy)]
pub struct S { pub a: i32, pub b: i32 }
pub struct N { pub s: S, pub c: i32, pub v: (i32, bool) }
#[derive(Clone, Copy)]
pub enum E { A(i32), B { x: i32, y: i32 }, C }
pub struct P<'a> { pub r: &'a mut i32, pub k: i32 }
pub struct Q<'a> { pub p: P<'a>, pub s: &'a S }
pub fn l_add(a: i32, b: i32) -> i32 { a ^ b }
pub fn l_is(a: i32) -> bool { a > 1 }
pub fn l_upd(r: &mut i32, v: i32) { *r = v; }
pub fn l_acc(r: &mut i32, v: &i32) -> i32 { *r ^= *v; *r }
pub fn l_fst(s: &S) -> &i32 { &s.a }
pub fn l_snd_mut(s: &mut S) -> &mut i32 { &mut s.b }
pub fn l_pick<'a, 'b>(x: &'a mut i32, y: &'b mut i32, c: bool) -> &'a mut i32 { if c { *y = 1; } x }
pub fn l_either<'a>(x: &'a mut i32, y: &'a mut i32, c: bool) -> &'a mut i32 { if c { x } else { y } }
pub fn l_mk(a: i32, b: i32) -> S { S { a, b } }
pub fn l_mkn(s: S, c: i32) -> N { N { s, c, v: (c, s.a > 0) } }
pub fn l_sum(n: &N) -> i32 { n.s.a ^ n.c }
pub fn l_eat(n: N) -> i32 { n.s.b ^ n.v.0 }
pub fn l_id<T>(t: T) -> T { t }
pub fn l_mkp<'a>(r: &'a mut i32, k: i32) -> P<'a> { P { r, k } }
pub fn l_setp(p: &mut P<'_>, v: i32) { *p.r = v; p.k = v; }
pub fn l_store<'a>(p: &mut P<'a>, r: &'a mut i32) { p.r = r; }
pub fn l_apply<F: FnMut(i32) -> i32>(mut f: F, x: i32) -> i32 { f(x) }
pub fn l_opt(c: bool, v: i32) -> Option<i32> { if c { Some(v) } else { None } }
impl S {
  pub fn flip(&mut self) { let t = self.a; self.a = self.b; self.b = t; }
  pub fn get(&self) -> i32 { self.a ^ self.b }
  pub fn with(self, a: i32) -> S { S { a, b: self.b } }
}
impl N {
  pub fn s_mut(&mut self) -> &mut S { &mut self.s }
  pub fn set(&mut self, v: i32) -> bool { let o = self.c > v; self.c = v; o }
}
pub mod m {
  pub struct H { pub a: i32, b: i32 }
  impl H {
    pub fn new(a: i32, b: i32) -> H { H { a, b } }
    pub fn get(&self) -> i32 { self.b }
    pub fn set(&mut self, v: i32) { self.b = v; }
    pub fn b_mut(&mut self) -> &mut i32 { &mut self.b }
    pub fn fin(self) -> i32 { self.b }
  }
  pub struct HR<'a> { r: &'a mut i32, pub k: i32 }
  impl<'a> HR<'a> {
    pub fn new(r: &'a mut i32, k: i32) -> HR<'a> { HR { r, k } }
    pub fn get(&self) -> i32 { *self.r }
    pub fn put(&mut self, v: i32) { *self.r = v; }
    pub fn hold(&mut self, r: &'a mut i32) { self.r = r; }
  }
  pub struct HX<'a> { k: i32, pub r: &'a mut i32, z: i32, pub s: &'a mut i32 }
  impl<'a> HX<'a> {
    pub fn new(r: &'a mut i32, s: &'a mut i32, k: i32) -> HX<'a> { HX { k, r, z: k, s } }
    pub fn get(&self) -> i32 { self.k ^ *self.r }
    pub fn put(&mut self, v: i32) { self.z = v; *self.s = v; }
    pub fn z(self) -> i32 { self.z }
  }
}
pub use m::{H, HR, HX};
pub struct W<T> { pub t: T, pub k: i32 }
impl<T> W<T> {
  pub fn get(&self) -> &T { &self.t }
  pub fn t_mut(&mut self) -> &mut T { &mut self.t }
  pub fn put(&mut self, t: T) -> T { std::mem::replace(&mut self.t, t) }
  pub fn fin(self) -> T { self.t }
}
pub trait Tr { fn ap(&mut self, v: i32) -> i32; fn rd(&self) -> i32; }
impl Tr for S {
  fn ap(&mut self, v: i32) -> i32 { self.a = v; self.b }
  fn rd(&self) -> i32 { self.a }
}
impl Tr for N {
  fn ap(&mut self, v: i32) -> i32 { let o = self.c; self.c ^= v; o }
  fn rd(&self) -> i32 { self.s.b }
}
impl Tr for P<'_> {
  fn ap(&mut self, v: i32) -> i32 { *self.r ^= v; self.k }
  fn rd(&self) -> i32 { *self.r }
}
pub fn l_dyn(t: &mut dyn Tr, v: i32) -> i32 { t.ap(v) }
pub fn l_gen<T: Tr>(t: &mut T, v: i32) -> i32 { t.ap(v) }
pub fn l_rd<T: Tr + ?Sized>(t: &T) -> i32 { t.rd() }
pub fn l_own<T: Tr>(mut t: T, v: i32) -> i32 { t.ap(v) }
pub fn l_ref(t: &dyn Tr) -> i32 { t.rd() }
pub fn l_sub(a: i32, b: i32) -> i32 { if b > 1 { a } else { b } }
pub fn l_getp(p: &mut P<'_>) -> i32 { *p.r }
pub fn l_peekp(p: &P<'_>) -> i32 { *p.r ^ p.k }
pub fn l_rr(p: &mut &mut i32) -> i32 { **p }
pub fn l_rw(p: &mut &mut i32, v: i32) { **p = v; }
pub fn l_rs(p: &&S) -> i32 { p.a ^ p.b }
pub fn l_put(p: &mut (i32, i32), v: i32) { p.0 = v; p.1 ^= v; }
pub fn l_fill(s: &mut [i32], v: i32) { for x in s.iter_mut() { *x = v; } }
pub fn l_at(s: &[i32], i: i32) -> i32 { s[(i & 1) as usize] }
pub fn l_call(f: &mut dyn FnMut(i32) -> i32, x: i32) -> i32 { f(x) }
pub fn l_pure(f: fn(i32, i32) -> i32, x: i32, y: i32) -> i32 { f(x, y) }
"#;

pub const PRELUDE_IFC: &str = r#"
pub struct Sec(pub i32);
pub struct Ins(pub i32);
impl flowistry_ifc_traits::Secure for Sec {}
impl flowistry_ifc_traits::Insecure for Ins {}
pub struct Sec2 { pub a: i32, pub b: i32 }
pub struct Ins2 { pub a: i32, pub b: i32 }
pub struct Wr { pub s: Sec, pub k: i32, pub i: Ins }
impl flowistry_ifc_traits::Secure for Sec2 {}
impl flowistry_ifc_traits::Insecure for Ins2 {}
pub fn s_peek2(s: &Sec2) -> i32 { s.a ^ s.b }
pub fn i_put(i: &mut Ins2, a: i32) { i.b = a; }
pub fn w_key(w: &Wr) -> i32 { w.k }
pub fn s_peek(s: &Sec) -> i32 { s.0 }
pub fn s_set(s: &mut Sec, v: i32) { s.0 = v; }
pub fn i_set(s: &mut Ins, v: i32) { s.0 = v; }
pub fn i_send(s: &Ins) -> i32 { s.0 }
"#;

pub struct Gen {
  rng: Rng,
  o: Opts,
  out: String,
  indent: usize,
  vars: Vec<Var>,
  depth: usize,
  /// variables below this index may not be killed or moved (loop bodies)
  floor: usize,
  in_loop: usize,
  next: usize,
  sigs: Vec<Sig>,
  ret: Ty,
  name: String,
  budget: isize,
  fuel: Option<String>,
}

/// A crate with `n` functions to analyse.
pub fn gen_crate(rng: &mut Rng, n: usize, ifc: bool) -> String {
  let mut out = String::new();
  out.push_str(PRELUDE.trim_start());
  if ifc {
    out.push_str(PRELUDE_IFC.trim_start());
  }
  let open = ifc && rng.chance(1, 2);
  if open {
    out.push_str("pub fn w_open(w: Wr) -> Ins { Ins(w.s.0) }\n");
  }
  for i in 0 .. n {
    let mut r2 = rng.fork();
    let mut o = Opts::sample(&mut r2, ifc);
    o.open = open;
    let mut sigs = vec![];
    for k in 0 .. o.helpers {
      sigs.push(gen_sig(&mut r2, &o, format!("h{i}_{k}"), true));
    }
    // functions that call each other only downwards
    if o.calls && r2.chance(1, 3) {
      for k in 0 .. r2.range(2, 5) {
        sigs.push(gen_sig(&mut r2, &o, format!("d{i}_{k}"), false));
      }
    }
    let top_fuel = r2.chance(1, 4);
    sigs.push(gen_sig(&mut r2, &o, format!("t{i}"), top_fuel));
    for k in 0 .. sigs.len() {
      let mut g = Gen {
        rng: r2.fork(),
        o: o.clone(),
        out: String::new(),
        indent: 0,
        vars: vec![],
        depth: 0,
        floor: 0,
        in_loop: 0,
        next: 0,
        sigs: sigs.clone(),
        ret: sigs[k].ret.clone(),
        name: sigs[k].name.clone(),
        budget: if k + 1 == sigs.len() { o.size as isize } else { o.size.min(6) as isize },
        fuel: None,
      };
      g.function(&sigs[k].clone());
      out.push_str(&g.out);
    }
  }
  out
}

fn gen_sig(rng: &mut Rng, o: &Opts, name: String, fuel: bool) -> Sig {
  let n = rng.range(1, 4);
  let mut params = vec![];
  let mut pool = vec![I, I, B, S, Tup];
  if o.enums {
    pool.extend([E, O]);
  }
  if o.refs {
    pool.extend([r(true, I), r(true, S), r(false, S), r(false, I), r(true, Tup), r(true, N), r(true, A)]);
    if o.vecs {
      pool.push(r(true, V));
    }
    if o.enums {
      pool.extend([r(true, O), r(true, E)]);
    }
  }
  if o.structs_with_refs {
    pool.extend([P, Q, r(true, P)]);
    if o.more {
      pool.extend([OR, r(true, r(true, I)), r(false, r(false, S))]);
    }
  }
  if o.abs {
    pool.extend([H, r(true, H), w(I), w(S)]);
    if o.refs {
      pool.extend([r(true, w(I)), r(false, H), HR, HX, HX, w(r(true, I))]);
    }
  }
  if o.more && o.refs {
    pool.extend([r(true, Sl), r(false, Sl)]);
  }
  pool.extend([N, A, Bx, BxN]);
  if o.vecs {
    pool.push(V);
  }
  if o.ifc {
    pool.extend([Sec, Sec, Sec2, Ins, Ins2, Wr, r(true, Ins), r(true, Ins2), r(true, Sec), r(false, Sec), r(true, Sec2), r(true, Wr), r(true, Ins)]);
  }
  for _ in 0 .. n {
    params.push(rng.pick(&pool).clone());
  }
  let mut rets = vec![I, I, I, B, S, Tup];
  if o.enums {
    rets.extend([O, E]);
  }
  rets.push(N);
  if o.abs {
    rets.extend([H, w(I)]);
  }
  if o.ifc {
    rets.extend([Ins, Ins, Sec, Ins2, Sec2, Wr]);
  }
  Sig { name, params, ret: rng.pick(&rets).clone(), fuel }
}

impl Gen {
  fn line(&mut self, s: &str) {
    for _ in 0 .. self.indent {
      self.out.push_str("  ");
    }
    self.out.push_str(s);
    self.out.push('\n');
  }

  fn fresh(&mut self, p: &str) -> String {
    self.next += 1;
    format!("{p}{}", self.next)
  }

  fn declare(&mut self, name: &str, ty: Ty, loans: Vec<(usize, bool)>) -> usize {
    self.vars.push(Var {
      name: name.into(),
      ty,
      depth: self.depth,
      dead: false,
      loans,
      fixed: false,
    });
    self.vars.len() - 1
  }

  fn function(&mut self, sig: &Sig) {
    let mut ps = vec![];
    if sig.fuel {
      ps.push("n: u32".to_string());
      let v = self.declare("n", U, vec![]);
      self.vars[v].fixed = true;
      self.fuel = Some("n".into());
    }
    for (i, t) in sig.params.iter().enumerate() {
      let name = format!("p{i}");
      ps.push(format!("mut {name}: {}", t.text()));
      self.declare(&name, t.clone(), vec![]);
    }
    self.line(&format!("pub fn {}({}) -> {} {{", sig.name, ps.join(", "), sig.ret.text()));
    self.indent += 1;
    if sig.fuel {
      let e = self.expr_simple(&sig.ret);
      self.line(&format!("if n == 0 {{ return {e}; }}"));
    }
    self.block();
    if sig.name.starts_with('d') {
      // go on down the chain
      let next: Vec<Sig> =
        self.sigs.iter().filter(|s| s.name.starts_with('d') && s.name > sig.name).cloned().collect();
      if let Some(s) = next.first() {
        for _ in 0 .. 3 {
          if let Some(c) = self.call(s) {
            let x = self.fresh("x");
            self.line(&format!("let mut {x}: {} = {c};", s.ret.text()));
            self.declare(&x, s.ret.clone(), vec![]);
            break;
          }
        }
      }
    }
    let ret = sig.ret.clone();
    let e = self.expr(&ret, 2);
    let e = e.unwrap_or_else(|| self.expr_simple(&ret));
    self.line(&e);
    self.indent -= 1;
    self.line("}");
  }

  // ------------------------------------------------------------ loans

  fn dependents(&self, root: usize, only_mut: bool) -> Vec<usize> {
    let mut out = vec![];
    let mut stack = vec![(root, only_mut)];
    while let Some((x, om)) = stack.pop() {
      for (i, v) in self.vars.iter().enumerate() {
        if !v.dead
          && !out.contains(&i)
          && v.loans.iter().any(|(l, m)| *l == x && (*m || !om))
        {
          out.push(i);
          stack.push((i, false));
        }
      }
    }
    out
  }

  /// May this variable be touched? Kills what the touch invalidates.
  fn touch(&mut self, root: usize, write: bool) -> bool {
    if self.vars[root].dead {
      return false;
    }
    let deps = self.dependents(root, !write);
    if deps.iter().any(|d| *d < self.floor) && !self.rng.chance(1, 40) {
      return false;
    }
    // do not kill too eagerly
    if !deps.is_empty() && self.rng.chance(1, 2) {
      return false;
    }
    for d in deps {
      self.vars[d].dead = true;
    }
    true
  }

  fn kill(&mut self, v: usize) -> bool {
    if v < self.floor && !self.rng.chance(1, 60) {
      return false;
    }
    if !self.touch(v, true) {
      return false;
    }
    self.vars[v].dead = true;
    true
  }

  // ------------------------------------------------------------ places

  fn sub(&mut self, p: &Pl, out: &mut Vec<Pl>, depth: usize) {
    out.push(p.clone());
    if depth == 0 {
      return;
    }
    let mut add = |g: &mut Self, text: String, ty: Ty, write: bool| {
      let q = Pl { text, ty, root: p.root, write };
      g.sub(&q, out, depth - 1);
    };
    let t = &p.text;
    match &p.ty {
      S => {
        add(self, format!("{t}.a"), I, p.write);
        add(self, format!("{t}.b"), I, p.write);
      }
      N => {
        add(self, format!("{t}.s"), S, p.write);
        add(self, format!("{t}.c"), I, p.write);
        add(self, format!("{t}.v.0"), I, p.write);
        add(self, format!("{t}.v.1"), B, p.write);
      }
      Tup => {
        add(self, format!("{t}.0"), I, p.write);
        add(self, format!("{t}.1"), I, p.write);
      }
      A => {
        let k = self.rng.below(3);
        add(self, format!("{t}[{k}]"), I, p.write);
      }
      Bx => add(self, format!("(*{t})"), I, p.write),
      BxN => add(self, format!("(*{t})"), N, p.write),
      R(m, inner) => add(self, format!("(*{t})"), (**inner).clone(), *m),
      P => {
        add(self, format!("{t}.k"), I, p.write);
        // through a shared reference the inner &mut is not writable
        add(self, format!("(*{t}.r)"), I, p.write);
      }
      Q => {
        add(self, format!("{t}.p"), P, p.write);
        add(self, format!("{t}.s"), r(false, S), false);
      }
      Sec | Ins => add(self, format!("{t}.0"), I, p.write),
      Sec2 | Ins2 => {
        add(self, format!("{t}.a"), I, p.write);
        add(self, format!("{t}.b"), I, p.write);
      }
      Wr => {
        add(self, format!("{t}.s"), Sec, p.write);
        add(self, format!("{t}.k"), I, p.write);
        add(self, format!("{t}.i"), Ins, p.write);
      }
      H => add(self, format!("{t}.a"), I, p.write),
      HR => add(self, format!("{t}.k"), I, p.write),
      HX => {
        add(self, format!("(*{t}.r)"), I, p.write);
        add(self, format!("(*{t}.s)"), I, p.write);
      }
      W(inner) => {
        add(self, format!("{t}.t"), (**inner).clone(), p.write);
        add(self, format!("{t}.k"), I, p.write);
      }
      _ => {}
    }
  }

  fn places(&mut self) -> Vec<Pl> {
    let mut out = vec![];
    for i in 0 .. self.vars.len() {
      if self.vars[i].dead {
        continue;
      }
      let p = Pl {
        text: self.vars[i].name.clone(),
        ty: self.vars[i].ty.clone(),
        root: i,
        write: !self.vars[i].fixed,
      };
      self.sub(&p, &mut out, 3);
    }
    out
  }

  fn place_of(&mut self, ty: &Ty, write: bool) -> Option<Pl> {
    let mut ps = self.places();
    ps.retain(|p| p.ty == *ty && (p.write || !write));
    for _ in 0 .. 4 {
      if ps.is_empty() {
        return None;
      }
      // prefer recent variables
      let i = if self.rng.chance(1, 2) {
        ps.len() - 1 - self.rng.below(ps.len().min(4))
      } else {
        self.rng.below(ps.len())
      };
      let p = ps.remove(i);
      if self.touch(p.root, write) {
        return Some(p);
      }
    }
    None
  }

  // ------------------------------------------------------------ expressions

  fn expr_simple(&mut self, t: &Ty) -> String {
    let k = self.rng.below(4);
    match t {
      I => format!("{k}"),
      U => "1".into(),
      B => (if k < 2 { "true" } else { "false" }).into(),
      S => format!("S {{ a: {k}, b: 1 }}"),
      N => format!("N {{ s: S {{ a: {k}, b: 2 }}, c: 1, v: (0, false) }}"),
      Tup => format!("({k}, 2)"),
      E => "E::C".into(),
      O => "None".into(),
      A => format!("[{k}, 1, 2]"),
      Bx => format!("Box::new({k})"),
      BxN => "Box::new(N { s: S { a: 0, b: 2 }, c: 1, v: (0, false) })".into(),
      V => "Vec::new()".into(),
      Sec => format!("Sec({k})"),
      Ins => format!("Ins({k})"),
      Sec2 => format!("Sec2 {{ a: {k}, b: 1 }}"),
      Ins2 => format!("Ins2 {{ a: 0, b: {k} }}"),
      Wr => format!("Wr {{ s: Sec({k}), k: 1, i: Ins(2) }}"),
      H => format!("H::new({k}, 1)"),
      W(t) if !t.has_ref() => {
        let e = self.expr_simple(t);
        format!("W {{ t: {e}, k: {k} }}")
      }
      R(..) | P | Q | HR | HX | OR | Sl | W(_) => unreachable!(),
    }
  }

  fn int(&mut self, d: usize) -> String {
    let c = self.rng.below(16);
    match c {
      0 | 1 => self.rng.below(4).to_string(),
      2 ..= 7 => match self.place_of(&I, false) {
        Some(p) => p.text,
        None => self.rng.below(4).to_string(),
      },
      8 | 9 if d > 0 => {
        let a = self.int(d - 1);
        let b = self.int(d - 1);
        let op = *self.rng.pick(&["^", "^", "+", "-", "&", "|"]);
        format!("({a} {op} {b})")
      }
      10 if d > 0 => {
        let c = self.boolean(d - 1);
        let a = self.int(d - 1);
        let b = self.int(d - 1);
        format!("(if {c} {{ {a} }} else {{ {b} }})")
      }
      11 if d > 0 && self.o.calls => {
        let a = self.int(d - 1);
        let b = self.int(d - 1);
        format!("l_add({a}, {b})")
      }
      12 if self.o.calls => match self.place_of(&S, false) {
        Some(p) => match self.rng.below(2) {
          0 => format!("{}.get()", p.text),
          _ => format!("*l_fst(&{})", p.text),
        },
        None => "1".into(),
      },
      13 if self.o.enums => match self.place_of(&O, false) {
        Some(p) => {
          let e = self.int(0);
          format!("{}.unwrap_or({e})", p.text)
        }
        None => "0".into(),
      },
      14 if self.o.enums => match self.place_of(&E, false) {
        Some(p) => {
          let e = self.int(0);
          format!("(match {} {{ E::A(q) => q, E::B {{ x, .. }} => x, E::C => {e} }})", p.text)
        }
        None => "2".into(),
      },
      15 => {
        if let Some(p) = self.place_of(&A, false) {
          let i = self.int(0);
          return format!("{}[(({i}) & 1) as usize]", p.text);
        }
        if self.o.ifc
          && let Some(p) = self.place_of(&Sec, false)
        {
          return format!("s_peek(&{})", p.text);
        }
        "3".into()
      }
      _ => self.rng.below(4).to_string(),
    }
  }

  fn boolean(&mut self, d: usize) -> String {
    match self.rng.below(8) {
      0 | 1 => match self.place_of(&B, false) {
        Some(p) => p.text,
        None => "true".into(),
      },
      2 if d > 0 => {
        let a = self.boolean(d - 1);
        let b = self.boolean(d - 1);
        let op = *self.rng.pick(&["&&", "||", "^"]);
        format!("({a} {op} {b})")
      }
      3 if self.o.calls => {
        let a = self.int(0);
        format!("l_is({a})")
      }
      4 if self.o.enums => match self.place_of(&O, false) {
        Some(p) => format!("{}.is_some()", p.text),
        None => "false".into(),
      },
      _ => {
        let a = self.int(d.min(1));
        let b = self.int(0);
        let op = *self.rng.pick(&["<", ">", "==", "!="]);
        format!("({a} {op} {b})")
      }
    }
  }

  /// An expression without references in its type.
  fn expr(&mut self, t: &Ty, d: usize) -> Option<String> {
    if !matches!(t, I | B) && self.rng.chance(1, 3) {
      // copy or move of an existing place
      if t.is_copy() {
        if let Some(p) = self.place_of(t, false) {
          return Some(p.text);
        }
      } else if let Some(i) = self.owned(t) {
        let n = self.vars[i].name.clone();
        if self.kill(i) {
          return Some(n);
        }
      }
    }
    if self.o.calls && self.rng.chance(1, 5) {
      // a helper returning that type
      let sigs: Vec<Sig> = self.sigs.iter().filter(|s| s.ret == *t).cloned().collect();
      if !sigs.is_empty() {
        let s = self.rng.pick(&sigs).clone();
        if let Some(c) = self.call(&s) {
          return Some(c);
        }
      }
    }
    Some(match t {
      I => self.int(d),
      B => self.boolean(d),
      S => {
        let a = self.int(1);
        let b = self.int(1);
        match self.rng.below(4) {
          0 if self.o.calls => format!("l_mk({a}, {b})"),
          1 if self.o.calls => match self.place_of(&S, false) {
            Some(p) => format!("{}.with({a})", p.text),
            None => format!("S {{ a: {a}, b: {b} }}"),
          },
          2 => match self.place_of(&S, false) {
            Some(p) => format!("S {{ a: {a}, ..{} }}", p.text),
            None => format!("S {{ a: {a}, b: {b} }}"),
          },
          _ => format!("S {{ a: {a}, b: {b} }}"),
        }
      }
      N => {
        let s = self.expr(&S, 1)?;
        let c = self.int(1);
        match self.rng.below(2) {
          0 if self.o.calls => format!("l_mkn({s}, {c})"),
          _ => {
            let b = self.boolean(0);
            let e = self.int(0);
            format!("N {{ s: {s}, c: {c}, v: ({e}, {b}) }}")
          }
        }
      }
      Tup => {
        let a = self.int(1);
        let b = self.int(1);
        format!("({a}, {b})")
      }
      E => {
        let a = self.int(1);
        let b = self.int(0);
        match self.rng.below(5) {
          0 | 1 => format!("E::A({a})"),
          2 | 3 => format!("E::B {{ x: {a}, y: {b} }}"),
          _ => "E::C".into(),
        }
      }
      O => {
        let a = self.int(1);
        let c = self.boolean(0);
        match self.rng.below(4) {
          0 if self.o.calls => format!("l_opt({c}, {a})"),
          1 => format!("(if {c} {{ Some({a}) }} else {{ None }})"),
          2 => "None".into(),
          _ => format!("Some({a})"),
        }
      }
      A => {
        let (a, b, c) = (self.int(0), self.int(0), self.int(1));
        if self.rng.chance(1, 5) { format!("[{a}; 3]") } else { format!("[{a}, {b}, {c}]") }
      }
      Bx => format!("Box::new({})", self.int(1)),
      BxN => format!("Box::new({})", self.expr(&N, 1)?),
      V => "Vec::new()".into(),
      Sec => format!("Sec({})", self.int(1)),
      Ins => format!("Ins({})", self.int(1)),
      Sec2 => {
        let (a, b) = (self.int(1), self.int(1));
        format!("Sec2 {{ a: {a}, b: {b} }}")
      }
      Ins2 => {
        let (a, b) = (self.int(1), self.int(1));
        format!("Ins2 {{ a: {a}, b: {b} }}")
      }
      Wr => {
        let s = self.expr(&Sec, 0)?;
        let a = self.int(0);
        let i = self.expr(&Ins, 0)?;
        if self.uses_dead(&a) {
          return None;
        }
        format!("Wr {{ s: {s}, k: {a}, i: {i} }}")
      }
      U => "1".into(),
      H => format!("H::new({}, {})", self.int(0), self.int(1)),
      W(inner) if !inner.has_ref() => {
        let e = self.expr(inner, 1)?;
        let k = self.int(0);
        if self.uses_dead(&k) {
          return None;
        }
        format!("W {{ t: {e}, k: {k} }}")
      }
      R(..) | P | Q | HR | HX | OR | Sl | W(_) => return None,
    })
  }

  fn owned(&mut self, t: &Ty) -> Option<usize> {
    let c: Vec<usize> = (0 .. self.vars.len())
      .filter(|i| !self.vars[*i].dead && self.vars[*i].ty == *t && !self.vars[*i].fixed)
      .collect();
    if c.is_empty() { None } else { Some(*self.rng.pick(&c)) }
  }

  /// An expression of reference-like type together with its loans.
  fn ref_expr(&mut self, t: &Ty) -> Option<(String, Vec<(usize, bool)>)> {
    match t {
      R(m, inner) => {
        let m = *m;
        if self.o.calls && self.rng.chance(1, 4) && **inner == I {
          match (self.rng.below(4), m) {
            (0, true) => {
              let p = self.place_of(&S, true)?;
              return Some((format!("l_snd_mut(&mut {})", p.text), vec![(p.root, true)]));
            }
            (0 | 1, false) => {
              let p = self.place_of(&S, false)?;
              return Some((format!("l_fst(&{})", p.text), vec![(p.root, false)]));
            }
            (1, true) => {
              let a = self.place_of(&I, true)?;
              let b = self.place_of(&I, true)?;
              if a.root == b.root || self.vars[a.root].dead {
                return None;
              }
              let c = if self.rng.chance(1, 2) { "true" } else { "false" };
              return Some((
                format!("l_either(&mut {}, &mut {}, {c})", a.text, b.text),
                vec![(a.root, true), (b.root, true)],
              ));
            }
            (2, true) => {
              let a = self.place_of(&I, true)?;
              let b = self.place_of(&I, true)?;
              if a.root == b.root || self.vars[a.root].dead {
                return None;
              }
              let c = if self.rng.chance(1, 2) { "true" } else { "false" };
              return Some((
                format!("l_pick(&mut {}, &mut {}, {c})", a.text, b.text),
                vec![(a.root, true)],
              ));
            }
            _ => {}
          }
        }
        if **inner == Sl {
          if m && self.rng.chance(1, 3)
            && let Some(i) = self.owned(t)
          {
            // reborrowed
            let n = self.vars[i].name.clone();
            return self.touch(i, true).then(|| (format!("&mut {n}[..]"), vec![(i, true)]));
          }
          let of = if self.o.vecs && self.rng.chance(1, 2) { V } else { A };
          let p = self.place_of(&of, m)?;
          let k = if m { "&mut " } else { "&" };
          return Some((format!("{k}{}[..]", p.text), vec![(p.root, m)]));
        }
        if !m
          && self.rng.chance(1, 5)
          && let Some(i) = self.owned(t)
        {
          let l = self.vars[i].loans.clone();
          return Some((self.vars[i].name.clone(), l));
        }
        if m
          && self.rng.chance(1, 8)
          && let Some(i) = self.owned(t)
        {
          let (n, l) = (self.vars[i].name.clone(), self.vars[i].loans.clone());
          if self.kill(i) {
            return Some((n, l));
          }
          return None;
        }
        if self.rng.chance(1, 6)
          && let Some(p) = self.place_of(inner, m)
          && let Some(q) = self.place_of(inner, m)
          && p.root != q.root
          && !self.vars[p.root].dead
        {
          let c = match self.place_of(&B, false) {
            Some(c) if c.root != p.root && c.root != q.root => c.text,
            _ => "true".into(),
          };
          if self.vars[p.root].dead || self.vars[q.root].dead {
            return None;
          }
          let k = if m { "&mut " } else { "&" };
          return Some((
            format!("if {c} {{ {k}{} }} else {{ {k}{} }}", p.text, q.text),
            vec![(p.root, m), (q.root, m)],
          ));
        }
        let p = self.place_of(inner, m)?;
        let k = if m { "&mut " } else { "&" };
        Some((format!("{k}{}", p.text), vec![(p.root, m)]))
      }
      P => {
        let mut k = self.int(0);
        let (e, l) = self.ref_expr(&r(true, I))?;
        if l.iter().any(|(x, _)| mentions(&k, &self.vars[*x].name)) || self.uses_dead(&k) {
          k = "1".into();
        }
        if self.o.calls && self.rng.chance(1, 3) {
          Some((format!("l_mkp({e}, {k})"), l))
        } else {
          Some((format!("P {{ r: {e}, k: {k} }}"), l))
        }
      }
      Q => {
        let (p, mut l) = self.ref_expr(&P)?;
        let s = self.place_of(&S, false)?;
        if l.iter().any(|(x, _)| *x == s.root || self.vars[*x].dead) {
          return None;
        }
        l.push((s.root, false));
        Some((format!("Q {{ p: {p}, s: &{} }}", s.text), l))
      }
      HR => {
        let mut k = self.int(0);
        let (e, l) = self.ref_expr(&r(true, I))?;
        if l.iter().any(|(x, _)| mentions(&k, &self.vars[*x].name)) || self.uses_dead(&k) {
          k = "1".into();
        }
        Some((format!("HR::new({e}, {k})"), l))
      }
      HX => {
        let (e, mut l) = self.ref_expr(&r(true, I))?;
        let (f, l2) = self.ref_expr(&r(true, I))?;
        let clash = |g: &Self, x: usize, t: &str| mentions(t, &g.vars[x].name);
        if l.iter().any(|(x, _)| clash(self, *x, &f) || self.vars[*x].dead)
          || l2.iter().any(|(x, _)| clash(self, *x, &e) || l.iter().any(|(y, _)| x == y))
          || self.uses_dead(&e)
        {
          return None;
        }
        l.extend(l2);
        Some((format!("HX::new({e}, {f}, {})", self.rng.below(4)), l))
      }
      OR => {
        let (e, l) = self.ref_expr(&r(true, I))?;
        let c = self.rng.chance(1, 6);
        Some((if c { "None".into() } else { format!("Some({e})") }, l))
      }
      W(t) if t.has_ref() => {
        let (e, l) = self.ref_expr(t)?;
        Some((format!("W {{ t: {e}, k: {} }}", self.rng.below(3)), l))
      }
      _ => None,
    }
  }

  /// A call; loans of arguments end with the call.
  fn call(&mut self, s: &Sig) -> Option<String> {
    let mut args = vec![];
    let down = s.name.starts_with('d');
    if down && self.name.starts_with('d') && s.name <= self.name {
      return None;
    }
    if s.fuel && self.name.starts_with('d') {
      return None;
    }
    if s.fuel {
      match &self.fuel {
        Some(f) => args.push(format!("{f} - 1")),
        None => args.push("2".into()),
      }
    } else if down {
    } else if self.fuel.is_some() {
      // would not terminate
      return None;
    } else if s.name.starts_with('t') {
      return None;
    }
    let save = self.vars.clone();
    let mut used: Vec<usize> = vec![];
    for t in &s.params {
      let before: Vec<bool> = self.vars.iter().map(|v| v.dead).collect();
      let (e, roots) = if t.has_ref() {
        match self.ref_expr(t) {
          Some((e, l)) => (e, l.iter().map(|x| x.0).collect::<Vec<_>>()),
          None => {
            self.vars = save;
            return None;
          }
        }
      } else {
        let e = match t {
          I => self.int(0),
          _ => self.expr(t, 1)?,
        };
        (e, vec![])
      };
      // an argument may not use what an earlier one borrowed or moved
      let newly: Vec<usize> =
        (0 .. before.len()).filter(|i| self.vars[*i].dead && !before[*i]).collect();
      let textual = used.iter().any(|u| mentions(&e, &self.vars[*u].name));
      if textual || newly.iter().any(|n| used.contains(n)) {
        self.vars = save;
        return None;
      }
      used.extend(roots);
      used.extend(newly);
      args.push(e);
    }
    Some(format!("{}({})", s.name, args.join(", ")))
  }

  // ------------------------------------------------------------ statements

  fn block(&mut self) {
    let n = self.rng.range(1, 6);
    for _ in 0 .. n {
      if self.budget <= 0 {
        break;
      }
      self.stmt();
    }
  }

  fn scoped(&mut self, f: impl FnOnce(&mut Self)) {
    let n = self.vars.len();
    self.depth += 1;
    self.indent += 1;
    f(self);
    self.indent -= 1;
    self.depth -= 1;
    self.vars.truncate(n);
    for v in &mut self.vars {
      v.loans.retain(|(l, _)| *l < n);
    }
  }

  fn merge(&mut self, other: Vec<Var>) {
    for (v, o) in self.vars.iter_mut().zip(other) {
      v.dead |= o.dead;
      for l in o.loans {
        if !v.loans.contains(&l) {
          v.loans.push(l);
        }
      }
    }
  }

  fn looped(&mut self, f: impl FnOnce(&mut Self)) {
    let old = self.floor;
    self.floor = self.vars.len();
    self.in_loop += 1;
    self.scoped(f);
    self.in_loop -= 1;
    self.floor = old;
  }

  fn stmt(&mut self) {
    self.budget -= 1;
    let c = self.rng.below(40);
    match c {
      9 | 10 if self.o.ifc => self.ifc_stmt(),
      0 ..= 3 => self.let_value(),
      4 ..= 7 => self.let_ref(),
      8 ..= 13 => self.assign(),
      14 | 15 => self.if_stmt(),
      16 => self.match_stmt(),
      17 | 18 if self.o.loops => self.loop_stmt(),
      19 if self.o.early => self.early(),
      20 | 21 | 22 if self.o.calls => self.call_stmt(),
      23 if self.o.calls => self.lib_stmt(),
      24 if self.o.closures => self.closure(),
      25 | 26 if self.o.vecs => self.vec_stmt(),
      27 => self.mem_stmt(),
      28 => self.destructure(),
      29 | 30 if self.o.refs => self.reassign_ref(),
      31 | 33 if self.o.ifc => self.ifc_stmt(),
      34 | 35 if self.o.abs => self.abs_stmt(),
      36 | 37 if self.o.more => self.more_stmt(),
      38 if self.o.more && self.o.loops => self.loop_more(),
      39 if self.o.structs_with_refs => self.nested_stmt(),
      32 if self.o.calls => self.lib_stmt(),
      _ => self.assign(),
    }
  }

  fn ifc_stmt(&mut self) {
    let v = self.int(1);
    match self.rng.below(7) {
      0 => {
        // a whole new insecure or secure value
        let t = self.rng.pick(&[Ins, Sec, Ins2, Sec2, Ins]).clone();
        let Some(e) = self.expr(&t, 1) else { return };
        let Some(p) = self.place_of(&t, true) else { return };
        if !self.vars[p.root].dead && !self.uses_dead(&e) {
          self.line(&format!("{} = {e};", p.text));
        }
        return;
      }
      1 => {
        if let Some(p) = self.place_of(&Ins2, true)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          self.line(&format!("i_put(&mut {}, {v});", p.text));
        }
        return;
      }
      2 if self.o.open => {
        if let Some(i) = self.owned(&Wr) {
          let n = self.vars[i].name.clone();
          if self.kill(i) {
            let x = self.fresh("x");
            self.line(&format!("let mut {x}: Ins = w_open({n});"));
            self.declare(&x, Ins, vec![]);
          }
        }
        return;
      }
      3 => {
        let c = if self.rng.chance(1, 2) { ("s_peek2", Sec2) } else { ("w_key", Wr) };
        if let Some(p) = self.place_of(&c.1, false) {
          let x = self.fresh("x");
          self.line(&format!("let mut {x}: i32 = {}(&{});", c.0, p.text));
          self.declare(&x, I, vec![]);
        }
        return;
      }
      _ => {}
    }
    if self.rng.chance(1, 2) {
      if let Some(p) = self.place_of(&Ins, true) {
        self.line(&format!("i_set(&mut {}, {v});", p.text));
      }
    } else if let Some(p) = self.place_of(&Sec, true) {
      self.line(&format!("s_set(&mut {}, {v});", p.text));
    }
  }

  fn let_value(&mut self) {
    let mut pool = vec![I, I, S, Tup, B, N, A, Bx, BxN];
    if self.o.enums {
      pool.extend([E, O]);
    }
    if self.o.vecs {
      pool.push(V);
    }
    if self.o.abs {
      pool.extend([H, H, w(I), w(S)]);
    }
    if self.o.ifc {
      pool.extend([Sec, Ins, Ins, Sec2, Ins2, Wr]);
    }
    let t = self.rng.pick(&pool).clone();
    if let Some(e) = self.expr(&t, 2) {
      let n = self.fresh("x");
      self.line(&format!("let mut {n}: {} = {e};", t.text()));
      self.declare(&n, t, vec![]);
    }
  }

  fn let_ref(&mut self) {
    if !self.o.refs {
      return self.let_value();
    }
    let mut pool = vec![r(true, I), r(true, I), r(true, S), r(false, I), r(false, S), r(true, Tup), r(true, N)];
    if self.o.structs_with_refs {
      pool.extend([P, P, Q, r(true, P)]);
      if self.o.more {
        pool.extend([OR, OR, r(true, r(true, I)), r(false, r(false, S))]);
      }
    }
    if self.o.abs {
      pool.extend([HR, HR, HX, HX, w(r(true, I)), r(true, H), r(true, w(I))]);
    }
    if self.o.more {
      pool.extend([r(true, Sl), r(false, Sl)]);
    }
    if self.rng.chance(1, 4) {
      pool.extend([r(true, r(true, I)), r(true, A), r(false, N), r(false, r(false, I))]);
    }
    let t = self.rng.pick(&pool).clone();
    if let Some((e, l)) = self.ref_expr(&t) {
      let n = self.fresh("r");
      self.line(&format!("let mut {n}: {} = {e};", t.text()));
      self.declare(&n, t, l);
    }
  }

  fn reassign_ref(&mut self) {
    let t = self.rng.pick(&[r(true, I), r(true, S), r(false, I), P]).clone();
    let Some(i) = self.owned_any(&t) else { return };
    if i < self.floor && !self.rng.chance(1, 10) {
      return;
    }
    // parameters have lifetimes longer than the body
    if self.vars[i].name.starts_with('p') {
      return;
    }
    let d = self.vars[i].depth;
    if let Some((e, l)) = self.ref_expr(&t) {
      if self.vars[i].dead
        || l.iter().any(|(x, _)| *x == i || self.vars[*x].depth > d)
        || mentions(&e, &self.vars[i].name)
      {
        // the touched loans stay killed; nothing is emitted
        return;
      }
      if !self.touch(i, true) {
        return;
      }
      let n = self.vars[i].name.clone();
      self.line(&format!("{n} = {e};"));
      for x in l {
        if !self.vars[i].loans.contains(&x) {
          self.vars[i].loans.push(x);
        }
      }
    }
  }

  fn owned_any(&mut self, t: &Ty) -> Option<usize> {
    self.owned(t)
  }

  fn assign(&mut self) {
    let mut pool = vec![I, I, I, I, S, Tup, B];
    if self.o.enums {
      pool.extend([O, E]);
    }
    pool.push(N);
    let t = self.rng.pick(&pool).clone();
    let Some(e) = self.expr(&t, 2) else { return };
    let Some(p) = self.place_of(&t, true) else { return };
    // the expression may have moved the root, or use what writing killed
    if self.vars[p.root].dead || self.uses_dead(&e) {
      return;
    }
    if t == I && self.rng.chance(1, 3) {
      let op = *self.rng.pick(&["^=", "+=", "-=", "|="]);
      self.line(&format!("{} {op} {e};", p.text));
    } else if t == I && self.rng.chance(1, 6) {
      self.line(&format!("{0} = {0}.wrapping_add({e});", p.text));
    } else {
      self.line(&format!("{} = {e};", p.text));
    }
  }

  fn uses_dead(&self, e: &str) -> bool {
    self
      .vars
      .iter()
      .any(|v| v.dead && v.ty.has_ref() && mentions(e, &v.name))
  }

  fn if_stmt(&mut self) {
    let c = self.boolean(2);
    self.line(&format!("if {c} {{"));
    let before = self.vars.clone();
    self.scoped(|g| g.block());
    let after = self.vars.clone();
    if self.rng.chance(1, 2) {
      self.vars = before;
      self.line("} else {");
      self.scoped(|g| g.block());
      self.merge(after);
    }
    self.line("}");
  }

  fn match_stmt(&mut self) {
    if self.o.enums && self.rng.chance(2, 3) {
      let write = self.rng.chance(1, 2);
      if self.rng.chance(1, 2) {
        let Some(p) = self.place_of(&O, write) else { return };
        let k = self.int(0);
        let n = self.fresh("m");
        if write {
          self.line(&format!("if let Some({n}) = &mut {} {{", p.text));
          if self.uses_dead(&k) || mentions(&k, &self.vars[p.root].name) {
            self.line(&format!("  *{n} = 1;"));
          } else {
            self.line(&format!("  *{n} = {k};"));
          }
          self.line("}");
        } else {
          let before = self.vars.clone();
          self.line(&format!("match {} {{", p.text));
          self.line(&format!("Some({n}) => {{"));
          self.scoped(|g| {
            g.declare(&n, I, vec![]);
            let i = g.vars.len() - 1;
            g.vars[i].fixed = true;
            g.block();
          });
          let after = std::mem::replace(&mut self.vars, before);
          self.line("}");
          self.line("None => {");
          self.scoped(|g| g.block());
          self.merge(after);
          self.line("}");
          self.line("}");
        }
      } else {
        let Some(p) = self.place_of(&E, write) else { return };
        let n = self.fresh("m");
        let k = self.int(0);
        if write {
          let k = if self.uses_dead(&k) || mentions(&k, &self.vars[p.root].name) {
            "2".to_string()
          } else {
            k
          };
          self.line(&format!(
            "match &mut {} {{ E::A({n}) => {{ *{n} = {k}; }} E::B {{ x, y }} => {{ *y = *x; }} E::C => {{}} }}",
            p.text
          ));
        } else {
          self.line(&format!("let mut {n} = 0;"));
          self.declare(&n, I, vec![]);
          self.line(&format!(
            "match {} {{ E::A(q) => {{ {n} = q; }} E::B {{ x, y }} if x > y => {{ {n} = x; }} E::B {{ y, .. }} => {{ {n} = y; }} E::C => {{ {n} = {k}; }} }}",
            p.text
          ));
        }
      }
    } else {
      let e = self.int(1);
      let before = self.vars.clone();
      self.line(&format!("match {e} {{"));
      let mut afters = vec![];
      for pat in ["0 =>", "1 | 2 =>", "_ =>"] {
        self.vars = before.clone();
        self.line(&format!("{pat} {{"));
        self.scoped(|g| g.block());
        afters.push(self.vars.clone());
        self.line("}");
      }
      self.line("}");
      self.vars = before;
      for a in afters {
        self.merge(a);
      }
    }
  }

  fn loop_stmt(&mut self) {
    match self.rng.below(4) {
      0 => {
        let i = self.fresh("i");
        let n = self.rng.range(1, 3);
        self.line(&format!("for {i} in 0..{n}i32 {{"));
        self.looped(|g| {
          let v = g.declare(&i, I, vec![]);
          g.vars[v].fixed = true;
          g.block();
        });
        self.line("}");
      }
      1 => {
        let i = self.fresh("w");
        self.line(&format!("let mut {i}: i32 = 0;"));
        let v = self.declare(&i, I, vec![]);
        self.vars[v].fixed = true;
        let c = self.boolean(1);
        let lim = self.rng.range(1, 3);
        // the condition is evaluated every iteration: plain values only
        let c = if self.cond_ok(&c) { c } else { "true".into() };
        self.line(&format!("while {i} < {lim} && {c} {{"));
        self.line(&format!("  {i} += 1;"));
        self.looped(|g| g.block());
        self.line("}");
      }
      2 => {
        let i = self.fresh("w");
        self.line(&format!("let mut {i}: i32 = 0;"));
        let v = self.declare(&i, I, vec![]);
        self.vars[v].fixed = true;
        let lim = self.rng.range(1, 3);
        self.line("loop {");
        self.line(&format!("  {i} += 1;"));
        self.line(&format!("  if {i} > {lim} {{ break; }}"));
        self.looped(|g| g.block());
        self.line("}");
      }
      _ => {
        let x = self.fresh("x");
        let i = self.fresh("w");
        self.line(&format!("let mut {i}: i32 = 0;"));
        let v = self.declare(&i, I, vec![]);
        self.vars[v].fixed = true;
        self.line(&format!("let mut {x}: i32 = loop {{"));
        self.line(&format!("  {i} += 1;"));
        let mut e = String::new();
        self.looped(|g| {
          g.block();
          e = g.int(1);
        });
        self.line(&format!("  if {i} > 1 {{ break {i}; }}"));
        self.line("};");
        self.declare(&x, I, vec![]);
      }
    }
  }

  fn cond_ok(&self, c: &str) -> bool {
    !self.uses_dead(c) && !self.vars.iter().any(|v| v.dead && mentions(c, &v.name))
  }

  fn early(&mut self) {
    let c = self.boolean(1);
    if self.in_loop > 0 && self.rng.chance(2, 3) {
      let k = if self.rng.chance(1, 2) { "break" } else { "continue" };
      // loops that yield a value need a value to break with
      if k == "break" && self.rng.chance(1, 3) {
        self.line(&format!("if {c} {{ {k}; }}"));
      } else {
        self.line(&format!("if {c} {{ continue; }}"));
      }
    } else {
      let t = self.ret.clone();
      let save = self.vars.clone();
      let e = self.expr(&t, 1).unwrap_or_else(|| "panic!()".into());
      self.vars = save;
      self.line(&format!("if {c} {{ return {e}; }}"));
    }
  }

  fn call_stmt(&mut self) {
    if self.sigs.is_empty() {
      return;
    }
    let sigs = self.sigs.clone();
    let s = self.rng.pick(&sigs).clone();
    if let Some(c) = self.call(&s) {
      let x = self.fresh("x");
      self.line(&format!("let mut {x}: {} = {c};", s.ret.text()));
      self.declare(&x, s.ret.clone(), vec![]);
    }
  }

  fn lib_stmt(&mut self) {
    match self.rng.below(9) {
      0 => {
        let v = self.int(1);
        if let Some(p) = self.place_of(&I, true) {
          if self.uses_dead(&v) {
            return;
          }
          let v = self.hoist(v, &p);
          self.line(&format!("l_upd(&mut {}, {v});", p.text));
        }
      }
      1 => {
        let (Some(q), Some(p)) = (self.place_of(&I, false), self.place_of(&I, true)) else {
          return;
        };
        if q.root == p.root || self.vars[q.root].dead {
          return;
        }
        let x = self.fresh("x");
        self.line(&format!("let mut {x}: i32 = l_acc(&mut {}, &{});", p.text, q.text));
        self.declare(&x, I, vec![]);
      }
      2 => {
        if let Some(p) = self.place_of(&S, true) {
          self.line(&format!("{}.flip();", p.text));
        }
      }
      3 => {
        let v = self.int(1);
        if let Some(p) = self.place_of(&N, true) {
          if self.uses_dead(&v) {
            return;
          }
          let v = self.hoist(v, &p);
          let x = self.fresh("x");
          self.line(&format!("let mut {x}: bool = {}.set({v});", p.text));
          self.declare(&x, B, vec![]);
        }
      }
      4 => {
        if let Some(p) = self.place_of(&N, true) {
          let x = self.fresh("r");
          self.line(&format!("let mut {x}: &mut S = {}.s_mut();", p.text));
          self.declare(&x, r(true, S), vec![(p.root, true)]);
        }
      }
      5 => {
        if let Some(i) = self.owned(&N) {
          let n = self.vars[i].name.clone();
          if self.kill(i) {
            let x = self.fresh("x");
            self.line(&format!("let mut {x}: i32 = l_eat({n});"));
            self.declare(&x, I, vec![]);
          }
        }
      }
      6 => {
        let v = self.int(1);
        if let Some(p) = self.place_of(&P, true) {
          if self.uses_dead(&v) {
            return;
          }
          let v = self.hoist(v, &p);
          self.line(&format!("l_setp(&mut {}, {v});", p.text));
        }
      }
      7 => {
        // store a reference into a structure
        let Some(i) = self.owned(&P) else { return };
        if i < self.floor || self.vars[i].name.starts_with('p') {
          return;
        }
        let d = self.vars[i].depth;
        if let Some((e, l)) = self.ref_expr(&r(true, I)) {
          if self.vars[i].dead
            || mentions(&e, &self.vars[i].name)
            || l.iter().any(|(x, _)| *x == i || self.vars[*x].depth > d)
          {
            return;
          }
          if !self.touch(i, true) {
            return;
          }
          let n = self.vars[i].name.clone();
          self.line(&format!("l_store(&mut {n}, {e});"));
          for x in l {
            self.vars[i].loans.push(x);
          }
        }
      }
      _ => {
        let t = self.rng.pick(&[I, S, Tup]).clone();
        if let Some(e) = self.expr(&t, 1) {
          let x = self.fresh("x");
          self.line(&format!("let mut {x}: {} = l_id({e});", t.text()));
          self.declare(&x, t, vec![]);
        }
      }
    }
  }

  /// Evaluates `v` before `p` is borrowed.
  fn hoist(&mut self, v: String, p: &Pl) -> String {
    if mentions(&v, &self.vars[p.root].name) {
      let x = self.fresh("k");
      self.line(&format!("let {x}: i32 = {v};"));
      x
    } else {
      v
    }
  }

  fn closure(&mut self) {
    let Some(p) = self.place_of(&I, true) else { return };
    if self.vars[p.root].ty.has_ref() && self.rng.chance(1, 2) {
      return;
    }
    let c = self.fresh("c");
    let x = self.fresh("x");
    let other = match self.place_of(&I, false) {
      Some(q) if q.root != p.root && !self.vars[p.root].dead => q.text,
      _ => "1".into(),
    };
    if self.vars[p.root].dead {
      return;
    }
    let a = self.int(0);
    let a = if mentions(&a, &self.vars[p.root].name) || self.uses_dead(&a) {
      "2".to_string()
    } else {
      a
    };
    if self.uses_dead(&other) || self.vars[p.root].dead {
      return;
    }
    match self.rng.below(3) {
      0 => {
        self.line(&format!("let mut {c} = |k: i32| {{ {} = k ^ {other}; k }};", p.text));
        self.line(&format!("let mut {x}: i32 = {c}({a});"));
        if self.rng.chance(1, 2) {
          self.line(&format!("{x} ^= {c}({a});"));
        }
      }
      1 => {
        self.line(&format!("let {c} = |k: i32| {} ^ k ^ {other};", p.text));
        self.line(&format!("let mut {x}: i32 = {c}({a});"));
      }
      _ => {
        self.line(&format!(
          "let mut {x}: i32 = l_apply(|k: i32| {{ {} += k; {other} }}, {a});",
          p.text
        ));
      }
    }
    self.declare(&x, I, vec![]);
  }

  fn vec_stmt(&mut self) {
    match self.rng.below(7) {
      0 | 1 => {
        let e = self.int(1);
        if let Some(p) = self.place_of(&V, true) {
          if self.uses_dead(&e) || self.vars[p.root].dead {
            return;
          }
          self.line(&format!("{}.push({e});", p.text));
        }
      }
      2 => {
        if let Some(p) = self.place_of(&V, true) {
          let x = self.fresh("x");
          self.line(&format!("let mut {x}: Option<i32> = {}.pop();", p.text));
          self.declare(&x, O, vec![]);
        }
      }
      3 => {
        let e = self.int(0);
        if let Some(p) = self.place_of(&V, true) {
          if self.uses_dead(&e) || mentions(&e, &self.vars[p.root].name) {
            return;
          }
          let k = self.fresh("k");
          self.line(&format!("for {k} in {}.iter_mut() {{ *{k} ^= {e}; }}", p.text));
        }
      }
      4 => {
        if let Some(p) = self.place_of(&V, false) {
          let x = self.fresh("x");
          let k = self.fresh("k");
          self.line(&format!("let mut {x}: i32 = 0;"));
          self.line(&format!("for {k} in {}.iter() {{ {x} ^= *{k}; }}", p.text));
          self.declare(&x, I, vec![]);
        }
      }
      5 => {
        let e = self.int(0);
        if let Some(p) = self.place_of(&V, true) {
          if self.uses_dead(&e) || mentions(&e, &self.vars[p.root].name) {
            return;
          }
          self.line(&format!("if {0}.len() > 0 {{ {0}[0] = {e}; }}", p.text));
        }
      }
      _ => {
        if let Some(p) = self.place_of(&A, true) {
          let (a, b) = (self.fresh("r"), self.fresh("r"));
          self.line(&format!("let ({a}, {b}) = {}.split_at_mut(1);", p.text));
          self.line(&format!("{a}[0] = {b}[1];"));
          self.line(&format!("{b}[0] ^= 1;"));
        }
      }
    }
  }

  /// `let mut x: i32 = <f>;`
  fn let_i(&mut self, e: String) {
    let x = self.fresh("x");
    self.line(&format!("let mut {x}: i32 = {e};"));
    self.declare(&x, I, vec![]);
  }

  fn abs_stmt(&mut self) {
    let v = self.int(1);
    match self.rng.below(22) {
      0 | 1 => {
        if let Some(p) = self.place_of(&H, true)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          self.line(&format!("{}.set({v});", p.text));
        }
      }
      2 | 3 => {
        if let Some(p) = self.place_of(&H, false) {
          self.let_i(format!("{}.get()", p.text));
        }
      }
      4 => {
        if let Some(p) = self.place_of(&H, true) {
          let x = self.fresh("r");
          self.line(&format!("let mut {x}: &mut i32 = {}.b_mut();", p.text));
          self.declare(&x, r(true, I), vec![(p.root, true)]);
        }
      }
      5 => {
        if let Some(i) = self.owned(&H) {
          let n = self.vars[i].name.clone();
          if self.kill(i) {
            if self.rng.chance(1, 2) {
              let x = self.fresh("x");
              self.line(&format!("let mut {x}: H = {n};"));
              self.declare(&x, H, vec![]);
            } else {
              self.let_i(format!("{n}.fin()"));
            }
          }
        }
      }
      6 => {
        if let Some(p) = self.place_of(&H, true)
          && let Some(e) = self.expr(&H, 1)
          && !self.vars[p.root].dead
          && !self.uses_dead(&e)
        {
          self.line(&format!("{} = {e};", p.text));
        }
      }
      17 => {
        // the copy keeps what only the original's private field says
        if let Some(i) = self.owned(&H) {
          let n = self.vars[i].name.clone();
          if !self.uses_dead(&v) && !mentions(&v, &n) && self.kill(i) {
            let x = self.fresh("x");
            self.line(&format!("let mut {x}: H = {n};"));
            self.declare(&x, H, vec![]);
            self.line(&format!("{x}.a = {v};"));
            self.let_i(format!("{x}.get()"));
          }
        }
      }
      18 => {
        if let Some(p) = self.place_of(&HX, true)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          self.line(&format!("{}.put({v});", p.text));
        }
      }
      19 => {
        if let Some(p) = self.place_of(&HX, false) {
          self.let_i(format!("{}.get()", p.text));
        }
      }
      20 | 21 => {
        if let Some(i) = self.owned(&HX) {
          let n = self.vars[i].name.clone();
          let (a, b) = *self.rng.pick(&[("s", "r"), ("r", "s")]);
          let again = self.rng.chance(1, 2);
          if !self.uses_dead(&v) && !mentions(&v, &n) && self.kill(i) {
            if self.rng.chance(2, 3) {
              self.line(&format!("{n}.{a} = {n}.{b};"));
              self.line(&format!("*{n}.{a} = {v};"));
              if again {
                self.let_i(format!("*{n}.{a}"));
              }
            }
            self.let_i(format!("{n}.z()"));
          }
        }
      }
      7 => {
        if let Some(p) = self.place_of(&HR, true)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          self.line(&format!("{}.put({v});", p.text));
        }
      }
      8 => {
        if let Some(p) = self.place_of(&HR, false) {
          self.let_i(format!("{}.get()", p.text));
        }
      }
      9 => {
        let t = if self.rng.chance(2, 3) { I } else { S };
        let Some(e) = self.expr(&t, 1) else { return };
        if let Some(p) = self.place_of(&w(t.clone()), true)
          && !self.uses_dead(&e)
          && !mentions(&e, &self.vars[p.root].name)
        {
          let x = self.fresh("x");
          self.line(&format!("let mut {x}: {} = {}.put({e});", t.text(), p.text));
          self.declare(&x, t, vec![]);
        }
      }
      10 => {
        let t = if self.rng.chance(2, 3) { I } else { S };
        if let Some(p) = self.place_of(&w(t.clone()), true) {
          let x = self.fresh("r");
          self.line(&format!("let mut {x}: &mut {} = {}.t_mut();", t.text(), p.text));
          self.declare(&x, r(true, t), vec![(p.root, true)]);
        }
      }
      11 => {
        if let Some(p) = self.place_of(&w(I), false) {
          self.let_i(format!("*{}.get()", p.text));
        }
      }
      12 | 13 => {
        let t = self.rng.pick(&[S, N, P]).clone();
        if let Some(p) = self.place_of(&t, true)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          let f = *self.rng.pick(&["l_dyn", "l_gen"]);
          self.let_i(format!("{f}(&mut {}, {v})", p.text));
        }
      }
      14 => {
        let t = self.rng.pick(&[S, N, P]).clone();
        if let Some(p) = self.place_of(&t, false) {
          let f = *self.rng.pick(&["l_rd", "l_ref"]);
          self.let_i(format!("{f}(&{})", p.text));
        }
      }
      16 => {
        let t = self.rng.pick(&[S, N, P]).clone();
        if let Some(i) = self.owned(&t) {
          let n = self.vars[i].name.clone();
          let reborrow = t == P && self.rng.chance(1, 2);
          if self.uses_dead(&v) || mentions(&v, &n) {
            return;
          }
          if reborrow {
            if self.touch(i, true) {
              self.let_i(format!("l_own(P {{ r: &mut *{n}.r, k: {n}.k }}, {v})"));
            }
          } else if t == S || self.kill(i) {
            self.let_i(format!("l_own({n}, {v})"));
          }
        }
      }
      _ => {
        // one of two objects behind a trait
        let (Some(p), Some(q)) = (self.place_of(&S, true), self.place_of(&N, true)) else { return };
        if p.root == q.root || self.vars[p.root].dead || self.uses_dead(&v) {
          return;
        }
        let c = self.boolean(0);
        let (a, b) = (self.vars[p.root].name.clone(), self.vars[q.root].name.clone());
        if self.vars[p.root].dead || self.vars[q.root].dead || [&c, &v].iter().any(|e| {
          mentions(e, &a) || mentions(e, &b) || self.uses_dead(e)
        }) {
          return;
        }
        let o = self.fresh("o");
        self.line(&format!(
          "let {o}: &mut dyn Tr = if {c} {{ &mut {} }} else {{ &mut {} }};",
          p.text, q.text
        ));
        self.let_i(format!("{o}.ap({v})"));
      }
    }
  }

  fn nested_stmt(&mut self) {
    let v = self.int(1);
    match self.rng.below(9) {
      0 | 1 => {
        if let Some(p) = self.place_of(&P, true) {
          self.let_i(format!("l_getp(&mut {})", p.text));
        }
      }
      2 => {
        if let Some(p) = self.place_of(&P, false) {
          self.let_i(format!("l_peekp(&{})", p.text));
        }
      }
      3 => {
        if let Some(p) = self.place_of(&r(true, I), true) {
          self.let_i(format!("l_rr(&mut {})", p.text));
        }
      }
      4 => {
        if let Some(p) = self.place_of(&r(true, I), true)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          self.line(&format!("l_rw(&mut {}, {v});", p.text));
        }
      }
      5 => {
        if let Some(p) = self.place_of(&r(false, S), false) {
          self.let_i(format!("l_rs(&{})", p.text));
        }
      }
      6 => {
        if let Some(p) = self.place_of(&OR, true)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          if self.rng.chance(1, 2) {
            let k = self.fresh("k");
            self.line(&format!("if let Some({k}) = &mut {} {{ **{k} = {v}; }}", p.text));
          } else {
            let k = self.fresh("k");
            self.line(&format!("if let Some({k}) = {}.as_mut() {{ **{k} = {v}; }}", p.text));
          }
        }
      }
      7 => {
        if let Some(p) = self.place_of(&OR, false) {
          self.let_i(format!("match &{} {{ Some(q) => **q, None => 0 }}", p.text));
        }
      }
      _ => {
        if let Some(i) = self.owned(&OR) {
          let (n, l) = (self.vars[i].name.clone(), self.vars[i].loans.clone());
          if self.kill(i) {
            let x = self.fresh("r");
            self.line(&format!("if let Some({x}) = {n} {{"));
            self.scoped(|g| {
              let k = g.declare(&x, r(true, I), l);
              g.vars[k].fixed = true;
              g.block();
            });
            self.line("}");
          }
        }
      }
    }
  }

  fn more_stmt(&mut self) {
    let v = self.int(1);
    match self.rng.below(14) {
      0 => {
        if let Some(p) = self.place_of(&Tup, true)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          self.line(&format!("l_put(&mut {}, {v});", p.text));
        }
      }
      1 => {
        // a function held by a variable
        let c = self.boolean(1);
        let (a, b) = (self.int(0), self.int(0));
        if [&c, &a, &b].iter().any(|e| self.uses_dead(e)) {
          return;
        }
        let f = self.fresh("f");
        self.line(&format!(
          "let {f}: fn(i32, i32) -> i32 = if {c} {{ l_add }} else {{ l_sub }};"
        ));
        if self.rng.chance(1, 2) {
          self.let_i(format!("{f}({a}, {b})"));
        } else {
          self.let_i(format!("l_pure({f}, {a}, {b})"));
        }
      }
      2 | 3 => {
        let t = *self.rng.pick(&[true, false]);
        if let Some(p) = self.place_of(&r(true, Sl), true).or_else(|| self.place_of(&A, true))
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          let amp = if p.ty == A { "&mut " } else { "&mut *" };
          if t {
            self.line(&format!("l_fill({amp}{}, {v});", p.text));
          } else {
            self.line(&format!("{}[0] = {v};", p.text));
          }
        }
      }
      4 => {
        let t = if self.rng.chance(1, 2) { r(true, Sl) } else { r(false, Sl) };
        if let Some(p) = self.place_of(&t, false)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          self.let_i(format!("l_at(&*{}, {v})", p.text));
        }
      }
      5 => {
        // slice patterns
        if let Some(p) = self.place_of(&A, true)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          let (a, b) = (self.fresh("k"), self.fresh("k"));
          self.line(&format!("let [{a}, .., {b}] = &mut {};", p.text));
          self.line(&format!("*{a} = {v};"));
          self.line(&format!("*{b} ^= *{a};"));
        }
      }
      6 => {
        if let Some(p) = self.place_of(&r(true, Sl), true)
          && !self.uses_dead(&v)
        {
          let v = self.hoist(v, &p);
          let a = self.fresh("k");
          self.line(&format!("if let [.., {a}] = &mut *{} {{ *{a} = {v}; }}", p.text));
        }
      }
      7 => {
        if let Some(p) = self.place_of(&O, false) {
          let k = self.int(0);
          let x = self.fresh("x");
          if self.uses_dead(&k) {
            return;
          }
          self.line(&format!("let mut {x}: Option<i32> = {}.map(|q| q ^ {k});", p.text));
          self.declare(&x, O, vec![]);
        }
      }
      8 if self.ret == O => {
        if let Some(p) = self.place_of(&O, false) {
          self.let_i(format!("{}?", p.text));
        }
      }
      8 | 9 => {
        if let Some(p) = self.place_of(&O, false) {
          let t = self.ret.clone();
          let save = self.vars.clone();
          let e = self.expr(&t, 1).unwrap_or_else(|| "panic!()".into());
          self.vars = save;
          let x = self.fresh("x");
          self.line(&format!("let Some(mut {x}) = {} else {{ return {e}; }};", p.text));
          self.declare(&x, I, vec![]);
        }
      }
      10 => {
        // a partly moved structure
        if let Some(i) = self.owned(&N) {
          let n = self.vars[i].name.clone();
          if self.kill(i) {
            let (a, b) = (self.fresh("x"), self.fresh("x"));
            self.line(&format!("let mut {a}: S = {n}.s;"));
            self.line(&format!("let mut {b}: (i32, bool) = {n}.v;"));
            self.declare(&a, S, vec![]);
            self.let_i(format!("{b}.0"));
          }
        }
      }
      11 => {
        // a closure that keeps what it captures, called through a reference
        let Some(p) = self.place_of(&I, true) else { return };
        if self.uses_dead(&v) || self.vars[p.root].ty.has_ref() {
          return;
        }
        let v = self.hoist(v, &p);
        let (c, x) = (self.fresh("c"), self.fresh("x"));
        self.line(&format!("let mut {c} = |k: i32| {{ let o = {0}; {0} = k; o }};", p.text));
        self.line(&format!("let mut {x}: i32 = l_call(&mut {c}, {v});"));
        if self.rng.chance(1, 2) {
          self.line(&format!("{x} ^= {c}(1);"));
        }
        self.declare(&x, I, vec![]);
      }
      12 => {
        // one that owns its state
        let c = self.fresh("c");
        let k = self.fresh("k");
        let a = self.int(0);
        if self.uses_dead(&v) || self.uses_dead(&a) {
          return;
        }
        self.line(&format!("let mut {k}: i32 = {v};"));
        self.line(&format!("let mut {c} = move |q: i32| {{ {k} ^= q; {k} }};"));
        self.line(&format!("{c}({a});"));
        self.let_i(format!("{c}(1)"));
      }
      _ => {
        let l = self.fresh("z").replace('z', "'z");
        let (c, k) = (self.boolean(1), self.fresh("x"));
        if self.uses_dead(&c) {
          return;
        }
        self.line(&format!("let mut {k}: i32 = {l}: {{"));
        self.scoped(|g| {
          g.line(&format!("if {c} {{ break {l} {v}; }}"));
          let old = g.in_loop;
          g.in_loop = 0;
          let early = std::mem::replace(&mut g.o.early, false);
          g.block();
          g.o.early = early;
          g.in_loop = old;
          let e = g.int(0);
          g.line(&e);
        });
        self.line("};");
        self.declare(&k, I, vec![]);
      }
    }
  }

  /// Loops that rotate values, so that an effect needs several rounds.
  fn loop_more(&mut self) {
    let mut vs: Vec<String> = vec![];
    for _ in 0 .. self.rng.range(2, 4) {
      if let Some(p) = self.place_of(&I, true)
        && !vs.contains(&p.text)
        && !self.vars[p.root].ty.has_ref()
      {
        vs.push(p.text);
      }
    }
    if vs.len() < 2 || vs.iter().any(|v| self.uses_dead(v)) {
      return;
    }
    match self.rng.below(3) {
      0 => {
        let (i, n) = (self.fresh("i"), self.rng.range(2, 4));
        self.line(&format!("for {i} in 0..{n}i32 {{"));
        for k in 0 .. vs.len() - 1 {
          self.line(&format!("  {} = {};", vs[k], vs[k + 1]));
        }
        self.line(&format!("  {} ^= {i};", vs[vs.len() - 1]));
        self.line("}");
      }
      1 => {
        let i = self.fresh("w");
        self.line(&format!("let mut {i}: i32 = 0;"));
        let l = self.fresh("z").replace('z', "'z");
        self.line(&format!("{l}: while {i} < 3 {{"));
        self.line(&format!("  {i} += 1;"));
        self.line(&format!("  for q in 0..2i32 {{ if q > {} {{ continue {l}; }} {} = q; }}", vs[0], vs[1]));
        self.line(&format!("  if {} > 2 {{ break {l}; }}", vs[1]));
        self.line("}");
      }
      _ => {
        if let Some(p) = self.place_of(&V, true) {
          let k = self.fresh("k");
          if vs.iter().any(|v| self.uses_dead(v) || mentions(v, &self.vars[p.root].name)) {
            return;
          }
          self.line(&format!("while let Some({k}) = {}.pop() {{", p.text));
          self.line(&format!("  {} = {}; {} = {k};", vs[0], vs[1], vs[1]));
          self.line("}");
        }
      }
    }
  }

  fn mem_stmt(&mut self) {
    match self.rng.below(3) {
      0 => {
        let (Some(p), Some(q)) = (self.place_of(&I, true), self.place_of(&I, true)) else {
          return;
        };
        if p.root == q.root || self.vars[p.root].dead {
          return;
        }
        self.line(&format!("std::mem::swap(&mut {}, &mut {});", p.text, q.text));
      }
      1 => {
        let e = self.expr(&S, 1);
        if let (Some(e), Some(p)) = (e, self.place_of(&S, true)) {
          if self.uses_dead(&e) || mentions(&e, &self.vars[p.root].name) {
            return;
          }
          let x = self.fresh("x");
          self.line(&format!("let mut {x}: S = std::mem::replace(&mut {}, {e});", p.text));
          self.declare(&x, S, vec![]);
        }
      }
      _ => {
        if let Some(p) = self.place_of(&O, true) {
          let x = self.fresh("x");
          self.line(&format!("let mut {x}: Option<i32> = {}.take();", p.text));
          self.declare(&x, O, vec![]);
        }
      }
    }
  }

  fn destructure(&mut self) {
    match self.rng.below(3) {
      0 => {
        if let Some(e) = self.expr(&Tup, 1) {
          let (a, b) = (self.fresh("x"), self.fresh("x"));
          self.line(&format!("let (mut {a}, mut {b}) = {e};"));
          self.declare(&a, I, vec![]);
          self.declare(&b, I, vec![]);
        }
      }
      1 => {
        if let Some(p) = self.place_of(&S, true) {
          let a = self.fresh("r");
          let b = self.fresh("r");
          self.line(&format!("let S {{ a: {a}, b: {b} }} = &mut {};", p.text));
          self.declare(&a, r(true, I), vec![(p.root, true)]);
          self.declare(&b, r(true, I), vec![(p.root, true)]);
          // not declared mut
          let n = self.vars.len();
          self.vars[n - 1].name = b;
        }
      }
      _ => {
        if let Some(i) = self.owned(&N) {
          let n = self.vars[i].name.clone();
          if self.kill(i) {
            let a = self.fresh("x");
            let b = self.fresh("x");
            self.line(&format!("let N {{ s: mut {a}, c: mut {b}, .. }} = {n};"));
            self.declare(&a, S, vec![]);
            self.declare(&b, I, vec![]);
          }
        }
      }
    }
  }
}

/// Whether identifier `id` occurs in `e`.
fn mentions(e: &str, id: &str) -> bool {
  let mut rest = e;
  while let Some(i) = rest.find(id) {
    let before = rest[.. i].chars().next_back();
    let after = rest[i + id.len() ..].chars().next();
    let w = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
    if !w(before) && !w(after) {
      return true;
    }
    rest = &rest[i + id.len() ..];
  }
  false
}

#[allow(unused)]
fn unused(s: &mut String) {
  let _ = write!(s, "");
}
