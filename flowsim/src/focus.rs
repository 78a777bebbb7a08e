//! C22: the message of the real plugin for a focus request versus fault propagation
//! in simulated executions, both expressed as ranges of the source text.

use std::{
  collections::{BTreeMap, BTreeSet, HashMap},
  io::{Read, Seek, SeekFrom},
  os::fd::{AsRawFd, FromRawFd},
  panic::{AssertUnwindSafe, catch_unwind},
};

use base64::Engine;
use flowistry_ide::FlowistryPlugin;
use rustc_hir::def_id::LocalDefId;
use rustc_middle::{mir::{visit::Visitor, *}, ty::TyCtxt};
use rustc_mir_dataflow::{Analysis, impls::MaybeLiveLocals};
use rustc_plugin::RustcPlugin;
use rustc_span::Span;
use rustc_utils::{
  BodyExt, SpanExt,
  mir::{borrowck_facts::get_body_with_borrowck_facts, location_or_arg::LocationOrArg},
  source_map::spanner::Spanner,
};
use serde_json::{Value, json};

use crate::{
  flow::{Seen, Stats, Violation, describe_panic, forward_targets, has_ref, hash_of, kind_name, loa, name_of, short},
  history::in_child,
  interp::{EventKind, Fault, Interp, Loops, Query, Record},
  rng::Rng,
  session,
  worker::Only,
};

/// Start and end, each line and column, as in messages.
type Range = [usize; 4];

fn range(v: &Value) -> Range {
  let n = |a: &str, b: &str| v[a][b].as_u64().unwrap() as usize;
  [n("start", "line"), n("start", "column"), n("end", "line"), n("end", "column")]
}

fn show(r: &Range) -> String {
  format!("{}:{}-{}:{}", r[0] + 1, r[1] + 1, r[2] + 1, r[3] + 1)
}

fn contains(r: &Range, l: usize, c: usize) -> bool {
  (r[0], r[1]) <= (l, c) && (l, c) < (r[2], r[3])
}

/// Range of a span in the (only, ASCII) file.
fn of_span(tcx: TyCtxt<'_>, s: Span) -> Range {
  let m = tcx.sess.source_map();
  let (a, b) = (m.lookup_char_pos(s.lo()), m.lookup_char_pos(s.hi()));
  [a.line - 1, a.col.0, b.line - 1, b.col.0]
}

/// The first character of `r` other than white space that no range of `by` has.
fn uncovered(text: &[&str], r: &Range, by: &[Range]) -> Option<(usize, usize)> {
  for l in r[0] ..= r[2] {
    for (c, ch) in text[l].chars().enumerate() {
      if contains(r, l, c) && !ch.is_whitespace() && !by.iter().any(|b| contains(b, l, c)) {
        return Some((l, c));
      }
    }
  }
  None
}

struct Answer {
  places: Vec<(Range, Vec<Range>, Vec<Range>)>,
  containers: Vec<Range>,
}

/// Functions of another file, at ranges that functions of the file asked about may have too.
fn other_file(first_line: &str) -> String {
  let mut s = first_line.to_string();
  for i in 0 .. 40 {
    s += &format!("pub fn other{i}(x: i32) -> i32 {{\n  x\n}}\n");
  }
  s
}

/// What a process that runs the plugin on `src` writes to its standard output.
/// Layout 0: the only file; 1: a module of a crate whose main file has other functions;
/// 2: the main file of a crate with a module that has other functions.
fn message(src: &str, mode: usize, position: (usize, usize), spans: bool, layout: usize) -> Result<Value, String> {
  let dir = std::env::current_exe().unwrap().parent().unwrap().join(format!("c22-{}", std::process::id()));
  std::fs::create_dir_all(&dir).unwrap();
  // the name of the main file says nothing about which file is meant
  let root = dir.join("sim.rs");
  let module = dir.join("x/sim.rs");
  std::fs::create_dir_all(module.parent().unwrap()).unwrap();
  let line = "#[path = \"x/sim.rs\"] pub mod sim;\n";
  let others = other_file(line);
  let file = if layout == 1 { module.clone() } else { root.clone() };
  match layout {
    0 => std::fs::write(&root, src).unwrap(),
    1 => {
      std::fs::write(&root, others).unwrap();
      std::fs::write(&module, src).unwrap();
    }
    _ => {
      std::fs::write(&root, format!("{src}\n{line}")).unwrap();
      std::fs::write(&module, others.replacen(line, "\n", 1)).unwrap();
    }
  }
  let out = in_child(60, || {
    let path = file.display().to_string();
    let command = if spans {
      json!({"Spans": {"file": path}})
    } else {
      json!({"Focus": {"file": path, "pos_line": position.0, "pos_column": position.1}})
    };
    let default = mode == 0;
    let args = json!({
      "bench": null,
      "context_mode": if mode & 4 == 0 { if default { json!(null) } else { json!("SigOnly") } } else { json!("Recurse") },
      "mutability_mode": if mode & 1 == 0 { if default { json!(null) } else { json!("DistinguishMut") } } else { json!("IgnoreMut") },
      "pointer_mode": if mode & 2 == 0 { if default { json!(null) } else { json!("Precise") } } else { json!("Conservative") },
      "command": command,
    });
    let compiler: Vec<String> = ["rustc", root.to_str().unwrap(), "--crate-type", "lib", "--edition=2024", "--emit=metadata", "--sysroot", &*session::SYSROOT]
      .into_iter()
      .map(str::to_owned)
      .collect();
    let r = catch_unwind(AssertUnwindSafe(|| unsafe {
      let fd = libc::memfd_create(c"stdout".as_ptr(), 0);
      let mut f = std::fs::File::from_raw_fd(fd);
      libc::dup2(f.as_raw_fd(), 1);
      let null = std::fs::File::options().write(true).open("/dev/null").unwrap();
      libc::dup2(null.as_raw_fd(), 2);
      let ok = FlowistryPlugin.run(compiler, serde_json::from_value(args).unwrap()).is_ok();
      f.seek(SeekFrom::Start(0)).unwrap();
      let mut s = String::new();
      f.read_to_string(&mut s).unwrap();
      (ok, s)
    }));
    match r {
      Ok((true, s)) => json!({"out": s}).to_string(),
      Ok((false, _)) => json!({"failed": "it fails"}).to_string(),
      Err(p) => json!({"failed": describe_panic(&*p)}).to_string(),
    }
  });
  let _ = std::fs::remove_dir_all(&dir);
  let out = out.ok_or("its process died or did not end")?;
  let v: Value = serde_json::from_str(&out).map_err(|_| "its process died".to_string())?;
  if let Some(f) = v["failed"].as_str() {
    return Err(f.into());
  }
  let bytes = base64::engine::general_purpose::STANDARD.decode(v["out"].as_str().unwrap().trim()).map_err(|e| e.to_string())?;
  let mut s = String::new();
  flate2::read::GzDecoder::new(&bytes[..]).read_to_string(&mut s).map_err(|e| e.to_string())?;
  let m: Value = serde_json::from_str(&s).map_err(|e| e.to_string())?;
  match m.get("Ok") {
    Some(v) => Ok(v.clone()),
    None => Err(format!("it answers {m}")),
  }
}

fn parse(v: &Value) -> Answer {
  let list = |v: &Value| v.as_array().unwrap().iter().map(range).collect::<Vec<_>>();
  Answer {
    places: v["place_info"]
      .as_array()
      .unwrap()
      .iter()
      .map(|p| (range(&p["range"]), list(&p["slice"]), list(&p["direct_influence"])))
      .collect(),
    containers: list(&v["containers"]),
  }
}

struct Function {
  name: String,
  item: Range,
  body: Range,
}

/// Checks some functions of a crate, or the one named.
pub fn run_all(src: &str, seed: u64, only: &Only) -> (Stats, Seen, Vec<(String, Violation)>) {
  let (mut st, mut seen, mut vs) = (Stats::default(), Seen::default(), vec![]);
  seen.program = hash_of(src);
  let fns = std::sync::Mutex::new(vec![]);
  let closures = std::sync::Mutex::new(vec![]);
  session::session(src, &[], |tcx| {
    let all = session::functions(tcx);
    if all.iter().any(|(_, d)| session::has_errors(tcx, *d)) {
      return;
    }
    for (name, d) in all {
      let span = tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(d));
      if span.from_expansion() {
        continue;
      }
      let item = of_span(tcx, span);
      let body = of_span(tcx, tcx.hir_body_owned_by(d).value.span);
      fns.lock().unwrap().push(Function { name, item, body });
    }
    for d in tcx.hir_body_owners() {
      if tcx.is_closure_like(d.to_def_id()) {
        closures.lock().unwrap().push((
          of_span(tcx, tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(d))),
          of_span(tcx, tcx.hir_body_owned_by(d).value.span),
        ));
      }
    }
  });
  let (fns, closures) = (fns.into_inner().unwrap(), closures.into_inner().unwrap());
  if fns.is_empty() {
    st.add("crates that do not compile", 1);
    return (st, seen, vs);
  }
  let mut rng = Rng::new(seed);
  let text: Vec<&str> = src.lines().collect();
  let layout = match &only.pin {
    Some(p) => p["layout"].as_u64().unwrap_or(0) as usize,
    None => rng.below(3),
  };
  let v = |what: String, key: &str| Violation { what, key: key.into(), pin: json!({"layout": layout}) };
  // every function of the file is offered
  if only.name.is_none() || only.name.as_deref() == Some("") {
    st.add("requests for functions", 1);
    match message(src, 0, (0, 0), true, layout) {
      Err(e) => vs.push(("".into(), v(format!("no answer to a request for the functions of the file: {e}"), "no answer"))),
      Ok(m) => {
        let got: BTreeSet<Range> = m["spans"].as_array().unwrap().iter().map(range).collect();
        for f in &fns {
          if !got.contains(&f.item) {
            vs.push(("".into(), v(format!("the function {} at {} is not among those of the file", f.name, show(&f.item)), "function missing")));
            break;
          }
        }
        let other = |r: &&Range| layout > 0 && r[0] >= 1 && (r[0] - 1) % 3 == 0 && r[1] == 0 && r[2] == r[0] + 2 && r[3] == 1;
        if let Some(r) = got.iter().filter(other).find(|r| !fns.iter().any(|f| f.item == **r)) {
          vs.push(("".into(), v(format!("a function of another file, at {}, is among those of the file", show(r)), "function of another file")));
        }
      }
    }
  }
  let mut chosen: Vec<&Function> = fns
    .iter()
    .filter(|f| match &only.name {
      Some(n) => *n == f.name,
      None => f.name.rsplit("::").next().unwrap().starts_with(['t', 'h', 'd']),
    })
    .collect();
  while chosen.len() > 4 {
    let i = rng.below(chosen.len());
    chosen.swap_remove(i);
  }
  let mut asked: Vec<(&Function, usize, (usize, usize), Answer)> = vec![];
  for f in chosen {
    let h = f.name.bytes().fold(seed, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
    let mut rng = Rng::new(h ^ 0x22);
    let mut mode = if rng.chance(1, 2) { 0 } else { rng.below(8) };
    // anywhere in the function but in closures, whose bodies are other functions
    let mut at = (f.item[0], f.item[1]);
    for _ in 0 .. 20 {
      let l = f.item[0] + rng.below(f.item[2] - f.item[0] + 1);
      let c = rng.below(text[l].len() + 1);
      if contains(&f.item, l, c) && !closures.iter().any(|(r, _)| contains(r, l, c) || (r[2], r[3]) == (l, c)) {
        at = (l, c);
        break;
      }
    }
    if let Some(p) = &only.pin {
      mode = p["mode"].as_u64().unwrap() as usize;
      if let Some(a) = p["position"].as_array() {
        at = (a[0].as_u64().unwrap() as usize, a[1].as_u64().unwrap() as usize);
      }
    }
    // a position in a closure is about the closure
    let inside: Vec<&(Range, Range)> = closures.iter().filter(|(r, _)| contains(&f.item, r[0], r[1])).collect();
    let asks_closure = only.pin.as_ref().is_some_and(|p| p.get("closure").is_some());
    if asks_closure || (only.pin.is_none() && !inside.is_empty() && rng.chance(1, 2)) {
      let (l, c) = if only.pin.is_some() {
        at
      } else {
        let (r, _) = rng.pick(&inside);
        let l = r[0] + rng.below(r[2] - r[0] + 1);
        (l, rng.below(text[l].len() + 1))
      };
      // the innermost one
      let want = inside
        .iter()
        .filter(|(r, _)| contains(r, l, c))
        .max_by_key(|(r, _)| (r[0], r[1]))
        .filter(|_| !inside.iter().any(|(r, _)| (r[2], r[3]) == (l, c)));
      if let Some((_, body)) = want {
        st.add("requests in closures", 1);
        let pin = json!({"mode": mode, "position": [l, c], "closure": true, "layout": layout});
        match message(src, mode, (l, c), false, layout) {
          Err(e) => vs.push((f.name.clone(), Violation { what: format!("no answer to a request at {}:{} in a closure in {}: {e}", l + 1, c + 1, f.name), key: "no answer".into(), pin })),
          Ok(m) => {
            let a = parse(&m);
            if !a.containers.contains(body) {
              vs.push((f.name.clone(), Violation { what: format!("a request at {}:{} in a closure in {} is answered for {}, not for the body {} of that closure", l + 1, c + 1, f.name, a.containers.first().map_or("nothing".into(), show), show(body)), key: "another function".into(), pin }));
            }
          }
        }
      }
      if asks_closure {
        continue;
      }
    }
    let pin = json!({"mode": mode, "position": [at.0, at.1], "layout": layout});
    st.add("requests", 1);
    match message(src, mode, at, false, layout) {
      Err(e) => vs.push((f.name.clone(), Violation { what: format!("no answer to a request at {}:{} in {}: {e}", at.0 + 1, at.1 + 1, f.name), key: "no answer".into(), pin })),
      Ok(m) => {
        let a = parse(&m);
        if !a.containers.contains(&f.body) {
          vs.push((f.name.clone(), Violation { what: format!("a request at {}:{} in {} is answered for {}, not for the body {} of that function", at.0 + 1, at.1 + 1, f.name, a.containers.first().map_or("nothing".into(), show), show(&f.body)), key: "another function".into(), pin }));
          continue;
        }
        asked.push((f, mode, at, a));
      }
    }
  }
  let out = std::sync::Mutex::new((st, seen, vs));
  session::session(src, &[], |tcx| {
    let o = &mut *out.lock().unwrap();
    let all: HashMap<String, LocalDefId> = session::functions(tcx).into_iter().collect();
    for (f, mode, at, a) in &asked {
      let h = f.name.bytes().fold(seed, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
      let r = catch_unwind(AssertUnwindSafe(|| one(tcx, all[&f.name], h, *mode, a, &text, only, &mut o.0, &mut o.1)));
      match r {
        Ok(None) => {}
        Ok(Some(mut v)) => {
          v.pin["mode"] = json!(mode);
          v.pin["position"] = json!([at.0, at.1]);
          v.pin["layout"] = json!(layout);
          o.2.push((f.name.clone(), v));
        }
        Err(p) => o.0.add(&format!("no verdict: {}", short(&describe_panic(&*p))), 1),
      }
      if let Some(s) = &mut o.1.sample
        && s.get("function").is_none()
      {
        s["function"] = json!(f.name);
      }
    }
  });
  out.into_inner().unwrap_or_else(|e| e.into_inner())
}

/// Places that an assignment reads.
fn operands<'tcx>(body: &Body<'tcx>, l: Location) -> Vec<Place<'tcx>> {
  struct V<'tcx>(Vec<Place<'tcx>>);
  impl<'tcx> Visitor<'tcx> for V<'tcx> {
    fn visit_operand(&mut self, o: &Operand<'tcx>, _: Location) {
      self.0.extend(o.place());
    }
  }
  let mut v = V(vec![]);
  if let Some(s) = body.stmt_at(l).left() {
    v.visit_statement(s, l);
  }
  v.0
}

fn one<'tcx>(
  tcx: TyCtxt<'tcx>,
  def: LocalDefId,
  seed: u64,
  mode: usize,
  answer: &Answer,
  text: &[&str],
  only: &Only,
  st: &mut Stats,
  seen: &mut Seen,
) -> Option<Violation> {
  let pinned = |k: &str| only.pin.as_ref().and_then(|p| p.get(k));
  let number = |k: &str| pinned(k).and_then(|v| v.as_str()).map(|s| s.parse::<u64>().unwrap());
  let mut rng = Rng::new(seed);
  let facts = get_body_with_borrowck_facts(tcx, def);
  let body = &facts.body;
  let body_id = tcx.hir_body_owned_by(def).id();
  let spanner = Spanner::new(tcx, body_id, body);
  let invalid = |s: Span| s.is_dummy() || s.source_equal(spanner.body_span) || s.source_equal(spanner.item_span);
  // the text of a statement
  let text_of = |l: LocationOrArg| -> Option<Range> {
    let s = match l {
      LocationOrArg::Arg(a) => body.local_decls[a].source_info.span,
      LocationOrArg::Location(l) => body.source_info(l).span,
    };
    let s = s.as_local(spanner.item_span)?;
    (!invalid(s) && s != body.span.shrink_to_hi()).then(|| of_span(tcx, s))
  };
  // what occurs where
  let mut occurrences: BTreeMap<Range, Vec<(Place<'tcx>, LocationOrArg)>> = BTreeMap::new();
  for m in spanner.mir_span_tree.iter() {
    let r = of_span(tcx, m.span.span());
    for l in &m.locations {
      occurrences.entry(r).or_default().push((m.place, *l));
    }
  }
  let slice = |r: &Range| -> Vec<Range> { answer.places.iter().filter(|p| p.0 == *r).flat_map(|p| p.1.clone()).collect() };
  let direct = |r: &Range| -> Vec<Range> { answer.places.iter().filter(|p| p.0 == *r).flat_map(|p| p.2.clone()).collect() };
  let snippet = |r: &Range| -> String {
    if r[0] == r[2] { format!("`{}` ({})", text[r[0]].chars().skip(r[1]).take(r[3] - r[1]).collect::<String>(), show(r)) } else { show(r) }
  };
  for (r, _) in &occurrences {
    st.add("occurrences", 1);
    if !answer.places.iter().any(|p| p.0 == *r) {
      return Some(Violation { what: format!("{} cannot be selected: the answer has nothing about it", snippet(r)), key: "occurrence missing".into(), pin: json!({}) });
    }
  }
  if body.all_returns().next().is_none() {
    st.add("functions that never return", 1);
    return None;
  }
  let flat: Vec<(Range, Place<'tcx>, LocationOrArg)> =
    occurrences.iter().flat_map(|(r, ps)| ps.iter().map(|(p, l)| (*r, *p, *l))).collect();
  if flat.is_empty() {
    return None;
  }
  let live = {
    let mut cur = MaybeLiveLocals.iterate_to_fixpoint(tcx, body, None).into_results_cursor(body);
    let mut m: HashMap<Location, Vec<bool>> = HashMap::new();
    for loc in body.all_locations() {
      cur.seek_before_primary_effect(loc);
      let s = cur.get();
      m.insert(loc, (0 .. body.local_decls.len()).map(|i| s.contains(Local::from_usize(i))).collect());
    }
    m
  };
  let loops = Loops::build(body);
  for _ in 0 .. if only.pin.is_some() { 1 } else { only.execs } {
    let exec_seed = number("exec").unwrap_or_else(|| rng.next());
    let fault_seed = rng.next();
    let run = |queries: &[Query<'tcx>], fault: Option<Fault>| {
      let mut m = Interp::new(tcx, def.to_def_id(), queries, &loops);
      m.fault = fault;
      m.opaque_calls = mode & 4 == 0;
      let mut r = Rng::new(exec_seed);
      let mut args = vec![];
      for i in 1 ..= body.arg_count {
        let ty = tcx.erase_regions(body.local_decls[Local::from_usize(i)].ty);
        match m.gen_val(ty, &mut r, 0) {
          Ok(v) => args.push(v),
          Err(_) => return Record::default(),
        }
      }
      let _ = m.run_top(args);
      std::mem::take(&mut m.rec)
    };
    st.add("executions", 1);
    let plan = run(&[], None);
    if plan.events.is_empty() {
      continue;
    }
    let visited: BTreeSet<Location> = plan.visited.iter().copied().collect();
    // questions: occurrences that the execution comes to
    let mut ask: Vec<(Range, Query<'tcx>)> = flat
      .iter()
      .filter_map(|(r, p, l)| match l {
        LocationOrArg::Location(l) if visited.contains(l) => Some((*r, Query { place: *p, loc: *l })),
        _ => None,
      })
      .filter(|(_, q)| !has_ref(body.local_decls[q.place.local].ty) || live[&q.loc][q.place.local.as_usize()])
      .collect();
    if let (Some(p), Some(l)) = (pinned("place"), pinned("location")) {
      ask.retain(|(r, q)| Some(&*format!("{:?}", q.place)) == p.as_str() && Some(&*format!("{:?}", q.loc)) == l.as_str() && Some(&*show(r)) == pinned("range").and_then(|r| r.as_str()));
    }
    while ask.len() > 60 {
      let i = rng.below(ask.len());
      ask.swap_remove(i);
    }
    let queries: Vec<Query<'tcx>> = ask.iter().map(|(_, q)| q.clone()).collect();
    let base = run(&queries, None);
    st.add("simulated instructions", base.steps as u64);
    let candidates: Vec<usize> = (0 .. base.events.len()).filter(|i| base.events[*i].leaves > 0).collect();
    if candidates.is_empty() {
      continue;
    }
    let mut fr = Rng::new(fault_seed);
    for _ in 0 .. if only.pin.is_some() { 1 } else { 24 } {
      let mut fault = Fault { event: *fr.pick(&candidates), salt: fr.next() };
      if only.pin.is_some() && pinned("event").is_some() {
        fault = Fault { event: pinned("event")?.as_u64()? as usize, salt: number("salt")? };
        if !candidates.contains(&fault.event) {
          return None;
        }
      }
      let rec = run(&queries, Some(fault.clone()));
      st.add("simulated instructions", rec.steps as u64);
      let Some(done) = &rec.fault else { continue };
      let ev = &base.events[fault.event];
      st.add(&format!("fault {}", kind_name(ev.kind, ev.depth)), 1);
      st.add("faults injected", 1);
      let source = match ev.kind {
        EventKind::Arg(i) => LocationOrArg::Arg(Local::from_u32(i)),
        _ => LocationOrArg::Location(ev.loc),
      };
      let Some(source_text) = text_of(source) else { continue };
      let mut effects = 0;
      let pin = |r: &Range, more: Value| {
        let mut p = json!({"exec": exec_seed.to_string(), "event": fault.event, "salt": fault.salt.to_string(), "range": show(r)});
        for (k, v) in more.as_object().unwrap() {
          p[k] = v.clone();
        }
        p
      };
      // what the altered statement changes
      let mut keys: Vec<_> = base.observed.keys().collect();
      keys.sort();
      for k in keys {
        let (d, shown) = &base.observed[k];
        st.add("observations compared", 1);
        let Some((d2, shown2)) = rec.observed.get(k) else { continue };
        if d == d2 {
          continue;
        }
        effects += 1;
        let (r, q) = &ask[k.0];
        seen.cases.insert(hash_of((seen.program, exec_seed, fault.event, r)));
        let s = slice(r);
        let what = format!("{} at {} changes {} at {} from {} to {}", done.what, snippet(&source_text), name_of(tcx, body, q.place), snippet(r), short(shown), short(shown2));
        if seen.sample.is_none() {
          seen.sample = Some(json!({"execution seed": exec_seed.to_string(), "event": fault.event, "influence": what, "highlighted": s.iter().map(show).collect::<Vec<_>>()}));
        }
        let more = json!({"place": format!("{:?}", q.place), "location": format!("{:?}", q.loc)});
        if let Some((l, c)) = uncovered(text, &source_text, &s) {
          return Some(Violation { what: format!("{what}, but {}:{} is not highlighted", l + 1, c + 1), key: "influence not highlighted".into(), pin: pin(r, more) });
        }
        // an assignment to the very memory the place denotes, by whatever name
        let scalar = match source {
          LocationOrArg::Location(l) => match body.stmt_at(l).left() {
            Some(Statement { kind: StatementKind::Assign(box (p, _)), .. }) => p.ty(body.local_decls(), tcx).ty.is_scalar(),
            _ => false,
          },
          _ => false,
        };
        let assigns = scalar
          && q.place.ty(body.local_decls(), tcx).ty.is_scalar()
          && rec.observed_at.get(k).is_some_and(|(a, p)| *a == done.alloc && *p == done.path);
        if ev.depth == 0 && ev.kind == EventKind::Assign && assigns {
          st.add("direct influences checked", 1);
          if let Some((l, c)) = uncovered(text, &source_text, &direct(r)) {
            return Some(Violation { what: format!("{what} by assigning to it, but {}:{} is not among the direct influences", l + 1, c + 1), key: "direct influence missing".into(), pin: pin(r, more) });
          }
        }
      }
      // what the altered value changes elsewhere; looking into called functions, a part
      // that they do not use does not influence the call
      if mode < 4 && ev.depth == 0 && matches!(ev.kind, EventKind::Arg(_) | EventKind::Assign | EventKind::CallRet) {
        let targets = forward_targets(tcx, body, ev.kind, source, &done.path);
        let from: Vec<Range> = flat.iter().filter(|(_, p, l)| *l == source && targets.contains(p)).map(|x| x.0).collect::<BTreeSet<_>>().into_iter().collect();
        let mut keys: Vec<_> = base.written.keys().collect();
        keys.sort();
        for k in keys {
          if from.is_empty() || LocationOrArg::Location(k.0) == source {
            continue;
          }
          let (d, shown) = &base.written[k];
          let Some((d2, shown2)) = rec.written.get(k) else { continue };
          if d == d2 {
            continue;
          }
          effects += 1;
          let Some(t) = text_of(LocationOrArg::Location(k.0)) else { continue };
          for r in &from {
            if pinned("affected").is_some_and(|a| a.as_str() != Some(&*format!("{:?}", k.0))) || pinned("range").is_some_and(|a| a.as_str() != Some(&*show(r))) {
              continue;
            }
            // reads the very place
            let scalar = |p: Place<'tcx>| p.ty(body.local_decls(), tcx).ty.is_scalar();
            let of_r = |p: Place<'tcx>| scalar(p) && flat.iter().any(|(x, q, l)| x == r && *l == source && q.local == p.local && format!("{q:?}") == format!("{p:?}"));
            if operands(body, k.0).into_iter().any(of_r) {
              st.add("direct influences checked", 1);
              if let Some((l, c)) = uncovered(text, &t, &direct(r)) {
                return Some(Violation {
                  what: format!("{} at {} changes what {} ({:?}) reads from it, but {}:{} is not among the direct influences of {}", done.what, loa(source), snippet(&t), k.0, l + 1, c + 1, snippet(r)),
                  key: "direct influence missing".into(),
                  pin: pin(r, json!({"affected": format!("{:?}", k.0)})),
                });
              }
            }
            if let Some((l, c)) = uncovered(text, &t, &slice(r)) {
              return Some(Violation {
                what: format!("{} at {} changes what {} ({:?}) writes or decides from {} to {}, but {}:{} is not highlighted for {}", done.what, loa(source), snippet(&t), k.0, short(shown), short(shown2), l + 1, c + 1, snippet(r)),
                key: "influenced code not highlighted".into(),
                pin: pin(r, json!({"affected": format!("{:?}", k.0)})),
              });
            }
          }
        }
      }
      if effects > 0 {
        st.add("faults with an observable effect", 1);
        st.add("observed influences checked", effects);
      }
    }
  }
  None
}
