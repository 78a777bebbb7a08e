//! Batches, replay files and their minimisation, driven by run.py.

use std::time::{Duration, Instant};

use serde_json::{Value, json};

use crate::{
  fixpoint, flow, focus,
  flow::{Seen, Stats, Violation, hash_of},
  generate,
  history::{self, in_child},
  ifc,
  minimise,
  rng::Rng,
  session,
};

const CHILD_S: i32 = 90;

pub fn is_history(prop: &str) -> bool {
  matches!(prop, "C14" | "C15" | "C16")
}

/// What to run of a crate.
#[derive(Default, Clone)]
pub struct Only {
  pub name: Option<String>,
  pub pin: Option<Value>,
  pub execs: usize,
}

/// Checks the functions of a crate in this process; one that does not compile has none.
pub fn run_all(
  src: &str,
  prop: &str,
  seed: u64,
  only: &Only,
) -> (Stats, Seen, Vec<(String, Violation)>) {
  if prop == "C19" {
    return ifc::run_all(src, seed, only);
  }
  if prop == "C22" {
    return focus::run_all(src, seed, only);
  }
  let out = std::sync::Mutex::new((Stats::default(), Seen::default(), vec![]));
  out.lock().unwrap().1.program = hash_of(src);
  session::session(src, &[], |tcx| {
    let fns = session::functions(tcx);
    if fns.iter().any(|(_, d)| session::has_errors(tcx, *d)) {
      out.lock().unwrap().0.add("crates that do not compile", 1);
      return;
    }
    for (name, d) in fns {
      match &only.name {
        Some(n) if *n != name => continue,
        None if !name.starts_with(['t', 'h', 'd']) => continue,
        _ => {}
      }
      let mut st = Stats::default();
      let h = name.bytes().fold(seed, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
      let o = &mut *out.lock().unwrap();
      let v = match prop {
        "C11" => fixpoint::check(tcx, d, h, 6, only.pin.as_ref(), &mut st, &mut o.1),
        _ => {
          let pr = flow::Params {
            execs: only.execs,
            faults: 40,
            verbose: false,
            pin: only.pin.clone(),
          };
          flow::check(tcx, d, prop, h, &pr, &mut st, &mut o.1)
        }
      };
      if let Some(s) = &mut o.1.sample
        && s.get("function").is_none()
      {
        s["function"] = json!(name);
      }
      for (k, n) in st.0 {
        o.0.add(&k, n);
      }
      if let Some(v) = v {
        o.2.push((name, v));
      }
    }
  });
  out.into_inner().unwrap_or_else(|e| e.into_inner())
}

fn violation_json(name: &str, v: &Violation) -> Value {
  json!({"fn": name, "key": v.key, "what": v.what, "pin": v.pin})
}

/// `run_all` in a child; `None` if that died or did not finish.
fn run_child(src: &str, prop: &str, seed: u64, only: &Only) -> Option<Value> {
  let s = in_child(CHILD_S, || {
    let (st, seen, vs) = run_all(src, prop, seed, only);
    let v: Vec<Value> = vs.iter().map(|(n, v)| violation_json(n, v)).collect();
    json!({"stats": st.json(), "cases": seen.cases.len(), "sample": seen.sample, "violations": v})
      .to_string()
  })?;
  serde_json::from_str(&s).ok()
}

fn extra_of(prop: &str) -> Vec<String> {
  if prop == "C19" { ifc::extern_args() } else { vec![] }
}

fn functions_of(src: &str, prop: &str) -> Vec<String> {
  let s = in_child(CHILD_S, || {
    let out = std::sync::Mutex::new(vec![]);
    session::session(src, &extra_of(prop), |tcx| {
      let fns = session::functions(tcx);
      if !fns.iter().any(|(_, d)| session::has_errors(tcx, *d)) {
        out.lock().unwrap().extend(fns.into_iter().map(|f| f.0));
      }
    });
    json!(*out.lock().unwrap()).to_string()
  });
  s.and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default()
}

/// Checks one function, or all of them, of a crate.
fn unit(src: &str, prop: &str, seed: u64, only: &Only) -> Value {
  if let Some(v) = run_child(src, prop, seed, only) {
    return v;
  }
  // the process died; where?
  let names = match &only.name {
    Some(n) => vec![n.clone()],
    None => functions_of(src, prop).into_iter().filter(|n| n.starts_with(['t', 'h', 'd'])).collect(),
  };
  let mut vs = vec![];
  for n in names {
    let o = Only { name: Some(n.clone()), ..only.clone() };
    if run_child(src, prop, seed, &o).is_none() {
      vs.push(json!({"fn": n, "key": "no answer", "pin": {},
        "what": "the analysis gave no answer: its process died (stack overflow, abort) or did not end"}));
      break;
    }
  }
  let mut st = Stats::default();
  st.add("crates whose process died", 1);
  json!({"stats": st.json(), "cases": 0, "sample": null, "violations": vs})
}

pub fn program(prop: &str, seed: u64) -> String {
  if prop == "C19" {
    return compiling(generate::gen_crate(&mut Rng::new(seed), 1 + (seed % 8) as usize, true));
  }
  generate::gen_crate(&mut Rng::new(seed), 12, false)
}

/// One evaluation: a crate or a history.
fn evaluate(prop: &str, seed: u64) -> Value {
  if is_history(prop) {
    let plan = history::gen_plan(prop, seed);
    let mut st = Stats::default();
    let r = history::run_plan(&plan, &mut st);
    let mut vs = vec![];
    match r {
      Err(e) => st.add(&format!("no verdict: {}", e.chars().take(60).collect::<String>()), 1),
      Ok(None) => {}
      Ok(Some(f)) => vs.push(json!({"key": f.key, "what": f.what, "plan": plan})),
    }
    let schedule = st.0.remove("#schedule");
    let ops: Vec<&Value> = plan["sessions"].as_array().unwrap().iter().map(|s| &s["ops"]).collect();
    return json!({"stats": st.json(), "violations": vs, "cases": 1, "case": hash_of(plan.to_string()),
      "schedule": schedule, "sample": {"sessions": ops, "schedule": plan.get("schedule")}});
  }
  let src = program(prop, seed);
  let mut r = unit(&src, prop, seed, &Only { execs: 3, ..Only::default() });
  r["case"] = json!(hash_of(&src));
  if let Some(f) = r["sample"]["function"].as_str() {
    r["sample"]["source"] = json!(function_text(&src, f));
  }
  for v in r["violations"].as_array_mut().unwrap() {
    v["program"] = json!(src);
  }
  r
}

/// Without the groups of functions that do not compile.
pub fn compiling(src: String) -> String {
  let bad = in_child(CHILD_S, || json!(session::erroneous(&src, &ifc::extern_args())).to_string());
  let bad: Vec<String> = bad.and_then(|s| serde_json::from_str(&s).ok()).unwrap_or_default();
  let group = |n: &str| -> String { n[1 ..].split('_').next().unwrap().to_string() };
  let bad: Vec<String> = bad.iter().filter(|n| n.starts_with(['t', 'h', 'd'])).map(|n| group(n)).collect();
  if bad.is_empty() {
    return src;
  }
  let mut out = String::new();
  let mut skip = false;
  for l in src.lines() {
    if let Some(n) = l.strip_prefix("pub fn ")
      && n.starts_with(['t', 'h', 'd'])
      && n[1 ..].starts_with(|c: char| c.is_ascii_digit())
    {
      skip = bad.contains(&group(n.split('(').next().unwrap()));
    }
    if !skip {
      out.push_str(l);
      out.push('\n');
    }
  }
  out
}

fn function_text(src: &str, name: &str) -> String {
  let mut out = String::new();
  let mut on = false;
  for l in src.lines() {
    on |= l.contains(&format!("fn {name}(")) || l.contains(&format!("fn {name}<"));
    if on {
      out.push_str(l);
      out.push('\n');
      if l == "}" {
        break;
      }
    }
  }
  out
}

pub fn work(prop: &str, base: u64, start: u64, stride: u64, total: u64, seconds: u64) {
  let t = Instant::now();
  let mut i = start;
  while i < total && t.elapsed() < Duration::from_secs(seconds) {
    let seed = base + i;
    let mut r = evaluate(prop, seed);
    r["i"] = json!(i);
    r["seed"] = json!(seed);
    println!("{r}");
    i += stride;
  }
}

// ---------------------------------------------------------------- replay files

fn only_of(r: &Value) -> Only {
  Only {
    name: r["fn"].as_str().map(|s| s.to_string()),
    pin: r["pin"].as_object().filter(|o| !o.is_empty()).map(|_| r["pin"].clone()),
    execs: r["execs"].as_u64().unwrap_or(3) as usize,
  }
}

/// The violation that a replay file shows, if it still does.
pub fn replay(r: &Value) -> Result<Option<Value>, String> {
  let prop = r["property"].as_str().unwrap();
  if is_history(prop) {
    let f = history::run_plan(&r["plan"], &mut Stats::default())?;
    return Ok(f.map(|f| json!({"key": f.key, "what": f.what})));
  }
  let v = unit(r["program"].as_str().unwrap(), prop, seed_of(r), &only_of(r));
  Ok(v["violations"].as_array().unwrap().first().cloned())
}

fn seed_of(r: &Value) -> u64 {
  r["seed"].as_u64().unwrap()
}

fn shows(r: &Value) -> Option<Value> {
  match replay(r) {
    Ok(Some(v)) if v["key"] == r["key"] => Some(v),
    _ => None,
  }
}

/// Reduces a failing case.
pub fn reduce(r: &Value, seconds: u64) -> Value {
  let t = Instant::now();
  let late = || t.elapsed() > Duration::from_secs(seconds);
  let mut r = r.clone();
  let prop = r["property"].as_str().unwrap().to_string();
  if is_history(&prop) {
    let key = r["key"].as_str().unwrap().to_string();
    let budget = if seconds > 100 { 400 } else { 150 };
    let m = history::minimise(&r["plan"], &key, budget);
    r["plan"] = history::explicit_schedule(&m, &key, 60);
  } else {
    // the program
    let whole = Only { name: r["fn"].as_str().map(|s| s.to_string()), pin: None, execs: 8 };
    let seed = seed_of(&r);
    let fname = r["fn"].as_str().unwrap().to_string();
    let key = r["key"].clone();
    let run = |src: &str| -> Option<Value> {
      let last = fname.rsplit("::").next().unwrap();
      if !last.is_empty() && !src.contains(&format!("fn {last}")) {
        return None;
      }
      let v = unit(src, &prop, seed, &whole);
      let v = v["violations"].as_array().unwrap().first().cloned()?;
      (v["key"] == key).then_some(v)
    };
    let src = r["program"].as_str().unwrap().to_string();
    let slow = r["key"] == "no answer";
    let min = minimise::minimise(
      &src,
      |c| !late() && (!slow || session_ok(c, &prop)) && run(c).is_some(),
      if slow { 150 } else { 500 },
    );
    r["program"] = json!(min);
    r["execs"] = json!(8);
    match run(&min) {
      None => {
        // not found again under its own: keep the original
        r["program"] = json!(src);
        r["execs"] = json!(3);
      }
      Some(v) => {
        r["what"] = v["what"].clone();
        let mut c = r.clone();
        c["pin"] = v["pin"].clone();
        if let Some(w) = shows(&c) {
          c["what"] = w["what"].clone();
          r = c;
        }
      }
    }
    // the schedules
    if let Some(n) = r["pin"]["schedules"].as_array().map(|a| a.len()) {
      for i in 0 .. n {
        let len = r["pin"]["schedules"][i].as_array().unwrap().len();
        let mut size = len;
        while size > 0 && !late() {
          let mut lo = 0;
          while lo < len && !late() {
            let mut c = r.clone();
            let mut any = false;
            for j in lo .. (lo + size).min(len) {
              any |= c["pin"]["schedules"][i][j] != 0;
              c["pin"]["schedules"][i][j] = json!(0);
            }
            if any && let Some(w) = shows(&c) {
              c["what"] = w["what"].clone();
              r = c;
            }
            lo += size;
          }
          size /= 2;
        }
        let a = r["pin"]["schedules"][i].as_array_mut().unwrap();
        while a.last().is_some_and(|x| *x == 0) {
          a.pop();
        }
      }
    }
  }
  if let Some(w) = shows(&r) {
    r["what"] = w["what"].clone();
  }
  r
}

fn session_ok(src: &str, prop: &str) -> bool {
  in_child(CHILD_S, || format!("{:?}", session::erroneous(src, &extra_of(prop)))).as_deref() == Some("Some([])")
}
