#![feature(rustc_private, box_patterns)]
#![allow(clippy::all)]

extern crate libc;
extern crate rustc_abi;
extern crate rustc_borrowck;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_mir_dataflow;
extern crate rustc_span;

mod fixpoint;
mod flow;
mod focus;
mod generate;
mod history;
mod ifc;
mod interp;
mod minimise;
mod rng;
mod session;
mod worker;

use rng::Rng;
use worker::{Only, run_all};

fn main() {
  let args: Vec<String> = std::env::args().skip(1).collect();
  match args.first().map(|s| s.as_str()) {
    Some("gen") => {
      let seed = args[1].parse().unwrap();
      print!("{}", generate::gen_crate(&mut Rng::new(seed), args[2].parse().unwrap(), false));
    }
    Some("progs") => {
      // progs START COUNT: programs that compile, as lines of JSON; every third is for the security checker
      let (a, n): (u64, u64) = (args[1].parse().unwrap(), args[2].parse().unwrap());
      for s in a .. a + n {
        let ifc = s % 3 == 2;
        let src = worker::compiling(generate::gen_crate(&mut Rng::new(s), 1 + (s % 4) as usize, ifc));
        println!("{}", serde_json::json!({"seed": s, "ifc": ifc, "program": src}));
      }
    }
    Some("valid") => {
      let (mut n, mut bad) = (0, 0);
      let t = std::time::Instant::now();
      for s in 0..args[1].parse().unwrap() {
        let src = generate::gen_crate(&mut Rng::new(s), 12, false);
        match session::erroneous(&src, &[]) {
          None => { println!("seed {s}: session failed"); }
          Some(e) => { println!("seed {s}: {e:?}"); bad += e.len(); n += src.matches("pub fn t").count() + src.matches("pub fn h").count(); }
        }
      }
      println!("{bad}/{n} {:?}", t.elapsed());
    }
    Some("try") => {
      // try PROP SEED N MAX
      let prop = args[1].clone();
      let (a, n): (u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap());
      let max: usize = args.get(4).map_or(3, |s| s.parse().unwrap());
      let mut all = flow::Stats::default();
      let t = std::time::Instant::now();
      std::panic::set_hook(Box::new(|_| {}));
      let mut found = 0;
      let mut total = 0;
      for s in a .. a + n {
        let src = worker::program(&prop, s);
        let (st, _, vs) = run_all(&src, &prop, s, &Only { execs: 3, ..Only::default() });
        for (k, n) in st.0 { all.add(&k, n); }
        for (name, v) in vs {
          total += 1;
          if found < max {
            found += 1;
            let only = Only { name: Some(name.clone()), pin: None, execs: 8 };
            let min = minimise::minimise(&src, |c| {
              c.contains(&format!("fn {name}("))
                && run_all(c, &prop, s, &only).2.iter().any(|(_, w)| w.key == v.key)
            }, 400);
            println!("---- seed {s} {name}");
            println!("{min}");
            let w = &run_all(&min, &prop, s, &only).2[0].1;
            println!("{} {}", w.what, w.pin);
          }
        }
      }
      println!("{total} violations {:#}\n{:?}", all.json(), t.elapsed());
    }
    Some("tryh") => {
      // tryh PROP SEED N MAX
      let (a, n): (u64, u64) = (args[2].parse().unwrap(), args[3].parse().unwrap());
      let mut st = flow::Stats::default();
      let t = std::time::Instant::now();
      let mut found = 0;
      for s in a .. a + n {
        let plan = history::gen_plan(&args[1], s);
        match history::run_plan(&plan, &mut st) {
          Err(e) => st.add(&format!("no verdict: {e}"), 1),
          Ok(None) => {}
          Ok(Some(f)) => {
            found += 1;
            println!("seed {s}: {}", f.what);
            if found <= args[4].parse().unwrap() {
              let m = history::minimise(&plan, &f.key, 400);
              let m = history::explicit_schedule(&m, &f.key, 60);
              for x in m["sessions"].as_array().unwrap() {
                println!("{}\n{}", x["src"].as_str().unwrap(), x["ops"]);
              }
              println!("{}", m["schedule"]);
              println!("{:?}", history::run_plan(&m, &mut st).map(|f| f.map(|f| f.what)));
            }
          }
        }
      }
      println!("{found} violations {:#}\n{:?}", st.json(), t.elapsed());
    }
    Some("plan") => {
      let plan: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
      println!("{}", history::in_child(60, || history::run_here(&plan).to_string()).unwrap());
      println!("{:?}", history::run_plan(&plan, &mut flow::Stats::default()).map(|f| f.map(|f| f.what)));
    }
    Some("file") => {
      // file PROP FILE FN SEED EXECS
      let src = std::fs::read_to_string(&args[2]).unwrap();
      session::session(&src, &[], |tcx| {
        for (name, d) in session::functions(tcx) {
          if name == args[3] {
            let mut st = flow::Stats::default();
            let pr = flow::Params { execs: args[5].parse().unwrap(), faults: 40, verbose: true, pin: None };
            let mut seen = flow::Seen::default();
            let v = if args[1] == "C11" { fixpoint::check(tcx, d, args[4].parse().unwrap(), 6, None, &mut st, &mut seen) } else { flow::check(tcx, d, &args[1], args[4].parse().unwrap(), &pr, &mut st, &mut seen) };
            println!("{v:?}\n{}", st.json());
          }
        }
      });
    }
    Some("dump") => dump(&std::fs::read_to_string(&args[1]).unwrap(), &args[2], args[3].parse().unwrap()),
    Some("worker") => {
      let n = |i: usize| args[i].parse::<u64>().unwrap();
      worker::work(&args[1], n(2), n(3), n(4), n(5), n(6));
    }
    Some("replay") => {
      // replay FILE: 1 if the violation shows, 0 if not
      let r: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
      match worker::replay(&r) {
        Ok(Some(v)) => {
          println!("{} {}: {}", r["property"].as_str().unwrap(), v["key"].as_str().unwrap(), v["what"].as_str().unwrap());
          std::process::exit(if v["key"] == r["key"] { 1 } else { 3 });
        }
        Ok(None) => println!("no violation"),
        Err(e) => {
          println!("no verdict: {e}");
          std::process::exit(2);
        }
      }
    }
    Some("reduce") => {
      // reduce FILE SECONDS (rewrites FILE)
      let r: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
      let m = worker::reduce(&r, args[2].parse().unwrap());
      std::fs::write(&args[1], serde_json::to_string_pretty(&m).unwrap()).unwrap();
    }
    _ => panic!("usage"),
  }
}

/// Prints the flow of a function.
fn dump(src: &str, name: &str, mode: usize) {
  session::session(src, &[], |tcx| {
    for (n, d) in session::functions(tcx) {
      if n == name {
        flow::dump(tcx, d, mode);
      }
    }
  });
}
