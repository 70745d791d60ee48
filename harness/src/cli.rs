//! The command line shared by all builds.
use crate::checks;
use crate::driver::*;

pub fn main() { main_with(checks::specs()) }

pub fn main_with(specs: Vec<Spec>) {
  let a: Vec<String> = std::env::args().collect();
  let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
  let find = |id: &str| specs.iter().find(|s| s.id == id).cloned().unwrap_or_else(|| { eprintln!("unknown check {id}"); std::process::exit(2) });
  match cmd {
    "run" => {
      let spec = find(&a[2]);
      let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
      let seed = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
      let tier = opt("--tier").unwrap_or("quick".into());
      let code = run_check(&spec, seed, tier == "thorough", opt("--secs").and_then(|s| s.parse().ok()), opt("--max").and_then(|s| s.parse().ok()),
        opt("--jobs").and_then(|s| s.parse().ok()));
      std::process::exit(code);
    }
    "worker" => {
      let spec = find(&a[2]);
      let n = |i: usize| a[i].parse::<u64>().unwrap();
      worker(&spec, n(3), n(4), n(5), n(6), a[7].parse().unwrap(), a[8] == "1");
    }
    "case" => {
      let spec = find(&a[2]);
      install_hook();
      let cx = run_one(&spec, a[3].parse().unwrap(), a[4].parse().unwrap(), a.get(5).map(|s| s == "1").unwrap_or(false), true);
      println!("events {:?}\nclasses {:?}\nsample {:?}\ninconclusive {:?}", cx.events, cx.classes, cx.sample, cx.inconclusive);
      for (s, m) in &cx.fails { println!("FAIL [{s}] {m}"); }
      std::process::exit(if cx.fails.is_empty() { 0 } else { 1 });
    }
    "list" => for s in &specs { println!("{}", s.id) },
    _ => { eprintln!("usage: vmon run|case|worker|list"); std::process::exit(2) }
  }
}
