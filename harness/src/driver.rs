//! Runs cases in worker processes, watches them, and turns observations into verdicts.
use crate::rng::{hash, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Cx {
  pub check: &'static str,
  pub seed: u64,
  pub idx: u64,
  pub thorough: bool,
  pub verbose: bool,
  pub events: BTreeMap<String, u64>,
  pub classes: BTreeSet<String>,
  pub fails: Vec<(String, String)>,
  pub inconclusive: Vec<String>,
  pub sample: Option<String>,
}
impl Cx {
  pub fn rng(&self) -> Rng { Rng::new(self.seed ^ hash(self.check.as_bytes()), self.idx) }
  pub fn count(&mut self, k: &str, n: u64) {
    if n > 0 { *self.events.entry(k.to_string()).or_insert(0) += n; }
  }
  pub fn class(&mut self, c: impl Into<String>) { self.classes.insert(c.into()); }
  /// `sig` identifies the kind of failure (used to match known findings)
  pub fn fail(&mut self, sig: &str, msg: impl Into<String>) {
    let m = msg.into();
    if self.fails.len() < 6 { self.fails.push((sig.to_string(), m)); }
  }
  pub fn inconclusive(&mut self, m: impl Into<String>) { self.inconclusive.push(m.into()); }
  pub fn sample(&mut self, s: impl Into<String>) { if self.sample.is_none() { self.sample = Some(s.into()); } }
}

/// Part of a check that runs in a differently instrumented build.
#[derive(Clone, Copy)]
pub struct Phase {
  pub name: &'static str,
  /// environment variable that names the executable; empty: this one
  pub exe: &'static str,
  pub secs: (u64, u64),
  pub cases: (u64, u64),
  pub jobs: usize,
  pub envs: &'static [(&'static str, &'static str)],
}

#[derive(Clone)]
pub struct Spec {
  pub phases: &'static [Phase],
  pub id: &'static str,
  pub run: fn(&mut Cx),
  /// total number of cases (quick, thorough); u64::MAX: only limited by time
  pub cases: (u64, u64),
  /// wall-clock budget in seconds (quick, thorough)
  pub secs: (u64, u64),
  pub jobs: usize,
  pub rule: &'static str,
  pub level: &'static str,
  pub assumptions: &'static [&'static str],
  /// CPU seconds after which one case counts as never ending
  pub cpu_limit: u64,
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);
pub fn take_panic() -> Option<String> { LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take() }
pub fn clear_panic() { let _ = take_panic(); }

pub fn install_hook() {
  std::panic::set_hook(Box::new(|i| {
    let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    let p = i.payload();
    let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
    let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
    let t = format!("panic at {loc}: {m}");
    // kept for the case that the process is aborted
    eprintln!("{t}");
    if g.is_none() { *g = Some(t); }
  }));
}

/// Runs f, turning a panic into its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  clear_panic();
  match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
    Ok(r) => Ok(r),
    Err(e) => {
      drop(e);
      Err(take_panic().unwrap_or_else(|| "panic".into()))
    }
  }
}

/// A panic signature without line numbers or values.
pub fn panic_sig(p: &str) -> String {
  let s = p.strip_prefix("panic at ").unwrap_or(p);
  let (file, msg) = s.split_once(": ").unwrap_or((s, ""));
  let file = file.rsplit('/').next().unwrap_or(file).split(':').next().unwrap_or("");
  let m: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
  format!("panic {file} {m}")
}

pub fn run_one(spec: &Spec, seed: u64, idx: u64, thorough: bool, verbose: bool) -> Cx {
  let mut cx = Cx { check: spec.id, seed, idx, thorough, verbose, events: Default::default(), classes: Default::default(),
    fails: vec![], inconclusive: vec![], sample: None };
  let r = guard(|| (spec.run)(&mut cx));
  if let Err(p) = r {
    if p.contains("panic at src/") {
      // a defect of the harness itself is no verdict about the code
      cx.inconclusive(format!("harness: {p}"));
    } else {
      let s = panic_sig(&p);
      cx.fail(&s, p);
    }
  }
  cx
}

pub fn worker(spec: &Spec, seed: u64, start: u64, step: u64, max: u64, deadline: f64, thorough: bool) {
  install_hook();
  let t0 = Instant::now();
  let out = std::io::stdout();
  let mut i = start;
  while i < max && t0.elapsed().as_secs_f64() < deadline {
    { let mut o = out.lock(); let _ = writeln!(o, "S {i}"); let _ = o.flush(); }
    let cx = run_one(spec, seed, i, thorough, false);
    let v = json!({
      "i": i, "e": cx.events, "c": cx.classes, "f": cx.fails, "n": cx.inconclusive, "s": cx.sample,
    });
    { let mut o = out.lock(); let _ = writeln!(o, "D {v}"); let _ = o.flush(); }
    i += step;
  }
  let mut o = out.lock();
  let _ = writeln!(o, "Q");
  let _ = o.flush();
}

fn cpu_ticks(pid: u32) -> Option<u64> {
  let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
  let r = s.rsplit(')').next()?;
  let f: Vec<&str> = r.split_whitespace().collect();
  Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// Nanoseconds that the live threads of a process have waited for a CPU.
fn wait_ns(pid: u32) -> Option<u64> {
  let mut n = 0;
  for t in std::fs::read_dir(format!("/proc/{pid}/task")).ok()?.flatten() {
    let Ok(s) = std::fs::read_to_string(t.path().join("schedstat")) else { continue };
    n += s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
  }
  Some(n)
}

struct W {
  child: Child,
  case_start: Instant,
  /// start of an observation window: time, CPU ticks, waiting time
  window: Option<(Instant, u64, u64)>,
  pid: u32,
  cur: Option<u64>,
  shard: u64,
  cpu_at_start: u64,
  last_cpu: u64,
  last_change: Instant,
  done: bool,
  stderr: std::path::PathBuf,
}

pub struct Known { pub property: String, pub signature: String, pub what: String }
pub fn load_known() -> Vec<Known> {
  let p = std::env::var("VMON_KNOWN").unwrap_or_else(|_| "/verif/known_findings.json".into());
  let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
  let Ok(v) = serde_json::from_str::<Value>(&s) else { return vec![] };
  v["known"].as_array().map(|a| a.iter().map(|k| Known {
    property: k["property"].as_str().unwrap_or("").into(),
    signature: k["signature"].as_str().unwrap_or("").into(),
    what: k["what"].as_str().unwrap_or("").into(),
  }).collect()).unwrap_or_default()
}

pub struct Outcome {
  pub evaluations: u64,
  pub events: BTreeMap<String, u64>,
  pub classes: BTreeSet<String>,
  pub samples: Vec<Value>,
  pub violations: Vec<(u64, String, String)>,
  pub known: BTreeMap<String, String>,
  pub inconclusive: Vec<String>,
  pub started: u64,
}

/// Runs all workers of a check.
pub fn run_workers(spec: &Spec, seed: u64, thorough: bool, exe: &std::path::Path, envs: &[(String, String)], jobs: usize, secs: u64, max: u64) -> Outcome {
  let t0 = Instant::now();
  let known = load_known();
  let (tx, rx) = mpsc::channel::<(usize, u64, Option<String>)>();
  let mut ws: Vec<W> = vec![];
  let mut gen = 0u64;
  let mut gens: HashMap<usize, u64> = HashMap::new();
  let dir = std::env::temp_dir().join(format!("vmon-{}-{}", spec.id, std::process::id()));
  let _ = std::fs::create_dir_all(&dir);
  let mut out = Outcome { evaluations: 0, events: Default::default(), classes: Default::default(), samples: vec![], violations: vec![],
    known: Default::default(), inconclusive: vec![], started: 0 };
  let mut spawn = |slot: usize, start: u64, shard: u64, gens: &mut HashMap<usize, u64>| -> W {
    gen += 1;
    gens.insert(slot, gen);
    let g = gen;
    let err = dir.join(format!("e{slot}-{g}"));
    let left = (secs as f64 - t0.elapsed().as_secs_f64()).max(0.0);
    let mut c = Command::new(exe);
    c.args(["worker", spec.id, &seed.to_string(), &start.to_string(), &jobs.to_string(), &max.to_string(),
      &left.to_string(), if thorough { "1" } else { "0" }]);
    c.env("TMPDIR", &dir);
    for (k, v) in envs { c.env(k, v); }
    c.stdin(Stdio::null()).stdout(Stdio::piped());
    c.stderr(std::fs::File::create(&err).map(Stdio::from).unwrap_or(Stdio::null()));
    let mut child = c.spawn().expect("cannot start worker");
    let so = child.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
      for l in BufReader::new(so).lines() {
        match l { Ok(l) => { if tx.send((slot, g, Some(l))).is_err() { return; } } Err(_) => break }
      }
      let _ = tx.send((slot, g, None));
    });
    let pid = child.id();
    W { child, case_start: Instant::now(), window: None, pid, cur: None, shard, cpu_at_start: 0, last_cpu: 0, last_change: Instant::now(), done: false, stderr: err }
  };
  for s in 0..jobs { let w = spawn(s, s as u64, s as u64, &mut gens); ws.push(w); }
  let mut crashes = 0;
  let record = |out: &mut Outcome, idx: u64, sig: String, msg: String| {
    if let Some(k) = known.iter().find(|k| k.property == spec.id && k.signature == sig) {
      out.known.insert(k.what.clone(), format!("case {idx}: {msg}"));
    } else {
      out.violations.push((idx, sig, msg));
    }
  };
  let hard = Duration::from_secs(secs + if thorough { 3600 } else { 240 });
  loop {
    if ws.iter().all(|w| w.done) { break; }
    match rx.recv_timeout(Duration::from_millis(500)) {
      Ok((slot, g, line)) => {
        if gens.get(&slot) != Some(&g) { continue; }
        match line {
          Some(l) => {
            let w = &mut ws[slot];
            if let Some(i) = l.strip_prefix("S ") {
              w.cur = i.trim().parse().ok();
              out.started += 1;
              w.cpu_at_start = cpu_ticks(w.pid).unwrap_or(0);
              w.last_cpu = w.cpu_at_start;
              w.last_change = Instant::now();
              w.case_start = Instant::now();
              w.window = None;
            } else if let Some(v) = l.strip_prefix("D ") {
              w.cur = None;
              out.evaluations += 1;
              if let Ok(v) = serde_json::from_str::<Value>(v) {
                if let Some(e) = v["e"].as_object() {
                  for (k, n) in e { *out.events.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0); }
                }
                if let Some(c) = v["c"].as_array() {
                  for x in c { out.classes.insert(x.as_str().unwrap_or("").to_string()); }
                }
                let idx = v["i"].as_u64().unwrap_or(0);
                if let Some(s) = v["s"].as_str() { if out.samples.len() < 12 { out.samples.push(json!({"case": idx, "observed": s})); } }
                if let Some(n) = v["n"].as_array() {
                  for x in n { out.inconclusive.push(format!("case {idx}: {}", x.as_str().unwrap_or(""))); }
                }
                if let Some(f) = v["f"].as_array() {
                  for x in f {
                    record(&mut out, idx, x[0].as_str().unwrap_or("").into(), x[1].as_str().unwrap_or("").into());
                  }
                }
              }
            } else if l.starts_with('Q') {
              w.done = true;
              let _ = w.child.wait();
            }
          }
          None => {
            // worker ended
            let w = &mut ws[slot];
            if w.done { continue; }
            let st = w.child.wait();
            let err = std::fs::read_to_string(&w.stderr).unwrap_or_default();
            let tail: String = { let n = err.chars().count(); if n < 16000 { err.clone() } else { err.chars().take(8000).chain("\n[...]\n".chars()).chain(err.chars().skip(n - 8000)).collect() } };
            use std::os::unix::process::ExitStatusExt;
            let (sig, code) = st.map(|s| (s.signal(), s.code())).unwrap_or((None, None));
            let shard = w.shard;
            if let Some(i) = w.cur {
              if sig == Some(9) {
                out.inconclusive.push(format!("case {i}: worker killed (memory?)"));
              } else {
                let first = report_line(&err);
                record(&mut out, i, format!("crash {first}"), format!("worker died (signal {sig:?}, exit {code:?}) {first}\n{tail}"));
              }
              crashes += 1;
              if crashes < 20 && (out.violations.is_empty()) && t0.elapsed().as_secs() < secs {
                let nw = spawn(slot, i + jobs as u64, shard, &mut gens);
                ws[slot] = nw;
              } else { ws[slot].done = true; }
            } else {
              out.inconclusive.push(format!("worker ended outside a case (signal {sig:?}, exit {code:?}): {tail}"));
              ws[slot].done = true;
            }
          }
        }
      }
      Err(_) => {}
    }
    // watchdog
    for w in ws.iter_mut() {
      if w.done { continue; }
      let Some(i) = w.cur else { continue };
      let Some(c) = cpu_ticks(w.pid) else { continue };
      if c != w.last_cpu { w.last_cpu = c; w.last_change = Instant::now(); }
      let stuck = w.last_change.elapsed() > Duration::from_secs(45);
      let over = c.saturating_sub(w.cpu_at_start) / 100 > spec.cpu_limit;
      // one case that has been going on for long while its threads neither ran nor wanted to run
      let mut polling = false;
      if w.case_start.elapsed() > Duration::from_secs(100) {
        let wn = wait_ns(w.pid).unwrap_or(u64::MAX);
        match w.window {
          None => w.window = Some((Instant::now(), c, wn)),
          Some((t, c0, w0)) if t.elapsed() > Duration::from_secs(20) => {
            let ms = t.elapsed().as_millis() as u64;
            polling = (c - c0) * 10 * 5 < ms && wn.saturating_sub(w0) / 1_000_000 * 5 < ms && wn != u64::MAX;
            w.window = Some((Instant::now(), c, wn));
          }
          _ => {}
        }
      }
      if stuck || over || polling {
        let what = if polling { "hang: the case has not ended after 100 s and its threads only wait or poll" } else if stuck { "hang: no thread of the process made progress for 45 s" } else { "hang: one case used far more CPU time than any legitimate one" };
        let bt = Command::new("timeout").args(["20", "gdb", "-p", &w.pid.to_string(), "-batch", "-ex", "thread apply all bt 12"]).output()
          .map(|o| String::from_utf8_lossy(&o.stdout).chars().take(6000).collect::<String>()).unwrap_or_default();
        let _ = w.child.kill();
        let _ = w.child.wait();
        w.done = true;
        record(&mut out, i, "hang".into(), format!("{what}\n{bt}"));
      }
    }
    if !out.violations.is_empty() || t0.elapsed() > hard {
      if t0.elapsed() > hard { out.inconclusive.push("cases still running at the time limit".into()); }
      for w in ws.iter_mut() { if !w.done { let _ = w.child.kill(); let _ = w.child.wait(); } }
      break;
    }
  }
  let _ = std::fs::remove_dir_all(&dir);
  out
}

fn report_line(err: &str) -> String {
  for l in err.lines() {
    if l.contains("VMON-GUARD") || l.contains("ERROR: AddressSanitizer") || l.contains("WARNING: ThreadSanitizer") || l.contains("unsafe precondition") {
      // drop addresses
      let s: String = l.split("on address").next().unwrap_or(l).to_string();
      let s: String = s.chars().filter(|c| !c.is_ascii_digit() && *c != '=').collect();
      return s.trim().to_string();
    }
  }
  if let Some(l) = err.lines().rev().find(|l| l.starts_with("panic at ")) { return panic_sig(l); }
  err.lines().next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).take(100).collect()
}

pub fn evidence_dir() -> std::path::PathBuf {
  std::env::var("VMON_EVIDENCE").map(Into::into).unwrap_or_else(|_| "/verif/evidence".into())
}

/// Runs a check and writes evidence; returns the exit code.
pub fn run_check(spec: &Spec, seed: u64, thorough: bool, secs: Option<u64>, max: Option<u64>, jobs: Option<usize>) -> i32 {
  let t0 = Instant::now();
  let exe = std::env::current_exe().unwrap();
  let tsel = |a: (u64, u64)| if thorough { a.1 } else { a.0 };
  if !spec.phases.is_empty() {
    let mut all: Option<Outcome> = None;
    let mut extra = serde_json::Map::new();
    let only = std::env::var("VMON_ONLY").ok();
    let mut replay = String::new();
    for ph in spec.phases {
      if only.as_deref().map_or(false, |o| o != ph.name) { continue; }
      if tsel(ph.secs) == 0 { continue; }
      let x = if ph.exe.is_empty() { exe.clone() } else {
        match std::env::var(ph.exe) { Ok(x) => x.into(), Err(_) => { eprintln!("{} is not set", ph.exe); return 2 } }
      };
      let mut envs: Vec<(String, String)> = ph.envs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
      envs.push(("VMON_PHASE".into(), ph.name.into()));
      let t1 = Instant::now();
      let o = run_workers(spec, seed, thorough, &x, &envs, jobs.unwrap_or(ph.jobs), secs.unwrap_or(tsel(ph.secs)), max.unwrap_or(tsel(ph.cases)));
      extra.insert(ph.name.into(), json!({"cases": o.evaluations, "events": o.events, "classes": o.classes.len(), "wall_s": t1.elapsed().as_secs_f64(), "executable": x.display().to_string()}));
      let bad = !o.violations.is_empty();
      replay = format!("{} {} case {}", envs.iter().map(|(a, b)| format!("{a}='{b}'")).collect::<Vec<_>>().join(" "), x.display(), spec.id);
      match &mut all {
        None => all = Some(o),
        Some(a) => {
          a.evaluations += o.evaluations; a.started += o.started;
          for (k, n) in o.events { *a.events.entry(k).or_insert(0) += n; }
          a.classes.extend(o.classes); a.samples.extend(o.samples); a.violations.extend(o.violations);
          a.known.extend(o.known); a.inconclusive.extend(o.inconclusive);
        }
      }
      if o_empty(extra.get(ph.name)) { eprintln!("inconclusive: phase {} observed nothing", ph.name);
        for i in all.as_ref().unwrap().inconclusive.iter().take(5) { eprintln!("  {i}"); }
        if !bad { return 2 } }
      if bad { break; }
    }
    let Some(o) = all else { return 2 };
    return finish(spec, seed, thorough, o, t0, &replay, Value::Object(extra));
  }
  let out = run_workers(spec, seed, thorough, &exe, &[], jobs.unwrap_or(spec.jobs), secs.unwrap_or(tsel(spec.secs)), max.unwrap_or(tsel(spec.cases)));
  finish(spec, seed, thorough, out, t0, &format!("{} case {}", exe.display(), spec.id), json!({}))
}

fn o_empty(v: Option<&Value>) -> bool { v.map_or(true, |v| v["cases"].as_u64() == Some(0)) }

pub fn finish(spec: &Spec, seed: u64, thorough: bool, mut out: Outcome, t0: Instant, replay_cmd: &str, extra: Value) -> i32 {
  let ev = evidence_dir();
  let rd = ev.join("replay");
  let _ = std::fs::create_dir_all(&rd);
  let mut printed = BTreeSet::new();
  for (what, _) in &out.known { println!("KNOWN-FINDING: property={} {}", spec.id, what); }
  let mut vio = vec![];
  for (n, (idx, sig, msg)) in out.violations.iter().enumerate() {
    let p = rd.join(format!("{}-{}-{}-{}.txt", spec.id, seed, idx, n));
    let _ = std::fs::write(&p, format!(
      "property {}\nsignature {}\nseed {} case {} tier {}\nreplay: {} {} {} {}\n\n{}\n",
      spec.id, sig, seed, idx, if thorough { "thorough" } else { "quick" }, replay_cmd, seed, idx, thorough as u8, msg));
    if printed.insert(sig.clone()) && printed.len() <= 5 {
      println!("{}: {}", sig, msg.lines().take(8).collect::<Vec<_>>().join(" | "));
      println!("VIOLATION property={} replay={}", spec.id, p.display());
    }
    vio.push(json!({"signature": sig, "case": idx, "message": msg.chars().take(1500).collect::<String>(), "replay": p}));
  }
  // too little observed: say so, never as a pass
  let mut code = if vio.is_empty() { 0 } else { 1 };
  if code == 0 && (out.evaluations == 0) {
    eprintln!("inconclusive: nothing was observed");
    for i in out.inconclusive.iter().take(5) { eprintln!("  {i}"); }
    code = 2;
  }
  for i in out.inconclusive.iter().take(5) { eprintln!("inconclusive: {i}"); }
  if out.samples.is_empty() { out.samples.push(json!({"note": "no sample recorded"})); }
  let distinct = out.classes.len();
  let v = json!({
    "property": spec.id,
    "tier": if thorough { "thorough" } else { "quick" },
    "seed": seed,
    "level": spec.level,
    "coverage": {
      "evaluations": out.evaluations,
      "distinct_nontrivial": distinct,
      "rule": spec.rule,
      "samples": out.samples,
      "events_observed": out.events,
      "classes": out.classes.iter().take(40).collect::<Vec<_>>(),
      "inconclusive": out.inconclusive.iter().take(20).collect::<Vec<_>>(),
      "known_findings_seen": out.known,
      "extra": extra,
    },
    "wall_s": t0.elapsed().as_secs_f64(),
    "violations": vio.len(),
    "violation_details": vio,
    "assumptions": spec.assumptions,
  });
  let _ = std::fs::create_dir_all(&ev);
  let _ = std::fs::write(ev.join(format!("{}.json", spec.id)), serde_json::to_string_pretty(&v).unwrap());
  println!("{}: {} cases, {} distinct, {:?} {:.1}s exit {}", spec.id, out.evaluations, distinct, out.events, t0.elapsed().as_secs_f64(), code);
  code
}
