//! C03: the same encode under different thread counts, pools, schedules and neighbours.
use super::c01::brief;
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::driver::{guard, Cx, Spec};
use crate::enc::{self, Pkt};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

pub fn spec() -> Spec {
  Spec {
    id: "C03",
    run,
    jobs: 4,
    secs: (60, 900),
    rule: "one reference encode on a one-thread pool, then the same encode under 2-8 threads, the global pool, a shared pool, concurrent encoders, CPU pinning and competing busy threads; packets, reconstructions, types and quantizers compared; classes are (configuration class, variant)",
    assumptions: &["scheduling diversity comes from thread counts, pinning, competing load and repetition"],
    ..BASE
  }
}

pub fn pin(cpus: &[usize]) {
  unsafe {
    let mut s: libc::cpu_set_t = std::mem::zeroed();
    for &c in cpus { libc::CPU_SET(c, &mut s); }
    libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s);
  }
}
pub fn ncpu() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1) }

pub fn differs(a: &[Pkt], b: &[Pkt]) -> Option<String> {
  if a.len() != b.len() { return Some(format!("{} packets vs {}", a.len(), b.len())); }
  for (x, y) in a.iter().zip(b) {
    if x.data != y.data { return Some(format!("packet {} bytes ({} vs {})", x.no, x.data.len(), y.data.len())); }
    if x.rec != y.rec { return Some(format!("packet {} reconstruction", x.no)); }
    if (x.no, x.ty, x.qp) != (y.no, y.ty, y.qp) { return Some(format!("packet {} attributes", x.no)); }
  }
  None
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let mut o = Opts { cost: 300_000.0, max_frames: 8, min_speed: 2, ..Default::default() };
  if cx.idx % 3 != 0 { o.force_tiles = true; o.max_w = 400; o.max_h = 300; o.min_speed = 4; o.cost = 450_000.0; }
  if cx.idx % 3 == 0 { o.max_w = 160; o.max_h = 128; o.max_frames = 16; o.min_frames = 4; }
  let mut c = case::gen(&mut r, &o);
  c.threads = 1;
  if cx.verbose { eprintln!("{}", brief(&c)); }
  let reference = match enc::encode(&c) { Ok(p) => p, Err(m) => { cx.fail("encode", format!("{m}; {}", brief(&c))); return } };
  cx.count("reference_packets", reference.len() as u64);
  let mut names: Vec<String> = vec![];
  let nv = if cx.thorough { 6 } else { 3 };
  for v in 0..nv {
    let kind = (cx.idx + v as u64 * 3 + r.below(2)) % 8;
    let stop = Arc::new(AtomicBool::new(false));
    let mut noise = vec![];
    let n = ncpu();
    let (name, results): (&str, Vec<Result<Vec<Pkt>, String>>) = match kind {
      0 => ("again-1", vec![enc::encode(&c)]),
      1 | 2 => {
        let t = r.pick(&[2usize, 3, 4, 8]);
        c.threads = t;
        ("threads", vec![enc::encode(&c)])
      }
      3 => {
        c.threads = 0;
        ("global-pool", vec![enc::encode(&c)])
      }
      4 => {
        // several encoders on one shared pool
        let pool = Arc::new(rayon::ThreadPoolBuilder::new().num_threads(r.us(1, 4)).build().unwrap());
        let k = r.us(2, 3);
        let hs: Vec<_> = (0..k).map(|_| {
          let c = c.clone();
          let pool = pool.clone();
          std::thread::spawn(move || guard(|| enc::encode_cfg(&c, &c.config().with_thread_pool(pool))))
        }).collect();
        ("shared-pool", join(hs))
      }
      5 => {
        // an unrelated encoder next to it
        let mut r2 = crate::rng::Rng::new(r.u64(), 1);
        let other = case::gen(&mut r2, &Opts { cost: 120_000.0, max_frames: 4, min_speed: 6, ..Default::default() });
        let h2 = std::thread::spawn(move || { let mut o = other; o.threads = 2; let _ = guard(|| enc::encode(&o)); });
        c.threads = r.us(1, 4);
        let c2 = c.clone();
        let x = join(vec![std::thread::spawn(move || guard(|| enc::encode(&c2)))]);
        let _ = h2.join();
        ("neighbour", x)
      }
      6 => {
        // all threads on one CPU with a competing load
        c.threads = 8;
        let cpu = r.us(0, n - 1);
        let c2 = c.clone();
        let h = std::thread::spawn(move || { pin(&[cpu]); guard(|| enc::encode(&c2)) });
        for _ in 0..2 {
          let s = stop.clone();
          noise.push(std::thread::spawn(move || { pin(&[cpu]); while !s.load(Ordering::Relaxed) { std::hint::spin_loop(); } }));
        }
        ("pinned-noise", join(vec![h]))
      }
      _ => {
        // irregular stalls: spinning threads that come and go on all CPUs
        c.threads = 4;
        for k in 0..4u64 {
          let s = stop.clone();
          let mut q = crate::rng::Rng::new(r.u64(), k);
          noise.push(std::thread::spawn(move || {
            while !s.load(Ordering::Relaxed) {
              for _ in 0..q.below(200_000) { std::hint::spin_loop(); }
              std::thread::sleep(std::time::Duration::from_micros(q.below(400)));
            }
          }));
        }
        let c2 = c.clone();
        let a = std::thread::spawn(move || guard(|| enc::encode(&c2)));
        let c3 = c.clone();
        let b = std::thread::spawn(move || guard(|| enc::encode(&c3)));
        ("bursty-noise", join(vec![a, b]))
      }
    };
    stop.store(true, Ordering::Relaxed);
    for h in noise { let _ = h.join(); }
    for x in results {
      match x {
        Err(m) => cx.fail("variant-failed", format!("{name}: {m}; {}", brief(&c))),
        Ok(p) => {
          if let Some(m) = differs(&reference, &p) { cx.fail("thread-dependent", format!("{name} (threads {}): {m}; {}", c.threads, brief(&c))); }
          cx.count("packets_compared", p.len() as u64);
        }
      }
      cx.count("variant_runs", 1);
    }
    cx.class(format!("{name}{} {}", c.threads, c.class()));
    cx.count(&format!("variant_{name}"), 1);
    names.push(format!("{name}/{}", c.threads));
  }
  cx.sample(format!("{} {:?}: {} packets identical", c.class(), names, reference.len()));
}

fn join(hs: Vec<std::thread::JoinHandle<Result<Result<Vec<Pkt>, String>, String>>>) -> Vec<Result<Vec<Pkt>, String>> {
  hs.into_iter().map(|h| match h.join() { Ok(Ok(r)) => r, Ok(Err(p)) => Err(p), Err(_) => Err("thread died".into()) }).collect()
}

#[allow(unused)]
fn _t(_: &EncCase) {}
