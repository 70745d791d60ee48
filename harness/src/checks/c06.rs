//! C06: ThreadSanitizer over every multi-threaded part of the library.
use super::{brief, BASE};
use crate::alloc;
use crate::case::{self, EncCase, Opts};
use crate::driver::{guard, Cx, Phase, Spec};
use crate::enc;
use rav1e::bench::api::*;
use rav1e::prelude::*;
use std::sync::Arc;

pub fn spec() -> Spec {
  Spec {
    id: "C06",
    run,
    cpu_limit: 3000,
    phases: &[Phase { name: "tsan", exe: "VMON_TSAN", secs: (100, 1500), cases: (u64::MAX, u64::MAX), jobs: 4,
      envs: &[("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=5")] }],
    rule: "multi-threaded encodes in a ThreadSanitizer build (standard library instrumented, portable kernels so that every access is seen): tiles on 2-8 threads, several encoders on one shared pool, the channel interfaces including parallel GOPs and two passes, contexts moved between threads; pauses are injected at allocations; any report is a violation. Classes are (workload, threads, configuration class); schedule signatures count distinct orders of threads at allocations",
    assumptions: &["a race shows when both accesses happen in one run, in either order, without synchronisation between them", "assembly kernels are replaced by the portable ones"],
    ..BASE
  }
}

fn channel<T: Pixel>(c: &EncCase, cfg: &Config) -> Result<usize, String> {
  let (mut tx, rx) = cfg.new_channel::<T>().map_err(|e| format!("{e}"))?;
  let c2 = c.clone();
  let h = std::thread::spawn(move || -> Result<(), String> {
    for i in 0..c2.nframes {
      let mut f = tx.new_frame();
      enc::fill(&mut f, &enc::source_pic(&c2, i));
      tx.send((Arc::new(f), enc::params_of(&c2, i))).map_err(|_| "send".to_string())?;
    }
    Ok(())
  });
  let mut n = 0;
  for p in rx.iter() { n += 1; let _ = enc::pkt(p, &c.enc); }
  h.join().map_err(|_| "producer".to_string())??;
  Ok(n)
}
fn pass1<T: Pixel>(c: &EncCase) -> Result<(usize, Vec<RcData>), String> {
  let mut c = c.clone();
  c.enc.bitrate = c.enc.bitrate.max(100_000);
  c.enc.still_picture = false;
  let cfg = c.config();
  let ((mut tx, rx), rc) = cfg.with_rate_control(RateControlConfig::new().with_emit_data(true)).new_firstpass_channel::<T>().map_err(|e| format!("{e}"))?;
  let c2 = c.clone();
  let h = std::thread::spawn(move || {
    for i in 0..c2.nframes {
      let mut f = tx.new_frame();
      enc::fill(&mut f, &enc::source_pic(&c2, i));
      if tx.send((Arc::new(f), enc::params_of(&c2, i))).is_err() { break; }
    }
  });
  let h2 = std::thread::spawn(move || rc.iter().collect::<Vec<_>>());
  let n = rx.iter().count();
  let _ = h.join();
  let d = h2.join().map_err(|_| "drain".to_string())?;
  Ok((n, d))
}

/// The context changes threads between calls, and packets outlive it elsewhere.
fn moving<T: Pixel>(c: &EncCase, cfg: &Config) -> Result<usize, String> {
  let mut ctx: Context<T> = cfg.new_context().map_err(|e| format!("{e}"))?;
  let mut n = 0;
  let mut sent = 0;
  let (ptx, prx) = crossbeam::channel::unbounded::<Packet<T>>();
  let e = c.enc.clone();
  let h = std::thread::spawn(move || { let mut k = 0; for p in prx { let _ = enc::pkt(p, &e); k += 1; } k });
  loop {
    let c2 = c.clone();
    let ptx = ptx.clone();
    let (r, done) = std::thread::spawn(move || {
      for _ in 0..3 {
        match ctx.receive_packet() {
          Ok(p) => { let _ = ptx.send(p); }
          Err(EncoderStatus::NeedMoreData) => {
            if sent < c2.nframes {
              let mut f = ctx.new_frame();
              enc::fill(&mut f, &enc::source_pic(&c2, sent));
              let _ = ctx.send_frame((Arc::new(f), enc::params_of(&c2, sent)));
              sent += 1;
            } else { ctx.flush(); }
          }
          Err(EncoderStatus::LimitReached) => return ((ctx, sent), true),
          Err(_) => {}
        }
      }
      ((ctx, sent), false)
    }).join().map_err(|_| "mover".to_string())?;
    (ctx, sent) = r;
    n += 1;
    if done || n > 10_000 { break; }
  }
  drop(ctx);
  drop(ptx);
  h.join().map_err(|_| "consumer".to_string())
}

fn enc_any(c: &EncCase, cfg: &Config) -> Result<usize, String> { enc::encode_cfg(c, cfg).map(|p| p.len()) }

/// Does the detector work in this build?
fn alive() -> bool {
  static mut X: u64 = 0;
  let a = std::thread::spawn(|| for _ in 0..1000 { unsafe { std::ptr::write_volatile(&raw mut X, std::ptr::read_volatile(&raw const X) + 1) } });
  for _ in 0..1000 { unsafe { std::ptr::write_volatile(&raw mut X, std::ptr::read_volatile(&raw const X) + 1) } }
  let _ = a.join();
  true
}

fn run(cx: &mut Cx) {
  if std::env::var("VMON_SELFTEST").is_ok() { alive(); return; }
  if cx.idx == 0 {
    // the detector must report a planted race in a child process
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["case", "C06", "0", "1"]).env("VMON_SELFTEST", "1").output();
    match o {
      Ok(o) if String::from_utf8_lossy(&o.stderr).contains("WARNING: ThreadSanitizer: data race") => cx.count("detector_self_test", 1),
      _ => { cx.inconclusive("the race detector did not report the planted race"); return }
    }
  }
  let mut r = cx.rng();
  let kind = (cx.idx + cx.idx / 4) % 8;
  let mut o = Opts { cost: 60_000.0, max_w: 200, max_h: 200, max_frames: 6, min_frames: 2, min_speed: 6, ..Default::default() };
  if cx.thorough { o.min_speed = 2; o.cost *= 4.0; }
  if kind < 5 { o.force_tiles = true; o.still = false; o.cost = 90_000.0; }
  let mut c = case::gen(&mut r, &o);
  c.threads = r.pick(&[2, 3, 4, 8]);
  std::env::set_var("RAV1E_CPU_TARGET", "rust");
  alloc::set_jitter(r.pick(&[30, 300, 3000, 1_000_000]));
  if cx.verbose { eprintln!("kind {kind} {}", brief(&c)); }
  let cfg = c.config();
  let hbd = c.hbd;
  let (name, res): (&str, Result<usize, String>) = match kind {
    0 | 1 | 2 => ("tiles", enc_any(&c, &cfg)),
    3 => {
      let pool = Arc::new(rayon::ThreadPoolBuilder::new().num_threads(r.us(2, 4)).build().unwrap());
      let hs: Vec<_> = (0..2).map(|k| {
        let mut c = c.clone();
        c.content = crate::content::Content::random(&mut crate::rng::Rng::new(r.u64(), k));
        let pool = pool.clone();
        std::thread::spawn(move || guard(|| enc_any(&c, &c.config().with_thread_pool(pool))))
      }).collect();
      let mut n = Ok(0);
      for h in hs { match h.join() { Ok(Ok(Ok(k))) => { if let Ok(t) = &mut n { *t += k; } } Ok(Ok(Err(m))) | Ok(Err(m)) => n = Err(m), Err(_) => n = Err("thread".into()) } }
      ("shared-pool", n)
    }
    4 => ("global-pool", { c.threads = 0; enc_any(&c, &c.config()) }),
    5 => ("channel", if hbd { channel::<u16>(&c, &cfg) } else { channel::<u8>(&c, &cfg) }),
    6 => {
      if r.chance(1, 2) {
        c.enc.low_latency = true;
        c.nframes = c.nframes.max(8);
        c.enc.max_key_frame_interval = 4; c.enc.min_key_frame_interval = 2; c.enc.film_grain_params = None; c.enc.still_picture = false; c.enc.switch_frame_interval = 0;
        c.enc.reservoir_frame_delay = None; c.enc.bitrate = 0;
        let cfg = c.config().with_parallel_gops(r.us(2, 3));
        ("parallel-gops", if hbd { channel::<u16>(&c, &cfg) } else { channel::<u8>(&c, &cfg) })
      } else {
        let r = if hbd { pass1::<u16>(&c) } else { pass1::<u8>(&c) };
        ("first-pass-channel", r.map(|x| x.0))
      }
    }
    _ => ("moving", if hbd { moving::<u16>(&c, &cfg) } else { moving::<u8>(&c, &cfg) }),
  };
  let sig = alloc::schedule_signature();
  alloc::set_jitter(0);
  match res {
    Ok(n) => {
      cx.count("packets", n as u64);
      cx.count(&format!("workload_{name}"), 1);
      cx.class(format!("{name} t{} {}", c.threads, c.class()));
      cx.class(format!("schedule {sig:016x}"));
      if sig != 0 { cx.count("schedule_signatures", 1); }
      cx.sample(format!("{name} threads {} {}: {n} packets, schedule {sig:x}", c.threads, c.class()));
    }
    // other properties judge results; here only the absence of races counts
    Err(m) => cx.inconclusive(format!("{name}: {m}; {}", brief(&c))),
  }
}
