//! C05: no memory error, no overflow, no failed assertion, no panic on accepted input.
use super::{brief, BASE};
use crate::alloc;
use crate::case::{self, EncCase, Opts};
use crate::content::Content;
use crate::driver::{Cx, Phase, Spec};
use crate::enc::{self, Pkt};
use rav1e::bench::cpu_features::CpuFeatureLevel;

pub fn spec() -> Spec {
  Spec {
    id: "C05",
    run,
    cpu_limit: 1500,
    phases: &[
      Phase { name: "guard", exe: "", secs: (45, 900), cases: (u64::MAX, u64::MAX), jobs: 8, envs: &[] },
      Phase { name: "asan", exe: "VMON_ASAN", secs: (35, 900), cases: (u64::MAX, u64::MAX), jobs: 8,
        envs: &[("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1")] },
      Phase { name: "memcheck", exe: "VMON_VALGRIND", secs: (30, 1200), cases: (u64::MAX, u64::MAX), jobs: 8, envs: &[("RAV1E_CPU_TARGET", "rust")] },
    ],
    rule: "guard phase: each accepted random configuration is encoded twice with debug assertions and overflow checks on, once with every heap block against a guard page behind it and fresh memory filled with 0x00, once with the guard page before it and 0xFF fill, at a random instruction-set level; crashes, panics, damaged canaries and any difference between the two streams (use of uninitialised memory) are violations. asan phase: the same encodes in an AddressSanitizer build. memcheck phase: small encodes under valgrind with the portable kernels (uninitialised values on the stack included). Classes are (phase, configuration class, level)",
    assumptions: &["blocks inside one plane allocation are not separated from each other by guards", "valgrind watches the portable kernels only: its shadow values are too coarse for the assembly, which multiplies undefined lanes by zero"],
    ..BASE
  }
}

pub const LEVELS: [&str; 7] = ["rust", "sse2", "ssse3", "sse4_1", "avx2", "avx512", "avx512icl"];

fn gen(cx: &Cx, r: &mut crate::rng::Rng, scale: f64) -> EncCase {
  let mut o = Opts { cost: 160_000.0 * scale, max_frames: 6, ..Default::default() };
  match (cx.idx + cx.idx / 8) % 6 {
    0 => { o.max_w = 70; o.max_h = 70; }
    1 => { o.min_speed = 5; o.cost = 300_000.0 * scale; o.force_tiles = true; }
    2 => { o.max_w = 140; o.max_h = 140; o.min_frames = 3; o.max_frames = 12; o.min_speed = 3; }
    3 => { o.max_w = 40; o.max_h = 40; o.max_frames = 30; o.min_frames = 8; o.min_speed = 6; }
    // long and thin pictures
    4 => { if r.chance(1, 2) { o.max_w = 1200; o.max_h = 24; } else { o.max_w = 24; o.max_h = 1200; } o.min_speed = 4; }
    _ => {}
  }
  let mut c = case::gen(r, &o);
  // hostile contents more often than elsewhere
  if r.chance(1, 2) { c.content = Content::random(r); }
  c
}

fn attempt(c: &EncCase) -> Result<Vec<Pkt>, String> { enc::encode(c) }

fn run(cx: &mut Cx) {
  let phase = std::env::var("VMON_PHASE").unwrap_or("guard".into());
  let mut r = cx.rng();
  if phase != "guard" { r = crate::rng::Rng::new(r.u64(), 0xA5A5 ^ crate::rng::hash(phase.as_bytes())); }
  let mut c = gen(cx, &mut r, match phase.as_str() { "guard" => 0.5, "asan" => 0.6, _ => 0.02 });
  if phase == "memcheck" { c.nframes = c.nframes.min(3); c.threads = 1; }
  let lv = r.pick(&LEVELS);
  if phase != "memcheck" {
    if r.chance(1, 2) { std::env::remove_var("RAV1E_CPU_TARGET"); } else { std::env::set_var("RAV1E_CPU_TARGET", lv); }
  }
  let level = format!("{:?}", CpuFeatureLevel::default());
  if cx.verbose { eprintln!("{phase} {level} {}", brief(&c)); }
  cx.class(format!("{phase} {level} {}", c.class()));
  let n;
  if phase == "guard" {
    let g0 = alloc::GUARDED.load(std::sync::atomic::Ordering::Relaxed);
    let min = r.pick(&[256, 1024, 1024, 4096]);
    alloc::set_guard(1, min);
    alloc::set_fill(Some(0x00));
    let a = attempt(&c);
    alloc::set_guard(2, min);
    alloc::set_fill(Some(0xFF));
    let b = attempt(&c);
    alloc::set_guard(0, min);
    alloc::set_fill(None);
    let (a, b) = match (a, b) {
      (Ok(a), Ok(b)) => (a, b),
      (a, b) => {
        let m = a.err().or(b.err()).unwrap();
        let s = if m.contains("panic at") { crate::driver::panic_sig(&m) } else { "encode".into() };
        cx.fail(&s, format!("{m}; {level} {}", brief(&c)));
        return;
      }
    };
    n = a.len();
    let diff = if a.len() != b.len() { Some("packet count".to_string()) } else {
      a.iter().zip(&b).find_map(|(x, y)| if x.data != y.data { Some(format!("packet {} bytes", x.no)) } else if x.rec != y.rec { Some(format!("packet {} reconstruction", x.no)) } else { None })
    };
    if let Some(d) = diff { cx.fail("uninitialised", format!("{d} depends on what fresh memory contained; {level} {}", brief(&c))); }
    cx.count("guarded_blocks", alloc::GUARDED.load(std::sync::atomic::Ordering::Relaxed) - g0);
    cx.count("fill_comparisons", n as u64);
  } else {
    match attempt(&c) {
      Ok(p) => n = p.len(),
      Err(m) => {
        let s = if m.contains("panic at") { crate::driver::panic_sig(&m) } else { "encode".into() };
        cx.fail(&s, format!("{m}; {level} {}", brief(&c)));
        return;
      }
    }
  }
  cx.count(&format!("{phase}_packets"), n as u64);
  cx.count(&format!("level_{level}"), 1);
  cx.sample(format!("{phase} {level} {}: {n} packets", c.class()));
}
