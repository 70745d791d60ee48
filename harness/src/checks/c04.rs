//! C04: the same encode at every instruction-set level.
use super::c01::brief;
use super::c03::differs;
use super::BASE;
use crate::case::{self, Opts};
use crate::driver::{Cx, Spec};
use crate::enc;
use rav1e::bench::cpu_features::CpuFeatureLevel;

pub fn spec() -> Spec {
  Spec {
    id: "C04",
    run,
    secs: (60, 900),
    rule: "one encode at the best level, then at portable code and at other levels (RAV1E_CPU_TARGET); packets and reconstructions compared; classes are (configuration class, level)",
    assumptions: &["levels above the machine's best cannot be observed here"],
    ..BASE
  }
}
const LEVELS: [&str; 7] = ["rust", "sse2", "ssse3", "sse4_1", "avx2", "avx512", "avx512icl"];

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let mut o = Opts { cost: 160_000.0, max_frames: 6, ..Default::default() };
  match cx.idx % 4 {
    1 => { o.max_w = 80; o.max_h = 80; }
    2 => { o.min_speed = 5; o.cost = 250_000.0; }
    3 => { o.max_w = 130; o.max_h = 130; o.min_frames = 3; }
    _ => {}
  }
  let mut c = case::gen(&mut r, &o);
  c.threads = 1;
  if cx.verbose { eprintln!("{}", brief(&c)); }
  std::env::remove_var("RAV1E_CPU_TARGET");
  let best = format!("{:?}", CpuFeatureLevel::default());
  let reference = match enc::encode(&c) { Ok(p) => p, Err(m) => { cx.fail("encode", format!("{m}; {}", brief(&c))); return } };
  cx.count(&format!("level_{best}"), reference.len() as u64);
  // portable code always; two of the others in turn
  let mut lv = vec!["rust", LEVELS[1 + (cx.idx % 6) as usize]];
  if cx.thorough { lv = LEVELS.to_vec(); }
  let mut seen = vec![best.clone()];
  for l in lv {
    std::env::set_var("RAV1E_CPU_TARGET", l);
    let eff = format!("{:?}", CpuFeatureLevel::default());
    if seen.contains(&eff) { continue; }
    let x = enc::encode(&c);
    match x {
      Err(m) => cx.fail("encode", format!("level {eff}: {m}; {}", brief(&c))),
      Ok(p) => {
        if let Some(m) = differs(&reference, &p) { cx.fail("level-dependent", format!("{eff} vs {best}: {m}; {}", brief(&c))); }
        cx.count(&format!("level_{eff}"), p.len() as u64);
        cx.count("packets_compared", p.len() as u64);
      }
    }
    cx.class(format!("{eff} {}", c.class()));
    seen.push(eff);
  }
  std::env::remove_var("RAV1E_CPU_TARGET");
  cx.sample(format!("{} levels {:?}: {} packets identical", c.class(), seen, reference.len()));
}
