//! C11: quantizer and bitrate settings.
use super::c01::brief;
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::content::{Content, Kind};
use crate::dec::{Dav1d, FrameInfo};
use crate::driver::{Cx, Spec};
use crate::enc::{self, Pkt};
use crate::obu;
use rav1e::bench::api::*;
use rav1e::prelude::*;

pub fn spec() -> Spec {
  Spec {
    id: "C11",
    run,
    secs: (60, 600),
    rule: "a case encodes one content several ways: single intra pictures over contents and quantizers, sequences at ordered quantizers, bitrate mode with random bounds against constant-quality runs at those bounds, and long sequences at an achievable bitrate; quantizers are read from the stream by dav1d; classes are (mode, quantizer band, depth, chroma)",
    assumptions: &["clearly finer or coarser than a bound means by more than 6% of the quantizer step"],
    ..BASE
  }
}

/// every coded frame in coding order, hidden ones included: (packet, info)
fn coded(pk: &[Pkt]) -> Result<Vec<(usize, FrameInfo)>, String> {
  let mut d = Dav1d::new(true)?;
  let mut out = vec![];
  for (i, p) in pk.iter().enumerate() {
    // frames of this packet that are really coded
    let n = obu::split(&p.data)?.iter().filter(|o| o.ty == obu::OBU_FRAME).count();
    let v = d.decode(&p.data)?;
    for x in v.into_iter().take(n) { out.push((i, x.info)); }
  }
  Ok(out)
}

/// AC quantizer step for an index, from the AV1 specification
fn step(qi: u8, bd: usize) -> f64 { crate::qtab::ac(qi, bd) }

fn reported(cx: &mut Cx, c: &EncCase, pk: &[Pkt], f: &[(usize, FrameInfo)]) {
  for (i, p) in pk.iter().enumerate() {
    // the frame the packet shows, if it is coded in it: the last one
    if let Some((_, x)) = f.iter().filter(|(n, x)| *n == i && x.show_frame && !x.shown_existing).last() {
      if x.yac != p.qp { cx.fail("reported-qp", format!("packet {i} reports quantizer {} and uses {}; {}", p.qp, x.yac, brief(c))); }
      cx.count("quantizers_compared", 1);
    }
  }
}

fn base(cx: &Cx, r: &mut crate::rng::Rng, frames: (usize, usize), size: usize) -> EncCase {
  let o = Opts { cost: 400_000.0, max_w: size, max_h: size, min_frames: frames.0, max_frames: frames.1, min_speed: 8, still: false, meta: false, grain: false, bitrate: false, ..Default::default() };
  let mut c = case::gen(r, &o);
  c.threads = 1;
  let _ = cx;
  c.enc.min_quantizer = 0;
  c
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  match cx.idx % 4 {
    0 => intra(cx, &mut r),
    1 => ordered(cx, &mut r),
    2 => bounds(cx, &mut r),
    _ => rate(cx, &mut r),
  }
}

fn go(cx: &mut Cx, c: &EncCase) -> Option<(Vec<Pkt>, Vec<(usize, FrameInfo)>)> {
  if cx.verbose { eprintln!("{}", brief(c)); }
  let pk = match enc::encode(c) { Ok(p) => p, Err(m) => { cx.fail("encode", format!("{m}; {}", brief(c))); return None } };
  let f = match coded(&pk) { Ok(f) => f, Err(m) => { cx.fail("decode", format!("{m}; {}", brief(c))); return None } };
  reported(cx, c, &pk, &f);
  Some((pk, f))
}

/// one intra picture without look-ahead: the quantizer depends on the setting only
fn intra(cx: &mut Cx, r: &mut crate::rng::Rng) {
  let mut c = base(cx, r, (1, 1), 64);
  c.nframes = 1;
  c.force_key.clear();
  c.enc.tune = Tune::Psnr;
  let mut qs: Vec<usize> = (0..5).map(|_| r.us(0, 255)).collect();
  qs.push(r.pick(&[0, 1, 255, 254]));
  qs.sort_unstable();
  let mut last: Option<(usize, u8)> = None;
  for q in qs {
    c.enc.quantizer = q;
    let mut seen = None;
    for _ in 0..2 {
      c.content = Content::random(r);
      let Some((_, f)) = go(cx, &c) else { return };
      let y = f[0].1.yac;
      if let Some(s) = seen { if s != y { cx.fail("content-dependent", format!("quantizer {q}: index {s} for one picture, {y} for another; {}", brief(&c))); return } }
      seen = Some(y);
    }
    let y = seen.unwrap();
    if let Some((q0, y0)) = last {
      if y < y0 { cx.fail("not-monotone", format!("quantizer {q0} gives index {y0}, {q} gives {y}; {}", brief(&c))); return }
      if q > q0 + 12 && y == y0 && y < 255 { cx.fail("not-monotone", format!("quantizers {q0} and {q} give the same index {y}; {}", brief(&c))); return }
    }
    last = Some((q, y));
    // key frames get a finer quantizer than the setting, within a factor of the step
    let ratio = step(y, c.enc.bit_depth) / step((q as u8).max(1), c.enc.bit_depth);
    if !(0.3..=1.6).contains(&ratio) { cx.fail("off-setting", format!("quantizer {q} gives index {y}: step ratio {ratio:.3}; {}", brief(&c))); return }
    cx.count("intra_settings", 1);
    cx.class(format!("intra q{} {}b {:?}", q / 16, c.enc.bit_depth, c.enc.chroma_sampling));
  }
  cx.sample(format!("intra {}: quantizer/index {:?}", c.class(), last));
}

fn ordered(cx: &mut Cx, r: &mut crate::rng::Rng) {
  let mut c = base(cx, r, (3, 12), 80);
  let q1 = r.us(10, 150);
  let q2 = (q1 + r.us(60, 100)).min(255);
  c.enc.quantizer = q1;
  let Some((_, a)) = go(cx, &c) else { return };
  c.enc.quantizer = q2;
  let Some((_, b)) = go(cx, &c) else { return };
  if a.len() != b.len() { cx.fail("structure", format!("{} vs {} coded frames at quantizers {q1},{q2}; {}", a.len(), b.len(), brief(&c))); return }
  for ((i, x), (_, y)) in a.iter().zip(&b) {
    if y.yac < x.yac { cx.fail("not-monotone", format!("frame in packet {i}: index {} at quantizer {q1}, {} at {q2}; {}", x.yac, y.yac, brief(&c))); return }
    if y.yac == x.yac && x.yac < 255 { cx.fail("not-monotone", format!("frame in packet {i}: index {} at both quantizers {q1} and {q2}; {}", x.yac, brief(&c))); return }
    cx.count("ordered_frames", 1);
  }
  cx.class(format!("ordered q{} {}b {:?} ll{}", q1 / 32, c.enc.bit_depth, c.enc.chroma_sampling, c.enc.low_latency as u8));
  cx.sample(format!("ordered {} at {q1},{q2}: {:?}", c.class(), a.iter().zip(&b).map(|(x, y)| (x.1.yac, y.1.yac)).take(5).collect::<Vec<_>>()));
}

fn bounds(cx: &mut Cx, r: &mut crate::rng::Rng) {
  let mut c = base(cx, r, (6, 24), 64);
  let lo = r.us(1, 140);
  let hi = (lo + r.us(0, 110)).min(255);
  c.enc.quantizer = lo;
  let Some((_, a)) = go(cx, &c) else { return };
  c.enc.quantizer = hi;
  let Some((_, b)) = go(cx, &c) else { return };
  c.enc.min_quantizer = lo as u8;
  c.enc.bitrate = r.pick(&[1000, 5000, 50_000, 500_000, 8_000_000]);
  if r.chance(1, 2) { c.enc.reservoir_frame_delay = Some(r.range(12, 60) as i32); }
  let Some((_, x)) = go(cx, &c) else { return };
  if a.len() != x.len() || b.len() != x.len() { cx.fail("structure", format!("{}/{}/{} coded frames; {}", a.len(), b.len(), x.len(), brief(&c))); return }
  let bd = c.enc.bit_depth;
  let mut used = (255, 0);
  for ((i, f), ((_, l), (_, h))) in x.iter().zip(a.iter().zip(&b)) {
    let (s, sl, sh) = (step(f.yac, bd), step(l.yac, bd), step(h.yac, bd));
    if s < sl / 1.06 - 0.5 { cx.fail("below-minimum", format!("frame in packet {i} uses index {}; the minimum {lo} alone gives {}; {}", f.yac, l.yac, brief(&c))); return }
    if s > sh * 1.06 + 0.5 { cx.fail("above-maximum", format!("frame in packet {i} uses index {}; the maximum {hi} alone gives {}; {}", f.yac, h.yac, brief(&c))); return }
    used = (used.0.min(f.yac), used.1.max(f.yac));
    cx.count("bounded_frames", 1);
  }
  cx.class(format!("bounds {}-{} rate{} ll{}", lo / 32, hi / 32, c.enc.bitrate, c.enc.low_latency as u8));
  cx.sample(format!("bounds {lo}..{hi} bitrate {} -> indices {used:?}", c.enc.bitrate));
}

fn rate(cx: &mut Cx, r: &mut crate::rng::Rng) {
  let mut c = base(cx, r, (1, 1), 64);
  let e = &mut c.enc;
  e.width = 64;
  e.height = 48 + 16 * r.us(0, 1);
  e.speed_settings = SpeedSettings::from_preset(10);
  e.set_key_frame_interval(0, r.pick(&[30, 60, 240]));
  e.switch_frame_interval = 0;
  e.time_base = r.pick(&[Rational::new(1, 25), Rational::new(1, 30), Rational::new(1001, 30000), Rational::new(1, 60)]);
  e.quantizer = r.us(60, 160);
  c.force_key.clear();
  c.hbd = e.bit_depth > 8;
  c.nframes = if cx.thorough { 900 } else { r.us(240, 360) };
  c.content = Content { kind: r.pick(&[Kind::Noise, Kind::Mixed]), seed: r.u64(), cut_every: 0, first: 0, hold: 1, vx: r.range(1, 3) as i64, vy: 1 };
  let rate_of = |pk: &[Pkt], e: &EncoderConfig| {
    let bits: usize = pk.iter().map(|p| p.data.len() * 8).sum();
    bits as f64 / (pk.len() as f64 * e.time_base.num as f64 / e.time_base.den as f64)
  };
  let Some((pk, _)) = go(cx, &c) else { return };
  let natural = rate_of(&pk, &c.enc);
  let target = natural * (0.6 + 0.9 * r.f());
  c.enc.bitrate = target as i32;
  c.enc.quantizer = 255;
  c.enc.min_quantizer = 0;
  let Some((pk, f)) = go(cx, &c) else { return };
  let got = rate_of(&pk, &c.enc);
  let ratio = got / target;
  if cx.verbose { eprintln!("natural {natural:.0} target {target:.0} got {got:.0} ratio {ratio:.3}"); }
  cx.count("long_sequences", 1);
  cx.count("long_sequence_frames", pk.len() as u64);
  let qr = (f.iter().map(|x| x.1.yac).min().unwrap(), f.iter().map(|x| x.1.yac).max().unwrap());
  if !(0.85..=1.15).contains(&ratio) { cx.fail("rate", format!("target {target:.0} bit/s, produced {got:.0} ({ratio:.3}) over {} frames, indices {qr:?}; {}", pk.len(), brief(&c))); }
  cx.class(format!("rate {:?} ll{} {:?} r{:.1}", c.content.kind, c.enc.low_latency as u8, c.enc.chroma_sampling, ratio));
  cx.sample(format!("rate {} target {target:.0} got {got:.0} ({ratio:.3}) indices {qr:?}", c.class()));
}
