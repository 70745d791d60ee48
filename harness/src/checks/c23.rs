//! C23: reconstructions stay close to the submitted pictures.
use super::c01::brief;
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::driver::{guard, panic_sig, Cx, Spec};
use crate::enc::{self, Pic, Pkt};
use crate::qtab;
use crate::rng::Rng;
use rav1e::prelude::*;

pub fn spec() -> Spec {
  Spec {
    id: "C23",
    run,
    secs: (45, 800),
    rule: "a case encodes one sequence at constant quality and compares every plane of every reconstruction with the generated picture of the same number: mean squared error of the plane, of every 64x64 area and of every 16x16 area against multiples of the squared quantizer step of the specification's tables (coarser of the configured quantizer and the packet's); the generator, not the encoder, supplies the picture compared with; classes are (configuration class, content, quantizer band)",
    assumptions: &["the multiples were calibrated on the unchanged encoder with a margin; they bound gross loss, not coding efficiency", "not covered: transform-domain rate estimation (off outside its calibrated range) and 64x64 minimum partitions (the format codes a quarter of their frequencies)"],
    ..BASE
  }
}

/// worst mean squared error over the plane, over 64x64 areas and over 16x16 areas
fn mse(a: &(usize, usize, Vec<u16>), b: &(usize, usize, Vec<u16>)) -> [(f64, usize, usize); 3] {
  let (w, h) = (a.0, a.1);
  let mut out = [(0.0, 0, 0); 3];
  for (k, s) in [w.max(h), 64, 16].into_iter().enumerate() {
    for y0 in (0..h).step_by(s) {
      for x0 in (0..w).step_by(s) {
        let (mut d, mut n) = (0.0, 0);
        for y in y0..(y0 + s).min(h) { for x in x0..(x0 + s).min(w) { let e = a.2[y * w + x] as f64 - b.2[y * w + x] as f64; d += e * e; n += 1; } }
        // slivers at the edge belong to their neighbour
        if k > 0 && n < s * s / 4 { continue }
        let m = d / n as f64;
        if m > out[k].0 { out[k] = (m, x0, y0); }
      }
    }
  }
  out
}

pub struct Worst { pub r: [f64; 3], pub at: [String; 3] }

pub fn measure(c: &EncCase, p: &[Pkt], pic: impl Fn(usize) -> Pic) -> Result<(Worst, u64), String> {
  let mut o = Worst { r: [0.0; 3], at: Default::default() };
  let mut n = 0;
  for x in p {
    let Some(rec) = &x.rec else { return Err(format!("packet {} has no reconstruction", x.no)) };
    let src = pic(x.no as usize);
    if rec.planes.len() != src.planes.len() { return Err(format!("packet {} has {} planes", x.no, rec.planes.len())); }
    let q = x.qp.max(c.enc.quantizer.clamp(1, 255) as u8);
    for (i, (a, b)) in rec.planes.iter().zip(&src.planes).enumerate() {
      // the encoder gives chroma quantizers up to 7/4 and 5/4 of luma's
      let step = qtab::ac(q, c.enc.bit_depth) / 8.0 * [1.0, 1.75, 1.25][i];
      for (k, (m, px, py)) in mse(a, b).into_iter().enumerate() {
        // at the finest steps, rounding and what nobody sees (50 dB) count for more
        let r = m / (step * step + 0.5 + 0.1 * 4f64.powi(c.enc.bit_depth as i32 - 8));
        n += 1;
        if r > o.r[k] { o.r[k] = r; o.at[k] = format!("picture {} plane {i} at ({px},{py}): mean squared error {m:.1}, step {step:.1} (qp {}, quantizer {})", x.no, x.qp, c.enc.quantizer); }
      }
    }
  }
  Ok((o, n))
}

/// (plane, 64x64, 16x16); the worst of 7000 calibration cases were at a third of these
const LIMIT: [[f64; 3]; 2] = [[8.0, 6.0, 20.0], [14.0, 12.0, 20.0]];

pub fn gen(r: &mut Rng, idx: u64) -> EncCase {
  let mut o = Opts { cost: 120_000.0, max_frames: 10, bitrate: false, ..Default::default() };
  match (idx + idx / 8) % 4 { 0 => { o.force_tiles = true; o.min_speed = 6; } 1 => { o.max_w = 72; o.max_h = 72; } 2 => { o.min_frames = 5; o.min_speed = 4; } _ => {} }
  let mut c = case::gen(r, &o);
  c.enc.bitrate = 0;
  c.enc.speed_settings.transform.tx_domain_rate = false;
  // a 64x64 transform codes only a quarter of its frequencies: leave the encoder smaller ones
  let p = &mut c.enc.speed_settings.partition.partition_range;
  if format!("{p:?}").contains("min: BLOCK_64X64") { *p = PartitionRange::new(BlockSize::BLOCK_32X32, BlockSize::BLOCK_64X64); }
  c.enc.quantizer = match r.below(6) { 0 | 5 => r.us(0, 8), 1 => r.us(1, 40), 2 => r.us(20, 120), 3 => r.us(80, 200), _ => r.us(1, 255) };
  c
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let c = gen(&mut r, cx.idx);
  if cx.verbose { eprintln!("{}", brief(&c)); }
  let p = match guard(|| enc::encode(&c)) { Err(m) => { cx.fail(&panic_sig(&m), format!("{m}; {}", brief(&c))); return } Ok(Err(m)) => { cx.fail("encode", format!("{m}; {}", brief(&c))); return } Ok(Ok(p)) => p };
  let (o, n) = match measure(&c, &p, |i| enc::source_pic(&c, i)) { Ok(x) => x, Err(m) => { cx.fail("rec", format!("{m}; {}", brief(&c))); return } };
  if cx.verbose { eprintln!("DATA {:?} {:?} s{} {:.3} {:.3} {:.3} {} | {}", c.content.kind, c.enc.tune, c.preset, o.r[0], o.r[1], o.r[2], o.at[0], o.at[2]); }
  if cx.verbose && std::env::var("VMON_MAP").is_ok() {
    // mean squared error of every 8x8 area
    for x in &p {
      let (rec, src) = (x.rec.as_ref().unwrap(), enc::source_pic(&c, x.no as usize));
      for (i, (a, b)) in rec.planes.iter().zip(&src.planes).enumerate() {
        eprintln!("picture {} {:?} qp {} plane {i}", x.no, x.ty, x.qp);
        for y0 in (0..a.1).step_by(8) {
          let mut l = String::new();
          for x0 in (0..a.0).step_by(8) {
            let (mut d, mut n) = (0.0, 0.0);
            for y in y0..(y0 + 8).min(a.1) { for xx in x0..(x0 + 8).min(a.0) { let e = a.2[y * a.0 + xx] as f64 - b.2[y * a.0 + xx] as f64; d += e * e; n += 1.0; } }
            l += &format!(" {:.0}", d / n);
          }
          eprintln!("{l}");
        }
      }
    }
  }
  let limit = LIMIT[(c.enc.tune == Tune::Psychovisual) as usize];
  for k in 0..3 {
    if o.r[k] > limit[k] { cx.fail(["plane", "area", "block"][k], format!("{}: {:.2} times the squared step, at most {} expected; {}", o.at[k], o.r[k], limit[k], brief(&c))); return }
  }
  cx.count("areas_compared", n);
  cx.count("planes_compared", p.iter().map(|x| x.rec.as_ref().map_or(0, |r| r.planes.len() as u64)).sum());
  cx.class(format!("{} {:?} q{}", c.class(), c.content.kind, c.enc.quantizer / 32));
  cx.sample(format!("{:?} q{}: worst plane {:.2}, 64x64 {:.2}, 16x16 {:.2} squared steps", c.content.kind, c.enc.quantizer, o.r[0], o.r[1], o.r[2]));
}
