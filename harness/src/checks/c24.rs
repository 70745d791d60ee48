//! C24: key frames at scene changes, and nowhere else without cause.
use super::c01::brief;
use super::BASE;
use crate::case::{self, Opts};
use crate::content::{Content, Kind};
use crate::driver::{Cx, Spec};
use crate::enc::{self, Pic};
use rav1e::prelude::*;

pub fn spec() -> Spec {
  Spec {
    id: "C24",
    run,
    secs: (45, 600),
    rule: "calm scenes (luma changes below 0.2% of the range from frame to frame) of at least nine frames joined by abrupt cuts (above 12%), over sizes, formats, depths, intervals, requests and detection modes; the key positions are compared with the cuts, requests and intervals; with detection off, for any content; classes are (mode, latency, depth, size class, intervals, content kind)",
    assumptions: &["what is neither calm nor abrupt is left to the detector's judgement (the slower mode may also miss an abrupt cut, but not be late), and so are cuts within nine frames of the end or of a change too small to be abrupt"],
    ..BASE
  }
}

/// mean absolute luma difference of two pictures, in 1/1000 of the range
fn diff(a: &Pic, b: &Pic, bd: usize) -> f64 {
  let (a, b) = (&a.planes[0].2, &b.planes[0].2);
  let s: u64 = a.iter().zip(b).map(|(x, y)| x.abs_diff(*y) as u64).sum();
  s as f64 * 1000.0 / a.len() as f64 / (1u64 << bd) as f64
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let o = Opts { cost: 150_000.0, max_w: 160, max_h: 128, max_frames: 60, min_frames: 30, min_speed: 10, tweak: false, still: false, ..Default::default() };
  let mut c = case::gen(&mut r, &o);
  let mode = r.pick(&[SceneDetectionSpeed::None, SceneDetectionSpeed::Fast, SceneDetectionSpeed::Standard, SceneDetectionSpeed::Fast, SceneDetectionSpeed::Fast, SceneDetectionSpeed::Standard, SceneDetectionSpeed::Standard]);
  let e = &mut c.enc;
  if r.chance(1, 25) && mode != SceneDetectionSpeed::None { e.width = r.us(240, 340); e.height = r.us(240, 300); } else { e.width = r.us(40, 110); e.height = r.us(40, 90); }
  e.tiles = 0;
  e.tile_cols = 0;
  e.tile_rows = 0;
  e.speed_settings.scene_detection_mode = mode;
  c.nframes = if e.width > 200 { r.us(24, 36) } else { r.us(26, 70) };
  let max = r.pick(&[12, 23, 30, 60, 1000]);
  let min = r.pick(&[0, 1, 3, 8, 12]).min(max);
  e.set_key_frame_interval(min, max);
  if e.low_latency && r.chance(1, 3) { e.switch_frame_interval = r.range(2, 9); }
  c.force_key = if r.chance(1, 2) { (1..c.nframes).filter(|_| r.chance(1, 14)).collect() } else { vec![] };
  c.threads = 1;
  if mode != SceneDetectionSpeed::None {
    let hold = r.pick(&[1, 3, 100_000, 100_000, 100_000]);
    let v = if hold == 1 { 1 } else { 3 };
    c.content = Content {
      kind: r.pick(&[Kind::Texture, Kind::Texture, Kind::Screen, Kind::Screen, Kind::Objects, Kind::Extreme, Kind::Gradient, Kind::Flat, Kind::Mixed, Kind::Mixed, Kind::Noise]),
      seed: r.u64(), cut_every: if r.chance(1, 8) { 0 } else { r.range(9, 28) }, hold,
      vx: r.range(0, 2 * v) as i64 - v as i64, vy: r.range(0, 2 * v) as i64 - v as i64, first: r.below(12),
    };
  }
  if cx.verbose { eprintln!("{}", brief(&c)); }
  let pk = match enc::encode(&c) { Ok(p) => p, Err(m) => { cx.fail("encode", format!("{m}; {}", brief(&c))); return } };
  let e = &c.enc;
  let keys: Vec<usize> = pk.iter().enumerate().filter(|(_, p)| p.ty == FrameType::KEY).map(|(i, _)| i).collect();
  let (min, max) = (e.min_key_frame_interval as usize, e.max_key_frame_interval as usize);
  cx.count("frames", pk.len() as u64);
  cx.count("keys", keys.len() as u64);
  let must = |i: usize, dist: usize| i == 0 || c.force_key.contains(&i) || dist >= max;
  let dist = |i: usize| i - keys.iter().rev().find(|k| **k < i).copied().unwrap_or(0);
  let class = |k: &str| format!("{k} ll{} {}b {:?} w{} min{} max{} {:?}", e.low_latency as u8, e.bit_depth, e.chroma_sampling, e.width / 64, min, max, c.content.kind);
  if mode == SceneDetectionSpeed::None {
    for i in 0..pk.len() {
      if keys.contains(&i) != must(i, dist(i)) {
        cx.fail("without-detection", format!("frame {i}: key {}, {} frames after the last; requests {:?}; keys {keys:?} of {}; {}", keys.contains(&i), dist(i), c.force_key, pk.len(), brief(&c)));
        return;
      }
    }
    cx.count("frames_without_detection", pk.len() as u64);
    cx.class(class("none"));
    cx.sample(format!("no detection, max {max}, requests {:?}: keys {keys:?} of {}", c.force_key, pk.len()));
    return;
  }
  let src: Vec<_> = (0..c.nframes).map(|i| enc::source_pic(&c, i)).collect();
  let d: Vec<f64> = std::iter::once(0.0).chain((1..c.nframes).map(|i| diff(&src[i - 1], &src[i], e.bit_depth))).collect();
  let abrupt: Vec<usize> = (0..c.nframes).filter(|&i| d[i] >= 120.0).collect();
  // frames that are neither calm nor abrupt, and the frames they may influence, are not judged
  let near = |i: usize| (0..c.nframes).any(|j| d[j] > 2.0 && d[j] < 120.0 && j.abs_diff(i) <= 12) || abrupt.iter().any(|&j| j != i && j.abs_diff(i) < 9);
  let (mut cuts, mut calm, mut forced_keys) = (0, 0, 0);
  for i in 0..c.nframes {
    let k = keys.contains(&i);
    if must(i, dist(i)) {
      if !k { cx.fail("missing", format!("frame {i} must be a key frame; keys {keys:?}; requests {:?}; {}", c.force_key, brief(&c))); return }
      forced_keys += 1;
      continue;
    }
    if near(i) { continue }
    if abrupt.contains(&i) {
      if dist(i) < min || i < 9 || i + 9 > c.nframes { continue }
      if mode == SceneDetectionSpeed::Standard && !k {
        // the slower detector may predict one picture from another and see no cut, but must not see it late
        if let Some(l) = (i + 1..(i + 6).min(c.nframes)).find(|&l| keys.contains(&l) && !must(l, dist(l))) {
          cx.fail("late-cut", format!("frame {i} changes {:.0}/1000, the key frame comes at {l}; cuts {abrupt:?}, keys {keys:?} of {}, requests {:?}; {}", d[i], c.nframes, c.force_key, brief(&c)));
          return;
        }
        continue;
      }
      if !k { cx.fail("missed-cut", format!("frame {i} changes {:.0}/1000 and is no key frame, {} after the last; cuts {abrupt:?}, keys {keys:?} of {}, requests {:?}; {}", d[i], dist(i), c.nframes, c.force_key, brief(&c))); return }
      cuts += 1;
      if c.force_key.iter().any(|f| *f < i && i - f <= 6) { cx.count("cuts_judged_after_a_request", 1); }
    } else {
      if k { cx.fail("uncalled-key", format!("frame {i} is a key frame in a calm scene, {} after the last; cuts {abrupt:?}, keys {keys:?} of {}, requests {:?}; {}", dist(i), c.nframes, c.force_key, brief(&c))); return }
      calm += 1;
    }
  }
  cx.count("cuts_judged", cuts);
  cx.count("calm_frames_judged", calm);
  cx.count("keys_required", forced_keys);
  if cuts + calm > 0 { cx.class(class(if mode == SceneDetectionSpeed::Fast { "fast" } else { "standard" })); }
  cx.sample(format!("{mode:?} min {min} max {max}, requests {:?}, cuts {abrupt:?}: keys {keys:?} of {}", c.force_key, pk.len()));
}
