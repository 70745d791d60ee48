//! C07: configuration validation against a model of the documented limits.
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::content::Content;
use crate::driver::{Cx, Spec};
use crate::enc;
use crate::rng::Rng;
use rav1e::bench::api::*;
use rav1e::prelude::*;
use rav1e::InvalidConfig as I;

pub fn spec() -> Spec {
  Spec {
    id: "C07",
    run,
    secs: (50, 600),
    rule: "a case draws configurations with fields at, beside and far beyond their documented limits, compares the outcome of every way to create an encoder with an independent model of the limits, and encodes some frames with the accepted ones that are small; classes are (fields out of range, outcome)",
    assumptions: &["bit depth is 8, 10 or 12 and fits the sample type, the quantizer is at most 255 and the bitrate is not negative: the documentation does not promise an error outside"],
    ..BASE
  }
}

// Annex A of the AV1 specification: level index -> (picture size, width, height, display rate)
const LEVELS: [(u8, u64, u64, u64, u64); 14] = [
  (0, 147456, 2048, 1152, 4423680), (1, 278784, 2816, 1584, 8363520), (4, 665856, 4352, 2448, 19975680), (5, 1065024, 5504, 3096, 31950720),
  (8, 2359296, 6144, 3456, 70778880), (9, 2359296, 6144, 3456, 141557760), (12, 8912896, 8192, 4352, 267386880), (13, 8912896, 8192, 4352, 534773760),
  (14, 8912896, 8192, 4352, 1069547520), (15, 8912896, 8192, 4352, 1069547520), (16, 35651584, 16384, 8704, 1069547520),
  (17, 35651584, 16384, 8704, 2139095040), (18, 35651584, 16384, 8704, 4278190080), (19, 35651584, 16384, 8704, 4278190080),
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Why { Width, Height, SarNum, SarDen, RenderW, RenderH, Lookahead, KeyInt, TileCols, TileRows, RateNum, RateDen, Delay, Switch, Still, Color, LevelUndef, Level, Bitrate, Mismatch }

fn why(e: &I) -> Option<Why> {
  Some(match e {
    I::InvalidWidth(_) => Why::Width, I::InvalidHeight(_) => Why::Height, I::InvalidAspectRatioNum(_) => Why::SarNum, I::InvalidAspectRatioDen(_) => Why::SarDen,
    I::InvalidRenderWidth(_) => Why::RenderW, I::InvalidRenderHeight(_) => Why::RenderH, I::InvalidRdoLookaheadFrames { .. } => Why::Lookahead,
    I::InvalidMaxKeyFrameInterval { .. } => Why::KeyInt, I::InvalidTileCols(_) => Why::TileCols, I::InvalidTileRows(_) => Why::TileRows,
    I::InvalidFrameRateNum { .. } => Why::RateNum, I::InvalidFrameRateDen { .. } => Why::RateDen, I::InvalidReservoirFrameDelay(_) => Why::Delay,
    I::InvalidSwitchFrameInterval(_) => Why::Switch, I::InvalidOptionWithStillPicture(_) => Why::Still, I::ColorConfigurationMismatch => Why::Color,
    I::LevelUndefined => Why::LevelUndef, I::LevelConstraintsExceeded => Why::Level, I::TargetBitrateNeeded => Why::Bitrate, I::RateControlConfigurationMismatch => Why::Mismatch,
    _ => return None,
  })
}

/// The limits that a configuration breaks; None: too close to a rounding boundary to tell.
fn broken(e: &EncoderConfig, pass: bool) -> Option<Vec<Why>> {
  let mut v = vec![];
  let min = if e.still_picture { 1 } else { 16 };
  if !(min..=65535).contains(&e.width) { v.push(Why::Width) }
  if !(min..=65535).contains(&e.height) { v.push(Why::Height) }
  let s = e.sample_aspect_ratio;
  if s.num == 0 { v.push(Why::SarNum) }
  if s.den == 0 { v.push(Why::SarDen) }
  if s.num != 0 && s.den != 0 {
    // wider samples: the display width grows; taller ones: the display height
    let (w, h) = (e.width as f64, e.height as f64);
    let (rw, rh) = if s.num > s.den { (w * (s.num as f64 / s.den as f64), h) } else { (w, h * (s.den as f64 / s.num as f64)) };
    for (r, y) in [(rw, Why::RenderW), (rh, Why::RenderH)] {
      if (r - 65535.5).abs() < 1.0 && r.fract() != 0.0 { return None; }
      if r < 0.5 || r >= 65535.5 { v.push(y) }
    }
  }
  if e.speed_settings.rdo_lookahead_frames < 1 || e.speed_settings.rdo_lookahead_frames == usize::MAX { v.push(Why::Lookahead) }
  if e.max_key_frame_interval > i32::MAX as u64 / 3 { v.push(Why::KeyInt) }
  if e.tile_cols != 0 && !e.tile_cols.is_power_of_two() { v.push(Why::TileCols) }
  if e.tile_rows != 0 && !e.tile_rows.is_power_of_two() { v.push(Why::TileRows) }
  let t = e.time_base;
  if t.num == 0 || t.num > u32::MAX as u64 { v.push(Why::RateNum) }
  if t.den == 0 || t.den > u32::MAX as u64 { v.push(Why::RateDen) }
  if let Some(d) = e.reservoir_frame_delay { if !(12..=131072).contains(&d) { v.push(Why::Delay) } }
  if e.switch_frame_interval > 0 && !e.low_latency { v.push(Why::Switch) }
  if e.enable_timing_info && e.still_picture { v.push(Why::Still) }
  if let Some(c) = e.color_description {
    let srgb = c.color_primaries == ColorPrimaries::BT709 && c.transfer_characteristics == TransferCharacteristics::SRGB && c.matrix_coefficients == MatrixCoefficients::Identity;
    if srgb && e.chroma_sampling != ChromaSampling::Cs400 && (e.chroma_sampling != ChromaSampling::Cs444 || e.pixel_range != PixelRange::Full) { v.push(Why::Color) }
  }
  if let Some(l) = e.level_idx {
    if l != 31 {
      match LEVELS.iter().find(|x| x.0 == l) {
        None => v.push(Why::LevelUndef),
        Some(x) => {
          let px = e.width as u128 * e.height as u128;
          if px > x.1 as u128 || e.width as u64 > x.2 || e.height as u64 > x.3 { v.push(Why::Level) }
          // pictures per second = den / num
          else if t.num != 0 && px * t.den as u128 > x.4 as u128 * t.num as u128 { v.push(Why::Level) }
        }
      }
    }
  }
  if pass && e.bitrate == 0 { v.push(Why::Bitrate) }
  Some(v)
}

fn spoil(r: &mut Rng, e: &mut EncoderConfig) {
  let edge = |r: &mut Rng| r.pick(&[0usize, 1, 2, 7, 15, 16, 17, 63, 64, 65, 4095, 4096, 4097, 8192, 16384, 65534, 65535, 65536, 65537, 131071, u32::MAX as usize, usize::MAX]);
  match r.below(17) {
    0 => e.width = edge(r),
    1 => e.height = edge(r),
    2 => e.sample_aspect_ratio = Rational::new(r.pick(&[0, 1, 2, 3, 1000, 65535, u32::MAX as u64, u64::MAX]), r.pick(&[0, 1, 2, 3, 1000, 65535, u32::MAX as u64, u64::MAX])),
    3 => {
      // near the display size limit
      let k = r.range(1, 3000);
      e.sample_aspect_ratio = if r.chance(1, 2) { Rational::new(65535 + k / 1000, e.width.max(1) as u64) } else { Rational::new(e.height.max(1) as u64, 65534 + k % 4) };
    }
    4 => e.speed_settings.rdo_lookahead_frames = r.pick(&[0, 1, 2, 40, 1000, usize::MAX / 2, usize::MAX - 1, usize::MAX]),
    5 => e.max_key_frame_interval = r.pick(&[0, 1, 2, 715827881, 715827882, 715827883, u64::MAX]),
    6 => e.tile_cols = r.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 16, 63, 64, 65, 128, 1 << 40]),
    7 => e.tile_rows = r.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 16, 63, 64, 65, 128, 1 << 40]),
    8 => e.time_base = Rational::new(r.pick(&[0, 1, 2, 1001, 90000, u32::MAX as u64 - 1, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX]), r.pick(&[0, 1, 2, 24, 60, 30000, 90000, u32::MAX as u64, u32::MAX as u64 + 1, u64::MAX])),
    9 => e.reservoir_frame_delay = Some(r.pick(&[i32::MIN, -1, 0, 1, 11, 12, 13, 240, 131071, 131072, 131073, i32::MAX])),
    10 => { e.switch_frame_interval = r.pick(&[0, 1, 2, 3, 4, 7, 100, u64::MAX]); if r.chance(1, 2) { e.low_latency = r.chance(1, 2); } }
    11 => { e.enable_timing_info = r.chance(1, 2); e.still_picture = r.chance(1, 2); }
    12 => {
      e.color_description = Some(ColorDescription { color_primaries: ColorPrimaries::BT709, transfer_characteristics: TransferCharacteristics::SRGB,
        matrix_coefficients: if r.chance(2, 3) { MatrixCoefficients::Identity } else { MatrixCoefficients::BT709 } });
      e.pixel_range = r.pick(&[PixelRange::Full, PixelRange::Limited]);
      e.chroma_sampling = r.pick(&[ChromaSampling::Cs444, ChromaSampling::Cs444, ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs400]);
    }
    13 | 14 => {
      e.level_idx = Some(r.below(36) as u8);
      // sizes and rates around a level's limits
      let l = r.pick(&LEVELS);
      if r.chance(1, 2) { e.level_idx = Some(l.0); }
      let j = |r: &mut Rng| r.below(3) as i64 - 1;
      match r.below(5) {
        0 => { e.width = (l.2 as i64 + j(r)) as usize; e.height = 16.max((l.1 / l.2) as usize); }
        1 => { e.height = (l.3 as i64 + j(r)) as usize; e.width = 16.max((l.1 / l.3) as usize); }
        2 => { e.width = r.us(64, l.2 as usize); e.height = ((l.1 as i64 / e.width as i64) + j(r)).max(1) as usize; }
        3 => {
          // frame rate around the display-rate limit
          e.width = r.us(32, 200); e.height = r.us(32, 200);
          let px = (e.width * e.height) as u64;
          let num = r.range(1, 1001);
          e.time_base = Rational::new(num, ((l.4 * num) as i64 / px as i64 + j(r)).max(1) as u64);
        }
        _ => e.time_base = Rational::new(r.range(1, 100), r.range(1, 100_000)),
      }
    }
    15 => { e.min_key_frame_interval = r.pick(&[0, 1, 12, 1000, u64::MAX]); e.bitrate = r.pick(&[0, 1, 1000, 100_000_000, i32::MAX]); }
    _ => { e.tiles = r.pick(&[0, 1, 2, 3, 7, 64, 4096, 5000, usize::MAX]); }
  }
}

fn outcome<T: Pixel>(cfg: &Config) -> Result<(), I> { cfg.new_context::<T>().map(|_| ()) }

fn one(cx: &mut Cx, r: &mut Rng) {
  let o = Opts { cost: 60_000.0, max_w: 110, max_h: 90, max_frames: 5, min_speed: 6, ..Default::default() };
  let mut c: EncCase = case::gen(r, &o);
  c.content = Content::random(r);
  for _ in 0..r.pick(&[0, 1, 1, 1, 2, 2, 3, 5]) { spoil(r, &mut c.enc); }
  if c.enc.still_picture { c.nframes = 1; }
  let pass = r.chance(1, 8);
  let e = &c.enc;
  let desc = format!("{:?}", e);
  if cx.verbose { eprintln!("{desc}"); }
  let mut cfg = c.config();
  if pass { cfg = cfg.with_rate_control(RateControlConfig::new().with_emit_data(true)); }
  let Some(b) = broken(e, pass) else { return };
  cx.count("configurations", 1);
  // memory: a picture buffer is not needed to validate
  let v = cfg.validate();
  let mut got = vec![("validate", v)];
  let huge = e.width.saturating_mul(e.height) > 1 << 24;
  got.push(("tiling_info", cfg.tiling_info().map(|_| ())));
  if !huge || !b.is_empty() {
    got.push(("new_context", if c.hbd { outcome::<u16>(&cfg) } else { outcome::<u8>(&cfg) }));
    if !b.is_empty() || (e.speed_settings.rdo_lookahead_frames < 1000 && r.chance(1, 8)) {
      let ch = if pass { if c.hbd { cfg.new_firstpass_channel::<u16>().map(|_| ()) } else { cfg.new_firstpass_channel::<u8>().map(|_| ()) } }
        else if c.hbd { cfg.new_channel::<u16>().map(|_| ()) } else { cfg.new_channel::<u8>().map(|_| ()) };
      got.push(("channel", ch));
      // the wrong kind of channel is a mismatch
      let wrong = if pass { if c.hbd { cfg.new_channel::<u16>().map(|_| ()) } else { cfg.new_channel::<u8>().map(|_| ()) } }
        else if c.hbd { cfg.new_firstpass_channel::<u16>().map(|_| ()) } else { cfg.new_firstpass_channel::<u8>().map(|_| ()) };
      match wrong {
        Ok(()) => cx.fail("mismatch", format!("a channel that does not suit the rate control configuration was created; {desc}")),
        Err(x) => if why(&x) != Some(Why::Mismatch) && !why(&x).map_or(true, |w| b.contains(&w)) { cx.fail("mismatch", format!("error {x:?}; {desc}")) },
      }
    }
  }
  for (f, g) in &got {
    match g {
      Ok(()) => if !b.is_empty() { cx.fail("accepted", format!("{f} accepts a configuration that breaks {b:?}; {desc}")); return },
      Err(x) => match why(x) {
        None => cx.inconclusive(format!("an error this check does not know: {x:?}")),
        Some(w) => {
          if !b.contains(&w) { cx.fail(&format!("refused {w:?}"), format!("{f} refuses with {x:?}, limits broken: {b:?}; {desc}")); return }
          if x.to_string().is_empty() { cx.fail("message", format!("{x:?} has no message")) }
        }
      },
    }
  }
  cx.class(format!("{b:?}"));
  if !b.is_empty() { cx.count("refusals", 1); return }
  cx.count("acceptances", 1);
  if e.width * e.height > 40_000 || e.speed_settings.rdo_lookahead_frames > 64 || pass { return }
  match enc::encode(&c) {
    Ok(p) => {
      if p.len() != c.nframes { cx.fail("incomplete", format!("{} packets for {} frames; {desc}", p.len(), c.nframes)) }
      cx.count("encoded_frames", p.len() as u64);
    }
    Err(m) => cx.fail("encode", format!("{m}; {desc}")),
  }
  cx.sample(format!("{} encoded, {} frames", c.class(), c.nframes));
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  if cx.idx == 0 { fast(cx); }
  for _ in 0..12 {
    one(cx, &mut r);
    if !cx.fails.is_empty() { break; }
  }
}

/// A small picture with an extreme but accepted frame rate (a known finding).
fn fast(cx: &mut Cx) {
  let mut r = Rng::new(1, 1);
  let mut c = case::gen(&mut r, &Opts { cost: 60_000.0, max_w: 60, max_h: 60, max_frames: 3, min_speed: 6, ..Default::default() });
  c.enc = EncoderConfig::with_speed_preset(6);
  c.enc.width = 48;
  c.enc.height = 32;
  c.enc.speed_settings.scene_detection_mode = SceneDetectionSpeed::Standard;
  c.enc.time_base = Rational::new(1, 2_000_000_000);
  c.nframes = 3;
  if let Err(p) = crate::driver::guard(|| { let _ = enc::encode(&c); }) {
    let s = crate::driver::panic_sig(&p);
    cx.fail(&s, p);
  }
}
