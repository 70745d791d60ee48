//! Random encoder configurations and workloads.
use crate::content::Content;
use crate::rng::Rng;
use rav1e::bench::api::*;
use rav1e::bench::partition::BlockSize;
use rav1e::prelude::*;

#[derive(Clone, Debug)]
pub struct EncCase {
  pub enc: EncoderConfig,
  pub threads: usize,
  /// use 16-bit sample storage
  pub hbd: bool,
  pub nframes: usize,
  pub content: Content,
  /// frames submitted with a key frame request
  pub force_key: Vec<usize>,
  /// T.35 messages per frame
  pub t35: Vec<(usize, Vec<(u8, u8, Vec<u8>)>)>,
  pub preset: u8,
}

#[derive(Clone, Copy, Debug)]
pub struct Opts {
  /// upper bound on (pixels * frames * relative cost)
  pub cost: f64,
  pub max_w: usize,
  pub max_h: usize,
  pub max_frames: usize,
  pub min_frames: usize,
  pub min_speed: u8,
  pub still: bool,
  pub bitrate: bool,
  pub grain: bool,
  pub meta: bool,
  pub force_tiles: bool,
  pub tweak: bool,
}

impl Default for Opts {
  fn default() -> Self {
    Opts {
      cost: 400_000.0,
      max_w: 320,
      max_h: 240,
      max_frames: 14,
      min_frames: 1,
      min_speed: 0,
      still: true,
      bitrate: true,
      grain: true,
      meta: true,
      force_tiles: false,
      tweak: true,
    }
  }
}

pub const SQ: [BlockSize; 5] = [
  BlockSize::BLOCK_4X4,
  BlockSize::BLOCK_8X8,
  BlockSize::BLOCK_16X16,
  BlockSize::BLOCK_32X32,
  BlockSize::BLOCK_64X64,
];

pub fn dim(r: &mut Rng, max: usize, min: usize) -> usize {
  let v = match r.below(8) {
    0 => r.us(16, 40),
    1 | 2 => r.us(16, 72),
    3 => 64 * r.us(1, 3) + r.us(0, 4) - 2,
    4 => 8 * r.us(2, 20),
    5 => r.us(60, 140),
    6 => r.us(100, max.max(101)),
    _ => r.us(16, max.max(17)),
  };
  v.clamp(min, max)
}

pub fn relative_cost(s: &SpeedSettings) -> f64 {
  let mut c = 1.0;
  if s.partition.encode_bottomup { c *= 3.0 }
  if s.transform.rdo_tx_decision { c *= 2.5 }
  if matches!(s.prediction.prediction_modes, PredictionModesSetting::ComplexAll) { c *= 2.5 }
  if matches!(s.prediction.prediction_modes, PredictionModesSetting::ComplexKeyframes) { c *= 1.3 }
  if !s.transform.tx_domain_rate && !s.transform.tx_domain_distortion { c *= 1.2 }
  c *= match s.partition.partition_range_min() {
    0 => 2.0,
    1 => 1.3,
    _ => 1.0,
  };
  if s.lrf { c *= 1.6 }
  if s.partition.non_square_partition_max_threshold > BlockSize::BLOCK_8X8 { c *= 2.0 }
  c
}

/// the smallest block size is not readable through the public API: keep it from the Debug output
pub trait MinBlock {
  fn partition_range_min(&self) -> usize;
}
impl MinBlock for PartitionSpeedSettings {
  fn partition_range_min(&self) -> usize {
    let s = format!("{:?}", self.partition_range);
    if s.contains("min: BLOCK_4X4") { 0 } else if s.contains("min: BLOCK_8X8") { 1 } else { 2 }
  }
}

pub fn random_speed(r: &mut Rng, o: &Opts) -> (u8, SpeedSettings) {
  let preset = r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 10, 10]).max(o.min_speed);
  let mut s = SpeedSettings::from_preset(preset);
  if o.tweak && r.chance(1, 2) {
    // toggle individual tools
    let n = r.us(1, 6);
    for _ in 0..n {
      match r.below(18) {
        0 => s.multiref = r.chance(1, 2),
        1 => s.fast_deblock = r.chance(1, 2),
        2 => s.scene_detection_mode = r.pick(&[SceneDetectionSpeed::Fast, SceneDetectionSpeed::Standard, SceneDetectionSpeed::None]),
        3 => s.cdef = r.chance(1, 2),
        4 | 5 => s.lrf = r.chance(2, 3),
        6 => s.lru_on_skip = r.chance(1, 2),
        7 => s.sgr_complexity = r.pick(&[SGRComplexityLevel::Full, SGRComplexityLevel::Reduced]),
        8 | 9 => s.segmentation = r.pick(&[SegmentationLevel::Disabled, SegmentationLevel::Simple, SegmentationLevel::Complex, SegmentationLevel::Full]),
        10 => s.partition.encode_bottomup = r.chance(1, 3),
        11 => s.partition.non_square_partition_max_threshold = r.pick(&SQ),
        12 => {
          let a = r.us(0, 4);
          let b = r.us(a, 4);
          s.partition.partition_range = PartitionRange::new(SQ[a], SQ[b]);
        }
        13 => {
          // documented: inter tx split needs the reduced tx set
          s.transform.reduced_tx_set = r.chance(1, 2);
          s.transform.enable_inter_tx_split = s.transform.reduced_tx_set && r.chance(1, 2);
        }
        14 => s.transform.tx_domain_rate = r.chance(1, 2),
        15 => s.transform.rdo_tx_decision = r.chance(1, 3),
        16 => {
          s.prediction.prediction_modes = r.pick(&[PredictionModesSetting::Simple, PredictionModesSetting::ComplexKeyframes, PredictionModesSetting::ComplexAll]);
          s.prediction.fine_directional_intra = r.chance(1, 2);
        }
        _ => {
          s.motion.use_satd_subpel = r.chance(1, 2);
          s.motion.include_near_mvs = r.chance(1, 2);
          s.motion.me_allow_full_search = r.chance(1, 2);
        }
      }
    }
    if !s.transform.reduced_tx_set { s.transform.enable_inter_tx_split = false; }
  }
  if r.chance(1, 2) {
    s.rdo_lookahead_frames = r.pick(&[1usize, 1, 2, 3, 5, 8, 12, 40]);
  }
  (preset, s)
}

pub fn random_grain(r: &mut Rng, mono: bool, cs: ChromaSampling, start: u64, end: u64) -> GrainTableSegment {
  let pts = |r: &mut Rng, n: usize| -> Vec<[u8; 2]> {
    let mut xs: Vec<u8> = vec![];
    while xs.len() < n {
      let v = r.below(256) as u8;
      if !xs.contains(&v) { xs.push(v); }
    }
    xs.sort_unstable();
    xs.into_iter().map(|x| [x, r.below(256) as u8]).collect()
  };
  let ny = r.us(0, 14);
  let lag = r.us(0, 3) as u8;
  let _ = mono;
  let ncoef = (2 * lag as usize) * (lag as usize + 1);
  // 4:2:0 requires both chroma planes to have points, or neither
  let (ncb, ncr) = if cs == ChromaSampling::Cs420 {
    if r.chance(1, 2) { (r.us(1, 10), r.us(1, 10)) } else { (0, 0) }
  } else {
    (r.us(0, 10), r.us(0, 10))
  };
  let cfl = r.chance(1, 4);
  let (ncb, ncr) = if cfl { (0, 0) } else { (ncb, ncr) };
  let mut g = GrainTableSegment {
    start_time: start,
    end_time: end,
    scaling_points_y: Default::default(),
    scaling_points_cb: Default::default(),
    scaling_points_cr: Default::default(),
    scaling_shift: r.range(8, 11) as u8,
    ar_coeff_lag: lag,
    ar_coeffs_y: Default::default(),
    ar_coeffs_cb: Default::default(),
    ar_coeffs_cr: Default::default(),
    ar_coeff_shift: r.range(6, 9) as u8,
    cb_mult: r.u64() as u8,
    cb_luma_mult: r.u64() as u8,
    cb_offset: r.below(512) as u16,
    cr_mult: r.u64() as u8,
    cr_luma_mult: r.u64() as u8,
    cr_offset: r.below(512) as u16,
    overlap_flag: r.chance(1, 2),
    chroma_scaling_from_luma: cfl,
    grain_scale_shift: r.below(4) as u8,
    random_seed: r.range(1, 65535) as u16,
  };
  for p in pts(r, ny) { g.scaling_points_y.push(p); }
  for p in pts(r, ncb) { g.scaling_points_cb.push(p); }
  for p in pts(r, ncr) { g.scaling_points_cr.push(p); }
  for _ in 0..ncoef { g.ar_coeffs_y.push(r.u64() as i8); }
  for _ in 0..ncoef + 1 { g.ar_coeffs_cb.push(r.u64() as i8); }
  for _ in 0..ncoef + 1 { g.ar_coeffs_cr.push(r.u64() as i8); }
  g
}

pub const CP: [ColorPrimaries; 12] = [
  ColorPrimaries::BT709, ColorPrimaries::Unspecified, ColorPrimaries::BT470M, ColorPrimaries::BT470BG,
  ColorPrimaries::BT601, ColorPrimaries::SMPTE240, ColorPrimaries::GenericFilm, ColorPrimaries::BT2020,
  ColorPrimaries::XYZ, ColorPrimaries::SMPTE431, ColorPrimaries::SMPTE432, ColorPrimaries::EBU3213,
];
pub const TC: [TransferCharacteristics; 17] = [
  TransferCharacteristics::BT709, TransferCharacteristics::Unspecified, TransferCharacteristics::BT470M,
  TransferCharacteristics::BT470BG, TransferCharacteristics::BT601, TransferCharacteristics::SMPTE240,
  TransferCharacteristics::Linear, TransferCharacteristics::Log100, TransferCharacteristics::Log100Sqrt10,
  TransferCharacteristics::IEC61966, TransferCharacteristics::BT1361, TransferCharacteristics::SRGB,
  TransferCharacteristics::BT2020_10Bit, TransferCharacteristics::BT2020_12Bit,
  TransferCharacteristics::SMPTE2084, TransferCharacteristics::SMPTE428, TransferCharacteristics::HLG,
];
// Identity is only legal with 4:4:4
pub const MC: [MatrixCoefficients; 13] = [
  MatrixCoefficients::BT709, MatrixCoefficients::Unspecified, MatrixCoefficients::FCC, MatrixCoefficients::BT470BG,
  MatrixCoefficients::BT601, MatrixCoefficients::SMPTE240, MatrixCoefficients::YCgCo, MatrixCoefficients::BT2020NCL,
  MatrixCoefficients::BT2020CL, MatrixCoefficients::SMPTE2085, MatrixCoefficients::ChromatNCL,
  MatrixCoefficients::ChromatCL, MatrixCoefficients::ICtCp,
];

pub fn random_meta(r: &mut Rng, e: &mut EncoderConfig) {
  if r.chance(1, 2) {
    let mut cd = ColorDescription {
      color_primaries: r.pick(&CP),
      transfer_characteristics: r.pick(&TC),
      matrix_coefficients: r.pick(&MC),
    };
    if e.chroma_sampling == ChromaSampling::Cs444 && r.chance(1, 4) {
      cd.matrix_coefficients = MatrixCoefficients::Identity;
      if r.chance(1, 2) {
        cd.color_primaries = ColorPrimaries::BT709;
        cd.transfer_characteristics = TransferCharacteristics::SRGB;
      }
    }
    e.color_description = Some(cd);
    if cd.color_primaries == ColorPrimaries::BT709 && cd.transfer_characteristics == TransferCharacteristics::SRGB && cd.matrix_coefficients == MatrixCoefficients::Identity { e.pixel_range = PixelRange::Full; }
  }
  if r.chance(1, 3) {
    let mut p = || ChromaticityPoint { x: r.u64() as u16, y: r.u64() as u16 };
    let m = [p(), p(), p()];
    let w = p();
    e.mastering_display = Some(MasteringDisplay { primaries: m, white_point: w, max_luminance: r.u64() as u32, min_luminance: r.u64() as u32 });
  }
  if r.chance(1, 3) {
    e.content_light = Some(ContentLight { max_content_light_level: r.u64() as u16, max_frame_average_light_level: r.u64() as u16 });
  }
  if r.chance(1, 3) {
    e.sample_aspect_ratio = Rational::new(r.range(1, 64), r.range(1, 64));
  }
  if !e.still_picture && r.chance(1, 3) { e.enable_timing_info = true; }
  if r.chance(1, 4) { e.level_idx = Some(r.pick(&[8u8, 9, 12, 13, 14, 15, 16, 17, 18, 19, 31])); }
  e.chroma_sample_position = r.pick(&[ChromaSamplePosition::Unknown, ChromaSamplePosition::Vertical, ChromaSamplePosition::Colocated]);
}

pub fn gen(r: &mut Rng, o: &Opts) -> EncCase {
  let (preset, speed) = random_speed(r, o);
  let still = o.still && r.chance(1, 12);
  let mut e = EncoderConfig { speed_settings: speed, ..EncoderConfig::with_speed_preset(preset) };
  e.speed_settings = speed;
  e.still_picture = still;
  let min = if still && r.chance(1, 2) { 1 } else { 16 };
  e.width = dim(r, o.max_w, min);
  e.height = dim(r, o.max_h, min);
  if min == 1 {
    if r.chance(1, 2) { e.width = r.us(1, 40); }
    if r.chance(1, 2) { e.height = r.us(1, 40); }
  }
  if o.force_tiles {
    e.width = e.width.max(r.us(129, o.max_w.max(130)));
  }
  e.chroma_sampling = r.pick(&[
    ChromaSampling::Cs420, ChromaSampling::Cs420, ChromaSampling::Cs420, ChromaSampling::Cs422,
    ChromaSampling::Cs444, ChromaSampling::Cs444, ChromaSampling::Cs400,
  ]);
  e.bit_depth = r.pick(&[8, 8, 8, 10, 10, 12]);
  let hbd = e.bit_depth > 8 || r.chance(1, 12);
  e.pixel_range = r.pick(&[PixelRange::Limited, PixelRange::Full]);
  e.time_base = r.pick(&[Rational::new(1, 25), Rational::new(1, 30), Rational::new(1001, 30000), Rational::new(1, 60), Rational::new(1, 1), Rational::new(3, 100)]);
  e.low_latency = r.chance(1, 3);
  e.error_resilient = r.chance(1, 8);
  let maxi = r.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 9, 12, 30, 240]);
  let mini = r.pick(&[0u64, 0, 1, 2, 3, 5, 12]);
  e.set_key_frame_interval(if maxi == 0 { mini } else { mini.min(maxi) }, maxi);
  if e.low_latency && r.chance(1, 4) { e.switch_frame_interval = r.range(1, 6); }
  e.quantizer = match r.below(6) {
    0 => r.us(0, 12),
    1 => r.us(230, 255),
    _ => r.us(13, 229),
  };
  if r.chance(1, 3) { e.min_quantizer = r.below(256) as u8; }
  if o.bitrate && r.chance(1, 4) && !still {
    e.bitrate = r.pick(&[1000, 5000, 20_000, 100_000, 500_000, 4_000_000]);
    e.quantizer = if r.chance(1, 2) { 255 } else { e.quantizer.max(30) };
    e.min_quantizer = if r.chance(1, 2) { 0 } else { (e.quantizer as u64).min(r.below(120)) as u8 };
    if r.chance(1, 2) { e.reservoir_frame_delay = Some(r.range(12, 60) as i32); }
  }
  e.tune = r.pick(&[Tune::Psnr, Tune::Psychovisual]);
  if o.force_tiles {
    if r.chance(1, 2) { e.tiles = r.us(2, 12); } else {
      e.tile_cols = r.pick(&[1, 2, 2, 4]);
      e.tile_rows = r.pick(&[1, 2, 2, 4]);
    }
  } else if r.chance(1, 3) {
    match r.below(3) {
      0 => e.tiles = r.us(1, 12),
      _ => {
        e.tile_cols = r.pick(&[0, 1, 2, 4, 8]);
        e.tile_rows = r.pick(&[0, 1, 2, 4, 8]);
      }
    }
  }
  if o.meta && r.chance(1, 2) { random_meta(r, &mut e); }
  let px = (e.width * e.height) as f64 * if e.chroma_sampling == ChromaSampling::Cs444 { 1.6 } else { 1.0 };
  let cost = relative_cost(&e.speed_settings);
  // shrink until one frame fits
  while (e.width * e.height) as f64 * cost > o.cost && e.width.max(e.height) > 32 {
    if e.width > e.height { e.width -= e.width / 5; } else { e.height -= e.height / 5; }
  }
  if !e.still_picture { e.width = e.width.max(16); e.height = e.height.max(16); }
  let px = px.min((e.width * e.height) as f64 * 1.6);
  let fit = (o.cost / (px * cost)).max(1.0) as usize;
  let nframes = if still { 1 } else { r.us(o.min_frames, o.max_frames).min(fit.max(2)).max(o.min_frames) };
  if o.grain && r.chance(1, 6) {
    let mono = e.chroma_sampling == ChromaSampling::Cs400;
    let unit = 10_000_000 * e.time_base.num / e.time_base.den;
    let segs = if r.chance(1, 2) {
      vec![random_grain(r, mono, e.chroma_sampling, 0, u64::MAX)]
    } else {
      let a = r.below(4) * unit;
      let b = a + (1 + r.below(6)) * unit;
      let mut v = vec![random_grain(r, mono, e.chroma_sampling, a, b)];
      if r.chance(1, 2) { v.push(random_grain(r, mono, e.chroma_sampling, b, b + 3 * unit)); }
      v
    };
    e.film_grain_params = Some(segs);
  }
  let mut force_key = vec![];
  if !still && r.chance(1, 4) {
    for _ in 0..r.us(1, 3) { force_key.push(r.us(0, nframes - 1)); }
    force_key.sort_unstable();
    force_key.dedup();
  }
  let mut t35 = vec![];
  if o.meta && r.chance(1, 6) {
    for i in 0..nframes {
      if r.chance(1, 2) {
        let n = r.us(1, 2);
        t35.push((i, (0..n).map(|_| {
          let cc = if r.chance(1, 3) { 0xff } else { r.below(255) as u8 };
          let len = r.us(0, 40);
          (cc, if cc == 0xff { r.u64() as u8 } else { 0 }, r.bytes(len))
        }).collect()));
      }
    }
  }
  let mut content = Content::random(r);
  if e.chroma_sampling == ChromaSampling::Cs400 && content.seed & 7 == 0 { content.hold = 1; }
  EncCase { enc: e, threads: 1, hbd, nframes, content, force_key, t35, preset }
}

impl EncCase {
  pub fn config(&self) -> Config {
    Config::new().with_encoder_config(self.enc.clone()).with_threads(self.threads)
  }
  /// Coarse class used to count distinct situations.
  pub fn class(&self) -> String {
    let e = &self.enc;
    format!(
      "{:?}/{}b{}/s{}/{}x{}{}/{}{}{}{}{}{}{}/q{}/kf{}/t{}",
      e.chroma_sampling, e.bit_depth, if self.hbd && e.bit_depth == 8 { "h" } else { "" }, self.preset,
      size_class(e.width), size_class(e.height), if e.still_picture { "S" } else { "" },
      if e.low_latency { "L" } else { "-" }, if e.bitrate > 0 { "B" } else { "-" },
      if e.error_resilient { "E" } else { "-" }, if e.switch_frame_interval > 0 { "W" } else { "-" },
      if e.film_grain_params.is_some() { "G" } else { "-" },
      if e.tune == Tune::Psnr { "P" } else { "Y" }, if e.speed_settings.lrf { "R" } else { "-" },
      e.quantizer / 64, e.max_key_frame_interval.min(8),
      if e.tiles > 1 || e.tile_cols > 1 || e.tile_rows > 1 { 1 } else { 0 }
    )
  }
}
fn size_class(n: usize) -> String {
  format!("{}{}", if n <= 64 { "s" } else if n <= 128 { "m" } else { "l" }, if n % 64 == 0 { "64" } else if n % 8 == 0 { "8" } else if n % 2 == 0 { "2" } else { "1" })
}
