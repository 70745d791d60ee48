//! Debugging aid: simplifies a failing case.
use crate::case::EncCase;
use rav1e::bench::api::*;
use rav1e::prelude::*;

pub fn shrink(c: &EncCase, fails: &mut dyn FnMut(&EncCase) -> bool) -> EncCase {
  let def = SpeedSettings::from_preset(10);
  type M = Box<dyn Fn(&mut EncCase)>;
  let ms: Vec<(&str, M)> = vec![
    ("frames/2", Box::new(|c| c.nframes = (c.nframes / 2).max(1))),
    ("frames-1", Box::new(|c| c.nframes = (c.nframes - 1).max(1))),
    ("w64", Box::new(|c| c.enc.width = c.enc.width.min(64))), ("h64", Box::new(|c| c.enc.height = c.enc.height.min(64))),
    ("w/2", Box::new(|c| c.enc.width = (c.enc.width / 2).max(16))), ("h/2", Box::new(|c| c.enc.height = (c.enc.height / 2).max(16))),
    ("w-8", Box::new(|c| c.enc.width = (c.enc.width.saturating_sub(8)).max(16))), ("h-8", Box::new(|c| c.enc.height = (c.enc.height.saturating_sub(8)).max(16))),
    ("420", Box::new(|c| c.enc.chroma_sampling = ChromaSampling::Cs420)),
    ("10bit", Box::new(|c| { if c.enc.bit_depth > 8 { c.enc.bit_depth = 10 } })), ("8bit", Box::new(|c| { c.enc.bit_depth = 8; c.hbd = false })),
    ("grain", Box::new(|c| c.enc.film_grain_params = None)),
    ("cd", Box::new(|c| c.enc.color_description = None)),
    ("md", Box::new(|c| c.enc.mastering_display = None)),
    ("cl", Box::new(|c| c.enc.content_light = None)),
    ("t35", Box::new(|c| c.t35.clear())),
    ("force", Box::new(|c| c.force_key.clear())),
    ("sar", Box::new(|c| c.enc.sample_aspect_ratio = Rational::new(1, 1))),
    ("lvl", Box::new(|c| c.enc.level_idx = None)),
    ("timing", Box::new(|c| c.enc.enable_timing_info = false)),
    ("tb", Box::new(|c| c.enc.time_base = Rational::new(1, 30))),
    ("tiles", Box::new(|c| { c.enc.tiles = 0; c.enc.tile_cols = 0; c.enc.tile_rows = 0 })),
    ("bitrate", Box::new(|c| { c.enc.bitrate = 0; c.enc.reservoir_frame_delay = None })),
    ("minq", Box::new(|c| c.enc.min_quantizer = 0)), ("q", Box::new(|c| c.enc.quantizer = 100)),
    ("er", Box::new(|c| c.enc.error_resilient = false)), ("sw", Box::new(|c| c.enc.switch_frame_interval = 0)),
    ("ll", Box::new(|c| { if c.enc.switch_frame_interval == 0 { c.enc.low_latency = false } })),
    ("kf", Box::new(|c| c.enc.set_key_frame_interval(0, 0))),
    ("tune", Box::new(|c| c.enc.tune = Tune::Psnr)),
    ("hold", Box::new(|c| { c.content.hold = 1; c.content.cut_every = 0 })),
    ("still", Box::new(|c| c.enc.still_picture = false)),
    ("s.multiref", Box::new(move |c| c.enc.speed_settings.multiref = def.multiref)),
    ("s.fast_deblock", Box::new(move |c| c.enc.speed_settings.fast_deblock = def.fast_deblock)),
    ("s.la", Box::new(move |c| c.enc.speed_settings.rdo_lookahead_frames = 1)),
    ("s.scd", Box::new(move |c| c.enc.speed_settings.scene_detection_mode = SceneDetectionSpeed::None)),
    ("s.cdef", Box::new(move |c| c.enc.speed_settings.cdef = false)),
    ("s.lrf", Box::new(move |c| c.enc.speed_settings.lrf = false)),
    ("s.lruskip", Box::new(move |c| c.enc.speed_settings.lru_on_skip = false)),
    ("s.sgr", Box::new(move |c| c.enc.speed_settings.sgr_complexity = SGRComplexityLevel::Full)),
    ("s.seg", Box::new(move |c| c.enc.speed_settings.segmentation = SegmentationLevel::Disabled)),
    ("s.part", Box::new(move |c| c.enc.speed_settings.partition = def.partition)),
    ("s.bottomup", Box::new(move |c| c.enc.speed_settings.partition.encode_bottomup = false)),
    ("s.tx", Box::new(move |c| c.enc.speed_settings.transform = def.transform)),
    ("s.pred", Box::new(move |c| c.enc.speed_settings.prediction = def.prediction)),
    ("s.motion", Box::new(move |c| c.enc.speed_settings.motion = def.motion)),
  ];
  let mut cur = c.clone();
  loop {
    let mut any = false;
    for (n, m) in &ms {
      let mut t = cur.clone();
      m(&mut t);
      if format!("{t:?}") == format!("{cur:?}") { continue; }
      if fails(&t) { eprintln!("shrink: {n}"); cur = t; any = true; }
    }
    if !any { return cur; }
  }
}
