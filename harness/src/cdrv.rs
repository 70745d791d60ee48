//! Drives encodes through the C interface, respecting its documented ownership rules.
use crate::case::EncCase;
use crate::enc::{self, Pic, Pkt};
use rav1e::capi as c;
use rav1e::prelude::*;
use std::ffi::{c_void, CStr, CString};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub struct Cfg(pub *mut c::Config);
impl Drop for Cfg { fn drop(&mut self) { unsafe { c::rav1e_config_unref(self.0) } } }
pub struct Ctx(pub *mut c::Context);
impl Drop for Ctx { fn drop(&mut self) { unsafe { c::rav1e_context_unref(self.0) } } }

impl Cfg {
  pub fn new() -> Cfg { unsafe { Cfg(c::rav1e_config_default()) } }
  pub fn parse(&self, k: &str, v: &str) -> i32 {
    let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
    unsafe { c::rav1e_config_parse(self.0, k.as_ptr(), v.as_ptr()) }
  }
  pub fn parse_raw(&self, k: &[u8], v: &[u8]) -> i32 {
    let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
    unsafe { c::rav1e_config_parse(self.0, k.as_ptr(), v.as_ptr()) }
  }
  pub fn parse_int(&self, k: &str, v: i32) -> i32 {
    let k = CString::new(k).unwrap();
    unsafe { c::rav1e_config_parse_int(self.0, k.as_ptr(), v) }
  }
  pub fn context(&self) -> Option<Ctx> {
    let p = unsafe { c::rav1e_context_new(self.0) };
    if p.is_null() { None } else { Some(Ctx(p)) }
  }
}

/// The settings of `e` as key/value pairs: everything the C interface can express.
pub fn pairs(e: &EncoderConfig, preset: u8, threads: usize) -> Vec<(&'static str, String)> {
  let mut v: Vec<(&'static str, String)> = vec![
    ("speed", preset.to_string()),
    ("width", e.width.to_string()), ("height", e.height.to_string()),
    ("threads", threads.to_string()),
    ("tiles", e.tiles.to_string()), ("tile_rows", e.tile_rows.to_string()), ("tile_cols", e.tile_cols.to_string()),
    ("tune", if e.tune == Tune::Psnr { "psnr".into() } else { "psychovisual".into() }),
    ("quantizer", e.quantizer.to_string()), ("min_quantizer", e.min_quantizer.to_string()),
    ("bitrate", e.bitrate.to_string()),
    ("key_frame_interval", e.max_key_frame_interval.to_string()),
    ("min_key_frame_interval", e.min_key_frame_interval.to_string()),
    ("switch_frame_interval", e.switch_frame_interval.to_string()),
    ("rdo_lookahead_frames", e.speed_settings.rdo_lookahead_frames.to_string()),
    ("low_latency", e.low_latency.to_string()),
    ("enable_timing_info", e.enable_timing_info.to_string()),
    ("still_picture", e.still_picture.to_string()),
    ("level", match e.level_idx { None => "auto".into(), Some(31) => "unconstrained".into(), Some(l) => format!("{}.{}", (l >> 2) + 2, l & 3) }),
  ];
  if let Some(d) = e.reservoir_frame_delay { v.push(("reservoir_frame_delay", d.to_string())); }
  if e.speed_settings.scene_detection_mode == rav1e::bench::api::SceneDetectionSpeed::None { v.push(("no_scene_detection", "true".into())); }
  v
}

pub fn setters(cfg: &Cfg, e: &EncoderConfig) {
  unsafe {
    c::rav1e_config_set_pixel_format(cfg.0, e.bit_depth as u8, e.chroma_sampling, e.chroma_sample_position, e.pixel_range);
    c::rav1e_config_set_time_base(cfg.0, e.time_base);
    c::rav1e_config_set_sample_aspect_ratio(cfg.0, e.sample_aspect_ratio);
    if let Some(cd) = e.color_description {
      c::rav1e_config_set_color_description(cfg.0, cd.matrix_coefficients, cd.color_primaries, cd.transfer_characteristics);
    }
    if let Some(l) = e.content_light { c::rav1e_config_set_content_light(cfg.0, l.max_content_light_level, l.max_frame_average_light_level); }
    if let Some(m) = e.mastering_display {
      c::rav1e_config_set_mastering_display(cfg.0, m.primaries.as_ptr(), m.white_point, m.max_luminance, m.min_luminance);
    }
  }
}

/// Restricts a configuration to what the C interface can say.
pub fn expressible(c: &mut EncCase) {
  let la = c.enc.speed_settings.rdo_lookahead_frames;
  let none = c.enc.speed_settings.scene_detection_mode == rav1e::bench::api::SceneDetectionSpeed::None;
  c.enc.speed_settings = SpeedSettings::from_preset(c.preset);
  c.enc.speed_settings.rdo_lookahead_frames = la;
  if none { c.enc.speed_settings.scene_detection_mode = rav1e::bench::api::SceneDetectionSpeed::None; }
  c.enc.error_resilient = false;
  c.enc.film_grain_params = None;
  c.hbd = c.enc.bit_depth > 8;
}

pub fn config(c: &EncCase) -> Result<Cfg, String> {
  let cfg = Cfg::new();
  for (k, v) in pairs(&c.enc, c.preset, c.threads) {
    if cfg.parse(k, &v) != 0 { return Err(format!("rav1e_config_parse({k:?}, {v:?}) failed")); }
  }
  setters(&cfg, &c.enc);
  Ok(cfg)
}

/// number of destructor calls per token
pub static DESTROYED: [AtomicU64; 512] = [const { AtomicU64::new(0) }; 512];
pub extern "C" fn destroy(p: *mut c_void) {
  let n = p as usize;
  if n >= 1 && n <= DESTROYED.len() { DESTROYED[n - 1].fetch_add(1, SeqCst); }
}

pub fn status(s: c::EncoderStatus) -> &'static str {
  match s {
    c::EncoderStatus::Success => "Success", c::EncoderStatus::NeedMoreData => "NeedMoreData", c::EncoderStatus::EnoughData => "EnoughData",
    c::EncoderStatus::LimitReached => "LimitReached", c::EncoderStatus::Encoded => "Encoded", c::EncoderStatus::Failure => "Failure",
    c::EncoderStatus::NotReady => "NotReady",
  }
}

/// Makes a frame with random stride; samples outside the rows are junk.
pub unsafe fn make_frame(ctx: &Ctx, case: &EncCase, pic: &Pic, extra: usize) -> *mut c::Frame {
  let f = c::rav1e_frame_new(ctx.0);
  let bw = if case.hbd { 2 } else { 1 };
  for (pli, (w, h, d)) in pic.planes.iter().enumerate() {
    let stride = (w + extra) * bw;
    let mut buf = vec![0xABu8; stride * h];
    for y in 0..*h { for x in 0..*w {
      let v = d[y * w + x];
      let o = y * stride + x * bw;
      buf[o] = v as u8;
      if bw == 2 { buf[o + 1] = (v >> 8) as u8; }
    } }
    c::rav1e_frame_fill_plane(f, pli as i32, buf.as_ptr(), buf.len(), stride as isize, bw as i32);
  }
  f
}

pub unsafe fn read_frame(f: *const c::Frame, e: &EncoderConfig, hbd: bool) -> Option<Pic> {
  if f.is_null() { return None; }
  let bw = if hbd { 2 } else { 1 };
  let mut planes = vec![];
  for pli in 0..enc::nplanes(e) {
    let (w, h, _, _) = enc::plane_dims(e, pli);
    // the planes are stored with even sizes; ask for the stored rows
    let (sw, sh) = ((w + 7) & !7, (h + 7) & !7);
    let stride = sw * bw;
    let mut buf = vec![0u8; stride * sh];
    c::rav1e_frame_extract_plane(f, pli as i32, buf.as_mut_ptr(), buf.len(), stride as isize, bw as i32);
    let mut d = Vec::with_capacity(w * h);
    for y in 0..h { for x in 0..w {
      let o = y * stride + x * bw;
      d.push(buf[o] as u16 | if bw == 2 { (buf[o + 1] as u16) << 8 } else { 0 });
    } }
    planes.push((w, h, d));
  }
  Some(Pic { planes })
}

pub unsafe fn take_packet(p: *mut c::Packet, e: &EncoderConfig, hbd: bool) -> Pkt {
  let r = &*p;
  let k = Pkt {
    data: std::slice::from_raw_parts(r.data, r.len).to_vec(),
    rec: read_frame(r.rec, e, hbd),
    source: read_frame(r.source, e, hbd),
    no: r.input_frameno,
    ty: r.frame_type,
    qp: 0,
    opaque: if r.opaque.is_null() { None } else { Some(r.opaque as usize as u64) },
  };
  c::rav1e_packet_unref(p);
  k
}

pub fn data_bytes(d: *mut c::Data) -> Vec<u8> {
  unsafe {
    let v = std::slice::from_raw_parts((*d).data, (*d).len).to_vec();
    c::rav1e_data_unref(d);
    v
  }
}
pub fn av1c(ctx: &Ctx) -> Vec<u8> { unsafe { data_bytes(c::rav1e_container_sequence_header(ctx.0)) } }

pub fn status_text(s: c::EncoderStatus) -> String {
  unsafe {
    let p = c::rav1e_status_to_str(s);
    if p.is_null() { String::new() } else { CStr::from_ptr(p).to_string_lossy().into_owned() }
  }
}
