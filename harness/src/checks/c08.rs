//! C08: headers and metadata in the stream against the configuration.
use super::c01::brief;
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::dec::Dav1d;
use crate::driver::{Cx, Spec};
use crate::enc::{self, Pkt};
use crate::obu::{self, Meta, Seq};
use rav1e::bench::api::*;

pub fn spec() -> Spec {
  Spec {
    id: "C08",
    run,
    secs: (50, 600),
    rule: "random configuration with random colour, HDR, timing, level, aspect-ratio, film-grain and T.35 settings; every packet is split and parsed by an independent reader and by dav1d and compared with the configuration; classes are combinations of settings",
    assumptions: &["film grain seeds are not compared, and frames within one tick of a grain segment boundary may belong to either side unless their time is a whole number of ticks (then a segment contains its start and not its end)"],
    ..BASE
  }
}

pub fn expected_seq(e: &EncoderConfig) -> Seq {
  let mono = e.chroma_sampling == ChromaSampling::Cs400;
  let (sx, sy) = match e.chroma_sampling { ChromaSampling::Cs444 => (false, false), ChromaSampling::Cs422 => (true, false), _ => (true, true) };
  let cd = e.color_description;
  Seq {
    profile: if e.bit_depth == 12 || e.chroma_sampling == ChromaSampling::Cs422 { 2 } else if e.chroma_sampling == ChromaSampling::Cs444 { 1 } else { 0 },
    still_picture: e.still_picture,
    timing_info: if e.enable_timing_info { Some((e.time_base.num as u32, e.time_base.den as u32, true, 1)) } else { None },
    op_points: vec![(0, e.level_idx.unwrap_or(31), 0)],
    max_w: e.width as u32,
    max_h: e.height as u32,
    bit_depth: e.bit_depth as u8,
    mono,
    color_desc_present: cd.is_some(),
    cp: cd.map(|c| c.color_primaries as u8).unwrap_or(2),
    tc: cd.map(|c| c.transfer_characteristics as u8).unwrap_or(2),
    mc: cd.map(|c| c.matrix_coefficients as u8).unwrap_or(2),
    full_range: e.pixel_range == PixelRange::Full,
    ss_x: sx,
    ss_y: sy,
    chroma_pos: if e.chroma_sampling == ChromaSampling::Cs420 { e.chroma_sample_position as u8 } else { 0 },
    film_grain: e.film_grain_params.as_ref().map(|v| !v.is_empty()).unwrap_or(false),
    ..Default::default()
  }
}
/// the fields of a sequence header a user configures
pub fn facts(s: &Seq) -> String {
  format!("profile {} still {} timing {:?} ops {:?} size {}x{} depth {} mono {} colour {}:{}/{}/{} full {} ss {}{} pos {} grain {}", s.profile, s.still_picture,
    s.timing_info, s.op_points, s.max_w, s.max_h, s.bit_depth, s.mono, s.color_desc_present, s.cp, s.tc, s.mc, s.full_range, s.ss_x as u8, s.ss_y as u8, s.chroma_pos, s.film_grain)
}

fn check(cx: &mut Cx, c: &EncCase, pk: &[Pkt]) -> Result<(), (String, String)> {
  let e = &c.enc;
  let want = facts(&expected_seq(e));
  let err = |s: &str, m: String| -> Result<(), (String, String)> { Err((s.to_string(), m)) };
  let mut cur: Option<Seq> = None;
  let mut d = Dav1d::new(false).unwrap();
  let (rw, rh) = {
    let s = e.sample_aspect_ratio.num as f64 / e.sample_aspect_ratio.den as f64;
    if s > 1.0 { ((e.width as f64 * s).round() as i32, e.height as i32) } else { (e.width as i32, (e.height as f64 / s).round() as i32) }
  };
  for (i, p) in pk.iter().enumerate() {
    let obus = obu::split(&p.data).map_err(|m| ("obu".to_string(), format!("packet {i}: {m}")))?;
    if obus.first().map(|o| o.ty) != Some(obu::OBU_TD) || obus.iter().filter(|o| o.ty == obu::OBU_TD).count() != 1 || !obus[0].data.is_empty() {
      err("delimiter", format!("packet {i} does not start with exactly one temporal delimiter"))?;
    }
    let key = p.ty == FrameType::KEY;
    let nseq = obus.iter().filter(|o| o.ty == obu::OBU_SEQ).count();
    if key && nseq != 1 { err("sequence-header", format!("key frame packet {i} has {nseq} sequence headers"))?; }
    let mut t35 = vec![];
    let (mut cll, mut mdcv) = (vec![], vec![]);
    let mut frames = 0;
    for o in &obus {
      match o.ty {
        obu::OBU_SEQ => {
          let s = obu::parse_seq(o.data).map_err(|m| ("sequence-header".to_string(), format!("packet {i}: {m}")))?;
          if facts(&s) != want { err("sequence-fields", format!("packet {i}: stream says [{}], configured [{want}]", facts(&s)))?; }
          if frames > 0 { err("sequence-header", format!("packet {i}: sequence header after a frame"))?; }
          cur = Some(s);
          cx.count("sequence_headers", 1);
        }
        obu::OBU_METADATA => {
          if frames > 0 && false { }
          match obu::parse_meta(o.data).map_err(|m| ("metadata".to_string(), format!("packet {i}: {m}")))? {
            Meta::T35 { cc, ext, data } => t35.push((cc, ext, data)),
            Meta::Cll(a, b) => cll.push((a, b)),
            Meta::Mdcv { prim, wp, max, min } => mdcv.push((prim, wp, max, min)),
            Meta::Other(t) => err("metadata", format!("packet {i}: unknown metadata type {t}"))?,
          }
        }
        obu::OBU_FRAME | obu::OBU_FRAME_HEADER => {
          let Some(s) = &cur else { return err("sequence-header", format!("packet {i}: frame before any sequence header")) };
          let h = obu::parse_frame_head(o.data, s).map_err(|m| ("frame-header".to_string(), format!("packet {i}: {m}")))?;
          frames += 1;
          if h.show_existing || h.show_frame {
            if h.frame_type == 0 && !h.show_existing && !key { err("frame-type", format!("packet {i} is reported as {:?} and holds a key frame", p.ty))?; }
          }
          if e.error_resilient && !h.show_existing && !h.error_res { err("error-resilient", format!("packet {i}: frame not error resilient"))?; }
        }
        _ => {}
      }
    }
    if frames == 0 { err("frame-header", format!("packet {i} has no frame"))?; }
    // configured HDR metadata with every key frame
    let wcll: Vec<_> = e.content_light.iter().map(|l| (l.max_content_light_level, l.max_frame_average_light_level)).collect();
    let wm: Vec<_> = e.mastering_display.iter().map(|m| {
      ([(m.primaries[0].x, m.primaries[0].y), (m.primaries[1].x, m.primaries[1].y), (m.primaries[2].x, m.primaries[2].y)], (m.white_point.x, m.white_point.y), m.max_luminance, m.min_luminance)
    }).collect();
    if key && cll != wcll { err("content-light", format!("packet {i}: {cll:?}, configured {wcll:?}"))?; }
    if key && mdcv != wm { err("mastering-display", format!("packet {i}: {mdcv:?}, configured {wm:?}"))?; }
    if cll.iter().any(|x| !wcll.contains(x)) || mdcv.iter().any(|x| !wm.contains(x)) { err("metadata", format!("packet {i}: metadata that was not configured"))?; }
    cx.count("hdr_metadata", (cll.len() + mdcv.len()) as u64);
    let want35 = c.t35.iter().find(|(n, _)| *n == i).map(|(_, v)| v.clone()).unwrap_or_default();
    if t35 != want35 { err("t35", format!("packet {i} carries {} T.35 messages {:?}, submitted {} {:?}", t35.len(), t35, want35.len(), want35))?; }
    cx.count("t35_messages", t35.len() as u64);
    // and what a decoder sees
    let v = d.decode(&p.data).map_err(|m| ("decode".to_string(), m))?;
    if v.len() != 1 { err("decode", format!("packet {i}: {} pictures", v.len()))?; }
    let f = &v[0].info;
    if (f.w, f.h) != (e.width as i32, e.height as i32) { err("frame-size", format!("packet {i}: {}x{}", f.w, f.h))?; }
    if (f.render_w, f.render_h) != (rw, rh) { err("render-size", format!("packet {i}: render size {}x{}, configured {rw}x{rh}", f.render_w, f.render_h))?; }
    if f.mdcv.is_some() != e.mastering_display.is_some() || f.cll.is_some() != e.content_light.is_some() { err("hdr-decoder", format!("packet {i}: a decoder sees mdcv {:?} cll {:?}", f.mdcv, f.cll))?; }
    if let Some(segs) = &e.film_grain_params {
      let t = |n: u64| (n as u128 * 10_000_000 * e.time_base.num as u128 / e.time_base.den as u128) as u64;
      // a time stamp that is not a whole number of ticks may be rounded either way
      let exact = e.time_base.num as u128 * 10_000_000 * (i as u128) % e.time_base.den as u128 == 0;
      let near = !exact && segs.iter().any(|s| [s.start_time, s.end_time].iter().any(|b| t(i as u64).abs_diff(*b) <= 1 && *b != 0));
      let seg = segs.iter().find(|s| t(i as u64) >= s.start_time && t(i as u64) < s.end_time);
      if !near {
        if f.grain_present != seg.is_some() { err("film-grain", format!("packet {i}: grain present {}, configured {}", f.grain_present, seg.is_some()))?; }
        if let Some(s) = seg {
          if let Some(m) = grain_diff(s, f, e.chroma_sampling, e.pixel_range) { err("film-grain", format!("packet {i}: {m}"))?; }
          cx.count("grain_frames", 1);
          if t(i as u64) == s.start_time && i > 0 { cx.count("grain_frames_at_a_boundary", 1); }
        }
      }
    } else if f.grain_present { err("film-grain", format!("packet {i}: grain that was not configured"))?; }
    cx.count("packets", 1);
  }
  Ok(())
}

fn grain_diff(s: &GrainTableSegment, f: &crate::dec::FrameInfo, cs: ChromaSampling, pr: PixelRange) -> Option<String> {
  let g = &f.grain;
  macro_rules! eq { ($n:expr, $a:expr, $b:expr) => { if $a as i64 != $b as i64 { return Some(format!("grain {}: {} vs configured {}", $n, $a, $b)); } } }
  eq!("y points", g.num_y_points, s.scaling_points_y.len());
  for (k, p) in s.scaling_points_y.iter().enumerate() { eq!("y point", g.y_points[k][0], p[0]); eq!("y value", g.y_points[k][1], p[1]); }
  eq!("scaling shift", g.scaling_shift, s.scaling_shift);
  eq!("lag", g.ar_coeff_lag, s.ar_coeff_lag);
  eq!("ar shift", g.ar_coeff_shift, s.ar_coeff_shift);
  eq!("scale shift", g.grain_scale_shift, s.grain_scale_shift);
  eq!("overlap", g.overlap_flag, s.overlap_flag as u8);
  eq!("clip to restricted range", g.clip_to_restricted_range, (pr == PixelRange::Limited) as u8);
  if !s.scaling_points_y.is_empty() {
    for (k, c) in s.ar_coeffs_y.iter().enumerate() { eq!("ar y", g.ar_coeffs_y[k], *c); }
  }
  if cs == ChromaSampling::Cs400 { return None; }
  eq!("from luma", g.chroma_scaling_from_luma, s.chroma_scaling_from_luma as u8);
  // chroma points are not coded when scaling from luma, or in 4:2:0 without luma points
  let coded = !s.chroma_scaling_from_luma && !(cs == ChromaSampling::Cs420 && s.scaling_points_y.is_empty());
  for (pl, pts, mult, lm, off, ar) in [(0, &s.scaling_points_cb, s.cb_mult, s.cb_luma_mult, s.cb_offset, &s.ar_coeffs_cb), (1, &s.scaling_points_cr, s.cr_mult, s.cr_luma_mult, s.cr_offset, &s.ar_coeffs_cr)] {
    let n = if coded { pts.len() } else { 0 };
    eq!("uv points", g.num_uv_points[pl], n);
    for k in 0..n { eq!("uv point", g.uv_points[pl][k][0], pts[k][0]); eq!("uv value", g.uv_points[pl][k][1], pts[k][1]); }
    if n > 0 {
      eq!("uv mult", g.uv_mult[pl], mult as i64 - 128);
      eq!("uv luma mult", g.uv_luma_mult[pl], lm as i64 - 128);
      eq!("uv offset", g.uv_offset[pl], off as i64 - 256);
    }
    if n > 0 || s.chroma_scaling_from_luma {
      let want = (2 * s.ar_coeff_lag as usize) * (s.ar_coeff_lag as usize + 1) + (!s.scaling_points_y.is_empty()) as usize;
      for k in 0..want.min(ar.len()) { eq!("ar uv", g.ar_coeffs_uv[pl][k], ar[k]); }
    }
  }
  None
}

pub fn opts(cx: &Cx) -> Opts {
  let mut o = Opts { cost: 60_000.0, max_w: 128, max_h: 96, max_frames: 24, min_speed: 6, ..Default::default() };
  if cx.idx % 3 == 1 { o.max_w = 40; o.max_h = 40; o.min_frames = 10; o.max_frames = 40; o.min_speed = 9; }
  o
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let mut c = case::gen(&mut r, &opts(cx));
  case::random_meta(&mut r, &mut c.enc);
  // T.35 messages on many more frames than ordinary workloads have
  if r.chance(1, 2) {
    c.t35.clear();
    for i in 0..c.nframes {
      if r.chance(2, 3) {
        let n = r.us(1, 3);
        c.t35.push((i, (0..n).map(|_| {
          let cc = if r.chance(1, 3) { 0xff } else { r.below(255) as u8 };
          let len = if r.chance(1, 10) { r.us(120, 400) } else { r.us(0, 30) };
          let mut d = r.bytes(len);
          if r.chance(1, 3) { if let Some(x) = d.last_mut() { *x = 0; } }
          (cc, if cc == 0xff { r.u64() as u8 } else { 0 }, d)
        }).collect()));
      }
    }
  }
  if c.enc.film_grain_params.is_none() && r.chance(1, 4) {
    let cs = c.enc.chroma_sampling;
    c.enc.film_grain_params = Some(vec![case::random_grain(&mut r, cs == ChromaSampling::Cs400, cs, 0, u64::MAX)]);
  }
  c.threads = 1;
  if cx.verbose { eprintln!("{}", brief(&c)); }
  let pk = match enc::encode(&c) { Ok(p) => p, Err(m) => { cx.fail("encode", format!("{m}; {}", brief(&c))); return } };
  if let Err((s, m)) = check(cx, &c, &pk) { cx.fail(&s, format!("{m}; {}", brief(&c))); }
  let e = &c.enc;
  cx.class(format!("{:?} {} cd{} md{} cl{} ti{} lv{:?} sar{} gr{} t35{} ll{} st{}", e.chroma_sampling, e.bit_depth, e.color_description.is_some() as u8, e.mastering_display.is_some() as u8,
    e.content_light.is_some() as u8, e.enable_timing_info as u8, e.level_idx, (e.sample_aspect_ratio.num != e.sample_aspect_ratio.den) as u8,
    e.film_grain_params.is_some() as u8, !c.t35.is_empty() as u8, e.low_latency as u8, e.still_picture as u8));
  cx.sample(format!("{} packets of {}: {}", pk.len(), c.class(), facts(&expected_seq(e))));
}
