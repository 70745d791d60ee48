//! C10: key and switch frame placement, and random access.
use super::c01::brief;
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::dec::Dav1d;
use crate::driver::{Cx, Spec};
use crate::enc::{self, Pkt};
use crate::obu;
use rav1e::prelude::*;

pub fn spec() -> Spec {
  Spec {
    id: "C10",
    run,
    secs: (50, 600),
    rule: "random key intervals, forced key frames, scene cuts, switch intervals; key positions read from the stream are checked against requests and limits, then decoding is started afresh at every key frame and every picture compared; classes are (interval settings, mode, number of keys)",
    assumptions: &["dav1d is a conforming decoder"],
    ..BASE
  }
}

fn check(cx: &mut Cx, c: &EncCase, pk: &[Pkt]) -> Result<(), (String, String)> {
  let e = &c.enc;
  let err = |s: &str, m: String| -> Result<(), (String, String)> { Err((s.to_string(), m)) };
  let mut seq = None;
  let mut keys = vec![];
  let mut switches = vec![];
  let mut hidden = 0;
  for (i, p) in pk.iter().enumerate() {
    let mut shown = None;
    for o in obu::split(&p.data).map_err(|m| ("obu".to_string(), m))? {
      match o.ty {
        obu::OBU_SEQ => seq = Some(obu::parse_seq(o.data).map_err(|m| ("obu".to_string(), m))?),
        obu::OBU_FRAME | obu::OBU_FRAME_HEADER => {
          let h = obu::parse_frame_head(o.data, seq.as_ref().ok_or(("obu".to_string(), "frame without sequence header".to_string()))?).map_err(|m| ("obu".to_string(), m))?;
          if h.show_existing || h.show_frame {
            if shown.is_some() { err("shown-twice", format!("packet {i} shows two frames"))?; }
            shown = Some(h);
          } else { hidden += 1; if e.low_latency { err("hidden-frame", format!("packet {i} has a hidden frame in low-latency mode"))?; } }
        }
        _ => {}
      }
    }
    let Some(h) = shown else { return err("not-shown", format!("packet {i} shows no frame")) };
    if h.show_existing && e.low_latency { err("reordered", format!("packet {i} shows an earlier frame in low-latency mode"))?; }
    let ty = if h.show_existing { FrameType::INTER } else { [FrameType::KEY, FrameType::INTER, FrameType::INTRA_ONLY, FrameType::SWITCH][h.frame_type as usize] };
    if ty != p.ty { err("frame-type", format!("packet {i} is reported as {:?} but coded as {ty:?}", p.ty))?; }
    if ty == FrameType::KEY { keys.push(i); }
    if ty == FrameType::SWITCH { switches.push(i); }
  }
  cx.count("hidden_frames", hidden);
  cx.count("key_frames", keys.len() as u64);
  cx.count("switch_frames", switches.len() as u64);
  if keys.first() != Some(&0) { err("first-key", format!("keys {keys:?}"))?; }
  for k in &c.force_key { if !keys.contains(k) { err("forced-key", format!("frame {k} was requested as a key frame; keys {keys:?}"))?; } }
  if e.max_key_frame_interval > 0 {
    for w in keys.windows(2).map(|w| (w[0], w[1])).chain(std::iter::once((*keys.last().unwrap(), pk.len()))) {
      if w.1 - w.0 > e.max_key_frame_interval as usize { err("max-interval", format!("keys {keys:?} of {} frames exceed interval {}", pk.len(), e.max_key_frame_interval))?; }
    }
  }
  for w in keys.windows(2) {
    if ((w[1] - w[0]) as u64) < e.min_key_frame_interval && !c.force_key.contains(&w[1]) && (w[1] - w[0]) as u64 != e.max_key_frame_interval {
      err("min-interval", format!("keys {keys:?} closer than {} (forced {:?})", e.min_key_frame_interval, c.force_key))?;
    }
  }
  for i in 0..pk.len() {
    let k = *keys.iter().rev().find(|&&k| k <= i).unwrap();
    let want = e.switch_frame_interval > 0 && e.low_latency && i > k && (i - k) as u64 % e.switch_frame_interval == 0;
    if want != switches.contains(&i) { err("switch", format!("frame {i}: switch frame {} expected {want}; keys {keys:?} switches {switches:?} interval {}", !want, e.switch_frame_interval))?; }
  }
  // random access
  for &k in keys.iter().skip(1).take(if cx.thorough { 100 } else { 6 }) {
    let mut d = Dav1d::new(false).unwrap();
    for p in &pk[k..] {
      let v = d.decode(&p.data).map_err(|m| ("random-access".to_string(), format!("started at {k}, packet {}: {m}", p.no)))?;
      if v.len() != 1 { err("random-access", format!("started at {k}: packet {} gives {} pictures", p.no, v.len()))?; }
      if let Some(m) = p.rec.as_ref().and_then(|r| r.diff(&v[0].pic)) { err("random-access", format!("started at {k}: packet {} differs: {m}", p.no))?; }
      cx.count("random_access_pictures", 1);
    }
    cx.count("random_access_points", 1);
  }
  cx.class(format!("max{} min{} {} sw{} n{} det{:?}", e.max_key_frame_interval.min(300), e.min_key_frame_interval, if e.low_latency { "ll" } else { "ro" }, e.switch_frame_interval, keys.len(), e.speed_settings.scene_detection_mode));
  cx.sample(format!("max {} min {} forced {:?} -> keys {keys:?} of {}", e.max_key_frame_interval, e.min_key_frame_interval, c.force_key, pk.len()));
  Ok(())
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let mut o = Opts { cost: 80_000.0, max_w: 64, max_h: 48, max_frames: 36, min_frames: 6, min_speed: 8, still: false, meta: false, ..Default::default() };
  if cx.idx % 4 == 0 { o.min_speed = 4; o.max_frames = 20; o.max_w = 96; }
  let mut c = case::gen(&mut r, &o);
  if r.chance(1, 2) {
    c.force_key = (0..c.nframes).filter(|_| r.chance(1, 7)).collect();
  }
  if r.chance(1, 2) { c.content.cut_every = r.range(1, 12); }
  if c.enc.low_latency && r.chance(1, 2) { c.enc.switch_frame_interval = r.range(1, 8); }
  c.threads = 1;
  if cx.verbose { eprintln!("{}", brief(&c)); }
  let pk = match enc::encode(&c) { Ok(p) => p, Err(m) => { cx.fail("encode", format!("{m}; {}", brief(&c))); return } };
  if let Err((s, m)) = check(cx, &c, &pk) { cx.fail(&s, format!("{m}; {}", brief(&c))); }
}
