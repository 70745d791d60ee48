//! C01: decode every emitted stream with two independent decoders and compare with the
//! reconstructions the encoder returned.
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::content::Kind;
use crate::dec::{Aom, Dav1d};
use crate::driver::{Cx, Spec};
use crate::enc::{self, Pkt};
use rav1e::bench::api::*;

pub fn spec() -> Spec {
  Spec {
    id: "C01",
    run,
    rule: "random configuration x content x forced key frames; a case is one encode decoded by dav1d and libaom; classes are (chroma, depth, preset, size class, modes, quantizer band, key interval, tiling) plus stream-feature signatures seen by the decoder",
    assumptions: &["dav1d and libaom as bundled are conforming AV1 decoders"],
    ..BASE
  }
}

pub fn opts_for(idx: u64, thorough: bool) -> Opts {
  let mut o = Opts::default();
  if thorough { o.cost = 1_200_000.0; }
  match idx % 8 {
    1 => { o.max_w = 96; o.max_h = 96; o.max_frames = 40; o.min_frames = 12; o.min_speed = 6; }
    2 => { o.force_tiles = true; o.max_w = 400; o.max_h = 300; o.min_speed = 4; }
    3 => { o.max_w = 64; o.max_h = 64; o.cost *= 0.7; }
    5 => { o.min_frames = 6; o.max_w = 160; o.max_h = 130; }
    4 if idx % 16 == 12 => { o.max_w = 40; o.max_h = 32; o.min_frames = 70; o.max_frames = 150; o.min_speed = 9; o.still = false; o.tweak = false; }
    7 => { o.max_w = 260; o.max_h = 200; o.max_frames = 5; }
    _ => {}
  }
  o
}

/// Decodes and compares; reports problems through cx.
pub fn check_stream(cx: &mut Cx, c: &EncCase, pk: &[Pkt], use_aom: bool) -> Vec<crate::dec::Decoded> {
  let e = &c.enc;
  let layout = match e.chroma_sampling { ChromaSampling::Cs400 => 0, ChromaSampling::Cs420 => 1, ChromaSampling::Cs422 => 2, ChromaSampling::Cs444 => 3 };
  let mut all = vec![];
  let mut d = Dav1d::new(false).expect("dav1d");
  for p in pk {
    let Some(rec) = &p.rec else { cx.fail("no-rec", format!("packet {} has no reconstruction", p.no)); return all };
    match d.decode(&p.data) {
      Err(m) => { cx.fail("decode-error", format!("dav1d packet {}: {m}; {}", p.no, brief(c))); return all }
      Ok(v) => {
        if v.len() != 1 { cx.fail("picture-count", format!("packet {} gave {} pictures; {}", p.no, v.len(), brief(c))); return all }
        let x = v.into_iter().next().unwrap();
        if x.layout != layout || x.bpc as usize != e.bit_depth {
          cx.fail("format", format!("packet {} layout {} depth {}; {}", p.no, x.layout, x.bpc, brief(c)));
          return all;
        }
        if let Some(m) = rec.diff(&x.pic) {
          cx.fail("mismatch", format!("packet {} ({:?}): reconstruction vs dav1d: {m}; {}", p.no, p.ty, brief(c)));
          return all;
        }
        cx.count("pictures_compared_dav1d", 1);
        let i = &x.info;
        cx.class(format!("f{} se{} seg{} cdef{} lr{:?} lf{} tiles{}x{} tx{} rtx{} comp{}", i.frame_type, i.shown_existing as u8, i.seg_enabled as u8,
          (i.cdef_bits > 0) as u8, i.lr_types, (i.lf[0] > 0) as u8, (i.tile_cols.len() - 1).min(3), (i.tile_rows.len() - 1).min(3), i.txfm_mode, i.reduced_tx as u8, i.comp_refs as u8));
        all.push(x);
      }
    }
  }
  if use_aom {
    let mut a = Aom::new().expect("aom");
    for p in pk {
      match a.decode(&p.data, e.bit_depth) {
        Err(m) => { cx.fail("decode-error", format!("packet {}: {m}; {}", p.no, brief(c))); return all }
        Ok(v) => {
          if v.len() != 1 { cx.fail("picture-count", format!("packet {} gave {} pictures (libaom)", p.no, v.len())); return all }
          if let Some(m) = p.rec.as_ref().unwrap().diff(&v[0]) {
            cx.fail("mismatch", format!("packet {} ({:?}): reconstruction vs libaom: {m}; {}", p.no, p.ty, brief(c)));
            return all;
          }
          cx.count("pictures_compared_libaom", 1);
        }
      }
    }
  }
  all
}

pub fn brief(c: &EncCase) -> String {
  format!("{} {}x{} n={} threads={} cfg={:?} content={:?} force={:?}", c.class(), c.enc.width, c.enc.height, c.nframes, c.threads, c.enc, c.content, c.force_key)
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let mut c = case::gen(&mut r, &opts_for(cx.idx, cx.thorough));
  if cx.idx % 16 == 12 {
    // long groups of pictures: order hints wrap at 64
    c.enc.set_key_frame_interval(c.enc.min_key_frame_interval.min(200), if r.chance(3, 4) { 240 } else { 66 });
    if r.chance(1, 3) { c.enc.error_resilient = true; }
    if c.enc.low_latency && r.chance(1, 2) { c.enc.switch_frame_interval = r.pick(&[5, 20, 61, 64, 65]); }
    c.enc.speed_settings.scene_detection_mode = if r.chance(1, 2) { SceneDetectionSpeed::None } else { SceneDetectionSpeed::Fast };
    c.force_key.retain(|&k| k < 10);
  }
  if cx.idx % 32 == 10 {
    // tiles of more than 64 KB
    c.enc.width = r.us(380, 470);
    c.enc.height = r.us(180, 240);
    c.enc.quantizer = r.us(1, 12);
    c.enc.min_quantizer = 0;
    c.enc.bitrate = 0;
    c.enc.tiles = 0;
    (c.enc.tile_cols, c.enc.tile_rows) = r.pick(&[(2, 1), (2, 1), (1, 2), (2, 2)]);
    c.enc.speed_settings = rav1e::prelude::SpeedSettings::from_preset(10);
    c.enc.still_picture = false;
    c.nframes = r.us(1, 3);
    c.content.kind = Kind::Noise;
    c.force_key.clear();
  }
  c.threads = if c.enc.tiles > 1 || c.enc.tile_cols * c.enc.tile_rows > 1 { 2 } else { 1 };
  if cx.verbose {
    eprintln!("{}", brief(&c));
    if std::env::var("VMON_SHRINK").is_ok() {
      let (seed, idx) = (cx.seed, cx.idx);
      let f = &mut |c: &EncCase| {
        let c2 = c.clone();
        let s = Spec { run: |_| {}, ..spec() };
        let mut x = crate::driver::run_one(&s, seed, idx, false, false);
        match crate::driver::guard(|| enc::encode(&c2)) {
          Err(_) => true,
          Ok(Err(m)) => !m.starts_with("rejected"),
          Ok(Ok(p)) => { check_stream(&mut x, &c2, &p, true); !x.fails.is_empty() }
        }
      };
      if f(&c) {
        c = crate::shrink::shrink(&c, f);
        eprintln!("MINIMAL {}", brief(&c));
      }
    }
  }
  let pk = match enc::encode(&c) {
    Ok(p) => p,
    Err(m) => { cx.fail("encode", format!("{m}; {}", brief(&c))); return }
  };
  if pk.len() != c.nframes { cx.fail("packet-count", format!("{} packets for {} frames; {}", pk.len(), c.nframes, brief(&c))); }
  cx.count("packets", pk.len() as u64);
  check_stream(cx, &c, &pk, true);
  cx.class(c.class());
  cx.sample(format!("{} -> {} packets, {} bytes", c.class(), pk.len(), pk.iter().map(|p| p.data.len()).sum::<usize>()));
}
