//! C18: tile layouts against the AV1 rules, and against the layout decoders find in the stream.
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::dec::Dav1d;
use crate::driver::{Cx, Spec};
use crate::enc;
use crate::rng::Rng;
use rav1e::bench::api::*;

pub fn spec() -> Spec {
  Spec {
    id: "C18",
    run,
    secs: (45, 600),
    rule: "a case computes many layouts through the public API and checks them with an independent implementation of AV1's tile rules, then encodes some and compares with the layout an independent decoder parses; classes are (columns, rows, uniform, chroma, limits met)",
    assumptions: &["superblocks are 64x64"],
    ..BASE
  }
}

fn log2_ceil(n: usize) -> usize { let mut k = 0; while (1usize << k) < n { k += 1; } k }

fn gen(r: &mut Rng, big: bool) -> EncoderConfig {
  let mut e = EncoderConfig::with_speed_preset(10);
  let side = |r: &mut Rng, big: bool| match r.below(if big { 9 } else { 5 }) {
    0 => r.us(16, 80),
    1 => 64 * r.us(1, 14) + r.us(0, 4) - 2,
    2 | 3 => r.us(100, 900),
    4 => 8 * r.us(2, 120),
    5 => 64 * r.us(1, 1023) + r.us(0, 4) - 2,
    6 => r.pick(&[4095, 4096, 4097, 4104, 8192, 16384, 65535, 65528, 2304, 2305]),
    _ => r.us(1000, 65535),
  };
  e.width = side(r, big).max(16);
  e.height = side(r, big).max(16);
  e.chroma_sampling = r.pick(&[ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444, ChromaSampling::Cs400]);
  if r.chance(1, 2) { e.tiles = r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 40, 64, 100, 128, 1000, 4096, 5000]); } else {
    e.tile_cols = 1 << r.below(8);
    e.tile_rows = 1 << r.below(8);
    if r.chance(1, 6) { e.tile_cols = 0; }
    if r.chance(1, 6) { e.tile_rows = 0; }
  }
  e.time_base = match r.below(5) { 0 => Rational::new(1, r.pick(&[60, 120, 240, 1000, 100_000, u32::MAX as u64])), 1 => Rational::new(r.range(1, 5000), r.range(1, 90000)), _ => Rational::new(1, 30) };
  e
}

fn check(cx: &mut Cx, e: &EncoderConfig) -> Option<TilingInfo> {
  let d = || format!("{}x{} {:?} tile_cols {} tile_rows {} tiles {} time base {:?}", e.width, e.height, e.chroma_sampling, e.tile_cols, e.tile_rows, e.tiles, e.time_base);
  let cfg = Config::new().with_encoder_config(e.clone());
  let t = match cfg.tiling_info() { Ok(t) => t, Err(x) => { cx.fail("rejected", format!("{x:?}; {}", d())); return None } };
  cx.count("layouts", 1);
  let sb = |n: usize| (n + 7) / 8 * 8;
  let (sc, sr) = ((sb(e.width) + 63) / 64, (sb(e.height) + 63) / 64);
  let f = |cx: &mut Cx, s: &str, m: String| cx.fail(s, format!("{m}; layout {t:?}; {}", d()));
  let (tw, th, c, rr) = (t.tile_width_sb, t.tile_height_sb, t.cols, t.rows);
  // exactly once, no empty tile
  if tw == 0 || th == 0 || c == 0 || rr == 0 { f(cx, "empty", "empty tile".into()); return None }
  if (c - 1) * tw >= sc || c * tw < sc { f(cx, "cover", format!("{c} columns of {tw} superblocks do not cover {sc} exactly once")); return None }
  if (rr - 1) * th >= sr || rr * th < sr { f(cx, "cover", format!("{rr} rows of {th} superblocks do not cover {sr} exactly once")); return None }
  if c > 64 || rr > 64 { f(cx, "count", "more than 64 columns or rows".into()) }
  if tw.min(sc) > 64 { f(cx, "width", "tile wider than 4096 samples".into()) }
  // AV1 5.9.15
  let min_cols = { let mut k = 0; while (64 << k) < sc { k += 1; } k };
  let (max_cols, max_rows) = (log2_ceil(sc.min(64)), log2_ceil(sr.min(64)));
  let min_tiles = { let mut k = 0; while (2304 << k) < sc * sr { k += 1; } k }.max(min_cols);
  let ceil_div = |a: usize, k: usize| (a + (1 << k) - 1) >> k;
  let uni_c = (min_cols..=max_cols).find(|&k| ceil_div(sc, k) == tw);
  // the coder has to stay with one pair of logarithms
  let uniform = uni_c.map_or(false, |_| (min_cols..=max_cols).filter(|&k| ceil_div(sc, k) == tw).any(|k| {
    (min_tiles.saturating_sub(k)..=max_rows).any(|q| ceil_div(sr, q) == th)
  }));
  if !uniform {
    // explicit sizes: the area limit is on the widest column
    let area = if min_tiles > 0 { (sc * sr) >> (min_tiles + 1) } else { sc * sr };
    let maxh = (area / tw.min(sc)).max(1);
    if th.min(sr) > maxh { f(cx, "area", format!("rows of {th} superblocks, at most {maxh} allowed")) }
    if e.chroma_sampling != ChromaSampling::Cs422 { f(cx, "uniform", "not expressible as a uniform layout".into()) }
  }
  // as many as requested
  let full_c = sc.min(64);
  if e.chroma_sampling != ChromaSampling::Cs422 {
    if e.tiles > 0 {
      if c * rr < e.tiles {
        // no finer layout exists
        let finest = |n: usize, k: usize| { let w = ceil_div(n, k); (n + w - 1) / w };
        let best = finest(sc, max_cols) * finest(sr, max_rows);
        if c * rr < best { f(cx, "fewer", format!("{} tiles although up to {best} fit", c * rr)) }
      }
    } else {
      let k = log2_ceil(e.tile_cols.max(1)).clamp(min_cols, max_cols);
      let want = (sc + ceil_div(sc, k) - 1) / ceil_div(sc, k);
      if c != want { f(cx, "columns", format!("{c} columns instead of {want}")) }
      let q = log2_ceil(e.tile_rows.max(1)).max(min_tiles.saturating_sub(k)).min(max_rows);
      let want = (sr + ceil_div(sr, q) - 1) / ceil_div(sr, q);
      if rr < want { f(cx, "rows", format!("{rr} rows instead of {want}")) }
      // more rows only for the tile rate limit
      let fps = e.time_base.den as f64 / e.time_base.num as f64;
      let rate = e.width as f64 * e.height as f64 * fps;
      if rr > want && rate < 0.9 * 4096.0 * 2176.0 * 60.0 { f(cx, "rows", format!("{rr} rows instead of {want}")) }
    }
  } else if e.tiles == 0 {
    // tile columns are an even number of superblocks here
    if tw % 2 != 0 && c > 1 { f(cx, "even", "odd tile width in 4:2:2".into()) }
    let k = log2_ceil(e.tile_cols.max(1)).clamp(min_cols, max_cols);
    let w = (ceil_div(sc, k) + 1) / 2 * 2;
    if c < (sc + w - 1) / w || (c > (sc + w - 1) / w && min_tiles == 0) { f(cx, "columns", format!("{c} columns instead of {}", (sc + w - 1) / w)) }
  }
  cx.class(format!("{}x{} u{} {:?} lim{}{}", c.min(9), rr.min(9), uniform as u8, e.chroma_sampling, (c == full_c) as u8, (min_tiles > 0) as u8));
  Some(t)
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  for _ in 0..200 {
    let e = gen(&mut r, true);
    check(cx, &e);
    if !cx.fails.is_empty() { return }
  }
  // and in the stream
  let o = Opts { cost: 1e9, min_speed: 10, grain: false, meta: false, tweak: false, max_frames: 2, still: false, ..Default::default() };
  let mut c: EncCase = case::gen(&mut r, &o);
  let mut e = gen(&mut r, false);
  if cx.thorough && r.chance(1, 30) { e.width = r.us(4000, 5200); e.height = r.us(1800, 2600); }
  e.chroma_sampling = c.enc.chroma_sampling;
  e.bit_depth = c.enc.bit_depth;
  c.enc = e;
  c.enc.speed_settings.lrf = r.chance(1, 2);
  c.enc.quantizer = r.us(60, 255);
  c.enc.low_latency = true;
  c.nframes = r.us(1, 2);
  c.force_key.clear();
  c.t35.clear();
  c.threads = 2;
  if cx.verbose { eprintln!("{}", super::c01::brief(&c)); }
  let Some(t) = check(cx, &c.enc) else { return };
  let pk = match enc::encode(&c) { Ok(p) => p, Err(m) => { cx.fail("encode", format!("{m}; {}", super::c01::brief(&c))); return } };
  let mut d = match Dav1d::new(false) { Ok(d) => d, Err(m) => { cx.inconclusive(m); return } };
  for p in &pk {
    match d.decode(&p.data) {
      Err(m) => { cx.fail("decode", format!("packet {}: {m}; {}", p.no, super::c01::brief(&c))); return }
      Ok(v) => for x in v {
        let (sc, sr) = ((c.enc.width + 63) / 64, (c.enc.height + 63) / 64);
        let want_c: Vec<u16> = (0..t.cols).map(|i| (i * t.tile_width_sb) as u16).chain([sc as u16]).collect();
        let want_r: Vec<u16> = (0..t.rows).map(|i| (i * t.tile_height_sb) as u16).chain([sr as u16]).collect();
        if x.info.tile_cols != want_c || x.info.tile_rows != want_r {
          cx.fail("stream", format!("columns {:?} rows {:?} in the stream, {want_c:?} {want_r:?} reported; {}", x.info.tile_cols, x.info.tile_rows, super::c01::brief(&c)));
          return;
        }
        if let Some(m) = p.rec.as_ref().and_then(|q| q.diff(&x.pic)) { cx.fail("mismatch", format!("packet {}: {m}; {}", p.no, super::c01::brief(&c))); return }
        cx.count("stream_layouts", 1);
      },
    }
  }
  cx.sample(format!("{}x{}: {} x {} tiles", c.enc.width, c.enc.height, t.cols, t.rows));
}
