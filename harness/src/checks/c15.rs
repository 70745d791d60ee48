//! C15: the command-line encoder against the library, through real processes and files.
use super::c13::{direct, Rc};
use super::{brief, BASE};
use crate::case::{self, EncCase, Opts};
use crate::dec::Dav1d;
use crate::driver::{Cx, Spec};
use crate::enc::{self, Pic, Pkt};
use crate::rng::Rng;
use rav1e::prelude::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn spec() -> Spec {
  Spec {
    id: "C15",
    run,
    secs: (60, 900),
    rule: "a case runs the command-line encoder (or its channel variant) as a process in a scratch folder on a generated Y4M file with generated options: plain encodes and both passes are compared with the library (own IVF and Y4M parsers, own option mapping), and damaged inputs, options, statistics files and destinations must end in a non-zero exit with a message and leave what was there; classes are (kind, configuration)",
    assumptions: &["a last frame that is cut short counts as the end of the input: the whole frames before it are encoded", "the option mapping follows the help texts and documented defaults"],
    ..BASE
  }
}

pub struct Dir(pub PathBuf);
impl Dir {
  pub fn new(cx: &Cx) -> Dir {
    let d = std::env::temp_dir().join(format!("vmon-{}-{}-{}", cx.check, std::process::id(), cx.idx));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch folder");
    Dir(d)
  }
  pub fn p(&self, n: &str) -> PathBuf { self.0.join(n) }
}
impl Drop for Dir { fn drop(&mut self) { if std::env::var_os("VMON_KEEP").is_some() { return } let _ = std::fs::remove_dir_all(&self.0); } }

pub struct Ran { pub code: Option<i32>, pub out: Vec<u8>, pub err: String, pub hung: bool }

fn exe(ch: bool) -> PathBuf { PathBuf::from(std::env::var_os(if ch { "VMON_CLI_CH" } else { "VMON_CLI" }).expect("VMON_CLI: built command-line encoder")) }

/// stdin: a file to read; stdout: None captures, Some(path) opens that
fn go(d: &Dir, bin: &Path, args: &[String], stdin: Option<&Path>, stdout: Option<&Path>) -> Ran {
  let so = d.p("stdout");
  let se = d.p("stderr");
  let open = |p: &Path| std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).expect("redirection");
  let mut c = Command::new(bin);
  c.args(args).current_dir(&d.0).env_remove("RAV1E_CPU_TARGET").env("RUST_BACKTRACE", "0");
  c.stdin(match stdin { Some(p) => Stdio::from(std::fs::File::open(p).expect("stdin")), None => Stdio::null() });
  c.stdout(Stdio::from(open(stdout.unwrap_or(&so))));
  c.stderr(Stdio::from(open(&se)));
  let mut ch = c.spawn().expect("spawn");
  let t = Instant::now();
  let mut hung = false;
  let code = loop {
    if let Some(s) = ch.try_wait().expect("wait") { break s.code(); }
    if t.elapsed() > Duration::from_secs(90) { hung = true; let _ = ch.kill(); let _ = ch.wait(); break None; }
    std::thread::sleep(Duration::from_millis(3));
  };
  let text = |p: &Path| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
  Ran { code, out: if stdout.is_none() { std::fs::read(&so).unwrap_or_default() } else { vec![] }, err: text(&se), hung }
}

// ---- Y4M ----
fn y4m_header(e: &EncoderConfig, tag: &str, fps: (u64, u64), r: &mut Rng) -> Vec<u8> {
  let mut f = vec![format!("W{}", e.width), format!("H{}", e.height), format!("F{}:{}", fps.0, fps.1), format!("C{tag}")];
  let a = e.sample_aspect_ratio;
  if (a.num, a.den) != (1, 1) || r.chance(1, 2) { f.push(format!("A{}:{}", a.num, a.den)); }
  else if r.chance(1, 2) { f.push("A0:0".into()); }
  if r.chance(2, 3) { f.push("Ip".into()); }
  if r.chance(1, 4) { f.push("XYSCSS=SOMETHING".into()); }
  if r.chance(1, 3) { let n = f.len(); f.swap(0, n - 1); }
  format!("YUV4MPEG2 {}\n", f.join(" ")).into_bytes()
}
fn y4m_frame(p: &Pic, bd: usize, r: &mut Rng) -> Vec<u8> {
  let mut v = if r.chance(1, 6) { b"FRAME Ip\n".to_vec() } else { b"FRAME\n".to_vec() };
  for (_, _, d) in &p.planes {
    for s in d { if bd > 8 { v.extend_from_slice(&s.to_le_bytes()); } else { v.push(*s as u8); } }
  }
  v
}
/// (header fields, frames)
fn y4m_parse(b: &[u8], e: &EncoderConfig) -> Result<(Vec<String>, Vec<Pic>), String> {
  let nl = b.iter().position(|&c| c == b'\n').ok_or("no header line")?;
  let h = String::from_utf8_lossy(&b[..nl]).into_owned();
  let fields: Vec<String> = h.split(' ').map(|s| s.to_string()).collect();
  if fields[0] != "YUV4MPEG2" { return Err(format!("magic {}", fields[0])); }
  let mut pos = nl + 1;
  let mut v = vec![];
  while pos < b.len() {
    let nl = b[pos..].iter().position(|&c| c == b'\n').ok_or("no frame line")? + pos;
    if &b[pos..pos + 5.min(b.len() - pos)] != b"FRAME" { return Err(format!("frame magic at {pos}")); }
    pos = nl + 1;
    let mut planes = vec![];
    for pli in 0..enc::nplanes(e) {
      let (w, h, _, _) = enc::plane_dims(e, pli);
      let sz = w * h * if e.bit_depth > 8 { 2 } else { 1 };
      let s = b.get(pos..pos + sz).ok_or_else(|| format!("frame {} is cut short", v.len()))?;
      planes.push((w, h, if e.bit_depth > 8 { s.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect() } else { s.iter().map(|&x| x as u16).collect() }));
      pos += sz;
    }
    v.push(Pic { planes });
  }
  Ok((fields, v))
}

// ---- IVF ----
pub struct Ivf { pub w: u16, pub h: u16, pub rate: u32, pub scale: u32, pub frames: Vec<(u64, Vec<u8>)> }
pub fn ivf_parse(b: &[u8]) -> Result<Ivf, String> {
  let u16at = |p: usize| u16::from_le_bytes([b[p], b[p + 1]]);
  let u32at = |p: usize| u32::from_le_bytes(b[p..p + 4].try_into().unwrap());
  if b.len() < 32 { return Err(format!("{} bytes, no header", b.len())); }
  if &b[..4] != b"DKIF" || &b[8..12] != b"AV01" { return Err("signature".into()); }
  if u16at(4) != 0 || u16at(6) != 32 { return Err(format!("version {} header size {}", u16at(4), u16at(6))); }
  let mut v = vec![];
  let mut p = 32;
  while p < b.len() {
    if p + 12 > b.len() { return Err(format!("cut packet header at {p}")); }
    let n = u32at(p) as usize;
    let pts = u64::from_le_bytes(b[p + 4..p + 12].try_into().unwrap());
    let d = b.get(p + 12..p + 12 + n).ok_or_else(|| format!("cut packet at {p}"))?;
    v.push((pts, d.to_vec()));
    p += 12 + n;
  }
  Ok(Ivf { w: u16at(12), h: u16at(14), rate: u32at(16), scale: u32at(20), frames: v })
}

pub struct Job { pub c: EncCase, pub args: Vec<String>, pub tag: &'static str, pub fps: (u64, u64), pub total: usize, pub skip: usize }

/// a configuration the command line can express, with its arguments
fn gen(r: &mut Rng, passes: bool) -> Job {
  let o = Opts { cost: 90_000.0, max_w: 130, max_h: 100, max_frames: 16, min_speed: 5, tweak: false, grain: false, bitrate: !passes, still: !passes, ..Default::default() };
  let mut c = case::gen(r, &o);
  let mut a: Vec<String> = vec![];
  let mut arg = |k: &str, v: Option<String>| { match v { Some(v) => if k.len() == 2 || a.len() % 2 == 0 { a.push(k.into()); a.push(v) } else { a.push(format!("{k}={v}")) }, None => a.push(k.into()) } };
  let preset = c.preset;
  c.force_key.clear();
  c.t35.clear();
  let e = &mut c.enc;
  e.error_resilient = false;
  e.enable_timing_info = false;
  let rdo = e.speed_settings.rdo_lookahead_frames;
  e.speed_settings = SpeedSettings::from_preset(preset);
  if preset != 6 || r.chance(1, 2) { arg(if r.chance(1, 2) { "-s" } else { "--speed" }, Some(preset.to_string())); }
  if rdo != e.speed_settings.rdo_lookahead_frames { e.speed_settings.rdo_lookahead_frames = rdo; arg("--rdo-lookahead-frames", Some(rdo.to_string())); }
  match r.below(6) {
    0 => { arg("--scd-speed", Some("0".into())); e.speed_settings.scene_detection_mode = SceneDetectionSpeed::Standard; }
    1 => { arg("--scd-speed", Some("1".into())); e.speed_settings.scene_detection_mode = SceneDetectionSpeed::Fast; }
    2 => { arg("--no-scene-detection", None); e.speed_settings.scene_detection_mode = SceneDetectionSpeed::None; }
    _ => {}
  }
  if e.low_latency { arg("--low-latency", None); }
  if e.still_picture { arg("--still-picture", None); }
  // key frame intervals: defaults 12 and 240, the minimum never above the maximum
  let mut min = 12u64;
  let mut max = 240u64;
  if r.chance(3, 4) { max = r.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 9, 12, 30]); arg(if r.chance(1, 2) { "-I" } else { "--keyint" }, Some(max.to_string())); }
  if r.chance(1, 2) { min = r.pick(&[0u64, 1, 2, 3, 5, 12, 20]); arg(if r.chance(1, 2) { "-i" } else { "--min-keyint" }, Some(min.to_string())); }
  e.set_key_frame_interval(min.min(max), max);
  if !e.low_latency { e.switch_frame_interval = 0; }
  if e.switch_frame_interval > 0 { arg(if r.chance(1, 2) { "-S" } else { "--switch-frame-interval" }, Some(e.switch_frame_interval.to_string())); }
  if passes && e.bitrate == 0 { e.bitrate = r.pick(&[1000, 20_000, 100_000, 500_000, 4_000_000]); }
  if e.bitrate > 0 {
    arg(if r.chance(1, 2) { "-b" } else { "--bitrate" }, Some((e.bitrate / 1000).to_string()));
    if r.chance(1, 2) { e.quantizer = 255; } else { e.quantizer = e.quantizer.max(30); arg("--quantizer", Some(e.quantizer.to_string())); }
    if let Some(d) = e.reservoir_frame_delay { arg("--reservoir-frame-delay", Some(d.to_string())); }
    e.min_quantizer = e.min_quantizer.min(e.quantizer as u8);
  } else {
    e.reservoir_frame_delay = None;
    if r.chance(1, 5) { e.quantizer = 100; } else { e.quantizer = e.quantizer.max(1); arg("--quantizer", Some(e.quantizer.to_string())); }
  }
  if e.min_quantizer > 0 { arg("--min-quantizer", Some(e.min_quantizer.to_string())); }
  if e.tune == Tune::Psnr { arg("--tune", Some(r.pick(&["Psnr", "psnr"]).into())); } else {
    if r.chance(1, 2) { arg("--tune", Some("Psychovisual".into())); }
    e.speed_settings.transform.tx_domain_distortion = false;
  }
  if e.tiles > 0 { arg("--tiles", Some(e.tiles.to_string())); e.tile_cols = 0; e.tile_rows = 0; }
  if e.tile_cols > 0 { arg("--tile-cols", Some(e.tile_cols.to_string())); }
  if e.tile_rows > 0 { arg("--tile-rows", Some(e.tile_rows.to_string())); }
  match r.below(3) { 0 if e.color_description.map_or(true, |c| c.matrix_coefficients != MatrixCoefficients::Identity) => { e.pixel_range = PixelRange::Limited; } _ => arg("--range", Some(format!("{:?}", e.pixel_range))) }
  if let Some(cd) = e.color_description {
    let u = (ColorPrimaries::Unspecified, TransferCharacteristics::Unspecified, MatrixCoefficients::Unspecified);
    if (cd.color_primaries, cd.transfer_characteristics, cd.matrix_coefficients) == u { e.color_description = None; }
    if cd.color_primaries != u.0 { arg("--primaries", Some(format!("{:?}", cd.color_primaries))); }
    if cd.transfer_characteristics != u.1 { arg("--transfer", Some(format!("{:?}", cd.transfer_characteristics))); }
    if cd.matrix_coefficients != u.2 { arg("--matrix", Some(format!("{:?}", cd.matrix_coefficients))); }
  }
  if let Some(m) = &mut e.mastering_display {
    // primaries are listed green, blue, red; coordinates in 1/65536, luminance in 1/256 and 1/16384
    let p = |c: ChromaticityPoint| format!("({},{})", c.x as f64 / 65536.0, c.y as f64 / 65536.0);
    m.max_luminance &= 0xff_ffff;
    m.min_luminance &= 0xff_ffff;
    arg("--mastering-display", Some(format!("G{}B{}R{}WP{}L({},{})", p(m.primaries[1]), p(m.primaries[2]), p(m.primaries[0]), p(m.white_point),
      m.max_luminance as f64 / 256.0, m.min_luminance as f64 / 16384.0)));
  }
  if let Some(l) = &mut e.content_light {
    match r.below(8) { 0 => l.max_content_light_level = 0, 1 => l.max_frame_average_light_level = 0, 2 => { l.max_content_light_level = 0; l.max_frame_average_light_level = 0; } _ => {} }
  }
  if let Some(l) = e.content_light {
    arg("--content-light", Some(format!("{},{}", l.max_content_light_level, l.max_frame_average_light_level)));
    if l.max_content_light_level == 0 && l.max_frame_average_light_level == 0 { e.content_light = None; }
  }
  match e.level_idx {
    None => if r.chance(1, 3) { arg("--level", Some("auto".into())) },
    Some(31) => arg("--level", Some("unconstrained".into())),
    Some(l) => arg("--level", Some(format!("{}.{}", 2 + (l >> 2), l & 3))),
  }
  // input: the rate in the file, or one given by options
  let tb = e.time_base;
  let mut fps = (tb.den, tb.num);
  if r.chance(1, 4) {
    arg("--frame-rate", Some(tb.den.to_string()));
    arg("--time-scale", Some(tb.num.to_string()));
    fps = r.pick(&[(25, 1), (24000, 1001)]);
  }
  if e.chroma_sampling == ChromaSampling::Cs400 && e.bit_depth == 10 { e.bit_depth = 12; }
  let tag = match (e.chroma_sampling, e.bit_depth) {
    (ChromaSampling::Cs420, 8) => r.pick(&["420", "420jpeg", "420mpeg2", "420paldv"]),
    (ChromaSampling::Cs420, 10) => "420p10",
    (ChromaSampling::Cs420, _) => "420p12",
    (ChromaSampling::Cs422, 8) => "422",
    (ChromaSampling::Cs422, 10) => "422p10",
    (ChromaSampling::Cs422, _) => "422p12",
    (ChromaSampling::Cs444, 8) => "444",
    (ChromaSampling::Cs444, 10) => "444p10",
    (ChromaSampling::Cs444, _) => "444p12",
    (ChromaSampling::Cs400, 8) => "mono",
    (ChromaSampling::Cs400, _) => "mono12",
  };
  e.chroma_sample_position = match tag {
    "420jpeg" | "420paldv" | "mono" | "mono12" => ChromaSamplePosition::Unknown,
    "420mpeg2" => ChromaSamplePosition::Vertical,
    _ => ChromaSamplePosition::Colocated,
  };
  c.hbd = e.bit_depth > 8;
  if !c.hbd && r.chance(1, 10) { c.hbd = true; arg("--high-bitdepth", None); }
  if r.chance(1, 6) {
    let n = r.range(1, 64);
    arg("--photon-noise", Some(n.to_string()));
    e.film_grain_params = Some(vec![rav1e::prelude::generate_photon_noise_params(0, u64::MAX, NoiseGenArgs {
      iso_setting: n as u32 * 100, width: e.width as u32, height: e.height as u32,
      transfer_function: if e.color_description.map_or(false, |c| c.transfer_characteristics == TransferCharacteristics::SMPTE2084) { TransferFunction::SMPTE2084 } else { TransferFunction::BT1886 },
      chroma_grain: false, random_seed: None,
    })]);
  }
  if r.chance(1, 2) { arg("--threads", Some(r.pick(&["1", "2", "3"]).into())); }
  match r.below(6) { 0 => arg("-v", None), 1 => arg("--verbose", None), 2 | 3 => arg("-q", None), 4 => arg("--quiet", None), _ => {} }
  match r.below(10) { 0 => arg("--psnr", None), 1 if e.chroma_sampling != ChromaSampling::Cs400 && e.width.min(e.height) >= 16 => arg("--metrics", None), 2 => arg("--benchmark", None), _ => {} }
  // frame selection
  let total = if e.still_picture { r.us(1, 3) } else { c.nframes };
  let mut skip = 0;
  if r.chance(1, 3) { skip = r.us(0, total); arg("--skip", Some(skip.to_string())); }
  let mut n = total - skip;
  if r.chance(1, 3) && !e.still_picture {
    let l = r.us(0, total + 2);
    arg(if r.chance(1, 2) { "-l" } else { "--limit" }, Some(l.to_string()));
    if l > 0 { n = n.min(l); }
  }
  if e.still_picture { n = n.min(1); }
  c.nframes = n;
  c.content.first = skip as u64;
  c.threads = 1;
  Job { c, args: a, tag, fps, total, skip }
}

fn file_bytes(j: &Job, r: &mut Rng) -> Vec<u8> {
  let mut all = j.c.clone();
  all.content.first = 0;
  let mut v = y4m_header(&j.c.enc, j.tag, j.fps, r);
  for i in 0..j.total { v.extend(y4m_frame(&enc::source_pic(&all, i), j.c.enc.bit_depth, r)); }
  v
}

fn check_stream(cx: &mut Cx, what: &str, j: &Job, ivf: &[u8], want: &[Pkt], ctx: &str) -> bool {
  let c = &j.c;
  let v = match ivf_parse(ivf) { Ok(v) => v, Err(e) => { cx.fail("ivf-malformed", format!("{what}: {e}; {ctx}")); return false } };
  let tb = c.enc.time_base;
  if (v.w as usize, v.h as usize, v.rate as u64, v.scale as u64) != (c.enc.width, c.enc.height, tb.den, tb.num) {
    cx.fail("ivf-header", format!("{what}: {}x{} rate {} scale {} for {}x{} {}/{}; {ctx}", v.w, v.h, v.rate, v.scale, c.enc.width, c.enc.height, tb.den, tb.num));
    return false;
  }
  for (i, (pts, _)) in v.frames.iter().enumerate() {
    if *pts != i as u64 { cx.fail("ivf-timestamps", format!("{what}: packet {i} has timestamp {pts}; {ctx}")); return false }
  }
  if v.frames.len() != want.len() { cx.fail("packet-count", format!("{what}: {} packets, the library gives {}; {ctx}", v.frames.len(), want.len())); return false }
  for (i, ((_, d), w)) in v.frames.iter().zip(want).enumerate() {
    if d != &w.data { cx.fail("stream-differs", format!("{what}: packet {i}: {} bytes, the library gives {} other bytes; {ctx}", d.len(), w.data.len())); return false }
  }
  cx.count("packets_compared", want.len() as u64);
  true
}

fn message(err: &str) -> String { err.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).last().unwrap_or("").chars().take(300).collect() }

/// the channel variant ends its input right after the last frame, the other when asked for more
fn lib(j: &Job, rc: &Rc, ch: bool) -> Result<(Vec<Pkt>, Vec<RcData>), String> {
  if j.c.hbd { direct::<u16>(&j.c, rc, !ch) } else { direct::<u8>(&j.c, rc, !ch) }
}

fn plain(cx: &mut Cx, r: &mut Rng, ch: bool) {
  let mut j = gen(r, false);
  if ch { j.args.retain(|a| a != "--benchmark"); }
  let d = Dir::new(cx);
  let bytes = file_bytes(&j, r);
  // sometimes the last frame is cut short: the whole frames before it count
  let mut bytes = bytes;
  let mut cut = "";
  if r.chance(1, 8) && j.total > 1 && !j.args.iter().any(|a| a.contains("--limit") || a == "-l" || a.contains("--skip")) && !j.c.enc.still_picture {
    let per = (0..enc::nplanes(&j.c.enc)).map(|p| { let (w, h, _, _) = enc::plane_dims(&j.c.enc, p); w * h }).sum::<usize>() * if j.c.enc.bit_depth > 8 { 2 } else { 1 };
    let n = bytes.len() - r.us(1, per.min(2000) - 1);
    bytes.truncate(n);
    j.c.nframes -= 1;
    cut = " cut";
  }
  std::fs::write(d.p("in.y4m"), &bytes).expect("write");
  let (pi, po) = (r.chance(1, 4), r.chance(1, 4));
  let rec = r.chance(1, 2);
  let mut a = j.args.clone();
  a.insert(0, if pi { "-".into() } else { "in.y4m".into() });
  a.push("-o".into());
  a.push(if po { "-".into() } else { "out.ivf".into() });
  if rec { a.push(if r.chance(1, 2) { "-r" } else { "--reconstruction" }.into()); a.push("rec.y4m".into()); }
  if !po && r.chance(1, 4) { std::fs::write(d.p("out.ivf"), vec![7u8; 100_000]).expect("write"); a.push("-y".into()); }
  let ctx = format!("{}args {a:?} tag {} of {} frames; {}", if ch { "rav1e-ch " } else { "" }, j.tag, j.total, brief(&j.c));
  let ran = go(&d, &exe(ch), &a, if pi { Some(d.p("in.y4m")) } else { None }.as_deref(), None);
  if ran.hung { cx.fail("cli-hang", format!("no exit in 90 s; {ctx}")); return }
  if ran.code != Some(0) { cx.fail(&format!("cli-fails {}", crate::driver::panic_sig(&message(&ran.err))), format!("exit {:?}: {}; {ctx}", ran.code, message(&ran.err))); return }
  let ivf = if po { ran.out } else { std::fs::read(d.p("out.ivf")).unwrap_or_default() };
  let (want, _) = match lib(&j, &Rc::None, ch) { Ok(v) => v, Err(e) => { cx.fail("library", format!("{e}; {ctx}")); return } };
  if !check_stream(cx, "plain", &j, &ivf, &want, &ctx) { return }
  if rec {
    let b = std::fs::read(d.p("rec.y4m")).unwrap_or_default();
    let (h, pics) = match y4m_parse(&b, &j.c.enc) { Ok(v) => v, Err(e) => { cx.fail("rec-malformed", format!("{e}; {ctx}")); return } };
    let ar = j.c.enc.sample_aspect_ratio;
    for f in [format!("W{}", j.c.enc.width), format!("H{}", j.c.enc.height), format!("F{}:{}", j.fps.0, j.fps.1), format!("C{}", j.tag), format!("A{}:{}", ar.num, ar.den)] {
      // a square pixel aspect may be left out
      if !h.contains(&f) && f != "A1:1" { cx.fail("rec-header", format!("no {f} in {h:?}; {ctx}")); return }
    }
    let recs: Vec<&Pic> = want.iter().filter_map(|p| p.rec.as_ref()).collect();
    if recs.len() != pics.len() { cx.fail("rec-count", format!("{} frames, the library gives {}; {ctx}", pics.len(), recs.len())); return }
    let mut dec = Dav1d::new(false).expect("dav1d");
    let mut k = 0;
    for p in &want {
      for o in dec.decode(&p.data).unwrap_or_default() {
        if let Some(df) = pics.get(k).and_then(|x| o.pic.diff(x)) { cx.fail("rec-differs", format!("frame {k} against the decoded video: {df}; {ctx}")); return }
        k += 1;
      }
    }
    if k != pics.len() { cx.fail("rec-decoded", format!("{k} decoded pictures, {} reconstructed; {ctx}", pics.len())); return }
    cx.count("pictures_compared", k as u64);
  } else if ran.err.is_empty() != (a.contains(&"-q".to_string()) || a.contains(&"--quiet".to_string())) && want.len() > 0 && !a.contains(&"--benchmark".to_string()) {
    // quiet runs say nothing, others report
    cx.count("unexpected_stderr", 1);
  }
  cx.class(format!("{}{}{}{}{} {}", if ch { "ch " } else { "" }, j.tag, if pi { "<" } else { "" }, if po { ">" } else { "" }, cut, j.c.class()));
  cx.sample(ctx);
}

fn stats_frames(b: &[u8], ch: bool) -> Result<(Vec<u8>, Vec<Vec<u8>>), String> {
  let mut p = 0;
  let mut next = || -> Result<Option<Vec<u8>>, String> {
    if p == b.len() { return Ok(None); }
    let h = b.get(p..p + 8).ok_or("cut length")?;
    let n = u64::from_be_bytes(h.try_into().unwrap()) as usize;
    let d = b.get(p + 8..p + 8 + n).ok_or("cut block")?;
    p += 8 + n;
    Ok(Some(d.to_vec()))
  };
  let s = next()?.ok_or("empty file")?;
  let mut v = vec![];
  while let Some(d) = next()? { v.push(d); }
  // the channel variant ends the list with an empty block
  if ch { match v.pop() { Some(d) if d.is_empty() => {} _ => return Err("no end marker".into()) } }
  Ok((s, v))
}

fn twopass(cx: &mut Cx, r: &mut Rng, ch: bool) {
  let mut j = gen(r, true);
  j.args.retain(|a| a != "--benchmark" && a != "--metrics" && a != "--psnr");
  let d = Dir::new(cx);
  let bytes = file_bytes(&j, r);
  std::fs::write(d.p("in.y4m"), &bytes).expect("write");
  let mut a = j.args.clone();
  a.extend(["-o".into(), "p1.ivf".into(), "--first-pass".into(), "stats".into(), "in.y4m".into()]);
  let ctx = format!("{}args {a:?} tag {} of {} frames; {}", if ch { "rav1e-ch " } else { "" }, j.tag, j.total, brief(&j.c));
  let ran = go(&d, &exe(ch), &a, None, None);
  if ran.hung || ran.code != Some(0) { cx.fail("pass1-fails", format!("exit {:?}: {}; {ctx}", ran.code, message(&ran.err))); return }
  let (want, data) = match lib(&j, &Rc::First, ch) { Ok(v) => v, Err(e) => { cx.fail("library", format!("pass 1: {e}; {ctx}")); return } };
  if !check_stream(cx, "first pass", &j, &std::fs::read(d.p("p1.ivf")).unwrap_or_default(), &want, &ctx) { return }
  let st = std::fs::read(d.p("stats")).unwrap_or_default();
  let (s, f) = match stats_frames(&st, ch) { Ok(v) => v, Err(e) => { cx.fail("stats-malformed", format!("{e}; {ctx}")); return } };
  let mut ws = vec![];
  let mut wf = vec![];
  for x in data { match x { RcData::Summary(s) => ws = s.to_vec(), RcData::Frame(f) => wf.push(f.to_vec()) } }
  if s != ws || f != wf { cx.fail("stats-differ", format!("summary {} frames {} blocks (same {}), the library gives {}; {ctx}", s == ws, f.len(), f == wf, wf.len())); return }
  cx.count("stats_blocks", f.len() as u64 + 1);
  if j.c.nframes == 0 { cx.class("two-pass of nothing"); return }
  let third = r.chance(1, 4) && !ch;
  let mut a = j.args.clone();
  a.extend(["-o".into(), "p2.ivf".into(), "--second-pass".into(), "stats".into(), "in.y4m".into()]);
  if third { a.extend(["--first-pass".into(), "stats2".into()]); }
  let ran = go(&d, &exe(ch), &a, None, None);
  let ctx = format!("second pass; {ctx}");
  if ran.hung || ran.code != Some(0) { cx.fail("pass2-fails", format!("exit {:?}: {}; {ctx}", ran.code, message(&ran.err))); return }
  if ch {
    // the channels know the number of frames in advance and may spend the bits differently
    let v = match ivf_parse(&std::fs::read(d.p("p2.ivf")).unwrap_or_default()) { Ok(v) => v, Err(e) => { cx.fail("ivf-malformed", format!("{e}; {ctx}")); return } };
    let mut dec = Dav1d::new(false).expect("dav1d");
    let mut k = 0;
    for (i, (pts, p)) in v.frames.iter().enumerate() {
      if *pts != i as u64 { cx.fail("ivf-timestamps", format!("packet {i} has timestamp {pts}; {ctx}")); return }
      match dec.decode(p) { Ok(o) => k += o.len(), Err(e) => { cx.fail("decode", format!("packet {i}: {e}; {ctx}")); return } }
    }
    if v.frames.len() != j.c.nframes || k != j.c.nframes { cx.fail("packet-count", format!("{} packets, {k} pictures for {} frames; {ctx}", v.frames.len(), j.c.nframes)); return }
    cx.count("packets_decoded", k as u64);
    cx.class(format!("two-pass ch {}{}", j.tag, j.c.class()));
    return;
  }
  let (want, _) = match lib(&j, &Rc::Second(ws, wf), ch) { Ok(v) => v, Err(e) => { cx.fail("library", format!("pass 2: {e}; {ctx}")); return } };
  if !check_stream(cx, "second pass", &j, &std::fs::read(d.p("p2.ivf")).unwrap_or_default(), &want, &ctx) { return }
  if third {
    match stats_frames(&std::fs::read(d.p("stats2")).unwrap_or_default(), false) {
      Ok((_, f)) if f.len() >= want.len() => cx.count("third_pass_blocks", f.len() as u64),
      Ok((_, f)) => { cx.fail("stats2-short", format!("{} blocks for {} packets; {ctx}", f.len(), want.len())); return }
      Err(e) => { cx.fail("stats2-malformed", format!("{e}; {ctx}")); return }
    }
  }
  cx.class(format!("two-pass {}{}{}", if ch { "ch " } else { "" }, j.tag, j.c.class()));
}

/// every one of these must end in a non-zero exit with a message
fn errors(cx: &mut Cx, r: &mut Rng, pick: u64) {
  let d = Dir::new(cx);
  let hdr = b"YUV4MPEG2 W32 H32 F25:1 Ip A1:1 C420jpeg\n".to_vec();
  let mut good = hdr.clone();
  let n = 3;
  for i in 0..n { good.extend(b"FRAME\n"); good.extend((0..1536u32).map(|x| ((x * 7 + i * 50) ^ (x >> 3)) as u8)); }
  let w = |n: &str, b: &[u8]| std::fs::write(d.p(n), b).expect("write");
  w("in.y4m", &good);
  let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<String>>();
  let out = ["-o", "out.ivf", "-s", "10"];
  let base = |extra: &[&str]| { let mut v = s(&["in.y4m"]); v.extend(s(&out)); v.extend(s(extra)); v };
  let input = |name: &str| { let mut v = s(&[name]); v.extend(s(&out)); v };
  let text = |h: &str| { let mut v = h.as_bytes().to_vec(); v.extend(&good[hdr.len()..]); v };
  let mut stdout: Option<PathBuf> = None;
  let mut stdin: Option<PathBuf> = None;
  let mut keep: Option<(&str, Vec<u8>)> = None;
  // statistics of a real first pass
  let stats = |d: &Dir| -> Option<Vec<u8>> {
    let ran = go(d, &exe(false), &s(&["in.y4m", "-o", "p1.ivf", "-y", "-q", "-s", "10", "-b", "50", "--first-pass", "stats"]), None, None);
    if ran.code != Some(0) { return None }
    std::fs::read(d.p("stats")).ok()
  };
  const KINDS: u64 = 58;
  let kind = pick % KINDS;
  let (name, args): (String, Vec<String>) = match kind {
    0 => ("missing input".into(), input("nothing.y4m")),
    1 => { w("e.y4m", b""); ("empty input".into(), input("e.y4m")) }
    2 => { let k = r.us(1, 5000); w("e.y4m", &r.bytes(k)); ("garbage input".into(), input("e.y4m")) }
    3 => { let k = r.us(1, hdr.len() - 1); w("e.y4m", &hdr[..k]); (format!("header cut at {k}"), input("e.y4m")) }
    4 => { let t = r.pick(&["420p14", "420p9", "411", "foo", "mono16", "444alpha", ""]); w("e.y4m", &text(&format!("YUV4MPEG2 W32 H32 F25:1 C{t}\n"))); (format!("colour space {t:?}"), input("e.y4m")) }
    5 => { let t = r.pick(&["W0 H32 F25:1", "W32 H0 F25:1", "H32 F25:1", "W32 F25:1", "Wx H32 F25:1", "W-5 H32 F25:1", "W32 H32 F25", "W32 H32 Fa:b"]); w("e.y4m", &text(&format!("YUV4MPEG2 {t} C420\n"))); (format!("header {t:?}"), input("e.y4m")) }
    6 => { let t = r.pick(&["F0:1", "F25:0"]); w("e.y4m", &text(&format!("YUV4MPEG2 W32 H32 {t} C420\n"))); (format!("rate {t}"), input("e.y4m")) }
    7 => { let t = r.pick(&["W8 H32", "W15 H64", "W32 H8", "W70000 H32", "W32 H70000"]); w("e.y4m", &text(&format!("YUV4MPEG2 {t} F25:1 C420\n"))); (format!("size {t}"), input("e.y4m")) }
    8 => { w("e.y4m", &text("YUV4MPEG2 W999999999999 H99999999999 F25:1 C444p12\n")); ("absurd size".into(), input("e.y4m")) }
    9 | 10 => {
      // a damaged frame header anywhere
      let k = r.us(0, n as usize - 1);
      let mut b = good.clone();
      let p = hdr.len() + k * 1542 + r.us(0, 4);
      b[p] ^= 1 << r.below(7);
      w("e.y4m", &b);
      (format!("frame header {k} damaged"), input("e.y4m"))
    }
    11 => {
      // bytes lost in the middle of a frame: the next frame header is not found
      let mut b = good.clone();
      let k = r.us(1, 1400);
      b.drain(hdr.len() + 100..hdr.len() + 100 + k);
      w("e.y4m", &b);
      ("bytes lost".into(), input("e.y4m"))
    }
    12 => { let k = r.us(n as usize + 1, 50); ("skip beyond the end".into(), base(&["--skip", &k.to_string()])) }
    13 => { std::fs::create_dir(d.p("dir.y4m")).unwrap(); ("a folder as input".into(), input("dir.y4m")) }
    14..=31 => {
      const BAD: [&[&str]; 34] = [
        &["--speed", "11"], &["--speed", "x"], &["--quantizer", "0"], &["--quantizer", "256"], &["--quantizer", "-1"], &["--bitrate", "abc"], &["--bitrate", "3000000"],
        &["--no-such-option"], &["--tiles", "2", "--tile-rows", "2"], &["--tiles", "2", "--tile-cols", "2"], &["--level", "9.9"], &["--level", "4.4"], &["--level", "1.0"], &["--level", "high"],
        &["--reservoir-frame-delay", "3", "-b", "50"], &["--tile-cols", "3"], &["--tile-rows", "65"], &["--first-pass", "stats"], &["--second-pass", "stats"],
        &["--still-picture", "--limit", "2"], &["--scd-speed", "2"], &["--photon-noise", "65"], &["--tune", "loud"], &["--range", "narrow"], &["--primaries", "BT1"],
        &["--mastering-display", "G(1,2)"], &["--content-light", "lots"], &["--film-grain-table", "nothing.tbl"], &["-q", "-v"], &["--psnr", "--metrics"],
        &["--limit", "-3"], &["--threads", "many"], &["--min-quantizer", "300"], &["--switch-frame-interval", "5"],
      ];
      let o = BAD[((pick / KINDS) * 18 + kind - 14) as usize % BAD.len()];
      (format!("options {o:?}"), base(o))
    }
    32 => ("no output option".into(), s(&["in.y4m"])),
    33 => ("no arguments".into(), vec![]),
    34 => ("output in a missing folder".into(), s(&["in.y4m", "-o", "no/such/out.ivf", "-s", "10"])),
    35 => ("reconstruction in a missing folder".into(), base(&["-r", "no/such/rec.y4m"])),
    36 => ("statistics in a missing folder".into(), base(&["-b", "50", "--first-pass", "no/such/stats"])),
    37 => ("wrong extension".into(), s(&["in.y4m", "-o", r.pick(&["out.mkv", "out.mp4", "out.obu"]), "-s", "10"])),
    38 => { w("out.ivf", b"precious"); keep = Some(("out.ivf", b"precious".to_vec())); ("existing output, no answer".into(), base(&[])) }
    39 => { w("out.ivf", b"precious"); w("ans", b"n\n"); stdin = Some(d.p("ans")); keep = Some(("out.ivf", b"precious".to_vec())); ("existing output, refused".into(), base(&[])) }
    40 => { w("out.ivf", b"precious"); keep = Some(("out.ivf", b"precious".to_vec())); let mut a = base(&["-y"]); a[0] = "nothing.y4m".into(); ("missing input keeps the output".into(), a) }
    41 => ("full output device".into(), s(&["in.y4m", "-o", "/dev/full", "-s", "10", "-y"])),
    42 => ("full output device, quiet".into(), s(&["in.y4m", "-o", "/dev/full", "-s", "10", "-y", "-q"])),
    43 => ("full reconstruction device".into(), base(&["-r", "/dev/full"])),
    44 => ("full statistics device".into(), base(&["-b", "50", "--first-pass", "/dev/full"])),
    45 | 46 => { stdout = Some("/dev/full".into()); ("full standard output".into(), s(&["in.y4m", "-o", "-", "-s", "10", if kind == 45 { "-v" } else { "--low-latency" }])) }
    47 | 48 => { stdout = Some("/dev/full".into()); ("full standard output, quiet".into(), s(&["in.y4m", "-o", "-", "-s", "10", "-q"])) }
    49 => ("missing statistics".into(), base(&["-b", "50", "--second-pass", "nothing"])),
    50 => { w("st", b""); ("empty statistics".into(), base(&["-b", "50", "--second-pass", "st"])) }
    51 => { let k = r.us(1, 300); w("st", &r.bytes(k)); ("garbage statistics".into(), base(&["-b", "50", "--second-pass", "st"])) }
    52 => {
      let Some(b) = stats(&d) else { cx.fail("stats", "first pass failed"); return };
      // a cut anywhere before the last block the second pass reads
      let k = r.us(0, b.len() - 1);
      w("st", &b[..k]);
      (format!("statistics cut at {k} of {}", b.len()), base(&["-b", "50", "--second-pass", "st"]))
    }
    53 => {
      let Some(mut b) = stats(&d) else { cx.fail("stats", "first pass failed"); return };
      let k = r.us(8, 12); // summary magic or version
      b[k.min(11)] ^= 1 << r.below(8);
      w("st", &b);
      ("statistics of another kind".into(), base(&["-b", "50", "--second-pass", "st"]))
    }
    54 => {
      let Some(mut b) = stats(&d) else { cx.fail("stats", "first pass failed"); return };
      b[r.pick(&[0usize, 1, 2])] ^= 1 << r.range(0, 7);
      w("st", &b);
      ("absurd summary length".into(), base(&["-b", "50", "--second-pass", "st"]))
    }
    55 => {
      let Some(mut b) = stats(&d) else { cx.fail("stats", "first pass failed"); return };
      let n = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
      b[8 + n + r.us(0, 6)] ^= 1 << r.below(8);
      w("st", &b);
      ("absurd block length".into(), base(&["-b", "50", "--second-pass", "st"]))
    }
    56 => { let t = r.pick(&["[x", "speed = 3", "width = \"a\""]); w("cfg.toml", t.as_bytes()); ("damaged configuration file".into(), base(&["advanced", "--load-config", "cfg.toml"])) }
    _ => ("missing configuration file".into(), base(&["advanced", "--load-config", "nothing.toml"])),
  };
  let ran = go(&d, &exe(false), &args, stdin.as_deref(), stdout.as_deref());
  let ctx = format!("{name}; args {args:?}");
  if ran.hung { cx.fail("cli-hang", format!("no exit in 90 s; {ctx}")); return }
  match ran.code {
    Some(0) => { cx.fail(&format!("bad-accepted {}", name.split(|c: char| c.is_ascii_digit()).next().unwrap_or("")), format!("exit 0; stderr: {}; {ctx}", message(&ran.err))); return }
    None => { cx.fail("cli-killed", format!("ended by a signal; stderr: {}; {ctx}", message(&ran.err))); return }
    Some(_) => {}
  }
  if ran.err.trim().is_empty() { cx.fail("no-message", format!("exit {:?} without a message; {ctx}", ran.code)); return }
  if let Some((f, b)) = keep {
    if std::fs::read(d.p(f)).ok().as_deref() != Some(&b) { cx.fail("output-lost", format!("{f} was changed; {ctx}")); return }
  }
  cx.count("errors_reported", 1);
  cx.class(format!("error: {name}"));
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let k = (cx.idx + cx.idx / 8) % 8;
  match k {
    0 | 1 | 2 => plain(cx, &mut r, false),
    3 => plain(cx, &mut r, true),
    4 => twopass(cx, &mut r, cx.idx % 5 == 0),
    _ => { let p = (cx.idx / 8) * 3 + k - 5; for i in 0..4 { if cx.fails.is_empty() { errors(cx, &mut r, p * 4 + i) } } }
  }
  if !cx.fails.is_empty() { return }
}
