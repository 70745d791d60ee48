//! C21: configurations written out as text and read back.
use super::c01::brief;
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::driver::{guard, panic_sig, Cx, Spec};
use crate::enc;
use crate::rng::Rng;
use rav1e::bench::api::*;
use serde_json::Value;

pub fn spec() -> Spec {
  Spec {
    id: "C21",
    run,
    secs: (30, 300),
    rule: "a case draws a configuration (values far outside the valid ranges included), writes it as TOML and JSON, reads it back and compares all fields and, for valid ones, the encoded streams; then damages the text (fields removed, retyped, out of range, unknown names, flipped characters, cut) and compares what is accepted with an independent reading of the same text; every 16th case saves and loads configurations with the command-line encoder; classes are (format, field, damage, outcome)",
    assumptions: &["the toml and serde_json parsers", "TOML cannot express integers above 2^63-1: writing such a configuration as TOML may fail"],
    ..BASE
  }
}

fn wild(r: &mut Rng, c: &mut EncCase) {
  let e = &mut c.enc;
  let big = |r: &mut Rng| -> u64 { match r.below(4) { 0 => 0, 1 => i64::MAX as u64, 2 => r.u64() >> 1, _ => r.u64() >> r.range(1, 63) } };
  if r.chance(1, 2) { e.width = big(r) as usize; }
  if r.chance(1, 2) { e.height = big(r) as usize; }
  if r.chance(1, 2) { e.time_base = Rational::new(big(r), big(r)); }
  if r.chance(1, 2) { e.sample_aspect_ratio = Rational::new(big(r), big(r)); }
  if r.chance(1, 2) { e.bit_depth = big(r) as usize; }
  if r.chance(1, 2) { e.level_idx = if r.chance(1, 3) { None } else { Some(r.u64() as u8) }; }
  if r.chance(1, 2) { e.switch_frame_interval = big(r); }
  if r.chance(1, 2) { e.min_key_frame_interval = big(r); }
  if r.chance(1, 2) { e.max_key_frame_interval = big(r); }
  if r.chance(1, 2) { e.reservoir_frame_delay = if r.chance(1, 3) { None } else { Some(r.u64() as i32) }; }
  if r.chance(1, 2) { e.quantizer = big(r) as usize; }
  if r.chance(1, 2) { e.min_quantizer = r.u64() as u8; }
  if r.chance(1, 2) { e.bitrate = r.u64() as i32; }
  if r.chance(1, 2) { e.tile_cols = big(r) as usize; }
  if r.chance(1, 2) { e.tile_rows = big(r) as usize; }
  if r.chance(1, 2) { e.tiles = big(r) as usize; }
  if r.chance(1, 3) { e.still_picture = !e.still_picture; }
  if r.chance(1, 3) { e.low_latency = !e.low_latency; }
  if r.chance(1, 3) { e.error_resilient = !e.error_resilient; }
  if r.chance(1, 3) { e.enable_timing_info = !e.enable_timing_info; }
  if r.chance(1, 2) { e.speed_settings.rdo_lookahead_frames = big(r) as usize; }
}

fn to_text(e: &EncoderConfig, toml: bool) -> Result<String, String> {
  match guard(|| if toml { toml::to_string(e).map_err(|x| x.to_string()) } else { serde_json::to_string(e).map_err(|x| x.to_string()) }) { Ok(r) => r, Err(p) => Err(format!("panic: {p}")) }
}
fn from_text(s: &str, toml: bool) -> Result<Result<EncoderConfig, String>, String> {
  guard(|| if toml { toml::from_str::<EncoderConfig>(s).map_err(|x| x.to_string()) } else { serde_json::from_str::<EncoderConfig>(s).map_err(|x| x.to_string()) })
}
/// independent reading of the text
fn value_of(s: &str, toml: bool) -> Option<Value> {
  if toml { serde_json::to_value(toml::from_str::<toml::Value>(s).ok()?).ok() } else { serde_json::from_str(s).ok() }
}

/// Does the configuration say what the text says? `ours` comes from the accepted configuration.
fn agrees(text: &Value, ours: &Value, path: &str) -> Result<(), String> {
  match (text, ours) {
    (Value::Object(t), Value::Object(o)) => {
      for (k, v) in o {
        match t.get(k) {
          Some(x) => agrees(x, v, &format!("{path}.{k}"))?,
          None if v.is_null() => {}
          None => return Err(format!("{path}.{k} is missing in the text but became {v}")),
        }
      }
      Ok(())
    }
    (Value::Array(t), Value::Array(o)) => {
      // surplus elements of a TOML tuple are ignored by the parser; lists keep all of theirs
      let list = path.rsplit('.').next().is_some_and(|n| !n.ends_with(']') && (n.starts_with("scaling_points") || n.starts_with("ar_coeffs")));
      if t.len() != o.len() && (list || t.len() < o.len()) { return Err(format!("{path}: {} elements became {}", t.len(), o.len())); }
      for (i, (a, b)) in t.iter().zip(o).enumerate() { agrees(a, b, &format!("{path}[{i}]"))?; }
      Ok(())
    }
    // structures may be written as sequences of their fields
    (Value::Array(t), Value::Object(o)) => if t.len() == o.len() { Ok(()) } else { Err(format!("{path}: {} elements for {} fields", t.len(), o.len())) },
    // unit variants may be written as { Variant = null }
    (Value::Object(t), Value::String(s)) => if t.len() == 1 && t.contains_key(s) { Ok(()) } else { Err(format!("{path}: {text} became {ours}")) },
    (a, b) => if a == b { Ok(()) } else { Err(format!("{path}: {a} became {b}")) },
  }
}

/// every leaf of the value
fn paths(v: &Value, p: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
  match v {
    Value::Object(m) => { if !p.is_empty() { out.push(p.clone()); } for (k, x) in m { p.push(k.clone()); paths(x, p, out); p.pop(); } }
    Value::Array(a) => { out.push(p.clone()); for (i, x) in a.iter().enumerate() { p.push(i.to_string()); paths(x, p, out); p.pop(); } }
    _ => out.push(p.clone()),
  }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
  let mut x = v;
  for k in p { x = match x { Value::Object(m) => m.get_mut(k)?, Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?, _ => return None }; }
  Some(x)
}

fn damage(r: &mut Rng, s: &str, toml: bool) -> (String, String) {
  if r.chance(1, 3) {
    // characters
    let mut b = s.as_bytes().to_vec();
    let kind = match r.below(4) {
      0 => { let n = r.us(0, b.len()); b.truncate(n); "cut" }
      1 => { for _ in 0..r.us(1, 3) { let i = r.us(0, b.len() - 1); b[i] ^= 1 << r.below(7); } "flip" }
      2 => { let i = r.us(0, b.len() - 1); let n = r.us(1, 8).min(b.len() - i); b.drain(i..i + n); "erase" }
      _ => { let n = r.us(0, 300); b = (0..n).map(|_| 32 + r.below(95) as u8).collect(); "foreign" }
    };
    return (String::from_utf8_lossy(&b).into_owned(), kind.into());
  }
  // fields
  let Some(mut v) = value_of(s, toml) else { return (s.into(), "none".into()) };
  let mut all = vec![];
  paths(&v, &mut vec![], &mut all);
  let p = all[r.us(0, all.len() - 1)].clone();
  let name = p.iter().find(|k| k.parse::<usize>().is_err()).cloned().unwrap_or_default();
  let kind = match r.below(7) {
    0 | 1 => {
      let (last, head) = p.split_last().unwrap();
      match at(&mut v, head) { Some(Value::Object(m)) => { m.remove(last); } Some(Value::Array(a)) => { let i = last.parse::<usize>().unwrap(); a.remove(i); } _ => {} }
      "removed"
    }
    2 => { let x = r.pick(&[-1i64, 256, 300, 65536, 70_000, 1 << 31, 1 << 40, i64::MIN]); if let Some(y) = at(&mut v, &p) { *y = x.into(); } "number" }
    3 => { let x = r.pick(&["", "x", "Cs421", "BT709", "true", "1", "BLOCK_64X63", "Psnr ", "psnr", "None"]); if let Some(y) = at(&mut v, &p) { *y = x.into(); } "string" }
    4 => { if let Some(y) = at(&mut v, &p) { *y = match r.below(4) { 0 => true.into(), 1 => 0.5.into(), 2 => Value::Array(vec![]), _ => Value::Object(Default::default()) }; } "retyped" }
    5 => { if let Value::Object(m) = &mut v { let k = r.pick(&["Width", "speed", "unknown", "keyint"]); m.insert(k.into(), 7.into()); } "extra" }
    _ => { if let Some(Value::Array(a)) = at(&mut v, &p) { a.push(3.into()); } else { let (last, head) = p.split_last().unwrap(); if let Some(Value::Object(m)) = at(&mut v, head) { if let Some(x) = m.remove(last) { m.insert(format!("{last}_"), x); } } } "renamed" }
  };
  let t = if toml { toml::to_string(&v).unwrap_or_default() } else { v.to_string() };
  (t, format!("{kind} {name}"))
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  if cx.idx % 16 == 7 { return cli(cx, &mut r); }
  for k in 0..6 {
    let mut c = case::gen(&mut r, &Opts { cost: 30_000.0, max_w: 64, max_h: 64, max_frames: 5, min_speed: 8, ..Default::default() });
    let odd = k != 0;
    if odd { wild(&mut r, &mut c); }
    if let Some(g) = &mut c.enc.film_grain_params { for s in g { s.end_time = s.end_time.min(i64::MAX as u64); } }
    let want = format!("{:?}", c.enc);
    for toml in [true, false] {
      let f = if toml { "toml" } else { "json" };
      let s = match to_text(&c.enc, toml) { Ok(s) => s, Err(m) => { cx.fail("write", format!("{f}: {m}; {}", brief(&c))); return } };
      let back = match from_text(&s, toml) { Err(p) => { cx.fail(&panic_sig(&p), format!("{f}: {p}: {s}")); return } Ok(Err(m)) => { cx.fail("read", format!("{f}: {m}: {s}")); return } Ok(Ok(b)) => b };
      let have = format!("{back:?}");
      if have != want {
        let i = have.bytes().zip(want.bytes()).position(|(a, b)| a != b).unwrap_or(have.len().min(want.len()));
        let a = i.saturating_sub(60);
        cx.fail("round-trip", format!("{f}: ...{} became ...{}; {}", &want[a..(i + 40).min(want.len())], &have[a..(i + 40).min(have.len())], brief(&c)));
        return;
      }
      if to_text(&back, toml).as_ref() != Ok(&s) { cx.fail("round-trip", format!("{f}: written differently the second time: {s}")); return }
      if toml && value_of(&s, true).and_then(|v| v.get("width").and_then(|w| w.as_u64())) != Some(c.enc.width as u64) { cx.fail("text", format!("width is not in the text: {s}")); return }
      cx.count("round_trips", 1);
      if !odd && toml {
        let mut c2 = c.clone();
        c2.enc = back;
        let (a, b) = (enc::encode(&c), enc::encode(&c2));
        match (a, b) {
          (Ok(a), Ok(b)) => if enc::stream_hash(&a) != enc::stream_hash(&b) { cx.fail("stream", format!("the restored configuration encodes differently; {}", brief(&c))); return } else { cx.count("streams_compared", 1) },
          (a, b) => { cx.fail("encode", format!("{:?} {:?}; {}", a.err(), b.err(), brief(&c))); return }
        }
      }
      for _ in 0..10 {
        let (t, kind) = damage(&mut r, &s, toml);
        match from_text(&t, toml) {
          Err(p) => { cx.fail(&panic_sig(&p), format!("{f} {kind}: {p}: {t}")); return }
          Ok(Err(_)) => { cx.count("refused", 1); cx.class(format!("{f} {kind} refused")); }
          Ok(Ok(b)) => {
            let Some(v) = value_of(&t, toml) else { cx.fail("malformed", format!("{f} {kind}: accepted text that is not {f}: {t}")); return };
            let o = if toml { to_text(&b, true).ok().and_then(|s| value_of(&s, true)) } else { serde_json::to_value(&b).ok() };
            let Some(o) = o else { continue };
            if let Err(m) = agrees(&v, &o, "") { cx.fail("altered", format!("{f} {kind}: {m}: {t}")); return }
            cx.count("accepted", 1);
            cx.class(format!("{f} {kind} accepted"));
          }
        }
      }
    }
    cx.class(format!("config {}", c.class()));
    cx.sample(format!("{} fields agree", want.matches(':').count()));
  }
}

/// save and load through the command line
fn cli(cx: &mut Cx, r: &mut Rng) {
  let Ok(exe) = std::env::var("VMON_CLI") else { cx.inconclusive("VMON_CLI is not set"); return };
  let dir = std::path::PathBuf::from(format!("/tmp/vmon-C21-{}-{}", std::process::id(), cx.idx));
  std::fs::create_dir_all(&dir).expect("scratch");
  let (w, h, n) = (r.us(16, 48), r.us(16, 48), r.us(1, 5));
  let mut y = format!("YUV4MPEG2 W{w} H{h} F{}:1 Ip A1:1 C420jpeg\n", r.us(10, 60)).into_bytes();
  for _ in 0..n { y.extend(b"FRAME\n"); let k = w * h + 2 * w.div_ceil(2) * h.div_ceil(2); y.extend(r.bytes(k)); }
  std::fs::write(dir.join("i.y4m"), &y).expect("input");
  let mut o: Vec<String> = vec!["--speed".into(), "10".into()];
  let mut add = |r: &mut Rng, p: u64, a: &[String]| if r.chance(1, p) { o.extend(a.iter().cloned()) };
  let s = |x: &str| x.to_string();
  let q = r.us(1, 255); add(r, 2, &[s("--quantizer"), q.to_string()]);
  add(r, 3, &[s("--low-latency")]);
  let k = r.us(1, 9); add(r, 3, &[s("--keyint"), k.to_string(), s("--min-keyint"), s("1")]);
  add(r, 2, &[s("--range"), s("full")]);
  add(r, 3, &[s("--tune"), s("psnr")]);
  add(r, 3, &[s("--photon-noise"), s("8")]);
  add(r, 4, &[s("--primaries"), s("bt709"), s("--matrix"), s("bt709")]);
  add(r, 4, &[s("--content-light"), s("1000,600")]);
  add(r, 4, &[s("--tiles"), s("4")]);
  let run = |args: &[String]| -> (Option<i32>, String) {
    let x = std::process::Command::new(&exe).args(args).current_dir(&dir).env("RUST_BACKTRACE", "0").stdin(std::process::Stdio::null()).output().expect("run");
    (x.status.code(), String::from_utf8_lossy(&x.stderr).into_owned())
  };
  let mut a = vec![s("i.y4m"), s("-o"), s("a.ivf"), s("-y")];
  a.extend(o.clone());
  a.extend([s("advanced"), s("--save-config"), s("c.toml")]);
  let (st, err) = run(&a);
  let mut fail = |cx: &mut Cx, k: &str, m: String| cx.fail(k, format!("{m}; options {o:?}"));
  'x: {
    if st != Some(0) { fail(cx, "cli-save", format!("saving: exit {st:?}: {err}")); break 'x }
    let text = std::fs::read_to_string(dir.join("c.toml")).unwrap_or_default();
    if let Ok(Err(m)) | Err(m) = from_text(&text, true) { fail(cx, "cli-save", format!("the saved file is not a configuration: {m}: {text}")); break 'x }
    let (st, err) = run(&[s("i.y4m"), s("-o"), s("b.ivf"), s("-y"), s("advanced"), s("--load-config"), s("c.toml")]);
    if st != Some(0) { fail(cx, "cli-load", format!("loading: exit {st:?}: {err}")); break 'x }
    let (x, y) = (std::fs::read(dir.join("a.ivf")).unwrap_or_default(), std::fs::read(dir.join("b.ivf")).unwrap_or_default());
    if x.len() < 40 || x != y { fail(cx, "cli-stream", format!("the loaded configuration gives another stream ({} and {} bytes)", x.len(), y.len())); break 'x }
    cx.count("cli_round_trips", 1);
    // damaged files end in an error
    for _ in 0..3 {
      let (t, kind) = damage(r, &text, true);
      if !matches!(from_text(&t, true), Ok(Err(_))) { continue }
      std::fs::write(dir.join("d.toml"), &t).expect("write");
      let (st, err) = run(&[s("i.y4m"), s("-o"), s("d.ivf"), s("-y"), s("advanced"), s("--load-config"), s("d.toml")]);
      if st == Some(0) || st.is_none() || st == Some(101) || err.is_empty() { fail(cx, "cli-damaged", format!("{kind}: exit {st:?}: {err}: {t}")); break 'x }
      cx.count("cli_refused", 1);
    }
    let (st, err) = run(&[s("i.y4m"), s("-o"), s("e.ivf"), s("-y"), s("advanced"), s("--load-config"), s("missing.toml")]);
    if st == Some(0) || st == Some(101) { fail(cx, "cli-damaged", format!("missing file: exit {st:?}: {err}")); }
  }
  let _ = std::fs::remove_dir_all(&dir);
  cx.class(format!("cli {}", o.len()));
}
