//! C14: the C interface against the native one, with ownership accounting and hostile arguments.
use super::c01::brief;
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::driver::{Cx, Spec};
use crate::enc::{self, Pkt};
use crate::{alloc, cdrv};
use rav1e::capi as c;
use rav1e::prelude::*;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub fn spec() -> Spec {
  Spec {
    id: "C14",
    run,
    secs: (50, 600),
    rule: "cases in turn: the same random call history through the native and the C interface (statuses, packets, pictures, opaque data compared); abandonment at a random point with destructor and heap-block accounting under a guard allocator; hostile key/value strings against the documented grammar; two-pass exchange and damaged pass-data buffers placed against guard pages; classes are (kind, shape)",
    assumptions: &["callers respect the documented ownership rules; enum arguments are valid enumerators"],
    ..BASE
  }
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  for t in &cdrv::DESTROYED { t.store(0, SeqCst); }
  match (cx.idx + cx.idx / 8) % 8 {
    0..=2 => history(cx, &mut r, false),
    3 | 4 => history(cx, &mut r, true),
    5 => strings(cx, &mut r),
    6 => passes(cx, &mut r),
    _ => damaged(cx, &mut r),
  }
}

fn gen(r: &mut crate::rng::Rng, frames: usize) -> EncCase {
  let o = Opts { cost: 60_000.0, max_w: 96, max_h: 80, max_frames: frames, min_speed: 7, tweak: false, ..Default::default() };
  let mut k = case::gen(r, &o);
  cdrv::expressible(&mut k);
  k.threads = r.pick(&[1, 1, 2]);
  k.t35.clear();
  if r.chance(1, 3) { let l = r.us(0, 20); k.t35.push((r.us(0, k.nframes - 1), vec![(r.below(255) as u8, 0, r.bytes(l))])); }
  k
}

fn name(s: &Result<(), EncoderStatus>) -> &'static str {
  match s {
    Ok(()) => "Success", Err(EncoderStatus::NeedMoreData) => "NeedMoreData", Err(EncoderStatus::EnoughData) => "EnoughData",
    Err(EncoderStatus::LimitReached) => "LimitReached", Err(EncoderStatus::Encoded) => "Encoded", Err(EncoderStatus::Failure) => "Failure",
    Err(EncoderStatus::NotReady) => "NotReady",
  }
}

/// a call history decided in advance by the generator alone
fn ops(r: &mut crate::rng::Rng, n: usize) -> Vec<char> {
  let mut v = vec![];
  let (mut sent, style) = (0, r.below(3));
  while sent < n {
    match style {
      0 => { v.push('s'); sent += 1; v.push('r'); if r.chance(1, 2) { v.push('r'); } }
      1 => if r.chance(1, 3) { v.push('s'); sent += 1 } else { v.push('r') },
      _ => { v.push('s'); sent += 1; if r.chance(1, 8) { v.push('r'); } }
    }
  }
  v.push('f');
  if r.chance(1, 3) { v.push('s'); }
  for _ in 0..4 * n + 12 { v.push('r'); }
  v
}

struct Seen { statuses: Vec<&'static str>, pk: Vec<Pkt> }

fn native<T: Pixel>(k: &EncCase, ops: &[char]) -> Result<Seen, String> {
  let mut ctx: Context<T> = k.config().new_context().map_err(|e| format!("rejected: {e}"))?;
  let mut s = Seen { statuses: vec![], pk: vec![] };
  let mut sent = 0;
  for o in ops {
    let st = match o {
      's' => {
        let mut f = ctx.new_frame();
        enc::fill(&mut f, &enc::source_pic(k, sent));
        let mut p = enc::params_of(k, sent);
        p.opaque = enc::opaque_of(k, sent).map(|_| Opaque::new(sent as u64 + 1));
        sent += 1;
        ctx.send_frame((Arc::new(f), p))
      }
      'f' => { ctx.flush(); Ok(()) }
      _ => ctx.receive_packet().map(|p| s.pk.push(enc::pkt(p, &k.enc))),
    };
    s.statuses.push(name(&st));
  }
  Ok(s)
}

fn through_c(cx: &mut Cx, k: &EncCase, ops: &[char], r: &mut crate::rng::Rng, stop: usize) -> Result<Seen, String> {
  let cfg = cdrv::config(k)?;
  let ctx = cfg.context().ok_or("rav1e_context_new returned null")?;
  let cfg = if r.chance(1, 2) { drop(cfg); None } else { Some(cfg) };
  let mut s = Seen { statuses: vec![], pk: vec![] };
  let mut sent = 0usize;
  let extra = r.us(0, 9);
  for o in ops.iter().take(stop) {
    let st = unsafe {
      match o {
        's' => {
          let f = cdrv::make_frame(&ctx, k, &enc::source_pic(k, sent), extra);
          let p = enc::params_of(k, sent);
          if matches!(p.frame_type_override, FrameTypeOverride::Key) { c::rav1e_frame_set_type(f, FrameTypeOverride::Key); }
          for t in p.t35_metadata.iter() {
            c::rav1e_frame_add_t35_metadata(f, t.country_code, t.country_code_extension_byte, t.data.as_ptr(), t.data.len());
          }
          if enc::opaque_of(k, sent).is_some() { c::rav1e_frame_set_opaque(f, (sent + 1) as *mut _, Some(cdrv::destroy)); }
          sent += 1;
          let st = c::rav1e_send_frame(ctx.0, f);
          c::rav1e_frame_unref(f);
          st
        }
        'f' => c::rav1e_send_frame(ctx.0, std::ptr::null_mut()),
        _ => {
          let mut p: *mut c::Packet = std::ptr::null_mut();
          let st = c::rav1e_receive_packet(ctx.0, &mut p);
          if p.is_null() != (st != c::EncoderStatus::Success) { cx.fail("packet-status", format!("status {st:?} with packet null={}", p.is_null())); }
          if !p.is_null() { s.pk.push(cdrv::take_packet(p, &k.enc, k.hbd)); }
          st
        }
      }
    };
    let last = unsafe { c::rav1e_last_status(ctx.0) };
    if last != st { cx.fail("last-status", format!("call returned {st:?}, last status {last:?}; {}", brief(k))); }
    if cdrv::status_text(st).is_empty() { cx.fail("status-text", format!("no text for {st:?}")); }
    s.statuses.push(cdrv::status(st));
    if r.chance(1, 40) { let b = cdrv::av1c(&ctx); if b.len() != 4 { cx.fail("av1c", format!("{} bytes", b.len())); } }
  }
  if r.chance(1, 3) && stop < ops.len() {
    // a frame that is never sent keeps its opaque until it is released
    unsafe {
      let f = c::rav1e_frame_new(ctx.0);
      c::rav1e_frame_set_opaque(f, 500 as *mut _, Some(cdrv::destroy));
      c::rav1e_frame_unref(f);
    }
    if cdrv::DESTROYED[499].load(SeqCst) != 1 { cx.fail("opaque", "opaque of an unsent frame not destroyed with it".to_string()); }
  }
  drop(ctx);
  drop(cfg);
  // conservation of user data
  for t in (1..=sent).filter(|t| enc::opaque_of(k, t - 1).is_some()) {
    let returned = s.pk.iter().filter(|p| p.opaque == Some(t as u64)).count() as u64;
    let destroyed = cdrv::DESTROYED[t - 1].load(SeqCst);
    if returned + destroyed != 1 {
      cx.fail("opaque", format!("user data {t}: handed back {returned} times, destroyed {destroyed} times after {} calls; {}", stop.min(ops.len()), brief(k)));
      break;
    }
    cx.count("user_data_tracked", 1);
  }
  Ok(s)
}

fn history(cx: &mut Cx, r: &mut crate::rng::Rng, abandon: bool) {
  let k = gen(r, 14);
  if cx.verbose { eprintln!("{}", brief(&k)); }
  let ops = ops(r, k.nframes);
  let stop = if abandon { r.us(0, ops.len()) } else { ops.len() };
  if abandon {
    let mode = 1 + (cx.idx / 64 % 2) as u8;
    alloc::set_guard(mode, 64);
    let r0 = r.clone();
    let mut live: Vec<i64> = vec![];
    // round 0 warms up lazily created tables; thread-local garbage of the
    // scheduler comes and goes, a leak grows with every round
    let (mut rounds, mut round) = (4, 0);
    while round < rounds {
      for t in &cdrv::DESTROYED { t.store(0, SeqCst); }
      *r = r0.clone();
      match through_c(cx, &k, &ops, r, stop) {
        Err(m) => { cx.fail("capi", format!("{m}; {}", brief(&k))); break }
        Ok(_) => {}
      }
      if !cx.fails.is_empty() { break; }
      // pool threads go away on their own
      let mut n = alloc::LIVE_BLOCKS.load(SeqCst);
      for w in 0..150 {
        std::thread::sleep(std::time::Duration::from_millis(2));
        n = alloc::LIVE_BLOCKS.load(SeqCst);
        if if round < 2 { w > 8 } else { n <= live[round - 1] } { break; }
      }
      live.push(n);
      round += 1;
      if round == 4 && live[1] < live[2] && live[2] < live[3] { rounds = 24; cx.count("leak_suspects", 1); }
    }
    alloc::set_guard(0, 0);
    if live.len() == 24 && live[23] - live[3] >= 20 {
      cx.fail("leak", format!("live heap blocks grow with every identical encode: {live:?} (abandoned after {stop} calls); {}", brief(&k)));
    }
    cx.count("abandoned_encodes", 4);
    cx.class(format!("abandon {} {}", stop * 8 / ops.len().max(1), k.enc.low_latency));
    cx.sample(format!("abandoned after {stop} of {} calls, live blocks {live:?}", ops.len()));
    return;
  }
  let a = if k.hbd { native::<u16>(&k, &ops) } else { native::<u8>(&k, &ops) };
  let a = match a { Ok(a) => a, Err(m) => { cx.fail("encode", format!("{m}; {}", brief(&k))); return } };
  let b = match through_c(cx, &k, &ops, r, stop) { Ok(b) => b, Err(m) => { cx.fail("capi", format!("{m}; {}", brief(&k))); return } };
  if let Some(i) = (0..ops.len()).find(|&i| a.statuses[i] != b.statuses[i]) {
    cx.fail("status", format!("call {i} ({}): native {}, C {}; {}", ops[i], a.statuses[i], b.statuses[i], brief(&k)));
    return;
  }
  cx.count("statuses_compared", ops.len() as u64);
  for (x, y) in a.pk.iter().zip(&b.pk) {
    let mut m = None;
    if x.data != y.data { m = Some("bytes".to_string()) }
    else if x.no != y.no || x.ty != y.ty { m = Some(format!("number/type {}/{} {:?}/{:?}", x.no, y.no, x.ty, y.ty)) }
    else if x.opaque != y.opaque { m = Some(format!("opaque {:?} {:?}", x.opaque, y.opaque)) }
    else if x.rec != y.rec { m = Some("reconstruction".into()) }
    else if x.source != y.source { m = Some("source".into()) }
    if let Some(m) = m { cx.fail("packet", format!("packet {} differs between the interfaces: {m}; {}", x.no, brief(&k))); return }
  }
  cx.count("packets_compared", a.pk.len() as u64);
  cx.class(k.class());
  cx.sample(format!("{}: {} calls, {} packets equal", k.class(), ops.len(), a.pk.len()));
}

const KEYS: [&str; 22] = ["width", "height", "speed", "threads", "tiles", "tile_rows", "tile_cols", "tune", "quantizer", "min_quantizer", "bitrate",
  "key_frame_interval", "min_key_frame_interval", "switch_frame_interval", "reservoir_frame_delay", "rdo_lookahead_frames", "low_latency",
  "enable_timing_info", "still_picture", "no_scene_detection", "level", "nonsense"];

/// what the documentation says about a value: Some(true) must be accepted, Some(false) refused, None open
fn grammar(k: &str, v: &str) -> Option<bool> {
  let digits = !v.is_empty() && v.len() < 19 && v.bytes().all(|b| b.is_ascii_digit());
  let num = v.parse::<i128>().ok();
  let uint = |max: i128| -> Option<bool> {
    if digits && num.unwrap() <= max { Some(true) } else if num.map_or(true, |n| n < 0 || n > max) { Some(false) } else { None }
  };
  match k {
    "width" | "height" | "threads" | "tiles" | "tile_rows" | "tile_cols" | "quantizer" | "rdo_lookahead_frames" => uint(usize::MAX as i128),
    "key_frame_interval" | "min_key_frame_interval" | "switch_frame_interval" => uint(u64::MAX as i128),
    "speed" | "min_quantizer" => uint(255),
    "bitrate" | "reservoir_frame_delay" => match num {
      Some(n) if digits && n <= i32::MAX as i128 => Some(true),
      Some(n) if n > i32::MAX as i128 || n < i32::MIN as i128 => Some(false),
      None => Some(false),
      _ => None,
    },
    "tune" => { let l = v.to_ascii_lowercase(); if v == "psnr" || v == "psychovisual" { Some(true) } else if l == "psnr" || l == "psychovisual" { None } else { Some(false) } }
    "low_latency" | "enable_timing_info" | "still_picture" | "no_scene_detection" => Some(v == "true" || v == "false"),
    "level" => {
      if v == "auto" || v == "unconstrained" { return Some(true); }
      let b = v.as_bytes();
      if b.len() == 3 && b[1] == b'.' && b[0].is_ascii_digit() && b[2].is_ascii_digit() {
        return Some((2..=7).contains(&(b[0] - b'0')) && b[2] - b'0' <= 3);
      }
      if !v.bytes().any(|x| x.is_ascii_digit()) { Some(false) } else { None }
    }
    _ => Some(false),
  }
}

fn strings(cx: &mut Cx, r: &mut crate::rng::Rng) {
  let cfg = cdrv::Cfg::new();
  let mut acc = 0;
  for _ in 0..300 {
    let k = if r.chance(1, 30) { String::from_utf8(r.bytes(4).iter().map(|b| b & 0x5f | 0x20).collect()).unwrap_or_default() } else { r.pick(&KEYS).to_string() };
    let v = match r.below(9) {
      0 => r.pick(&["", " ", "true", "false", "TRUE", "1", "0", "auto", "unconstrained", "psnr", "psychovisual", "Psnr", "nan", "-1", "+5", "0x10", "1e3", "-0"]).to_string(),
      1 | 2 => format!("{}.{}", r.below(12), r.below(6)),
      3 => format!("{}.{}", r.pick(&["-1", "255", "256", "999999999999", "", "2", " 5"]), r.pick(&["-1", "255", "256", "", "3", " 1", "1x"])),
      4 => r.u64().to_string(),
      5 => format!("{}", r.range(0, 300)),
      6 => format!("-{}", r.u64() >> r.below(63)),
      7 => format!("{}{}", r.u64(), r.u64()),
      _ => r.below(100_000).to_string(),
    };
    let x = if cx.verbose { eprintln!("{k:?} {v:?}"); cfg.parse(&k, &v) } else { cfg.parse(&k, &v) };
    cx.count("strings_parsed", 1);
    if x == 0 { acc += 1; cx.class(format!("key {k}")); }
    if x != 0 && x != -1 { cx.fail("string-result", format!("rav1e_config_parse({k:?}, {v:?}) = {x}")); }
    if let Some(want) = grammar(&k, &v) {
      if want != (x == 0) { cx.fail("grammar", format!("rav1e_config_parse({k:?}, {v:?}) = {x}, documented values say {}", if want { 0 } else { -1 })); return }
    }
    if r.chance(1, 10) {
      let n = r.pick(&[0, 1, 2, -1, i32::MAX, i32::MIN, 64, 255, 256]);
      let x = cfg.parse_int(&k, n);
      let want = match k.as_str() { "low_latency" | "enable_timing_info" | "still_picture" | "no_scene_detection" => Some(true), _ => grammar(&k, &n.to_string()) };
      if let Some(w) = want { if w != (x == 0) && k != "level" { cx.fail("grammar", format!("rav1e_config_parse_int({k:?}, {n}) = {x}, documented values say {}", if w { 0 } else { -1 })); return } }
    }
    if r.chance(1, 25) {
      let mut b = r.bytes(6);
      b.retain(|x| *x != 0);
      cfg.parse_raw(k.as_bytes(), &b);
      cfg.parse_raw(&b, b"1");
    }
  }
  // whatever was accepted, creating the encoder answers; a refused string leaves the rest intact
  let ok = cfg.parse("width", "64") | cfg.parse("height", "64") | cfg.parse("threads", "1");
  if ok != 0 { cx.fail("grammar", "ordinary width, height or threads refused".to_string()); }
  cx.count("strings_accepted", acc);
  cx.sample(format!("300 key/value pairs, {acc} accepted"));
}

/// Runs a first pass through the C interface; returns (summary, frame records) with their framing.
fn first_pass(cx: &mut Cx, k: &EncCase) -> Option<(Vec<u8>, Vec<Vec<u8>>, Vec<Pkt>)> {
  let cfg = match cdrv::config(k) { Ok(c) => c, Err(m) => { cx.fail("capi", m); return None } };
  let (mut summary, mut frames, mut pk) = (None, vec![], vec![]);
  unsafe {
    c::rav1e_config_set_emit_data(cfg.0, 1);
    let Some(ctx) = cfg.context() else { cx.fail("capi", format!("first pass context refused; {}", brief(k))); return None };
    let want = c::rav1e_rc_summary_size(ctx.0);
    let mut sent = 0;
    for n in 0.. {
      if n > 40 * (k.nframes + 60) { cx.fail("no-progress", brief(k)); return None }
      let mut p: *mut c::Packet = std::ptr::null_mut();
      let st = c::rav1e_receive_packet(ctx.0, &mut p);
      if !p.is_null() { pk.push(cdrv::take_packet(p, &k.enc, k.hbd)); }
      use c::EncoderStatus::*;
      if matches!(st, Success | Encoded | LimitReached) {
        let mut d: *mut c::Data = std::ptr::null_mut();
        match c::rav1e_rc_receive_pass_data(ctx.0, &mut d) {
          c::RcDataKind::Summary => summary = Some(cdrv::data_bytes(d)),
          c::RcDataKind::Frame => frames.push(cdrv::data_bytes(d)),
          c::RcDataKind::Empty => {}
        }
      }
      match st {
        NeedMoreData => {
          if sent < k.nframes {
            let f = cdrv::make_frame(&ctx, k, &enc::source_pic(k, sent), 0);
            c::rav1e_send_frame(ctx.0, f);
            c::rav1e_frame_unref(f);
            sent += 1;
          } else { c::rav1e_send_frame(ctx.0, std::ptr::null_mut()); }
        }
        LimitReached => break,
        Success | Encoded => {}
        _ => { cx.fail("status", format!("first pass: {st:?}; {}", brief(k))); return None }
      }
    }
    let Some(s) = &summary else { cx.fail("no-summary", format!("first pass ended without a summary; {}", brief(k))); return None };
    if s.len() != want { cx.fail("summary-size", format!("summary of {} bytes, {} announced", s.len(), want)); }
  }
  Some((summary?, frames, pk))
}

fn two_pass_case(r: &mut crate::rng::Rng) -> EncCase {
  let mut k = gen(r, 12);
  k.enc.still_picture = false;
  k.enc.width = k.enc.width.max(16);
  k.enc.height = k.enc.height.max(16);
  if k.enc.bitrate == 0 { k.enc.bitrate = r.pick(&[5000, 50_000, 500_000]); }
  k.enc.quantizer = 255;
  k.enc.min_quantizer = 0;
  k.enc.enable_timing_info = false;
  k.force_key.clear();
  k.t35.clear();
  k
}

fn second_pass(cx: &mut Cx, k: &EncCase, summary: &[u8], frames: &[u8]) -> Option<Vec<Pkt>> {
  let cfg = match cdrv::config(k) { Ok(c) => c, Err(m) => { cx.fail("capi", m); return None } };
  let mut pk = vec![];
  unsafe {
    let mut d = summary.as_ptr();
    let mut l = summary.len();
    let x = c::rav1e_config_set_rc_summary(cfg.0, &mut d, &mut l);
    if x != 0 || l != 0 { cx.fail("summary", format!("own summary: result {x}, {l} bytes left; {}", brief(k))); return None }
    let Some(ctx) = cfg.context() else { cx.fail("capi", format!("second pass context refused; {}", brief(k))); return None };
    let mut d = frames.as_ptr();
    let mut l = frames.len();
    let mut sent = 0;
    for n in 0.. {
      if n > 40 * (k.nframes + 60) { cx.fail("no-progress", format!("second pass; {}", brief(k))); return None }
      while c::rav1e_rc_second_pass_data_required(ctx.0) > 0 {
        let x = c::rav1e_rc_send_pass_data(ctx.0, &mut d, &mut l);
        if x != 0 {
          // data can run out once every frame was announced
          if sent >= k.nframes && l == 0 { break; }
          cx.fail("pass-data", format!("own pass data: result {x} with {l} bytes left, {} frames sent; {}", sent, brief(k)));
          return None;
        }
      }
      let mut p: *mut c::Packet = std::ptr::null_mut();
      let st = c::rav1e_receive_packet(ctx.0, &mut p);
      if !p.is_null() { pk.push(cdrv::take_packet(p, &k.enc, k.hbd)); }
      use c::EncoderStatus::*;
      match st {
        NeedMoreData => {
          if sent < k.nframes {
            let f = cdrv::make_frame(&ctx, k, &enc::source_pic(k, sent), 0);
            c::rav1e_send_frame(ctx.0, f);
            c::rav1e_frame_unref(f);
            sent += 1;
          } else { c::rav1e_send_frame(ctx.0, std::ptr::null_mut()); }
        }
        LimitReached => break,
        Success | Encoded => {}
        _ => { cx.fail("status", format!("second pass: {st:?}; {}", brief(k))); return None }
      }
    }
  }
  Some(pk)
}

fn passes(cx: &mut Cx, r: &mut crate::rng::Rng) {
  let k = two_pass_case(r);
  if cx.verbose { eprintln!("{}", brief(&k)); }
  let Some((s, f, p1)) = first_pass(cx, &k) else { return };
  if p1.len() != k.nframes { cx.fail("lost", format!("first pass gave {} packets for {} frames; {}", p1.len(), k.nframes, brief(&k))); return }
  let all: Vec<u8> = f.concat();
  let Some(p2) = second_pass(cx, &k, &s, &all) else { return };
  if p2.len() != k.nframes { cx.fail("lost", format!("second pass gave {} packets for {} frames; {}", p2.len(), k.nframes, brief(&k))); return }
  cx.count("two_pass_runs", 1);
  cx.count("pass_records", f.len() as u64);
  cx.class(format!("passes {} ll{}", k.nframes, k.enc.low_latency));
  cx.sample(format!("two passes: {} frames, {} records", k.nframes, f.len()));
}

/// Buffers of exactly their length in front of an inaccessible page.
fn damaged(cx: &mut Cx, r: &mut crate::rng::Rng) {
  let k = two_pass_case(r);
  let Some((s, f, _)) = first_pass(cx, &k) else { return };
  let cfg = match cdrv::config(&k) { Ok(c) => c, Err(m) => { cx.fail("capi", m); return } };
  let dmg = |r: &mut crate::rng::Rng, v: &[u8]| -> Vec<u8> {
    let mut b = v.to_vec();
    match r.below(6) {
      0 => { let n = r.us(0, b.len()); b.truncate(n); }
      1 => { if b.len() >= 8 { let l = r.pick(&[0u64, 1, u64::MAX, u64::MAX - 7, u64::MAX - 8, i64::MAX as u64, 1 << 31, 1 << 32, (1 << 32) - 8, b.len() as u64, b.len() as u64 - 7]); b[..8].copy_from_slice(&l.to_be_bytes()); } }
      2 => { for _ in 0..r.us(1, 6) { if !b.is_empty() { let i = r.us(0, b.len() - 1); b[i] = r.u64() as u8; } } }
      3 => { let n = r.us(0, 40); b = r.bytes(n); }
      4 => { let n = r.us(1, 30); let x = r.bytes(n); b.extend(x); }
      _ => {}
    }
    b
  };
  alloc::set_guard(1, 1);
  let mut seen = [0u64; 3];
  for i in 0..60 {
    let good = if i % 2 == 0 { s.clone() } else { r.pick(&f.iter().collect::<Vec<_>>()).clone() };
    let b = dmg(r, &good).into_boxed_slice();
    let (mut d, mut l) = (b.as_ptr(), b.len());
    let x = if i % 2 == 0 {
      unsafe { c::rav1e_config_set_rc_summary(cfg.0, &mut d, &mut l) }
    } else {
      let c2 = cdrv::config(&k).unwrap();
      let (mut sd, mut sl) = (s.as_ptr(), s.len());
      unsafe {
        c::rav1e_config_set_rc_summary(c2.0, &mut sd, &mut sl);
        let Some(ctx) = c2.context() else { cx.fail("capi", "second pass context refused".to_string()); break };
        let x = c::rav1e_rc_send_pass_data(ctx.0, &mut d, &mut l);
        let st = c::rav1e_last_status(ctx.0);
        if l != b.len() && (x == 0) != (st == c::EncoderStatus::Success) {
          alloc::set_guard(0, 0);
          cx.fail("last-status", format!("rav1e_rc_send_pass_data returned {x}, last status {st:?}"));
          return;
        }
        x
      }
    };
    let used = b.len() - l;
    let full = if b.len() >= 8 { u64::from_be_bytes(b[..8].try_into().unwrap()) as u128 + 8 } else { 8 };
    let what = if i % 2 == 0 { "rav1e_config_set_rc_summary" } else { "rav1e_rc_send_pass_data" };
    let fits = b.len() >= 8 && full <= b.len() as u128;
    let bad = if x > 0 { fits || used != 0 || d != b.as_ptr() || (full <= i32::MAX as u128 && x as u128 != full) }
      else if x == 0 { !fits || used as u128 != full || d as usize != b.as_ptr() as usize + used }
      else { false };
    if bad {
      alloc::set_guard(0, 0);
      cx.fail("framing", format!("{what} with {} bytes announcing {} in all: result {x}, {used} bytes taken", b.len(), full));
      return;
    }
    seen[if x > 0 { 0 } else if x == 0 { 1 } else { 2 }] += 1;
  }
  alloc::set_guard(0, 0);
  cx.count("damaged_buffers", 60);
  cx.class(format!("damaged need{} ok{} err{}", seen[0] / 10, seen[1] / 10, seen[2] / 10));
  cx.sample(format!("60 damaged buffers: {} asked for more, {} accepted, {} refused", seen[0], seen[1], seen[2]));
}
