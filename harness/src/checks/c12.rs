//! C12: pass data of multi-pass encodes: complete, sufficient, and harmless when damaged.
use super::c01::{brief, check_stream};
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::driver::{Cx, Spec};
use crate::enc::{self, Pkt};
use crate::obu;
use crate::rng::Rng;
use rav1e::prelude::*;
use std::sync::Arc;

pub fn spec() -> Spec {
  Spec {
    id: "C12",
    run,
    secs: (50, 900),
    rule: "a case runs a first pass, audits its records and summary against the coded frames found in the stream, and feeds them (honestly through both interfaces, or damaged: flipped bits, extreme fields, truncated, dropped, repeated, reordered, foreign) to later passes whose packets are decoded; classes are (mode, interface, damage, reservoir, outcome)",
    assumptions: &["pass data exists only with a target bitrate (constant quality runs ignore it)"],
    ..BASE
  }
}

const HDR: usize = 68;
const REC: usize = 8;

#[derive(Clone, Debug, Default)]
struct Summary { ntus: i64, nframes: [i64; 5], exp: [u8; 4], scale: [i64; 4] }
fn le(d: &[u8]) -> i64 { d.iter().rev().fold(0u64, |a, b| a << 8 | *b as u64) as i64 }
fn parse(d: &[u8]) -> Result<Summary, String> {
  if d.len() != HDR { return Err(format!("summary of {} bytes", d.len())); }
  if le(&d[0..4]) != 0x50324156 { return Err(format!("magic {:x}", le(&d[0..4]))); }
  let mut s = Summary { ntus: le(&d[8..12]), ..Default::default() };
  for i in 0..5 { s.nframes[i] = le(&d[12 + 4 * i..16 + 4 * i]); }
  for i in 0..4 { s.exp[i] = d[32 + i]; s.scale[i] = le(&d[36 + 8 * i..44 + 8 * i]); }
  Ok(s)
}

#[derive(Clone, Debug)]
enum Feed { None, Api(Vec<u8>, Vec<Vec<u8>>), Bytes(Vec<u8>) }

#[derive(Default)]
struct Out { pk: Vec<Pkt>, data: Vec<RcData>, left: usize, starved: bool, refused: Option<String>, steps: usize }

/// Drives one pass. `emit`: 0 nothing, 1 rc_receive_pass_data, 2 twopass_out. Stops at the
/// first refusal.
fn pass<T: Pixel>(c: &EncCase, feed: &Feed, emit: u8, r: &mut Rng, late: bool) -> Result<Out, String> {
  let mut cfg = c.config();
  let mut rc = RateControlConfig::new();
  let mut o = Out::default();
  if let Feed::Api(s, _) = feed {
    rc = match RateControlConfig::from_summary_slice(s) { Ok(x) => x, Err(e) => { o.refused = Some(format!("summary: {e}")); return Ok(o) } };
  }
  if emit > 0 { rc = rc.with_emit_data(true); }
  if emit > 0 || matches!(feed, Feed::Api(..)) { cfg = cfg.with_rate_control(rc); }
  let mut ctx: Context<T> = match cfg.new_context() { Ok(x) => x, Err(e) => { o.refused = Some(format!("configuration: {e}")); return Ok(o) } };
  if ctx.rc_summary_size() != HDR { return Err(format!("summary size {}", ctx.rc_summary_size())); }
  let (mut sent, mut flushed, mut pos, mut at) = (0, false, 0, 0);
  let mut ended = false;
  for n in 0.. {
    if n > 60 * (c.nframes + 70) { return Err("no progress".into()); }
    o.steps = n;
    match feed {
      Feed::Api(_, recs) => {
        let mut guard = 0;
        while ctx.rc_second_pass_data_required() > 0 {
          guard += 1;
          if guard > 100_000 { return Err("never satisfied with pass data".into()); }
          if at < recs.len() {
            if let Err(e) = ctx.rc_send_pass_data(&recs[at]) { o.refused = Some(format!("record {at}: {e:?}")); return Ok(o) }
            at += 1;
          } else { if flushed && !ended { o.starved = true; } break }
        }
      }
      Feed::Bytes(b) => {
        let mut guard = 0;
        loop {
          guard += 1;
          if guard > 100_000 { return Err("never satisfied with pass data".into()); }
          let need = ctx.twopass_bytes_needed();
          if need == 0 { break; }
          let k = match r.below(4) { 0 => need, 1 => r.us(1, 9), 2 => need + r.us(0, 30), _ => r.us(1, need.min(1 << 20)) };
          let end = (pos + k).min(b.len());
          if pos == end { if flushed && !ended { o.starved = true; } break }
          match ctx.twopass_in(&b[pos..end]) {
            Ok(k) => { if k > end - pos { return Err(format!("consumed {k} of {} bytes", end - pos)); } pos += k; if k == 0 { break } }
            Err(e) => { o.refused = Some(format!("bytes at {pos}: {e:?}")); return Ok(o) }
          }
        }
      }
      Feed::None => {}
    }
    if emit == 2 { if let Some(d) = ctx.twopass_out() { o.data.push(if d.len() == REC { RcData::Frame(d.into()) } else { RcData::Summary(d.into()) }); } }
    if ended { break; }
    let st = ctx.receive_packet();
    ended = matches!(st, Err(EncoderStatus::LimitReached));
    if emit == 1 && (st.is_ok() || ended || matches!(st, Err(EncoderStatus::Encoded))) {
      if let Some(d) = ctx.rc_receive_pass_data() { o.data.push(d); }
    }
    match st {
      Ok(p) => o.pk.push(enc::pkt(p, &c.enc)),
      Err(EncoderStatus::Encoded) => {}
      Err(EncoderStatus::NeedMoreData) => {
        if sent < c.nframes {
          let mut f = ctx.new_frame();
          enc::fill(&mut f, &enc::source_pic(c, sent));
          ctx.send_frame((Arc::new(f), enc::params_of(c, sent))).map_err(|e| format!("send {e:?}"))?;
          sent += 1;
          if sent == c.nframes && !late { ctx.flush(); flushed = true; }
        } else if !flushed { ctx.flush(); flushed = true; } else { return Err("NeedMoreData after flush".into()); }
      }
      Err(EncoderStatus::LimitReached) => if emit != 2 { break },
      Err(EncoderStatus::NotReady) => { o.refused = Some("not ready".into()); break }
      Err(EncoderStatus::Failure) => { o.refused = Some("failure".into()); break }
      Err(e) => return Err(format!("{e:?}")),
    }
  }
  o.left = match feed { Feed::Api(_, x) => x.len() - at, Feed::Bytes(b) => (b.len() - pos).div_ceil(REC), Feed::None => 0 };
  Ok(o)
}
fn go(c: &EncCase, feed: &Feed, emit: u8, r: &mut Rng, late: bool) -> Result<Out, String> {
  if c.hbd { pass::<u16>(c, feed, emit, r, late) } else { pass::<u8>(c, feed, emit, r, late) }
}

fn gen(r: &mut Rng, max_frames: usize) -> EncCase {
  let o = Opts { cost: 60_000.0, max_w: 80, max_h: 80, max_frames, min_speed: 7, still: false, bitrate: false, grain: false, ..Default::default() };
  let mut c = case::gen(r, &o);
  c.threads = 1;
  rate(r, &mut c);
  c
}
fn rate(r: &mut Rng, c: &mut EncCase) {
  c.enc.bitrate = r.pick(&[1000, 8000, 30_000, 100_000, 500_000, 4_000_000, 100_000_000]);
  c.enc.quantizer = if r.chance(2, 3) { 255 } else { r.us(60, 255) };
  c.enc.min_quantizer = if r.chance(2, 3) { 0 } else { r.below(60) as u8 };
  c.enc.reservoir_frame_delay = if r.chance(1, 2) { Some(r.range(12, 40) as i32) } else { None };
}

/// splits emitted data into summary and records
fn audit(cx: &mut Cx, c: &EncCase, o: &Out, what: &str) -> Option<(Vec<u8>, Vec<Vec<u8>>)> {
  let mut recs = vec![];
  let mut sum: Option<Vec<u8>> = None;
  for d in &o.data {
    match d {
      RcData::Frame(f) => {
        if sum.is_some() { cx.fail("order", format!("{what}: record after the summary; {}", brief(c))); return None }
        if f.len() != REC { cx.fail("record", format!("{what}: record of {} bytes; {}", f.len(), brief(c))); return None }
        recs.push(f.to_vec());
      }
      RcData::Summary(s) => {
        if sum.is_some() { cx.fail("summary", format!("{what}: two summaries; {}", brief(c))); return None }
        sum = Some(s.to_vec());
      }
    }
  }
  let Some(sum) = sum else { cx.fail("summary", format!("{what}: no summary; {}", brief(c))); return None };
  let s = match parse(&sum) { Ok(s) => s, Err(m) => { cx.fail("summary", format!("{what}: {m}; {}", brief(c))); return None } };
  // what was really coded
  let (mut coded, mut shown_existing) = (0i64, 0i64);
  for p in &o.pk {
    match obu::split(&p.data) {
      Ok(v) => for x in v { if x.ty == obu::OBU_FRAME { coded += 1 } else if x.ty == obu::OBU_FRAME_HEADER { shown_existing += 1 } },
      Err(m) => { cx.fail("stream", m); return None }
    }
  }
  let keys = o.pk.iter().filter(|p| p.ty == FrameType::KEY).count() as i64;
  let ty = |x: &Vec<u8>| le(&x[0..4]) & 0x7fff_ffff;
  let mut n = [0i64; 5];
  for x in &recs { if ty(x) > 4 { cx.fail("record", format!("{what}: frame kind {}; {}", ty(x), brief(c))); return None } n[ty(x) as usize] += 1; }
  let shown = recs.iter().filter(|x| x[3] & 0x80 != 0).count() as i64;
  let total = coded + shown_existing;
  if recs.len() as i64 != total { cx.fail("record-count", format!("{what}: {} records for {coded} coded and {shown_existing} repeated frames; {}", recs.len(), brief(c))); return None }
  if n != s.nframes || s.nframes[4] != shown_existing { cx.fail("summary-count", format!("{what}: summary counts {:?}, records {n:?}, stream {coded}+{shown_existing}; {}", s.nframes, brief(c))); return None }
  if s.ntus != o.pk.len() as i64 || shown != s.ntus { cx.fail("summary-tus", format!("{what}: summary says {} shown frames, records {shown}, packets {}; {}", s.ntus, o.pk.len(), brief(c))); return None }
  if n[0] < keys { cx.fail("summary-count", format!("{what}: {keys} key packets but {} intra records; {}", n[0], brief(c))); return None }
  // the scale sums are those of the records (2^x, 24 fractional bits)
  for t in 0..4 {
    let sum: f64 = recs.iter().filter(|x| ty(x) == t as i64).map(|x| (le(&x[4..8]) as i32 as f64 / (1u64 << 24) as f64).exp2() * (1u64 << 24) as f64).map(|v| v.min((1u64 << 47) as f64)).sum();
    let got = s.scale[t] as f64;
    if (sum - got).abs() > 0.01 * sum + 64.0 * n[t] as f64 + 64.0 { cx.fail("summary-scale", format!("{what}: scale sum {got} of kind {t}, records give {sum}; {}", brief(c))); return None }
    if s.exp[t] == 0 { cx.fail("summary", format!("{what}: exponent 0; {}", brief(c))); return None }
  }
  cx.count("records_audited", recs.len() as u64);
  cx.count("summaries_audited", 1);
  Some((sum, recs))
}

fn complete(cx: &mut Cx, c: &EncCase, o: &Out, what: &str) -> bool {
  if let Some(m) = &o.refused { cx.fail("refused", format!("{what}: {m}; {}", brief(c))); return false }
  if o.pk.len() != c.nframes { cx.fail("incomplete", format!("{what}: {} packets for {} frames; {}", o.pk.len(), c.nframes, brief(c))); return false }
  if o.starved { cx.fail("starved", format!("{what}: asked for more pass data than the first pass produced; {}", brief(c))); return false }
  if o.left > 0 { cx.fail("unused", format!("{what}: {} records were never asked for; {}", o.left, brief(c))); return false }
  true
}

fn honest(cx: &mut Cx, r: &mut Rng) {
  let mut c = gen(r, 30);
  if cx.verbose { eprintln!("{}", brief(&c)); }
  // (when the flush comes may change what the look-ahead sees, so all runs agree on it)
  let late = r.chance(1, 3);
  let mut run = |cx: &mut Cx, c: &EncCase, f: &Feed, emit: u8, what: &str| -> Option<Out> {
    match go(c, f, emit, r, late) { Ok(o) => Some(o), Err(m) => { cx.fail("encode", format!("{what}: {m}; {}", brief(c))); None } }
  };
  let first = if cx.idx / 2 % 2 == 0 { 1 } else { 2 };
  let Some(a) = run(cx, &c, &Feed::None, first, "first pass") else { return };
  if !complete(cx, &c, &a, "first pass") { return }
  let Some((sum, recs)) = audit(cx, &c, &a, "first pass") else { return };
  let mut all = sum.clone();
  for x in &recs { all.extend(x); }
  // later passes may change the rate settings, not the structure
  let mut r2 = Rng::new(cx.seed, cx.idx ^ 0x5555);
  if r2.chance(2, 3) { rate(&mut r2, &mut c); }
  if r2.chance(1, 4) { c.threads = 2; }
  let Some(b) = run(cx, &c, &Feed::Api(sum.clone(), recs.clone()), 1, "second pass") else { return };
  if !complete(cx, &c, &b, "second pass") { return }
  check_stream(cx, &c, &b.pk, false);
  let Some((s2, r3)) = audit(cx, &c, &b, "second pass") else { return };
  let Some(d) = run(cx, &c, &Feed::Bytes(all), 0, "second pass (bytes)") else { return };
  if !complete(cx, &c, &d, "second pass (bytes)") { return }
  if enc::stream_hash(&b.pk) != enc::stream_hash(&d.pk) { cx.fail("interfaces", format!("second pass: packet and byte interfaces give different streams; {}", brief(&c))); return }
  let Some(e) = run(cx, &c, &Feed::Api(s2, r3), 0, "third pass") else { return };
  if !complete(cx, &c, &e, "third pass") { return }
  check_stream(cx, &c, &e.pk, false);
  cx.count("passes", 4);
  cx.class(format!("honest {first} {} {} kf{} ll{}", c.enc.reservoir_frame_delay.is_some(), c.enc.bitrate, c.enc.max_key_frame_interval.min(8), c.enc.low_latency));
  cx.sample(format!("{}: {} records, {} passes", c.class(), recs.len(), 4));
}

fn extreme(r: &mut Rng, bytes: usize) -> Vec<u8> {
  let v: u64 = match r.below(10) {
    0 => 0,
    1 => u64::MAX,
    2 => 1u64 << (8 * bytes - 1),
    3 => (1u64 << (8 * bytes - 1)) - 1,
    4 => 1,
    5 => r.u64(),
    6 => 1u64 << r.below(8 * bytes as u64),
    7 => (1u64 << r.below(8 * bytes as u64)).wrapping_neg(),
    8 => r.below(300),
    _ => r.u64() >> r.below(64),
  };
  v.to_le_bytes()[..bytes].to_vec()
}

fn damage(r: &mut Rng, sum: &mut Vec<u8>, recs: &mut Vec<Vec<u8>>) -> String {
  let mut what = vec![];
  for _ in 0..r.us(1, 4) {
    match r.below(12) {
      0 => { let i = r.us(8, HDR - 1); if i < sum.len() { sum[i] ^= 1 << r.below(8); } what.push("flip-summary") }
      1 | 2 | 3 => {
        let f = r.below(14) as usize;
        let (at, n) = match f { 0 => (8, 4), 1..=5 => (12 + 4 * (f - 1), 4), 6..=9 => (32 + f - 6, 1), _ => (36 + 8 * (f - 10), 8) };
        let v = extreme(r, n);
        if at + n <= sum.len() { sum[at..at + n].copy_from_slice(&v); }
        what.push(if f == 0 { "tus" } else if f < 6 { "counts" } else if f < 10 { "exp" } else { "scale" })
      }
      4 => { let n = r.us(0, HDR); sum.truncate(n); what.push("cut-summary") }
      5 | 6 => if !recs.is_empty() { let i = r.us(0, recs.len() - 1); let v = extreme(r, 4); if recs[i].len() == 8 { recs[i][4..8].copy_from_slice(&v); } what.push("scale-record") },
      7 => if !recs.is_empty() { let i = r.us(0, recs.len() - 1); let v = if r.chance(1, 3) { extreme(r, 4) } else { vec![r.below(6) as u8, 0, 0, r.pick(&[0, 0x80])] }; if recs[i].len() == 8 { recs[i][0..4].copy_from_slice(&v); } what.push("kind-record") },
      8 => if !recs.is_empty() { let i = r.us(0, recs.len() - 1); recs.remove(i); what.push("drop") },
      9 => if !recs.is_empty() { let i = r.us(0, recs.len() - 1); let x = recs[i].clone(); recs.insert(i, x); what.push("repeat") },
      10 => if recs.len() > 1 { let i = r.us(0, recs.len() - 1); let j = r.us(0, recs.len() - 1); recs.swap(i, j); what.push("swap") },
      _ => if r.chance(1, 2) {
        for x in recs.iter_mut() { *x = r.bytes(8); x[0] %= 5; x[1] = 0; x[2] = 0; x[3] &= 0x80; }
        what.push("random-records")
      } else if !recs.is_empty() { let i = r.us(0, recs.len() - 1); let n = r.us(0, 20); recs[i] = r.bytes(n); what.push("odd-record") },
    }
  }
  what.sort_unstable();
  what.dedup();
  what.join("+")
}

fn hostile(cx: &mut Cx, r: &mut Rng, bytes: bool) {
  let mut c = gen(r, 10);
  c.enc.speed_settings = SpeedSettings::from_preset(10);
  if cx.verbose { eprintln!("{}", brief(&c)); }
  let a = match go(&c, &Feed::None, 1, r, false) { Ok(o) => o, Err(m) => { cx.fail("encode", format!("first pass: {m}; {}", brief(&c))); return } };
  let Some((sum, recs)) = audit(cx, &c, &a, "first pass") else { return };
  if r.chance(1, 2) { rate(r, &mut c); }
  for round in 0..6 {
    let (mut s, mut v) = (sum.clone(), recs.clone());
    let what = if round == 5 && r.chance(1, 3) {
      // unrelated bytes behind a good start
      let n = r.us(0, 12);
      let k = r.us(0, 400);
      s.truncate(n);
      s.extend(r.bytes(k));
      v.clear();
      "foreign".to_string()
    } else { damage(r, &mut s, &mut v) };
    let feed = if bytes {
      let mut b = s.clone();
      for x in &v { b.extend(x); }
      if r.chance(1, 6) && !b.is_empty() { let n = r.us(0, b.len() - 1); b.truncate(n); }
      Feed::Bytes(b)
    } else { Feed::Api(s.clone(), v.clone()) };
    if cx.verbose { eprintln!("round {round}: {what} {:?} {v:?}", parse(&s)); }
    let emit = r.below(2) as u8;
    let late = r.chance(1, 3);
    let res = crate::driver::guard(|| go(&c, &feed, emit, r, late));
    let text = || format!("damage {what}: summary {s:?} records {v:?} bytes={bytes}; {}", brief(&c));
    let o = match res {
      Err(p) => { cx.fail(&crate::driver::panic_sig(&p), format!("{p} on damaged pass data; {}", text())); return }
      Ok(Err(m)) => { cx.fail("hostile", format!("{m}; {}", text())); return }
      Ok(Ok(o)) => o,
    };
    for w in o.pk.windows(2) { if w[1].no != w[0].no + 1 { cx.fail("order", format!("packets {} then {}; {}", w[0].no, w[1].no, text())); return } }
    check_stream(cx, &c, &o.pk, false);
    if !cx.fails.is_empty() { return }
    let outcome = match &o.refused { Some(m) => m.split(':').next().unwrap().split(' ').next().unwrap().to_string(), None => if o.pk.len() == c.nframes { "complete".into() } else { "partial".to_string() } };
    if o.refused.is_none() && o.pk.len() != c.nframes { cx.fail("hostile", format!("ended after {} of {} frames without an error; {}", o.pk.len(), c.nframes, text())); return }
    cx.count(&format!("damaged_{outcome}"), 1);
    cx.class(format!("{what} {bytes} {} {outcome}", c.enc.reservoir_frame_delay.is_some()));
    cx.sample(format!("{what}: {outcome} after {} packets", o.pk.len()));
  }
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  match (cx.idx + cx.idx / 8) % 4 {
    0 | 2 => honest(cx, &mut r),
    1 => hostile(cx, &mut r, false),
    _ => hostile(cx, &mut r, true),
  }
}
