//! C02: conservation, order and status monitor over random API schedules.
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::driver::{Cx, Spec};
use crate::enc::{self, Pkt};
use super::c01::brief;
use rav1e::bench::api::*;
use rav1e::prelude::*;
use std::sync::Arc;

pub fn spec() -> Spec {
  Spec {
    id: "C02",
    run,
    secs: (45, 900),
    rule: "random configuration x random interleaving of send/receive/flush (including calls that must be refused); monitor: one packet per accepted frame, numbered in order, own source and opaque, end status sticky, statuses as documented, bytes equal to the same schedule without the refused, answered-with-nothing and repeated calls; classes are (configuration class, status-sequence shape)",
    assumptions: &["frames are padded by the encoder (sole owner) or by the caller before sharing, as documented"],
    ..BASE
  }
}

fn opts(cx: &Cx) -> Opts {
  let mut o = Opts { cost: 120_000.0, max_w: 112, max_h: 96, max_frames: 30, min_speed: 5, meta: false, ..Default::default() };
  if cx.idx % 4 == 1 { o.max_frames = 70; o.min_frames = 20; o.max_w = 40; o.max_h = 40; o.min_speed = 9; o.cost = 200_000.0; }
  if cx.idx % 4 == 2 { o.min_speed = 2; o.max_w = 64; o.max_h = 64; }
  o
}

struct Drive { effective: Vec<char>, pk: Vec<Pkt>, shape: String, refused: u64, calls: u64 }

fn drive<T: Pixel>(c: &EncCase, cx: &mut Cx, r: &mut crate::rng::Rng) -> Option<Drive> {
  let cfg = c.config();
  let mut ctx: Context<T> = match cfg.new_context() { Ok(c) => c, Err(e) => { cx.fail("rejected", format!("{e}; {}", brief(c))); return None } };
  let mut d = Drive { effective: vec![], pk: vec![], shape: String::new(), refused: 0, calls: 0 };
  let mut sent = 0usize;
  let mut flushed = false;
  let mut ended = false;
  let mut accepted = 0usize;
  let style = r.below(6);
  let mut post = 0;
  let mut calls_since = 0u64;
  let limit = 60 * (c.nframes as u64 + 70) + 2000;
  let fl = |s: &mut String, x: char| { if s.len() < 24 && !s.ends_with(x) { s.push(x); } };
  loop {
    calls_since += 1;
    if calls_since > limit { cx.fail("no-progress", format!("end of stream not reached after {limit} calls; {}", brief(c))); return None }
    // choose the next call
    let want_send = match style {
      0 => sent < c.nframes,                          // everything first
      1 => r.chance(1, 2),
      2 => r.chance(1, 6),                            // impatient
      3 => r.chance(5, 6),
      4 => sent % 5 != 4 || r.chance(1, 9),           // bursts
      _ => calls_since % 2 == 0,
    };
    // a still picture encoder is offered a second frame at every stage
    let second = c.enc.still_picture && accepted > 0 && r.chance(1, 2);
    if second || (want_send && !flushed && sent < c.nframes) || r.chance(1, 10) {
      if sent < c.nframes || r.chance(1, 20) || flushed || second {
        // a real frame; must be refused after a flush or as a second still picture
        let must_refuse = flushed || (c.enc.still_picture && accepted > 0);
        if sent >= c.nframes && !must_refuse { continue; }
        let n = if must_refuse { c.nframes + 7 } else { sent };
        let mut f = ctx.new_frame();
        enc::fill(&mut f, &enc::source_pic(c, n));
        d.calls += 1;
        match ctx.send_frame((Arc::new(f), enc::params_of(c, n))) {
          Ok(()) => {
            if must_refuse { cx.fail("accepted-late", format!("frame accepted after flush={flushed} still={}; {}", c.enc.still_picture, brief(c))); return None }
            fl(&mut d.shape, 's');
            d.effective.push('s');
            accepted += 1;
            sent += 1;
          }
          Err(EncoderStatus::EnoughData) if must_refuse => { d.refused += 1; fl(&mut d.shape, 'x'); }
          Err(e) => { cx.fail("send-status", format!("send_frame {n}: {e:?} (refusal expected: {must_refuse}); {}", brief(c))); return None }
        }
        continue;
      }
    }
    if (sent == c.nframes && !flushed && r.chance(1, 3)) || (flushed && !ended && r.chance(1, 15)) {
      if r.chance(1, 2) { ctx.flush(); } else if let Err(e) = ctx.send_frame(None) {
        cx.fail("flush-status", format!("flush: {e:?}; {}", brief(c)));
        return None;
      }
      if !flushed { d.effective.push('f'); }
      flushed = true;
      fl(&mut d.shape, 'f');
      continue;
    }
    d.calls += 1;
    match ctx.receive_packet() {
      Ok(p) => {
        if ended { cx.fail("after-end", format!("packet {} after the end; {}", p.input_frameno, brief(c))); return None }
        fl(&mut d.shape, 'p');
        d.effective.push('r');
        d.pk.push(enc::pkt(p, &c.enc));
      }
      Err(EncoderStatus::NeedMoreData) => {
        fl(&mut d.shape, 'n');
        if flushed { cx.fail("need-more-after-flush", format!("NeedMoreData after flush; {}", brief(c))); return None }
      }
      Err(EncoderStatus::Encoded) => { fl(&mut d.shape, 'e'); d.effective.push('r'); }
      Err(EncoderStatus::LimitReached) => {
        fl(&mut d.shape, 'l');
        if !flushed { cx.fail("early-end", format!("LimitReached before flush; {}", brief(c))); return None }
        if d.pk.len() != accepted { cx.fail("lost", format!("end after {} packets for {accepted} frames; {}", d.pk.len(), brief(c))); return None }
        ended = true;
        post += 1;
        if post > 4 { break; }
      }
      Err(e) => { cx.fail("receive-status", format!("receive_packet: {e:?}; {}", brief(c))); return None }
    }
  }
  cx.count("api_calls", d.calls);
  cx.count("refused_calls", d.refused);
  Some(d)
}

pub fn check_packets(cx: &mut Cx, c: &EncCase, pk: &[Pkt]) {
  for (i, p) in pk.iter().enumerate() {
    if p.no != i as u64 { cx.fail("order", format!("packet {i} is numbered {}; {}", p.no, brief(c))); return }
    if p.opaque != enc::opaque_of(c, i) { cx.fail("opaque", format!("packet {i} carries opaque {:?}; {}", p.opaque, brief(c))); return }
    match &p.source {
      None => { cx.fail("source", format!("packet {i} without source; {}", brief(c))); return }
      Some(s) => if let Some(m) = s.diff(&enc::source_pic(c, i)) {
        cx.fail("source", format!("packet {i} source differs: {m}; {}", brief(c)));
        return;
      },
    }
  }
  cx.count("packets_checked", pk.len() as u64);
}

/// Replays the calls that had an effect.
fn replay<T: Pixel>(c: &EncCase, ops: &[char]) -> Result<Vec<Pkt>, String> {
  let mut ctx: Context<T> = c.config().new_context().map_err(|e| format!("{e}"))?;
  let mut sent = 0;
  let mut out = vec![];
  for (n, o) in ops.iter().enumerate() {
    match o {
      's' => {
        let mut f = ctx.new_frame();
        enc::fill(&mut f, &enc::source_pic(c, sent));
        ctx.send_frame((Arc::new(f), enc::params_of(c, sent))).map_err(|e| format!("call {n}: send {e:?}"))?;
        sent += 1;
      }
      'f' => ctx.flush(),
      _ => match ctx.receive_packet() {
        Ok(p) => out.push(enc::pkt(p, &c.enc)),
        Err(EncoderStatus::Encoded) => {}
        Err(e) => return Err(format!("call {n}: receive {e:?}")),
      },
    }
  }
  Ok(out)
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let mut c = case::gen(&mut r, &opts(cx));
  if r.chance(1, 40) { c.nframes = 0; }
  if r.chance(1, 12) { c.nframes = c.nframes.min(r.us(1, 3)); }
  c.force_key.retain(|&k| k < c.nframes);
  c.threads = r.pick(&[1, 1, 2]);
  if cx.verbose { eprintln!("{}", brief(&c)); }
  let d = if c.hbd { drive::<u16>(&c, cx, &mut r) } else { drive::<u8>(&c, cx, &mut r) };
  let Some(d) = d else { return };
  check_packets(cx, &c, &d.pk);
  let again = if c.hbd { replay::<u16>(&c, &d.effective) } else { replay::<u8>(&c, &d.effective) };
  match again {
    Err(m) => cx.fail("schedule-dependent", format!("without the refused and empty calls: {m}; {}", brief(&c))),
    Ok(pk) => {
      if let Some(i) = (0..pk.len().max(d.pk.len())).find(|&i| pk.get(i).map(|p| &p.data) != d.pk.get(i).map(|p| &p.data)) {
        cx.fail("schedule-dependent", format!("packet {i} differs when the refused and empty calls are left out ({}); {}", d.shape, brief(&c)));
      }
      cx.count("packets_compared", pk.len() as u64);
    }
  }
  // and a drive of another style: the same monitor on a plain loop
  match enc::encode(&c) {
    Err(m) => cx.fail("encode", format!("{m}; {}", brief(&c))),
    Ok(pk) => {
      if pk.len() != c.nframes { cx.fail("lost", format!("{} packets for {} frames; {}", pk.len(), c.nframes, brief(&c))); }
      check_packets(cx, &c, &pk)
    }
  }
  cx.class(format!("{} {}", d.shape, if c.enc.low_latency { "ll" } else { "ro" }));
  cx.class(c.class());
  cx.sample(format!("{} calls={} refused={} packets={} shape={}", c.class(), d.calls, d.refused, d.pk.len(), d.shape));
}
