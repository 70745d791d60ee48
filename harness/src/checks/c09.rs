//! C09: the codec configuration record against the sequence header in the stream.
use super::c01::brief;
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::driver::{Cx, Spec};
use crate::{cdrv, enc, obu};
use rav1e::prelude::*;
use std::sync::Arc;

pub fn spec() -> Spec {
  Spec {
    id: "C09",
    run,
    secs: (40, 300),
    rule: "a case takes the av1C record before, during and after an encode through the direct interface, and from the channel and C interfaces, and compares every field with the sequence headers parsed from the packets; classes are (chroma, depth, level, position, still)",
    ..BASE
  }
}

fn check(cx: &mut Cx, c: &EncCase, rec: &[u8], s: &obu::Seq, at: &str) {
  let mut bad = |m: String| cx.fail("record", format!("{at}: {m}; record {rec:02x?}; {}", brief(c)));
  if rec.len() != 4 { return bad(format!("{} bytes", rec.len())) }
  if rec[0] != 0x81 { return bad("marker/version".into()) }
  let (_, level, tier) = s.op_points[0];
  let get = |b: u8, sh: u8, n: u8| (b >> sh) & ((1 << n) - 1);
  let want = [
    ("profile", get(rec[1], 5, 3), s.profile),
    ("level", get(rec[1], 0, 5), level),
    ("tier", get(rec[2], 7, 1), tier),
    ("high_bitdepth", get(rec[2], 6, 1), (s.bit_depth > 8) as u8),
    ("twelve_bit", get(rec[2], 5, 1), (s.bit_depth == 12) as u8),
    ("monochrome", get(rec[2], 4, 1), s.mono as u8),
    ("subsampling_x", get(rec[2], 3, 1), s.ss_x as u8),
    ("subsampling_y", get(rec[2], 2, 1), s.ss_y as u8),
    ("sample_position", get(rec[2], 0, 2), if s.ss_x && s.ss_y && !s.mono { s.chroma_pos } else { 0 }),
    ("reserved/delay", rec[3], 0),
  ];
  for (n, a, b) in want { if a != b { bad(format!("{n} is {a}, the stream says {b}")); } }
  cx.count("records_compared", 1);
}

fn drive<T: Pixel>(cx: &mut Cx, c: &EncCase, r: &mut crate::rng::Rng) -> Option<(Vec<(String, Vec<u8>)>, Vec<obu::Seq>)> {
  let cfg = c.config();
  let mut ctx: Context<T> = match cfg.new_context() { Ok(x) => x, Err(e) => { cx.fail("rejected", format!("{e}; {}", brief(c))); return None } };
  let mut recs = vec![("before the first frame".to_string(), ctx.container_sequence_header())];
  let mut seqs = vec![];
  let (mut sent, mut n) = (0, 0);
  loop {
    n += 1;
    if n > 20000 { return None; }
    match ctx.receive_packet() {
      Ok(p) => {
        for o in obu::split(&p.data).unwrap_or_default() {
          if o.ty == obu::OBU_SEQ {
            match obu::parse_seq(o.data) { Ok(s) => seqs.push(s), Err(m) => { cx.fail("sequence-header", format!("{m}; {}", brief(c))); return None } }
          }
        }
        if r.chance(1, 2) { recs.push((format!("after packet {}", p.input_frameno), ctx.container_sequence_header())); }
      }
      Err(EncoderStatus::NeedMoreData) => if sent < c.nframes {
        let mut f = ctx.new_frame();
        enc::fill(&mut f, &enc::source_pic(c, sent));
        if ctx.send_frame((Arc::new(f), enc::params_of(c, sent))).is_err() { return None; }
        sent += 1;
      } else { ctx.flush(); },
      Err(EncoderStatus::Encoded) => {}
      _ => break,
    }
  }
  recs.push(("after the end".into(), ctx.container_sequence_header()));
  match cfg.new_channel::<T>() {
    Err(e) => cx.fail("rejected", format!("channel: {e}; {}", brief(c))),
    Ok((s, rx)) => {
      recs.push(("channel".into(), rx.container_sequence_header()));
      drop(s);
      while rx.recv().is_ok() {}
      recs.push(("closed channel".into(), rx.container_sequence_header()));
    }
  }
  Some((recs, seqs))
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let o = Opts { cost: 30_000.0, max_w: 80, max_h: 64, max_frames: 4, min_speed: 8, grain: false, tweak: false, ..Default::default() };
  let mut c = case::gen(&mut r, &o);
  case::random_meta(&mut r, &mut c.enc);
  cdrv::expressible(&mut c);
  c.nframes = c.nframes.min(5);
  c.force_key = vec![c.nframes / 2];
  // sizes matter for the automatic level: now and then a big still picture
  if cx.idx % 16 == 7 {
    c.enc.still_picture = true;
    c.enc.switch_frame_interval = 0;
    c.enc.bitrate = 0;
    c.enc.enable_timing_info = false;
    c.nframes = 1;
    c.force_key.clear();
    c.enc.width = r.us(200, 900);
    c.enc.height = r.us(16, 120);
    if c.enc.level_idx != Some(31) { c.enc.level_idx = None; }
  }
  if cx.verbose { eprintln!("{}", brief(&c)); }
  let x = if c.hbd { drive::<u16>(cx, &c, &mut r) } else { drive::<u8>(cx, &c, &mut r) };
  let Some((mut recs, seqs)) = x else { return };
  match cdrv::config(&c).and_then(|k| k.context().ok_or("rav1e_context_new failed".to_string())) {
    Ok(ctx) => recs.push(("C interface".into(), cdrv::av1c(&ctx))),
    Err(m) => cx.fail("capi", format!("{m}; {}", brief(&c))),
  }
  for s in &seqs { for (at, b) in &recs { check(cx, &c, b, s, at); } }
  if seqs.is_empty() { cx.fail("no-sequence-header", brief(&c)); }
  cx.class(format!("{:?} {}b {:?} {:?} still{}", c.enc.chroma_sampling, c.enc.bit_depth, c.enc.level_idx, c.enc.chroma_sample_position, c.enc.still_picture));
  cx.sample(format!("{}: {} records, {} sequence headers, record {:02x?}", c.class(), recs.len(), seqs.len(), recs[0].1));
}
