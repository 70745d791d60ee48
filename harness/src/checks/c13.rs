//! C13: the channel interface against the direct one, under varied timings.
use super::c01::brief;
use super::c02::check_packets;
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::dec::Dav1d;
use crate::driver::{Cx, Spec};
use crate::enc::{self, Pkt};
use rav1e::prelude::*;
use std::sync::Arc;
use std::time::Duration;

pub fn spec() -> Spec {
  Spec {
    id: "C13",
    run,
    secs: (60, 600),
    rule: "a case runs one encode through a channel with producer and consumer threads of random pace (blocking and non-blocking calls) and compares every packet with the direct interface asked for packets as soon as it has them; first-pass, second-pass and parallel-GOP channels, early closing of either end; a case in which no thread makes progress counts as a hang; classes are (mode, pace, configuration)",
    assumptions: &["the direct reference is driven like the documentation's loop: packets are requested until more data is needed, then the next frame is sent"],
    ..BASE
  }
}

fn gen(r: &mut crate::rng::Rng, tiles: bool) -> EncCase {
  let o = Opts { cost: 80_000.0, max_w: 140, max_h: 100, max_frames: 24, min_speed: 6, force_tiles: tiles, ..Default::default() };
  let mut c = case::gen(r, &o);
  c.threads = r.pick(&[1, 1, 2, 3, 0]);
  c
}

pub enum Rc { None, First, Second(Vec<u8>, Vec<Vec<u8>>) }

fn config(c: &EncCase, rc: &Rc) -> Result<Config, String> {
  Ok(match rc {
    Rc::None => c.config(),
    Rc::First => c.config().with_rate_control(RateControlConfig::new().with_emit_data(true)),
    Rc::Second(s, _) => c.config().with_rate_control(RateControlConfig::from_summary_slice(s).map_err(|e| format!("summary: {e}"))?),
  })
}

/// (packets, pass data); late: flush only when more data is asked for
pub fn direct<T: Pixel>(c: &EncCase, rc: &Rc, late: bool) -> Result<(Vec<Pkt>, Vec<RcData>), String> {
  let mut ctx: Context<T> = config(c, rc)?.new_context().map_err(|e| format!("rejected: {e}"))?;
  let mut pk = vec![];
  let mut data = vec![];
  let mut feed = if let Rc::Second(_, f) = rc { f.clone().into_iter() } else { vec![].into_iter() };
  let mut sent = 0;
  let mut flushed = c.nframes == 0 && !late;
  if flushed { ctx.flush(); }
  for n in 0.. {
    if n > 60 * (c.nframes + 70) { return Err("direct: no progress".into()); }
    while matches!(rc, Rc::Second(..)) && ctx.rc_second_pass_data_required() > 0 {
      match feed.next() { Some(d) => ctx.rc_send_pass_data(&d).map_err(|e| format!("pass data: {e:?}"))?, None => break }
    }
    let st = ctx.receive_packet();
    let end = matches!(st, Err(EncoderStatus::LimitReached));
    if matches!(rc, Rc::First) && (st.is_ok() || end || matches!(st, Err(EncoderStatus::Encoded))) {
      if let Some(d) = ctx.rc_receive_pass_data() { data.push(d); }
    }
    match st {
      Ok(p) => pk.push(enc::pkt(p, &c.enc)),
      Err(EncoderStatus::Encoded) => {}
      Err(EncoderStatus::NeedMoreData) => {
        if sent < c.nframes {
          let mut f = ctx.new_frame();
          enc::fill(&mut f, &enc::source_pic(c, sent));
          ctx.send_frame((Arc::new(f), enc::params_of(c, sent))).map_err(|e| format!("send {e:?}"))?;
          sent += 1;
          // closing the channel is a flush right after the last frame
          if sent == c.nframes && !late { ctx.flush(); flushed = true; }
        } else if late && !flushed { ctx.flush(); flushed = true; } else if !flushed { return Err("direct: not flushed".into()); } else { return Err("direct: NeedMoreData after flush".into()) }
      }
      Err(EncoderStatus::LimitReached) => {
        // a still picture reports its end by itself
        if sent < c.nframes { return Err(format!("direct: end after {sent} frames")); }
        return Ok((pk, data));
      }
      Err(e) => return Err(format!("direct: {e:?}")),
    }
  }
  unreachable!()
}

fn pause(r: &mut crate::rng::Rng, pace: u64) {
  match pace {
    0 => {}
    1 => std::thread::yield_now(),
    2 => if r.chance(1, 3) { std::thread::sleep(Duration::from_micros(r.range(50, 3000))) },
    _ => std::thread::sleep(Duration::from_micros(r.range(0, 1500))),
  }
}

/// stop_recv: receive only that many packets, then drop the receiver
fn channel<T: Pixel>(cx: &mut Cx, c: &EncCase, rc: &Rc, r: &mut crate::rng::Rng, slots: usize, stop_recv: Option<usize>) -> Result<(Vec<Pkt>, Vec<RcData>), String> {
  let mut cfg = config(c, rc)?;
  if slots > 1 { cfg = cfg.with_parallel_gops(slots); }
  let er = |e: InvalidConfig| format!("rejected: {e}");
  let (mut rx_rc, mut tx_rc) = (None, None);
  let (mut tx, rx) = match rc {
    Rc::None => cfg.new_channel::<T>().map_err(er)?,
    Rc::First => { let (v, x) = cfg.new_firstpass_channel::<T>().map_err(er)?; rx_rc = Some(x); v }
    Rc::Second(..) => { let (v, x) = cfg.new_secondpass_channel::<T>().map_err(er)?; tx_rc = Some(x); v }
  };
  let (ps, pr) = (r.below(4), r.below(4));
  let (mut r1, mut r2, mut r3) = (crate::rng::Rng::new(r.u64(), 1), crate::rng::Rng::new(r.u64(), 2), crate::rng::Rng::new(r.u64(), 3));
  let style = (r.chance(1, 2), r.below(3));
  let c1 = c.clone();
  // a still picture takes one frame; anything else takes them all
  let producer = std::thread::spawn(move || -> Result<usize, String> {
    let mut n = 0;
    for i in 0..c1.nframes {
      pause(&mut r1, ps);
      let mut f = tx.new_frame();
      enc::fill(&mut f, &enc::source_pic(&c1, i));
      let mut item = (Arc::new(f), enc::params_of(&c1, i));
      if style.0 {
        // at last a blocking call, which a channel with living peers never refuses
        let mut left = [3, 50, 1000][i % 3];
        loop {
          if left == 0 { if tx.send(item).is_err() { return Ok(n) } else { break } }
          left -= 1;
          match tx.try_send(item) {
            Ok(()) => break,
            Err(TrySendError::Full((f, p))) => { item = (f.unwrap(), p.unwrap()); std::thread::sleep(Duration::from_micros(300)); }
            Err(TrySendError::Disconnected(_)) => return Ok(n),
          }
        }
      } else if tx.send(item).is_err() { return Ok(n); }
      n += 1;
    }
    if c1.enc.still_picture && n > 0 {
      // no second frame, as through the direct interface
      let f = tx.new_frame();
      if tx.try_send((Arc::new(f.clone()), enc::params_of(&c1, 0))).is_ok() || tx.send((Arc::new(f), enc::params_of(&c1, 0))).is_ok() {
        return Err("a second frame was accepted for a still picture".into());
      }
    }
    pause(&mut r1, ps);
    Ok(n)
  });
  let feeder = if let (Rc::Second(_, f), Some(mut t)) = (rc, tx_rc) {
    let f = f.clone();
    Some(std::thread::spawn(move || {
      for d in f { pause(&mut r3, ps); if t.send(RcData::Frame(d.into_boxed_slice())).is_err() { break; } }
    }))
  } else { None };
  let rcdrain = rx_rc.map(|x| std::thread::spawn(move || x.iter().collect::<Vec<_>>()));
  let mut pk = vec![];
  let mut last = None;
  loop {
    if Some(pk.len()) == stop_recv { break; }
    pause(&mut r2, pr);
    let p = match style.1 {
      0 => rx.recv().map_err(|_| true),
      1 => rx.try_recv().map_err(|e| e == TryRecvError::Disconnected),
      _ => match rx.iter().next() { Some(p) => Ok(p), None => Err(true) },
    };
    match p {
      Ok(p) => pk.push(enc::pkt(p, &c.enc)),
      Err(true) => { last = Some(()); break }
      Err(false) => std::thread::sleep(Duration::from_micros(200)),
    }
  }
  if last.is_some() {
    // stays disconnected
    if rx.try_recv().err() != Some(TryRecvError::Disconnected) || rx.recv().is_ok() { cx.fail("disconnect", format!("receiver not disconnected after the end; {}", brief(c))); }
  }
  drop(rx);
  let sent = producer.join().map_err(|_| "producer".to_string())??;
  if stop_recv.is_none() && sent != c.nframes { return Err(format!("the channel refused frame {sent}")); }
  if let Some(f) = feeder { let _ = f.join(); }
  let data = match rcdrain { Some(d) => d.join().map_err(|_| "drain".to_string())?, None => vec![] };
  cx.count("channel_packets", pk.len() as u64);
  cx.class(format!("pace {ps}{pr} {style:?}"));
  Ok((pk, data))
}

fn dispatch(cx: &mut Cx, c: &EncCase, rc: &Rc, r: &mut crate::rng::Rng, slots: usize, stop: Option<usize>) -> Result<(Vec<Pkt>, Vec<RcData>), String> {
  if c.hbd { channel::<u16>(cx, c, rc, r, slots, stop) } else { channel::<u8>(cx, c, rc, r, slots, stop) }
}
fn ref_run(c: &EncCase, rc: &Rc) -> Result<(Vec<Pkt>, Vec<RcData>), String> {
  if c.hbd { direct::<u16>(c, rc, false) } else { direct::<u8>(c, rc, false) }
}

fn same(cx: &mut Cx, c: &EncCase, what: &str, a: &[Pkt], b: &[Pkt]) {
  if a.len() != b.len() { cx.fail("lost", format!("{what}: {} packets, direct {}; {}", b.len(), a.len(), brief(c))); return }
  for (x, y) in a.iter().zip(b) {
    let m = if x.data != y.data { "bytes" } else if x.no != y.no { "number" } else if x.ty != y.ty { "type" } else if x.qp != y.qp { "quantizer" }
      else if x.opaque != y.opaque { "user data" } else if x.rec != y.rec { "reconstruction" } else if x.source != y.source { "source" } else { continue };
    cx.fail("differs", format!("{what}: packet {} differs in its {m}; {}", x.no, brief(c)));
    return;
  }
  cx.count("packets_compared", a.len() as u64);
}

fn decodes(cx: &mut Cx, c: &EncCase, what: &str, pk: &[Pkt]) {
  let mut d = match Dav1d::new(false) { Ok(d) => d, Err(m) => { cx.inconclusive(m); return } };
  for p in pk {
    match d.decode(&p.data) {
      Ok(v) => if v.len() != 1 || p.rec.as_ref().map_or(false, |x| x.diff(&v[0].pic).is_some()) {
        cx.fail("decode", format!("{what}: packet {} decodes to {} pictures or another picture; {}", p.no, v.len(), brief(c)));
        return;
      },
      Err(m) => { cx.fail("decode", format!("{what}: packet {}: {m}; {}", p.no, brief(c))); return }
    }
  }
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let kind = (cx.idx + cx.idx / 8) % 8;
  let mut c = gen(&mut r, kind == 1);
  if kind == 7 && r.chance(1, 3) { c.nframes = 0; c.force_key.clear(); c.t35.clear(); }
  match kind {
    3 | 4 => {
      c.enc.still_picture = false;
      c.enc.width = c.enc.width.max(16);
      c.enc.height = c.enc.height.max(16);
      if c.enc.bitrate == 0 { c.enc.bitrate = r.pick(&[5000, 50_000, 500_000]); c.enc.quantizer = 255; c.enc.min_quantizer = 0; }
    }
    5 => {
      // parallel GOPs: everything the workers cannot share is left out
      c.enc.still_picture = false;
      c.enc.width = c.enc.width.max(16);
      c.enc.height = c.enc.height.max(16);
      c.enc.film_grain_params = None;
    }
    _ => {}
  }
  if cx.verbose { eprintln!("kind {kind} {}", brief(&c)); }
  match kind {
    3 => {
      // first pass: packets and records
      let a = match ref_run(&c, &Rc::First) { Ok(a) => a, Err(m) => { cx.fail("encode", format!("{m}; {}", brief(&c))); return } };
      match dispatch(cx, &c, &Rc::First, &mut r, 0, None) {
        Err(m) => cx.fail("channel", format!("first pass: {m}; {}", brief(&c))),
        Ok(b) => {
          same(cx, &c, "first pass", &a.0, &b.0);
          let flat = |v: &[RcData]| v.iter().map(|d| match d { RcData::Summary(x) => (true, x.to_vec()), RcData::Frame(x) => (false, x.to_vec()) }).collect::<Vec<_>>();
          if flat(&a.1) != flat(&b.1) { cx.fail("pass-data", format!("first pass: {} records through the channel, {} directly, or their content differs; {}", b.1.len(), a.1.len(), brief(&c))); }
          cx.count("pass_records_compared", a.1.len() as u64);
        }
      }
      cx.class(format!("first {}", c.class()));
    }
    4 => {
      let a = match ref_run(&c, &Rc::First) { Ok(a) => a, Err(m) => { cx.fail("encode", format!("{m}; {}", brief(&c))); return } };
      let mut s = vec![];
      let mut f = vec![];
      for d in a.1 { match d { RcData::Summary(x) => s = x.to_vec(), RcData::Frame(x) => f.push(x.to_vec()) } }
      let rc = Rc::Second(s, f);
      // the channel knows the number of frames in advance, the direct interface does not:
      // compare two channel runs of different pace, and each with its own input
      let a = match dispatch(cx, &c, &rc, &mut r, 0, None) { Ok(a) => a, Err(m) => { cx.fail("channel", format!("second pass: {m}; {}", brief(&c))); return } };
      if a.0.len() != c.nframes { cx.fail("lost", format!("second pass: {} packets for {} frames; {}", a.0.len(), c.nframes, brief(&c))); return }
      check_packets(cx, &c, &a.0);
      decodes(cx, &c, "second pass", &a.0);
      match dispatch(cx, &c, &rc, &mut r, 0, None) {
        Err(m) => cx.fail("channel", format!("second pass: {m}; {}", brief(&c))),
        Ok(b) => same(cx, &c, "second pass, another pace", &a.0, &b.0),
      }
      cx.class(format!("second {}", c.class()));
    }
    5 => {
      let slots = r.us(2, 4);
      match dispatch(cx, &c, &Rc::None, &mut r, slots, None) {
        Err(m) => cx.fail("channel", format!("parallel GOPs: {m}; {}", brief(&c))),
        Ok((pk, _)) => {
          if pk.len() != c.nframes { cx.fail("gop-lost", format!("parallel GOPs: {} packets for {} frames; {}", pk.len(), c.nframes, brief(&c))); return }
          check_packets(cx, &c, &pk);
          for k in &c.force_key {
            if pk[*k].ty != FrameType::KEY { cx.fail("gop-key", format!("parallel GOPs: frame {k} was requested as a key frame and is {:?}; {}", pk[*k].ty, brief(&c))); }
          }
          decodes(cx, &c, "parallel GOPs", &pk);
          cx.count("gop_packets", pk.len() as u64);
        }
      }
      cx.class(format!("gops {slots} threads {} {}", c.threads, c.enc.low_latency));
    }
    6 => {
      // the consumer goes away; nobody may hang or crash
      let stop = r.us(0, c.nframes);
      let (rc, slots) = if r.chance(1, 4) { (Rc::None, 2) } else if r.chance(1, 3) && !c.enc.still_picture {
        if c.enc.bitrate == 0 { c.enc.bitrate = 50_000; }
        (Rc::First, 0)
      } else { (Rc::None, 0) };
      if slots > 0 && c.enc.still_picture { return; }
      match dispatch(cx, &c, &rc, &mut r, slots, Some(stop)) {
        Err(m) => cx.fail("channel", format!("receiver dropped after {stop}: {m}; {}", brief(&c))),
        Ok((pk, _)) => if pk.len() > stop { cx.fail("channel", "too many packets".to_string()) },
      }
      std::thread::sleep(Duration::from_millis(20));
      cx.count("abandoned_channels", 1);
      cx.class(format!("abandon {slots} {}", stop * 4 / c.nframes.max(1)));
    }
    _ => {
      let a = match ref_run(&c, &Rc::None) { Ok(a) => a, Err(m) => { cx.fail("encode", format!("{m}; {}", brief(&c))); return } };
      let slots = r.below(2) as usize;
      match dispatch(cx, &c, &Rc::None, &mut r, slots, None) {
        Err(m) => cx.fail("channel", format!("{m}; {}", brief(&c))),
        Ok(b) => same(cx, &c, "channel", &a.0, &b.0),
      }
      cx.class(format!("single {}", c.class()));
    }
  }
  cx.sample(format!("kind {kind} {} frames={} threads={}", c.class(), c.nframes, c.threads));
}
