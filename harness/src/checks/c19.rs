//! C19: submitted pictures are read-only and only their visible samples matter.
use super::c01::brief;
use super::c03::differs;
use super::BASE;
use crate::case::{self, EncCase, Opts};
use crate::driver::{guard, panic_sig, Cx, Spec};
use crate::enc::{self, Pic, Pkt};
use crate::rng::{Fnv, Rng};
use rav1e::bench::api::*;
use rav1e::prelude::*;
use std::sync::Arc;

pub fn spec() -> Spec {
  Spec {
    id: "C19",
    run,
    secs: (45, 400),
    rule: "a case encodes one sequence (some pictures repeated) from fresh frames, then again from frames with hostile padding, wider padding, rows copied from foreign strides, storage shared between positions of the sequence, and storage shared with a second encoder on another thread; all streams and reconstructions are compared, every shared picture is checksummed (padding included) around every call, and the source returned with a packet is compared with the submitted samples; classes are (configuration class, layout variant)",
    assumptions: &["a picture whose storage is shared was padded by its owner (Plane::pad), as send_frame demands", "frames have at least the padding new_frame gives them, and all frames of one encoder the same layout (the scene-change crate demands equal strides)"],
    ..BASE
  }
}

fn sum<T: Pixel>(f: &Frame<T>) -> u64 {
  let mut h = Fnv::default();
  for p in &f.planes {
    for x in p.data.iter() { h.0 = (h.0 ^ u16::cast_from(*x) as u64).wrapping_mul(0x100_0000_01B3); }
  }
  h.0
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lay { Fresh, Junk, Wide, Raw, Shared, Pair }

struct Seq<'a> { c: &'a EncCase, map: &'a [usize], junk: u64 }

fn make<T: Pixel>(s: &Seq, ctx: &Context<T>, lay: Lay, n: usize, pic: &Pic) -> Frame<T> {
  let mut r = Rng::new(s.junk, n as u64);
  let e = &s.c.enc;
  let mut f = if lay == Lay::Wide {
    Frame::new_with_padding(e.width, e.height, e.chroma_sampling, 88 + (s.junk % 6) as usize * 16)
  } else { ctx.new_frame() };
  if lay != Lay::Fresh {
    let max = (1u64 << e.bit_depth) - 1;
    let style = r.below(3);
    for p in &mut f.planes {
      for x in p.data.iter_mut() {
        let v = match style { 0 => max, 1 => r.u64() & max, _ => 0 } as u16;
        *x = T::cast_from(v);
      }
    }
  }
  if lay == Lay::Raw {
    // rows of a foreign buffer with a stride of its own
    let bytes = if s.c.hbd { 2 } else { 1 };
    for (pli, (w, h, d)) in pic.planes.iter().enumerate() {
      let stride = w * bytes + r.us(0, 9) * bytes;
      let mut b = r.bytes(stride * h);
      for y in 0..*h { for x in 0..*w {
        let v = d[y * w + x];
        b[y * stride + x * bytes] = v as u8;
        if bytes == 2 { b[y * stride + x * bytes + 1] = (v >> 8) as u8; }
      } }
      f.planes[pli].copy_from_raw_u8(&b, stride, bytes);
    }
  } else {
    enc::fill(&mut f, pic);
  }
  f
}

/// `keep` holds one frame per distinct picture when storage is shared.
fn drive<T: Pixel>(s: &Seq, lay: Lay, keep: &[Arc<Frame<T>>]) -> Result<(Vec<Pkt>, u64), String> {
  let c = s.c;
  let before: Vec<u64> = keep.iter().map(|f| sum(f)).collect();
  let mut looked = 0;
  let mut look = |when: &str| -> Result<(), String> {
    for (i, f) in keep.iter().enumerate() {
      looked += 1;
      if sum(f) != before[i] {
        let have = enc::extract(f, &c.enc);
        return Err(format!("WRITE picture {i} was changed {when}: {}", have.diff(&enc::source_pic(c, i)).unwrap_or("in its padding".into())));
      }
    }
    Ok(())
  };
  let mut ctx: Context<T> = c.config().new_context().map_err(|e| format!("rejected: {e}"))?;
  let (mut out, mut sent, mut n) = (vec![], 0, 0);
  loop {
    n += 1;
    if n > 50 * (c.nframes + 64) + 1000 { return Err("no progress".into()); }
    match ctx.receive_packet() {
      Ok(p) => { let p = enc::pkt(p, &c.enc); look(&format!("by the packet of {}", p.no))?; out.push(p) }
      Err(EncoderStatus::NeedMoreData) => {
        if sent < c.nframes {
          let k = s.map[sent];
          let f = if keep.is_empty() { Arc::new(make(s, &ctx, lay, sent, &enc::source_pic(c, k))) } else { keep[k].clone() };
          ctx.send_frame((f, enc::params_of(c, sent))).map_err(|e| format!("send_frame {sent}: {e:?}"))?;
          look(&format!("by sending frame {sent}"))?;
          sent += 1;
        } else { ctx.flush(); look("by flushing")?; }
      }
      Err(EncoderStatus::Encoded) => look("while encoding")?,
      Err(EncoderStatus::LimitReached) => break,
      Err(e) => return Err(format!("receive_packet: {e:?}")),
    }
  }
  drop(ctx);
  look("by closing the encoder")?;
  Ok((out, looked))
}

fn sources(s: &Seq, p: &[Pkt]) -> Result<u64, String> {
  let mut n = 0;
  for x in p {
    let Some(src) = &x.source else { return Err(format!("packet {} has no source", x.no)) };
    if let Some(m) = src.diff(&enc::source_pic(s.c, s.map[x.no as usize])) { return Err(format!("source of packet {}: {m}", x.no)); }
    n += 1;
  }
  Ok(n)
}

fn all<T: Pixel>(cx: &mut Cx, s: &Seq, r: &mut Rng) {
  let c = s.c;
  let none: Vec<Arc<Frame<T>>> = vec![];
  let reference = match guard(|| drive::<T>(s, Lay::Fresh, &none)) {
    Ok(Ok((p, _))) => p,
    Ok(Err(m)) => { cx.fail("encode", format!("{m}; {}", brief(c))); return }
    Err(m) => { cx.fail(&panic_sig(&m), format!("{m}; {}", brief(c))); return }
  };
  match sources(s, &reference) { Ok(n) => cx.count("sources_compared", n), Err(m) => { cx.fail("source", format!("{m}; {}", brief(c))); return } }
  cx.class(format!("Fresh {}", c.class()));
  let distinct = s.map.iter().max().unwrap() + 1;
  let pictures = |r: &mut Rng| -> Vec<Arc<Frame<T>>> {
    let ctx: Context<T> = c.config().new_context().expect("context");
    let lay = r.pick(&[Lay::Fresh, Lay::Junk, Lay::Wide]);
    (0..distinct).map(|k| {
      let mut f = make(s, &ctx, lay, k, &enc::source_pic(c, k));
      for p in &mut f.planes[..enc::nplanes(&c.enc)] { p.pad(c.enc.width, c.enc.height); }
      Arc::new(f)
    }).collect()
  };
  let mut lays = vec![r.pick(&[Lay::Junk, Lay::Wide, Lay::Raw]), r.pick(&[Lay::Shared, Lay::Pair])];
  if cx.thorough { lays = vec![Lay::Junk, Lay::Wide, Lay::Raw, Lay::Shared, Lay::Pair]; }
  for lay in lays {
    let keep = if matches!(lay, Lay::Shared | Lay::Pair) { pictures(r) } else { vec![] };
    let first = std::thread::scope(|t| {
      // a second encoder with other settings reads the same pictures meanwhile
      let other = (lay == Lay::Pair).then(|| {
        let mut c2 = c.clone();
        c2.enc.quantizer = 255 - c2.enc.quantizer.min(255);
        c2.enc.low_latency = !c2.enc.low_latency;
        c2.enc.switch_frame_interval = 0;
        let keep = &keep;
        let map = s.map;
        let junk = s.junk;
        t.spawn(move || guard(|| drive::<T>(&Seq { c: &c2, map, junk }, Lay::Shared, keep)))
      });
      let a = guard(|| drive::<T>(s, lay, &keep));
      (a, other.map(|o| o.join().expect("thread")))
    });
    let (a, b) = first;
    if let Some(b) = b {
      match b {
        Ok(Ok((_, n))) => cx.count("checksums", n),
        Ok(Err(m)) => { cx.fail(if m.starts_with("WRITE") { "write" } else { "encode" }, format!("second encoder: {m}; {}", brief(c))); return }
        Err(m) => { cx.fail(&panic_sig(&m), format!("second encoder: {m}; {}", brief(c))); return }
      }
    }
    match a {
      Err(m) => { cx.fail(&panic_sig(&m), format!("{lay:?}: {m}; {}", brief(c))); return }
      Ok(Err(m)) => { cx.fail(if m.starts_with("WRITE") { "write" } else { "encode" }, format!("{lay:?}: {m}; {}", brief(c))); return }
      Ok(Ok((p, n))) => {
        cx.count("checksums", n);
        if let Some(m) = differs(&reference, &p) { cx.fail("layout", format!("{lay:?}: {m}; {}", brief(c))); return }
        match sources(s, &p) { Ok(n) => cx.count("sources_compared", n), Err(m) => { cx.fail("source", format!("{lay:?}: {m}; {}", brief(c))); return } }
        cx.count("packets_compared", p.len() as u64);
      }
    }
    cx.class(format!("{lay:?} {}", c.class()));
  }
  cx.sample(format!("{} pictures at {} positions: {} packets equal in all layouts", distinct, s.map.len(), reference.len()));
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let k = (cx.idx + cx.idx / 8) % 4;
  let mut o = Opts { cost: 110_000.0, max_frames: 10, ..Default::default() };
  match k { 0 => { o.max_w = 70; o.max_h = 70; } 1 => { o.min_speed = 8; o.min_frames = 4; } 2 => { o.min_frames = 3; o.max_w = 40; o.max_h = 40; } _ => {} }
  let c = case::gen(&mut r, &o);
  if cx.verbose { eprintln!("{}", brief(&c)); }
  // which picture is shown at which position
  let n = c.nframes;
  let m = r.us(1, n);
  let map: Vec<usize> = match r.below(3) { 0 => (0..n).collect(), 1 => (0..n).map(|i| i % m).collect(), _ => (0..n).map(|i| i / n.div_ceil(m)).collect() };
  let s = Seq { c: &c, map: &map, junk: r.u64() };
  if c.hbd { all::<u16>(cx, &s, &mut r) } else { all::<u8>(cx, &s, &mut r) }
}
