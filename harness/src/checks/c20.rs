//! C20: latency and memory stay bounded; everything is released at the end.
use super::c01::brief;
use super::BASE;
use crate::alloc;
use crate::case::{self, EncCase, Opts};
use crate::driver::{guard, panic_sig, Cx, Spec};
use crate::enc;
use crate::rng::Rng;
use rav1e::bench::api::*;
use rav1e::prelude::*;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Weak};

pub fn spec() -> Spec {
  Spec {
    id: "C20",
    run,
    secs: (45, 400),
    rule: "a case drives an encoder through the frame-by-frame or the channel interface over short and long sequences while weak references watch every submitted picture and drop counters every piece of user data; after every call the frames ahead of the packets, the live pictures, the user data held and the requests without a packet are compared with bounds computed from look-ahead and reordering alone, live heap bytes are followed over six windows of a long sequence, and encoders dropped at a random moment (packets before or after them) must leave nothing alive; classes are (configuration class, interface, end)",
    assumptions: &["the driver drops packets as it receives them, except where it keeps them on purpose"],
    ..BASE
  }
}

/// user data that is counted
struct Tag(Arc<Counts>, u64);
#[derive(Default)]
struct Counts { made: AtomicI64, dropped: AtomicI64, max_id: AtomicU64 }
impl Drop for Tag { fn drop(&mut self) { self.0.dropped.fetch_add(1, SeqCst); self.0.max_id.fetch_max(self.1, SeqCst); } }

struct Watch<T: Pixel> { pics: Vec<Weak<Frame<T>>>, tags: Arc<Counts> }
impl<T: Pixel> Watch<T> {
  fn new() -> Self { Watch { pics: vec![], tags: Arc::default() } }
  fn live(&mut self) -> usize {
    // a weak reference keeps the allocation of the frame header: forget the dead ones
    self.pics.retain(|w| w.strong_count() > 0);
    self.pics.len()
  }
  fn held(&self) -> i64 { self.tags.made.load(SeqCst) - self.tags.dropped.load(SeqCst) }
  fn make(&mut self, c: &EncCase, mut f: Frame<T>, i: usize) -> (Arc<Frame<T>>, FrameParameters) {
    enc::fill(&mut f, &enc::source_pic(c, i));
    // the encoder cannot pad a picture that is watched
    for p in &mut f.planes[..enc::nplanes(&c.enc)] { p.pad(c.enc.width, c.enc.height); }
    let f = Arc::new(f);
    self.pics.push(Arc::downgrade(&f));
    self.tags.made.fetch_add(1, SeqCst);
    let mut p = enc::params_of(c, i);
    p.opaque = Some(Opaque::new(Tag(self.tags.clone(), i as u64)));
    (f, p)
  }
}

/// frames that may have to be submitted before the next packet appears
pub fn latency(e: &EncoderConfig) -> usize {
  // the frame itself and the two scene detection sees beyond the look-ahead; with reordering
  // also the group being shown, the group being looked at and the one scene detection reaches into
  e.speed_settings.rdo_lookahead_frames + if e.low_latency { 3 } else { 15 }
}

#[derive(Default, Debug)]
struct Seen { ahead: usize, live: usize, idle: usize, held: i64, extra: i64, calls: u64 }

fn context<T: Pixel>(c: &EncCase, r: &mut Rng, long: bool) -> Result<(Seen, String, Option<String>), String> {
  let mut w = Watch::<T>::new();
  let mut ctx: Context<T> = c.config().new_context().map_err(|e| format!("rejected: {e}"))?;
  let mut seen = Seen::default();
  let (mut sent, mut got, mut idle, mut flushed) = (0usize, 0usize, 0usize, false);
  let mut kept = vec![];
  let keep = !long && r.chance(1, 2);
  let stop = if long || r.chance(1, 4) { u64::MAX } else { r.below(3 * c.nframes as u64 + 6) };
  let burst = if long || r.chance(1, 2) { 0 } else { r.us(1, 8) };
  let lim = latency(&c.enc);
  let mut win = [(i64::MAX, 0i64); 6];
  let mut end = "dropped";
  while seen.calls < stop {
    seen.calls += 1;
    // some callers submit more than was asked for
    for _ in 0..burst {
      if sent < c.nframes && sent < got + lim + burst && r.chance(1, 3) { let x = w.make(c, ctx.new_frame(), sent); ctx.send_frame(x).map_err(|e| format!("send_frame {sent}: {e:?}"))?; sent += 1; }
    }
    match ctx.receive_packet() {
      Ok(mut p) => {
        got += 1;
        idle = 0;
        let t = match p.opaque.take().map(|o| o.downcast::<Tag>()) {
          Some(Ok(t)) if t.1 == p.input_frameno => t,
          Some(Ok(t)) => return Err(format!("packet {} carries the user data of {}", p.input_frameno, t.1)),
          Some(Err(_)) => return Err("user data of another type".into()),
          None => return Err(format!("packet {} lost its user data", p.input_frameno)),
        };
        if keep { kept.push((p, t)) }
      }
      Err(EncoderStatus::NeedMoreData) => {
        idle = 0;
        if flushed { return Err(format!("asks for data after the flush ({got} of {sent} packets)")); }
        if sent - got > lim { return Err(format!("LATENCY {sent} frames submitted, {got} packets received and more frames are wanted; at most {lim} ahead are implied by look-ahead {} and reordering", c.enc.speed_settings.rdo_lookahead_frames)); }
        seen.ahead = seen.ahead.max(sent - got);
        if sent < c.nframes { let x = w.make(c, ctx.new_frame(), sent); ctx.send_frame(x).map_err(|e| format!("send_frame {sent}: {e:?}"))?; sent += 1; }
        else { ctx.flush(); flushed = true; }
      }
      Err(EncoderStatus::Encoded) => { idle += 1; seen.idle = seen.idle.max(idle); if idle > 3 { return Err(format!("PROGRESS {idle} requests in a row without a packet after {got} of {sent}")); } }
      Err(EncoderStatus::LimitReached) => { if got != sent { return Err(format!("ended with {got} of {sent} packets")); } end = "finished"; break }
      Err(e) => return Err(format!("receive_packet: {e:?}")),
    }
    if !keep {
      let (l, h) = (w.live(), w.held());
      let cap = lim.max(sent - got) + 8;
      if l > cap { return Err(format!("ALIVE {l} submitted pictures are alive after {sent} frames and {got} packets (look-ahead {}; at most {cap} expected)", c.enc.speed_settings.rdo_lookahead_frames)); }
      if h > (sent - got) as i64 { return Err(format!("ALIVE {h} pieces of user data held after {sent} frames and {got} packets")); }
      seen.live = seen.live.max(l);
      seen.extra = seen.extra.max(l as i64 - (sent - got) as i64); 
      seen.held = seen.held.max(h);
      if long && sent > lim + 8 && !flushed {
        let t = (6 * (sent - lim - 8) / (c.nframes - lim - 8).max(1)).min(5);
        let v = alloc::live();
        win[t] = (win[t].0.min(v), win[t].1.max(v));
      }
    }
  }
  if long && end != "finished" { return Err("the long sequence did not finish".into()); }
  // live heap over six windows of a long stream: a leak lifts the floor and the ceiling of each
  let mut info = None;
  if long && c.nframes > lim + 60 {
    let n = (c.nframes - lim - 8) as f64 * 5.0 / 6.0;
    let per = ((win[5].0 - win[0].0) as f64 / n).min((win[5].1 - win[0].1) as f64 / n);
    let rising = win.windows(2).all(|x| x[0].0 < x[1].0 && x[0].1 < x[1].1);
    info = Some(format!("heap {} to {} B over the stream, {per:.0} B per frame", win[0].1, win[5].1));
    if rising && per > 64.0 { return Err(format!("GROWTH the heap grows by {per:.0} bytes per frame: {win:?}")); }
  }
  // release, in either order
  if r.chance(1, 2) { drop(ctx); drop(kept); } else { drop(kept); drop(ctx); }
  let l = w.live();
  if l > 0 { return Err(format!("LEAK {l} of {sent} pictures are alive after the encoder was dropped ({end}, {got} packets)")); }
  if w.held() != 0 { return Err(format!("LEAK {} of {sent} pieces of user data are alive after the encoder was dropped ({end}, {got} packets)", w.held())); }
  Ok((seen, format!("context {end}{}", if keep { " kept" } else { "" }), info))
}

fn wait<T: Pixel>(p: &PacketReceiver<T>) -> Result<Packet<T>, String> {
  let t0 = std::time::Instant::now();
  loop {
    match p.try_recv() {
      Ok(x) => return Ok(x),
      Err(e) => if t0.elapsed().as_secs() > 60 { return Err(format!("{e:?} after 60 s")) } else { std::thread::sleep(std::time::Duration::from_millis(1)) },
    }
  }
}

fn channel<T: Pixel>(c: &EncCase, r: &mut Rng) -> Result<(Seen, String, Option<String>), String> {
  let mut w = Watch::<T>::new();
  let (mut fs, pr) = c.config().new_channel::<T>().map_err(|e| format!("rejected: {e}"))?;
  let mut pr = Some(pr);
  let mut seen = Seen::default();
  let quit_rx = if r.chance(1, 3) { r.us(0, c.nframes) } else { usize::MAX };
  let quit_tx = if r.chance(1, 3) { r.us(0, c.nframes) } else { c.nframes };
  let (mut sent, mut got) = (0usize, 0usize);
  let mut kept = vec![];
  let keep = r.chance(1, 2);
  let lim = latency(&c.enc);
  let mut end = "finished";
  while sent < quit_tx {
    let x = w.make(c, fs.new_frame(), sent);
    if fs.send(x).is_err() { if pr.is_some() { return Err(format!("send {sent} refused")); } break }
    sent += 1;
    seen.calls += 1;
    if sent > quit_rx && pr.take().is_some() { end = "receiver gone"; }
    if let Some(p) = &pr {
      // once this many are ahead a packet has to come
      if sent - got > lim + 1 { match wait(p) { Ok(p) => { got += 1; if keep { kept.push(p) } } Err(e) => return Err(format!("LATENCY {sent} frames submitted, {got} packets received, none follows: {e:?}")) } }
      seen.ahead = seen.ahead.max(sent - got);
    }
  }
  if quit_tx < c.nframes && end == "finished" { end = "sender gone"; }
  drop(fs);
  if let Some(p) = pr {
    if r.chance(3, 4) {
      for x in p.iter() { got += 1; if keep { kept.push(x) } }
      if got != sent { return Err(format!("{got} packets for {sent} frames")); }
    } else { drop(p); end = "both gone"; }
  }
  drop(kept);
  let t0 = std::time::Instant::now();
  while (w.live() > 0 || w.held() > 0) && t0.elapsed().as_secs() < 40 { std::thread::sleep(std::time::Duration::from_millis(2)); }
  if w.live() > 0 || w.held() > 0 { return Err(format!("LEAK {} pictures and {} pieces of user data of {sent} frames are alive after both ends were dropped ({end}, {got} packets)", w.live(), w.held())); }
  Ok((seen, format!("channel {end}"), None))
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  let kind = (cx.idx + cx.idx / 8) % 6;
  let long = kind == 0;
  let n = if long { 1 } else { r.us(2, 4) };
  for _ in 0..n {
    let mut o = Opts { cost: 60_000.0, max_w: 48, max_h: 48, max_frames: 40, min_speed: 7, ..Default::default() };
    if long { o.still = false; o.meta = false; }
    let mut c = case::gen(&mut r, &o);
    c.enc.speed_settings.rdo_lookahead_frames = if r.chance(1, 2) { r.us(1, 12) } else { r.us(1, 60) };
    if !c.enc.still_picture { c.nframes = c.nframes.max(r.us(4, 40)); }
    if long {
      c.enc.width = r.us(16, 33);
      c.enc.height = r.us(16, 33);
      c.enc.tiles = 0; c.enc.tile_cols = 0; c.enc.tile_rows = 0;
      c.enc.speed_settings = SpeedSettings::from_preset(10);
      c.enc.speed_settings.rdo_lookahead_frames = r.us(1, 20);
      c.enc.max_key_frame_interval = r.pick(&[10, 30, 60]).max(c.enc.min_key_frame_interval);
      c.nframes = if cx.thorough { r.us(200, 700) } else { r.us(150, 300) };
    }
    if cx.verbose { eprintln!("{}", brief(&c)); }
    let ch = kind == 5 && !long;
    let x = match (ch, c.hbd) {
      (false, false) => guard(|| context::<u8>(&c, &mut r, long)),
      (false, true) => guard(|| context::<u16>(&c, &mut r, long)),
      (true, false) => guard(|| channel::<u8>(&c, &mut r)),
      (true, true) => guard(|| channel::<u16>(&c, &mut r)),
    };
    match x {
      Err(m) => { cx.fail(&panic_sig(&m), format!("{m}; {}", brief(&c))); return }
      Ok(Err(m)) => {
        if m.starts_with("GROWTH") {
          // a longer stream has to show it again
          let mut c2 = c.clone();
          c2.nframes *= 3;
          let again = if c.hbd { guard(|| context::<u16>(&c2, &mut r, true)) } else { guard(|| context::<u8>(&c2, &mut r, true)) };
          if !matches!(&again, Ok(Err(x)) if x.starts_with("GROWTH")) { cx.count("growth_not_confirmed", 1); continue }
        }
        let k = m.split(' ').next().unwrap_or("").to_lowercase();
        let k = if ["latency", "progress", "alive", "growth", "leak"].contains(&k.as_str()) { k } else { "protocol".into() };
        cx.fail(&k, format!("{m}; {}", brief(&c)));
        return;
      }
      Ok(Ok((s, end, info))) => {
        cx.count("calls_watched", s.calls);
        cx.count("pictures_watched", c.nframes as u64);
        cx.class(format!("{end} {}", c.class()));
        if cx.verbose { eprintln!("DATA {} L={} lim={} {s:?} {end} {info:?}", if c.enc.low_latency { "ll" } else { "re" }, c.enc.speed_settings.rdo_lookahead_frames, latency(&c.enc)); }
        cx.sample(format!("{end}: {} frames, {} ahead of {} allowed, {} pictures alive; {}", c.nframes, s.ahead, latency(&c.enc), s.live, info.unwrap_or_default()));
      }
    }
  }
}
