// Support for the demonstrations: drives the encoder, decodes with dav1d.
pub use rav1e::bench::api::*;
pub use rav1e::prelude::*;
use libdav1d_sys as d;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct Pic(pub Vec<(usize, usize, Vec<u16>)>);

pub fn hash(mut x: u64) -> u64 {
  x ^= x >> 30; x = x.wrapping_mul(0xbf58476d1ce4e5b9); x ^= x >> 27; x = x.wrapping_mul(0x94d049bb133111eb); x ^ (x >> 31)
}
pub fn dims(e: &EncoderConfig, p: usize) -> (usize, usize) {
  let (xd, yd) = match (p, e.chroma_sampling) { (0, _) | (_, ChromaSampling::Cs444) => (0, 0), (_, ChromaSampling::Cs422) => (1, 0), _ => (1, 1) };
  ((e.width + xd) >> xd, (e.height + yd) >> yd)
}
pub fn planes(e: &EncoderConfig) -> usize { if e.chroma_sampling == ChromaSampling::Cs400 { 1 } else { 3 } }
/// A moving texture with noise and hard edges.
pub fn picture(e: &EncoderConfig, n: usize) -> Pic {
  let max = (1i64 << e.bit_depth) - 1;
  Pic((0..planes(e)).map(|p| {
    let (w, h) = dims(e, p);
    let mut v = vec![];
    for y in 0..h { for x in 0..w {
      let (x, y) = (x as i64 + 3 * n as i64, y as i64 + n as i64);
      let b = hash((x / 7 + 1000 * (y / 5)) as u64 + 77 * p as u64) as i64 & 127;
      let s = ((x * 5 + y * 3 + p as i64 * 40) & 127) + b + (hash((x * 9176 + y) as u64) & 15) as i64;
      v.push(((s << (e.bit_depth - 8)).clamp(0, max)) as u16);
    } }
    (w, h, v)
  }).collect())
}
pub fn frame<T: Pixel>(ctx: &Context<T>, p: &Pic) -> Frame<T> {
  let mut f = ctx.new_frame();
  for (i, (w, h, v)) in p.0.iter().enumerate() {
    let st = f.planes[i].cfg.stride;
    let b = f.planes[i].data_origin_mut();
    for y in 0..*h { for x in 0..*w { b[y * st + x] = T::cast_from(v[y * w + x]); } }
  }
  f
}
pub fn extract<T: Pixel>(f: &Frame<T>, e: &EncoderConfig) -> Pic {
  Pic((0..planes(e)).map(|p| {
    let (w, h) = dims(e, p);
    let st = f.planes[p].cfg.stride;
    let b = f.planes[p].data_origin();
    let mut v = vec![];
    for y in 0..h { for x in 0..w { v.push(u16::cast_from(b[y * st + x])); } }
    (w, h, v)
  }).collect())
}
pub fn config(e: &EncoderConfig, threads: usize) -> Config { Config::new().with_encoder_config(e.clone()).with_threads(threads) }
/// Encodes n pictures; params gives the parameters of each.
pub fn encode<T: Pixel>(cfg: &Config, e: &EncoderConfig, n: usize, pic: &dyn Fn(usize) -> Pic, params: &dyn Fn(usize) -> FrameParameters) -> Vec<Packet<T>> {
  let mut ctx: Context<T> = cfg.new_context().expect("configuration");
  let (mut sent, mut out) = (0, vec![]);
  for _ in 0..100 * (n + 100) {
    match ctx.receive_packet() {
      Ok(p) => out.push(p),
      Err(EncoderStatus::NeedMoreData) => if sent < n {
        let f = frame(&ctx, &pic(sent));
        ctx.send_frame((Arc::new(f), params(sent))).unwrap();
        sent += 1;
      } else { ctx.flush() },
      Err(EncoderStatus::Encoded) => {}
      Err(EncoderStatus::LimitReached) => return out,
      Err(x) => panic!("{x:?}"),
    }
  }
  panic!("no progress")
}
pub fn noparams(_: usize) -> FrameParameters { Default::default() }
/// Decodes; one list of pictures per packet.
pub fn decode(packets: &[Vec<u8>]) -> Result<Vec<Vec<Pic>>, String> {
  unsafe {
    let mut s = std::mem::MaybeUninit::uninit();
    d::dav1d_default_settings(s.as_mut_ptr());
    let mut s = s.assume_init();
    s.n_threads = 1; s.max_frame_delay = 1; s.apply_grain = 0; s.strict_std_compliance = 1;
    s.logger.callback = None;
    let mut c = std::ptr::null_mut();
    if d::dav1d_open(&mut c, &s) != 0 { return Err("dav1d_open".into()); }
    let mut all = vec![];
    for p in packets {
      let mut out = vec![];
      let mut dd: d::Dav1dData = std::mem::zeroed();
      let q = d::dav1d_data_create(&mut dd, p.len());
      std::ptr::copy_nonoverlapping(p.as_ptr(), q, p.len());
      loop {
        let r = d::dav1d_send_data(c, &mut dd);
        if r != 0 && r != d::DAV1D_ERR_AGAIN { return Err(format!("send {r}")); }
        loop {
          let mut pic: d::Dav1dPicture = std::mem::zeroed();
          let r = d::dav1d_get_picture(c, &mut pic);
          if r == d::DAV1D_ERR_AGAIN { break; }
          if r != 0 { return Err(format!("decode {r}")); }
          let (xd, yd, np) = match *(std::ptr::addr_of!(pic.p.layout) as *const u32) { 0 => (1, 1, 1), 1 => (1, 1, 3), 2 => (1, 0, 3), _ => (0, 0, 3) };
          out.push(Pic((0..np).map(|i| {
            let (w, h) = if i == 0 { (pic.p.w as usize, pic.p.h as usize) } else { ((pic.p.w as usize + xd) >> xd, (pic.p.h as usize + yd) >> yd) };
            let mut v = vec![];
            for y in 0..h {
              let row = (pic.data[i] as *const u8).offset(pic.stride[(i > 0) as usize] * y as isize);
              for x in 0..w { v.push(if pic.p.bpc == 8 { *row.add(x) as u16 } else { *(row as *const u16).add(x) }); }
            }
            (w, h, v)
          }).collect()));
          d::dav1d_picture_unref(&mut pic);
        }
        if dd.sz == 0 { break; }
      }
      all.push(out);
    }
    d::dav1d_close(&mut c);
    Ok(all)
  }
}
/// Err when a packet does not decode to exactly the reconstruction returned with it.
pub fn conform<T: Pixel>(pk: &[Packet<T>], e: &EncoderConfig) -> Result<(), String> {
  let v = decode(&pk.iter().map(|p| p.data.clone()).collect::<Vec<_>>())?;
  for (p, x) in pk.iter().zip(v) {
    if x.len() != 1 { return Err(format!("packet {} gives {} pictures", p.input_frameno, x.len())); }
    if extract(p.rec.as_ref().unwrap(), e) != x[0] { return Err(format!("packet {} decodes to something else", p.input_frameno)); }
  }
  Ok(())
}
pub fn check(ok: bool, what: &str) { if !ok { eprintln!("FAILED: {what}"); std::process::exit(1); } }
