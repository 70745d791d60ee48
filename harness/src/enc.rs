//! Runs real encodes and records what crossed the API boundary.
use crate::case::EncCase;
use crate::rng::{Fnv, Rng};
use rav1e::bench::api::*;
use rav1e::prelude::*;
use std::sync::Arc;

pub fn plane_dims(e: &EncoderConfig, pli: usize) -> (usize, usize, usize, usize) {
  let (xd, yd) = if pli == 0 { (0, 0) } else {
    match e.chroma_sampling {
      ChromaSampling::Cs420 | ChromaSampling::Cs400 => (1, 1),
      ChromaSampling::Cs422 => (1, 0),
      ChromaSampling::Cs444 => (0, 0),
    }
  };
  ((e.width + xd) >> xd, (e.height + yd) >> yd, xd, yd)
}
pub fn nplanes(e: &EncoderConfig) -> usize {
  if e.chroma_sampling == ChromaSampling::Cs400 { 1 } else { 3 }
}

/// A picture as plain samples (visible area only).
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pic {
  pub planes: Vec<(usize, usize, Vec<u16>)>,
}
impl Pic {
  pub fn hash(&self) -> u64 {
    let mut f = Fnv::default();
    for (w, h, d) in &self.planes {
      f.add(&(*w as u32).to_le_bytes());
      f.add(&(*h as u32).to_le_bytes());
      f.add16(d);
    }
    f.0
  }
  /// first difference
  pub fn diff(&self, o: &Pic) -> Option<String> {
    if self.planes.len() != o.planes.len() {
      return Some(format!("{} planes vs {}", self.planes.len(), o.planes.len()));
    }
    for (i, (a, b)) in self.planes.iter().zip(&o.planes).enumerate() {
      if (a.0, a.1) != (b.0, b.1) {
        return Some(format!("plane {i} size {}x{} vs {}x{}", a.0, a.1, b.0, b.1));
      }
      if let Some(p) = a.2.iter().zip(&b.2).position(|(x, y)| x != y) {
        let n = a.2.iter().zip(&b.2).filter(|(x, y)| x != y).count();
        return Some(format!("plane {i} at ({},{}): {} vs {} ({n} samples differ)", p % a.0, p / a.0, a.2[p], b.2[p]));
      }
    }
    None
  }
}

pub fn source_pic(c: &EncCase, n: usize) -> Pic {
  let e = &c.enc;
  let mut planes = vec![];
  for pli in 0..nplanes(e) {
    let (w, h, xd, yd) = plane_dims(e, pli);
    let mut d = vec![0u16; w * h];
    c.content.plane(n as u64, pli, w, h, xd, yd, e.bit_depth, &mut d);
    planes.push((w, h, d));
  }
  Pic { planes }
}

pub fn fill<T: Pixel>(f: &mut Frame<T>, p: &Pic) {
  for (pli, (w, h, d)) in p.planes.iter().enumerate() {
    let stride = f.planes[pli].cfg.stride;
    let buf = f.planes[pli].data_origin_mut();
    for y in 0..*h {
      for x in 0..*w {
        buf[y * stride + x] = T::cast_from(d[y * w + x]);
      }
    }
  }
}

pub fn extract<T: Pixel>(f: &Frame<T>, e: &EncoderConfig) -> Pic {
  let mut planes = vec![];
  for pli in 0..nplanes(e) {
    let (w, h, _, _) = plane_dims(e, pli);
    let stride = f.planes[pli].cfg.stride;
    let buf = f.planes[pli].data_origin();
    let mut d = Vec::with_capacity(w * h);
    for y in 0..h {
      for x in 0..w {
        d.push(u16::cast_from(buf[y * stride + x]));
      }
    }
    planes.push((w, h, d));
  }
  Pic { planes }
}

#[derive(Clone, Debug)]
pub struct Pkt {
  pub data: Vec<u8>,
  pub rec: Option<Pic>,
  pub source: Option<Pic>,
  pub no: u64,
  pub ty: FrameType,
  pub qp: u8,
  pub opaque: Option<u64>,
}

pub fn pkt<T: Pixel>(p: Packet<T>, e: &EncoderConfig) -> Pkt {
  Pkt {
    rec: p.rec.as_ref().map(|f| extract(f, e)),
    source: p.source.as_ref().map(|f| extract(f, e)),
    no: p.input_frameno,
    ty: p.frame_type,
    qp: p.qp,
    opaque: p.opaque.map(|o| *o.downcast::<u64>().unwrap_or_else(|_| panic!("opaque of another type"))),
    data: p.data,
  }
}

/// Simple drive: request packets as soon as possible. Returns the packets in order.
/// The user data submitted with a frame: some frames of some streams have none.
pub fn opaque_of(c: &EncCase, i: usize) -> Option<u64> {
  let k = crate::rng::mix(crate::rng::mix(c.content.seed ^ 0x5eed) ^ i as u64);
  if c.content.seed & 3 == 1 && k % 3 == 0 { None } else { Some(1000 + i as u64) }
}

pub fn params_of(c: &EncCase, i: usize) -> FrameParameters {
  let t = c.t35.iter().find(|(n, _)| *n == i).map(|(_, v)| {
    v.iter().map(|(a, b, d)| T35 { country_code: *a, country_code_extension_byte: *b, data: d.clone().into_boxed_slice() }).collect::<Vec<_>>()
  }).unwrap_or_default();
  FrameParameters {
    frame_type_override: if c.force_key.contains(&i) { FrameTypeOverride::Key } else { FrameTypeOverride::No },
    opaque: opaque_of(c, i).map(Opaque::new),
    t35_metadata: t.into_boxed_slice(),
  }
}

pub fn encode_t<T: Pixel>(c: &EncCase, cfg: &Config) -> Result<Vec<Pkt>, String> {
  let mut ctx: Context<T> = cfg.new_context().map_err(|e| format!("rejected: {e}"))?;
  let mut out = vec![];
  let mut sent = 0;
  let mut guard = 0u64;
  let limit = 50 * (c.nframes as u64 + 64) + 1000;
  loop {
    guard += 1;
    if guard > limit { return Err(format!("no progress after {limit} requests")); }
    match ctx.receive_packet() {
      Ok(p) => out.push(pkt(p, &c.enc)),
      Err(EncoderStatus::NeedMoreData) => {
        if sent < c.nframes {
          let mut f = ctx.new_frame();
          fill(&mut f, &source_pic(c, sent));
          ctx.send_frame((Arc::new(f), params_of(c, sent))).map_err(|e| format!("send_frame {sent}: {e:?}"))?;
          sent += 1;
        } else {
          ctx.flush();
        }
      }
      Err(EncoderStatus::Encoded) => {}
      Err(EncoderStatus::LimitReached) => return Ok(out),
      Err(e) => return Err(format!("receive_packet: {e:?}")),
    }
  }
}

pub fn encode_cfg(c: &EncCase, cfg: &Config) -> Result<Vec<Pkt>, String> {
  if c.hbd { encode_t::<u16>(c, cfg) } else { encode_t::<u8>(c, cfg) }
}
pub fn encode(c: &EncCase) -> Result<Vec<Pkt>, String> {
  encode_cfg(c, &c.config())
}

pub fn stream_hash(p: &[Pkt]) -> u64 {
  let mut f = Fnv::default();
  for x in p {
    f.add(&(x.data.len() as u64).to_le_bytes());
    f.add(&x.data);
    f.add(&x.no.to_le_bytes());
    if let Some(r) = &x.rec { f.add(&r.hash().to_le_bytes()); }
  }
  f.0
}

pub fn case_rng(seed: u64, check: &str, idx: u64) -> Rng {
  Rng::new(seed ^ crate::rng::hash(check.as_bytes()), idx)
}
