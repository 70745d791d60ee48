//! Independent AV1 OBU reader (written from the AV1 specification, section 5).
pub struct Bits<'a> {
  d: &'a [u8],
  pos: usize,
}
impl<'a> Bits<'a> {
  pub fn new(d: &'a [u8]) -> Self { Bits { d, pos: 0 } }
  pub fn f(&mut self, n: usize) -> Result<u64, String> {
    let mut v = 0;
    for _ in 0..n {
      let byte = *self.d.get(self.pos >> 3).ok_or("bit reader past end")?;
      v = v << 1 | ((byte >> (7 - (self.pos & 7))) & 1) as u64;
      self.pos += 1;
    }
    Ok(v)
  }
  pub fn b(&mut self) -> Result<bool, String> { Ok(self.f(1)? != 0) }
  pub fn pos(&self) -> usize { self.pos }
  pub fn uvlc(&mut self) -> Result<u64, String> {
    let mut lz = 0;
    while !self.b()? {
      lz += 1;
      if lz > 32 { return Err("uvlc".into()); }
    }
    if lz >= 32 { return Ok(u32::MAX as u64); }
    Ok(self.f(lz)? + (1 << lz) - 1)
  }
}

pub fn leb128(d: &[u8]) -> Result<(u64, usize), String> {
  let mut v = 0u64;
  for i in 0..8 {
    let b = *d.get(i).ok_or("leb128 past end")?;
    v |= ((b & 0x7f) as u64) << (7 * i);
    if b & 0x80 == 0 {
      if v > u32::MAX as u64 { return Err("leb128 value over 32 bits".into()); }
      return Ok((v, i + 1));
    }
  }
  Err("leb128 too long".into())
}

pub const OBU_SEQ: u8 = 1;
pub const OBU_TD: u8 = 2;
pub const OBU_FRAME_HEADER: u8 = 3;
pub const OBU_TILE_GROUP: u8 = 4;
pub const OBU_METADATA: u8 = 5;
pub const OBU_FRAME: u8 = 6;

#[derive(Clone, Debug)]
pub struct Obu<'a> {
  pub ty: u8,
  pub data: &'a [u8],
  /// header + size + payload
  pub raw: &'a [u8],
}

/// Splits a temporal unit into OBUs; every OBU must carry its size.
pub fn split(mut d: &[u8]) -> Result<Vec<Obu<'_>>, String> {
  let mut out = vec![];
  while !d.is_empty() {
    let h = d[0];
    if h & 0x80 != 0 { return Err("obu_forbidden_bit set".into()); }
    let ty = (h >> 3) & 15;
    let ext = h & 4 != 0;
    let has_size = h & 2 != 0;
    if h & 1 != 0 { return Err("obu_reserved_1bit set".into()); }
    if !has_size { return Err("obu without size field".into()); }
    let mut off = 1 + ext as usize;
    if d.len() < off { return Err("obu header truncated".into()); }
    let (len, n) = leb128(&d[off..])?;
    off += n;
    let end = off + len as usize;
    if d.len() < end { return Err(format!("obu type {ty} size {len} exceeds packet")); }
    out.push(Obu { ty, data: &d[off..end], raw: &d[..end] });
    d = &d[end..];
  }
  Ok(out)
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Seq {
  pub profile: u8,
  pub still_picture: bool,
  pub reduced_still: bool,
  pub timing_info: Option<(u32, u32, bool, u64)>,
  pub decoder_model: bool,
  pub op_points: Vec<(u16, u8, u8)>, // idc, level, tier
  pub max_w: u32,
  pub max_h: u32,
  pub frame_id_present: bool,
  pub delta_frame_id_len: u8,
  pub frame_id_len: u8,
  pub sb128: bool,
  pub filter_intra: bool,
  pub intra_edge: bool,
  pub interintra: bool,
  pub masked_compound: bool,
  pub warped: bool,
  pub dual_filter: bool,
  pub order_hint_bits: u8,
  pub jnt_comp: bool,
  pub ref_frame_mvs: bool,
  pub force_screen_content: u8,
  pub force_integer_mv: u8,
  pub superres: bool,
  pub cdef: bool,
  pub restoration: bool,
  pub bit_depth: u8,
  pub mono: bool,
  pub cp: u8,
  pub tc: u8,
  pub mc: u8,
  pub color_desc_present: bool,
  pub full_range: bool,
  pub ss_x: bool,
  pub ss_y: bool,
  pub chroma_pos: u8,
  pub separate_uv_delta_q: bool,
  pub film_grain: bool,
}

pub fn parse_seq(d: &[u8]) -> Result<Seq, String> {
  let mut b = Bits::new(d);
  let mut s = Seq::default();
  s.profile = b.f(3)? as u8;
  s.still_picture = b.b()?;
  s.reduced_still = b.b()?;
  if s.reduced_still {
    let l = b.f(5)? as u8;
    s.op_points.push((0, l, 0));
  } else {
    if b.b()? {
      let n = b.f(32)? as u32;
      let t = b.f(32)? as u32;
      let eq = b.b()?;
      let ticks = if eq { b.uvlc()? + 1 } else { 0 };
      s.timing_info = Some((n, t, eq, ticks));
      s.decoder_model = b.b()?;
      if s.decoder_model { return Err("decoder model not expected".into()); }
    }
    let idp = b.b()?;
    let cnt = b.f(5)? + 1;
    for _ in 0..cnt {
      let idc = b.f(12)? as u16;
      let l = b.f(5)? as u8;
      let tier = if l > 7 { b.f(1)? as u8 } else { 0 };
      if idp && b.b()? { b.f(4)?; }
      s.op_points.push((idc, l, tier));
    }
  }
  let wb = b.f(4)? as usize + 1;
  let hb = b.f(4)? as usize + 1;
  s.max_w = b.f(wb)? as u32 + 1;
  s.max_h = b.f(hb)? as u32 + 1;
  if !s.reduced_still {
    s.frame_id_present = b.b()?;
  }
  if s.frame_id_present {
    s.delta_frame_id_len = b.f(4)? as u8 + 2;
    s.frame_id_len = b.f(3)? as u8 + s.delta_frame_id_len + 1;
  }
  s.sb128 = b.b()?;
  s.filter_intra = b.b()?;
  s.intra_edge = b.b()?;
  s.force_screen_content = 2;
  s.force_integer_mv = 2;
  if !s.reduced_still {
    s.interintra = b.b()?;
    s.masked_compound = b.b()?;
    s.warped = b.b()?;
    s.dual_filter = b.b()?;
    let oh = b.b()?;
    if oh {
      s.jnt_comp = b.b()?;
      s.ref_frame_mvs = b.b()?;
    }
    let choose = b.b()?;
    s.force_screen_content = if choose { 2 } else { b.f(1)? as u8 };
    if s.force_screen_content > 0 {
      let c = b.b()?;
      s.force_integer_mv = if c { 2 } else { b.f(1)? as u8 };
    }
    if oh {
      s.order_hint_bits = b.f(3)? as u8 + 1;
    }
  }
  s.superres = b.b()?;
  s.cdef = b.b()?;
  s.restoration = b.b()?;
  // color_config
  let hbd = b.b()?;
  s.bit_depth = if s.profile == 2 && hbd {
    if b.b()? { 12 } else { 10 }
  } else if hbd { 10 } else { 8 };
  s.mono = if s.profile == 1 { false } else { b.b()? };
  s.color_desc_present = b.b()?;
  if s.color_desc_present {
    s.cp = b.f(8)? as u8;
    s.tc = b.f(8)? as u8;
    s.mc = b.f(8)? as u8;
  } else {
    s.cp = 2;
    s.tc = 2;
    s.mc = 2;
  }
  if s.mono {
    s.full_range = b.b()?;
    s.ss_x = true;
    s.ss_y = true;
  } else if s.cp == 1 && s.tc == 13 && s.mc == 0 {
    s.full_range = true;
    s.separate_uv_delta_q = b.b()?;
  } else {
    s.full_range = b.b()?;
    match s.profile {
      0 => { s.ss_x = true; s.ss_y = true; }
      1 => {}
      _ => {
        if s.bit_depth == 12 {
          s.ss_x = b.b()?;
          s.ss_y = if s.ss_x { b.b()? } else { false };
        } else {
          s.ss_x = true;
        }
      }
    }
    if s.ss_x && s.ss_y { s.chroma_pos = b.f(2)? as u8; }
    s.separate_uv_delta_q = b.b()?;
  }
  s.film_grain = b.b()?;
  // trailing bits: one 1 then zeros to the end
  trailing(&mut b, d)?;
  Ok(s)
}

pub fn trailing(b: &mut Bits, d: &[u8]) -> Result<(), String> {
  if !b.b()? { return Err("trailing_one_bit missing".into()); }
  while b.pos() < d.len() * 8 {
    if b.b()? { return Err("trailing zero bit set".into()); }
  }
  Ok(())
}

/// First part of a frame header.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct FrameHead {
  pub show_existing: bool,
  pub existing_idx: u8,
  pub frame_type: u8, // 0 key 1 inter 2 intra-only 3 switch
  pub show_frame: bool,
  pub showable: bool,
  pub error_res: bool,
  pub disable_cdf_update: bool,
  pub order_hint: u32,
  pub primary_ref: u8,
  pub refresh: u8,
}

pub fn parse_frame_head(d: &[u8], s: &Seq) -> Result<FrameHead, String> {
  let mut b = Bits::new(d);
  let mut h = FrameHead::default();
  let all = 0xff;
  if s.reduced_still {
    h.frame_type = 0;
    h.show_frame = true;
    h.refresh = all;
    h.error_res = true;
    h.primary_ref = 7;
    return Ok(h);
  }
  h.show_existing = b.b()?;
  if h.show_existing {
    h.existing_idx = b.f(3)? as u8;
    return Ok(h);
  }
  h.frame_type = b.f(2)? as u8;
  h.show_frame = b.b()?;
  h.showable = if h.show_frame { h.frame_type != 0 } else { b.b()? };
  h.error_res = if h.frame_type == 3 || (h.frame_type == 0 && h.show_frame) { true } else { b.b()? };
  h.disable_cdf_update = b.b()?;
  let sct = if s.force_screen_content == 2 { b.b()? } else { s.force_screen_content == 1 };
  if sct {
    if s.force_integer_mv == 2 { b.b()?; }
  }
  if s.frame_id_present { b.f(s.frame_id_len as usize)?; }
  if h.frame_type != 3 { b.b()?; } // frame_size_override
  h.order_hint = b.f(s.order_hint_bits as usize)? as u32;
  let intra = h.frame_type == 0 || h.frame_type == 2;
  h.primary_ref = if intra || h.error_res { 7 } else { b.f(3)? as u8 };
  h.refresh = if h.frame_type == 3 || (h.frame_type == 0 && h.show_frame) { all } else { b.f(8)? as u8 };
  Ok(h)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Meta {
  Cll(u16, u16),
  Mdcv { prim: [(u16, u16); 3], wp: (u16, u16), max: u32, min: u32 },
  T35 { cc: u8, ext: u8, data: Vec<u8> },
  Other(u64),
}

pub fn parse_meta(d: &[u8]) -> Result<Meta, String> {
  let (ty, n) = leb128(d)?;
  let p = &d[n..];
  let mut b = Bits::new(p);
  match ty {
    1 => {
      let r = Meta::Cll(b.f(16)? as u16, b.f(16)? as u16);
      trailing(&mut b, p)?;
      Ok(r)
    }
    2 => {
      let mut prim = [(0, 0); 3];
      for x in prim.iter_mut() { *x = (b.f(16)? as u16, b.f(16)? as u16); }
      let wp = (b.f(16)? as u16, b.f(16)? as u16);
      let max = b.f(32)? as u32;
      let min = b.f(32)? as u32;
      trailing(&mut b, p)?;
      Ok(Meta::Mdcv { prim, wp, max, min })
    }
    4 => {
      let cc = b.f(8)? as u8;
      let ext = if cc == 0xff { b.f(8)? as u8 } else { 0 };
      let rest = &p[b.pos() / 8..];
      // payload ends with the last non-zero byte, which holds the trailing bit
      let last = rest.iter().rposition(|&x| x != 0).ok_or("t35 without trailing bit")?;
      if rest[last] != 0x80 { return Err(format!("t35 trailing byte {:#x}", rest[last])); }
      Ok(Meta::T35 { cc, ext, data: rest[..last].to_vec() })
    }
    x => Ok(Meta::Other(x)),
  }
}
