//! The independent decoders.
use crate::enc::Pic;
use std::ffi::c_int;
use std::mem::{self, MaybeUninit};
use std::ptr;

#[derive(Clone, Debug)]
pub struct FrameInfo {
  pub shown_existing: bool,
  pub show_frame: bool,
  pub frame_type: u8,
  pub w: i32,
  pub h: i32,
  pub render_w: i32,
  pub render_h: i32,
  pub yac: u8,
  pub ydc_delta: i8,
  pub uac_delta: i8,
  pub vac_delta: i8,
  pub udc_delta: i8,
  pub vdc_delta: i8,
  pub error_res: bool,
  pub tile_cols: Vec<u16>,
  pub tile_rows: Vec<u16>,
  pub seg_enabled: bool,
  pub seg_qidx: [u8; 8],
  pub cdef_bits: u8,
  pub lr_types: [u32; 3],
  pub lf: [u8; 4],
  pub txfm_mode: u32,
  pub reduced_tx: bool,
  pub grain_present: bool,
  pub grain: dav1d_sys::Dav1dFilmGrainData,
  pub cll: Option<(u16, u16)>,
  pub mdcv: Option<([[u16; 2]; 3], [u16; 2], u32, u32)>,
  pub t35: Vec<(u8, u8, Vec<u8>)>,
  pub comp_refs: bool,
  pub frame_offset: u8,
}

pub struct Decoded {
  pub pic: Pic,
  pub layout: u32,
  pub bpc: i32,
  pub info: FrameInfo,
}

pub struct Dav1d {
  c: *mut dav1d_sys::Dav1dContext,
}

unsafe fn read_enum<T>(p: *const T) -> u32 { *(p as *const u32) }

impl Dav1d {
  pub fn new(invisible: bool) -> Result<Self, String> {
    unsafe {
      let mut s = MaybeUninit::uninit();
      dav1d_sys::dav1d_default_settings(s.as_mut_ptr());
      let mut s = s.assume_init();
      s.n_threads = 1;
      s.max_frame_delay = 1;
      s.apply_grain = 0;
      s.strict_std_compliance = 1;
      s.output_invisible_frames = invisible as c_int;
      s.logger.callback = None;
      let mut c = ptr::null_mut();
      let r = dav1d_sys::dav1d_open(&mut c, &s);
      if r != 0 { return Err(format!("dav1d_open {r}")); }
      Ok(Dav1d { c })
    }
  }
  /// Decodes one temporal unit; every picture output for it.
  pub fn decode(&mut self, data: &[u8]) -> Result<Vec<Decoded>, String> {
    unsafe {
      let mut d: dav1d_sys::Dav1dData = mem::zeroed();
      let p = dav1d_sys::dav1d_data_create(&mut d, data.len());
      if p.is_null() { return Err("dav1d_data_create".into()); }
      ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
      let mut out = vec![];
      loop {
        let r = dav1d_sys::dav1d_send_data(self.c, &mut d);
        if r != 0 && r != dav1d_sys::DAV1D_ERR_AGAIN {
          dav1d_sys::dav1d_data_unref(&mut d);
          return Err(format!("dav1d refuses the data ({r})"));
        }
        let r2 = self.drain(&mut out)?;
        if d.sz == 0 { break; }
        if !r2 && r == dav1d_sys::DAV1D_ERR_AGAIN {
          dav1d_sys::dav1d_data_unref(&mut d);
          return Err("dav1d makes no progress".into());
        }
      }
      Ok(out)
    }
  }
  unsafe fn drain(&mut self, out: &mut Vec<Decoded>) -> Result<bool, String> {
    let mut any = false;
    loop {
      let mut pic: dav1d_sys::Dav1dPicture = mem::zeroed();
      let r = dav1d_sys::dav1d_get_picture(self.c, &mut pic);
      if r == dav1d_sys::DAV1D_ERR_AGAIN { return Ok(any); }
      if r != 0 { return Err(format!("dav1d cannot decode ({r})")); }
      any = true;
      let layout = read_enum(ptr::addr_of!(pic.p.layout));
      let (xd, yd, np) = match layout { 0 => (1, 1, 1), 1 => (1, 1, 3), 2 => (1, 0, 3), _ => (0, 0, 3) };
      let (w, h) = (pic.p.w as usize, pic.p.h as usize);
      let mut planes = vec![];
      for pli in 0..np {
        let (pw, ph) = if pli == 0 { (w, h) } else { ((w + xd) >> xd, (h + yd) >> yd) };
        let st = pic.stride[(pli > 0) as usize];
        let mut v = Vec::with_capacity(pw * ph);
        for y in 0..ph {
          let row = (pic.data[pli] as *const u8).offset(st * y as isize);
          for x in 0..pw {
            v.push(if pic.p.bpc == 8 { *row.add(x) as u16 } else { *(row as *const u16).add(x) });
          }
        }
        planes.push((pw, ph, v));
      }
      let f = &*pic.frame_hdr;
      let info = FrameInfo {
        shown_existing: f.show_existing_frame != 0,
        show_frame: f.show_frame != 0,
        frame_type: read_enum(ptr::addr_of!(f.frame_type)) as u8,
        w: f.width[1],
        h: f.height,
        render_w: f.render_width,
        render_h: f.render_height,
        yac: f.quant.yac,
        ydc_delta: f.quant.ydc_delta,
        uac_delta: f.quant.uac_delta,
        vac_delta: f.quant.vac_delta,
        udc_delta: f.quant.udc_delta,
        vdc_delta: f.quant.vdc_delta,
        error_res: f.error_resilient_mode != 0,
        tile_cols: f.tiling.col_start_sb[..=f.tiling.cols as usize].to_vec(),
        tile_rows: f.tiling.row_start_sb[..=f.tiling.rows as usize].to_vec(),
        seg_enabled: f.segmentation.enabled != 0,
        seg_qidx: f.segmentation.qidx,
        cdef_bits: f.cdef.n_bits,
        lr_types: [
          read_enum(ptr::addr_of!(f.restoration.type_[0])),
          read_enum(ptr::addr_of!(f.restoration.type_[1])),
          read_enum(ptr::addr_of!(f.restoration.type_[2])),
        ],
        lf: [f.loopfilter.level_y[0], f.loopfilter.level_y[1], f.loopfilter.level_u, f.loopfilter.level_v],
        txfm_mode: read_enum(ptr::addr_of!(f.txfm_mode)),
        reduced_tx: f.reduced_txtp_set != 0,
        grain_present: f.film_grain.present != 0,
        grain: f.film_grain.data,
        cll: if pic.content_light.is_null() { None } else {
          let c = &*pic.content_light;
          Some((c.max_content_light_level, c.max_frame_average_light_level))
        },
        mdcv: if pic.mastering_display.is_null() { None } else {
          let m = &*pic.mastering_display;
          Some((m.primaries, m.white_point, m.max_luminance, m.min_luminance))
        },
        t35: (0..pic.n_itut_t35).map(|i| {
          let t = &*pic.itut_t35.add(i);
          (t.country_code, t.country_code_extension_byte, std::slice::from_raw_parts(t.payload, t.payload_size).to_vec())
        }).collect(),
        comp_refs: f.switchable_comp_refs != 0,
        frame_offset: f.frame_offset,
      };
      out.push(Decoded { pic: Pic { planes }, layout, bpc: pic.p.bpc, info });
      dav1d_sys::dav1d_picture_unref(&mut pic);
    }
  }
}
impl Drop for Dav1d {
  fn drop(&mut self) { unsafe { dav1d_sys::dav1d_close(&mut self.c) } }
}

pub struct Aom {
  c: Box<aom_sys::aom_codec_ctx>,
}
impl Aom {
  pub fn new() -> Result<Self, String> {
    unsafe {
      let cfg = aom_sys::aom_codec_dec_cfg_t { threads: 1, w: 0, h: 0, allow_lowbitdepth: 1 };
      let mut c: Box<aom_sys::aom_codec_ctx> = Box::new(mem::zeroed());
      let r = aom_sys::aom_codec_dec_init_ver(&mut *c, aom_sys::aom_codec_av1_dx(), &cfg, 0, aom_sys::AOM_DECODER_ABI_VERSION as i32);
      if r as u32 != 0 { return Err("aom init".into()); }
      let r = aom_sys::aom_codec_control(&mut *c, aom_sys::aom_dec_control_id::AV1D_SET_SKIP_FILM_GRAIN as i32, 1 as c_int);
      if r as u32 != 0 { return Err("aom control".into()); }
      Ok(Aom { c })
    }
  }
  pub fn decode(&mut self, data: &[u8], bit_depth: usize) -> Result<Vec<Pic>, String> {
    unsafe {
      let r = aom_sys::aom_codec_decode(&mut *self.c, data.as_ptr(), data.len(), ptr::null_mut());
      if r as u32 != 0 {
        let d = aom_sys::aom_codec_error_detail(&mut *self.c);
        let d = if d.is_null() { "".into() } else { std::ffi::CStr::from_ptr(d).to_string_lossy() };
        return Err(format!("libaom error {} {d}", r as u32));
      }
      let mut it: aom_sys::aom_codec_iter_t = ptr::null_mut();
      let mut out = vec![];
      loop {
        let img = aom_sys::aom_codec_get_frame(&mut *self.c, &mut it);
        if img.is_null() { return Ok(out); }
        let mut corrupted: c_int = 0;
        aom_sys::aom_codec_control(&mut *self.c, aom_sys::aom_dec_control_id::AOMD_GET_FRAME_CORRUPTED as i32, &mut corrupted);
        if corrupted != 0 { return Err("libaom: corrupted frame".into()); }
        let i = &*img;
        let np = if i.monochrome != 0 { 1 } else { 3 };
        let (w, h) = (i.d_w as usize, i.d_h as usize);
        let (xd, yd) = (i.x_chroma_shift as usize, i.y_chroma_shift as usize);
        let hi = (i.fmt as u32) & 0x800 != 0;
        if i.bit_depth as usize != bit_depth { return Err(format!("libaom bit depth {}", i.bit_depth)); }
        let mut planes = vec![];
        for pli in 0..np {
          let (pw, ph) = if pli == 0 { (w, h) } else { ((w + xd) >> xd, (h + yd) >> yd) };
          let mut v = Vec::with_capacity(pw * ph);
          for y in 0..ph {
            let row = (i.planes[pli] as *const u8).offset(i.stride[pli] as isize * y as isize);
            for x in 0..pw {
              v.push(if hi { *(row as *const u16).add(x) } else { *row.add(x) as u16 });
            }
          }
          planes.push((pw, ph, v));
        }
        out.push(Pic { planes });
      }
    }
  }
}
impl Drop for Aom {
  fn drop(&mut self) { unsafe { aom_sys::aom_codec_destroy(&mut *self.c); } }
}
