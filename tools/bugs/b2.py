HEAD='mod sup;\nuse sup::*;\nuse std::sync::Arc;\n'
BUGS={
'c01-tile-size-bytes':dict(prop='C01',needs='a tile (not the last one) of more than 65536 bytes',
 breaks='the number of bytes of the tile size field is limited to two, longer tiles get a truncated size',
 edits=[('src/encoder.rs','''ILog::ilog(max_len).div_ceil(8) as u32;''','''ILog::ilog(max_len).div_ceil(8).min(2) as u32;''')],
 demo=HEAD+'''
fn main() {
  let mut e = EncoderConfig::with_speed_preset(10);
  e.width = 512; e.height = 320; e.tile_cols = 2; e.quantizer = 1; e.still_picture = true; e.chroma_sampling = ChromaSampling::Cs444;
  let pic = Pic((0..3).map(|p| (512, 320, (0..512 * 320).map(|i| (hash(i * 3 + p) & 255) as u16).collect())).collect());
  let pk = encode::<u8>(&config(&e, 2), &e, 1, &|_| pic.clone(), &noparams);
  eprintln!("{} bytes", pk[0].data.len());
  if let Err(x) = conform(&pk, &e) { check(false, &x); }
}
'''),
'c12-shown-count':dict(prop='C12',needs='a first pass with reordered frames',
 breaks='the first-pass summary does not count the temporal units that show a frame coded earlier',
 edits=[('src/rate.rs','''    if self.prev_metrics.show_frame {
      self.ntus += 1;
    }
    // If we have''','''    if self.prev_metrics.show_frame && fti < FRAME_NSUBTYPES {
      self.ntus += 1;
    }
    // If we have''')],
 demo=HEAD+'''
fn main() {
  let n = 22;
  for low_latency in [true, false] {
    let mut e = EncoderConfig::with_speed_preset(10);
    e.width = 64; e.height = 64; e.bitrate = 100_000; e.quantizer = 255; e.speed_settings.rdo_lookahead_frames = 10; e.low_latency = low_latency;
    let cfg = config(&e, 1).with_rate_control(RateControlConfig::new().with_emit_data(true));
    let mut ctx: Context<u8> = cfg.new_context().unwrap();
    let (mut s, mut sent, mut got) = (vec![], 0, 0);
    loop {
      let r = ctx.receive_packet();
      if r.is_ok() { got += 1; }
      if matches!(r, Ok(_) | Err(EncoderStatus::Encoded) | Err(EncoderStatus::LimitReached)) {
        if let Some(RcData::Summary(x)) = ctx.rc_receive_pass_data() { s = x.to_vec(); }
      }
      match r { Err(EncoderStatus::LimitReached) => break, Err(EncoderStatus::NeedMoreData) => if sent < n { let p = frame(&ctx, &picture(&e, sent)); ctx.send_frame(p).unwrap(); sent += 1 } else { ctx.flush() }, _ => {} }
    }
    let ntus = u32::from_le_bytes(s[8..12].try_into().unwrap());
    check(got == n && ntus as usize == n, &format!("the summary counts {ntus} temporal units, {got} packets came out"));
  }
}
'''),
'c15-skip-past-end':dict(prop='C15',needs='--skip with more frames than the input has',
 breaks='skipping past the end of the input ends in a success with an empty output instead of an error',
 edits=[('src/bin/rav1e.rs','''      Err(_) => {
        return Err(CliError::new("Skipped more frames than in the input"))
      }''','''      Err(y4m::Error::EOF) => break,
      Err(_) => {
        return Err(CliError::new("Skipped more frames than in the input"))
      }''')],
 demo='''
use std::process::Command;
fn main() {
  let exe = format!("{}/target/debug/rav1e", std::env::var("TREE").unwrap());
  let mut y = b"YUV4MPEG2 W32 H32 F25:1 Ip A1:1 C420jpeg\\n".to_vec();
  for n in 0..3u32 { y.extend(b"FRAME\\n"); y.extend((0..1536u32).map(|i| (i * 7 + n * 31) as u8)); }
  std::fs::write("in.y4m", y).unwrap();
  let run = |skip: &str| Command::new(&exe).args(["in.y4m", "-o", "out.ivf", "-y", "-s", "10", "-q", "--skip", skip]).status().unwrap().success();
  if !run("1") { eprintln!("skip 1 failed"); std::process::exit(1); }
  if run("5") { eprintln!("skipping 5 frames of 3 succeeds"); std::process::exit(1); }
}
'''),
'c16-pts-high':dict(prop='C16',needs='a timestamp of 2^48 or more',
 breaks='the upper 16 bits of the timestamp are lost when a packet is written',
 edits=[('ivf/src/lib.rs','''  bw.write::<64, _>(pts).unwrap();''','''  bw.write::<32, _>(pts as u32).unwrap();
  bw.write::<32, _>(((pts >> 32) as u16) as u32).unwrap();''')],
 demo='''
fn main() {
  for s in 0..64 {
    let pts = 1u64 << s | s;
    let mut v = vec![];
    ivf::write_ivf_frame(&mut v, pts, &[1, 2, 3]);
    let p = ivf::read_packet(&mut &v[..]).unwrap();
    if p.pts != pts || &p.data[..] != [1, 2, 3] { eprintln!("{pts} is read back as {}", p.pts); std::process::exit(1); }
  }
}
'''),
'c18-area-pixels':dict(prop='C18',needs='a picture whose area is just below a multiple of the largest tile area, but above it in whole superblocks',
 breaks='the least number of tiles is computed from the area in pixels instead of superblocks, so a tile may exceed the limit on its area and the header disagrees with what decoders compute',
 edits=[('src/tiling/tiler.rs','''Self::tile_log2(max_tile_area_sb, sb_cols * sb_rows).unwrap()''','''Self::tile_log2(MAX_TILE_AREA, frame_width * frame_height).unwrap()''')],
 demo=HEAD+'''
fn main() {
  let mut n = 0;
  for (w, h) in [(4096, 2304), (4096, 2300), (4090, 2306), (3000, 3140), (2305, 4080), (3073, 3070), (4033, 2336), (2000, 4700), (1000, 9400), (8192, 4600)] {
    let mut e = EncoderConfig::with_speed_preset(10);
    e.width = w; e.height = h; e.time_base = Rational::new(1, 1);
    let t = config(&e, 1).tiling_info().unwrap();
    let (sbw, sbh) = ((w + 63) / 64, (h + 63) / 64);
    let min = |lim: usize, v: usize| { let mut k = 0; while lim << k < v { k += 1; } k };
    let cols = min(64, sbw);
    let tiles = cols.max(min(4096 * 2304 / 4096, sbw * sbh));
    n += 1;
    check(t.tile_cols_log2 + t.tile_rows_log2 >= tiles, &format!("{w}x{h}: {}x{} tiles, at least 2^{tiles} are needed", t.cols, t.rows));
    check(t.min_tiles_log2 == tiles, &format!("{w}x{h}: minimum 2^{}, the format says 2^{tiles}", t.min_tiles_log2));
  }
  check(n == 10, "sizes");
}
'''),
'c22-prep-filters':dict(prop='C22',needs='high bit depth, compound prediction with different filters in the two directions, x86 assembly',
 breaks='the assembly for compound prediction of 10 and 12 bit pictures takes the horizontal filter for the vertical one and vice versa',
 edits=[('src/asm/x86/mc.rs','''        match PREP_HBD_FNS[cpu.as_index()][get_2d_mode_idx(mode_x, mode_y)] {''','''        match PREP_HBD_FNS[cpu.as_index()][get_2d_mode_idx(mode_y, mode_x)] {''')],
 demo='''
mod sup;
use sup::hash;
use rav1e::bench::cpu_features::CpuFeatureLevel;
use rav1e::bench::frame::*;
use rav1e::bench::mc::*;
fn main() {
  let mut p = Plane::<u16>::new(64, 64, 0, 0, 16, 16);
  for (i, v) in p.data.iter_mut().enumerate() { *v = (hash(i as u64) & 1023) as u16; }
  let run = |l: CpuFeatureLevel, a: FilterMode, b: FilterMode, f: i32| {
    let mut t = vec![0i16; 16 * 16];
    prep_8tap(&mut t, p.slice(PlaneOffset { x: 8, y: 8 }), 16, 16, f, 15 - f, a, b, 10, l);
    t
  };
  let m = [FilterMode::REGULAR, FilterMode::SMOOTH, FilterMode::SHARP];
  for a in m { for b in m { for f in [3, 8, 12] {
    if run(CpuFeatureLevel::default(), a, b, f) != run(CpuFeatureLevel::RUST, a, b, f) { eprintln!("{a:?} {b:?} {f}"); std::process::exit(1); }
  } } }
}
'''),
'c11-max-quantizer':dict(prop='C11',needs='bitrate mode with a maximum quantizer that binds on B frames of the upper pyramid level',
 breaks='the configured maximum quantizer does not apply to the B frames of the upper pyramid level in bitrate mode',
 edits=[('src/rate.rs','''        ac_q(self.maybe_ac_qi_max.unwrap_or(255), 0, bit_depth).get() as i64,
      )''','''        ac_q(255, 0, bit_depth).get() as i64,
      )'''),
 ('src/rate.rs','''        log_q = cmp::min(log_q, max_log_q);
''','''        if fti != FRAME_SUBTYPE_B1 {
          log_q = cmp::min(log_q, max_log_q);
        }
''')],
 demo=HEAD+'''
fn main() {
  let run = |bitrate: i32| {
    let mut e = EncoderConfig::with_speed_preset(10);
    e.width = 128; e.height = 128; e.quantizer = 80; e.bitrate = bitrate; e.low_latency = false;
    e.speed_settings.scene_detection_mode = SceneDetectionSpeed::None;
    encode::<u8>(&config(&e, 1), &e, 24, &|n| picture(&e, n * 5), &noparams).into_iter().map(|p| p.qp).collect::<Vec<_>>()
  };
  let (cq, rc) = (run(0), run(20_000));
  for (i, (a, b)) in cq.iter().zip(&rc).enumerate() { check(*b <= *a + 8, &format!("frame {i}: quantizer {b}, in constant quality mode {a}")); }
}
'''),
'c07-height-limit':dict(prop='C07',needs='a picture exactly 65535 high',
 breaks='the largest documented height is refused',
 edits=[('src/api/config/mod.rs','''      || config.height > u16::MAX as usize
    {
      return Err(InvalidHeight''','''      || config.height >= u16::MAX as usize
    {
      return Err(InvalidHeight''')],
 demo=HEAD+'''
fn main() {
  for (w, h, ok) in [(16, 65535, true), (65535, 16, true), (16, 65536, false), (65536, 16, false)] {
    let mut e = EncoderConfig::with_speed_preset(10);
    e.width = w; e.height = h;
    check(config(&e, 1).validate().is_ok() == ok, &format!("{w}x{h}: accepted is not {ok}"));
  }
}
'''),
'c17-golomb-long':dict(prop='C17',needs='a Golomb code for a value of 2^20 or more',
 breaks='the zero prefix of long Golomb codes is cut short, so they decode to something else',
 edits=[('src/ec.rs','''    for _ in 0..length - 1 {''','''    for _ in 0..(length - 1).min(19) {''')],
 demo='''
use rav1e::bench::ec::*;
// range decoder for equiprobable bits (AV1 specification 8.2)
struct D<'a> { d: &'a [u8], bit: usize, rng: u32, v: u32 }
impl<'a> D<'a> {
  fn next(&mut self) -> u32 { let b = if self.bit / 8 < self.d.len() { self.d[self.bit / 8] >> (7 - self.bit % 8) & 1 } else { 0 }; self.bit += 1; b as u32 }
  fn new(d: &'a [u8]) -> Self { let mut s = D { d, bit: 0, rng: 32768, v: 0 }; let mut x = 0; for _ in 0..15 { x = x << 1 | s.next(); } s.v = (1 << 15) - 1 ^ x; s }
  fn bit(&mut self) -> u32 {
    let cur = ((self.rng >> 8) * (16384 >> 6) >> 1) + 4;
    let b = if self.v < cur { 1 } else { 0 };
    if b == 1 { self.rng = cur; } else { self.rng -= cur; self.v -= cur; }
    while self.rng < 32768 { self.rng <<= 1; let n = self.next(); self.v = (self.v << 1) | (n ^ 1); }
    b
  }
}
fn main() {
  let vals: Vec<u32> = (0..30).map(|s| (1u32 << s) + s).collect();
  let mut w = WriterEncoder::new();
  for &v in &vals { w.write_golomb(v); }
  let b = w.done();
  let mut d = D::new(&b);
  for &v in &vals {
    let mut len = 0;
    while d.bit() == 0 { len += 1; if len > 32 { eprintln!("{v}: prefix"); std::process::exit(1); } }
    let mut x = 1u64;
    for _ in 0..len { x = x << 1 | d.bit() as u64; }
    if x - 1 != v as u64 { eprintln!("{v} decodes to {}", x - 1); std::process::exit(1); }
  }
}
'''),
}
