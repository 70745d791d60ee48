HEAD='mod sup;\nuse sup::*;\nuse std::sync::Arc;\n'
BUGS={
'c02-still-two-frames':dict(prop='C02',needs='still picture mode, a second frame submitted before the first packet is taken',
 breaks='a still picture encoder accepts a second frame (and may emit a second packet) when it was offered before the first packet was requested',
 edits=[('src/api/context.rs','(self.inner.config.still_picture && self.inner.frame_count > 0)','(self.inner.config.still_picture && self.inner.frames_processed > 0)')],
 demo=HEAD+'''
fn main() {
  let mut e = EncoderConfig::with_speed_preset(10);
  e.width = 32; e.height = 32; e.still_picture = true;
  let mut ctx: Context<u8> = config(&e, 1).new_context().unwrap();
  let f = frame(&ctx, &picture(&e, 0));
  ctx.send_frame(f).unwrap();
  let g = frame(&ctx, &picture(&e, 1));
  check(ctx.send_frame(g) == Err(EncoderStatus::EnoughData), "a second still picture was accepted");
}
'''),
'c08-grain-boundary':dict(prop='C08',needs='a film grain table with two adjacent segments and a frame exactly on their boundary',
 breaks='the frame at the boundary of two grain segments carries the parameters of the segment that has ended',
 edits=[('src/api/config/encoder.rs','''      entries.iter().find(|entry| {
        timestamp >= entry.start_time && timestamp < entry.end_time''','''      entries.iter().find(|entry| {
        (entry.start_time..=entry.end_time).contains(&timestamp)'''),
 ('src/api/config/encoder.rs','''      entries.iter_mut().find(|entry| {
        timestamp >= entry.start_time && timestamp < entry.end_time''','''      entries.iter_mut().find(|entry| {
        (entry.start_time..=entry.end_time).contains(&timestamp)''')],
 demo=HEAD+'''
fn seg(a: u64, b: u64, shift: u8) -> GrainTableSegment {
  let mut g = GrainTableSegment {
    start_time: a, end_time: b, scaling_points_y: Default::default(), scaling_points_cb: Default::default(), scaling_points_cr: Default::default(),
    scaling_shift: shift, ar_coeff_lag: 0, ar_coeffs_y: Default::default(), ar_coeffs_cb: Default::default(), ar_coeffs_cr: Default::default(),
    ar_coeff_shift: 7, cb_mult: 0, cb_luma_mult: 0, cb_offset: 0, cr_mult: 0, cr_luma_mult: 0, cr_offset: 0, overlap_flag: false,
    chroma_scaling_from_luma: false, grain_scale_shift: 0, random_seed: 77 };
  g.scaling_points_y.push([0, 20]);
  g.ar_coeffs_cb.push(0); g.ar_coeffs_cr.push(0);
  g
}
fn enc(segs: Vec<GrainTableSegment>) -> Vec<Vec<u8>> {
  let mut e = EncoderConfig::with_speed_preset(10);
  e.width = 32; e.height = 32; e.low_latency = true; e.max_key_frame_interval = 1; e.min_key_frame_interval = 0;
  e.time_base = Rational::new(1, 10);
  e.film_grain_params = Some(segs);
  encode::<u8>(&config(&e, 1), &e, 4, &|_| picture(&e, 0), &noparams).into_iter().map(|p| p.data).collect()
}
fn main() {
  let t = 1_000_000; // one frame
  let two = enc(vec![seg(0, 2 * t, 8), seg(2 * t, u64::MAX, 11)]);
  let first = enc(vec![seg(0, u64::MAX, 8)]);
  let second = enc(vec![seg(0, u64::MAX, 11)]);
  for i in 0..4 {
    let want = if i < 2 { &first[i] } else { &second[i] };
    check(&two[i] == want, &format!("frame {i} does not carry the parameters of its segment"));
  }
}
'''),
'c10-switch-phase':dict(prop='C10',needs='switch frames with a second key frame at a position that is not a multiple of the switch interval',
 breaks='after a key frame, the switch frame interval is counted from the start of the stream instead of restarting at the key frame',
 edits=[('src/encoder.rs','''      && (output_frameno_in_gop % inter_cfg.switch_frame_interval == 0)''','''      && ((gop_input_frameno_start + u64::from(fi.order_hint))
        % inter_cfg.switch_frame_interval
        == 0)''')],
 demo=HEAD+'''
fn main() {
  let mut e = EncoderConfig::with_speed_preset(10);
  e.width = 64; e.height = 64; e.low_latency = true; e.switch_frame_interval = 4;
  let key = |i: usize| FrameParameters { frame_type_override: if i == 6 { FrameTypeOverride::Key } else { FrameTypeOverride::No }, ..Default::default() };
  let pk = encode::<u8>(&config(&e, 1), &e, 14, &|_| picture(&e, 0), &key);
  let ty: Vec<_> = pk.iter().map(|p| p.frame_type).collect();
  let mut last = 0;
  for (i, t) in ty.iter().enumerate() {
    if *t == FrameType::KEY { last = i; continue; }
    let want = (i - last) % 4 == 0;
    check((*t == FrameType::SWITCH) == want, &format!("frame {i}: {ty:?}"));
  }
}
'''),
'c14-stale-status':dict(prop='C14',needs='asking for the last status after a call that succeeded following one that did not',
 breaks='rav1e_last_status keeps reporting the previous failure after a successful rav1e_send_frame',
 edits=[('src/capi.rs','''    .send_frame(frame_internal, frame_type, maybe_opaque, t35_metadata)
    .map(|_v| None)
    .unwrap_or_else(Some);

  (*ctx).last_err = ret;''','''    .send_frame(frame_internal, frame_type, maybe_opaque, t35_metadata)
    .map(|_v| None)
    .unwrap_or_else(Some);

  if ret.is_some() {
    (*ctx).last_err = ret;
  }''')],
 demo='''
use rav1e::capi::*;
use std::ptr;
fn main() { unsafe {
  let cfg = rav1e_config_default();
  let set = |k: &str, v: i32| { let k = std::ffi::CString::new(k).unwrap(); assert_eq!(rav1e_config_parse_int(cfg, k.as_ptr(), v), 0); };
  set("width", 64); set("height", 64); set("speed", 10); set("threads", 1);
  let ctx = rav1e_context_new(cfg);
  rav1e_config_unref(cfg);
  let mut p = ptr::null_mut();
  let a = rav1e_receive_packet(ctx, &mut p) as i32;
  assert!(a != 0 && rav1e_last_status(ctx) as i32 == a);
  let f = rav1e_frame_new(ctx);
  let s = rav1e_send_frame(ctx, f) as i32;
  rav1e_frame_unref(f);
  let l = rav1e_last_status(ctx) as i32;
  rav1e_context_unref(ctx);
  if s != 0 || l != s { eprintln!("send_frame returned {s}, last status {l}"); std::process::exit(1); }
} }
'''),
'c04-ssse3-cfl':dict(prop='C04',needs='the SSSE3 level, 8-bit content whose chroma blocks on the left or top picture edge use chroma-from-luma',
 breaks='at the SSSE3 level chroma-from-luma blocks with only one neighbour are predicted from the wrong one, so the stream depends on the CPU level',
 edits=[('src/asm/x86/predict.rs','''                PredictionVariant::LEFT => rav1e_ipred_cfl_left_8bpc_ssse3,
                PredictionVariant::TOP => rav1e_ipred_cfl_top_8bpc_ssse3,''','''                PredictionVariant::LEFT => rav1e_ipred_cfl_top_8bpc_ssse3,
                PredictionVariant::TOP => rav1e_ipred_cfl_left_8bpc_ssse3,''')],
 demo=HEAD+'''
fn main() {
  let mut bad = 0;
  for s in 0..4usize {
    let mut e = EncoderConfig::with_speed_preset(4);
    e.width = 128; e.height = 96; e.quantizer = 60 + 20 * s; e.speed_settings.cdef = true;
    let pic = |n: usize| {
      // chroma proportional to luma, with strong structure at the edges
      let mut p = picture(&e, n + 5 * s);
      let l = p.0[0].2.clone();
      for i in 1..3 { let (w, h, v) = &mut p.0[i]; for y in 0..*h { for x in 0..*w { let a = l[2 * y * 128 + 2 * x] as i32; v[y * *w + x] = (128 + (a - 128) * (if i == 1 { 3 } else { -3 }) / 4 + (x as i32 % 5)).clamp(0, 255) as u16; } } }
      p
    };
    let run = |l: &str| { std::env::set_var("RAV1E_CPU_TARGET", l); encode::<u8>(&config(&e, 1), &e, 2, &pic, &noparams).into_iter().map(|p| p.data).collect::<Vec<_>>() };
    if run("rust") != run("ssse3") { bad += 1; }
  }
  check(bad == 0, "the stream depends on the CPU level");
}
'''),
'c03-shared-threshold':dict(prop='C03',needs='several tiles searched by several threads at the same time',
 breaks='the early-exit threshold of the motion search is shared between tiles in flight, so the motion vectors depend on how the tile threads interleave',
 edits=[('src/me.rs','''  let init_size = MIB_SIZE_LOG2;

  let mut prev_ssdec''','''  let init_size = MIB_SIZE_LOG2;
  RECENT_SAD.store(0, Ordering::Relaxed);

  let mut prev_ssdec'''),
 ('src/me.rs','''pub fn estimate_tile_motion<T: Pixel>(''','''/// The SAD the last thorough search ended with: there is no need to try harder.
static RECENT_SAD: AtomicU32 = AtomicU32::new(0);

pub fn estimate_tile_motion<T: Pixel>('''),
 ('src/me.rs','''    let thresh = (subsets.min_sad as f32 * 1.2) as u32
      + (((w * h) as u32) << (fi.sequence.bit_depth - 8));''','''    let thresh = ((subsets.min_sad as f32 * 1.2) as u32
      + (((w * h) as u32) << (fi.sequence.bit_depth - 8)))
      .max(RECENT_SAD.load(Ordering::Relaxed));'''),
 ('src/me.rs','''      // Use 24, since it is the largest range that x264 uses.
      24,
    );
''','''      // Use 24, since it is the largest range that x264 uses.
      24,
    );
    RECENT_SAD.store(best.rd.sad, Ordering::Relaxed);
'''),
 ('src/me.rs','''use std::ops::{Index, IndexMut};
''','''use std::ops::{Index, IndexMut};
use std::sync::atomic::{AtomicU32, Ordering};
''')],
 demo=HEAD+'''
fn main() {
  for k in 0..2usize {
    let mut e = EncoderConfig::with_speed_preset(5);
    e.width = 364; e.height = 80; e.tile_cols = 4; e.tile_rows = 2; e.quantizer = 20 + 15 * k; e.low_latency = true; e.tune = Tune::Psnr;
    let pic = |n: usize| { let mut p = picture(&e, 0); for (i, (w, h, v)) in p.0.iter_mut().enumerate() { for y in 0..*h { for x in 0..*w {
      let z = x * 6 / *w; let (mx, my) = (n * (5 * z + k), n * (3 + 4 * (z % 3)));
      v[y * *w + x] = (hash((((x + mx) / (2 + k)) * 1000 + (y + my) / 3 + i * 77) as u64) & 127) as u16 + (hash(((x + mx) * 9000 + y + my + n * 1_000_003) as u64) & 31) as u16; } } } p };
    let run = |t: usize| encode::<u8>(&config(&e, t), &e, 6, &pic, &noparams).into_iter().map(|p| p.data).collect::<Vec<_>>();
    let one = run(1);
    for i in 0..8 { check(run(2 + i % 7) == one, &format!("run {k}/{i} with several threads differs from the single-threaded one")); }
  }
}
'''),
'c13-try-send-count':dict(prop='C13',needs='second-pass channel fed with try_send while its queue is full',
 breaks='each refused try_send uses up one of the frames the second pass expects, so the remaining frames are refused for good',
 edits=[('src/api/channel/data.rs','''      let r = self.sender.try_send(frame.into()).map_err(TrySendError::from);
      if r.is_ok() {
        self.count += 1;
      }
      r''','''      self.count += 1;
      self.sender.try_send(frame.into()).map_err(TrySendError::from)''')],
 demo=HEAD+'''
fn main() {
  let n = 40;
  let mut e = EncoderConfig::with_speed_preset(10);
  e.width = 64; e.height = 64; e.bitrate = 100_000; e.quantizer = 255; e.speed_settings.rdo_lookahead_frames = 2;
  // first pass
  let cfg = config(&e, 1).with_rate_control(RateControlConfig::new().with_emit_data(true));
  let mut ctx: Context<u8> = cfg.new_context().unwrap();
  let (mut s, mut f, mut sent) = (vec![], vec![], 0);
  loop {
    let r = ctx.receive_packet();
    if matches!(r, Ok(_) | Err(EncoderStatus::Encoded) | Err(EncoderStatus::LimitReached)) {
      match ctx.rc_receive_pass_data() { Some(RcData::Summary(x)) => s = x.to_vec(), Some(RcData::Frame(x)) => f.push(x), None => {} }
    }
    match r { Err(EncoderStatus::LimitReached) => break, Err(EncoderStatus::NeedMoreData) => if sent < n { let p = frame(&ctx, &picture(&e, sent)); ctx.send_frame(p).unwrap(); sent += 1 } else { ctx.flush() }, _ => {} }
  }
  let cfg = config(&e, 1).with_rate_control(RateControlConfig::from_summary_slice(&s).unwrap());
  let ((mut tx, rx), mut rc) = cfg.new_secondpass_channel::<u8>().unwrap();
  std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_millis(400)); for d in f { if rc.send(RcData::Frame(d)).is_err() { break; } } });
  for i in 0..n {
    let mut f = tx.new_frame();
    for (k, (w, h, v)) in picture(&e, i).0.iter().enumerate() { let st = f.planes[k].cfg.stride; let b = f.planes[k].data_origin_mut(); for y in 0..*h { for x in 0..*w { b[y * st + x] = v[y * w + x] as u8; } } }
    let mut item: (Option<Arc<Frame<u8>>>, Option<FrameParameters>) = (Some(Arc::new(f)), None);
    let mut tries = 0;
    loop {
      match tx.try_send(item.0.clone()) {
        Ok(()) => break,
        Err(_) => { tries += 1; check(tries < 1500, &format!("frame {i} is refused for good")); std::thread::sleep(std::time::Duration::from_millis(5)); }
      }
    }
  }
  drop(tx);
  check(rx.iter().count() == n, "packets were lost");
}
'''),
}
