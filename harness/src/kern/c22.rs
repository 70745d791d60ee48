//! C22: every accelerated kernel against the portable one, with the surroundings of its block watched.
use rav1e::bench::cdef::*;
use rav1e::bench::context::{FrameBlocks, SuperBlockOffset, TileBlockOffset, TileSuperBlockOffset, BlockOffset};
use rav1e::bench::cpu_features::CpuFeatureLevel;
use rav1e::bench::dist;
use rav1e::bench::encoder::{FrameInvariants, FrameState, Sequence};
use rav1e::bench::frame::*;
use rav1e::bench::lrf::*;
use rav1e::bench::mc::*;
use rav1e::bench::partition::{get_intra_edges, BlockSize, RefType};
use rav1e::bench::predict::*;
use rav1e::bench::quantize::dequantize;
use rav1e::bench::scan_order::av1_scan_orders;
use rav1e::bench::tiling::{Area, TileMut, TileRect};
use rav1e::bench::transform::{forward_transform, get_valid_txfm_types, inverse_transform_add, TxSize, TxType};
use rav1e::bench::util::Aligned;
use rav1e::prelude::*;
use std::mem::MaybeUninit;
use std::sync::Arc;
use vmon::checks::BASE;
use vmon::driver::{Cx, Spec};
use vmon::rng::Rng;

pub fn spec() -> Spec {
  Spec {
    id: "C22",
    run,
    secs: (40, 900),
    rule: "a case draws operands (shape, stride, alignment, bit depth, filter, position, type, edge availability, sample pattern from random to extreme) for one kernel and runs it at every CPU level of the machine; results and the whole surrounding buffer are compared with those of the portable level, and distances also with a plain model; classes are (kernel, depth, shape or mode)",
    assumptions: &["operands are ones the encoder can produce (power-of-two block shapes, coefficients that stem from a forward transform of a residual of the bit depth)"],
    ..BASE
  }
}

const ALL: [CpuFeatureLevel; 7] = [CpuFeatureLevel::RUST, CpuFeatureLevel::SSE2, CpuFeatureLevel::SSSE3, CpuFeatureLevel::SSE4_1, CpuFeatureLevel::AVX2, CpuFeatureLevel::AVX512, CpuFeatureLevel::AVX512ICL];
fn levels() -> Vec<CpuFeatureLevel> {
  // the best level of this machine, whatever the environment says
  static L: std::sync::OnceLock<Vec<CpuFeatureLevel>> = std::sync::OnceLock::new();
  L.get_or_init(|| {
    std::env::remove_var("RAV1E_CPU_TARGET");
    let top = CpuFeatureLevel::default();
    ALL.into_iter().filter(|&l| l <= top).collect()
  }).clone()
}

fn run(cx: &mut Cx) {
  for k in 0..12u64 {
    let n = cx.idx * 12 + k;
    let mut r = Rng::new(cx.seed ^ 0xC22, n);
    match n % 3 {
      0 => family::<u8>(cx, &mut r, n / 3, 8),
      1 => family::<u16>(cx, &mut r, n / 3, 10),
      _ => family::<u16>(cx, &mut r, n / 3, 12),
    }
    if !cx.fails.is_empty() { return }
  }
}

fn family<T: Pixel>(cx: &mut Cx, r: &mut Rng, n: u64, bd: usize) {
  match n % 12 {
    0 => for _ in 0..60 { put::<T>(cx, r, bd) },
    1 => for _ in 0..60 { prep::<T>(cx, r, bd) },
    2 => for _ in 0..120 { distances::<T>(cx, r, bd) },
    3 => for _ in 0..200 { cdef_distance::<T>(cx, r, bd) },
    4 | 5 => for _ in 0..150 { intra::<T>(cx, r, bd) },
    6 => for _ in 0..80 { forward::<T>(cx, r, bd) },
    7 | 8 => for _ in 0..80 { inverse::<T>(cx, r, bd) },
    9 => { cfl_ac::<T>(cx, r, bd); for _ in 0..60 { dequant::<T>(cx, r, bd) } }
    10 => cdef::<T>(cx, r, bd),
    _ => for _ in 0..3 { sgr::<T>(cx, r, bd) },
  }
}

// ---- operands ----------------------------------------------------------------------------

fn sample<T: Pixel>(v: u64) -> T { T::cast_from(v as u16) }
/// fills with one of several patterns over the whole buffer
fn fill<T: Pixel>(r: &mut Rng, d: &mut [T], bd: usize) {
  let max = (1u64 << bd) - 1;
  match r.below(7) {
    0 => for x in d.iter_mut() { *x = sample(if r.chance(1, 2) { 0 } else { max }) },
    1 => { let v = r.pick(&[0, max, max / 2, max / 2 + 1, 1]); for x in d.iter_mut() { *x = sample(v) } }
    2 => { let b = r.below(max - 3); for x in d.iter_mut() { *x = sample(b + r.below(4)) } }
    3 => { let (a, m) = (r.below(max + 1), r.below(9)); for (i, x) in d.iter_mut().enumerate() { *x = sample((a + i as u64 * m) & max) } }
    4 => { let p = r.range(1, 9) as usize; for (i, x) in d.iter_mut().enumerate() { *x = sample(if (i / p) & 1 == 0 { 0 } else { max }) } }
    5 => for x in d.iter_mut() { *x = sample(if r.chance(1, 40) { max - r.below(3) } else { r.below(3) }) },
    _ => for x in d.iter_mut() { *x = sample(r.below(max + 1)) },
  }
}
fn plane<T: Pixel>(r: &mut Rng, bd: usize, w: usize, h: usize) -> Plane<T> {
  let pad = r.pick(&[16, 24, 32]);
  let mut p = Plane::new(w, h, 0, 0, pad, pad);
  fill(r, &mut p.data, bd);
  p
}
fn pow2(r: &mut Rng, lo: u32, hi: u32) -> usize { 1 << r.range(lo as u64, hi as u64) }
const SIZES: [BlockSize; 22] = {
  use BlockSize::*;
  [BLOCK_4X4, BLOCK_4X8, BLOCK_8X4, BLOCK_8X8, BLOCK_8X16, BLOCK_16X8, BLOCK_16X16, BLOCK_16X32, BLOCK_32X16, BLOCK_32X32, BLOCK_32X64,
   BLOCK_64X32, BLOCK_64X64, BLOCK_64X128, BLOCK_128X64, BLOCK_128X128, BLOCK_4X16, BLOCK_16X4, BLOCK_8X32, BLOCK_32X8, BLOCK_16X64, BLOCK_64X16]
};
const TXS: [TxSize; 19] = {
  use TxSize::*;
  [TX_4X4, TX_8X8, TX_16X16, TX_32X32, TX_64X64, TX_4X8, TX_8X4, TX_8X16, TX_16X8, TX_16X32, TX_32X16, TX_32X64, TX_64X32, TX_4X16, TX_16X4, TX_8X32, TX_32X8, TX_16X64, TX_64X16]
};
/// index of the first difference outside the block, and inside
fn outside<T: Pixel>(p: &Plane<T>, before: &Plane<T>, x: usize, y: usize, w: usize, h: usize) -> Option<(isize, isize)> {
  let c = &p.cfg;
  for (i, (a, b)) in p.data.iter().zip(before.data.iter()).enumerate() {
    if a != b {
      let (px, py) = ((i % c.stride) as isize - c.xorigin as isize, (i / c.stride) as isize - c.yorigin as isize);
      if px < x as isize || py < y as isize || px >= (x + w) as isize || py >= (y + h) as isize { return Some((px - x as isize, py - y as isize)) }
    }
  }
  None
}
fn differ<T: Pixel>(a: &Plane<T>, b: &Plane<T>) -> Option<(isize, isize)> {
  let c = &a.cfg;
  a.data.iter().zip(b.data.iter()).position(|(x, y)| x != y).map(|i| ((i % c.stride) as isize - c.xorigin as isize, (i / c.stride) as isize - c.yorigin as isize))
}
/// Runs a kernel that writes a block of a plane at every level.
fn block<T: Pixel>(cx: &mut Cx, name: &str, what: String, dst: &Plane<T>, x: usize, y: usize, w: usize, h: usize, f: impl Fn(&mut Plane<T>, CpuFeatureLevel)) {
  if !cx.fails.is_empty() { return }
  let mut first: Option<Plane<T>> = None;
  for l in levels() {
    let mut d = dst.clone();
    f(&mut d, l);
    cx.count(name, 1);
    if let Some(p) = outside(&d, dst, x, y, w, h) { cx.fail(&format!("{name}-outside"), format!("{name} {what} at {l:?} writes at {p:?} relative to its {w}x{h} block")); return }
    match &first {
      None => first = Some(d),
      Some(p) => if let Some((px, py)) = differ(&d, p) {
        let i = (py + d.cfg.yorigin as isize) as usize * d.cfg.stride + (px + d.cfg.xorigin as isize) as usize;
        cx.fail(&format!("{name}-value"), format!("{name} {what} {w}x{h}: {l:?} gives {:?} at {:?}, portable {:?}", d.data[i], (px - x as isize, py - y as isize), p.data[i]));
        return
      },
    }
  }
}

const FILTERS: [FilterMode; 4] = [FilterMode::REGULAR, FilterMode::SMOOTH, FilterMode::SHARP, FilterMode::BILINEAR];
fn filters(r: &mut Rng) -> (FilterMode, FilterMode) { if r.chance(1, 5) { (FilterMode::BILINEAR, FilterMode::BILINEAR) } else { (FILTERS[r.us(0, 2)], FILTERS[r.us(0, 2)]) } }
fn frac(r: &mut Rng) -> i32 { if r.chance(1, 3) { 0 } else { r.below(16) as i32 } }

fn put<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  let (w, h) = (pow2(r, 1, 7), if r.chance(1, 5) { 2 * r.us(1, 64) } else { pow2(r, 1, 7) });
  let src = plane::<T>(r, bd, w + 24, h + 24);
  let dst = plane::<T>(r, bd, w + 64, h + 16);
  // destinations are aligned to their size in the encoder
  let (x, y) = (r.us(0, 64) / w.min(64) * w.min(64), r.us(0, 16));
  let (sx, sy) = (r.us(4, 16) as isize, r.us(4, 16) as isize);
  let (fx, fy) = (frac(r), frac(r));
  let (mx, my) = filters(r);
  cx.class(format!("put {bd} {w} {}", h.min(128).next_power_of_two()));
  cx.class(format!("put {bd} {mx:?} {my:?} {} {}", (fx != 0) as u8, (fy != 0) as u8));
  block(cx, "put_8tap", format!("{bd} bit frac ({fx}, {fy}) {mx:?} {my:?} source ({sx}, {sy})"), &dst, x, y, w, h, |d, l| {
    let mut reg = d.region_mut(Area::Rect { x: x as isize, y: y as isize, width: w, height: h });
    put_8tap(&mut reg, src.slice(PlaneOffset { x: sx, y: sy }), w, h, fx, fy, mx, my, bd, l)
  });
}

fn prep<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  // compound blocks have at least 8x8 samples of luma, 4x4 of chroma, and sides at most 1:4
  let w = pow2(r, 2, 7);
  let h = (pow2(r, 0, 4) * w / 4).clamp(4, 128);
  let mut tmps = vec![];
  let rest = 40;
  for _ in 0..2 {
    let src = plane::<T>(r, bd, w + 24, h + 24);
    let (sx, sy) = (r.us(4, 16) as isize, r.us(4, 16) as isize);
    let (fx, fy) = (frac(r), frac(r));
    let (mx, my) = filters(r);
    cx.class(format!("prep {bd} {w} {mx:?} {my:?} {} {}", (fx != 0) as u8, (fy != 0) as u8));
    let fillv = r.u64() as i16;
    let mut first: Option<Box<Aligned<[i16; 128 * 128 + 64]>>> = None;
    for l in levels() {
      let mut t = Box::new(Aligned::new([fillv; 128 * 128 + 64]));
      prep_8tap(&mut t.data[..w * h + rest], src.slice(PlaneOffset { x: sx, y: sy }), w, h, fx, fy, mx, my, bd, l);
      cx.count("prep_8tap", 1);
      let what = || format!("prep_8tap {bd} bit {w}x{h} frac ({fx}, {fy}) {mx:?} {my:?} at {l:?}");
      if let Some(i) = t.data[w * h..].iter().position(|&v| v != fillv) { cx.fail("prep_8tap-outside", format!("{} writes {i} past its block", what())); return }
      match &first {
        None => first = Some(t),
        Some(p) => if let Some(i) = t.data[..w * h].iter().zip(&p.data).position(|(a, b)| a != b) { cx.fail("prep_8tap-value", format!("{} gives {} at {:?}, portable {}", what(), t.data[i], (i % w, i / w), p.data[i])); return }
      }
    }
    tmps.push(first.unwrap());
  }
  let dst = plane::<T>(r, bd, w + 64, h + 16);
  let (x, y) = (r.us(0, 64) / w.min(64) * w.min(64), r.us(0, 16));
  cx.class(format!("avg {bd} {w} {}", h.next_power_of_two()));
  block(cx, "mc_avg", format!("{bd} bit"), &dst, x, y, w, h, |d, l| {
    let mut reg = d.region_mut(Area::Rect { x: x as isize, y: y as isize, width: w, height: h });
    mc_avg(&mut reg, &tmps[0].data[..w * h], &tmps[1].data[..w * h], w, h, bd, l)
  });
}

fn distances<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  if !cx.fails.is_empty() { return }
  let bs = SIZES[r.us(0, 21)];
  let (w, h) = if r.chance(1, 6) { (4 * r.us(1, 32), 4 * r.us(1, 32)) } else { (bs.width(), bs.height()) };
  let a = plane::<T>(r, bd, w + 64, h + 16);
  let mut b = plane::<T>(r, bd, w + 64, h + 16);
  if r.chance(1, 4) {
    // a close match, and the opposite
    let inv = r.chance(1, 2);
    for y in 0..h + 16 { for x in 0..w + 64 {
      let v = u16::cast_from(a.data[(y + a.cfg.yorigin) * a.cfg.stride + x + a.cfg.xorigin]);
      let v = if inv { ((1 << bd) - 1) - v } else if r.chance(1, 30) { v ^ 1 } else { v };
      let i = (y + b.cfg.yorigin) * b.cfg.stride + x + b.cfg.xorigin;
      b.data[i] = T::cast_from(v);
    } }
  }
  let (ax, ay) = ((r.us(0, 64) / w.min(64) * w.min(64)) as isize, r.us(0, 16) as isize);
  let (bx, by) = (r.us(0, 16) as isize, r.us(0, 16) as isize);
  // sources are aligned, references anywhere
  let ra = a.region(Area::Rect { x: ax, y: ay, width: w, height: h });
  let rb = b.region(Area::Rect { x: bx, y: by, width: w, height: h });
  // the reconstruction lies where the source does
  let rc = b.region(Area::Rect { x: ax, y: ay, width: w, height: h });
  let stride = w.div_ceil(4).next_power_of_two();
  let kind = r.below(4);
  let mut scales = Box::new(Aligned::new([0u32; 32 * 32]));
  for v in scales.data.iter_mut() { *v = match kind { 0 => 1 << 14, 1 => (1 << 28) - 1, 2 => r.range(1, 1 << 14) as u32, _ => r.range(1 << 10, 1 << 18) as u32 }; }
  let scale = &scales.data[..stride * h.div_ceil(4)];
  let mut sad = 0u64;
  for y in 0..h { for x in 0..w { sad += (i32::cast_from(ra[y][x]) - i32::cast_from(rb[y][x])).unsigned_abs() as u64; } }
  let mut first = None;
  for l in levels() {
    let got = (dist::get_sad(&ra, &rb, w, h, bd, l), dist::get_satd(&ra, &rb, w, h, bd, l), dist::get_weighted_sse(&ra, &rc, scale, stride, w, h, bd, l));
    cx.count("distances", 3);
    if got.0 as u64 != sad { cx.fail("sad-model", format!("get_sad {bd} bit {w}x{h} at {l:?} is {}, the samples differ by {sad}", got.0)); return }
    match first {
      None => first = Some(got),
      Some(p) => {
        if p.1 != got.1 { cx.fail("satd-value", format!("get_satd {bd} bit {w}x{h} at {l:?} is {}, portable {}", got.1, p.1)); return }
        if p.2 != got.2 { cx.fail("sse-value", format!("get_weighted_sse {bd} bit {w}x{h} scales {kind} at {l:?} is {}, portable {}", got.2, p.2)); return }
      }
    }
  }
  cx.class(format!("dist {bd} {w}x{h}"));
}

fn cdef_distance<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  if !cx.fails.is_empty() { return }
  let (w, h) = (r.pick(&[4, 8, 8, 2, 6]), r.pick(&[4, 8, 8, 2, 6]));
  let (a, b) = (plane::<T>(r, bd, 32, 32), plane::<T>(r, bd, 32, 32));
  let (x, y) = (8 * r.us(0, 2) as isize, 4 * r.us(0, 4) as isize);
  let ra = a.region(Area::Rect { x, y, width: w, height: h });
  let rb = b.region(Area::Rect { x, y, width: w, height: h });
  let mut first = None;
  for l in levels() {
    let got = dist::cdef_dist_kernel(&ra, &rb, w, h, bd, l);
    cx.count("cdef_dist", 1);
    match first { None => first = Some(got), Some(p) => if p != got { cx.fail("cdef-dist-value", format!("cdef_dist_kernel {bd} bit {w}x{h} at {l:?} is {got}, portable {p}")); return } }
  }
  cx.class(format!("cdef_dist {bd} {w}x{h}"));
}

fn intra<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  use PredictionMode::*;
  let tx = TXS[r.us(0, 18)];
  let (w, h) = (tx.width(), tx.height());
  let modes = [DC_PRED, V_PRED, H_PRED, D45_PRED, D135_PRED, D113_PRED, D157_PRED, D203_PRED, D67_PRED, SMOOTH_PRED, SMOOTH_V_PRED, SMOOTH_H_PRED, PAETH_PRED, UV_CFL_PRED];
  let mode = r.pick(&modes);
  if mode == UV_CFL_PRED && (w > 32 || h > 32) { return }
  let mut ac = Box::new(Aligned::new([0i16; 1024]));
  let amp = (8i64 << bd) - 8;
  for v in ac.data.iter_mut() { *v = match r.below(3) { 0 => amp, 1 => -amp, _ => r.below(2 * amp as u64) as i64 - amp } as i16; }
  let param = if mode == UV_CFL_PRED { IntraParam::Alpha(r.range(0, 32) as i16 - 16) }
    else if mode.is_directional() && w * h > 32 { IntraParam::AngleDelta(r.range(0, 6) as i8 - 3) } else { IntraParam::None };
  let ctx = |r: &mut Rng| if r.chance(1, 4) { None } else { Some((if r.chance(1, 3) { RefType::LAST_FRAME } else { RefType::INTRA_FRAME }, r.pick(&[DC_PRED, SMOOTH_PRED, SMOOTH_V_PRED, SMOOTH_H_PRED, D45_PRED]))) };
  let (ca, cl) = (ctx(r), ctx(r));
  let pl = r.us(0, 2);
  let ief = if r.chance(1, 3) { None } else {
    Some(IntraEdgeFilterParameters {
      plane: pl,
      above_ref_frame_types: ca.map(|c| [c.0, RefType::NONE_FRAME]),
      left_ref_frame_types: cl.map(|c| [c.0, RefType::NONE_FRAME]),
      above_mode: ca.map(|c| c.1),
      left_mode: cl.map(|c| c.1),
    })
  };
  // a tile somewhere in the picture, the block inside it or across its edge
  let (tw, th) = (8 * r.us(8, 24), 8 * r.us(8, 24));
  let dst = plane::<T>(r, bd, tw + 128, th + 128);
  let (x, y) = (r.us(0, tw - 1) / w * w, r.us(0, th - 1) / h * h);
  let (x, y) = match r.below(6) { 0 => (0, y), 1 => (x, 0), 2 => (0, 0), _ => (x, y) };
  let (tx0, ty0) = (r.pick(&[0usize, 64]), r.pick(&[0usize, 64]));
  let tile = TileRect { x: tx0, y: ty0, width: tw, height: th };
  let mut buf = Box::new(Aligned::uninit_array());
  let known = r.chance(2, 3);
  let edges = get_intra_edges(&mut *buf, &dst.region(Area::Rect { x: tx0 as isize, y: ty0 as isize, width: tw, height: th }),
    TileBlockOffset(BlockOffset { x: x / 4, y: y / 4 }), 0, 0, tx.block_size(), PlaneOffset { x: x as isize, y: y as isize }, tx, bd,
    if known { Some(mode) } else { None }, ief.is_some(), param);
  cx.class(format!("intra {bd} {mode:?} {w}x{h}"));
  cx.class(format!("intra {bd} {mode:?} {}{} {param:?} {}", (x > 0) as u8, (y > 0) as u8, ief.map_or(9, |i| i.use_smooth_filter() as u8)));
  block(cx, "intra", format!("{mode:?} {param:?} {bd} bit at ({x}, {y}) of {tw}x{th} edge filter {} known {known}", ief.is_some()), &dst, tx0 + x, ty0 + y, w, h, |d, l| {
    let mut reg = d.region_mut(Area::Rect { x: (tx0 + x) as isize, y: (ty0 + y) as isize, width: w, height: h });
    mode.predict_intra(tile, &mut reg, tx, bd, &ac.data[..(w * h).min(1024)], param, ief, &edges, l)
  });
}

/// a residual as two pictures of the bit depth leave it
fn residual(r: &mut Rng, bd: usize, n: usize) -> Vec<i16> {
  let mut a = vec![0u16; n];
  let mut b = vec![0u16; n];
  fill(r, &mut a, bd);
  fill(r, &mut b, bd);
  a.iter().zip(&b).map(|(&x, &y)| x as i16 - y as i16).collect()
}
fn tx_types(tx: TxSize) -> Vec<TxType> { get_valid_txfm_types(tx).to_vec() }

fn forward<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  if !cx.fails.is_empty() { return }
  let tx = TXS[r.us(0, 18)];
  let ty = r.pick(&tx_types(tx));
  let (w, h) = (tx.width(), tx.height());
  let stride = w + if r.chance(1, 3) { 4 * r.us(1, 8) } else { 0 };
  let input = residual(r, bd, stride * h);
  let (n, mark) = (w * h, T::Coeff::cast_from(r.u64() as i16));
  let mut first: Option<Vec<T::Coeff>> = None;
  for l in levels() {
    let mut o = Box::new(Aligned::new([MaybeUninit::<T::Coeff>::new(mark); 64 * 64 + 64]));
    forward_transform(&input, &mut o.data[..n], stride, tx, ty, bd, l);
    // SAFETY: initialised above
    let v: Vec<T::Coeff> = o.data.iter().map(|x| unsafe { x.assume_init() }).collect();
    cx.count("forward_transform", 1);
    if v[n..].iter().any(|&x| x != mark) { cx.fail("forward-outside", format!("forward_transform {tx:?} {ty:?} {bd} bit at {l:?} writes past its block")); return }
    match &first { None => first = Some(v), Some(p) => if *p != v { let i = p.iter().zip(&v).position(|(a, b)| a != b).unwrap(); cx.fail("forward-value", format!("forward_transform {tx:?} {ty:?} {bd} bit at {l:?}: coefficient {i} is {:?}, portable {:?}", v[i], p[i])); return } }
  }
  cx.class(format!("forward {bd} {tx:?} {ty:?}"));
}

fn inverse<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  let tx = TXS[r.us(0, 18)];
  let ty = r.pick(&tx_types(tx));
  let (w, h) = (tx.width(), tx.height());
  let input = residual(r, bd, w * h);
  let mut o = Box::new(Aligned::new([MaybeUninit::<T::Coeff>::new(T::Coeff::cast_from(0i16)); 64 * 64]));
  forward_transform(&input, &mut o.data[..w * h], w, tx, ty, bd, CpuFeatureLevel::RUST);
  let mut c = Box::new(Aligned::new([T::Coeff::cast_from(0i16); 64 * 64]));
  // only the coded area matters
  let coded = w.min(32) * h.min(32);
  let scan = av1_scan_orders[tx as usize][if ty == TxType::WHT_WHT { 0 } else { ty as usize }].scan;
  let keep = match r.below(5) { 0 => 1, 1 => r.us(1, 10).min(scan.len()), 2 => r.us(1, scan.len()), _ => scan.len() };
  let mut eob = 0;
  for (i, &p) in scan.iter().take(keep).enumerate() {
    // SAFETY: initialised above
    let v = unsafe { o.data[p as usize].assume_init() };
    c.data[p as usize] = v;
    if v != T::Coeff::cast_from(0i16) { eob = i + 1; }
  }
  if eob == 0 { return }
  let top = if r.chance(1, 2) { eob } else { scan.len() };
  let eob = r.us(eob, top) as u16;
  let dst = plane::<T>(r, bd, 128, 128);
  let (x, y) = (r.us(0, 64) / w * w, r.us(0, 64) / 4 * 4);
  cx.class(format!("inverse {bd} {tx:?} {ty:?}"));
  cx.class(format!("inverse {bd} {tx:?} eob {}", 16 - eob.leading_zeros()));
  block(cx, "inverse_transform", format!("{tx:?} {ty:?} {bd} bit eob {eob}"), &dst, x, y, w, h, |d, l| {
    let mut reg = d.region_mut(Area::Rect { x: x as isize, y: y as isize, width: w, height: h });
    inverse_transform_add(&c.data[..coded], &mut reg, eob, tx, ty, bd, l)
  });
}

fn dequant<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  if !cx.fails.is_empty() { return }
  let tx = TXS[r.us(0, 18)];
  let n = tx.width().min(32) * tx.height().min(32);
  let (q, dd, da) = (r.range(0, 255) as u8, r.range(0, 126) as i8 - 63, r.range(0, 126) as i8 - 63);
  let (dd, da) = if r.chance(1, 2) { (0, 0) } else { (dd, da) };
  // levels whose reconstruction stays in range
  let step = 2 * rav1e::bench::quantize::ac_q(q, da, bd).get().max(rav1e::bench::quantize::dc_q(q, dd, bd).get()) as i64;
  let lim = ((if bd == 8 { 32767 } else { 1 << 22 }) / step).max(1).min(32767);
  let z = T::Coeff::cast_from(0i16);
  let mut c = Box::new(Aligned::new([z; 1024]));
  let eob = r.us(0, n);
  for v in c.data[..n].iter_mut() { *v = T::Coeff::cast_from(if r.chance(1, 3) { 0 } else { (r.below(2 * lim as u64 + 1) as i64 - lim) as i32 }); }
  let mut first: Option<Vec<T::Coeff>> = None;
  for l in levels() {
    let mark = T::Coeff::cast_from(77i16);
    let mut o = Box::new(Aligned::new([MaybeUninit::<T::Coeff>::new(mark); 1024 + 64]));
    dequantize(q, &c.data[..n], eob as u16, &mut o.data[..n], tx, bd, dd, da, l);
    // SAFETY: initialised above
    let v: Vec<T::Coeff> = o.data.iter().map(|x| unsafe { x.assume_init() }).collect();
    cx.count("dequantize", 1);
    if v[n..].iter().any(|&x| x != mark) { cx.fail("dequantize-outside", format!("dequantize {tx:?} {bd} bit at {l:?} writes past its block")); return }
    match &first { None => first = Some(v), Some(p) => if *p != v { let i = p.iter().zip(&v).position(|(a, b)| a != b).unwrap(); cx.fail("dequantize-value", format!("dequantize {tx:?} {bd} bit q {q} {dd} {da} at {l:?}: coefficient {i} of {:?} is {:?}, portable {:?}", c.data[i], v[i], p[i])); return } }
  }
  cx.class(format!("dequantize {bd} {tx:?}"));
}

// ---- kernels that need a frame -----------------------------------------------------------

fn invariants<T: Pixel>(r: &mut Rng, bd: usize) -> FrameInvariants<T> {
  let (width, height) = (8 * r.us(2, 24), 8 * r.us(2, 24));
  let c = EncoderConfig { width, height, bit_depth: bd, chroma_sampling: r.pick(&[ChromaSampling::Cs420, ChromaSampling::Cs422, ChromaSampling::Cs444]), ..Default::default() };
  let s = Arc::new(Sequence::new(&c));
  FrameInvariants::<T>::new(Arc::new(c), s)
}

fn cfl_ac<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  let mut fi = invariants::<T>(r, bd);
  let mut fs = FrameState::new(&fi);
  {
    let rec = Arc::get_mut(&mut fs.rec).unwrap();
    fill(r, &mut rec.planes[0].data, bd);
  }
  let cs = fi.sequence.chroma_sampling;
  let (xd, yd) = match cs { ChromaSampling::Cs420 => (1, 1), ChromaSampling::Cs422 => (1, 0), _ => (0, 0) };
  let (fw, fh) = (fi.w_in_b, fi.h_in_b);
  let mut todo = vec![];
  for _ in 0..60 {
    use BlockSize::*;
    let bs = r.pick(&[BLOCK_4X4, BLOCK_4X8, BLOCK_8X4, BLOCK_8X8, BLOCK_8X16, BLOCK_16X8, BLOCK_16X16, BLOCK_16X32, BLOCK_32X16, BLOCK_32X32, BLOCK_4X16, BLOCK_16X4, BLOCK_8X32, BLOCK_32X8]);
    let Ok(sub) = bs.subsampled_size(xd, yd) else { continue };
    let (bw, bh) = (bs.width() / 4, bs.height() / 4);
    // blocks that carry chroma
    let mut x = r.us(0, fw - 1) / bw * bw;
    let mut y = r.us(0, fh - 1) / bh * bh;
    if xd == 1 && bw == 1 { x |= 1; }
    if yd == 1 && bh == 1 { y |= 1; }
    if x >= fw || y >= fh { continue }
    let tx = bs.tx_size();
    todo.push((bs, sub, TileBlockOffset(BlockOffset { x, y }), tx));
  }
  let mut fails = vec![];
  for (bs, sub, bo, tx) in todo {
    let n = sub.width() * sub.height();
    let mut first: Option<Vec<i16>> = None;
    for l in levels() {
      fi.cpu_feature_level = l;
      let mut got = vec![];
      fs.apply_tile_state_mut(|ts| {
        let mut buf = Box::new(Aligned::new([MaybeUninit::<i16>::new(0x5a5a); 1024 + 64]));
        luma_ac(&mut buf.data[..1024], ts, bo, bs, tx, &fi);
        // SAFETY: initialised above
        got = buf.data.iter().map(|x| unsafe { x.assume_init() }).collect();
      });
      cx.count("cfl_ac", 1);
      let what = || format!("luma_ac {bd} bit {cs:?} {bs:?} at ({}, {}) of {fw}x{fh}, {l:?}", bo.0.x, bo.0.y);
      if got[n..].iter().any(|&v| v != 0x5a5a) { fails.push(("cfl-ac-outside", what())); break }
      match &first { None => first = Some(got), Some(p) => if *p != got { fails.push(("cfl-ac-value", format!("{} differs from portable", what()))); break } }
    }
    cx.class(format!("cfl_ac {bd} {cs:?} {bs:?}"));
  }
  if let Some((s, m)) = fails.into_iter().next() { cx.fail(s, m) }
}

fn cdef<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  let mut fi = invariants::<T>(r, bd);
  fi.cdef_damping = r.range(3, 6) as u8;
  for i in 0..8 { fi.cdef_y_strengths[i] = r.below(64) as u8; fi.cdef_uv_strengths[i] = r.below(64) as u8; }
  let mut fb = FrameBlocks::new(fi.w_in_b, fi.h_in_b);
  let skip = r.below(3);
  {
    let mut tb = fb.as_tile_blocks_mut();
    for y in 0..tb.rows() { for x in 0..tb.cols() {
      tb[y][x].skip = match skip { 0 => false, 1 => r.chance(1, 2), _ => r.chance(9, 10) };
      tb[y][x].cdef_index = 0;
    } }
    for y in 0..fi.sb_height { for x in 0..fi.sb_width { tb.set_cdef(TileSuperBlockOffset(SuperBlockOffset { x, y }), r.below(8) as u8); } }
  }
  let mut fs = FrameState::new(&fi);
  for p in &mut Arc::get_mut(&mut fs.rec).unwrap().planes { fill(r, &mut p.data, bd); }
  let input = fs.rec.clone();
  let mut base = (*input).clone();
  for p in &mut base.planes { fill(r, &mut p.data, bd); }
  let rect = TileRect { x: 0, y: 0, width: input.planes[0].cfg.width, height: input.planes[0].cfg.height };
  let cs = fi.sequence.chroma_sampling;
  let mut first = None;
  for l in levels() {
    fi.cpu_feature_level = l;
    let mut out = base.clone();
    cdef_filter_tile(&fi, &input, &fb.as_tile_blocks(), &mut TileMut::new(&mut out, rect));
    cx.count("cdef", 1);
    let what = || format!("cdef {bd} bit {cs:?} {}x{} damping {} skips {skip} at {l:?}", rect.width, rect.height, fi.cdef_damping);
    for p in 0..3 {
      let c = &out.planes[p].cfg;
      if let Some(at) = outside(&out.planes[p], &base.planes[p], 0, 0, c.width, c.height) { cx.fail("cdef-outside", format!("{} writes plane {p} at {at:?}, outside {}x{}", what(), c.width, c.height)); return }
    }
    match &first { None => first = Some(out), Some(f) => {
      for p in 0..3 { if let Some(at) = differ::<T>(&out.planes[p], &f.planes[p]) { cx.fail("cdef-value", format!("{}: plane {p} differs from portable at {at:?}", what())); return } }
    } }
  }
  cx.class(format!("cdef {bd} {cs:?} {}x{}", rect.width.div_ceil(64), rect.height.div_ceil(64)));
}

fn sgr<T: Pixel>(cx: &mut Cx, r: &mut Rng, bd: usize) {
  if !cx.fails.is_empty() { return }
  let mut fi = invariants::<T>(r, bd);
  let (w, h) = (r.us(8, 250), r.us(8, 130));
  let (cd, db) = (plane::<T>(r, bd, w, h), plane::<T>(r, bd, w, h));
  let src = plane::<T>(r, bd, w, h);
  let out = plane::<T>(r, bd, w, h);
  let x = if r.chance(1, 2) || w < 80 { 0 } else { 64 };
  let y0 = if r.chance(1, 2) || h < 64 { 0 } else { 56 };
  let (sw, sh) = ((w - x).min(r.pick(&[64, 128, 256])), (h - y0).min(if y0 == 0 { 56 } else { 64 }));
  let set = r.below(16) as u8;
  let xqd = [r.range(0, 127) as i64 - 96, r.range(0, 127) as i64 - 32].map(|v| v as i8);
  let po = PlaneOffset { x: x as isize, y: y0 as isize };
  let mut buf = IntegralImageBuffer::zeroed(STRIPE_IMAGE_SIZE);
  setup_integral_image(&mut buf, STRIPE_IMAGE_STRIDE, w - x, h - y0, sw, sh, &cd.slice(po), &db.slice(po));
  let fi = std::cell::RefCell::new(&mut fi);
  block(cx, "sgr_filter", format!("set {set} {xqd:?} {bd} bit at ({x}, {y0}) of {w}x{h}"), &out, x, y0, sw, sh, |d, l| {
    let mut fi = fi.borrow_mut();
    fi.cpu_feature_level = l;
    sgrproj_stripe_filter(set, xqd, *fi, &buf, STRIPE_IMAGE_STRIDE, &cd.slice(po), &mut d.region_mut(Area::Rect { x: x as isize, y: y0 as isize, width: sw, height: sh }))
  });
  if !cx.fails.is_empty() { return }
  let (vw, vh) = (w.min(r.pick(&[64, 128, 256])), h.min(r.pick(&[64, 128])));
  let zero = PlaneOffset { x: 0, y: 0 };
  let mut ib = IntegralImageBuffer::zeroed(SOLVE_IMAGE_SIZE);
  setup_integral_image(&mut ib, SOLVE_IMAGE_STRIDE, vw, vh, vw, vh, &cd.slice(zero), &cd.slice(zero));
  let mut first = None;
  let fi = fi.into_inner();
  for l in levels() {
    fi.cpu_feature_level = l;
    let got = sgrproj_solve(set, fi, &ib, &src.region(Area::StartingAt { x: 0, y: 0 }), &cd.slice(zero), vw, vh);
    cx.count("sgr_solve", 1);
    match first { None => first = Some(got), Some(p) => if p != got { cx.fail("sgr-solve-value", format!("sgrproj_solve set {set} {bd} bit {vw}x{vh} at {l:?} is {got:?}, portable {p:?}")); return } }
  }
  cx.class(format!("sgr {bd} set {set} {}", sw.next_power_of_two()));
}
