//! C17: the entropy coder against an independent decoder written from the AV1 specification.
use bitstream_io::{BigEndian, BitWrite, BitWriter};
use rav1e::bench::context::{CDFContext, CDFOffset, CDFContextLog, ContextWriter, ContextWriterCheckpoint, BlockContext, FrameBlocks, TileBlockOffset, BlockOffset};
use rav1e::bench::ec::*;
use rav1e::prelude::ChromaSampling;
use vmon::checks::BASE;
use vmon::driver::{Cx, Spec};
use vmon::rng::Rng;

pub fn spec() -> Spec {
  Spec {
    id: "C17",
    run,
    secs: (25, 600),
    rule: "a case drives one random history of symbols (adaptive tables of every alphabet size, fixed tables, booleans, literals, all integer codes) with nested checkpoints and rollbacks through the encoder, the recorder (replayed at random points) and the counter, decodes the bytes with a range decoder and adaptation rule written from the specification, and compares values, tables, byte strings and bit totals after every step; classes are (bias, length, integer codes used)",
    assumptions: &["arguments stay within the ranges the codes are defined for (header codes up to 8192 values)"],
    ..BASE
  }
}

// ---- independent model -------------------------------------------------------------------

/// Symbol decoder of AV1 specification section 8.2.
struct Dec<'a> { d: &'a [u8], pos: usize, value: u32, range: u32, max_bits: i64 }
impl<'a> Dec<'a> {
  fn bit_at(d: &[u8], p: usize) -> u32 { d.get(p / 8).map_or(0, |b| (b >> (7 - p % 8)) as u32 & 1) }
  fn new(d: &'a [u8]) -> Self {
    let sz = d.len();
    let n = (sz * 8).min(15);
    let mut buf = 0;
    for i in 0..n { buf = buf << 1 | Self::bit_at(d, i); }
    let padded = buf << (15 - n);
    Dec { d, pos: n, value: ((1 << 15) - 1) ^ padded, range: 1 << 15, max_bits: 8 * sz as i64 - 15 }
  }
  /// `cdf`: increasing, 32768 last, without the counter
  fn symbol(&mut self, cdf: &[u32]) -> u32 {
    let n = cdf.len() as i64;
    let mut cur = self.range;
    let mut sym: i64 = -1;
    let mut prev;
    loop {
      sym += 1;
      prev = cur;
      let f = (1 << 15) - cdf[sym as usize];
      cur = ((((self.range >> 8) * (f >> 6)) >> 1) as i64 + 4 * (n - sym - 1)) as u32;
      if self.value >= cur { break }
    }
    self.range = prev - cur;
    self.value -= cur;
    // renormalise
    let bits = 15 - (31 - self.range.leading_zeros());
    self.range <<= bits;
    let num = (bits as i64).min(self.max_bits.max(0)) as u32;
    let mut new = 0;
    for _ in 0..num { new = new << 1 | Self::bit_at(self.d, self.pos); self.pos += 1; }
    let padded = new << (bits - num);
    self.value = padded ^ (((self.value + 1) << bits) - 1);
    self.max_bits -= bits as i64;
    sym as u32
  }
  fn boolean(&mut self, p1: u32) -> u32 { self.symbol(&[32768 - p1, 32768]) }
  fn l(&mut self, n: u32) -> u32 { let mut x = 0; for _ in 0..n { x = 2 * x + self.boolean(16384); } x }
  fn ns(&mut self, n: u32) -> u32 {
    let w = 32 - n.leading_zeros();
    let m = (1u32 << w) - n;
    let v = self.l(w - 1);
    if v < m { return v }
    (v << 1) - m + self.l(1)
  }
  fn golomb(&mut self) -> u32 {
    let (mut x, mut len) = (1u32, 0);
    loop { len += 1; if self.l(1) == 1 || len > 32 { break } }
    for _ in 0..len - 1 { x = x << 1 | self.l(1); }
    x - 1
  }
  fn subexp(&mut self, n: u32, k: u32) -> u32 {
    let (mut i, mut mk) = (0, 0);
    loop {
      let b = if i > 0 { k + i - 1 } else { k };
      let a = 1 << b;
      if n <= mk + 3 * a { return self.ns(n - mk) + mk }
      if self.l(1) == 0 { return self.l(b) + mk }
      i += 1;
      mk += a;
    }
  }
  fn usub(&mut self, mx: u32, k: u32, r: u32) -> u32 {
    let v = self.subexp(mx, k);
    if r << 1 <= mx { inv(r, v) } else { mx - 1 - inv(mx - 1 - r, v) }
  }
  /// Trailing bits as section 8.2.4 demands.
  fn exit(&mut self) -> Result<(), String> {
    if self.max_bits < -14 { return Err(format!("symbol decoder ran {} bits past the data", -self.max_bits - 14)) }
    let mut p = self.pos as i64 - (self.max_bits + 15).min(15);
    let end = self.pos as i64 + self.max_bits.max(0);
    if Self::bit_at(self.d, p as usize) != 1 { return Err(format!("no trailing one bit at {p} of {}", self.d.len() * 8)) }
    p += 1;
    while p < end { if Self::bit_at(self.d, p as usize) != 0 { return Err(format!("nonzero padding at bit {p} of {}", self.d.len() * 8)) } p += 1; }
    if end != self.d.len() as i64 * 8 { return Err(format!("padding ends at bit {end} of {}", self.d.len() * 8)) }
    Ok(())
  }
}
fn inv(r: u32, v: u32) -> u32 { if v > 2 * r { v } else if v & 1 == 1 { r - ((v + 1) >> 1) } else { r + (v >> 1) } }

/// Adaptive table of the specification: increasing cdf ending in 32768, and a counter.
#[derive(Clone, PartialEq, Debug)]
struct Tab { cdf: Vec<u32>, n: u32 }
impl Tab {
  /// from rav1e's inverse form with the counter in the last element
  fn of(t: &[u16]) -> Tab {
    let k = t.len();
    let mut cdf: Vec<u32> = t[..k - 1].iter().map(|&x| 32768 - x as u32).collect();
    cdf.push(32768);
    Tab { cdf, n: t[k - 1] as u32 }
  }
  fn adapt(&mut self, s: u32) {
    let n = self.cdf.len() as u32;
    let rate = 3 + (self.n > 15) as u32 + (self.n > 31) as u32 + (31 - n.leading_zeros()).min(2);
    let mut tmp = 0;
    for i in 0..n - 1 {
      if i == s { tmp = 32768; }
      let c = &mut self.cdf[i as usize];
      if tmp < *c { *c -= (*c - tmp) >> rate } else { *c += (tmp - *c) >> rate }
    }
    if self.n < 32 { self.n += 1 }
  }
}

// ---- the coder under test ----------------------------------------------------------------

macro_rules! slots { ($(($i:literal, $($p:tt)+))*) => {
  const NSLOTS: usize = [$($i),*].len();
  fn read(fc: &CDFContext) -> Vec<Vec<u16>> { vec![$(fc.$($p)+.to_vec()),*] }
  fn put<W: Writer>(w: &mut W, cw: &mut ContextWriter, slot: usize, s: u32) {
    match slot {
      $($i => { let p: *const _ = &cw.fc.$($p)+; let o = cw.fc.offset(p); go(w, s, o, &mut cw.fc_log, cw.fc) })*
      _ => unreachable!(),
    }
  }
  fn bits<W: Writer>(w: &W, fc: &CDFContext, slot: usize, s: u32) -> u32 {
    match slot { $($i => w.symbol_bits(s, &fc.$($p)+),)* _ => unreachable!() }
  }
} }
fn go<W: Writer, const N: usize>(w: &mut W, s: u32, o: CDFOffset<N>, log: &mut CDFContextLog, fc: &mut CDFContext) { w.symbol_with_update(s, o, log, fc) }
slots! {
  (0, comp_bwd_ref_cdf[0][0]) (1, skip_cdfs[0]) (2, skip_cdfs[1]) (3, inter_tx_3_cdf[0]) (4, coeff_base_eob_cdf[0][0][0])
  (5, lrf_switchable_cdf) (6, tx_size_cdf[0][0]) (7, tx_size_cdf[2][2]) (8, coeff_base_cdf[0][0][0]) (9, coeff_br_cdf[4][1][20])
  (10, deblock_delta_cdf) (11, deblock_delta_multi_cdf[3]) (12, partition_w8_cdf[0]) (13, partition_w8_cdf[3])
  (14, eob_flag_cdf16[0][0]) (15, intra_tx_2_cdf[0][0]) (16, eob_flag_cdf32[1][1]) (17, angle_delta_cdf[0]) (18, angle_delta_cdf[7])
  (19, eob_flag_cdf64[0][1]) (20, intra_tx_1_cdf[1][12]) (21, cfl_sign_cdf) (22, compound_mode_cdf[0]) (23, eob_flag_cdf128[1][0])
  (24, spatial_segmentation_cdfs[0]) (25, spatial_segmentation_cdfs[2]) (26, partition_w128_cdf[0]) (27, eob_flag_cdf256[0][0])
  (28, eob_flag_cdf512[1][1]) (29, partition_cdf[0]) (30, partition_cdf[11]) (31, eob_flag_cdf1024[0][0]) (32, inter_tx_2_cdf[1])
  (33, kf_y_cdf[0][0]) (34, kf_y_cdf[4][4]) (35, y_mode_cdf[0]) (36, uv_mode_cdf[0]) (37, uv_mode_cdf[12]) (38, uv_mode_cfl_cdf[0])
  (39, uv_mode_cfl_cdf[12]) (40, cfl_alpha_cdf[0]) (41, cfl_alpha_cdf[5]) (42, inter_tx_1_cdf[0]) (43, inter_tx_1_cdf[3])
  (44, nmv_context.joints_cdf) (45, nmv_context.comps[0].sign_cdf) (46, nmv_context.comps[0].hp_cdf) (47, nmv_context.comps[0].class0_cdf)
  (48, nmv_context.comps[0].bits_cdf[0]) (49, nmv_context.comps[0].bits_cdf[9]) (50, nmv_context.comps[0].class0_fp_cdf[1])
  (51, nmv_context.comps[0].fp_cdf) (52, nmv_context.comps[0].classes_cdf) (53, nmv_context.comps[1].sign_cdf) (54, nmv_context.comps[1].classes_cdf)
}

#[derive(Clone, Debug)]
enum Op {
  Bool(bool, u16), Bit(u16), Lit(u8, u32), Fixed(usize, u32), Adapt(usize, u32), Golomb(u32),
  Quni(u32, u32), Subexp(u32, u8, u32), USub(u32, u32, u8, u32), SSub(i32, i32, i32, u8, i32),
}

fn fixed<W: Writer>(w: &mut W, t: &[u16], s: u32) {
  macro_rules! m { ($($n:literal)*) => { match t.len() { $($n => { let a: &[u16; $n] = t.try_into().unwrap(); w.symbol(s, a) })* _ => unreachable!() } } }
  m!(2 3 4 5 6 7 8 9 10 11 12 13 14 15 16)
}

fn apply<W: Writer>(w: &mut W, cw: &mut ContextWriter, tabs: &[Vec<u16>], o: &Op) {
  match *o {
    Op::Bool(v, f) => w.bool(v, f),
    Op::Bit(b) => w.bit(b),
    Op::Lit(n, v) => w.literal(n, v),
    Op::Fixed(t, s) => fixed(w, &tabs[t], s),
    Op::Adapt(k, s) => put(w, cw, k, s),
    Op::Golomb(v) => w.write_golomb(v),
    Op::Quni(n, v) => w.write_quniform(n, v),
    Op::Subexp(n, k, v) => w.write_subexp(n, k, v),
    Op::USub(v, n, k, r) => w.write_unsigned_subexp_with_ref(v, n, k, r),
    Op::SSub(v, lo, hi, k, r) => w.write_signed_subexp_with_ref(v, lo, hi, k, r),
  }
}

fn pow2(r: &mut Rng, b: u64) -> u32 { let k = r.range(1, b); r.range(1, 1 << k) as u32 }
fn small(r: &mut Rng, n: u64) -> u32 { (match r.below(4) { 0 => 0, 1 => n - 1, 2 => r.below(n), _ => { let m = 1 + r.below(8); r.below(n.min(m)) } }) as u32 }

fn random_op(r: &mut Rng, fc: &[Vec<u16>], tabs: &[Vec<u16>], bias: u64, hot: &[usize]) -> Op {
  let pick = |r: &mut Rng, t: &[u16]| -> u32 {
    let n = t.len();
    (match if bias == 3 { r.below(4) } else { bias } {
      0 => r.us(0, n - 1),
      1 => n - 1,
      2 => 0,
      // as the table expects
      _ => { let x = r.below(32768) as u16; t[..n - 1].iter().take_while(|&&c| x < c).count() }
    }) as u32
  };
  match r.below(24) {
    0 | 1 => Op::Bool(if bias == 1 { true } else { r.chance(1, 2) }, match r.below(4) { 0 => 1, 1 => 32767, 2 => r.range(32500, 32767) as u16, _ => r.range(1, 32767) as u16 }),
    2 => Op::Bit(r.below(2) as u16),
    3 => { let n = r.below(25) as u8; Op::Lit(n, (r.u64() & ((1u64 << n) - 1)) as u32) }
    4..=7 => { let t = r.us(0, tabs.len() - 1); Op::Fixed(t, pick(r, &tabs[t])) }
    8 => Op::Golomb(match r.below(3) { 0 => r.below(16) as u32, 1 => (r.below(0xffff_ffff) >> r.below(32)) as u32, _ => ((1u64 << r.below(32)) - r.below(2)) as u32 }),
    9 => { let n = pow2(r, 16); Op::Quni(n, small(r, n as u64)) }
    10 => { let n = pow2(r, 15); Op::Subexp(n, r.below(6) as u8, small(r, n as u64)) }
    11 => { let n = pow2(r, 15); Op::USub(small(r, n as u64), n, r.below(6) as u8, small(r, n as u64)) }
    12 => { let lo = -(r.range(0, 200) as i32); let hi = r.range(1, 300) as i32; let w = (hi - lo) as u64; Op::SSub(lo + small(r, w) as i32, lo, hi, r.below(6) as u8, lo + small(r, w) as i32) }
    _ => { let k = if r.chance(1, 2) { r.pick(hot) } else { r.us(0, NSLOTS - 1) }; Op::Adapt(k, pick(r, &fc[k])) }
  }
}


struct Side<'a, W> { w: W, cw: ContextWriter<'a>, marks: Vec<(WriterCheckpoint, ContextWriterCheckpoint)> }
macro_rules! each { ($x:ident in [$($s:ident),*] $b:block) => { $({ let $x = &mut $s; $b })* } }

fn run(cx: &mut Cx) {
  for k in 0..20 {
    let mut r = Rng::new(cx.seed ^ 0xC17, cx.idx * 20 + k);
    history(cx, &mut r);
    if !cx.fails.is_empty() { return }
    header_codes(cx, &mut r);
    if !cx.fails.is_empty() { return }
  }
}

fn history(cx: &mut Cx, r: &mut Rng) {
  let q = r.u64() as u8;
  let bias = r.below(5);
  let len = match r.below(5) { 0 => r.us(0, 12), 1 => r.us(10, 60), 2 | 3 => r.us(50, 500), _ => r.us(500, 4000) };
  let mut tabs: Vec<Vec<u16>> = vec![];
  for n in 2..=16usize {
    for _ in 0..2 {
      let mut t: Vec<u16> = (0..n - 1).map(|_| match r.below(6) { 0 => 0, 1 => 32767, 2 => r.below(200) as u16, 3 => r.range(32500, 32767) as u16, _ => r.below(32768) as u16 }).collect();
      t.sort_by(|a, b| b.cmp(a));
      t.push(r.below(33) as u16);
      tabs.push(t);
    }
  }
  let hot: Vec<usize> = (0..4).map(|_| r.us(0, NSLOTS - 1)).collect();
  let bo = TileBlockOffset(BlockOffset { x: 0, y: 0 });
  macro_rules! side { ($fb:ident, $tb:ident, $fc:ident, $s:ident, $w:expr) => {
    let mut $fb = FrameBlocks::new(16, 16);
    let mut $tb = $fb.as_tile_blocks_mut();
    let mut $fc = CDFContext::new(q);
    let mut $s = Side { w: $w, cw: ContextWriter::new(&mut $fc, BlockContext::new(&mut $tb)), marks: vec![] };
  } }
  side!(fb1, tb1, fc1, enc, WriterEncoder::new());
  side!(fb2, tb2, fc2, rec, WriterRecorder::new());
  side!(fb3, tb3, fc3, cnt, WriterCounter::new());
  // counts what the recorder holds; restarted with it
  side!(fb4, tb4, fc4, cn2, WriterCounter::new());
  let mut dest = WriterEncoder::new();
  let mut ops: Vec<Op> = vec![];
  let mut marks: Vec<(usize, [u32; 4], Vec<Vec<u16>>)> = vec![];
  let initial = read(&fc_copy(&enc.cw));
  let (mut rolled, mut replays, mut deepest) = (0u64, 0u64, 0usize);
  let mut codes = std::collections::BTreeSet::new();
  let mut t0 = enc.w.tell_frac();
  for step in 0..len {
    match r.below(30) {
      0 if marks.len() < 6 => {
        each!(s in [enc, rec, cnt, cn2] { let m = (Writer::checkpoint(&mut s.w), s.cw.checkpoint(&bo, ChromaSampling::Cs420)); s.marks.push(m); });
        marks.push((ops.len(), [enc.w.tell_frac(), rec.w.tell_frac(), cnt.w.tell_frac(), cn2.w.tell_frac()], read(&fc_copy(&enc.cw))));
        deepest = deepest.max(marks.len());
      }
      1 | 2 if !marks.is_empty() => {
        // back to one of the marks; those above it are forgotten. Sometimes it stays for another try.
        let k = r.us(0, marks.len() - 1);
        let keep = r.chance(1, 2);
        each!(s in [enc, rec, cnt, cn2] {
          s.marks.truncate(k + 1);
          let (w, c) = &s.marks[k];
          Writer::rollback(&mut s.w, w);
          s.cw.rollback(c);
          if !keep { s.marks.pop(); }
        });
        marks.truncate(k + 1);
        let (n, tell, fc) = &marks[k];
        ops.truncate(*n);
        let now = [enc.w.tell_frac(), rec.w.tell_frac(), cnt.w.tell_frac(), cn2.w.tell_frac()];
        if now != *tell { cx.fail("rollback-tell", format!("step {step}: bit totals {now:?} after a rollback, {tell:?} at the checkpoint")); return }
        for (nm, f) in [("encoder", fc_copy(&enc.cw)), ("recorder", fc_copy(&rec.cw)), ("counter", fc_copy(&cnt.cw))] {
          if read(&f) != *fc { let k = (0..NSLOTS).find(|&k| read(&f)[k] != fc[k]).unwrap(); cx.fail("rollback-tables", format!("step {step}: {nm} table {k} is {:?} after a rollback, {:?} at the checkpoint", read(&f)[k], fc[k])); return }
        }
        t0 = now[0];
        if !keep { marks.pop(); }
        rolled += 1;
      }
      3 if marks.is_empty() && r.chance(1, 3) => {
        rec.w.replay(&mut dest);
        cn2.w = WriterCounter::new();
        if rec.w.tell_frac() != cn2.w.tell_frac() { cx.fail("replay", format!("step {step}: recorder does not start over after a replay")); return }
        replays += 1;
      }
      4 if marks.is_empty() && r.chance(1, 6) => {
        // tiles begin a new log
        each!(s in [enc, rec, cnt, cn2] { s.cw.fc_log.clear(); });
      }
      _ => {
        let cur = read(&fc_copy(&enc.cw));
        let o = random_op(r, &cur, &tabs, bias, &hot);
        // cost estimates before coding
        let est = match o {
          Op::Adapt(k, s) => Some(bits(&enc.w, &fc_copy(&enc.cw), k, s)),
          Op::Fixed(t, s) => Some(enc.w.symbol_bits(s, &tabs[t])),
          _ => None,
        };
        let cost = match o {
          Op::Quni(n, v) => Some(enc.w.count_quniform(n, v)),
          Op::Subexp(n, k, v) => Some(enc.w.count_subexp(n, k, v)),
          Op::USub(v, n, k, r) => Some(enc.w.count_unsigned_subexp_with_ref(v, n, k, r)),
          Op::SSub(v, lo, hi, k, r) => Some(enc.w.count_signed_subexp_with_ref(v, lo, hi, k, r)),
          _ => None,
        };
        each!(s in [enc, rec, cnt, cn2] { apply(&mut s.w, &mut s.cw, &tabs, &o); });
        let t = enc.w.tell_frac();
        let (a, b, c, d) = (enc.w.tell(), cnt.w.tell(), rec.w.tell(), cn2.w.tell());
        if a != b || c != d { cx.fail("tell", format!("step {step} {o:?}: encoder counts {a} bits, counter {b}; recorder {c}, counter {d}")); return }
        let (a, b, c, d) = (t, cnt.w.tell_frac(), rec.w.tell_frac(), cn2.w.tell_frac());
        if a != b || c != d { cx.fail("tell-frac", format!("step {step} {o:?}: encoder counts {a} eighth bits, counter {b}; recorder {c}, counter {d}")); return }
        if let Some(e) = est { if e != t - t0 { cx.fail("symbol-bits", format!("step {step} {o:?}: estimated {e} eighth bits, coding took {}", t - t0)); return } }
        if let Some(e) = cost {
          let want = 8 * bits_of(&o);
          if e != want { cx.fail("count", format!("step {step} {o:?}: counted {e} eighth bits, the code has {want}")); return }
        }
        codes.insert(match o { Op::Bool(..) => 'b', Op::Bit(_) => 'i', Op::Lit(..) => 'l', Op::Fixed(..) => 'f', Op::Adapt(..) => 'a', Op::Golomb(_) => 'g', Op::Quni(..) => 'q', Op::Subexp(..) => 's', Op::USub(..) => 'u', Op::SSub(..) => 'S' });
        t0 = t;
        ops.push(o);
      }
    }
  }
  let tell = enc.w.tell();
  rec.w.replay(&mut dest);
  let bytes = enc.w.done();
  let again = dest.done();
  if bytes != again { cx.fail("replay-bytes", format!("{} symbols coded directly give {} bytes, recorded and replayed {}; first difference at {:?}", ops.len(), bytes.len(), again.len(), bytes.iter().zip(&again).position(|(a, b)| a != b))); return }
  if bytes.len() as u32 != tell.div_ceil(8) { cx.fail("size", format!("{} bytes for {tell} bits", bytes.len())); return }
  // decode
  let mut tab: Vec<Tab> = initial.iter().map(|t| Tab::of(t)).collect();
  let fix: Vec<Tab> = tabs.iter().map(|t| Tab::of(t)).collect();
  let mut d = Dec::new(&bytes);
  for (i, o) in ops.iter().enumerate() {
    let (got, want): (i64, i64) = match *o {
      Op::Bool(v, f) => (d.boolean(f as u32) as i64, v as i64),
      Op::Bit(b) => (d.boolean(16384) as i64, b as i64),
      Op::Lit(n, v) => (d.l(n as u32) as i64, v as i64),
      Op::Fixed(t, s) => (d.symbol(&fix[t].cdf) as i64, s as i64),
      Op::Adapt(k, s) => { let x = d.symbol(&tab[k].cdf); tab[k].adapt(x); (x as i64, s as i64) }
      Op::Golomb(v) => (d.golomb() as i64, v as i64),
      Op::Quni(n, v) => (d.ns(n) as i64, v as i64),
      Op::Subexp(n, k, v) => (d.subexp(n, k as u32) as i64, v as i64),
      Op::USub(v, n, k, r) => (d.usub(n, k as u32, r) as i64, v as i64),
      Op::SSub(v, lo, hi, k, r) => (d.usub((hi - lo) as u32, k as u32, (r - lo) as u32) as i64 + lo as i64, v as i64),
    };
    if got != want { cx.fail("decode", format!("{o:?} (number {i} of {}) decodes as {got} from {} bytes", ops.len(), bytes.len())); return }
  }
  if let Err(m) = d.exit() { cx.fail("exit", format!("{m} after {} symbols", ops.len())); return }
  for (nm, f) in [("encoder", fc_copy(&enc.cw)), ("recorder", fc_copy(&rec.cw)), ("counter", fc_copy(&cnt.cw))] {
    let f = read(&f);
    for k in 0..NSLOTS { if Tab::of(&f[k]) != tab[k] { cx.fail("adaptation", format!("{nm} table {k} ends as {:?}, the decoder's as {:?}", Tab::of(&f[k]), tab[k])); return } }
  }
  cx.count("histories", 1);
  cx.count("symbols_decoded", ops.len() as u64);
  cx.count("rollbacks", rolled);
  cx.count("replays", replays);
  cx.count("bytes", bytes.len() as u64);
  cx.class(format!("b{bias} n{} depth{deepest} {}", 64 - (ops.len() as u64).leading_zeros(), codes.iter().collect::<String>()));
  cx.sample(format!("{} symbols in {} bytes, {rolled} rollbacks up to {deepest} deep, {replays} replays", ops.len(), bytes.len()));
}

fn fc_copy(cw: &ContextWriter) -> CDFContext { *cw.fc }

/// length of an integer code, from the syntax of the specification
fn bits_of(o: &Op) -> u32 {
  fn ns(n: u32, v: u32) -> u32 { let w = 32 - n.leading_zeros(); let m = (1u32 << w) - n; w - 1 + (v >= m) as u32 }
  fn subexp(n: u32, k: u32, v: u32) -> u32 {
    let (mut i, mut mk, mut bits) = (0, 0, 0);
    loop {
      let b = if i > 0 { k + i - 1 } else { k };
      let a = 1 << b;
      if n <= mk + 3 * a { return bits + ns(n - mk, v - mk) }
      bits += 1;
      if v < mk + a { return bits + b }
      i += 1;
      mk += a;
    }
  }
  // inverse of `inv`
  fn re(r: u32, x: u32) -> u32 { (0..).find(|&v| inv_ok(r, v) == Some(x)).unwrap() }
  fn inv_ok(r: u32, v: u32) -> Option<u32> { Some(inv(r, v)) }
  fn fast(r: u32, x: u32) -> u32 { let v = if x > 2 * r { x } else if x >= r { (x - r) * 2 } else { (r - x) * 2 - 1 }; debug_assert!(r > 64 || x > 64 || re(r, x) == v); v }
  fn usub(v: u32, n: u32, k: u32, r: u32) -> u32 { if 2 * r <= n { subexp(n, k, fast(r, v)) } else { subexp(n, k, fast(n - 1 - r, n - 1 - v)) } }
  match *o {
    Op::Quni(n, v) => ns(n, v),
    Op::Subexp(n, k, v) => subexp(n, k as u32, v),
    Op::USub(v, n, k, r) => usub(v, n, k as u32, r),
    Op::SSub(v, lo, hi, k, r) => usub((v - lo) as u32, (hi - lo) as u32, k as u32, (r - lo) as u32),
    _ => 0,
  }
}

/// The same codes in uncompressed headers.
fn header_codes(cx: &mut Cx, r: &mut Rng) {
  struct Bits<'a>(&'a [u8], usize);
  impl Bits<'_> {
    fn l(&mut self, n: u32) -> u32 { let mut x = 0; for _ in 0..n { x = 2 * x + Dec::bit_at(self.0, self.1); self.1 += 1; } x }
    fn ns(&mut self, n: u32) -> u32 { let w = 32 - n.leading_zeros(); let m = (1u32 << w) - n; let v = self.l(w - 1); if v < m { v } else { (v << 1) - m + self.l(1) } }
    fn subexp(&mut self, n: u32, k: u32) -> u32 {
      let (mut i, mut mk) = (0, 0);
      loop {
        let b = if i > 0 { k + i - 1 } else { k };
        let a = 1 << b;
        if n <= mk + 3 * a { return self.ns(n - mk) + mk }
        if self.l(1) == 0 { return self.l(b) + mk }
        i += 1;
        mk += a;
      }
    }
    fn usub(&mut self, mx: u32, k: u32, r: u32) -> u32 { let v = self.subexp(mx, k); if r << 1 <= mx { inv(r, v) } else { mx - 1 - inv(mx - 1 - r, v) } }
  }
  let mut buf = vec![];
  let mut list = vec![];
  {
    let mut w = BitWriter::endian(&mut buf, BigEndian);
    for _ in 0..r.us(1, 40) {
      let n = pow2(r, 13);
      let (v, rf, k, kind) = (small(r, n as u64), small(r, n as u64), r.below(5) as u32, r.below(4));
      let sg = r.chance(1, 2);
      let v = if kind == 3 && sg { -(v as i32) } else { v as i32 };
      let rf = if kind == 3 && r.chance(1, 2) { -(rf as i32) } else { rf as i32 };
      let ok = match kind {
        0 => BCodeWriter::write_quniform(&mut w, n as u16, v as u16),
        1 => w.write_subexpfin(n as u16, k as u16, v as u16),
        2 => w.write_refsubexpfin(n as u16, k as u16, rf as i16, v as i16),
        _ => w.write_s_refsubexpfin(n as u16, k as u16, rf as i16, v as i16),
      };
      if let Err(e) = ok { cx.fail("header-code", format!("code {kind} n {n} k {k} ref {rf} value {v}: {e}")); return }
      list.push((kind, n, k, rf, v));
    }
    if w.byte_align().is_err() { return }
  }
  let mut b = Bits(&buf, 0);
  for (kind, n, k, rf, v) in list {
    let got = match kind {
      0 => b.ns(n) as i32,
      1 => b.subexp(n, k) as i32,
      2 => b.usub(n, k, rf as u32) as i32,
      // decode_signed_subexp_with_ref(-(n-1), n, k, ref)
      _ => b.usub(2 * n - 1, k, (rf + n as i32 - 1) as u32) as i32 - (n as i32 - 1),
    };
    if got != v { cx.fail("header-code", format!("code {kind} n {n} k {k} ref {rf} value {v} reads back as {got}")); return }
    cx.count("header_codes", 1);
  }
}
