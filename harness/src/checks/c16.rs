//! C16: IVF writing and reading.
use super::BASE;
use crate::alloc;
use crate::driver::{guard, panic_sig, Cx, Spec};
use crate::rng::Rng;
use std::io::{self, Read, Write};

pub fn spec() -> Spec {
  Spec {
    id: "C16",
    run,
    secs: (25, 240),
    rule: "a case writes a random file through a writer that accepts data in pieces, compares it with an independently laid out file, reads it back through a reader that returns data in pieces and with interruptions, then reads it cut at every kind of position and with damaged or foreign bytes; classes are (operation, packet count, size and value bands, outcome)",
    assumptions: &["stream sizes fit the 16-bit fields and packets the 32-bit length of the format"],
    ..BASE
  }
}

/// accepts at most a few bytes at a time
struct Pieces<'a> { out: Vec<u8>, r: &'a mut Rng }
impl Write for Pieces<'_> {
  fn write(&mut self, b: &[u8]) -> io::Result<usize> {
    if self.r.chance(1, 16) { return Err(io::ErrorKind::Interrupted.into()); }
    let n = if self.r.chance(1, 2) { b.len() } else { b.len().min(self.r.us(1, 7)) };
    self.out.extend(&b[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
struct Src<'a> { d: &'a [u8], pos: usize, r: Rng, rough: bool, fail_at: Option<usize> }
impl Read for Src<'_> {
  fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    if self.rough && self.r.chance(1, 16) { return Err(io::ErrorKind::Interrupted.into()); }
    let mut n = b.len().min(self.d.len() - self.pos);
    if self.rough && n > 0 && self.r.chance(1, 2) { n = self.r.us(1, n.min(9)); }
    if let Some(f) = self.fail_at {
      if self.pos >= f { return Err(io::ErrorKind::TimedOut.into()); }
      n = n.min(f - self.pos);
    }
    b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}
fn u16r(r: &mut Rng) -> usize { match r.below(5) { 0 => r.pick(&[0, 1, 255, 256, 257, 32767, 32768, 65534, 65535]), 1 => r.us(1, 64), _ => r.us(0, 65535) } }
fn u32r(r: &mut Rng) -> usize { match r.below(5) { 0 => r.pick(&[0usize, 1, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]), 1 => r.us(1, 120), 2 => 1 << r.below(32), _ => r.us(0, 0xffff_ffff) } }
fn u64r(r: &mut Rng) -> u64 { match r.below(4) { 0 => r.pick(&[0, 1, 0xffff_ffff, 0x1_0000_0000, i64::MAX as u64, 1 << 63, u64::MAX]), 1 => r.below(1000), 2 => 1 << r.below(64), _ => r.u64() } }

struct File { w: usize, h: usize, num: usize, den: usize, pk: Vec<(u64, Vec<u8>)> }

fn gen(r: &mut Rng) -> File {
  let n = match r.below(8) { 0 => 0, 1 => 1, 2 => r.us(50, 400), _ => r.us(2, 20) };
  let seq = r.chance(1, 2);
  let pk = (0..n).map(|i| {
    let len = match r.below(10) { 0 => 0, 1 => 1, 2 => r.us(2, 12), 3 if n < 20 => r.us(4000, 70_000), 4 if n < 4 => r.us(65_536, 2_000_000), _ => r.us(0, 300) };
    (if seq { i as u64 } else { u64r(r) }, r.bytes(len))
  }).collect();
  File { w: u16r(r), h: u16r(r), num: u32r(r), den: u32r(r), pk }
}

/// the file laid out independently (the last 8 bytes of the header are not significant)
fn layout(f: &File) -> Vec<u8> {
  let mut v = b"DKIF\0\0\x20\0AV01".to_vec();
  v.extend((f.w as u16).to_le_bytes());
  v.extend((f.h as u16).to_le_bytes());
  v.extend((f.num as u32).to_le_bytes());
  v.extend((f.den as u32).to_le_bytes());
  v.extend([0; 8]);
  for (pts, d) in &f.pk {
    v.extend((d.len() as u32).to_le_bytes());
    v.extend(pts.to_le_bytes());
    v.extend(d);
  }
  v
}

fn brief(f: &File) -> String { format!("{}x{} {}/{} packets {:?}", f.w, f.h, f.num, f.den, f.pk.iter().take(20).map(|(p, d)| (*p, d.len())).collect::<Vec<_>>()) }

enum Item { Head(ivf::Header), Pkt(ivf::Packet), Err(io::ErrorKind) }

/// reads everything; returns (item, position after it)
fn read_all(d: &[u8], r: &mut Rng, rough: bool, fail_at: Option<usize>) -> Vec<(Item, usize)> {
  let mut s = Src { d, pos: 0, r: r.clone(), rough, fail_at };
  let mut v = vec![];
  match ivf::read_header(&mut s) {
    Ok(h) => v.push((Item::Head(h), s.pos)),
    Err(e) => { v.push((Item::Err(e.kind()), s.pos)); return v }
  }
  loop {
    match ivf::read_packet(&mut s) {
      Ok(p) => v.push((Item::Pkt(p), s.pos)),
      Err(e) => { v.push((Item::Err(e.kind()), s.pos)); return v }
    }
  }
}

/// checks what was read from `d` against an independent reading of the same bytes
fn judge(cx: &mut Cx, d: &[u8], end: usize, got: &[(Item, usize)], what: &str) {
  let lead = |n: usize| { let mut k = d[..d.len().min(n)].to_vec(); k.truncate(48); k };
  let mut pos = 0;
  for (i, (it, after)) in got.iter().enumerate() {
    match it {
      Item::Head(h) => {
        if i != 0 || end < 32 || &d[0..4] != b"DKIF" { cx.fail("header", format!("{what}: a header was read from {end} bytes {:?}", lead(48))); return }
        let f = |a: usize, n: usize| d[a..a + n].iter().rev().fold(0u64, |x, y| x << 8 | *y as u64);
        let want = (d[8..12].to_vec(), f(12, 2), f(14, 2), f(16, 4), f(20, 4));
        let have = (h.tag.to_vec(), h.w as u64, h.h as u64, h.timebase_den as u64, h.timebase_num as u64);
        if want != have { cx.fail("header", format!("{what}: read {have:?}, the file says {want:?}")); return }
        if *after != 32 { cx.fail("position", format!("{what}: header took {after} bytes")); return }
        pos = 32;
        cx.count("headers_read", 1);
      }
      Item::Pkt(p) => {
        if end < pos + 12 { cx.fail("invented", format!("{what}: packet {i} read at {pos} of {end} bytes")); return }
        let len = u32::from_le_bytes(d[pos..pos + 4].try_into().unwrap()) as usize;
        let pts = u64::from_le_bytes(d[pos + 4..pos + 12].try_into().unwrap());
        if p.data.len() != len || p.pts != pts { cx.fail("packet", format!("{what}: packet {i}: {} bytes at {}, the file says {len} at {pts}", p.data.len(), p.pts)); return }
        if end < pos + 12 + len { cx.fail("invented", format!("{what}: packet {i} of {len} bytes read at {pos} of {end} bytes")); return }
        if p.data[..] != d[pos + 12..pos + 12 + len] { cx.fail("packet", format!("{what}: packet {i} of {len} bytes has other data")); return }
        pos += 12 + len;
        if *after != pos { cx.fail("position", format!("{what}: packet {i} ends at {after} instead of {pos}")); return }
        cx.count("packets_read", 1);
      }
      Item::Err(_) => {
        // an error is right only where no complete item is left
        if i == 0 { if end >= 32 && &d[0..4] == b"DKIF" { cx.fail("refused", format!("{what}: header refused: {:?}", lead(48))); return } }
        else if end >= pos + 12 {
          let len = u32::from_le_bytes(d[pos..pos + 4].try_into().unwrap()) as usize;
          if end >= pos + 12 + len { cx.fail("refused", format!("{what}: packet {i} of {len} bytes at {pos} of {end} refused")); return }
        }
        cx.count("errors_returned", 1);
      }
    }
  }
}

fn run(cx: &mut Cx) {
  let mut r = cx.rng();
  for _ in 0..20 {
    let f = gen(&mut r);
    let want = layout(&f);
    // write
    let mut r2 = r.clone();
    let res = guard(|| {
      let mut o = Pieces { out: vec![], r: &mut r2 };
      ivf::write_ivf_header(&mut o, f.w, f.h, f.num, f.den);
      for (p, d) in &f.pk { ivf::write_ivf_frame(&mut o, *p, d); }
      o.out
    });
    let d = match res { Ok(d) => d, Err(p) => { cx.fail(&panic_sig(&p), format!("writing: {p}; {}", brief(&f))); return } };
    if d.len() != want.len() || d[..24] != want[..24] || d[32..] != want[32..] {
      let at = d.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(d.len().min(want.len()));
      cx.fail("layout", format!("written file differs from the format at byte {at} ({} bytes, expected {}); {}", d.len(), want.len(), brief(&f)));
      return;
    }
    cx.count("bytes_written", d.len() as u64);
    r.u64();
    // read back
    let got = match guard(|| read_all(&d, &mut r.clone(), true, None)) { Ok(g) => g, Err(p) => { cx.fail(&panic_sig(&p), format!("reading: {p}; {}", brief(&f))); return } };
    let n = got.iter().filter(|(i, _)| matches!(i, Item::Pkt(_))).count();
    if n != f.pk.len() { cx.fail("round-trip", format!("{n} packets read of {}; {}", f.pk.len(), brief(&f))); return }
    let h = match &got[0].0 { Item::Head(h) => h, _ => { cx.fail("round-trip", format!("header refused; {}", brief(&f))); return } };
    if (h.w as usize, h.h as usize, h.timebase_den as usize, h.timebase_num as usize) != (f.w, f.h, f.num, f.den) || &h.tag != b"AV01" {
      cx.fail("round-trip", format!("header {h:?}; {}", brief(&f)));
      return;
    }
    for (i, (p, x)) in got[1..].iter().filter_map(|(i, _)| if let Item::Pkt(p) = i { Some(p) } else { None }).zip(&f.pk).enumerate() {
      if p.pts != x.0 || p.data[..] != x.1[..] { cx.fail("round-trip", format!("packet {i}: {} bytes at {}; {}", p.data.len(), p.pts, brief(&f))); return }
    }
    judge(cx, &d, d.len(), &got, "round trip");
    cx.class(format!("round {} {} {}", f.pk.len().min(21), f.w.leading_zeros(), d.len().leading_zeros()));
    // cut, damaged, foreign, failing
    for k in 0..24 {
      let mut e = d.clone();
      let mut fail_at = None;
      let what = match k % 6 {
        0 => { e.truncate(r.us(0, e.len())); "cut" }
        1 => { let n = r.us(0, 60.min(e.len())); e.truncate(n); "cut-early" }
        2 => { for _ in 0..r.us(1, 4) { if !e.is_empty() { let top = if r.chance(1, 2) { 60 } else { usize::MAX }; let i = r.us(0, (e.len() - 1).min(top)); e[i] ^= 1 << r.below(8); } } "flipped" }
        3 => { let n = r.us(0, 200); e = r.bytes(n); if r.chance(1, 2) && n >= 4 { e[..4].copy_from_slice(b"DKIF"); } "foreign" }
        4 => { // a packet length far beyond the end
          let l: u32 = r.pick(&[u32::MAX, 0x8000_0000, 0x7fff_ffff, 0x1000_0000, 100_000]);
          e.extend(l.to_le_bytes()); e.extend(r.bytes(8)); let n = r.us(0, 30); e.extend(r.bytes(n)); "long-length" }
        _ => { fail_at = Some(r.us(0, e.len())); "failing" }
      };
      alloc::reset_peak();
      let base = alloc::live();
      let rough = r.chance(1, 2);
      let got = match guard(|| read_all(&e, &mut r.clone(), rough, fail_at)) { Ok(g) => g, Err(p) => { cx.fail(&panic_sig(&p), format!("{what}: {p}; {:?}", &e[..e.len().min(200)])); return } };
      let used = alloc::peak() - base;
      if used > 8 * e.len() as i64 + (1 << 22) { cx.fail("memory", format!("{what}: {used} bytes of memory for a file of {}", e.len())); return }
      let end = fail_at.unwrap_or(e.len());
      judge(cx, &e, end, &got, what);
      if !cx.fails.is_empty() { return }
      if let Some((Item::Err(x), _)) = got.last() {
        if fail_at.is_some() && got.len() > 1 && *x != io::ErrorKind::TimedOut { cx.fail("error-kind", format!("read error turned into {x:?}")); return }
        cx.class(format!("{what} {} {x:?}", got.len().min(6)));
      }
      r.u64();
    }
    cx.sample(format!("{} bytes, {} packets", d.len(), f.pk.len()));
  }
}
