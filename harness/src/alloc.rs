//! Global allocator used as a monitor: counts live memory, fills fresh memory with a chosen
//! pattern, and can place blocks against inaccessible guard pages with canaries around them.
//! Works for hand-written assembly too, which compiler sanitizers cannot instrument.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};

pub struct Mon;

static FILL_ON: AtomicBool = AtomicBool::new(false);
static FILL: AtomicU8 = AtomicU8::new(0);
/// 0 none, 1 guard page after the block, 2 guard page before the block
static GUARD: AtomicU8 = AtomicU8::new(0);
static GUARD_MIN: AtomicUsize = AtomicUsize::new(1024);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
pub static GUARDED: AtomicU64 = AtomicU64::new(0);
pub static FILLED: AtomicU64 = AtomicU64::new(0);
const REGION: usize = 24 << 40;
const CANARY: u8 = 0xC5;
const PAGE: usize = 4096;

pub fn set_fill(p: Option<u8>) {
  match p {
    Some(b) => { FILL.store(b, SeqCst); FILL_ON.store(true, SeqCst); }
    None => FILL_ON.store(false, SeqCst),
  }
}
pub fn set_guard(mode: u8, min: usize) {
  if BASE.load(SeqCst) == 0 {
    let p = unsafe {
      libc::mmap(std::ptr::null_mut(), REGION, libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
    };
    if p == libc::MAP_FAILED { return; }
    NEXT.store(p as usize + PAGE, SeqCst);
    BASE.store(p as usize, SeqCst);
  }
  GUARD_MIN.store(min, SeqCst);
  GUARD.store(mode, SeqCst);
}
pub fn live() -> i64 { LIVE.load(SeqCst) }
pub fn reset_peak() { PEAK.store(LIVE.load(SeqCst), SeqCst); }
pub fn peak() -> i64 { PEAK.load(SeqCst) }

fn die(msg: &[u8]) -> ! {
  unsafe {
    libc::write(2, msg.as_ptr() as *const _, msg.len());
    libc::abort()
  }
}
unsafe fn in_region(p: *mut u8) -> bool {
  let b = BASE.load(Relaxed);
  b != 0 && (p as usize).wrapping_sub(b) < REGION
}
// [guard] [header page: base,len,size,mode] [data pages] [guard]; header lives in its own page
// so that the data pages touch the guard on the interesting side.
unsafe fn guarded_alloc(l: &Layout, mode: u8) -> *mut u8 {
  let align = l.align().max(1);
  if align > PAGE { return std::ptr::null_mut(); }
  let data = (l.size() + PAGE - 1) / PAGE * PAGE;
  // mode 2: [guard][data][guard ...]; mode 1: [data][guard]
  let total = data + PAGE;
  let at = NEXT.fetch_add(total, Relaxed);
  if at + total > BASE.load(Relaxed) + REGION { return std::ptr::null_mut(); }
  let m = libc::mmap(at as *mut _, data, libc::PROT_READ | libc::PROT_WRITE,
    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED, -1, 0);
  if m == libc::MAP_FAILED { return std::ptr::null_mut(); }
  let p = if mode == 2 { at } else { (at + data - l.size()) & !(align - 1) };
  // canaries in the slack
  let pre = p - at;
  let post = at + data - p - l.size();
  if pre > 0 { std::ptr::write_bytes(at as *mut u8, CANARY, pre); }
  if post > 0 { std::ptr::write_bytes((p + l.size()) as *mut u8, CANARY, post); }
  GUARDED.fetch_add(1, Relaxed);
  p as *mut u8
}
unsafe fn guarded_free(p: *mut u8, l: &Layout) {
  let a = p as usize;
  let data = (l.size() + PAGE - 1) / PAGE * PAGE;
  let at = a & !(PAGE - 1);
  // p lies in the first page in both modes
  for i in at..a {
    if *(i as *const u8) != CANARY { die(b"VMON-GUARD: bytes before a heap block were overwritten\n"); }
  }
  for i in a + l.size()..at + data {
    if *(i as *const u8) != CANARY { die(b"VMON-GUARD: bytes after a heap block were overwritten\n"); }
  }
  libc::mmap(at as *mut _, data, libc::PROT_NONE,
    libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED | libc::MAP_NORESERVE, -1, 0);
}
static JITTER: AtomicU64 = AtomicU64::new(0);
static TRACE: AtomicU64 = AtomicU64::new(0);
static THREADS: AtomicU64 = AtomicU64::new(0);
thread_local! {
  static TL: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 0)) };
}
/// One in n allocations is followed by a short pause or a yield (0: off); also starts a new
/// signature of the order in which threads allocate.
pub fn set_jitter(n: u64) { TRACE.store(0, Relaxed); JITTER.store(n, Relaxed); }
/// Identifies the interleaving observed since set_jitter (order of threads at allocations).
pub fn schedule_signature() -> u64 { TRACE.load(Relaxed) }
// Relaxed operations only: the monitor must not order the threads it watches.
#[inline(never)]
fn jitter(n: u64) {
  let _ = TL.try_with(|c| {
    let (mut id, mut x) = c.get();
    if id == 0 { id = THREADS.fetch_add(1, Relaxed) + 1; x = id.wrapping_mul(0x9E37_79B9_7F4A_7C15); }
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    c.set((id, x));
    let h = TRACE.load(Relaxed);
    TRACE.store(h.wrapping_mul(0x100_0000_01B3).wrapping_add(id), Relaxed);
    if x % n == 0 {
      unsafe {
        if (x >> 32) % 3 == 0 { libc::usleep(((x >> 40) % 300) as u32); } else { libc::sched_yield(); }
      }
    }
  });
}
fn note(n: usize) {
  let v = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
  LIVE_BLOCKS.fetch_add(1, Relaxed);
  PEAK.fetch_max(v, Relaxed);
}

unsafe impl GlobalAlloc for Mon {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let j = JITTER.load(Relaxed);
    if j != 0 { jitter(j); }
    let g = GUARD.load(Relaxed);
    let mut p = std::ptr::null_mut();
    if g != 0 && l.size() >= GUARD_MIN.load(Relaxed) {
      p = guarded_alloc(&l, g);
    }
    if p.is_null() { p = System.alloc(l); }
    if !p.is_null() {
      note(l.size());
      if FILL_ON.load(Relaxed) {
        std::ptr::write_bytes(p, FILL.load(Relaxed), l.size());
        FILLED.fetch_add(1, Relaxed);
      }
    }
    p
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    let g = GUARD.load(Relaxed);
    if g != 0 && l.size() >= GUARD_MIN.load(Relaxed) {
      let p = guarded_alloc(&l, g); // fresh mmap: already zero
      if !p.is_null() {
        note(l.size());
        return p;
      }
    }
    let p = System.alloc_zeroed(l);
    if !p.is_null() { note(l.size()); }
    p
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    LIVE.fetch_sub(l.size() as i64, Relaxed);
    LIVE_BLOCKS.fetch_sub(1, Relaxed);
    if in_region(p) { return guarded_free(p, &l); }
    if FILL_ON.load(Relaxed) { std::ptr::write_bytes(p, 0xDD, l.size()); }
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    if GUARD.load(Relaxed) == 0 && !FILL_ON.load(Relaxed) && !in_region(p) {
      let q = System.realloc(p, l, n);
      if !q.is_null() {
        let v = LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed) + n as i64 - l.size() as i64;
        PEAK.fetch_max(v, Relaxed);
      }
      return q;
    }
    let nl = Layout::from_size_align_unchecked(n, l.align());
    let q = self.alloc(nl);
    if !q.is_null() {
      std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
      self.dealloc(p, l);
    }
    q
  }
}
