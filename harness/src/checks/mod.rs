use crate::driver::Spec;
macro_rules! checks { ($($m:ident),*; $($d:ident),*) => {
  $(pub mod $m;)*
  $(#[cfg(feature = "dec")] pub mod $d;)*
  pub fn specs() -> Vec<Spec> {
    #[allow(unused_mut)]
    let mut v = vec![$($m::spec()),*];
    #[cfg(feature = "dec")]
    v.extend([$($d::spec()),*]);
    v
  }
} }
// available in every build; only with the external decoders
checks!(c05, c06; c01, c02, c03, c04, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c18, c19, c20, c21, c23, c24);

pub const BASE: Spec = Spec {
  id: "", run: |_| {}, cases: (u64::MAX, u64::MAX), secs: (60, 900), jobs: 8, rule: "", level: "exploration", assumptions: &[], cpu_limit: 400, phases: &[],
};

pub fn brief(c: &crate::case::EncCase) -> String { format!("{} {}x{} n={} threads={} cfg={:?}", c.class(), c.enc.width, c.enc.height, c.nframes, c.threads, c.enc) }
