//! Synthetic pictures: a deterministic function of (spec, frame number, plane, x, y).
use crate::rng::{mix, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
  Flat,
  Gradient,
  Noise,
  LowNoise,
  Texture,
  Screen,
  Extreme,
  Objects,
  Fade,
  Zoom,
  Sparse,
  Mixed,
}
pub const KINDS: [Kind; 12] = [
  Kind::Flat, Kind::Gradient, Kind::Noise, Kind::LowNoise, Kind::Texture, Kind::Screen,
  Kind::Extreme, Kind::Objects, Kind::Fade, Kind::Zoom, Kind::Sparse, Kind::Mixed,
];

#[derive(Clone, Debug)]
pub struct Content {
  pub kind: Kind,
  pub seed: u64,
  /// content changes abruptly at multiples of this many frames (0: never)
  pub cut_every: u64,
  /// the picture is repeated this many times
  pub hold: u64,
  /// motion per frame, in 1/4 pixels
  pub vx: i64,
  pub vy: i64,
  /// number of the first picture
  pub first: u64,
}

impl Content {
  pub fn random(r: &mut Rng) -> Self {
    let kind = r.pick(&[
      Kind::Flat, Kind::Gradient, Kind::Noise, Kind::LowNoise, Kind::Texture, Kind::Texture,
      Kind::Texture, Kind::Screen, Kind::Screen, Kind::Extreme, Kind::Objects, Kind::Objects,
      Kind::Fade, Kind::Zoom, Kind::Sparse, Kind::Mixed, Kind::Mixed, Kind::Mixed,
    ]);
    Content {
      kind,
      seed: r.u64(),
      cut_every: if r.chance(1, 3) { r.range(1, 9) } else { 0 },
      hold: if r.chance(1, 5) { r.range(2, 4) } else { 1 },
      vx: r.range(0, 48) as i64 - 24,
      vy: r.range(0, 48) as i64 - 24,
      first: 0,
    }
  }

  /// Fills `out` (w*h samples) with plane `pli` of frame `n`.
  pub fn plane(&self, n: u64, pli: usize, w: usize, h: usize, xdec: usize, ydec: usize, bd: usize, out: &mut [u16]) {
    let n = n + self.first;
    let scene = if self.cut_every > 0 { n / self.cut_every } else { 0 };
    let seed = mix(self.seed ^ mix(scene));
    let t = (n / self.hold.max(1)) as i64;
    let max = (1i64 << bd) - 1;
    let mid = 1i64 << (bd - 1);
    let mut kind = self.kind;
    if self.cut_every > 0 && scene > 0 && seed & 3 == 0 {
      kind = KINDS[(seed >> 8) as usize % (KINDS.len())];
    }
    let ps = mix(seed ^ (pli as u64 + 1).wrapping_mul(0x51ed));
    for y in 0..h {
      for x in 0..w {
        // luma coordinates in 1/4 pixel
        let lx = ((x << xdec) as i64) * 4 + self.vx * t;
        let ly = ((y << ydec) as i64) * 4 + self.vy * t;
        let k = if kind == Kind::Mixed {
          let c = mix(seed ^ 77 ^ (((x << xdec) / 24) as u64) << 20 ^ (((y << ydec) / 24) as u64));
          KINDS[(c % 11) as usize]
        } else {
          kind
        };
        let v: i64 = match k {
          Kind::Flat | Kind::Mixed => (ps % (max as u64 + 1)) as i64,
          Kind::Gradient => {
            let a = (ps & 15) as i64 - 7;
            let b = ((ps >> 4) & 15) as i64 - 7;
            mid + ((lx * a + ly * b) >> 4) * (max + 1) / 256
          }
          Kind::Noise => {
            (mix(ps ^ (x as u64) << 32 ^ (y as u64) << 8 ^ (t as u64) << 48) % (max as u64 + 1)) as i64
          }
          Kind::LowNoise => {
            mid + (mix(ps ^ (x as u64) << 32 ^ (y as u64) << 8 ^ (t as u64) << 48) % 9) as i64 - 4
          }
          Kind::Texture | Kind::Fade | Kind::Zoom => {
            let (mut fx, mut fy) = (lx as f64 / 4.0, ly as f64 / 4.0);
            if k == Kind::Zoom {
              let s = 1.0 + 0.02 * t as f64;
              let (c, sn) = ((0.01 * t as f64).cos(), (0.01 * t as f64).sin());
              let (gx, gy) = ((fx - 32.0) * s, (fy - 32.0) * s);
              fx = gx * c - gy * sn;
              fy = gx * sn + gy * c;
            }
            let f1 = 0.02 + (ps & 31) as f64 / 100.0;
            let f2 = 0.02 + ((ps >> 5) & 31) as f64 / 100.0;
            let f3 = 0.3 + ((ps >> 10) & 15) as f64 / 20.0;
            let mut v = 0.5 + 0.25 * (fx * f1 + fy * f2 * 0.3).sin() + 0.15 * (fy * f2 - fx * 0.1).cos()
              + 0.08 * (fx * f3 + fy * f3 * 0.7).sin();
            if k == Kind::Fade {
              v *= (t as f64 * 0.13).cos().abs();
            }
            (v * max as f64) as i64
          }
          Kind::Screen => {
            let bx = lx.div_euclid(4);
            let by = ly.div_euclid(4);
            let cell = mix(seed ^ (bx.div_euclid(8) as u64) << 24 ^ (by.div_euclid(12)) as u64);
            let on = (cell >> ((bx.rem_euclid(8) + by.rem_euclid(12) * 3) & 63)) & 1 == 1 && cell & 7 < 3;
            if on { if pli == 0 { max * 15 / 16 } else { (ps % (max as u64 + 1)) as i64 } } else { mid / 4 + (ps & 7) as i64 }
          }
          Kind::Extreme => {
            let s = 1 << (ps & 3);
            let c = ((lx.div_euclid(4 * s) ^ ly.div_euclid(4 * s)) & 1) == 1;
            if c ^ (t & 1 == 1 && ps & 16 != 0) { max } else { 0 }
          }
          Kind::Objects => {
            let mut v = mid / 2 + (((x + 2 * y) as i64) * (max + 1) / 256 & max) / 4;
            for o in 0..3u64 {
              let os = mix(seed ^ o.wrapping_mul(991));
              let ox = ((os & 127) as i64 * 4 + t * (((os >> 8) & 63) as i64 - 32)).rem_euclid(600);
              let oy = (((os >> 16) & 127) as i64 * 4 + t * (((os >> 24) & 63) as i64 - 32)).rem_euclid(600);
              let r = 24 + ((os >> 32) & 63) as i64;
              let (dx, dy) = (((x << xdec) as i64) * 4 - ox, ((y << ydec) as i64) * 4 - oy);
              let inside = if os & 1 << 40 != 0 { dx * dx + dy * dy < r * r } else { dx.abs() < r && dy.abs() < r };
              if inside {
                v = (mix(os ^ pli as u64) % (max as u64 + 1)) as i64 + ((dx + dy) & 15);
              }
            }
            v
          }
          Kind::Sparse => {
            let c = mix(ps ^ (lx.div_euclid(4) as u64) << 20 ^ (ly.div_euclid(4)) as u64);
            if c % 97 == 0 { if c & 1024 != 0 { max } else { 0 } } else { mid }
          }
        };
        out[y * w + x] = v.clamp(0, max) as u16;
      }
    }
  }
}
