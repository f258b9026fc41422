//! Stand-in for rust-crypto's MD5 and SHA-256: the real algorithms behind the same `Digest` interface, including
//! the rule that input after `result` without a `reset` is an error. Every operation is a
//! scheduling point, so that a hasher shared without a lock, or locked too briefly, is seen.
pub mod digest {
  pub trait Digest {
    fn input(&mut self, input: &[u8]);
    fn result(&mut self, out: &mut [u8]);
    fn reset(&mut self);
    fn output_bits(&self) -> usize;
    fn block_size(&self) -> usize;
    fn output_bytes(&self) -> usize { (self.output_bits() + 7) / 8 }
    fn input_str(&mut self, input: &str) { self.input(input.as_bytes()) }
    fn result_str(&mut self) -> String {
      let mut buf = vec![0u8; self.output_bytes()];
      self.result(&mut buf);
      buf.iter().map(|b| format!("{b:02x}")).collect()
    }
  }
}
pub mod md5 {
  use crate::digest::Digest;
  #[derive(Clone)]
  pub struct Md5 {
    data: Vec<u8>,
    finished: Option<[u8; 16]>,
  }
  impl Default for Md5 {
    fn default() -> Self { Md5::new() }
  }
  impl Md5 {
    pub fn new() -> Md5 { Md5 { data: Vec::new(), finished: None } }
  }
  impl Digest for Md5 {
    fn input(&mut self, input: &[u8]) {
      mcsched::point("md5.input");
      assert!(self.finished.is_none(), "Md5: input after result without reset");
      self.data.extend_from_slice(input);
      mcsched::point("md5.input.done");
    }
    fn result(&mut self, out: &mut [u8]) {
      mcsched::point("md5.result");
      if self.finished.is_none() {
        self.finished = Some(compute(&self.data));
      }
      out.copy_from_slice(&self.finished.unwrap());
    }
    fn reset(&mut self) {
      mcsched::point("md5.reset");
      self.data.clear();
      self.finished = None;
    }
    fn output_bits(&self) -> usize { 128 }
    fn block_size(&self) -> usize { 64 }
  }
  /// RFC 1321
  pub fn compute(data: &[u8]) -> [u8; 16] {
    const S: [u32; 64] = [
      7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9,
      14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15,
      21, 6, 10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21,
    ];
    let k: Vec<u32> =
      (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect();
    let (mut a0, mut b0, mut c0, mut d0) =
      (0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32);
    let mut msg = data.to_vec();
    msg.push(0x80);
    while msg.len() % 64 != 56 {
      msg.push(0);
    }
    msg.extend_from_slice(&((data.len() as u64).wrapping_mul(8)).to_le_bytes());
    for chunk in msg.chunks(64) {
      let m: Vec<u32> =
        chunk.chunks(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])).collect();
      let (mut a, mut b, mut c, mut d) = (a0, b0, c0, d0);
      for i in 0..64 {
        let (f, g) = match i / 16 {
          0 => ((b & c) | (!b & d), i),
          1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
          2 => (b ^ c ^ d, (3 * i + 5) % 16),
          _ => (c ^ (b | !d), (7 * i) % 16),
        };
        let f2 = f.wrapping_add(a).wrapping_add(k[i]).wrapping_add(m[g]);
        a = d;
        d = c;
        c = b;
        b = b.wrapping_add(f2.rotate_left(S[i]));
      }
      a0 = a0.wrapping_add(a);
      b0 = b0.wrapping_add(b);
      c0 = c0.wrapping_add(c);
      d0 = d0.wrapping_add(d);
    }
    let mut out = [0u8; 16];
    for (i, v) in [a0, b0, c0, d0].iter().enumerate() {
      out[i * 4..i * 4 + 4].copy_from_slice(&v.to_le_bytes());
    }
    out
  }
  #[test]
  fn rfc1321() {
    let mut h = Md5::new();
    h.input_str("message digest");
    assert_eq!(h.result_str(), "f96b697d7cb7938d525a2f31aaf161d0");
    h.reset();
    assert_eq!(h.result_str(), "d41d8cd98f00b204e9800998ecf8427e");
  }
}
pub mod sha2 {
  use crate::digest::Digest;
  #[derive(Clone)]
  pub struct Sha256 {
    data: Vec<u8>,
    finished: Option<[u8; 32]>,
  }
  impl Default for Sha256 {
    fn default() -> Self { Sha256::new() }
  }
  impl Sha256 {
    pub fn new() -> Sha256 { Sha256 { data: Vec::new(), finished: None } }
  }
  impl Digest for Sha256 {
    fn input(&mut self, input: &[u8]) {
      assert!(self.finished.is_none(), "Sha256: input after result without reset");
      self.data.extend_from_slice(input);
    }
    fn result(&mut self, out: &mut [u8]) {
      if self.finished.is_none() {
        self.finished = Some(compute(&self.data));
      }
      out.copy_from_slice(&self.finished.unwrap());
    }
    fn reset(&mut self) {
      self.data.clear();
      self.finished = None;
    }
    fn output_bits(&self) -> usize { 256 }
    fn block_size(&self) -> usize { 64 }
  }
  /// the first 32 bits of the fractional part of the root of the n-th prime
  fn root_bits(n: usize, cube: bool) -> u32 {
    let prime = (2u128..).filter(|p| (2..*p).take_while(|d| d * d <= *p).all(|d| p % d != 0)).nth(n).unwrap();
    // floor(root(prime) * 2^32)
    let target = if cube { prime << 96 } else { prime << 64 };
    let (mut lo, mut hi) = (0u128, 1 << 40);
    while hi - lo > 1 {
      let m = (lo + hi) / 2;
      let v = if cube { m.checked_mul(m).and_then(|s| s.checked_mul(m)) } else { m.checked_mul(m) };
      if v.is_some_and(|v| v <= target) { lo = m } else { hi = m }
    }
    lo as u32
  }
  /// FIPS 180-4
  pub fn compute(data: &[u8]) -> [u8; 32] {
    static K: std::sync::OnceLock<([u32; 64], [u32; 8])> = std::sync::OnceLock::new();
    let (k, h0) = K.get_or_init(|| (std::array::from_fn(|i| root_bits(i, true)), std::array::from_fn(|i| root_bits(i, false))));
    let mut h = *h0;
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
      m.push(0);
    }
    m.extend((data.len() as u64 * 8).to_be_bytes());
    for b in m.chunks(64) {
      let mut w = [0u32; 64];
      for i in 0..16 {
        w[i] = u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
      }
      for i in 16..64 {
        let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
        let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
        w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
      }
      let mut v = h;
      for i in 0..64 {
        let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
        let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        let t2 = s0.wrapping_add(maj);
        v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
      }
      for i in 0..8 {
        h[i] = h[i].wrapping_add(v[i]);
      }
    }
    let mut out = [0; 32];
    for (o, x) in out.chunks_mut(4).zip(h) {
      o.copy_from_slice(&x.to_be_bytes());
    }
    out
  }
}
