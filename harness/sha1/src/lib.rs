//! Stand-in for `sha1_smol` in the harness builds.
//!
//! Symbolically SHA-1 is an ideal hash: equal inputs give equal digests and
//! different inputs different ones (a table of the inputs seen so far; the
//! digest is derived from the index).  Natively it is SHA-1.

#[derive(Clone, Default)]
pub struct Sha1 {
    data: Vec<u8>,
}

pub struct Digest([u8; 20]);

impl Digest {
    pub fn bytes(&self) -> [u8; 20] {
        self.0
    }
}

impl Sha1 {
    pub fn new() -> Self {
        Self { data: Vec::new() }
    }
    pub fn from<D: AsRef<[u8]>>(d: D) -> Self {
        let mut s = Self::new();
        s.update(d.as_ref());
        s
    }
    pub fn reset(&mut self) {
        self.data.clear();
    }
    pub fn update(&mut self, d: &[u8]) {
        self.data.extend_from_slice(d);
    }
    pub fn digest(&self) -> Digest {
        Digest(imp::hash(&self.data))
    }
}

#[cfg(target_arch = "riscv64")]
mod imp {
    static mut SEEN: Vec<Vec<u8>> = Vec::new();
    static mut MULT: u32 = 0x9E37_79B1;

    pub fn order(down: bool) {
        unsafe { MULT = if down { 0xC2B2_AE35 } else { 0x9E37_79B1 } }
    }

    pub fn hash(d: &[u8]) -> [u8; 20] {
        #[allow(static_mut_refs)]
        let seen = unsafe { &mut SEEN };
        let mut i = 0;
        while i < seen.len() {
            if seen[i].len() == d.len() && seen[i] == d {
                break;
            }
            i += 1;
        }
        if i == seen.len() {
            seen.push(d.to_vec());
        }
        let x = (i as u32 + 1).wrapping_mul(unsafe { MULT });
        let mut r = [0u8; 20];
        r[0..4].copy_from_slice(&x.to_be_bytes());
        r[4..6].copy_from_slice(&(i as u16).to_le_bytes());
        r[9..13].copy_from_slice(&x.rotate_left(11).to_be_bytes());
        r
    }
}

#[cfg(not(target_arch = "riscv64"))]
mod imp {
    pub fn order(_: bool) {}

    pub fn hash(d: &[u8]) -> [u8; 20] {
        let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
        let mut m = d.to_vec();
        m.push(0x80);
        while m.len() % 64 != 56 {
            m.push(0);
        }
        m.extend_from_slice(&((d.len() as u64) * 8).to_be_bytes());
        for c in m.chunks(64) {
            let mut w = [0u32; 80];
            for i in 0..16 {
                w[i] = u32::from_be_bytes([c[4 * i], c[4 * i + 1], c[4 * i + 2], c[4 * i + 3]]);
            }
            for i in 16..80 {
                w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
            }
            let [mut a, mut b, mut c, mut d, mut e] = h;
            for (i, &w) in w.iter().enumerate() {
                let (f, k) = match i / 20 {
                    0 => ((b & c) | (!b & d), 0x5A827999),
                    1 => (b ^ c ^ d, 0x6ED9EBA1),
                    2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                    _ => (b ^ c ^ d, 0xCA62C1D6u32),
                };
                let t = a
                    .rotate_left(5)
                    .wrapping_add(f)
                    .wrapping_add(e)
                    .wrapping_add(k)
                    .wrapping_add(w);
                e = d;
                d = c;
                c = b.rotate_left(30);
                b = a;
                a = t;
            }
            for (h, x) in h.iter_mut().zip([a, b, c, d, e]) {
                *h = h.wrapping_add(x);
            }
        }
        let mut r = [0; 20];
        for (i, h) in h.iter().enumerate() {
            r[4 * i..4 * i + 4].copy_from_slice(&h.to_be_bytes());
        }
        r
    }

    #[test]
    fn sha1() {
        assert_eq!(hash(b"abc")[..4], [0xa9, 0x99, 0x3e, 0x36]);
    }
}

/// Which of two orders the ideal digests have (no effect natively).
pub fn order(down: bool) {
    imp::order(down)
}
