//! Independent reference implementation of the wire format, written from the
//! documentation, used by the oracles and the scripted peers.

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum KW {
    K1 = 1,
    K2 = 2,
    K4 = 4,
    K8 = 8,
}
pub use KW::*;
pub const KWS: [KW; 4] = [K8, K4, K2, K1];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum SW {
    S1 = 1,
    S2 = 2,
    S4 = 4,
}
pub use SW::*;
pub const SWS: [SW; 3] = [S4, S2, S1];

impl SW {
    pub fn mask(self, v: u32) -> u32 {
        match self {
            S1 => v & 0xff,
            S2 => v & 0xffff,
            S4 => v,
        }
    }
}

/// Fold an 8-byte key down to `w` bytes
pub fn fold(k: [u8; 8], w: KW) -> Vec<u8> {
    match w {
        K8 => k.to_vec(),
        K4 => (0..4).map(|i| k[2 * i] ^ k[2 * i + 1]).collect(),
        K2 => (0..2).map(|i| k[4 * i] ^ k[4 * i + 1] ^ k[4 * i + 2] ^ k[4 * i + 3]).collect(),
        K1 => vec![k.iter().fold(0, |a, b| a ^ b)],
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Hdr {
    pub kw: KW,
    /// the folded key as on the wire
    pub key: Vec<u8>,
    pub sw: SW,
    pub seq: u32,
}

/// Fold an already folded key further (None: it is shorter than that)
pub fn refold(k: &[u8], w: KW) -> Option<Vec<u8>> {
    let mut v = k.to_vec();
    while v.len() > w as usize {
        v = v.chunks(2).map(|c| c[0] ^ c[1]).collect();
    }
    (v.len() == w as usize).then_some(v)
}

impl Hdr {
    pub fn is(&self, full: [u8; 8]) -> bool {
        self.key == fold(full, self.kw)
    }
}

pub fn enc_hdr(key: [u8; 8], kw: KW, sw: SW, seq: u32) -> Vec<u8> {
    let k = match kw {
        K1 => 0b00,
        K2 => 0b01,
        K4 => 0b10,
        K8 => 0b11,
    };
    let s = match sw {
        S1 => 0b00,
        S2 => 0b01,
        S4 => 0b10,
    };
    let mut v = vec![(k << 6) | (s << 4)];
    v.extend(fold(key, kw));
    v.extend(&seq.to_le_bytes()[..sw as usize]);
    v
}

pub fn enc(key: [u8; 8], kw: KW, sw: SW, seq: u32, body: &[u8]) -> Vec<u8> {
    let mut v = enc_hdr(key, kw, sw, seq);
    v.extend(body);
    v
}

pub fn dec(f: &[u8]) -> Option<(Hdr, &[u8])> {
    let b0 = *f.first()?;
    if b0 & 0x0f != 0 {
        return None;
    }
    let kw = [K1, K2, K4, K8][(b0 >> 6) as usize];
    let sw = match (b0 >> 4) & 3 {
        0 => S1,
        1 => S2,
        2 => S4,
        _ => return None,
    };
    let (kn, sn) = (kw as usize, sw as usize);
    if f.len() < 1 + kn + sn {
        return None;
    }
    let key = f[1..1 + kn].to_vec();
    let mut le = [0u8; 4];
    le[..sn].copy_from_slice(&f[1 + kn..1 + kn + sn]);
    Some((Hdr { kw, key, sw, seq: u32::from_le_bytes(le) }, &f[1 + kn + sn..]))
}

// ------------------------------------------------------------------ COBS

/// COBS encoding, with the terminating zero
pub fn cobs_enc(d: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut rest = d;
    loop {
        let run = rest.iter().take(254).take_while(|b| **b != 0).count();
        out.push(run as u8 + 1);
        out.extend(&rest[..run]);
        if run == 254 {
            rest = &rest[254..];
            if rest.is_empty() {
                break;
            }
        } else if run == rest.len() {
            break;
        } else {
            rest = &rest[run + 1..];
        }
    }
    out.push(0);
    out
}

/// Decode what stands before a delimiter; `None` if it is not valid
pub fn cobs_dec(d: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    while i < d.len() {
        let c = d[i] as usize;
        if c == 0 || i + c > d.len() {
            return None;
        }
        let blk = &d[i + 1..i + c];
        if blk.contains(&0) {
            return None;
        }
        out.extend(blk);
        i += c;
        if c != 0xff && i < d.len() {
            out.push(0);
        }
    }
    Some(out)
}

// ------------------------------------------------------------------ payloads

pub fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}

pub fn take_varint(b: &[u8]) -> Option<(u64, &[u8])> {
    let mut v = 0u64;
    for (i, x) in b.iter().enumerate().take(10) {
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            return Some((v, &b[i + 1..]));
        }
    }
    None
}

/// A string or byte array payload
pub fn take_blob(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let (n, r) = take_varint(b)?;
    if r.len() < n as usize {
        return None;
    }
    Some(r.split_at(n as usize))
}
