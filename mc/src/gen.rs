//! Byte-trace generator: produces encodings of a type, valid by default, with deviations into boundary
//! and invalid encodings decided by the chooser. The reference decoder, not this file, says what is valid.
use crate::choose::Chooser;
use crate::ty::{Def, Tid, Types};
use scale_type_resolver::{BitsStoreFormat, Primitive};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct GenOpts {
    /// Include invalid leaf encodings (bad bool, bad UTF-8, ...).
    pub invalid: bool,
    /// Use large alphabets for leaves.
    pub rich: bool,
    /// Include lengths claimed but not supplied.
    pub huge: bool,
    /// Maximal sequence length option list to use (0..): see `seq_lens`.
    pub long: bool,
    pub max_depth: usize,
}
impl GenOpts {
    pub const VALID: GenOpts = GenOpts { invalid: false, rich: false, huge: false, long: false, max_depth: 12 };
    pub const RICH: GenOpts = GenOpts { invalid: false, rich: true, huge: false, long: false, max_depth: 12 };
    pub const ALL: GenOpts = GenOpts { invalid: true, rich: true, huge: true, long: true, max_depth: 12 };
}

/// Canonical compact encoding of `v`.
pub fn compact(v: u128, out: &mut Vec<u8>) {
    if v < 1 << 6 {
        out.push((v as u8) << 2);
    } else if v < 1 << 14 {
        out.extend_from_slice(&((v as u16) << 2 | 1).to_le_bytes());
    } else if v < 1 << 30 {
        out.extend_from_slice(&((v as u32) << 2 | 2).to_le_bytes());
    } else {
        let n = (16 - v.leading_zeros() as usize / 8).max(4);
        out.push(((n as u8 - 4) << 2) | 3);
        out.extend_from_slice(&v.to_le_bytes()[..n]);
    }
}

/// The values used for compact integers of `bits` bits; the first is the default.
pub fn compact_values(bits: u32, rich: bool) -> Vec<u128> {
    let mut v: Vec<u128> = vec![5, 0, 63, 64, 255, 256, 16383, 16384, 65535, 65536];
    if rich {
        v.extend([1u128 << 30, (1 << 30) - 1, u32::MAX as u128, 1 << 32, (1 << 40) - 1, 1 << 56, u64::MAX as u128]);
        v.extend([1u128 << 64, 1 << 100, (1 << 120) - 1, u128::MAX]);
    } else {
        v.extend([1u128 << 30, u64::MAX as u128, u128::MAX]);
    }
    v.retain(|x| bits == 128 || x >> bits == 0);
    v
}

/// Encodings that no canonical compact integer of `bits` bits has.
pub fn bad_compacts(bits: u32) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![
        vec![(5 << 2) | 1, 0],                         // two bytes for 5
        vec![(63u8 << 2) | 1, 0],                      // two bytes for 63
        vec![2, 1, 0, 0],                              // four bytes for 64
        vec![0xfe, 0xff, 0, 0],                        // four bytes for 16383
        vec![3, 1, 0, 0, 0],                           // big mode for 1
        vec![3, 0xff, 0xff, 0xff, 0x3f],               // big mode for 2^30-1
        vec![(1 << 2) | 3, 1, 0, 0, 0x80, 0],          // five bytes, leading zero
        vec![(4 << 2) | 3, 1, 0, 0, 0, 0, 0, 0, 0],    // eight bytes, leading zeros
        vec![(12 << 2) | 3, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0],
        vec![(13 << 2) | 3, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17],
        vec![0xff, 1, 2, 3],
    ];
    if bits < 128 {
        // smallest and largest values that do not fit
        for x in [1u128 << bits, u128::MAX] {
            let mut o = vec![];
            compact(x, &mut o);
            v.push(o);
        }
    }
    v
}

fn ints(bits: u32, rich: bool) -> Vec<u128> {
    let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let asym = 0x2a1b_3c4d_5e6f_7081_92a3_b4c5_d6e7_0102u128 & mask;
    let mut v = vec![asym, 0, 1, mask, 1 << (bits - 1), (1 << (bits - 1)) - 1];
    if rich {
        for b in [7, 8, 15, 16, 31, 32, 63, 64, 127] {
            if b < bits {
                v.extend([(1u128 << b) - 1, 1 << b, (mask >> b) << b, ((mask >> b) << b).wrapping_sub(1) & mask]);
            }
        }
    }
    let mut seen = vec![];
    v.retain(|x| {
        let new = !seen.contains(x);
        seen.push(*x);
        new
    });
    v
}

fn raw(v: u128, bytes: usize, out: &mut Vec<u8>) {
    out.extend_from_slice(&v.to_le_bytes()[..bytes]);
}

pub struct Gen<'a> {
    pub types: &'a Types,
    pub ch: &'a Chooser,
    pub o: GenOpts,
    pub out: Vec<u8>,
}

pub fn gen(types: &Types, t: Tid, ch: &Chooser, o: GenOpts) -> Vec<u8> {
    let mut g = Gen { types, ch, o, out: vec![] };
    g.value(t, false, 0);
    g.out
}

impl<'a> Gen<'a> {
    fn compact_len(&mut self, n: usize) {
        compact(n as u128, &mut self.out)
    }
    pub fn value(&mut self, t: Tid, c: bool, depth: usize) {
        if depth > self.o.max_depth {
            return;
        }
        let types = self.types;
        match types.get(t) {
            Def::NotFound | Def::Fail(_) => {
                // bytes that some reader might be tempted to consume
                self.out.extend_from_slice(&[4, 8]);
            }
            Def::Compact(i) => self.value(*i, true, depth + 1),
            Def::Comp { fields, .. } => {
                for (_, t) in fields {
                    self.value(*t, c, depth + 1);
                }
            }
            Def::Tup(ts) => {
                for t in ts {
                    self.value(*t, c, depth + 1);
                }
            }
            Def::Var { vars, .. } => {
                let bad: Vec<u8> = if self.o.invalid {
                    let mut b: Vec<u8> = vec![];
                    for cand in [0u8, 1, 2, 3, 6, 128, 254, 255] {
                        if !vars.iter().any(|v| v.index == cand) && b.len() < 3 {
                            b.push(cand);
                        }
                    }
                    b
                } else {
                    vec![]
                };
                // few variants: enumerate all; many: first, second, last
                let opts: Vec<usize> =
                    if vars.len() <= 4 { (0..vars.len()).collect() } else { vec![0, 1, vars.len() / 2, vars.len() - 1] };
                // near the depth bound prefer the variant with the fewest fields
                let pick = if opts.is_empty() {
                    None
                } else if depth + 3 > self.o.max_depth {
                    vars.iter().enumerate().min_by_key(|(_, v)| v.fields.len()).map(|(i, _)| i)
                } else {
                    let n = opts.len() + bad.len();
                    let k = self.ch.choose(n);
                    if k >= opts.len() {
                        self.out.push(bad[k - opts.len()]);
                        self.out.extend_from_slice(&[4, 4]);
                        return;
                    }
                    Some(opts[k])
                };
                match pick {
                    None => self.out.push(0),
                    Some(i) => {
                        self.out.push(vars[i].index);
                        for (_, t) in &vars[i].fields {
                            self.value(*t, false, depth + 1);
                        }
                    }
                }
            }
            Def::Seq(e) => {
                let mut lens: Vec<usize> = vec![2, 0, 1, 3];
                if depth > 3 {
                    lens = vec![1, 0, 2];
                }
                if depth + 3 > self.o.max_depth {
                    lens = vec![0];
                }
                if self.o.long && depth == 0 {
                    lens.extend([5, 63, 64, 65]);
                }
                let extra = if self.o.huge { 4 } else { 0 };
                let k = self.ch.choose(lens.len() + extra);
                if k < lens.len() {
                    self.compact_len(lens[k]);
                    for i in 0..lens[k] {
                        if i < 4 {
                            self.value(*e, false, depth + 1);
                        } else {
                            // beyond the fourth item repeat defaults without new choice points
                            let ch = Chooser::default();
                            let mut g = Gen { types, ch: &ch, o: self.o, out: std::mem::take(&mut self.out) };
                            g.value(*e, false, depth + 1);
                            self.out = g.out;
                        }
                    }
                } else {
                    match k - lens.len() {
                        0 => self.out.extend_from_slice(&[(2 << 2) | 1, 0]), // non-canonical 2
                        1 => compact(1 << 14, &mut self.out),
                        2 => compact(u32::MAX as u128, &mut self.out),
                        _ => compact(1 << 64, &mut self.out), // does not fit a length
                    }
                    self.value(*e, false, depth + 1);
                    self.value(*e, false, depth + 1);
                }
            }
            Def::Arr(e, n) => {
                for i in 0..*n {
                    if i < 4 {
                        self.value(*e, false, depth + 1);
                    } else {
                        let ch = Chooser::default();
                        let mut g = Gen { types, ch: &ch, o: self.o, out: std::mem::take(&mut self.out) };
                        g.value(*e, false, depth + 1);
                        self.out = g.out;
                    }
                }
            }
            Def::Bits(s, _) => {
                let w = match s {
                    BitsStoreFormat::U8 => 8,
                    BitsStoreFormat::U16 => 16,
                    BitsStoreFormat::U32 => 32,
                    BitsStoreFormat::U64 => 64,
                };
                let mut lens = vec![w / 2 + 1, 0, w, w + 1, 1, 2 * w - 1, 2 * w];
                if !self.o.rich {
                    lens.truncate(4);
                }
                if self.o.long && depth == 0 {
                    lens.extend([63, 64, 65, 127, 128, 129]);
                }
                let extra = if self.o.huge { 3 } else { 0 };
                let k = self.ch.choose(lens.len() + extra);
                if k < lens.len() {
                    let n = lens[k];
                    self.compact_len(n);
                    let bytes = (n + w - 1) / w * w / 8;
                    for i in 0..bytes {
                        self.out.push([0xa5u8, 0x3c, 0x01, 0x80, 0xe7, 0x19, 0x42, 0xdb][i % 8]);
                    }
                } else {
                    match k - lens.len() {
                        0 => self.out.extend_from_slice(&[(9 << 2) | 1, 0]),
                        1 => compact(u32::MAX as u128, &mut self.out),
                        _ => compact(1 << 32, &mut self.out),
                    }
                    self.out.extend_from_slice(&[0xa5, 0x3c, 1, 2, 3, 4, 5, 6, 7, 8, 9]);
                }
            }
            Def::Prim(p) => self.prim(*p, c),
        }
    }
    fn prim(&mut self, p: Primitive, c: bool) {
        use Primitive::*;
        let bits = match p {
            U8 | I8 => 8,
            U16 | I16 => 16,
            U32 | I32 => 32,
            U64 | I64 => 64,
            U128 | I128 => 128,
            _ => 0,
        };
        let unsigned = matches!(p, U8 | U16 | U32 | U64 | U128);
        if unsigned && c {
            let vals = compact_values(bits, self.o.rich);
            let bad = if self.o.invalid { bad_compacts(bits) } else { vec![] };
            let k = self.ch.choose(vals.len() + bad.len());
            if k < vals.len() {
                compact(vals[k], &mut self.out);
            } else {
                self.out.extend_from_slice(&bad[k - vals.len()]);
            }
            return;
        }
        if bits > 0 {
            let vals = ints(bits, self.o.rich);
            let k = self.ch.choose(vals.len());
            raw(vals[k], bits as usize / 8, &mut self.out);
            return;
        }
        match p {
            Bool => {
                let k = self.ch.choose(if self.o.invalid { 5 } else { 2 });
                self.out.push([1, 0, 2, 0x80, 0xff][k]);
            }
            Char => {
                let good = [0xe9u32, 0x61, 0, 0x1F600, 0x10FFFF, 0xD7FF, 0xE000];
                let bad = [0xD800u32, 0xDFFF, 0x110000, 0xFFFF_FFFF, 0x0100_0061];
                let k = self.ch.choose(good.len() + if self.o.invalid { bad.len() } else { 0 });
                let v = if k < good.len() { good[k] } else { bad[k - good.len()] };
                raw(v as u128, 4, &mut self.out);
            }
            Str => {
                let mut good: Vec<Vec<u8>> = vec![
                    "h\u{e9}".into(),
                    "".into(),
                    "a".into(),
                    "\u{1F600}\u{20AC}".into(),
                    "\0".into(),
                    "\u{feff}a\0".into(),
                    " b\n".into(),
                ];
                if self.o.rich {
                    good.push(vec![b'x'; 63]);
                    good.push(vec![b'y'; 64]);
                }
                let mut bad: Vec<Vec<u8>> = vec![];
                if self.o.invalid {
                    bad = vec![
                        vec![4, 0xff],               // not UTF-8
                        vec![8, b'a', 0x80],         // stray continuation
                        vec![4, 0xc3],               // cut multi-byte character
                        vec![12, 0xed, 0xa0, 0x80],  // surrogate
                        vec![8, 0xc0, 0x80],         // overlong
                        vec![(2 << 2) | 1, 0, b'a', b'b'], // non-canonical length
                        vec![(9 << 2) | 3, 1, 2, 3], // length of 13 bytes, cut
                    ];
                    if self.o.huge {
                        let mut h = vec![];
                        compact(u32::MAX as u128, &mut h);
                        h.extend_from_slice(b"abc");
                        bad.push(h);
                        let mut h = vec![];
                        compact(1 << 32, &mut h);
                        h.extend_from_slice(b"abc");
                        bad.push(h);
                    }
                }
                let k = self.ch.choose(good.len() + bad.len());
                if k < good.len() {
                    self.compact_len(good[k].len());
                    self.out.extend_from_slice(&good[k]);
                } else {
                    self.out.extend_from_slice(&bad[k - good.len()]);
                }
            }
            U256 | I256 => {
                let k = self.ch.choose(4);
                for i in 0..32u8 {
                    self.out.push(match k {
                        0 => i.wrapping_mul(7).wrapping_add(3),
                        1 => 0,
                        2 => 0xff,
                        _ => 31 - i,
                    });
                }
            }
            _ => unreachable!(),
        }
    }
}

/// Characters some reader might treat specially.
pub const CHARS: [char; 32] = [
    'e', 'A', '0', '-', '_', ' ', '\t', '\n', '\r', '\0', '\u{1b}', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{e9}', '\u{301}', '\u{200b}', '\u{200d}',
    '\u{202e}', '\u{2028}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{ffff}', '\u{1f600}', '\u{e0001}', '\u{10ffff}', '\\', '"', '\'', '/',
];
/// Every string of up to `len` of those characters, and every character on its own, encoded, to `f`.
pub fn texts(len: usize, all: bool, f: &mut dyn FnMut(&[u8])) {
    let mut go = |s: &str| {
        let mut b = vec![];
        compact(s.len() as u128, &mut b);
        b.extend_from_slice(s.as_bytes());
        f(&b);
    };
    for n in 1..=len {
        for i in 0..CHARS.len().pow(n as u32) {
            let mut i = i;
            let s: String = (0..n)
                .map(|_| {
                    let c = CHARS[i % CHARS.len()];
                    i /= CHARS.len();
                    c
                })
                .collect();
            go(&s);
        }
    }
    if all {
        for c in '\0'..=char::MAX {
            go(c.encode_utf8(&mut [0; 4]));
        }
    }
}
