//! Reference SCALE semantics, written independently of the crate under test and of the codec crate.
use crate::ty::{Def, Tid, Types};
use scale_type_resolver::{BitsOrderFormat, BitsStoreFormat, Primitive};

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Bool(bool),
    Char(char),
    /// Raw bytes of the string; `None` text if not UTF-8.
    Str { text: Option<String>, data: usize },
    U(u16, u128),
    I(u16, i128),
    U256([u8; 32]),
    I256([u8; 32]),
    Seq(Vec<Node>),
    Arr(Vec<Node>),
    Tup(Vec<Node>),
    Comp { path: Vec<String>, fields: Vec<(Option<String>, Node)> },
    Var { name: String, index: u8, fields: Vec<(Option<String>, Node)> },
    Bits(Vec<bool>),
    /// Observed but deliberately not decoded (only produced by recording visitors).
    Skipped,
}

/// A decoded value: its reported type ID, its bytes `start..end`, whether it is read in compact form.
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub tid: Tid,
    pub start: usize,
    pub end: usize,
    pub compact: bool,
    /// The type ID written in the parent names a `Compact` type around this one.
    pub croot: bool,
    pub k: K,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RErr {
    /// Input exhausted at this offset.
    NotEnough(usize),
    BadBool(u8),
    BadChar(u32),
    BadCompact,
    BadVariant(u8),
    CannotCompact,
    NotFound(Tid),
    Resolver(String),
    /// Not a malformed value but an exploration guard (recursion or length beyond our bounds).
    Depth,
}

pub struct Dec<'a> {
    pub types: &'a Types,
    pub b: &'a [u8],
    pub pos: usize,
    depth: usize,
    /// How many values without bytes are worth looping over.
    pub max_empty: u128,
}

type R<T> = Result<T, RErr>;

impl<'a> Dec<'a> {
    pub fn new(types: &'a Types, b: &'a [u8]) -> Self {
        Dec { types, b, pos: 0, depth: 0, max_empty: 1 << 17 }
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        match self.pos.checked_add(n) {
            Some(e) if e <= self.b.len() => {
                let s = &self.b[self.pos..e];
                self.pos = e;
                Ok(s)
            }
            _ => Err(RErr::NotEnough(self.pos)),
        }
    }
    fn le(&mut self, n: usize) -> R<u128> {
        let s = self.take(n)?;
        let mut v = 0u128;
        for (i, b) in s.iter().enumerate() {
            v |= (*b as u128) << (8 * i);
        }
        Ok(v)
    }
    /// A compact integer that must be canonical and fit `bits`.
    pub fn compact(&mut self, bits: u32) -> R<u128> {
        let first = self.take(1)?[0];
        let v = match first & 3 {
            0 => (first >> 2) as u128,
            1 => {
                let hi = self.take(1)?[0];
                let v = ((hi as u128) << 8 | first as u128) >> 2;
                if v < 64 {
                    return Err(RErr::BadCompact);
                }
                v
            }
            2 => {
                let rest = self.le(3)?;
                let v = (rest << 8 | first as u128) >> 2;
                if v < 1 << 14 {
                    return Err(RErr::BadCompact);
                }
                v
            }
            _ => {
                let n = (first >> 2) as usize + 4;
                if n > 16 {
                    return Err(RErr::BadCompact);
                }
                let v = self.le(n)?;
                if v < 1 << 30 || (v >> (8 * (n - 1))) == 0 {
                    return Err(RErr::BadCompact);
                }
                v
            }
        };
        if bits < 128 && v >> bits != 0 {
            return Err(RErr::BadCompact);
        }
        Ok(v)
    }
    pub fn value(&mut self, t: Tid) -> R<Node> {
        self.val(t, false)
    }
    /// A value inside something compact encoded, or not.
    pub fn value_in(&mut self, t: Tid, compact: bool) -> R<Node> {
        self.val(t, compact)
    }
    fn val(&mut self, t: Tid, compact: bool) -> R<Node> {
        self.depth += 1;
        if self.depth > 1100 {
            return Err(RErr::Depth);
        }
        let r = self.val_inner(t, compact);
        self.depth -= 1;
        r
    }
    fn fields(&mut self, f: &[(Option<String>, Tid)], compact: bool) -> R<Vec<(Option<String>, Node)>> {
        f.iter().map(|(n, t)| Ok((n.clone(), self.val(*t, compact)?))).collect()
    }
    fn val_inner(&mut self, t: Tid, compact: bool) -> R<Node> {
        let start = self.pos;
        let types: &'a Types = self.types;
        let k = match types.get(t) {
            Def::NotFound => return Err(RErr::NotFound(t)),
            Def::Fail(m) => return Err(RErr::Resolver(m.clone())),
            Def::Compact(i) => {
                let mut n = self.val(*i, true)?;
                n.croot = true;
                return Ok(n);
            }
            Def::Prim(p) => self.prim(*p, compact)?,
            Def::Comp { path, fields } => {
                if compact && fields.len() != 1 {
                    return Err(RErr::CannotCompact);
                }
                K::Comp { path: path.clone(), fields: self.fields(fields, compact)? }
            }
            Def::Tup(ts) => {
                if compact && ts.len() != 1 {
                    return Err(RErr::CannotCompact);
                }
                let mut v = vec![];
                for t in ts {
                    v.push(self.val(*t, compact)?);
                }
                K::Tup(v)
            }
            _ if compact => return Err(RErr::CannotCompact),
            Def::Var { vars, .. } => {
                let i = self.take(1)?[0];
                let v = vars.iter().find(|v| v.index == i).ok_or(RErr::BadVariant(i))?;
                K::Var { name: v.name.clone(), index: i, fields: self.fields(&v.fields, false)? }
            }
            Def::Seq(e) => {
                let n = self.compact(64)?;
                K::Seq(self.items(*e, n)?)
            }
            Def::Arr(e, n) => K::Arr(self.items(*e, *n as u128)?),
            Def::Bits(s, o) => {
                let n = self.compact(32)? as usize;
                K::Bits(self.bits(n, *s, *o)?)
            }
        };
        Ok(Node { tid: t, start, end: self.pos, compact, croot: false, k })
    }
    fn items(&mut self, e: Tid, n: u128) -> R<Vec<Node>> {
        let mut v = vec![];
        let mut i = 0u128;
        while i < n {
            let p = self.pos;
            v.push(self.val(e, false)?);
            i += 1;
            if self.pos == p && n > self.max_empty {
                // elements without bytes and a claimed length beyond what we explore
                return Err(RErr::Depth);
            }
        }
        Ok(v)
    }
    fn bits(&mut self, n: usize, s: BitsStoreFormat, o: BitsOrderFormat) -> R<Vec<bool>> {
        let w = match s {
            BitsStoreFormat::U8 => 1,
            BitsStoreFormat::U16 => 2,
            BitsStoreFormat::U32 => 4,
            BitsStoreFormat::U64 => 8,
        };
        let stores = (n + w * 8 - 1) / (w * 8);
        let body = self.take(stores * w)?;
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let unit = &body[(i / (w * 8)) * w..(i / (w * 8)) * w + w];
            let mut v = 0u64;
            for (j, b) in unit.iter().enumerate() {
                v |= (*b as u64) << (8 * j);
            }
            let k = i % (w * 8);
            let bit = match o {
                BitsOrderFormat::Lsb0 => k,
                BitsOrderFormat::Msb0 => w * 8 - 1 - k,
            };
            out.push(v >> bit & 1 == 1);
        }
        Ok(out)
    }
    fn prim(&mut self, p: Primitive, compact: bool) -> R<K> {
        use Primitive::*;
        let ubits = match p {
            U8 => Some(8),
            U16 => Some(16),
            U32 => Some(32),
            U64 => Some(64),
            U128 => Some(128),
            _ => None,
        };
        if let Some(bits) = ubits {
            let v = if compact { self.compact(bits)? } else { self.le(bits as usize / 8)? };
            return Ok(K::U(bits as u16, v));
        }
        if compact {
            return Err(RErr::CannotCompact);
        }
        let ibits = match p {
            I8 => Some(8),
            I16 => Some(16),
            I32 => Some(32),
            I64 => Some(64),
            I128 => Some(128),
            _ => None,
        };
        if let Some(bits) = ibits {
            let v = self.le(bits / 8)?;
            // sign extend
            let sh = 128 - bits;
            return Ok(K::I(bits as u16, ((v << sh) as i128) >> sh));
        }
        Ok(match p {
            Bool => match self.take(1)?[0] {
                0 => K::Bool(false),
                1 => K::Bool(true),
                b => return Err(RErr::BadBool(b)),
            },
            Char => {
                let v = self.le(4)? as u32;
                K::Char(char::from_u32(v).ok_or(RErr::BadChar(v))?)
            }
            Str => {
                let n = self.compact(32)? as usize;
                let data = self.pos;
                let s = self.take(n)?;
                K::Str { text: std::str::from_utf8(s).ok().map(|s| s.to_string()), data }
            }
            U256 => K::U256(self.take(32)?.try_into().unwrap()),
            I256 => K::I256(self.take(32)?.try_into().unwrap()),
            _ => unreachable!(),
        })
    }
}

/// Decode one value from the front of `b`.
pub fn refdec(types: &Types, t: Tid, b: &[u8]) -> R<Node> {
    Dec::new(types, b).value(t)
}

impl Node {
    pub fn kind(&self) -> &'static str {
        match &self.k {
            K::Bool(_) => "bool",
            K::Char(_) => "char",
            K::Str { .. } => "str",
            K::U(8, _) => "u8",
            K::U(16, _) => "u16",
            K::U(32, _) => "u32",
            K::U(64, _) => "u64",
            K::U(_, _) => "u128",
            K::I(8, _) => "i8",
            K::I(16, _) => "i16",
            K::I(32, _) => "i32",
            K::I(64, _) => "i64",
            K::I(_, _) => "i128",
            K::U256(_) => "u256",
            K::I256(_) => "i256",
            K::Seq(_) => "sequence",
            K::Arr(_) => "array",
            K::Tup(_) => "tuple",
            K::Comp { .. } => "composite",
            K::Var { .. } => "variant",
            K::Bits(_) => "bitsequence",
            K::Skipped => "skipped",
        }
    }
    pub fn children(&self) -> Vec<&Node> {
        match &self.k {
            K::Seq(v) | K::Arr(v) | K::Tup(v) => v.iter().collect(),
            K::Comp { fields, .. } | K::Var { fields, .. } => fields.iter().map(|f| &f.1).collect(),
            _ => vec![],
        }
    }
    pub fn count(&self) -> usize {
        1 + self.children().iter().map(|c| c.count()).sum::<usize>()
    }
    /// Is every string in it valid UTF-8?
    pub fn utf8_ok(&self) -> bool {
        match &self.k {
            K::Str { text, .. } => text.is_some(),
            _ => self.children().iter().all(|c| c.utf8_ok()),
        }
    }
    /// Does `obs` (as recorded by a visitor) say the same as this reference value? `Skipped` nodes in
    /// the observation match anything. Returns a description of the first difference.
    pub fn diff(&self, obs: &Node) -> Option<String> {
        self.diff_at(obs, String::from("value"))
    }
    fn diff_at(&self, obs: &Node, at: String) -> Option<String> {
        if let K::Skipped = obs.k {
            return None;
        }
        if obs.tid != self.tid {
            return Some(format!("{at}: type id {} reported, expected {}", obs.tid, self.tid));
        }
        if obs.start != usize::MAX && obs.start != self.start {
            return Some(format!("{at}: starts at byte {}, expected {}", obs.start, self.start));
        }
        if obs.end != usize::MAX && obs.end != self.end {
            return Some(format!("{at}: ends at byte {}, expected {}", obs.end, self.end));
        }
        let items = |a: &Vec<Node>, b: &Vec<Node>| -> Option<String> {
            if a.len() != b.len() {
                return Some(format!("{at}: {} items, expected {}", b.len(), a.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (a, b))| a.diff_at(b, format!("{at}[{i}]")))
        };
        let fields = |a: &Vec<(Option<String>, Node)>, b: &Vec<(Option<String>, Node)>| -> Option<String> {
            if a.len() != b.len() {
                return Some(format!("{at}: {} fields, expected {}", b.len(), a.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (a, b))| {
                if a.0 != b.0 {
                    return Some(format!("{at}: field {i} named {:?}, expected {:?}", b.0, a.0));
                }
                a.1.diff_at(&b.1, format!("{at}.{i}"))
            })
        };
        match (&self.k, &obs.k) {
            (K::Seq(a), K::Seq(b)) | (K::Arr(a), K::Arr(b)) | (K::Tup(a), K::Tup(b)) => items(a, b),
            (K::Comp { path: p, fields: a }, K::Comp { path: q, fields: b }) => {
                if p != q {
                    return Some(format!("{at}: path {q:?}, expected {p:?}"));
                }
                fields(a, b)
            }
            (K::Var { name: n, index: i, fields: a }, K::Var { name: m, index: j, fields: b }) => {
                if n != m || i != j {
                    return Some(format!("{at}: variant {m}#{j}, expected {n}#{i}"));
                }
                fields(a, b)
            }
            (K::Str { text: a, data: d }, K::Str { text: b, data: e }) => {
                if a != b || (*e != usize::MAX && d != e) {
                    return Some(format!("{at}: string {b:?}@{e}, expected {a:?}@{d}"));
                }
                None
            }
            (a, b) if a == b => None,
            (_, b) => Some(format!("{at}: got {} {:?}, expected {} {:?}", obs.kind(), b, self.kind(), self.k)),
        }
    }
}
