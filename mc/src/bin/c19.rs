//! C19: bit sequences give back exactly their bits in every storage format.
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::rec::*;
use mc::refdec::*;
use mc::run::*;
use mc::ty::*;
use scale_decode::ext::scale_type_resolver::{BitsOrderFormat as Ord_, BitsStoreFormat as Store};
use scale_decode::visitor::types::*;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor, TypeIdFor, Visitor};
use scale_decode::DecodeAsType;
use std::collections::HashSet;

const FORMATS: [(Store, Ord_, usize); 8] = [
    (Store::U8, Ord_::Lsb0, 1),
    (Store::U8, Ord_::Msb0, 1),
    (Store::U16, Ord_::Lsb0, 2),
    (Store::U16, Ord_::Msb0, 2),
    (Store::U32, Ord_::Lsb0, 4),
    (Store::U32, Ord_::Msb0, 4),
    (Store::U64, Ord_::Lsb0, 8),
    (Store::U64, Ord_::Msb0, 8),
];

/// What a visitor may do with the handle.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Start,
    After,
    Decode,
    /// Decode, but look only at so many bits.
    Part(usize),
}
const OPS: [Op; 5] = [Op::After, Op::Decode, Op::Start, Op::Part(0), Op::Part(3)];

#[derive(Debug, Default)]
struct Log {
    bad: Option<String>,
    steps: u64,
}

/// Runs a program of operations and compares each result with what the bytes say.
struct ProgV<'p> {
    prog: &'p [Op],
    /// The whole input, and where the bit sequence starts and (if it is complete) ends in it.
    input: &'p [u8],
    start: usize,
    /// `None` if malformed.
    want: Option<(&'p [bool], usize)>,
    log: &'p mut Log,
}
impl<'p> Visitor for ProgV<'p> {
    type Value<'scale, 'resolver> = ();
    type Error = VErr;
    type TypeResolver = Types;
    fn visit_bitsequence<'scale, 'resolver>(self, b: &mut BitSequence<'scale>, _: TypeIdFor<Self>) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        let mut bad = None;
        for (i, op) in self.prog.iter().enumerate() {
            self.log.steps += 1;
            let r = match op {
                Op::Start => {
                    (suffix(self.input, b.bytes_from_start()) != Some(self.start)).then(|| "bytes_from_start is elsewhere".to_string())
                }
                Op::After => match (b.bytes_after(), self.want) {
                    (Ok(a), Some((_, end))) => {
                        let got = suffix(self.input, a);
                        (got != Some(end)).then(|| format!("bytes_after says it ends at {got:?}, expected {end}"))
                    }
                    (Ok(a), None) => Some(format!("bytes_after of a malformed bit sequence: {:?}", suffix(self.input, a))),
                    (Err(e), Some(_)) => Some(format!("bytes_after failed: {e}")),
                    (Err(_), None) => None,
                },
                Op::Decode | Op::Part(_) => {
                    let n = match op {
                        Op::Part(n) => *n,
                        _ => usize::MAX,
                    };
                    let cap = self.input.len() * 8 + 1;
                    let got = b.decode().map_err(|e| e.to_string()).and_then(|d| {
                        d.take(n.min(cap)).collect::<Result<Vec<bool>, _>>().map_err(|e| e.to_string())
                    });
                    match (got, self.want) {
                        (Ok(bits), Some((want, _))) => {
                            let want = &want[..want.len().min(n)];
                            (bits != want).then(|| format!("{op:?} gave {}, expected {}", show(&bits), show(want)))
                        }
                        // decoding part of a broken bit sequence may get away with it
                        (Ok(bits), None) => (n > cap).then(|| format!("{op:?} of a malformed bit sequence gave {}", show(&bits))),
                        (Err(e), Some(_)) => Some(format!("{op:?} failed: {e}")),
                        (Err(_), None) => None,
                    }
                }
            };
            if let Some(r) = r {
                bad = Some(format!("step {i} of {:?}: {r}", self.prog));
                break;
            }
        }
        self.log.bad = bad;
        Ok(())
    }
    fn visit_unexpected<'scale, 'resolver>(self, u: scale_decode::visitor::Unexpected) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
        Err(VErr::Bad(format!("unexpected {u}")))
    }
}

fn show(b: &[bool]) -> String {
    let mut s: String = b.iter().take(80).map(|b| if *b { '1' } else { '0' }).collect();
    s.push_str(&format!("({})", b.len()));
    s
}

fn fail(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8], what: &str, d: String) {
    let shown = if b.len() > 200 { &b[..200] } else { b };
    ctx.violation(&format!("{what}:{}:{}", types.show(t), hex(shown)), || format!("{what}: {d}: {}", show_case(types, t, shown)));
}

/// A bit sequence of type `t` somewhere in an input, with whatever comes after it.
fn handle(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8], prog: &[Op]) {
    let r = refdec(types, t, b);
    let want = r.as_ref().ok().map(|n| match &n.k {
        K::Bits(v) => (&v[..], n.end),
        _ => unreachable!(),
    });
    ctx.state(&(t, b, prog.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>()));
    let mut log = Log::default();
    let mut input = b;
    let got = ctx.lib(|| decode_with_visitor(&mut input, t, types, ProgV { prog, input: b, start: 0, want, log: &mut log }));
    ctx.transitions(log.steps + 1);
    ctx.trace();
    ctx.outcome(if want.is_some() { "bits" } else { "malformed" });
    let at = suffix(b, input);
    let bad = match (got, want) {
        (Err(Panicked(p)), _) => Some(format!("panicked: {p}")),
        _ if log.bad.is_some() => log.bad,
        (Ok(Err(e)), Some(_)) => Some(format!("{prog:?} then failed: {e:?}")),
        (Ok(Ok(())), None) => Some(format!("malformed bit sequence accepted after {prog:?}")),
        (Ok(Ok(())), Some((_, end))) => (at != Some(end)).then(|| format!("{prog:?} left the input at {at:?}, expected {end}")),
        (Ok(Err(_)), None) => None,
    };
    if let Some(d) = bad {
        fail(ctx, types, t, b, "handle", d);
    }
}

/// Reads the items of a sequence or tuple one way or another; the value is a list of bits and numbers.
fn whole(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8]) {
    let want = refdec(types, t, b);
    if want == Err(RErr::Depth) {
        return;
    }
    ctx.state(&(t, b));
    for mode in MODES {
        match record(ctx, types, t, b, mode) {
            Err(Panicked(p)) => fail(ctx, types, t, b, "visit", format!("panicked: {p}")),
            Ok(out) => match (&want, out.res) {
                (Ok(n), Ok(obs)) => {
                    if let Some(d) = n.diff(&obs) {
                        fail(ctx, types, t, b, "visit", format!("{mode:?} {d}"));
                    } else if out.pos != Some(n.end) {
                        fail(ctx, types, t, b, "visit", format!("{mode:?} left the input at {:?}, expected {}", out.pos, n.end));
                    }
                }
                (Ok(_), Err(e)) => fail(ctx, types, t, b, "visit", format!("{mode:?} failed: {e:?}")),
                (Err(e), Ok(_)) => fail(ctx, types, t, b, "visit", format!("{mode:?} accepted what is malformed ({e:?})")),
                (Err(_), Err(_)) => {}
            },
        }
        ctx.trace();
    }
    let mut input = b;
    let r = ctx.lib(|| decode_with_visitor(&mut input, t, types, IgnoreVisitor::<Types>::new()).is_ok());
    ctx.transitions(1);
    ctx.trace();
    match (r, &want) {
        (Err(Panicked(p)), _) => fail(ctx, types, t, b, "skip", format!("panicked: {p}")),
        (Ok(true), Ok(n)) if suffix(b, input) != Some(n.end) => {
            fail(ctx, types, t, b, "skip", format!("left the input at {:?}, expected {}", suffix(b, input), n.end))
        }
        (Ok(ok), w) if ok != w.is_ok() => fail(ctx, types, t, b, "skip", format!("ok={ok}, reference {w:?}")),
        _ => {}
    }
}

/// Into a `Bits`.
fn target(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8]) {
    let want = refdec(types, t, b);
    let mut input = b;
    let r = ctx.lib(|| scale_bits::Bits::decode_as_type(&mut input, t, types).map(|v| v.iter().collect::<Vec<bool>>()));
    ctx.transitions(1);
    ctx.trace();
    let bad = match (r, &want) {
        (Err(Panicked(p)), _) => Some(format!("panicked: {p}")),
        (Ok(Ok(v)), Ok(n)) => match &n.k {
            K::Bits(w) if *w != v => Some(format!("gave {}, expected {}", show(&v), show(w))),
            _ => (suffix(b, input) != Some(n.end)).then(|| format!("left the input at {:?}, expected {}", suffix(b, input), n.end)),
        },
        (Ok(Ok(v)), Err(e)) => Some(format!("gave {} for what is malformed ({e:?})", show(&v))),
        (Ok(Err(e)), Ok(_)) => Some(format!("failed: {e}")),
        (Ok(Err(_)), Err(_)) => None,
    };
    if let Some(d) = bad {
        fail(ctx, types, t, b, "into Bits", d);
    }
}

fn encode(bits: &[bool], msb: bool, w: usize, garbage: bool) -> Vec<u8> {
    let mut b = vec![];
    compact(bits.len() as u128, &mut b);
    let units = bits.len().div_ceil(w * 8);
    for u in 0..units {
        let mut v = 0u64;
        for k in 0..w * 8 {
            let bit = bits.get(u * w * 8 + k).copied().unwrap_or(garbage && k % 3 != 1);
            if bit {
                v |= 1 << if msb { w * 8 - 1 - k } else { k };
            }
        }
        b.extend_from_slice(&v.to_le_bytes()[..w]);
    }
    b
}

/// Bit patterns of a length: all of them if there are few, else telling ones.
fn patterns(n: usize, all: usize, singles: usize) -> Vec<Vec<bool>> {
    if n <= all {
        return (0..1u64 << n).map(|v| (0..n).map(|i| v >> i & 1 == 1).collect()).collect();
    }
    let mut x = 0x9e3779b97f4a7c15u64;
    let mut mixed = vec![];
    for _ in 0..n {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        mixed.push(x >> 40 & 1 == 1);
    }
    let mut v = vec![vec![false; n], vec![true; n], (0..n).map(|i| i % 2 == 0).collect(), mixed.clone(), mixed.iter().map(|b| !b).collect()];
    if n <= singles {
        for i in 0..n {
            v.push((0..n).map(|k| k == i).collect());
            v.push((0..n).map(|k| k != i).collect());
        }
    }
    v
}

fn progs(max: usize) -> Vec<Vec<Op>> {
    let mut v: Vec<Vec<Op>> = vec![vec![]];
    let mut last = v.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|p| OPS.iter().map(move |o| p.iter().copied().chain([*o]).collect::<Vec<_>>())).collect();
        v.extend(last.clone());
    }
    v
}

fn body(ctx: &mut Ctx) {
    let mut types = Types::new();
    let bits: Vec<(Tid, bool, usize)> =
        FORMATS.iter().map(|(s, o, w)| (types.bits(*s, *o), *o == Ord_::Msb0, *w)).collect();
    let u8_ = types.u8();
    let u16_ = types.u16();
    let mut around: Vec<Vec<Tid>> = vec![];
    for (t, ..) in &bits {
        let mut v = vec![
            types.tup(&[*t, u16_]),
            types.seq(*t),
            types.arr(*t, 2),
            types.named(&[("a", u8_), ("b", *t), ("c", *t)]),
            types.option(*t),
        ];
        for (t2, ..) in &bits {
            v.push(types.tup(&[*t, *t2]));
        }
        around.push(v);
    }
    let types = &types;
    let progs3 = progs(ctx.by_tier(3, 4));
    let progs2 = progs(2);
    let progs1 = progs(1);
    let max_len = ctx.by_tier(140, 530);
    let big: Vec<usize> = vec![16383, 16384, 16385, 65535, 65536, 70001];
    // 1. every length, telling patterns, followed by nothing and something, cut short everywhere
    for (f, &(t, msb, w)) in bits.iter().enumerate() {
        for n in (0..=max_len).chain(big.iter().copied()) {
            ctx.case(
                || format!("{} of {n} bits", types.show(t)),
                |ctx| {
                    let pats = patterns(n, ctx.by_tier(8, 16), ctx.by_tier(40, 260));
                    let few = n > max_len;
                    for (pi, p) in pats.iter().enumerate() {
                        for garbage in [false, true] {
                            let b = encode(p, msb, w, garbage);
                            let rich = !few && (pi < 5 || n <= 4);
                            for tail in [&[][..], &[0xff], &[0x0c, 0xa5, 0, 1, 2, 3, 4, 5, 6, 7]] {
                                let mut b = b.clone();
                                b.extend_from_slice(tail);
                                for prog in if rich && pi == 3.min(pats.len() - 1) { &progs3 } else { &progs1 } {
                                    handle(ctx, types, t, &b, prog);
                                }
                                target(ctx, types, t, &b);
                                whole(ctx, types, t, &b);
                            }
                            if garbage || pi > 4 {
                                continue;
                            }
                            for c in cuts(b.len()) {
                                for prog in if rich && b.len() < 24 && pi == 3.min(pats.len() - 1) { &progs2 } else { &progs1 } {
                                    handle(ctx, types, t, &b[..c], prog);
                                }
                                target(ctx, types, t, &b[..c]);
                                whole(ctx, types, t, &b[..c]);
                            }
                        }
                    }
                    ctx.sample(|| format!("{} of {n} bits: {} patterns", types.show(t), pats.len()));
                },
            );
        }
        // 2. next to other things
        ctx.case(
            || format!("{} inside others", types.show(t)),
            |ctx| {
                let lens: Vec<usize> = ctx.by_tier(vec![0, 1, 7, 8, 9, 16, 33, 63, 64, 65], (0..=130).collect());
                let bit_t: HashSet<Tid> = bits.iter().map(|b| b.0).collect();
                for &outer in &around[f] {
                    for &n in &lens {
                        for &m in &[0usize, 1, 8, 17, 64, 100] {
                            let enc = |t: Tid, n: usize| {
                                let (_, msb, w) = bits.iter().find(|b| b.0 == t).unwrap();
                                let p = patterns(n, 0, 0);
                                encode(p.get(3).unwrap_or(&p[0]), *msb, *w, n % 2 == 1)
                            };
                            let mut b: Vec<u8> = vec![];
                            let parts: Vec<Tid> = match types.get(outer) {
                                Def::Tup(v) => v.clone(),
                                Def::Seq(e) => {
                                    b.push(8);
                                    vec![*e, *e]
                                }
                                Def::Arr(e, _) => vec![*e, *e],
                                Def::Comp { fields, .. } => fields.iter().map(|f| f.1).collect(),
                                Def::Var { .. } => {
                                    b.push(1);
                                    vec![t]
                                }
                                _ => unreachable!(),
                            };
                            let mut k = 0;
                            for p in parts {
                                if bit_t.contains(&p) {
                                    b.extend(enc(p, [n, m][k % 2]));
                                    k += 1;
                                } else {
                                    b.extend([7u8, 9].iter().take(if p == u8_ { 1 } else { 2 }));
                                }
                            }
                            b.extend([0xaa, 0x04, 0xff]);
                            whole(ctx, types, outer, &b);
                            for c in cuts(b.len()) {
                                whole(ctx, types, outer, &b[..c]);
                            }
                        }
                    }
                }
            },
        );
        // 3. arbitrary bytes: length prefixes of every form, right or wrong
        ctx.case(
            || format!("{} of arbitrary bytes", types.show(t)),
            |ctx| {
                for a in 0..=255u8 {
                    for prog in &progs2 {
                        handle(ctx, types, t, &[a], prog);
                    }
                    for c in 0..=255u8 {
                        for prog in &progs1 {
                            handle(ctx, types, t, &[a, c], prog);
                        }
                        target(ctx, types, t, &[a, c]);
                    }
                }
                let alpha = [0u8, 1, 2, 3, 4, 0x1c, 0x20, 0x24, 0x80, 0xfc, 0xff];
                for len in 3..=ctx.by_tier(5, 6) {
                    let st = explore(0, 0, |ch| {
                        let b: Vec<u8> = (0..len).map(|_| alpha[ch.free(alpha.len())]).collect();
                        handle(ctx, types, t, &b, &[Op::After, Op::Decode]);
                        handle(ctx, types, t, &b, &[Op::Decode, Op::After]);
                        target(ctx, types, t, &b);
                    });
                    ctx.nodes(st);
                }
                // claims far beyond the input
                for n in [1u128 << 14, 1 << 20, (1 << 28) - 1, 1 << 28, 1 << 29, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 1 << 40, (1 << 61) - 1, 1 << 61, (1 << 64) - 1] {
                    let mut b = vec![];
                    compact(n, &mut b);
                    for more in 0..10 {
                        let mut b = b.clone();
                        b.extend(std::iter::repeat_n(0x5a, more));
                        for prog in &progs2 {
                            handle(ctx, types, t, &b, prog);
                        }
                        target(ctx, types, t, &b);
                    }
                }
            },
        );
    }
}

fn main() {
    mc::run::main(Spec {
        id: "C19",
        states_are: "states: distinct (format, bytes, program of operations on the handle); transitions: operations and decodes; traces: complete decodes compared with the reference decoder",
        bounds: |t| match t {
            Tier::Quick => "8 formats; every length 0..140 and around 2^14 and 2^16; all bit patterns up to 8 bits, 5 patterns plus every single set/clear bit up to 40, padding bits clear and set; followed by nothing, 1 and 10 bytes; every truncation; programs of <=3 operations out of 5; nested in 13 surroundings; every string of 2 bytes, alphabet-11 strings of <=5, claims up to 2^64-1".into(),
            Tier::Thorough => "as quick with lengths 0..530, all patterns up to 16 bits, programs of <=4 operations, alphabet-11 strings of <=6".into(),
        },
        assumptions: &["the reference decoder mc/src/refdec.rs states the bit sequence encodings correctly"],
        require: &["bits", "malformed"],
        body,
    })
}
