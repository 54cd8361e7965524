//! C01: decoding reports exactly the SCALE value the bytes encode.
use mc::big::*;
use mc::choose::*;
use mc::core_checks::*;
use mc::gen::*;
use mc::rec::*;
use mc::refdec::*;
use mc::run::*;
use mc::ty::*;
use mc::universe::*;
use scale_type_resolver::Primitive;
use std::collections::HashSet;

fn check(ctx: &mut Ctx, types: &Types, t: Tid, b: &[u8], modes: &[Mode]) {
    let want = refdec(types, t, b);
    if want == Err(RErr::Depth) {
        ctx.outcome("outside-bounds");
        return;
    }
    ctx.state(&(t, b));
    for &m in modes {
        let got = match record(ctx, types, t, b, m) {
            Ok(o) => o,
            Err(Panicked(p)) => {
                ctx.violation(&format!("panic:{}:{}", types.show(t), hex(b)), || {
                    format!("panicked ({p}) in mode {m:?}: {}", show_case(types, t, b))
                });
                continue;
            }
        };
        ctx.trace();
        match (&want, &got.res) {
            (Ok(n), Ok(o)) => {
                if let Some(d) = n.diff(o) {
                    ctx.violation(&format!("value:{}:{}", types.show(t), hex(b)), || {
                        format!("mode {m:?}: {d}: {}", show_case(types, t, b))
                    });
                } else if !n.utf8_ok() {
                    ctx.violation(&format!("utf8:{}:{}", types.show(t), hex(b)), || {
                        format!("mode {m:?}: invalid UTF-8 accepted: {}", show_case(types, t, b))
                    });
                } else {
                    ctx.outcome("value");
                }
            }
            (Ok(n), Err(e)) => {
                if n.utf8_ok() {
                    ctx.violation(&format!("reject:{}:{}", types.show(t), hex(b)), || {
                        format!("mode {m:?}: valid encoding rejected with {e:?}: {}", show_case(types, t, b))
                    });
                } else {
                    ctx.outcome("invalid-utf8");
                }
            }
            (Err(e), Ok(o)) => {
                ctx.violation(&format!("accept:{}:{}", types.show(t), hex(b)), || {
                    format!("mode {m:?}: invalid encoding ({e:?}) gave a value {:?}: {}", o.k, show_case(types, t, b))
                });
            }
            (Err(e), Err(_)) => {
                let k = match e {
                    RErr::NotEnough(_) => "err-short",
                    RErr::BadBool(_) => "err-bool",
                    RErr::BadChar(_) => "err-char",
                    RErr::BadCompact => "err-compact",
                    RErr::BadVariant(_) => "err-variant",
                    RErr::CannotCompact => "err-cannot-compact",
                    RErr::NotFound(_) => "err-unknown-type",
                    _ => "err-other",
                };
                ctx.outcome(k);
            }
        }
    }
}

fn body(ctx: &mut Ctx) {
    let depth = ctx.by_tier(2, 3);
    let uni = universe(depth);
    let types = &uni.types;
    for &t in &uni.roots {
        // 1. structured traces: boundary and invalid encodings at up to `dev` places at once
        ctx.case(
            || format!("traces of {}", types.show(t)),
            |ctx| {
                let dev = ctx.by_tier(1, 2);
                let mut seen: HashSet<Vec<u8>> = HashSet::new();
                let st = explore(dev, 400_000, |ch| {
                    let b = gen(types, t, ch, GenOpts::ALL);
                    if !seen.insert(b.clone()) {
                        return;
                    }
                    check(ctx, types, t, &b, &MODES);
                    // cut short everywhere (long data: at the ends)
                    for cut in 0..b.len() {
                        if b.len() > 48 && cut > 24 && cut < b.len() - 8 {
                            continue;
                        }
                        if seen.insert(b[..cut].to_vec()) {
                            check(ctx, types, t, &b[..cut], &[Mode::Items, Mode::Iter]);
                        }
                    }
                });
                ctx.nodes(st);
                ctx.sample(|| format!("{}: {} byte traces", types.show(t), seen.len()));
            },
        );
    }
    // 2. every byte string up to a length, and every string over a small alphabet up to a larger one
    let raw = universe(1);
    let types = &raw.types;
    let alpha: Vec<u8> = vec![0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x08, 0x0c, 0x80, 0xc8, 0xff];
    let alen = ctx.by_tier(3, 4);
    for &t in &raw.roots {
        ctx.case(
            || format!("raw bytes of {}", types.show(t)),
            |ctx| {
                check(ctx, types, t, &[], &[Mode::Items]);
                for a in 0..=255u8 {
                    check(ctx, types, t, &[a], &[Mode::Items]);
                }
                let mut st = ExploreStats::default();
                for len in 2..=alen {
                    let s = explore(0, 0, |ch| {
                        let b: Vec<u8> = (0..len).map(|_| alpha[ch.free(alpha.len())]).collect();
                        check(ctx, types, t, &b, &[Mode::Items]);
                    });
                    st.runs += s.runs;
                    st.nodes += s.nodes;
                }
                ctx.nodes(st);
            },
        );
    }
    // 3. long values
    let modes: &[Mode] = ctx.by_tier(&[Mode::Items, Mode::Iter], &MODES);
    big_values(ctx, "decode", &ctx.by_tier(few(), LENS.to_vec()), &[70, 130, 201, 257, 513, 1025], true, ctx.by_tier(4, 8), &|ctx, types, t, b, _| {
        check(ctx, types, t, b, modes);
    });
    text(ctx);
    // 4. every two-byte string for leaf types
    let l = universe(0);
    let types = &l.types;
    for &t in &l.roots {
        ctx.case(
            || format!("all byte pairs of {}", types.show(t)),
            |ctx| {
                for x in 0..=65535u16 {
                    check(ctx, types, t, &x.to_be_bytes(), &[Mode::Items]);
                }
            },
        );
    }
}

fn text(ctx: &mut Ctx) {
    let mut types = Types::new();
    let (s, c) = (types.str(), types.prim(Primitive::Char));
    let (seq, named) = (types.seq(s), types.named(&[("a", s), ("b", c)]));
    ctx.case(
        || "strings of special characters".into(),
        |ctx| {
            texts(ctx.by_tier(3, 4), true, &mut |b| check(ctx, &types, s, b, &[Mode::Items]));
            texts(2, false, &mut |b| {
                for t in [seq, named] {
                    let mut v = if t == seq { vec![8] } else { vec![] };
                    v.extend_from_slice(b);
                    v.extend_from_slice(if t == seq { b } else { &[0xff, 0xfe, 0, 0] });
                    check(ctx, &types, t, &v, &MODES);
                }
            });
        },
    );
    ctx.case(
        || "every character, and as many values that are none".into(),
        |ctx| {
            for v in 0..=0x220000u32 {
                check(ctx, &types, c, &v.to_le_bytes(), &[Mode::Items]);
            }
        },
    );
}

fn main() {
    run_main()
}
fn run_main() {
    mc::run::main(Spec {
        id: "C01",
        states_are: "states: distinct (type, byte string) pairs; transitions: visitor callbacks and library calls compared; traces: complete decodes compared with the reference decoder",
        bounds: |t| match t {
            Tier::Quick => "types: all primitives, 8 bit sequences, compact wrappers to depth 3, 12 constructors over each, twice over 9 representatives, corner shapes (0..33 fields, 0/256 variants, recursive); bytes: all boundary/invalid leaf encodings with <=1 deviation, all truncations, all strings <=1 byte, alphabet-11 strings <=3 bytes, all byte pairs for leaves; every u32 up to 0x220000 as a character, every character as a string, strings of <=3 of 32 special characters; 5 ways of reading containers; long values: 5 lengths of 17..257 items or fields (strings, bytes, bits up to 65537) with one item unlike the others; 3 kinds of items up to 65537, 1025 fields; nested 70..1025 deep in 8 ways".into(),
            Tier::Thorough => "as quick with types nested three deep, <=2 deviations, alphabet-11 strings <=4 bytes, strings of <=4 special characters; long values at 17 lengths of 5..300".into(),
        },
        assumptions: &["the reference decoder mc/src/refdec.rs states SCALE correctly (canonical compact integers only)", "values outside the alphabets behave like those in them"],
        require: &["value", "invalid-utf8", "err-short", "err-bool", "err-char", "err-compact", "err-variant"],
        body,
    })
}
