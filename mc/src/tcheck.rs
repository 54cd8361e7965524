//! Checks of decodes into target types shared by several properties.
use crate::plan::*;
use crate::refdec::*;
use crate::run::*;
use crate::targets::*;
use crate::ty::*;

/// Value, or kind of error, as the model says.
pub fn judge(ctx: &mut Ctx, e: &Entry, tgt: &Tgt, types: &Types, t: Tid, b: &[u8], r: &Result<Node, RErr>) {
    let Some(c) = try_target(ctx, e, tgt, types, t, b, r) else { return };
    match c.judge() {
        Ok(k) => ctx.outcome(k),
        Err(m) => ctx.violation(&c.key("judge"), || format!("{m}: {}", c.show())),
    }
}

pub fn judge_all(ctx: &mut Ctx, es: &[Entry], p: Plan) {
    target_cases(ctx, es, p, &|ctx, e, tgt, types, t, b, r| judge(ctx, e, tgt, types, t, b, r));
}

/// Decode into one target; `None` after a panic, which is reported.
pub fn plain_run(ctx: &mut Ctx, e: &Entry, types: &Types, t: Tid, b: &[u8]) -> Option<(Result<O, GotErr>, Option<usize>)> {
    ctx.state(&(e.name, t, b));
    let mut input = b;
    let run = e.run;
    let r = ctx.lib(|| run(&mut input, t, types));
    ctx.trace();
    match r {
        Ok(r) => Some((r.map_err(GotErr::from), crate::core_checks::suffix(b, input))),
        Err(Panicked(p)) => {
            ctx.violation(&format!("panic:{}:{}:{}", e.name, types.show(t), hex(b)), || {
                format!("decoding {} bytes {} into {} panicked: {p}", types.show(t), hex(b), e.name)
            });
            None
        }
    }
}

pub fn show_run(r: &(Result<O, GotErr>, Option<usize>)) -> String {
    match &r.0 {
        Ok(o) => format!("{o:?} up to byte {:?}", r.1),
        Err(e) => format!("error [{}]", e.shown),
    }
}
