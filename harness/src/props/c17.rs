//! C17: the event loop under any executor.
use super::*;

type Part = (u32, Scenario);

macro_rules! part {
    ($w:literal, $f:path) => {{
        fn go<'a>(c: &'a mut Ctx) -> Fut<'a> {
            Box::pin($f(c))
        }
        ($w, go as Scenario)
    }};
}

/// Scenarios of other properties, with weights; not those that count polls or bytes of heap.
fn parts() -> Vec<Part> {
    vec![
        part!(12, c01::c01),
        part!(3, c01::c02),
        part!(12, c03::c03),
        part!(10, c03::c04),
        part!(12, c03::c09),
        part!(8, c05::c05),
        part!(6, c05::c06),
        part!(8, c07::c07),
        part!(6, c10::c10),
        part!(8, c10::c11),
        part!(10, c12::c12),
        part!(8, c12::c13),
        part!(12, c14::c14),
        part!(16, soup::soup),
    ]
}

pub async fn c17(ctx: &mut Ctx) -> R {
    ctx.fresh = true;
    ctx.spurious = ctx.idx % 2 == 1;
    // while connecting: a name that is looked up, a server that is slow to accept
    if ctx.idx % 40 == 7 {
        return c19::by_name(ctx).await;
    }
    if ctx.idx % 400 == 14 || ctx.idx % 400 == 35 {
        return c19::slow(ctx).await;
    }
    let parts = parts();
    let total: u32 = parts.iter().map(|p| p.0).sum();
    let mut k = ctx.rng.below(total as usize) as u32;
    let mut which = parts[0].1;
    for (w, f) in parts {
        if k < w {
            which = f;
            break;
        }
        k -= w;
    }
    // their first scenarios are long enumerations of inputs
    ctx.idx += 1000;
    which(ctx).await
}
