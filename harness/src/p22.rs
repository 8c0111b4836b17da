//! P22 position guards
use crate::abs::*;
use crate::nd;
use neure::ctx::*;
use neure::err::Error;

#[cfg(not(feature = "thorough"))]
const STEPS: usize = 3;
#[cfg(feature = "thorough")]
const STEPS: usize = 5;

/// Any history of uses of a guard, then its end.
fn history<'a, C: Match<'a> + Fuel>(c: &mut C, base: usize, t: &Tab) -> (bool, usize) {
    let s = c.offset();
    let total = c.len();
    let mut pos = s;
    let mut failed = false;
    {
        let mut g = CtxGuard::new(c);
        chk!(g.beg() == s && g.end() == s, "the guard starts elsewhere");
        let mut i = 0;
        while i < STEPS {
            chk!(g.len() == total && g.is_empty() == (total == 0), "the guard reports another length of the input");
            match nd::below(6) {
                0 => {
                    let n = nd::below(N + 1);
                    let sp = g.inc(n);
                    chk!(sp.beg == s && sp.len == n, "inc reports a wrong span");
                    pos += n;
                }
                1 => {
                    let p = base + nd::below(N + 1);
                    g.ctx().set_offset(p);
                    pos = p;
                }
                2 => {
                    let r = g.process_ret(Ok(7u8));
                    chk!(matches!(r, Ok(7)), "process_ret changes a success");
                }
                3 => {
                    let r = g.process_ret::<u8>(Err(Error::Uid(3)));
                    chk!(matches!(r, Err(Error::Uid(3))), "process_ret changes an error");
                    failed = true;
                }
                4 => {
                    g.reset();
                    chk!(g.end() == s, "reset does not restore the position");
                    pos = s;
                }
                _ => {
                    nd::assume(pos - base <= N);
                    let want = t.rec(pos - base);
                    let r = g.try_mat(&t.orc(1, base));
                    chk!(r.is_ok() == want.is_some(), "matching through the guard decides differently");
                    match want {
                        Some(e) => pos = base + e,
                        None => failed = true,
                    }
                }
            }
            chk!(g.beg() == s, "the guard forgets where it started");
            if !failed {
                chk!(g.end() == pos, "the guard is at another position");
            }
            i += 1;
        }
    }
    if failed {
        chk!(c.offset() == s, "a guard that saw a failure did not restore the position");
    } else {
        chk!(c.offset() == pos, "a guard that saw no failure moved the position");
    }
    (failed, s)
}
/// the shape every combinator uses: work, then process the result
fn shape<'a, C: Context<'a>>(c: &mut C, base: usize) -> bool {
    let s = c.offset();
    let p = base + nd::below(N + 1);
    let bad = nd::bool();
    let r = {
        let mut g = CtxGuard::new(c);
        g.ctx().set_offset(p);
        g.process_ret(if bad { Err(Error::Uid(1)) } else { Ok(5u8) })
    };
    chk!(r.is_err() == bad, "process_ret changes the result");
    chk!(c.offset() == if bad { s } else { p }, "the guard restored or kept wrongly");
    bad
}
hs! {
    history_model [7, 9] { let w = W::plain(); let t = Tab::any(); let mut c = M::new(&w); history(&mut c, w.base, &t).0 };
    history_bytes [7, 9] { let buf = [0u8; N]; let t = Tab::any(); let mut c = BytesCtx::new(&buf); c.set_offset(nd::below(N + 1)); history(&mut c, 0, &t).0 };
    shape_model [7, 9] { let w = W::plain(); let mut c = M::new(&w); shape(&mut c, w.base) };
    shape_bytes [7, 9] { let buf = [0u8; N]; let mut c = BytesCtx::new(&buf); c.set_offset(nd::usize()); shape(&mut c, 0) };
    shape_chars [7, 9] { let buf = "abc"; let mut c = CharsCtx::new(buf); c.set_offset(nd::usize()); shape(&mut c, 0) };
    shape_policy [7, 9] { let w = W::plain(); let mut c = PolicyCtx::new(M::new(&w), ()); shape(&mut c, w.base) };
}
