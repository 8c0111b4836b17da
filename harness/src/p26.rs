//! P26 thread-safe stateful classes under concurrent use
//!
//! Thread A is inside one step of the shared object; whenever that step runs the
//! user's class or pattern, thread B may get the processor and run complete steps
//! of its own on the same object.  Which of A's tests B interrupts, how many steps
//! it takes there, on which items, is symbolic.  The steps must look like some
//! sequential order of them, judged by every verdict and by what the object does
//! afterwards.
use crate::abs::{M, N};
use crate::nd;
use crate::p26::mdl::Mdl;
use neure::ctor::{Ctor, Handler};
use neure::ctx::Match;
use neure::err::Error;
use neure::neu::*;
use neure::regex::Regex;
use neure::span::Span;
use std::cell::Cell;
use std::sync::Mutex;

mod mdl {
    #[derive(Clone, Copy)]
    pub struct Mdl {
        pub n: usize,
        pub ok: bool,
    }
    impl Mdl {
        pub fn show(&mut self, x: u8) -> bool {
            if !self.ok {
                return false;
            }
            if self.n > 0 {
                self.n -= 1;
                self.ok = x & 1 == 1;
                self.ok
            } else {
                x >> 1 & 1 == 1
            }
        }
    }
}

/// steps of thread B
#[cfg(not(feature = "thorough"))]
const B: usize = 2;
#[cfg(feature = "thorough")]
const B: usize = 3;

/// What the threads share besides the class itself.
struct Sh {
    me: Cell<*const ()>,
    /// thread B may run
    on: Cell<bool>,
    done: Cell<usize>,
    /// B's steps: item, through a copy taken right then?, verdict
    item: [u8; B],
    copy: [bool; B],
    got: [Cell<bool>; B],
}
#[derive(Clone, Copy)]
struct Cls<'s> {
    bit: u32,
    sh: &'s Sh,
}
type P<'s> = PrefixSync<Cls<'s>, Cls<'s>, u8>;
/// The same class as thread B sees it: nobody interrupts B.
#[derive(Clone, Copy)]
#[repr(transparent)]
struct Quiet<'s>(Cls<'s>);
type Q<'s> = PrefixSync<Quiet<'s>, Quiet<'s>, u8>;
impl Neu<u8> for Quiet<'_> {
    fn is_match(&self, x: &u8) -> bool {
        (*x >> self.0.bit) & 1 == 1
    }
}
impl Neu<u8> for Cls<'_> {
    fn is_match(&self, x: &u8) -> bool {
        let sh = self.sh;
        if sh.on.get() {
            // the very same object
            let me = unsafe { &*(sh.me.get() as *const Q<'_>) };
            let mut k = 0;
            while k < B {
                let i = sh.done.get();
                if i < B && nd::bool() {
                    let r = if sh.copy[i] { me.clone().is_match(&sh.item[i]) } else { me.is_match(&sh.item[i]) };
                    sh.got[i].set(r);
                    sh.done.set(i + 1);
                }
                k += 1;
            }
        }
        (*x >> self.bit) & 1 == 1
    }
}
/// One step of A with B's steps inside it, then two probes.
fn prefix_sync_steps(n: usize, cp: bool) -> bool {
    let mut copy = [false; B];
    let mut i = 0;
    while i < B {
        copy[i] = cp && nd::bool();
        i += 1;
    }
    let sh = Sh { me: Cell::new(core::ptr::null()), on: Cell::new(false), done: Cell::new(0), item: nd::bytes::<B>(), copy, got: [const { Cell::new(false) }; B] };
    let p: P<'_> = prefix_sync_cnt(Cls { bit: 0, sh: &sh }, n, Cls { bit: 1, sh: &sh });
    sh.me.set(&p as *const P<'_> as *const ());
    chk!(core::mem::size_of::<P<'_>>() == core::mem::size_of::<Q<'_>>(), "harness: one layout");
    let x = nd::u8();
    let z = [nd::u8(), nd::u8()];
    sh.on.set(true);
    let a = p.is_match(&x);
    sh.on.set(false);
    let c = p.clone();
    let after = [p.is_match(&z[0]), p.is_match(&z[1])];
    let k = sh.done.get();
    // A's step after the first j of B's steps
    let mut found = false;
    let mut j = 0;
    while j <= k {
        let mut m = Mdl { n, ok: true };
        let mut same = true;
        let mut i = 0;
        while i <= k {
            if i == j && m.show(x) != a {
                same = false;
            }
            if i < k {
                let v = if copy[i] { { m }.show(sh.item[i]) } else { m.show(sh.item[i]) };
                if v != sh.got[i].get() {
                    same = false;
                }
            }
            i += 1;
        }
        if m.show(z[0]) == after[0] && m.show(z[1]) == after[1] && same {
            found = true;
        }
        j += 1;
    }
    chk!(found, "no sequential order of the threads' steps gives these verdicts");
    // a copy taken afterwards is in the same state
    chk!(c.is_match(&z[0]) == after[0] && c.is_match(&z[1]) == after[1], "a copy is in another state than the original");
    a
}

/// A class behind a lock: the lock is held during the whole step and free afterwards.
#[derive(Clone, Copy)]
struct Locked<'s> {
    me: &'s Cell<*const ()>,
    hits: &'s Cell<u8>,
    yes: bool,
}
impl Neu<u8> for Locked<'_> {
    fn is_match(&self, _: &u8) -> bool {
        let m = unsafe { &*(self.me.get() as *const Mutex<Locked<'_>>) };
        chk!(m.try_lock().is_err(), "the lock is not held while the class is tested");
        self.hits.set(self.hits.get() + 1);
        self.yes
    }
}
impl Regex<M> for Locked<'_> {
    fn try_parse(&self, c: &mut M) -> Result<Span, Error> {
        let m = unsafe { &*(self.me.get() as *const Mutex<Locked<'_>>) };
        chk!(m.try_lock().is_err(), "the lock is not held while the pattern runs");
        self.hits.set(self.hits.get() + 1);
        if self.yes { Ok(Span::new(c.off, 0)) } else { Err(Error::Fail) }
    }
}
impl<H: Handler<M>> Ctor<M, u8, H> for Locked<'_> {
    fn construct(&self, _: &mut M, _: &mut H) -> Result<u8, Error> {
        let m = unsafe { &*(self.me.get() as *const Mutex<Locked<'_>>) };
        chk!(m.try_lock().is_err(), "the lock is not held while the pattern builds");
        self.hits.set(self.hits.get() + 1);
        if self.yes { Ok(1) } else { Err(Error::Fail) }
    }
}
fn mutex(how: u8) -> bool {
    let (me, hits) = (Cell::new(core::ptr::null()), Cell::new(0));
    let yes = nd::bool();
    let m = Mutex::new(Locked { me: &me, hits: &hits, yes });
    me.set(&m as *const Mutex<Locked<'_>> as *const ());
    let mut c = M { base: 0, off: 0, calls: 0, sk: [0; N + 1] };
    let r = match how {
        0 => Neu::<u8>::is_match(&m, &nd::u8()),
        1 => c.try_mat(&m).is_ok(),
        _ => m.construct(&mut c, &mut crate::abs::h0()).is_ok(),
    };
    chk!(hits.get() == 1, "the locked pattern did not run exactly once");
    chk!(r == yes, "the locked pattern's verdict is lost");
    chk!(m.try_lock().is_ok(), "the lock is still held after the step");
    r
}

/// A thread that finds the lock taken waits; meanwhile the other thread goes on and
/// lets the lock go.  Symbolically that is what `Mutex::lock` does when it blocks;
/// natively there is a second thread.
static SLOW: Mutex<Slow> = Mutex::new(Slow { hits: 0, yes: false });
#[derive(Clone, Copy)]
struct Slow {
    hits: u8,
    yes: bool,
}
/// The class sees the state the other thread left.
impl Neu<u8> for Slow {
    fn is_match(&self, _: &u8) -> bool {
        self.yes && self.hits == 1
    }
}
impl Regex<M> for Slow {
    fn try_parse(&self, c: &mut M) -> Result<Span, Error> {
        if self.yes && self.hits == 1 { Ok(Span::new(c.off, 0)) } else { Err(Error::Fail) }
    }
}
impl<H: Handler<M>> Ctor<M, u8, H> for Slow {
    fn construct(&self, _: &mut M, _: &mut H) -> Result<u8, Error> {
        if self.yes && self.hits == 1 { Ok(7) } else { Err(Error::Fail) }
    }
}
#[cfg(kani)]
static mut OTHER: Option<std::sync::MutexGuard<'static, Slow>> = None;
#[cfg(kani)]
#[allow(static_mut_refs)]
fn other_goes_on() {
    if let Some(mut g) = unsafe { OTHER.take() } {
        g.hits += 1;
    }
}
#[cfg(kani)]
fn lock_waits<T: ?Sized>(m: &Mutex<T>) -> std::sync::LockResult<std::sync::MutexGuard<'_, T>> {
    use std::sync::TryLockError;
    match m.try_lock() {
        Ok(g) => return Ok(g),
        Err(TryLockError::Poisoned(e)) => return Err(e),
        Err(TryLockError::WouldBlock) => (),
    }
    other_goes_on();
    match m.try_lock() {
        Ok(g) => Ok(g),
        Err(TryLockError::Poisoned(e)) => Err(e),
        Err(TryLockError::WouldBlock) => {
            chk!(false, "the thread waits for itself");
            loop {}
        }
    }
}
fn one_step(how: u8) -> bool {
    let mut c = M { base: 0, off: 0, calls: 0, sk: [0; N + 1] };
    match how {
        0 => Neu::<u8>::is_match(&SLOW, &nd::u8()),
        1 => c.try_mat(&SLOW).is_ok(),
        _ => SLOW.construct(&mut c, &mut crate::abs::h0()) == Ok(7),
    }
}
#[allow(static_mut_refs)]
fn mutex_taken(how: u8) -> bool {
    let yes = nd::bool();
    *SLOW.lock().unwrap() = Slow { hits: 0, yes };
    #[cfg(kani)]
    let r = {
        unsafe { OTHER = Some(SLOW.lock().unwrap()) };
        one_step(how)
    };
    #[cfg(not(kani))]
    let r = {
        let (tx, rx) = std::sync::mpsc::channel();
        let t = std::thread::spawn(move || {
            let mut g = SLOW.lock().unwrap();
            tx.send(()).unwrap();
            std::thread::sleep(std::time::Duration::from_millis(200));
            g.hits += 1;
        });
        rx.recv().unwrap();
        let r = one_step(how);
        t.join().unwrap();
        r
    };
    chk!(r == yes, "a step that finds the lock taken does not wait for its turn");
    r
}

hs! {
    #[cfg_attr(kani, kani::stub(std::sync::Mutex::lock, lock_waits))]
    mutex_taken_class [5, 6] mutex_taken(0);
    #[cfg_attr(kani, kani::stub(std::sync::Mutex::lock, lock_waits))]
    mutex_taken_regex [5, 6] mutex_taken(1);
    #[cfg_attr(kani, kani::stub(std::sync::Mutex::lock, lock_waits))]
    mutex_taken_ctor [5, 6] mutex_taken(2);
    prefix_sync_two_threads_0 [5, 6] prefix_sync_steps(0, false);
    prefix_sync_two_threads_1 [5, 6] prefix_sync_steps(1, false);
    prefix_sync_two_threads_2 [5, 6] prefix_sync_steps(2, false);
    prefix_sync_two_threads_3 [5, 6] prefix_sync_steps(3, false);
    prefix_sync_copies_1 [5, 6] prefix_sync_steps(1, true);
    prefix_sync_copies_2 [5, 6] prefix_sync_steps(2, true);
    mutex_class [5, 6] mutex(0);
    mutex_regex [5, 6] mutex(1);
    mutex_ctor [5, 6] mutex(2);
}
