//! Two threads, one preemption anywhere: thread 1 performs an action, and between two of its machine
//! instructions thread 2 performs another action on another string from beginning to end.  Every
//! instruction boundary of the first action is such a point (found by single-stepping the processor);
//! both actions must end exactly as they do alone.
//!
//! usage: steps <property> [every|each] [deep]
//!   each   one execution per instruction boundary (one preemption each)
//!   every  one execution in which thread 2 runs at every instruction boundary
use arraystring::prelude::*;
use mc_core::engine::*;
use mc_core::ext::{step_done, step_off, step_on, Out};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

#[global_allocator]
static ALLOC: Counting = Counting;

pub struct Table {
    ty: &'static str,
    key: usize,
    size: usize,
    put: fn(*mut u8, &str),
    go: fn(usize, *mut u8, &mut Out),
    name: fn(usize) -> &'static str,
    starts: Vec<&'static str>,
    n: usize,
}
mc_core::bodies!("../../body/steps.rs";
    t5 5 ArrayString<5>, t23 23 ArrayString<23>, t63 63 ArrayString<63>, t255 255 ArrayString<255>, cache 256 CacheString);

/// Room for a string of any type.
#[repr(align(64))]
#[derive(Clone, Copy)]
struct Room([u8; 256]);

/// The second thread.
struct Partner {
    go: AtomicU64,
    done: AtomicU64,
    stop: AtomicBool,
    act: AtomicUsize,
    f: Cell<fn(usize, *mut u8, &mut Out)>,
    start: Cell<Room>,
    out: std::cell::UnsafeCell<Out>,
    panicked: AtomicBool,
}
unsafe impl Sync for Partner {}
impl Partner {
    fn serve(&self) {
        let mut seen = 0;
        let mut idle = 0u32;
        loop {
            let g = self.go.load(Acquire);
            if g == seen {
                if self.stop.load(Relaxed) {
                    return;
                }
                idle += 1;
                if idle > 20_000 {
                    std::thread::yield_now();
                } else {
                    std::hint::spin_loop();
                }
                continue;
            }
            idle = 0;
            seen = g;
            let mut room = self.start.get();
            let k = self.act.load(Relaxed);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                (self.f.get())(k, &mut room.0 as *mut u8, unsafe { &mut *self.out.get() })
            }));
            if r.is_err() {
                self.panicked.store(true, Relaxed);
            }
            self.done.store(g, Release);
        }
    }
    /// Run once, from another thread; false if it does not finish in time (it waits for something).
    fn once(&self) -> bool {
        let g = self.go.load(Relaxed) + 1;
        self.go.store(g, Release);
        let t0 = now();
        let mut n = 0u32;
        while self.done.load(Acquire) != g {
            std::hint::spin_loop();
            n += 1;
            if n > 2000 {
                n = 0;
                if now() - t0 > 50_000_000 {
                    return false;
                }
                unsafe { libc::sched_yield() };
            }
        }
        true
    }
    fn idle(&self) -> bool {
        self.done.load(Acquire) == self.go.load(Relaxed)
    }
}
fn now() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}

/// One execution under the stepping handler.
struct Ctx {
    partner: *const Partner,
    expect: *const [u8],
    /// 0: at every step
    target: u64,
    count: u64,
    runs: u64,
    blocked: u64,
    bad_at: u64,
    limit: u64,
}
thread_local! {
    static CTX: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
}
const TF: i64 = 0x100;

extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let p = CTX.with(|c| c.get());
        let efl = &mut uc.uc_mcontext.gregs[libc::REG_EFL as usize];
        if p.is_null() {
            *efl &= !TF;
            step_done();
            return;
        }
        let c = &mut *p;
        c.count += 1;
        if c.target == 0 || c.count == c.target {
            let b = &*c.partner;
            if b.idle() {
                c.runs += 1;
                if !b.once() {
                    // thread 2 waits for thread 1: this interleaving is not possible
                    c.blocked += 1;
                } else if (*b.out.get()).bytes() != &*c.expect && c.bad_at == 0 {
                    c.bad_at = c.count;
                }
            }
        }
        if c.count == c.limit || (c.target != 0 && c.count >= c.target) {
            step_done();
            *efl &= !TF;
        }
    }
}
const NAMES: [&str; 3] = ["two threads", "shared between threads", "Send and Sync"];

fn alone(t: &Table, k: usize, text: &str) -> Option<Vec<u8>> {
    let mut room = Room([0; 256]);
    (t.put)(&mut room.0 as *mut u8, text);
    let mut out = Out::new();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (t.go)(k, &mut room.0 as *mut u8, &mut out))).ok()?;
    Some(out.bytes().to_vec())
}

struct Probe<T>(std::marker::PhantomData<T>);
macro_rules! makes {
    ($($m:ident $n:ident $no:ident [$($b:tt)*]),*) => {$(
        trait $n { fn $m(&self) -> bool { true } }
        trait $no { fn $m(&self) -> bool { false } }
        impl<T: $($b)*> $n for Probe<T> {}
        impl<T> $no for &Probe<T> {}
    )*};
}
makes! { send HasSend NoSend [Send], sync HasSync NoSync [Sync] }

fn auto_traits(st: &mut Stats) {
    macro_rules! probe {
        ($($t:ty),* $(,)?) => {$({
            let q = Probe::<$t>(std::marker::PhantomData);
            for (what, is) in [("sent to", (&q).send()), ("shared with", (&q).sync())] {
                st.count(2, 0);
                st.states += 1;
                if !is {
                    st.violation(format!("{} cannot be {} another thread", stringify!($t), what), 0, &|| (format!("{} cannot be {} another thread", stringify!($t), what), format!("// {}", stringify!($t))));
                }
            }
        })*};
    }
    probe!(
        ArrayString<1>, ArrayString<2>, ArrayString<7>, ArrayString<8>, ArrayString<23>, ArrayString<63>, ArrayString<64>, ArrayString<255>,
        CacheString, SmallString, MaxString, Drain<1>, Drain<63>, Drain<255>,
        arraystring::Error, Utf8, Utf16, OutOfBounds,
    );
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let each = a.iter().any(|x| x == "each");
    let deep = a.iter().any(|x| x == "deep");
    init(&prop);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
    let tables: Vec<Table> = vec![t5::table(), t23::table(), t63::table(), t255::table(), cache::table()];
    // which strings meet: (type, type)
    let mut meets: Vec<(usize, usize)> = vec![(0, 0), (2, 2), (2, 4)];
    if deep {
        meets.extend([(1, 1), (3, 3), (4, 4), (4, 2), (0, 3), (3, 0)]);
    }
    let mut units = vec![];
    for (x, y) in &meets {
        for k in 0..tables[*x].n {
            for s in 0..tables[*x].starts.len() {
                if !deep && s > (!each) as usize {
                    continue;
                }
                units.push((*x, *y, k, s));
            }
        }
    }
    units.reverse();
    let tables = &tables;
    // a waiting second thread keeps a core busy
    let half = (threads() / 2).max(1);
    std::env::set_var("MC_THREADS", half.to_string());
    let mut st = explore(&units, || (), |(x, y, k, s), _, st| {
        let (tx, ty) = (&tables[*x], &tables[*y]);
        let ta = tx.starts[*s];
        let Some(exp_a) = alone(tx, *k, ta) else { return };
        st.states += 1;
        let partner = Partner {
            go: AtomicU64::new(0),
            done: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            act: AtomicUsize::new(0),
            f: Cell::new(ty.go),
            start: Cell::new(Room([0; 256])),
            out: std::cell::UnsafeCell::new(Out::new()),
            panicked: AtomicBool::new(false),
        };
        std::thread::scope(|sc| {
            let pr = &partner;
            let h = sc.spawn(move || pr.serve());
            // which actions of the second thread: all, or the same one and the following few
            let bs: Vec<usize> = if !each || deep { (0..ty.n).collect() } else { vec![*k, (*k + 17) % ty.n] };
            for b in bs {
                let tb = ty.starts[(b + s + (*k == b) as usize) % ty.starts.len()];
                let Some(exp_b) = alone(ty, b, tb) else { continue };
                let mut room = Room([0; 256]);
                (ty.put)(&mut room.0 as *mut u8, tb);
                partner.start.set(room);
                partner.act.store(b, Relaxed);
                let mut points = 0;
                let mut at = 0u64;
                while at <= points {
                    if enough() {
                        break;
                    }
                    // at 0: thread 2 at every step, which also counts the steps
                    if !each && at > 0 {
                        break;
                    }
                    let mut ctx = Ctx {
                        partner: &partner,
                        expect: &exp_b[..],
                        target: if each && at == 0 { u64::MAX } else { at },
                        count: 0,
                        runs: 0,
                        blocked: 0,
                        bad_at: 0,
                        limit: 400_000,
                    };
                    let mut mine = Room([0; 256]);
                    (tx.put)(&mut mine.0 as *mut u8, ta);
                    let mut out = Out::new();
                    let (go, ap) = (tx.go, &mut mine.0 as *mut u8);
                    let code = || {
                        format!(
                            "// thread 1: {} on {} {:?}\n// thread 2, on another string: {} on {} {:?}\n// thread 2 runs to its end {}",
                            (tx.name)(*k), tx.ty, ta, (ty.name)(b), ty.ty, tb,
                            if at == 0 { "between any two instructions of thread 1".into() } else { format!("after instruction {} of thread 1", at) }
                        )
                    };
                    let r = sut(&code, || {
                        CTX.with(|c| c.set(&mut ctx));
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            step_on();
                            go(*k, ap, &mut out);
                            step_off();
                        }));
                        step_off();
                        CTX.with(|c| c.set(std::ptr::null_mut()));
                        r.is_ok()
                    });
                    let t0 = now();
                    while !partner.idle() && now() - t0 < 5_000_000_000 {
                        std::thread::yield_now();
                    }
                    st.states += ctx.runs;
                    st.count(0, if r == Ok(true) { 0 } else { 4 });
                    st.transitions += ctx.count;
                    st.note("preemptions", ctx.runs);
                    st.note("impossible interleavings", ctx.blocked);
                    if ctx.count >= ctx.limit {
                        st.note("actions cut off", 1);
                    }
                    let class = |w: &str| format!("{} on thread 1, {} on thread 2: {}", (tx.name)(*k), (ty.name)(b), w);
                    let l = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
                    if !partner.idle() {
                        st.violation(class("does not end"), 1, &|| ("thread 2 does not end although thread 1 has".into(), code()));
                        // nothing can be done with a thread that is stuck
                        finish(&prop, st, &NAMES, "stopped: a thread is stuck");
                    }
                    if ctx.bad_at != 0 {
                        let at = ctx.bad_at;
                        st.violation(class("thread 2 disturbed"), at as usize, &|| (format!("interrupting thread 1 after its instruction {}, the action of thread 2 ends differently from alone ({:?})", at, l(&exp_b)), code()));
                    }
                    if partner.panicked.swap(false, Relaxed) {
                        st.violation(class("thread 2 panics"), 1, &|| ("the action of thread 2 panics, which it does not alone".into(), code()));
                    }
                    if r != Ok(true) || out.bytes() != exp_a {
                        st.violation(class("thread 1 disturbed"), at as usize, &|| (format!("thread 1 ends with {:?}, alone {:?}", if r == Ok(true) { l(out.bytes()) } else { "a panic".into() }, l(&exp_a)), code()));
                    }
                    if std::env::var_os("STEPS_DEBUG").is_some() && at == 0 {
                        eprintln!("{:6} {} {:?}", ctx.count, (tx.name)(*k), ta);
                    }
                    if each && at == 0 {
                        points = ctx.count;
                        if points > 700 && !deep {
                            st.note("pairs with more than 700 points, left to `every` and to the thorough tier", 1);
                            points = 0;
                        }
                    }
                    at += 1;
                }
                if st.samples.len() < 3 || st.transitions % 499 == 3 {
                    st.sample(&|| format!("thread 1: {} on {} {:?}; thread 2: {} on {} {:?}; {} instruction boundaries", (tx.name)(*k), tx.ty, ta, (ty.name)(b), ty.ty, tb, points));
                }
            }
            partner.stop.store(true, Relaxed);
            let _ = h.join();
        });
    });
    auto_traits(&mut st);
    if st.notes.get("preemptions").copied().unwrap_or(0) == 0 && st.nviols == 0 {
        eprintln!("nothing was preempted: single-stepping does not work here");
        std::process::exit(3);
    }
    eprintln!("{} steps: states {} transitions {} violations {} {:?}", prop, st.states, st.transitions, st.nviols, st.notes);
    finish(&prop, &st, &NAMES, if each {
        "pairs of actions on two threads; one execution per instruction boundary of the first, where the second runs from beginning to end"
    } else {
        "pairs of actions (52 x 52; 2 contents, 3 pairs of types, or 4 and 9 when deep) on two threads; the second runs from beginning to end at every instruction boundary of the first"
    })
}
