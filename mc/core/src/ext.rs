//! Support for the explorations that are written once per concrete type (`ext/body/*.rs`).
use crate::engine::*;

pub struct Cx<'a> {
    pub st: &'a mut Stats,
    /// results are compared with the model and differences reported
    pub functional: bool,
    pub panic: bool,
    pub alloc: bool,
    pub digest: bool,
    pub deep: bool,
    /// as little as possible (for the interpreter)
    pub mini: bool,
    pub prop: &'a str,
    pub ty: &'static str,
    pub key: usize,
    /// what the observations of this moment belong to (for digests)
    pub ctx: u64,
    last_grew: u64,
}

struct FmtHash(u64);
impl std::fmt::Write for FmtHash {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = mix(self.0, b as u64);
        }
        Ok(())
    }
}

pub struct Flags {
    pub functional: bool,
    pub panic: bool,
    pub alloc: bool,
    pub digest: bool,
    pub deep: bool,
    pub mini: bool,
    pub only_cache: bool,
    pub keys: Vec<usize>,
    pub prop: String,
}
impl Flags {
    /// From the command line: <property> [deep] [mini] [keys=1,2,...]
    pub fn parse() -> Flags {
        let a: Vec<String> = std::env::args().collect();
        let prop = a[1].clone();
        let has = |s: &str| a[2..].iter().any(|x| x == s);
        let side = matches!(&prop[..], "C01" | "C11" | "C12" | "C13" | "C17" | "C21");
        Flags {
            functional: !side,
            panic: !matches!(&prop[..], "C01" | "C12" | "C17" | "C21"),
            alloc: prop == "C12",
            digest: prop == "C21" || prop == "C17",
            deep: has("deep"),
            mini: has("mini"),
            only_cache: prop == "C17",
            keys: a[2..].iter().filter_map(|x| x.strip_prefix("keys=")).flat_map(|x| x.split(',').map(|k| k.parse().unwrap())).collect(),
            prop,
        }
    }
}

impl Cx<'_> {
    /// Is this part of an exploration about the property under check?
    pub fn wants(&self, props: &[&str]) -> bool {
        !self.functional || props.contains(&self.prop)
    }
    /// Call into the code under exploration.
    #[inline]
    pub fn call<R>(&mut self, op: usize, code: &dyn Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        let before = allocs();
        let r = sut(code, f);
        let grew = allocs() - before;
        self.last_grew = grew;
        match r {
            Ok(v) => {
                self.st.count(op, 0);
                if self.alloc && grew > 0 {
                    self.report(op, "allocates", 0, &|| format!("the call made {} heap allocation(s)", grew), code);
                }
                Some(v)
            }
            Err(m) => {
                self.st.count(op, 4);
                if self.panic {
                    self.report(op, "panics", 0, &|| format!("the call panics: {}", m), code);
                }
                if self.digest {
                    self.seen(op, 0xdead);
                }
                None
            }
        }
    }
    /// Like `call`, where a panic may be right; the caller compares.
    #[inline]
    pub fn may_panic<R>(&mut self, op: usize, code: &dyn Fn() -> String, f: impl FnOnce() -> R) -> Result<R, String> {
        let before = allocs();
        let r = sut(code, f);
        let grew = allocs() - before;
        self.st.count(op, if r.is_ok() { 0 } else { 4 });
        if r.is_ok() && self.alloc && grew > 0 {
            self.report(op, "allocates", 0, &|| format!("the call made {} heap allocation(s)", grew), code);
        }
        r
    }
    pub fn report(&mut self, op: usize, class: &str, size: usize, what: &dyn Fn() -> String, code: &dyn Fn() -> String) {
        self.st.violation(format!("{}#{}: {}", op, self.ty, class), size, &|| (what(), code()));
    }
    /// A difference from the model.
    #[inline]
    pub fn check(&mut self, ok: bool, op: usize, class: &str, size: usize, what: &dyn Fn() -> String, code: &dyn Fn() -> String) {
        if !ok && self.functional {
            self.report(op, class, size, what, code)
        }
    }
    /// Something that must hold whatever the property.
    #[inline]
    pub fn always(&mut self, ok: bool, op: usize, class: &str, size: usize, what: &dyn Fn() -> String, code: &dyn Fn() -> String) {
        if !ok {
            self.report(op, class, size, what, code)
        }
    }
    #[inline]
    pub fn seen(&mut self, op: usize, h: u64) {
        if self.digest {
            self.st.digest(op * NCAP + self.key, mix(h, op as u64));
        }
    }
    #[inline]
    pub fn seen_str(&mut self, op: usize, ctx: u64, s: &str) {
        if self.digest {
            self.seen(op, hash_bytes(ctx, s.as_bytes()));
        }
    }
    /// Like `call`, for calls where the caller's own code allocates.
    #[inline]
    pub fn plain<R>(&mut self, op: usize, code: &dyn Fn() -> String, f: impl FnOnce() -> R) -> Option<R> {
        let a = std::mem::replace(&mut self.alloc, false);
        let r = self.call(op, code, f);
        self.alloc = a;
        r
    }
    /// Compare an observation with what is expected.
    #[inline]
    pub fn same<A: std::fmt::Debug + PartialEq<B>, B: std::fmt::Debug + ?Sized>(
        &mut self,
        op: usize,
        class: &str,
        size: usize,
        got: &A,
        exp: &B,
        code: &dyn Fn() -> String,
    ) -> bool {
        if self.prop == "C01" {
            if let Some(what) = UNSOUND.with(|u| u.borrow_mut().take()) {
                self.report(op, "invalid content", size, &|| what.clone(), code);
            }
            return true;
        }
        if self.digest {
            let mut h = FmtHash(op as u64);
            let _ = std::fmt::Write::write_fmt(&mut h, format_args!("{}{:?}", class, got));
            self.seen(op, mix(h.0, self.ctx));
        }
        let ok = got == exp;
        if !ok && self.functional {
            self.report(op, class, size, &|| format!("{}: got {:?}, expected {:?}", class, got, exp), code);
        }
        ok
    }
    pub fn sample(&mut self, every: u64, f: &dyn Fn() -> String) {
        if self.st.samples.len() < 2 || self.st.transitions % every == 3 {
            self.st.sample(f)
        }
    }
}

thread_local! {
    static UNSOUND: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// The content of a string, noted when it is not valid UTF-8 within the capacity (for C01).
#[inline]
pub fn content(s: &str, cap: usize) -> &str {
    let bytes = std::hint::black_box(s.as_bytes());
    if bytes.len() > cap {
        unsound(format!("{} bytes in a string of capacity {}", bytes.len(), cap));
        return "\u{0} more than the capacity";
    }
    if std::str::from_utf8(bytes).is_err() {
        unsound(format!("the content is not valid UTF-8: {:x?}", bytes));
        return "\u{0} invalid UTF-8";
    }
    s
}
#[cold]
fn unsound(what: String) {
    UNSOUND.with(|u| {
        u.borrow_mut().get_or_insert(what);
    });
}

/// One concrete type's exploration.
pub struct Body {
    pub ty: &'static str,
    pub key: usize,
    pub units: fn(deep: bool, mini: bool) -> usize,
    pub run: fn(usize, &mut Cx),
}

pub fn main(bodies: &[Body], names: &[&str], bounds: &str) -> ! {
    let f = Flags::parse();
    init(&f.prop);
    let mut units = vec![];
    for (i, b) in bodies.iter().enumerate() {
        if f.only_cache && b.key != 256 {
            continue;
        }
        if f.mini && f.keys.is_empty() && !matches!(b.key, 1 | 2 | 5 | 256) || !f.keys.is_empty() && !f.keys.contains(&b.key) {
            continue;
        }
        for u in 0..(b.units)(f.deep, f.mini) {
            units.push((i, u));
        }
    }
    units.reverse();
    fn cx<'a>(f: &'a Flags, b: &Body, st: &'a mut Stats) -> Cx<'a> {
        Cx {
            st,
            functional: f.functional,
            panic: f.panic,
            alloc: f.alloc,
            digest: f.digest,
            deep: f.deep,
            mini: f.mini,
            prop: &f.prop,
            ty: b.ty,
            key: b.key,
            ctx: 0,
            last_grew: 0,
        }
    }
    let twin = bodies.iter().position(|b| b.key == 63);
    let mut st = explore(&units, || (), |(i, u), _, st| {
        let b = &bodies[*i];
        st.states += 1;
        if cfg!(miri) {
            eprintln!("@@AT // {} part {} of: {}", b.ty, u, bounds);
        }
        let run = |b: &Body, st: &mut Stats| {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (b.run)(*u, &mut cx(&f, b, st))));
            if let Err(e) = r {
                if e.downcast_ref::<Unbuildable>().is_some() {
                    st.note("states that could not be built", 1);
                } else {
                    std::panic::resume_unwind(e);
                }
            }
        };
        if !f.only_cache {
            run(b, st);
            return;
        }
        // the same exploration on both types, observations compared
        let (mut sa, mut sb) = (Stats::default(), Stats::default());
        run(b, &mut sa);
        let Some(t) = twin else { return };
        run(&bodies[t], &mut sb);
        for op in 0..names.len() {
            let at = |s: &Stats, k: usize| s.digest.get(op * NCAP + k).copied().unwrap_or(0);
            if at(&sa, 256) != at(&sb, 63) || sa.ops[op] != sb.ops[op] {
                sa.violation(format!("{}#CacheString: differs from ArrayString<63>", op), *u, &|| {
                    (
                        format!("unit {} of {}: the observations on CacheString and on ArrayString<63> differ", u, bounds),
                        format!("// unit {}: same calls on CacheString and ArrayString<63>", u),
                    )
                });
            }
        }
        for v in sb.viols.values() {
            eprintln!("{}", v.what);
        }
        sa.digest.clear();
        sa.transitions += sb.transitions;
        st.merge(sa);
    });
    // name the operations in violation classes
    let viols = std::mem::take(&mut st.viols);
    for (k, mut v) in viols {
        if let Some((n, rest)) = k.split_once('#') {
            if let Ok(n) = n.parse::<usize>() {
                v.class = format!("{} of {}", names.get(n).copied().unwrap_or("?"), rest);
            }
        }
        st.viols.insert(v.class.clone(), v);
    }
    eprintln!("{} {}: states {} transitions {} violations {}", f.prop, bounds, st.states, st.transitions, st.nviols);
    finish(&f.prop, &st, names, bounds)
}

/// Instantiate a body for a list of types: `types!("body/x.rs"; name ArrayString<3>, ...)`.
#[macro_export]
macro_rules! bodies {
    ($file:literal; $($m:ident $key:literal $t:ty),* $(,)?) => {
        $(
            #[allow(unused)]
            mod $m {
                use arraystring::prelude::*;
                use arraystring::Error;
                use mc_core::engine::*;
                use mc_core::ext::*;
                use mc_core::gen::*;
                use mc_core::model::floor;
                pub type T = $t;
                pub const KEY: usize = $key;
                pub const TY: &str = if KEY == 256 { "CacheString" } else { concat!("ArrayString::<", $key, ">") };
                include!($file);
            }
        )*
        fn all_bodies() -> Vec<mc_core::ext::Body> {
            vec![$(mc_core::ext::Body { ty: $m::TY, key: $key, units: $m::units, run: $m::run }),*]
        }
    };
}

/// The usual selection of types.
#[cfg(not(feature = "few"))]
#[macro_export]
macro_rules! usual {
    ($file:literal) => {
        $crate::bodies!($file;
            t1 1 ArrayString<1>, t2 2 ArrayString<2>, t3 3 ArrayString<3>, t4 4 ArrayString<4>, t5 5 ArrayString<5>,
            t6 6 ArrayString<6>, t7 7 ArrayString<7>, t8 8 ArrayString<8>, t12 12 ArrayString<12>,
            t16 16 ArrayString<16>, t23 23 ArrayString<23>, t31 31 ArrayString<31>, t32 32 ArrayString<32>,
            t33 33 ArrayString<33>, t63 63 ArrayString<63>, t64 64 ArrayString<64>, t100 100 ArrayString<100>,
            t127 127 ArrayString<127>, t128 128 ArrayString<128>, t129 129 ArrayString<129>,
            t200 200 ArrayString<200>, t254 254 ArrayString<254>, t255 255 ArrayString<255>,
            cache 256 CacheString);
    };
}

/// The few types of quick builds.
#[cfg(feature = "few")]
#[macro_export]
macro_rules! usual {
    ($file:literal) => {
        $crate::bodies!($file;
            t1 1 ArrayString<1>, t2 2 ArrayString<2>, t5 5 ArrayString<5>, t23 23 ArrayString<23>,
            t63 63 ArrayString<63>, t255 255 ArrayString<255>,
            cache 256 CacheString);
    };
}

thread_local! {
    static STEPPING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Single-step this thread: a SIGTRAP after every instruction.
#[inline(always)]
pub fn step_on() {
    STEPPING.with(|s| s.set(true));
    #[cfg(not(miri))]
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq")
    }
}
#[inline(always)]
pub fn step_off() {
    #[cfg(not(miri))]
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq")
    }
    STEPPING.with(|s| s.set(false));
}
/// The explorer wants no more steps of this thread (called from the signal handler).
pub fn step_done() {
    STEPPING.with(|s| s.set(false));
}
/// Run something of the harness that need not be stepped through.
#[inline(always)]
pub fn step_pause<R>(f: impl FnOnce() -> R) -> R {
    if STEPPING.with(|s| s.get()) {
        step_off();
        let r = f();
        step_on();
        r
    } else {
        f()
    }
}

/// What an action (`ext/body/acts.rs`) lets one see, without allocating.
pub struct Out {
    pub buf: [u8; 6000],
    pub n: usize,
}
impl Out {
    pub fn new() -> Out {
        Out { buf: [0; 6000], n: 0 }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.buf[..self.n]
    }
    pub fn put(&mut self, b: &[u8]) {
        let m = b.len().min(6000 - self.n);
        self.buf[self.n..self.n + m].copy_from_slice(&b[..m]);
        self.n += m;
    }
}
impl std::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.put(s.as_bytes());
        Ok(())
    }
}

/// Call, and compare the result with what is expected.
#[macro_export]
macro_rules! look {
    ($cx:expr, $op:expr, $size:expr, $code:expr, $class:expr, $got:expr, $exp:expr) => {{
        match $cx.call($op, $code, || $got) {
            Some(g) => {
                let e = $exp;
                $cx.same($op, $class, $size, &g, &e, $code)
            }
            None => false,
        }
    }};
}

/// The code under exploration is unable to hold a text the exploration needs; other properties say
/// whether that is right.
pub struct Unbuildable;

/// How a string came to hold its text: leftovers of kind 0..=3 behind it, as in `target::set`.
#[macro_export]
macro_rules! build {
    ($t:ty, $content:expr, $stale:expr) => {{
        let text: &str = $content;
        let mut s = <$t>::new();
        let fill = match $stale {
            0 => None,
            1 => Some("z".repeat(<$t>::capacity())),
            2 => Some("\u{10ffff}".repeat(<$t>::capacity() / 4)),
            _ => Some("\u{7ff}".repeat(<$t>::capacity() / 2)),
        };
        if let Some(f) = &fill {
            let _ = s.try_push_str(f.as_str());
            s.clear();
        }
        let _ = s.try_push_str(text);
        if s.as_str() != text {
            s.clear();
            for c in text.chars() {
                let _ = s.try_push(c);
            }
        }
        if s.as_str() != text {
            std::panic::panic_any($crate::ext::Unbuildable);
        }
        s
    }};
}

/// Contents for a capacity: all width compositions when few, shapes otherwise.
pub fn contents(cap: usize, limit: usize, deep: bool) -> Vec<String> {
    if cap <= limit {
        crate::gen::all_strings(cap, false)
    } else {
        crate::gen::large_contents(cap, deep)
    }
}

/// The texts a body starts from: everything for capacities up to `small`, shapes beyond.
pub fn texts(cap: usize, small: usize, deep: bool, mini: bool) -> Vec<String> {
    let mut v = if mini {
        crate::gen::all_strings(cap.min(3), false)
    } else {
        contents(cap, small, deep)
    };
    v.retain(|s| s.len() <= cap);
    v
}
/// `n` elements spread over a slice, ends included.
pub fn spread<T: Copy>(v: &[T], n: usize) -> Vec<T> {
    if v.len() <= n {
        return v.to_vec();
    }
    (0..n).map(|i| v[i * (v.len() - 1) / (n - 1)]).collect()
}
pub fn boundaries(s: &str) -> Vec<usize> {
    (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect()
}
