//! Exploration engine: work units over all cores, guarded calls into the code under exploration
//! (panics, faults and hangs are attributed to the call in flight), counters, violations, output.
use std::cell::Cell as StdCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

// ---------------------------------------------------------------------------------------------
// allocation counter

thread_local! {
    static ALLOCS: StdCell<u64> = const { StdCell::new(0) };
    static SLOT: StdCell<usize> = const { StdCell::new(0) };
}
pub struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
        std::alloc::System.realloc(p, l, n)
    }
}
#[inline]
pub fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}

// ---------------------------------------------------------------------------------------------
// calls in flight

pub const MAX_THREADS: usize = 64;
#[derive(Clone, Copy)]
struct Flight {
    /// fat pointer to the describing closure, zero when no call is in flight
    p: [*const (); 2],
}
unsafe impl Sync for Flight {}
static mut FLIGHT: [Flight; MAX_THREADS] = [Flight { p: [core::ptr::null(); 2] }; MAX_THREADS];
static TICK: [AtomicU64; MAX_THREADS] = [const { AtomicU64::new(0) }; MAX_THREADS];
static PROP: Mutex<String> = Mutex::new(String::new());
static PARTIAL: AtomicU64 = AtomicU64::new(0);

/// Run `f`, which calls into the code under exploration. `describe` says what the call is, as Rust
/// code; it is only called when something goes wrong.
#[inline]
pub fn sut<'a, R>(describe: &'a (dyn Fn() -> String + 'a), f: impl FnOnce() -> R) -> Result<R, String> {
    let i = SLOT.with(|s| s.get());
    unsafe {
        let p: [*const (); 2] = core::mem::transmute(describe);
        let fl = &raw mut FLIGHT[i];
        let old = fl.read();
        fl.write_volatile(Flight { p });
        TICK[i].store(TICK[i].load(Relaxed) + 1, Relaxed);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        TICK[i].store(TICK[i].load(Relaxed) + 1, Relaxed);
        fl.write_volatile(old);
        match r {
            Ok(v) => Ok(v),
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic".into()
                };
                Err(m)
            }
        }
    }
}

fn describe_slot(i: usize) -> Option<String> {
    unsafe {
        let fl = (&raw const FLIGHT[i]).read_volatile();
        if fl.p[0].is_null() {
            return None;
        }
        let d: &dyn Fn() -> String = core::mem::transmute(fl.p);
        Some(d())
    }
}

fn raw_write(s: &str) {
    #[cfg(not(miri))]
    unsafe {
        libc::write(1, s.as_ptr() as *const _, s.len());
    }
    #[cfg(miri)]
    print!("{}", s);
}

/// Report a crash or hang of the call in flight on thread slot `i` and end the process:
/// 77 if a call was in flight, 78 otherwise.
fn fatal(i: usize, what: &str) -> ! {
    let mut out = String::new();
    let prop = PROP.try_lock().map(|p| p.clone()).unwrap_or_default();
    match describe_slot(i) {
        Some(d) => {
            let _ = write!(
                out,
                "\n@@RESULT {{\"fatal\":true,\"property\":{},\"violations\":[{{\"class\":{},\"size\":0,\"what\":{},\"code\":{}}}]}}\n",
                js(&prop),
                js(what),
                js(what),
                js(&d)
            );
            raw_write(&out);
            unsafe { libc::_exit(77) }
        }
        None => {
            raw_write("\n@@HARNESS-CRASH ");
            raw_write(what);
            raw_write("\n");
            unsafe { libc::_exit(78) }
        }
    }
}

#[cfg(not(miri))]
extern "C" fn on_signal(sig: libc::c_int, _: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe { libc::alarm(20) };
    let what = match sig {
        libc::SIGSEGV => "memory fault (SIGSEGV) inside the call",
        libc::SIGBUS => "memory fault (SIGBUS) inside the call",
        libc::SIGILL => "illegal instruction inside the call",
        libc::SIGABRT => "abort inside the call",
        libc::SIGFPE => "arithmetic fault inside the call",
        _ => "trap inside the call",
    };
    // several threads may fault at once: one reports
    static ONE: AtomicUsize = AtomicUsize::new(0);
    if ONE.fetch_add(1, SeqCst) != 0 {
        loop {
            unsafe { libc::pause() };
        }
    }
    let i = SLOT.with(|s| s.get());
    fatal(i, what)
}

#[cfg(not(miri))]
pub fn altstack() {
    unsafe {
        let n = 512 * 1024;
        let m = libc::mmap(
            core::ptr::null_mut(),
            n,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        let ss = libc::stack_t { ss_sp: m, ss_flags: 0, ss_size: n };
        libc::sigaltstack(&ss, core::ptr::null_mut());
    }
}
#[cfg(miri)]
pub fn altstack() {}

/// Seconds one call may take before it counts as a hang.
pub const HANG: u64 = 40;

/// Install the panic hook, the fault handlers and the hang watchdog.
pub fn init(prop: &str) {
    #[cfg(feature = "logs")]
    active_log::install();
    *PROP.lock().unwrap() = prop.to_string();
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<crate::ext::Unbuildable>().is_some() {
            return;
        }
        if describe_slot(SLOT.with(|s| s.get())).is_none() {
            eprintln!("harness panic: {}", info);
        }
    }));
    #[cfg(not(miri))]
    unsafe {
        let mut sa: libc::sigaction = core::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE] {
            libc::sigaction(s, &sa, core::ptr::null_mut());
        }
        altstack();
        std::thread::spawn(|| {
            let mut last = [(0u64, 0u64); MAX_THREADS];
            loop {
                std::thread::sleep(std::time::Duration::from_secs(1));
                for i in 0..MAX_THREADS {
                    let t = TICK[i].load(Relaxed);
                    if t == last[i].0 && !(&raw const FLIGHT[i]).read_volatile().p[0].is_null() {
                        last[i].1 += 1;
                        if last[i].1 >= HANG {
                            fatal(i, "the call does not return");
                        }
                    } else {
                        last[i] = (t, 0);
                    }
                }
            }
        });
    }
}

// ---------------------------------------------------------------------------------------------
// results

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub size: usize,
    pub what: String,
    pub code: String,
}

pub const NOPS: usize = 64;
pub const NCAP: usize = 257;
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub ops: Box<[[u64; 5]; NOPS]>,
    pub digest: Vec<u64>,
    pub viols: BTreeMap<String, Viol>,
    pub nviols: u64,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
}
impl Default for Stats {
    fn default() -> Self {
        Stats {
            states: 0,
            transitions: 0,
            ops: Box::new([[0; 5]; NOPS]),
            digest: vec![],
            viols: BTreeMap::new(),
            nviols: 0,
            samples: vec![],
            notes: BTreeMap::new(),
        }
    }
}
impl Stats {
    pub fn note(&mut self, k: &str, n: u64) {
        if let Some(v) = self.notes.get_mut(k) {
            *v += n
        } else {
            self.notes.insert(k.to_string(), n);
        }
    }
    #[inline]
    pub fn count(&mut self, op: usize, class: usize) {
        self.transitions += 1;
        self.ops[op][class] += 1;
    }
    /// Record a violation; the smallest of each class is kept.
    pub fn violation(&mut self, class: String, size: usize, f: &dyn Fn() -> (String, String)) {
        self.nviols += 1;
        let keep = match self.viols.get(&class) {
            Some(v) => size < v.size,
            None => self.viols.len() < 40,
        };
        if keep {
            let (what, code) = f();
            self.viols.insert(class.clone(), Viol { class, size, what, code });
        }
    }
    pub fn sample(&mut self, f: &dyn Fn() -> String) {
        if self.samples.len() < 400 {
            self.samples.push(f());
        }
    }
    pub fn digest(&mut self, key: usize, h: u64) {
        if self.digest.is_empty() {
            self.digest = vec![0; NOPS * NCAP];
        }
        self.digest[key] = self.digest[key].wrapping_add(h);
    }
    pub fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        for i in 0..NOPS {
            for j in 0..5 {
                self.ops[i][j] += o.ops[i][j];
            }
        }
        if !o.digest.is_empty() {
            for (k, h) in o.digest.iter().enumerate() {
                if *h != 0 {
                    self.digest(k, *h);
                }
            }
        }
        self.nviols += o.nviols;
        for (k, v) in o.viols {
            match self.viols.get(&k) {
                Some(w) if w.size <= v.size => {}
                _ => {
                    self.viols.insert(k, v);
                }
            }
        }
        self.samples.extend(o.samples);
        for (k, v) in o.notes {
            self.note(&k, v);
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) || (0x2028..=0x2029).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Print the result of an exploration; the last line of a run.
pub fn finish(prop: &str, st: &Stats, names: &[&str], bounds: &str) -> ! {
    let mut o = String::new();
    let _ = write!(
        o,
        "@@RESULT {{\"fatal\":false,\"property\":{},\"states\":{},\"transitions\":{},\"violation_count\":{},\"bounds\":{},\"ops\":{{",
        js(prop),
        st.states,
        st.transitions,
        st.nviols,
        js(bounds)
    );
    let mut first = true;
    for (i, n) in names.iter().enumerate() {
        let c = st.ops[i];
        if c.iter().any(|x| *x > 0) {
            if !first {
                o.push(',');
            }
            first = false;
            let _ = write!(o, "{}:[{},{},{},{},{}]", js(n), c[0], c[1], c[2], c[3], c[4]);
        }
    }
    o.push_str("},\"notes\":{");
    for (i, (k, v)) in st.notes.iter().enumerate() {
        let _ = write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, js(k), v);
    }
    o.push_str("},\"samples\":[");
    // spread over what was collected
    let n = st.samples.len();
    let k = n.min(12);
    for i in 0..k {
        let _ = write!(o, "{}{}", if i > 0 { "," } else { "" }, js(&st.samples[i * n / k]));
    }
    o.push_str("],\"violations\":[");
    let mut vs: Vec<&Viol> = st.viols.values().collect();
    vs.sort_by_key(|v| v.size);
    for (i, v) in vs.iter().take(10).enumerate() {
        let _ = write!(
            o,
            "{}{{\"class\":{},\"size\":{},\"what\":{},\"code\":{}}}",
            if i > 0 { "," } else { "" },
            js(&v.class),
            v.size,
            js(&v.what),
            js(&v.code)
        );
    }
    o.push_str("],\"digest\":{");
    let mut first = true;
    for (k, h) in st.digest.iter().enumerate() {
        if *h != 0 {
            let (op, cap) = (k / NCAP, k % NCAP);
            let name = names.get(op).copied().unwrap_or("?");
            let _ = write!(o, "{}{}:\"{:016x}\"", if first { "" } else { "," }, js(&format!("{}/{}", name, cap)), h);
            first = false;
        }
    }
    o.push_str("}}\n");
    let mut b = o.as_bytes();
    while !b.is_empty() {
        use std::io::Write;
        let n = std::io::stdout().write(b).unwrap_or(0);
        if n == 0 {
            break;
        }
        b = &b[n..];
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(if st.nviols > 0 { 1 } else { 0 })
}

pub fn threads() -> usize {
    if cfg!(miri) {
        return 1;
    }
    std::env::var("MC_THREADS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
    })
}

/// Violations after which a run stops looking for more.
pub const ENOUGH: u64 = 20_000;
pub fn enough() -> bool {
    PARTIAL.load(Relaxed) >= ENOUGH
}

/// Run every unit on the worker threads; `mk` makes a worker's private state.
pub fn explore<U: Sync, W>(
    units: &[U],
    mk: impl Fn() -> W + Sync,
    f: impl Fn(&U, &mut W, &mut Stats) + Sync,
) -> Stats {
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Stats::default());
    // several processes may share the units: whoever creates a unit's file has it
    static ROUND: AtomicUsize = AtomicUsize::new(0);
    let round = ROUND.fetch_add(1, Relaxed);
    let queue = std::env::var("MC_QUEUE").ok();
    let work = |slot: usize| {
        SLOT.with(|s| s.set(slot));
        altstack();
        let mut w = mk();
        let mut st = Stats::default();
        loop {
            let i = next.fetch_add(1, Relaxed);
            if i >= units.len() || enough() {
                break;
            }
            if let Some(q) = &queue {
                if std::fs::File::create_new(format!("{}/{}-{}", q, round, i)).is_err() {
                    continue;
                }
            }
            let before = st.nviols;
            f(&units[i], &mut w, &mut st);
            PARTIAL.fetch_add(st.nviols - before, Relaxed);
        }
        total.lock().unwrap().merge(st);
    };
    let n = threads();
    if n == 1 {
        work(0);
    } else {
        std::thread::scope(|s| {
            for t in 0..n {
                let work = &work;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || work(t + 1))
                    .expect("spawn");
            }
        });
    }
    total.into_inner().unwrap()
}

#[inline]
pub fn mix(mut h: u64, x: u64) -> u64 {
    h ^= x;
    h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^ (h >> 29)
}
#[inline]
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    h = mix(h, b.len() as u64);
    let mut c = b.chunks_exact(8);
    for w in &mut c {
        h = mix(h, u64::from_le_bytes(w.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    last[..c.remainder().len()].copy_from_slice(c.remainder());
    mix(h, u64::from_le_bytes(last))
}

/// A logger that reads every message, without allocating; installed when MC_LOG is set.
#[cfg(feature = "logs")]
mod active_log {
    use std::fmt::Write;
    struct Sink;
    struct Buf([u8; 4096], usize);
    impl Write for Buf {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                self.0[self.1 & 4095] = b;
                self.1 += 1;
            }
            Ok(())
        }
    }
    impl log::Log for Sink {
        fn enabled(&self, _: &log::Metadata) -> bool {
            true
        }
        fn log(&self, r: &log::Record) {
            let mut b = Buf([0; 4096], 0);
            let _ = write!(b, "{}", r.args());
            std::hint::black_box(b.0[0]);
        }
        fn flush(&self) {}
    }
    pub fn install() {
        if std::env::var_os("MC_LOG").is_some() {
            static S: Sink = Sink;
            let _ = log::set_logger(&S);
            log::set_max_level(log::LevelFilter::Trace);
        }
    }
}
