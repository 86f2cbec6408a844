//! Two threads performing actions on strings of their own (and reading a shared one) without any
//! synchronisation, for a data race detector (run by Miri): the complement of `steps`, which explores
//! interleavings but not the memory model.
use arraystring::prelude::*;
use mc_core::engine::*;
use mc_core::ext::Out;

#[global_allocator]
static ALLOC: Counting = Counting;

pub struct Table {
    ty: &'static str,
    key: usize,
    size: usize,
    put: fn(*mut u8, &str),
    go: fn(usize, *mut u8, &mut Out),
    name: fn(usize) -> &'static str,
    starts: Vec<&'static str>,
    n: usize,
}
mc_core::bodies!("../../body/steps.rs"; t5 5 ArrayString<5>, t23 23 ArrayString<23>, cache 256 CacheString);

#[repr(align(64))]
struct Room([u8; 256]);

fn act(t: &Table, k: usize, text: &str) -> Vec<u8> {
    let mut room = Room([0; 256]);
    (t.put)(&mut room.0 as *mut u8, text);
    let mut out = Out::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (t.go)(k, &mut room.0 as *mut u8, &mut out)));
    if r.is_err() {
        return b"panic".to_vec();
    }
    out.bytes().to_vec()
}

fn shared<S: Sync + AsRef<str> + std::fmt::Display + std::hash::Hash + Ord>(s: &S) -> (String, u64, String, bool) {
    use std::hash::{BuildHasher, BuildHasherDefault};
    let h = BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().hash_one(s);
    (s.as_ref().to_string(), h, format!("{:>9}", s), s == s)
}

fn main() {
    let prop = std::env::args().nth(1).unwrap();
    let all = std::env::args().any(|x| x == "deep");
    init(&prop);
    let tables = [t5::table(), t23::table(), cache::table()];
    let mut st = Stats::default();
    for (x, y) in [(0, 0), (1, 1), (2, 2), (2, 1)] {
        if !all && x == 1 || !all && x == 2 && y == 2 {
            continue;
        }
        let (tx, ty) = (&tables[x], &tables[y]);
        for k in 0..tx.n {
            let bs = if all { vec![k, (k + 1) % ty.n, (k + 13) % ty.n, (k + 29) % ty.n] } else { vec![(k + (x != y) as usize) % ty.n] };
            for b in bs {
                let (ta, tb) = (tx.starts[0], ty.starts[k % ty.starts.len()]);
                let code = || format!("// thread 1: {} on {} {:?}; thread 2: {} on {} {:?}, unsynchronised", (tx.name)(k), tx.ty, ta, (ty.name)(b), ty.ty, tb);
                eprintln!("@@AT {}", code());
                let alone = all || !cfg!(miri);
                let (ea, eb) = if alone { (act(tx, k, ta), act(ty, b, tb)) } else { Default::default() };
                let (ra, rb) = std::thread::scope(|s| {
                    let h = s.spawn(|| act(ty, b, tb));
                    let r = act(tx, k, ta);
                    (r, h.join().unwrap_or_default())
                });
                st.count(0, 0);
                st.states += 1;
                if alone && (&ra, &rb) != (&ea, &eb) {
                    let l = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
                    st.violation(format!("{} / {}: outcome", (tx.name)(k), (ty.name)(b)), 0, &|| (format!("{:?} and {:?}, alone {:?} and {:?}", l(&ra), l(&rb), l(&ea), l(&eb)), code()));
                }
                if st.samples.len() < 4 {
                    st.sample(&code);
                }
            }
        }
    }
    // one string read from two threads
    macro_rules! both {
        ($t:ty) => {{
            let s = <$t>::from_str_truncate("a\u{e9}\u{20ac}\u{1f600} z");
            eprintln!("@@AT // two threads reading one {}", stringify!($t));
            let alone = shared(&s);
            let (a, b) = std::thread::scope(|sc| {
                let h = sc.spawn(|| shared(&s));
                (shared(&s), h.join().unwrap())
            });
            st.count(1, 0);
            st.states += 1;
            if a != alone || b != alone {
                st.violation(format!("reading one {}", stringify!($t)), 0, &|| (format!("{:?} and {:?}, alone {:?}", a, b, alone), "// two threads reading one string".into()));
            }
        }};
    }
    both!(ArrayString<5>);
    both!(ArrayString<255>);
    both!(CacheString);
    finish(&prop, &st, &["unsynchronised threads", "one string read by both"], "every action beside itself and others on two unsynchronised threads, 3 types; two threads reading one string (Miri: data races and undefined behaviour are errors)")
}
