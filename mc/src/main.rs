//! Exhaustive exploration of the editing operations and constructors against a String model.
//! usage: mc <property> <space>...
//!   graph:A-B           complete graph of reachable object states for capacities A..=B
//!   small:A-B:L         every content for capacities A..=B, text arguments of up to L bytes exhaustively
//!   large:SEL:MODE      shaped contents, boundary arguments; SEL all|some, MODE large|sparse
//!   ctor:A-B            constructors for capacities A..=B
//!   tiny:K1,K2,...      few contents and arguments (for the interpreter)
//!   unicode             every Unicode scalar value
//!   pair:MODE[:deep]    CacheString and ArrayString<63> in lockstep (after every operation another one)
//!   convert             conversions between the two
//!   tuples:K            contents made of K noteworthy characters
//!   bump:SEL            longer texts with something special at every position; SEL quick|all
use mc_core::engine::*;
use mc_core::gen::*;
use mc_core::judge::*;
use mc_core::target::*;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

#[global_allocator]
static ALLOC: Counting = Counting;

mc_core::one_target!(cache, CacheString, true);

const CACHE: usize = 256;

fn make(key: usize, end: bool) -> Option<Box<dyn Target>> {
    if key == CACHE {
        return Some(cache::make(end));
    }
    match key % 8 {
        0 => mc_caps0::make(key, end),
        1 => mc_caps1::make(key, end),
        2 => mc_caps2::make(key, end),
        3 => mc_caps3::make(key, end),
        4 => mc_caps4::make(key, end),
        5 => mc_caps5::make(key, end),
        6 => mc_caps6::make(key, end),
        _ => mc_caps7::make(key, end),
    }
}
fn caps(lo: usize, hi: usize) -> Vec<usize> {
    (lo..=hi).filter(|k| make(*k, true).is_some()).collect()
}
fn cap_of(key: usize) -> usize {
    if key == CACHE {
        63
    } else {
        key
    }
}

struct W {
    targets: HashMap<(usize, bool), Box<dyn Target>>,
    bufs: Bufs,
}
impl W {
    fn new() -> W {
        W { targets: HashMap::new(), bufs: Bufs::default() }
    }
    fn take(&mut self, key: usize, end: bool) -> Box<dyn Target> {
        self.targets.remove(&(key, end)).unwrap_or_else(|| make(key, end).expect("capacity not compiled in"))
    }
    fn put(&mut self, key: usize, end: bool, t: Box<dyn Target>) {
        self.targets.insert((key, end), t);
    }
}

/// Put `content` into a target. Where the code under exploration is unable to hold it, the state is
/// skipped: appending to an empty string is explored as an operation of its own.
fn setup(t: &mut dyn Target, content: &str, stale: u8, st: &mut Stats) -> bool {
    let ty = type_name(t);
    let d = || set_code(&ty, content, stale);
    match sut(&d, || t.set(content, stale)) {
        Ok(true) => true,
        _ => {
            st.note("states that could not be built", 1);
            false
        }
    }
}

fn contents(
    a: &Aspect,
    units: Vec<(usize, String, u8)>,
    args: &Args,
    mode: Mode,
    small_max: usize,
    huge: bool,
) -> Stats {
    let fam = a.fams();
    explore(
        &units,
        || (W::new(), Gen::new(args, mode, small_max, huge)),
        |(key, content, stale), (w, g), st| {
            let end = stale % 2 == 0;
            let mut t = w.take(*key, end);
            st.states += 1;
            if setup(&mut *t, content, *stale, st) {
                let ty = type_name(&*t);
                let s = || set_code(&ty, content, *stale);
                if cfg!(miri) {
                    eprintln!("@@AT {}// some operation on this", s());
                }
                let cap = t.cap();
                let b = &mut w.bufs;
                g.ops(cap, content, fam, &mut |op| {
                    if !enough() {
                        step(a, &mut *t, &s, content, op, b, st)
                    }
                });
            }
            w.put(*key, end, t);
        },
    )
}

fn small(a: &Aspect, lo: usize, hi: usize, l: usize) -> Stats {
    let args = Args::new(l);
    let mut units = vec![];
    for key in caps(lo, hi) {
        for c in all_strings(key, false) {
            for stale in 0..4u8 {
                units.push((key, c.clone(), stale));
            }
        }
    }
    units.reverse();
    contents(a, units, &args, Mode::Small, l, false)
}

fn large(a: &Aspect, sel: &str, mode: &str) -> Stats {
    let args = Args::new(4);
    let m = if mode == "large" { Mode::Large } else { Mode::Sparse };
    let mut keys = match sel {
        "all" => caps(1, 255),
        "some" => [13, 15, 16, 17, 23, 31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 254, 255]
            .into_iter()
            .filter(|k| make(*k, true).is_some())
            .collect(),
        "few" => [31, 64, 128, 255].into_iter().filter(|k| make(*k, true).is_some()).collect(),
        _ => caps(8, 64),
    };
    keys.push(CACHE);
    let mut units = vec![];
    for key in keys {
        for (i, c) in large_contents(cap_of(key), m == Mode::Large).into_iter().enumerate() {
            if m == Mode::Large {
                units.push((key, c.clone(), 0));
                units.push((key, c, 1 + (i % 3) as u8));
            } else {
                units.push((key, c, (i % 4) as u8));
            }
        }
    }
    units.reverse();
    contents(a, units, &args, m, if m == Mode::Large { 3 } else { 1 }, m == Mode::Large)
}

/// The least that reaches every decision of every operation and constructor.
fn tiny(a: &Aspect, keys: &[usize]) -> Stats {
    let mut around = vec![0, 1, 2, 3, 4, 5, 6, 256];
    for k in keys {
        let cap = cap_of(*k);
        around.extend([cap, cap + 1, cap + 2, cap / 2, cap / 2 + 1, cap / 2 + 2, (cap - cap / 2) + 1]);
    }
    let args = Args::tiny(&around);
    let mut units = vec![];
    for &key in keys {
        let cap = cap_of(key);
        let all: Vec<String> = if cap <= 5 {
            all_strings(cap, false)
        } else {
            let mut v: Vec<String> = [(0, 0), (cap, 0), (cap, 6), (cap, 3), (cap - 1, 1), (cap / 2, 2), (cap - 4, 9)].iter().map(|(n, p)| shaped(*n, *p, false)).collect();
            v.dedup();
            v
        };
        for (i, c) in all.into_iter().enumerate() {
            units.push((key, c, (i % 4) as u8));
        }
    }
    let mut st = contents(a, units, &args, Mode::Tiny, 4, false);
    let fams = a.ctor_fams();
    let mut units = vec![];
    for &key in keys {
        for (i, f) in [CtorFam::Strict, CtorFam::Trunc, CtorFam::Utf16].into_iter().enumerate() {
            if fams[i] {
                units.push((key, f));
            }
        }
    }
    st.merge(explore(&units, W::new, |(key, f), w, st| {
        let mut t = w.take(*key, true);
        let mut g = Gen::new(&args, Mode::Tiny, 4, false);
        st.states += 1;
        t.set("", 1);
        let b = &mut w.bufs;
        g.ctors(t.cap(), *f, &mut |c| step_ctor(a, &mut *t, c, b, st));
        w.put(*key, true, t);
    }));
    st
}

fn ctor(a: &Aspect, lo: usize, hi: usize, small_hi: usize) -> Stats {
    let args = Args::new(8);
    let fams = a.ctor_fams();
    let mut units = vec![];
    let mut keys = caps(lo, hi);
    if hi >= 63 {
        keys.push(CACHE);
    }
    for key in keys {
        for (i, f) in [CtorFam::Strict, CtorFam::Trunc, CtorFam::Utf16].into_iter().enumerate() {
            if fams[i] {
                units.push((key, f));
            }
        }
    }
    units.reverse();
    explore(&units, W::new, |(key, f), w, st| {
        let mut t = w.take(*key, true);
        let cap = t.cap();
        let mode = if cap <= small_hi { Mode::Small } else { Mode::Sparse };
        let mut g = Gen::new(&args, mode, if cap <= small_hi { 8 } else { 3 }, cap <= small_hi || cap > 250);
        st.states += 1;
        t.set("", 1);
        let b = &mut w.bufs;
        g.ctors(cap, *f, &mut |c| {
            if !enough() {
                step_ctor(a, &mut *t, c, b, st)
            }
        });
        w.put(*key, true, t);
    })
}

/// Every scalar value through the operations that treat characters individually.
fn unicode(a: &Aspect, lite: bool) -> Stats {
    let fam = a.fams();
    let ctors = a.ctor_fams();
    let units: Vec<u32> = (0..0x110000 / 256).collect();
    explore(&units, W::new, |page, w, st| {
        let mut t4 = w.take(4, true);
        let mut t9 = w.take(9, true);
        for cp in page * 256..page * 256 + 256 {
            let Some(c) = char::from_u32(cp) else { continue };
            if enough() {
                break;
            }
            let mut cb = [0u8; 4];
            let cs: &str = c.encode_utf8(&mut cb);
            let n = cs.len();
            let forms = [
                String::new(),
                cs.to_string(),
                format!("a{}", cs),
                format!("{}a", cs),
                format!("{}{}", cs, cs),
                format!(" {} ", cs),
                format!("{}é{}", cs, cs),
                format!("€{}a", cs),
            ];
            for (k, s) in forms.iter().enumerate() {
                for t in [&mut t4, &mut t9] {
                    let t = &mut **t;
                    let cap = t.cap();
                    if s.len() > cap || (k > 4 && cap == 4) || (lite && (cap == 4 || matches!(k, 2 | 6 | 7))) {
                        continue;
                    }
                    st.states += 1;
                    if !setup(t, s, (cp % 4) as u8, st) {
                        continue;
                    }
                    let ty = type_name(t);
                    let code = || set_code(&ty, s, (cp % 4) as u8);
                    let b = &mut w.bufs;
                    let mut go = |op: &Op| step(a, t, &code, s, op, b, st);
                    if fam & F_APP != 0 {
                        go(&Op::TryPush(c));
                        go(&Op::WriteChar(c));
                        go(&Op::TryPushStr(cs));
                        for i in 0..=s.len() {
                            go(&Op::TryInsert(i, c));
                            go(&Op::TryInsertStr(i, cs));
                        }
                    }
                    if fam & F_TRUNC != 0 {
                        go(&Op::PushStrTrunc(cs));
                        go(&Op::ExtendChars(cs));
                        go(&Op::ExtendRefs(&[c, 'z']));
                        go(&Op::ExtendStrs(&[cs, "z"]));
                        for i in 0..=s.len() {
                            go(&Op::InsertStrTrunc(i, cs));
                        }
                    }
                    if fam & F_REPL != 0 {
                        for i in 0..=s.len() {
                            go(&Op::Replace(Rng { form: 0, s: i, e: s.len() }, cs));
                            go(&Op::Replace(Rng { form: 0, s: 0, e: i }, cs));
                        }
                    }
                    if fam & F_REM != 0 {
                        go(&Op::Pop);
                        go(&Op::Trim);
                        go(&Op::Retain(Pred::NotChar(c)));
                        go(&Op::Retain(Pred::Ws));
                        for i in 0..=s.len() {
                            go(&Op::Remove(i));
                            go(&Op::Truncate(i));
                        }
                    }
                    if fam & F_DRAIN != 0 {
                        for i in 0..=s.len() {
                            go(&Op::SplitOff(i));
                            go(&Op::Drain(Rng { form: 0, s: 0, e: i }));
                            go(&Op::Drain(Rng { form: 2, s: i, e: 0 }));
                        }
                    }
                }
            }
            if ctors.iter().any(|x| *x) {
                let lens: &[usize] = if n == 1 { &[1, 2] } else { &[n - 1, n, n + 1] };
                for cap in lens {
                    let mut t = w.take(*cap, true);
                    t.set("", 1);
                    st.states += 1;
                    let b = &mut w.bufs;
                    let mut go = |x: &Ctor| step_ctor(a, &mut *t, x, b, st);
                    let cz = format!("{}z", cs);
                    let zc = format!("z{}", cs);
                    for s in [cs, &cz[..], &zc[..]] {
                        if ctors[0] {
                            go(&Ctor::TryFromStr(s));
                            go(&Ctor::FromStr(s));
                            go(&Ctor::TryFromChars(s));
                            go(&Ctor::TryFromIter(&[s]));
                        }
                        if ctors[1] {
                            go(&Ctor::FromStrTrunc(s));
                            go(&Ctor::From(s));
                            go(&Ctor::FromCharsTrunc(s));
                            go(&Ctor::CollectChars(s));
                            go(&Ctor::FromIterTrunc(&[s]));
                            go(&Ctor::CollectStrs(&["", s]));
                        }
                        if ctors[2] {
                            let u: Vec<u16> = s.encode_utf16().collect();
                            go(&Ctor::TryUtf16(&u));
                            go(&Ctor::Utf16Trunc(&u));
                            go(&Ctor::Utf16Lossy(&u));
                        }
                    }
                    w.put(*cap, true, t);
                }
            }
        }
        if ctors[2] && *page < 256 {
            // every unit, well-formed or not, in every position of a short sequence
            for u in page * 256..page * 256 + 256 {
                let u = u as u16;
                let mut t = w.take(7, true);
                t.set("", 1);
                let b = &mut w.bufs;
                for seq in [
                    &[u][..],
                    &[u, 0x61],
                    &[0x61, u],
                    &[0xd83d, u],
                    &[u, 0xde00],
                    &[u, u],
                    &[0xd83d, 0xde00, u],
                    &[u, 0xd83d, 0xde00],
                    &[0x20ac, 0x20ac, u],
                    &[0x20ac, 0x20ac, 0x61, u],
                    &[0x20ac, 0x20ac, 0x61, 0x61, u],
                ] {
                    step_ctor(a, &mut *t, &Ctor::TryUtf16(seq), b, st);
                    step_ctor(a, &mut *t, &Ctor::Utf16Trunc(seq), b, st);
                    step_ctor(a, &mut *t, &Ctor::Utf16Lossy(seq), b, st);
                }
                w.put(7, true, t);
            }
        }
        w.put(4, true, t4);
        w.put(9, true, t9);
    })
}

/// What stands out of a longer uniform text.
const SPECIALS: [&str; 9] = ["\u{e9}", "\u{20ac}", "\u{1d11e}", " ", "\u{2003}", "\n", "\u{85}", "\0", "\u{feff}"];

/// `len` bytes of uniform text of width `w` with `special` at byte `p` (or the next boundary).
fn bumped(len: usize, w: usize, special: &str, p: usize, arg: bool) -> Option<String> {
    let mut t = String::with_capacity(len);
    let mut k = 0;
    let mut done = special.is_empty();
    while t.len() < len {
        if !done && t.len() >= p {
            if t.len() + special.len() > len {
                return None;
            }
            t.push_str(special);
            done = true;
            continue;
        }
        let next = if !done { p.max(t.len() + 1) } else { len };
        let v = if t.len() + w <= len && (done || t.len() + w <= next) { w } else { 1 };
        t.push(ch(v, k, arg));
        k += 1;
    }
    done.then_some(t)
}

#[derive(Clone, Debug)]
enum Bump {
    /// uniform width, special, position, length
    One(usize, usize, usize, usize),
    /// two specials in an ASCII text, at these positions
    Two(usize, usize, usize, usize, usize),
    /// white space of a kind at both ends: kind, before, after, length
    Ends(usize, usize, usize, usize),
    /// text arguments with a special at a position: content length, width, special, position
    Arg(usize, usize, usize, usize),
    /// UTF-16: length, position
    Units(usize, usize),
}

/// Longer texts with something special at every position.
fn bump(a: &Aspect, all: bool, pair: bool) -> Stats {
    let a = &if pair { Aspect::of("C21").unwrap() } else { *a };
    let fam = a.fams();
    let ctors = a.ctor_fams();
    let mut keys: Vec<usize> = if all { vec![9, 12, 16, 17, 24, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 192, 254, 255] } else { vec![16, 24, 33, 64, 255] };
    keys.retain(|k| make(*k, true).is_some());
    keys.push(CACHE);
    if pair {
        keys = vec![CACHE];
    }
    let mut units = vec![];
    for &key in &keys {
        let cap = cap_of(key);
        let mut lens = vec![cap, cap - 1, cap - 5];
        if all {
            lens.extend([cap - 2, cap - 3, cap - 4, cap / 2, 8]);
        }
        lens.sort();
        lens.dedup();
        for &len in &lens {
            for w in 1..=4 {
                for x in 0..SPECIALS.len() {
                    if w > 1 && !all && x > 3 {
                        continue;
                    }
                    for p in 0..len {
                        units.push((key, Bump::One(w, x, p, len)));
                    }
                }
                if fam & F_REM != 0 {
                    for p in 0..len {
                        // an ASCII character among wide ones
                        units.push((key, Bump::One(w, SPECIALS.len(), p, len)));
                    }
                }
            }
            if cap <= if all { 33 } else { 24 } {
                for p in 0..len {
                    for q in p + 1..len {
                        for (x, y) in [(0, 0), (2, 2), (0, 2), (3, 1), (1, 3), (3, 3), (2, 4)] {
                            units.push((key, Bump::Two(x, p, y, q, len)));
                        }
                    }
                }
            }
            if fam & F_REM != 0 {
                for kind in 0..4 {
                    for i in 0..=len {
                        for j in 0..=len - i {
                            if cap <= 33 || i < 3 || j < 3 || i + j + 3 > len || (all && cap < 130) {
                                units.push((key, Bump::Ends(kind, i, j, len)));
                            }
                        }
                    }
                }
            }
        }
        for content in [0, 1, cap / 2, cap - 1] {
            for w in 1..=4 {
                for x in 0..SPECIALS.len() {
                    if w > 1 && !all && x > 3 {
                        continue;
                    }
                    for p in 0..cap - content + 4 {
                        units.push((key, Bump::Arg(content, w, x, p)));
                    }
                }
            }
        }
        if ctors[2] {
            for len in [cap / 3, cap / 2, cap - 1, cap, cap + 1] {
                for p in 0..=len {
                    units.push((key, Bump::Units(len, p)));
                }
            }
        }
    }
    units.reverse();
    if pair {
        // the same on both types, their observations compared
        let both = |some: &[(usize, Bump)], w: &mut W, st: &mut Stats| -> bool {
            let mut sums = vec![];
            for key in [CACHE, 63] {
                let mut t = w.take(key, true);
                let mut one = Stats::default();
                for (_, bump) in some {
                    bump_one(a, fam, &ctors, &mut *t, bump, &mut w.bufs, &mut one);
                }
                w.put(key, true, t);
                let sum: Vec<u64> = one.digest.iter().skip(key).step_by(NCAP).copied().collect();
                one.digest.clear();
                sums.push((sum, one.ops.clone(), one.notes.clone()));
                st.merge(one);
            }
            sums[0] == sums[1]
        };
        let chunks: Vec<Vec<(usize, Bump)>> = units.chunks(64).map(|c| c.to_vec()).collect();
        return explore(&chunks, W::new, |chunk, w, st| {
            if !both(chunk, w, st) {
                for one in chunk {
                    if !both(std::slice::from_ref(one), w, &mut Stats::default()) {
                        st.violation("observations differ".to_string(), 0, &|| {
                            let what = format!("the same calls on CacheString and on ArrayString<63> give different observations: {:?}", one.1);
                            (what.clone(), format!("// {}", what))
                        });
                        return;
                    }
                }
            }
        });
    }
    explore(&units, W::new, |(key, bump), w, st| {
        if enough() {
            return;
        }
        let mut t = w.take(*key, true);
        bump_one(a, fam, &ctors, &mut *t, bump, &mut w.bufs, st);
        w.put(*key, true, t);
    })
}

fn bump_one(a: &Aspect, fam: u8, ctors: &[bool], t: &mut dyn Target, bump: &Bump, bufs: &mut Bufs, st: &mut Stats) {
    let cap = t.cap();
    let special = |x: usize| *SPECIALS.get(x).unwrap_or(&"~");
    let ty = type_name(t);
    let (content, at): (String, Vec<usize>) = match *bump {
        Bump::One(w, x, p, len) => match bumped(len, w, special(x), p, false) {
            Some(s) => {
                let at = s.find(special(x)).unwrap_or(0);
                let n = special(x).len();
                (s, (at.saturating_sub(1)..=at + n + 1).collect())
            }
            None => return,
        },
        Bump::Two(x, p, y, q, len) => {
            let (x, y) = (special(x), special(y));
            let Some(mut s) = bumped(len, 1, "", 0, false) else { return };
            if p + x.len() > q || q + y.len() > len {
                return;
            }
            s.replace_range(q..q + y.len(), y);
            s.replace_range(p..p + x.len(), x);
            (s, vec![p, p + x.len(), q, q + y.len()])
        }
        Bump::Ends(kind, i, j, len) => {
            let space = |n: usize| -> String {
                match kind {
                    0 => " ".repeat(n),
                    1 => "\u{2003}".repeat(n / 3) + &"\t".repeat(n % 3),
                    2 => " ".repeat(n % 2) + &"\u{85}".repeat(n / 2),
                    // what only looks like white space, next to what is
                    _ => " ".repeat(n / 2) + &"\u{1f}".repeat(n - n / 2),
                }
            };
            let Some(mid) = bumped(len - i - j, 1 + (i + j) % 4, "", 0, false) else { return };
            (format!("{}{}{}", space(i), mid, space(j)), vec![])
        }
        Bump::Arg(content, w, x, p) => {
            let Some(s) = bumped(content, 1, "", 0, false) else { return };
            if !setup(t, &s, 2, st) {
                return;
            }
            st.states += 1;
            let code = || set_code(&ty, &s, 2);
            let free = cap - content;
            for n in free.saturating_sub(1)..=free + 3 {
                let Some(arg) = bumped(n, w, special(x), p, true) else { continue };
                if p + 2 * 4 < n && p % 8 != 7 && n != free && n != free + 2 {
                    continue;
                }
                let mid = content / 2;
                let mut go = |op: &Op| step(a, t, &code, &s, op, bufs, st);
                if fam & F_APP != 0 {
                    go(&Op::TryPushStr(&arg));
                    go(&Op::WriteStr(&arg));
                    go(&Op::TryInsertStr(mid, &arg));
                }
                if fam & F_TRUNC != 0 {
                    go(&Op::PushStrTrunc(&arg));
                    go(&Op::Add(&arg));
                    go(&Op::InsertStrTrunc(mid, &arg));
                    go(&Op::InsertStrTrunc(0, &arg));
                    go(&Op::ExtendChars(&arg));
                    go(&Op::ExtendStrs(&[&arg, "z"]));
                }
                if fam & F_REPL != 0 {
                    for (f, u) in [(mid, mid), (0, content), (mid, content), (0, mid)] {
                        go(&Op::Replace(Rng { form: 0, s: f, e: u }, &arg));
                    }
                }
                if content == 0 {
                    if ctors[0] {
                        step_ctor(a, t, &Ctor::TryFromStr(&arg), bufs, st);
                        step_ctor(a, t, &Ctor::TryFromChars(&arg), bufs, st);
                        step_ctor(a, t, &Ctor::TryFromIter(&[&arg]), bufs, st);
                    }
                    if ctors[1] {
                        step_ctor(a, t, &Ctor::FromStrTrunc(&arg), bufs, st);
                        step_ctor(a, t, &Ctor::From(&arg), bufs, st);
                        step_ctor(a, t, &Ctor::FromCharsTrunc(&arg), bufs, st);
                        step_ctor(a, t, &Ctor::CollectChars(&arg), bufs, st);
                        step_ctor(a, t, &Ctor::FromIterTrunc(&["", &arg, "z"]), bufs, st);
                    }
                }
            }
            return;
        }
        Bump::Units(len, p) => {
            st.states += 1;
            for bg in [0x61u16, 0xe9, 0x20ac] {
                for odd in [&[0xd83du16, 0xde00][..], &[0xd83d], &[0xde00], &[0xd83d, 0x61], &[0xde00, 0xd83d], &[0xd83d, 0xd83d, 0xde00], &[0xffff], &[0x7f], &[0x7ff]] {
                    let mut u = vec![bg; len];
                    let n = odd.len().min(len - p);
                    u.splice(p..p + n, odd.iter().copied());
                    step_ctor(a, t, &Ctor::TryUtf16(&u), bufs, st);
                    step_ctor(a, t, &Ctor::Utf16Trunc(&u), bufs, st);
                    step_ctor(a, t, &Ctor::Utf16Lossy(&u), bufs, st);
                }
            }
            return;
        }
    };
    st.states += 1;
    let stale = (at.first().copied().unwrap_or(0) % 4) as u8;
    if !setup(t, &content, stale, st) {
        return;
    }
    let len = content.len();
    let code = || set_code(&ty, &content, stale);
    let mut idx: Vec<usize> = at;
    idx.extend([0, len]);
    idx.retain(|i| *i <= len);
    idx.sort();
    idx.dedup();
    let mut go = |op: &Op| step(a, t, &code, &content, op, bufs, st);
    if fam & F_REM != 0 {
        go(&Op::Trim);
        go(&Op::Pop);
        go(&Op::Retain(Pred::Ws));
        if !matches!(bump, Bump::Ends(..)) {
            for k in 2..5 {
                go(&Op::Retain(Pred::Mod(k)));
            }
            if let Some(c) = content.chars().nth(1) {
                go(&Op::Retain(Pred::NotChar(c)));
            }
            for i in &idx {
                go(&Op::Remove(*i));
                go(&Op::Truncate(*i));
            }
        }
    }
    if matches!(bump, Bump::Ends(..)) {
        return;
    }
    if fam & F_APP != 0 {
        go(&Op::TryPush('Z'));
        go(&Op::TryPush('\u{ac00}'));
        go(&Op::TryPushStr("\u{400}Z\u{ac00}"));
        for i in &idx {
            go(&Op::TryInsert(*i, 'Z'));
            go(&Op::TryInsert(*i, '\u{10400}'));
            go(&Op::TryInsertStr(*i, "YZ\u{ac00}"));
        }
    }
    if fam & F_TRUNC != 0 {
        go(&Op::PushStrTrunc("Z\u{ac00}\u{10400}"));
        go(&Op::ExtendStrs(&["Z", "\u{ac00}\u{10400}"]));
        for i in &idx {
            go(&Op::InsertStrTrunc(*i, "Z\u{ac00}\u{10400}"));
        }
    }
    if fam & (F_REPL | F_DRAIN) != 0 {
        for i in &idx {
            if fam & F_DRAIN != 0 {
                go(&Op::SplitOff(*i));
            }
            for j in &idx {
                let r = Rng { form: 0, s: *i, e: *j };
                if fam & F_DRAIN != 0 {
                    go(&Op::Drain(r));
                }
                if fam & F_REPL != 0 {
                    for x in ["", "Z", "\u{ac00}", "XY\u{10400}Z"] {
                        go(&Op::Replace(r, x));
                    }
                }
            }
        }
    }
}

/// Contents made of noteworthy characters, through the removals.
fn tuples(a: &Aspect, k: usize) -> Stats {
    let fam = a.fams();
    let chars = interesting();
    let n = chars.len();
    let units: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
    explore(&units, W::new, |(i, j), w, st| {
        let mut t = w.take(16, true);
        let mut tails: Vec<Vec<char>> = vec![vec![]];
        for _ in 2..k {
            let mut more = vec![];
            for x in &tails {
                for c in &chars {
                    let mut y = x.clone();
                    y.push(*c);
                    more.push(y);
                }
            }
            tails = more;
        }
        for tail in &tails {
            if enough() {
                break;
            }
            let mut s = String::new();
            s.push(chars[*i]);
            s.push(chars[*j]);
            s.extend(tail);
            st.states += 1;
            let stale = (s.len() % 4) as u8;
            if !setup(&mut *t, &s, stale, st) {
                continue;
            }
            let ty = type_name(&*t);
            let code = || set_code(&ty, &s, stale);
            let b = &mut w.bufs;
            let mut go = |op: &Op| step(a, &mut *t, &code, &s, op, b, st);
            if fam & F_REM != 0 {
                go(&Op::Trim);
                go(&Op::Pop);
                go(&Op::Remove(0));
                go(&Op::Retain(Pred::NotChar(chars[*j])));
                go(&Op::Retain(Pred::Ws));
                for m in 0..s.len() {
                    go(&Op::Truncate(m));
                }
            }
            if fam & F_DRAIN != 0 {
                for m in 0..=s.len() {
                    go(&Op::SplitOff(m));
                    go(&Op::Drain(Rng { form: 3, s: 0, e: m }));
                }
            }
            if fam & F_REPL != 0 {
                let l = chars[*i].len_utf8();
                go(&Op::Replace(Rng { form: 0, s: 0, e: l }, "\u{feff}"));
                go(&Op::Replace(Rng { form: 0, s: l, e: l }, "\u{ac00}Z"));
            }
        }
        w.put(16, true, t);
    })
}

/// Object states: the raw bytes of a string.
type Raw = [u8; 16];

/// The complete graph of object states reachable from `new()` for one capacity, by breadth-first
/// search: states are deduplicated by raw memory, so leftovers behind the content count.
/// Afterwards every state's shortest history is replayed on a fresh object without any snapshot.
fn graph(a: &Aspect, cap: usize, limit: usize, bounds: &mut String) -> Stats {
    let fam = a.fams();
    let args = Args::graph(cap + 1);
    let probe = make(cap, true).unwrap();
    let rl = probe.raw_len();
    if rl > 16 {
        bounds.push_str(&format!(" graph N={} skipped (object of {} bytes)", cap, rl));
        return Stats::default();
    }
    drop(probe);
    let mut total = Stats::default();
    let mut first = make(cap, true).unwrap();
    let mut r0: Raw = [0; 16];
    if !first.set("", 0) {
        return total;
    }
    first.read_raw(&mut r0[..rl]);
    // parent and the number of the operation that led here
    let mut seen: HashMap<Raw, (Raw, u32)> = HashMap::new();
    seen.insert(r0, (r0, u32::MAX));
    let mut frontier = vec![r0];
    let mut depth = 0;
    let mut complete = true;
    while !frontier.is_empty() && !enough() {
        depth += 1;
        let chunks: Vec<Vec<Raw>> = frontier.chunks(16).map(|c| c.to_vec()).collect();
        let found: Mutex<HashMap<Raw, (Raw, u32)>> = Mutex::new(HashMap::new());
        let seen_ref = &seen;
        let st = explore(
            &chunks,
            || (W::new(), Gen::new(&args, Mode::Graph, cap + 1, false), HashSet::<Raw>::new()),
            |chunk, (w, g, local), st| {
                let mut t = w.take(cap, true);
                let mut mine: Vec<(Raw, Raw, u32)> = vec![];
                for raw in chunk {
                    t.write_raw(&raw[..rl]);
                    t.save();
                    st.states += 1;
                    if t.bytes().len() > cap {
                        continue;
                    }
                    let Ok(content) = String::from_utf8(t.bytes().to_vec()) else { continue };
                    let ty = type_name(&*t);
                    let raw2 = *raw;
                    let code = || {
                        format!(
                            "// object bytes {:?}, reached by a history of public calls\nlet mut s = {}::new(); // content {:?}\n",
                            &raw2[..rl], ty, content
                        )
                    };
                    let b = &mut w.bufs;
                    let mut k = 0u32;
                    g.ops(cap, &content, fam | F_APP | F_REM, &mut |op| {
                        k += 1;
                        if enough() {
                            return;
                        }
                        step(a, &mut *t, &code, &content, op, b, st);
                        let mut r: Raw = [0; 16];
                        t.read_raw(&mut r[..rl]);
                        if r != *raw && !seen_ref.contains_key(&r) && local.insert(r) {
                            mine.push((r, *raw, k - 1));
                        }
                    });
                }
                let mut f = found.lock().unwrap();
                for (r, p, k) in mine {
                    let e = f.entry(r).or_insert((p, k));
                    if (p, k) < *e {
                        *e = (p, k);
                    }
                }
                drop(f);
                w.put(cap, true, t);
            },
        );
        total.merge(st);
        let found = found.into_inner().unwrap();
        let mut next: Vec<Raw> = found.keys().copied().collect();
        next.sort();
        seen.extend(found);
        if seen.len() > limit {
            complete = false;
            break;
        }
        frontier = next;
    }
    let states = seen.len() as u64;
    // replay
    let mut all: Vec<Raw> = seen.keys().copied().collect();
    all.sort();
    let chunks: Vec<Vec<Raw>> = all.chunks(64).map(|c| c.to_vec()).collect();
    let seen_ref = &seen;
    if !enough() && total.nviols == 0 {
        let st = explore(
            &chunks,
            || (W::new(), Gen::new(&args, Mode::Graph, cap + 1, false)),
            |chunk, (w, g), st| {
                for raw in chunk {
                    let mut path = vec![];
                    let mut r = *raw;
                    while r != r0 {
                        let (p, k) = seen_ref[&r];
                        path.push((p, k, r));
                        r = p;
                    }
                    path.reverse();
                    let mut t = make(cap, true).unwrap();
                    t.set("", 0);
                    for (p, k, r) in path {
                        let content = String::from_utf8_lossy(t.bytes()).to_string();
                        let b = &mut w.bufs;
                        let mut i = 0u32;
                        let _ = p;
                        g.ops(cap, &content, fam | F_APP | F_REM, &mut |op| {
                            if i == k {
                                let obs = &mut b.obs;
                                let t = &mut *t;
                                let _ = sut(&|| op_code(op), move || t.apply(op, obs));
                            }
                            i += 1;
                        });
                        let mut now: Raw = [0; 16];
                        t.read_raw(&mut now[..rl]);
                        if now != r {
                            st.note("replay_divergence", 1);
                        }
                    }
                    st.note("histories_replayed", 1);
                }
            },
        );
        total.merge(st);
    }
    total.note(&format!("graph_states_cap{}", cap), states);
    total.note("graph_states", states);
    bounds.push_str(&format!(
        " graph N={}: {} object states, depth {}{};",
        cap,
        states,
        depth,
        if complete { ", complete" } else { ", stopped at the state limit" }
    ));
    total
}

/// The cache-line string and the array string of its capacity in lockstep: every content, every
/// operation and constructor, results and contents compared with each other (there is no model here).
/// With `deep`, every operation is followed by every operation of a second, sparser set.
fn pair(mode: Mode, deep: bool, dense: bool) -> Stats {
    let args = Args::new(4);
    let mut units: Vec<(String, u8)> = vec![];
    let mut texts = all_strings(if dense { 7 } else { 5 }, false);
    texts.retain(|s| s.len() <= 63);
    for c in large_contents(63, true) {
        if !texts.contains(&c) {
            texts.push(c);
        }
    }
    for (i, c) in texts.into_iter().enumerate() {
        if deep && !dense {
            units.push((c, (i % 4) as u8));
        } else {
            for k in 0..4 {
                units.push((c.clone(), k));
            }
        }
    }
    let tiny = Args::new(1);
    // object states whose second step has been explored
    let met: Mutex<HashSet<[u8; 64]>> = Mutex::new(HashSet::new());
    struct Two {
        x: Box<dyn Target>,
        y: Box<dyn Target>,
        a: Obs,
        b: Obs,
    }
    fn both(t: &mut Two, name: &str, idx: usize, st: &mut Stats, code: &dyn Fn() -> String, f: &dyn Fn(&mut dyn Target, &mut Obs)) {
        let Two { x, y, a, b } = t;
        x.restore();
        y.restore();
        let r = sut(&|| format!("// on CacheString\n{}", code()), || f(&mut **x, a));
        if r.is_err() {
            a.ret = Ret::Panic;
        }
        let r = sut(&|| format!("// on ArrayString<63>\n{}", code()), || f(&mut **y, b));
        if r.is_err() {
            b.ret = Ret::Panic;
        }
        st.count(idx, a.ret.class());
        let class = if a.ret != b.ret {
            "result differs"
        } else if a.ret == Ret::Text && a.text != b.text || a.ret == Ret::Unit && a.text != b.text {
            "result text differs"
        } else if x.bytes() != y.bytes() || x.size() != y.size() {
            "content differs"
        } else {
            return;
        };
        let what = format!(
            "on CacheString {:?} {:?} and content {:?}; on ArrayString<63> {:?} {:?} and content {:?}",
            a.ret, a.text, String::from_utf8_lossy(x.bytes()), b.ret, b.text, String::from_utf8_lossy(y.bytes())
        );
        st.violation(format!("{}: {}", name, class), code().len(), &|| (what.clone(), code()));
    }
    explore(
        &units,
        || (Two { x: make(CACHE, true).unwrap(), y: make(63, true).unwrap(), a: Obs::default(), b: Obs::default() }, Gen::new(&args, mode, 3, true), Gen::new(&tiny, Mode::Sparse, 1, false)),
        |(content, stale), (t, g, g2), st| {
            st.states += 1;
            if !setup(&mut *t.x, content, *stale, st) || !setup(&mut *t.y, content, *stale, st) {
                return;
            }
            let head = || set_code("CacheString", content, *stale);
            let (mut bx, mut by) = ([0u8; 64], [0u8; 64]);
            t.x.read_raw(&mut bx);
            t.y.read_raw(&mut by);
            g.ops(63, content, F_ALL, &mut |op| {
                if enough() {
                    return;
                }
                let code = || format!("{}let r = {};", head(), op_code(op));
                both(t, OP_NAMES[op.idx()], op.idx(), st, &code, &|t, o| t.apply(op, o));
                if !deep || t.x.bytes() == content.as_bytes() {
                    return;
                }
                let Ok(now) = String::from_utf8(t.x.bytes().to_vec()) else { return };
                if now.len() > 63 {
                    return;
                }
                let mut raw = [0u8; 64];
                t.x.read_raw(&mut raw);
                if !met.lock().unwrap().insert(raw) {
                    return;
                }
                t.x.save();
                t.y.save();
                st.states += 1;
                g2.ops(63, &now, F_ALL, &mut |op2| {
                    let code = || format!("{}let _ = {};\nlet r = {};", head(), op_code(op), op_code(op2));
                    both(t, OP_NAMES[op2.idx()], op2.idx(), st, &code, &|t, o| t.apply(op2, o));
                });
                t.x.write_raw(&bx);
                t.y.write_raw(&by);
                t.x.save();
                t.y.save();
            });
            if *stale != 0 || !content.is_empty() || deep {
                return;
            }
            for f in [CtorFam::Strict, CtorFam::Trunc, CtorFam::Utf16] {
                let mut g = Gen::new(&args, Mode::Large, 8, true);
                g.ctors(63, f, &mut |c| {
                    let code = || format!("let r = {};", ctor_code("CacheString", c));
                    both(t, CTOR_NAMES[c.idx()], OP_NAMES.len() + c.idx(), st, &code, &|t, o| {
                        t.construct(c, o);
                        if o.ret.is_err() {
                            t.restore();
                        }
                    });
                });
            }
        },
    )
}

/// Converting between the two types keeps the text, and the views through deref are the same text.
fn convert() -> Stats {
    use arraystring::prelude::*;
    let mut texts = all_strings(6, false);
    texts.extend(large_contents(63, true));
    explore(&texts, || (), |content, _, st| {
        st.states += 1;
        let text = &content[..];
        let code = || format!("let s = ArrayString::<63>::try_from_str({:?}).unwrap(); let r = CacheString::from(s);", text);
        for stale in 0..4 {
            let mut t = make(63, true).unwrap();
            if !setup(&mut *t, text, stale, st) {
                continue;
            }
            let mut raw = [0u8; 64];
            t.read_raw(&mut raw);
            let a: ArrayString<63> = unsafe { std::mem::transmute_copy(&raw) };
            let r = sut(&code, || {
                let c = CacheString::from(a);
                let d: CacheString = a.into();
                let mut e = c;
                let back: ArrayString<63> = *c;
                let view = c.as_str() == text && d.as_str() == text && AsRef::<str>::as_ref(&c) == text && &*back == text && back == *d;
                let same = c == d && *c == a && c.len() == a.len();
                e.as_mut_str().make_ascii_uppercase();
                let mut f = a;
                f.as_mut_str().make_ascii_uppercase();
                let edits = e.as_str() == f.as_str() && c.as_str() == text && *e == f;
                *e = a;
                (view, same, edits, e.as_str() == text)
            });
            st.count(OP_NAMES.len(), if r.is_ok() { 0 } else { 4 });
            if r.as_ref().ok() != Some(&(true, true, true, true)) {
                let what = format!("converting between the two types does not keep the text or the views differ: {:?}", r);
                st.violation("conversion".into(), text.len(), &|| (what.clone(), code()));
            }
        }
    })
}

fn span(s: &str) -> (usize, usize) {
    let mut p = s.split('-').map(|x| x.parse::<usize>().expect("number"));
    let a = p.next().unwrap();
    (a, p.next().unwrap_or(a))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = &args[1];
    init(prop);
    let a = Aspect::of(prop).expect("unknown property");
    let mut total = Stats::default();
    let mut bounds = String::new();
    for sp in &args[2..] {
        if total.nviols > 0 {
            break;
        }
        let t0 = std::time::Instant::now();
        let f: Vec<&str> = sp.split(':').collect();
        let st = match f[0] {
            "graph" => {
                let (lo, hi) = span(f[1]);
                let limit = f.get(2).map(|x| x.parse().unwrap()).unwrap_or(2_000_000);
                let mut t = Stats::default();
                for n in lo..=hi {
                    t.merge(graph(&a, n, limit, &mut bounds));
                }
                t
            }
            "small" => {
                let (lo, hi) = span(f[1]);
                small(&a, lo, hi, f[2].parse().unwrap())
            }
            "large" => large(&a, f[1], f[2]),
            "ctor" => {
                let (lo, hi) = span(f[1]);
                ctor(&a, lo, hi, f[2].parse().unwrap())
            }
            "tiny" => tiny(&a, &f[1].split(',').map(|k| k.parse().unwrap()).collect::<Vec<_>>()),
            "unicode" => unicode(&a, f.get(1) == Some(&"lite")),
            "pair" => pair(if f[1] == "large" { Mode::Large } else { Mode::Sparse }, f.get(2) == Some(&"deep"), f.get(3) == Some(&"dense")),
            "convert" => convert(),
            "bump" => bump(&a, f[1] == "all", prop == "C17"),
            "tuples" => tuples(&a, f[1].parse().unwrap()),
            _ => panic!("unknown space"),
        };
        if f[0] != "graph" {
            bounds.push_str(&format!(" {}: {} contents, {} transitions;", sp, st.states, st.transitions));
        }
        eprintln!("{} {}: states {} transitions {} violations {} in {:?}", prop, sp, st.states, st.transitions, st.nviols, t0.elapsed());
        total.merge(st);
    }
    let names: Vec<&str> = OP_NAMES.iter().chain(CTOR_NAMES.iter()).copied().collect();
    finish(prop, &total, &names, bounds.trim())
}
