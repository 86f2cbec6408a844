// Callers that misbehave: iterators that lie, resume or panic, predicates and views that panic, text
// and range arguments whose answers change between calls. Whatever they do, the string stays valid,
// holds nothing it was not given, and goes on working.
use mc_core::target::Place;
use std::cell::Cell;
use std::fmt::{self, Display, Write};
use std::ops::{Bound, RangeBounds};
use std::panic::panic_any;

const HINT: usize = 0;
const RESUME: usize = 1;
const PANIC_IT: usize = 2;
const PANIC_FN: usize = 3;
const SHIFTY: usize = 4;
const RANGES: usize = 5;
const FMT: usize = 6;
const AFTER: usize = 7;
const UTF16: usize = 8;

pub fn units(deep: bool, mini: bool) -> usize {
    list(deep, mini).len()
}
fn list(deep: bool, mini: bool) -> Vec<String> {
    let mut v = texts(T::capacity(), 4, deep, mini);
    if T::capacity() > 8 && !deep {
        v = spread(&v.iter().map(|s| &s[..]).collect::<Vec<_>>(), 14).into_iter().map(|s| s.to_string()).collect();
    }
    v
}

// ---- misbehaving things ----

struct Lying<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Lying<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
const HINTS: [(usize, Option<usize>); 7] =
    [(0, Some(0)), (0, None), (1, Some(1)), (300, Some(2)), (usize::MAX, None), (usize::MAX, Some(usize::MAX)), (256, Some(256))];

/// Ends after `k` items, then goes on.
struct Resuming<'a, X> {
    items: &'a [X],
    i: usize,
    stop: usize,
    stopped: usize,
}
impl<X: Copy> Iterator for Resuming<'_, X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        if self.i == self.stop && self.stopped < 2 {
            self.stopped += 1;
            return None;
        }
        let r = self.items.get(self.i).copied();
        self.i += 1;
        r
    }
}
/// Panics at the k-th item.
struct Bomb<'a, X> {
    items: &'a [X],
    i: usize,
    at: usize,
}
pub struct Boom;
impl<X: Copy> Iterator for Bomb<'_, X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        if self.i == self.at {
            panic_any(Boom);
        }
        let r = self.items.get(self.i).copied();
        self.i += 1;
        r
    }
}
/// Another answer at every call; `None` panics.
#[derive(Clone)]
struct Shifty<'a>(Cell<usize>, [Option<&'a str>; 3]);
impl<'a> Shifty<'a> {
    fn new(a: [Option<&'a str>; 3]) -> Self {
        Shifty(Cell::new(0), a)
    }
}
impl AsRef<str> for Shifty<'_> {
    fn as_ref(&self) -> &str {
        let i = self.0.get();
        self.0.set(i + 1);
        match self.1[i.min(2)] {
            Some(s) => s,
            None => panic_any(Boom),
        }
    }
}
struct Shifty16<'a>(Cell<usize>, [&'a [u16]; 2]);
impl AsRef<[u16]> for Shifty16<'_> {
    fn as_ref(&self) -> &[u16] {
        let i = self.0.get();
        self.0.set(i + 1);
        self.1[i.min(1)]
    }
}
/// Ends which change at every question.
struct Moving {
    n: [Cell<usize>; 2],
    s: [(u8, usize); 2],
    e: [(u8, usize); 2],
}
fn bound(k: u8, x: &usize) -> Bound<&usize> {
    match k {
        0 => Bound::Included(x),
        1 => Bound::Excluded(x),
        2 => Bound::Unbounded,
        _ => panic_any(Boom),
    }
}
impl RangeBounds<usize> for Moving {
    fn start_bound(&self) -> Bound<&usize> {
        let i = self.n[0].get();
        self.n[0].set(i + 1);
        let b = &self.s[i.min(1)];
        bound(b.0, &b.1)
    }
    fn end_bound(&self) -> Bound<&usize> {
        let i = self.n[1].get();
        self.n[1].set(i + 1);
        let b = &self.e[i.min(1)];
        bound(b.0, &b.1)
    }
}
/// Writes its pieces; at `at` it panics (or fails).
struct Pieces<'a> {
    items: &'a [&'a str],
    at: usize,
    fail: bool,
    seen: Cell<usize>,
}
impl Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for (i, p) in self.items.iter().enumerate() {
            if i == self.at {
                if self.fail {
                    return Err(fmt::Error);
                }
                panic_any(Boom);
            }
            // an error that is ignored
            if f.write_str(p).is_err() {
                self.seen.set(self.seen.get() + 1);
            }
        }
        Ok(())
    }
}

// ---- judging ----

struct Obj {
    place: Place,
    base: T,
}
impl Obj {
    fn s(&self) -> &'static mut T {
        unsafe { &mut *(self.place.at as *mut T) }
    }
    fn reset(&self) -> &'static mut T {
        unsafe { (self.place.at as *mut T).write(self.base) };
        self.s()
    }
}

/// The string holds valid text within capacity, made of `given` characters only.
fn sound(cx: &mut Cx, op: usize, size: usize, s: &T, given: &[&str], code: &dyn Fn() -> String) -> bool {
    let cap = T::capacity();
    let b: &[u8] = s.as_ref();
    let n = b.len();
    // whatever the property, an unsound string is not looked at any further
    let report = cx.functional || matches!(cx.prop, "C01" | "C13");
    if n > cap || s.len() > cap {
        if report {
            cx.report(op, "length beyond capacity", size, &|| format!("length {} exceeds the capacity {}", n, cap), code);
        }
        return false;
    }
    let Ok(t) = std::str::from_utf8(b) else {
        if report {
            cx.report(op, "invalid UTF-8", size, &|| format!("the content is not valid UTF-8: {:x?}", b), code);
        }
        return false;
    };
    let strange = t.chars().find(|c| !given.iter().any(|g| g.contains(*c)));
    cx.check(strange.is_none(), op, "foreign text", size, &|| format!("the content {:?} has {:?}, which it never had nor was given", t, strange), code);
    strange.is_none()
}

/// The string still works as a string holding its text does.
fn usable(cx: &mut Cx, obj: &Obj, size: usize, code: &dyn Fn() -> String) {
    let s = obj.s();
    let text = s.as_str().to_string();
    let cap = T::capacity();
    let mut m = text.clone();
    let Some(r) = cx.call(AFTER, code, || s.try_push('Q').is_ok()) else { return };
    if m.len() < cap {
        m.push('Q');
    }
    cx.same(AFTER, "push afterwards", size, &(r, s.as_str()), &(text.len() < cap, &m[..]), code);
    let Some(r) = cx.call(AFTER, code, || s.pop()) else { return };
    let p = m.pop();
    cx.same(AFTER, "pop afterwards", size, &(r, s.as_str()), &(p, &m[..]), code);
    if cx.call(AFTER, code, || s.clear()).is_some() {
        cx.same(AFTER, "clear afterwards", size, &(s.len(), s.as_str()), &(0, ""), code);
    }
    let Some(r) = cx.call(AFTER, code, || s.try_push_str(text.as_str()).is_ok()) else { return };
    cx.same(AFTER, "filled again", size, &(r, s.as_str()), &(true, &text[..]), code);
    cx.always(obj.place.intact(), AFTER, "writes outside", size, &|| "bytes next to the string were overwritten".into(), code);
    if !obj.place.intact() {
        obj.place.repair();
    }
}

fn args(free: usize, cap: usize) -> Vec<&'static str> {
    thread_local!(static MEMO: std::cell::RefCell<std::collections::HashMap<(usize, usize), Vec<&'static str>>> = Default::default());
    MEMO.with(|m| {
        m.borrow_mut()
            .entry((free, cap))
            .or_insert_with(|| {
                let mut v = vec![String::new(), "A".into(), "\u{400}".into(), "\u{ac00}".into(), "\u{10400}".into()];
                for n in [free, free + 1, cap + 1, 300] {
                    v.push(shaped(n, [0, 3, 2, 1][n % 4], true));
                }
                v.sort();
                v.dedup();
                v.iter().map(|s| gstr(s)).collect()
            })
            .clone()
    })
}

pub fn run(u: usize, cx: &mut Cx) {
    let all = list(cx.deep, cx.mini);
    let text = &all[u][..];
    let len = text.len();
    let cap = T::capacity();
    let free = cap - len;
    let size = len;
    cx.ctx = hash_bytes(7, text.as_bytes());
    let base = mc_core::build!(T, text, 2u8);
    let obj = Obj { place: Place::new(std::mem::size_of::<T>(), std::mem::align_of::<T>(), u % 2 == 0), base };
    let head = || mc_core::judge::set_code(TY, text, 2);
    let filler: String = shaped(cap, 9, true);
    let chars: Vec<char> = filler.chars().chain("XY\u{10450}".chars()).collect();
    let given: String = chars.iter().collect();
    let words: Vec<&str> = vec!["A", "", "\u{400}B", "\u{ac00}\u{10400}", "CDEF", "\u{ac01}"];
    let wgiven = words.concat();
    // every result is decided by the items themselves
    for h in HINTS {
        let code = |what: &str| format!("{}// with an iterator over {:?} whose size_hint() is {:?}: {}\n", head(), given, h, what);
        macro_rules! hint {
            ($what:literal, $build:expr, $want:expr) => {{
                let c = || code($what);
                let got: Option<Option<T>> = cx.call(HINT, &c, || $build);
                if let Some(g) = got {
                    if let Some(g) = &g {
                        sound(cx, HINT, size, g, &[text, &given, &wgiven], &c);
                    }
                    let w: Option<&str> = $want;
                    cx.same(HINT, "content", size, &g.as_ref().map(|g| g.as_str()), &w, &c);
                }
            }};
        }
        let some: String = chars[..chars.len().min(3)].iter().collect();
        let few = &chars[..chars.len().min(3)];
        if u == 0 {
            hint!("from_chars_truncate", Some(T::from_chars_truncate(Lying(chars.iter().copied(), h))), Some(floor(&given, cap)));
            hint!("collect", Some(Lying(chars.iter().copied(), h).collect::<T>()), Some(floor(&given, cap)));
            hint!("try_from_chars", T::try_from_chars(Lying(chars.iter().copied(), h)).ok(), None);
            hint!("try_from_chars of the first three", T::try_from_chars(Lying(few.iter().copied(), h)).ok(), (some.len() <= cap).then_some(&some[..]));
            hint!("from_iterator_truncate", Some(T::from_iterator_truncate(Lying(words.iter(), h))), Some(floor(&wgiven, cap)));
            hint!("collect of texts", Some(Lying(words.iter().copied(), h).collect::<T>()), Some(floor(&wgiven, cap)));
            hint!("try_from_iterator", T::try_from_iterator(Lying(words.iter(), h)).ok(), (wgiven.len() <= cap).then_some(&wgiven[..]));
        }
        let (c2, w2) = (format!("{}{}", text, given), format!("{}{}", text, wgiven));
        macro_rules! ext {
            ($what:literal, $e:expr, $want:expr) => {{
                let c = || code($what);
                let s = obj.reset();
                let s2: &mut T = &mut *s;
                if cx.call(HINT, &c, || $e(s2)).is_some() {
                    sound(cx, HINT, size, s, &[text, &given, &wgiven], &c);
                    cx.same(HINT, "content", size, &s.as_str(), &floor($want, cap), &c);
                    usable(cx, &obj, size, &c);
                }
            }};
        }
        ext!("extend", |s: &mut T| s.extend(Lying(chars.iter().copied(), h)), &c2);
        ext!("extend of references", |s: &mut T| s.extend(Lying(chars.iter(), h)), &c2);
        ext!("extend of texts", |s: &mut T| s.extend(Lying(words.iter().copied(), h)), &w2);
    }
    // iterators that go on after their end, or panic
    let stops: Vec<usize> = if chars.len() <= 6 { (0..=chars.len()).collect() } else { vec![0, 1, 2, chars.len() / 2, chars.len() - 2, chars.len() - 1, chars.len()] };
    for &k in &stops {
        let code = |what: &str| format!("{}// with an iterator over {:?} that misbehaves at item {}: {}\n", head(), given, k, what);
        macro_rules! odd {
            ($op:expr, $what:literal, $e:expr) => {{
                let c = || code($what);
                let s = obj.reset();
                let s2: &mut T = &mut *s;
                let _ = cx.may_panic($op, &c, || $e(s2));
                if sound(cx, $op, size, s, &[text, &given, &wgiven], &c) {
                    cx.seen_str($op, k as u64, s.as_str());
                    usable(cx, &obj, size, &c);
                }
            }};
        }
        macro_rules! both {
            ($op:expr, $mk:ident) => {{
                odd!($op, "extend", |s: &mut T| s.extend($mk(&chars, k)));
                let refs: Vec<&char> = chars.iter().collect();
                odd!($op, "extend of references", |s: &mut T| s.extend($mk(&refs, k)));
                odd!($op, "extend of texts", |s: &mut T| s.extend($mk(&words, k)));
                if u < 2 {
                    odd!($op, "from_chars_truncate", |s: &mut T| *s = T::from_chars_truncate($mk(&chars, k)));
                    odd!($op, "try_from_chars", |s: &mut T| if let Ok(v) = T::try_from_chars($mk(&chars, k)) { *s = v });
                    odd!($op, "collect", |s: &mut T| *s = $mk(&chars, k).collect());
                    odd!($op, "from_iterator_truncate", |s: &mut T| *s = T::from_iterator_truncate($mk(&words, k)));
                    odd!($op, "try_from_iterator", |s: &mut T| if let Ok(v) = T::try_from_iterator($mk(&words, k)) { *s = v });
                    odd!($op, "collect of texts", |s: &mut T| *s = $mk(&words, k).collect());
                }
            }};
        }
        both!(RESUME, resuming);
        both!(PANIC_IT, bomb);
        // predicates
        for mask in 0..8u32 {
            odd!(PANIC_FN, "retain with a predicate that panics there", |s: &mut T| {
                let mut i = 0;
                s.retain(|_| {
                    if i == k {
                        panic_any(Boom);
                    }
                    i += 1;
                    mask >> (i % 3) & 1 == 1
                })
            });
        }
        odd!(PANIC_FN, "consuming drain() with a closure that panics there", |s: &mut T| {
            let mut i = 0;
            s.drain(..).map(|d| {
                d.for_each(|_| {
                    if i == k {
                        panic_any(Boom);
                    }
                    i += 1;
                })
            })
        });
        // formatting
        for fail in [false, true] {
            let c = || code(if fail { "write!(s, \"{}\", x) where x fails there" } else { "write!(s, \"{}\", x) where x panics there" });
            let s = obj.reset();
            let x = Pieces { items: &words, at: k, fail, seen: Cell::new(0) };
            let s2: &mut T = &mut *s;
            let r = cx.may_panic(FMT, &c, || write!(s2, "{}{}", x, "X"));
            if sound(cx, FMT, size, s, &[text, &wgiven, "X"], &c) {
                // the pieces that fit, one after the other
                let mut want = text.to_string();
                for w in words.iter().take(k) {
                    if want.len() + w.len() <= cap {
                        want.push_str(w);
                    }
                }
                if k >= words.len() && want.len() + 1 <= cap {
                    want.push('X');
                }
                cx.same(FMT, "content", size, &s.as_str(), &&want[..], &c);
                cx.same(FMT, "result", size, &matches!(r, Ok(Ok(()))), &(k >= words.len() && want.ends_with('X') && want.len() > len), &c);
                usable(cx, &obj, size, &c);
            }
        }
        // a view whose user panics
        odd!(PANIC_FN, "a mutable view dropped by a panic", |s: &mut T| {
            let v = s.as_mut_str();
            v.make_ascii_uppercase();
            v.make_ascii_lowercase();
            if k > 0 {
                panic_any(Boom);
            }
        });
    }
    // what follows depends on how often an argument is asked, which is nobody's business to compare
    if matches!(cx.prop, "C17" | "C21") {
        return;
    }
    // texts that change between calls
    let pool = args(free, cap);
    let mut answers: Vec<Option<&str>> = pool.iter().map(|s| Some(*s)).collect();
    answers.push(None);
    let at: Vec<usize> = {
        let mut v = spread(&boundaries(text), 3);
        v.push(len + 1);
        v.push(usize::MAX);
        if len > 1 {
            v.push(1);
        }
        v
    };
    for a in &answers {
        for b in &answers {
            for c in &answers {
                if cx.mini && (b != c || u > 2) {
                    continue;
                }
                if !cx.deep && cap > 8 && (a.is_none() || (b != c && (u % 4 != 0))) {
                    continue;
                }
                let trio = [*a, *b, *c];
                let g: Vec<&str> = trio.iter().filter_map(|x| *x).chain([text]).collect();
                let code = |what: &str| format!("{}// with a text whose as_ref() answers {:?} in turn (None panics): {}\n", head(), trio, what);
                macro_rules! shifty {
                    ($what:literal, $e:expr) => {{
                        let c = || code($what);
                        let s = obj.reset();
                        let s2: &mut T = &mut *s;
                        let x = Shifty::new(trio);
                        let _ = cx.may_panic(SHIFTY, &c, || $e(s2, x));
                        if sound(cx, SHIFTY, size, s, &g, &c) {
                            usable(cx, &obj, size, &c);
                        }
                    }};
                }
                shifty!("try_push_str", |s: &mut T, x| s.try_push_str(x));
                shifty!("push_str_truncate", |s: &mut T, x| s.push_str_truncate(x));
                for &i in &at {
                    shifty!("try_insert_str", |s: &mut T, x| s.try_insert_str(i, x));
                    shifty!("insert_str_truncate", |s: &mut T, x| s.insert_str_truncate(i, x));
                    shifty!("replace_range(i.., x)", |s: &mut T, x| s.replace_range(i.., x));
                    shifty!("replace_range(..i, x)", |s: &mut T, x| s.replace_range(..i, x));
                }
                if u < 2 {
                    shifty!("try_from_str", |s: &mut T, x| if let Ok(v) = T::try_from_str(x) { *s = v });
                    shifty!("from_str_truncate", |s: &mut T, x| *s = T::from_str_truncate(x));
                    shifty!("try_from_iterator", |s: &mut T, x: Shifty| if let Ok(v) = T::try_from_iterator([x.clone(), x]) { *s = v });
                    shifty!("from_iterator_truncate", |s: &mut T, x: Shifty| *s = T::from_iterator_truncate([x.clone(), x]));
                }
            }
        }
    }
    // ranges that change between questions
    let mut ends: Vec<(u8, usize)> = vec![(2, 0), (3, 0)];
    for &i in &at {
        ends.push((0, i));
        ends.push((1, i));
    }
    let two: Vec<[(u8, usize); 2]> = {
        let mut v = vec![];
        for a in &ends {
            for b in if cap <= 8 || cx.deep { &ends[..] } else { &ends[..4] } {
                v.push([*a, *b]);
            }
        }
        v
    };
    let two = if cx.mini { spread(&two, 6) } else if cx.deep || cap <= 8 { two } else { spread(&two, 24) };
    for s_ in &two {
        for e_ in &two {
            let mk = || Moving { n: Default::default(), s: *s_, e: *e_ };
            let code = |what: &str| format!("{}// with a range whose start is {:?} and end {:?} in turn (kinds 0 included 1 excluded 2 unbounded 3 panics): {}\n", head(), s_, e_, what);
            macro_rules! moving {
                ($what:literal, $given:expr, $e:expr) => {{
                    let c = || code($what);
                    let s = obj.reset();
                    let s2: &mut T = &mut *s;
                    let got = cx.may_panic(RANGES, &c, || $e(s2));
                    if let Ok(Some(d)) = &got {
                        let d: &Drain<{ N }> = d;
                        let copy: Option<T> = { let mut t = T::new(); t.try_push_str(d.as_str()).ok().map(|_| t) };
                        cx.check(std::str::from_utf8(d.as_str().as_bytes()).is_ok() && copy.is_some(), RANGES, "iterator text", size, &|| format!("the iterator holds {:x?}", d.as_str().as_bytes()), &c);
                    }
                    if sound(cx, RANGES, size, s, $given, &c) {
                        usable(cx, &obj, size, &c);
                    }
                }};
            }
            moving!("drain", &[text], |s: &mut T| s.drain(mk()).ok());
            for t in spread(&pool, 3) {
                moving!("replace_range", &[text, t], |s: &mut T| { let _ = s.replace_range(mk(), t); None::<Drain<{ N }>> });
            }
        }
    }
    // UTF-16 whose units change between calls
    if u == 0 {
        let seqs: [&[u16]; 7] = [&[], &[0x41], &[0xd800], &[0x42, 0xd83d, 0xde00], &[0x43, 0xdc00, 0x44], &[0xac00; 90], &[0x45; 300]];
        for a in seqs {
            for b in seqs {
                let g = "AB\u{1f600}CD\u{fffd}\u{ac00}E";
                let code = |what: &str| format!("// with units answering {:x?} then {:x?}: {}\n", a, b, what);
                macro_rules! u16s {
                    ($what:literal, $e:expr) => {{
                        let c = || code($what);
                        let s = obj.reset();
                        let s2: &mut T = &mut *s;
                        let x = Shifty16(Cell::new(0), [a, b]);
                        let _ = cx.may_panic(UTF16, &c, || $e(s2, x));
                        if sound(cx, UTF16, size, s, &[text, g], &c) {
                            usable(cx, &obj, size, &c);
                        }
                    }};
                }
                u16s!("try_from_utf16", |s: &mut T, x| if let Ok(v) = T::try_from_utf16(x) { *s = v });
                u16s!("from_utf16_truncate", |s: &mut T, x| if let Ok(v) = T::from_utf16_truncate(x) { *s = v });
                u16s!("from_utf16_lossy_truncate", |s: &mut T, x| *s = T::from_utf16_lossy_truncate(x));
            }
        }
    }
    cx.sample(200_003, &|| format!("{} with misbehaving iterators over {:?}, texts from {} answers cubed, {} moving ends squared", head().replace('\n', " "), given, answers.len(), two.len()));
}
fn resuming<X: Copy>(items: &[X], stop: usize) -> Resuming<'_, X> {
    Resuming { items, i: 0, stop, stopped: 0 }
}
fn bomb<X: Copy>(items: &[X], at: usize) -> Bomb<'_, X> {
    Bomb { items, i: 0, at }
}
const N: usize = if KEY == 256 { 63 } else { KEY };
