// Arguments in all the types callers really use: every range type of std, every kind of text.
use std::borrow::Cow;
use std::ops::Bound::{self, *};
use std::ops::RangeBounds;

const REPLACE: usize = 0;
const DRAIN: usize = 1;
const PUSH: usize = 2;
const INSERT: usize = 3;
const CTOR: usize = 4;
const LIST: usize = 5;

pub fn units(deep: bool, mini: bool) -> usize {
    texts(T::capacity(), 4, deep, mini).len()
}

fn resolve<R: RangeBounds<usize>>(r: &R, text: &str) -> Option<(usize, usize)> {
    let s = match r.start_bound() {
        Included(x) => *x,
        Excluded(x) => x.checked_add(1)?,
        Unbounded => 0,
    };
    let e = match r.end_bound() {
        Included(x) => x.checked_add(1)?,
        Excluded(x) => *x,
        Unbounded => text.len(),
    };
    (s <= e && e <= text.len() && text.is_char_boundary(s) && text.is_char_boundary(e)).then_some((s, e))
}

/// What surrounds the call explored; written once per type so that only the calls are per argument type.
struct Job<'a> {
    text: &'a str,
    s0: T,
    a: usize,
    b: usize,
    u: usize,
}

impl Job<'_> {
    fn head(&self) -> String {
        format!("let mut s = {}::from_str_truncate({:?});\n", TY, self.text)
    }
    #[inline(never)]
    fn drain(&self, cx: &mut Cx, name: &str, at: Option<(usize, usize)>, f: &mut dyn FnMut(&mut T, &mut dyn FnMut(Option<&str>))) {
        let (text, len) = (self.text, self.text.len());
        let code = || format!("{}let (a, b) = ({}usize, {}usize);\nlet r = s.drain({});", self.head(), self.a, self.b, name);
        let mut s = self.s0;
        // the drained text goes into a buffer of our own: nothing here may allocate during the call
        let mut buf = [0u8; 256];
        let mut n = None;
        let ok = cx.call(DRAIN, &code, || {
            f(&mut s, &mut |d| {
                n = d.map(|d| {
                    let d = d.as_bytes();
                    let m = d.len().min(256);
                    buf[..m].copy_from_slice(&d[..m]);
                    m
                })
            })
        });
        if ok.is_some() {
            let got = n.map(|n| String::from_utf8_lossy(&buf[..n]).into_owned());
            let exp = at.map(|(x, y)| text[x..y].to_string());
            cx.same(DRAIN, "drained text", len, &got, &exp, &code);
            let rest = match at {
                Some((x, y)) => format!("{}{}", &text[..x], &text[y..]),
                None => text.to_string(),
            };
            cx.same(DRAIN, "text kept", len, &content(s.as_str(), T::capacity()), &&rest[..], &code);
        }
    }
    #[inline(never)]
    fn replace(&self, cx: &mut Cx, name: &str, at: Option<(usize, usize)>, t: &str, f: &mut dyn FnMut(&mut T, &str) -> Result<(), Error>) {
        let (text, len) = (self.text, self.text.len());
        let code = || format!("{}let (a, b) = ({}usize, {}usize);\nlet r = s.replace_range({}, {:?});", self.head(), self.a, self.b, name, t);
        let mut s = self.s0;
        if let Some(got) = cx.call(REPLACE, &code, || f(&mut s, t)) {
            let mut want = text.to_string();
            let fits = match at {
                Some((x, y)) if len - (y - x) + t.len() <= T::capacity() => {
                    want.replace_range(x..y, t);
                    true
                }
                _ => false,
            };
            cx.same(REPLACE, "success", len + t.len(), &got.is_ok(), &fits, &code);
            if got.is_ok() || cx.digest {
                cx.same(REPLACE, "content", len + t.len(), &content(s.as_str(), T::capacity()), &&want[..], &code);
            }
        }
    }
    #[inline(never)]
    fn kind(&self, cx: &mut Cx, t: &str, name: &str, f: &mut dyn FnMut(&mut T, usize, Call) -> Option<bool>) {
        let (text, len, u) = (self.text, self.text.len(), self.u);
        let cap = T::capacity();
        let free = cap - len;
        let fits = t.len() <= free;
        let size = len + t.len();
        let mid = boundaries(text)[boundaries(text).len() / 2];
        let empty = || T::from_str_truncate("");
        if cx.wants(&["C02"]) {
            let code = || format!("{}let t = {:?};\nlet r = s.try_push_str({});", self.head(), t, name);
            let mut s = self.s0;
            if let Some(r) = cx.plain(PUSH, &code, || f(&mut s, 0, Call::TryPush)) {
                cx.same(PUSH, "success", size, &r, &Some(fits), &code);
                if r == Some(true) || cx.digest {
                    let appended = if fits { format!("{}{}", text, t) } else { text.to_string() };
                    cx.same(PUSH, "content", size, &content(s.as_str(), T::capacity()), &&appended[..], &code);
                }
            }
            for i in [0, mid, len, len + 1, 256] {
                let code = || format!("{}let t = {:?};\nlet r = s.try_insert_str({}, {});", self.head(), t, i, name);
                let mut s = self.s0;
                if let Some(r) = cx.plain(INSERT, &code, || f(&mut s, i, Call::TryInsert)) {
                    let good = fits && i <= len;
                    cx.same(INSERT, "success", size, &r, &Some(good), &code);
                    if good {
                        let mut want = text.to_string();
                        want.insert_str(i, t);
                        cx.same(INSERT, "content", size, &content(s.as_str(), T::capacity()), &&want[..], &code);
                    }
                }
            }
        }
        if cx.wants(&["C03"]) {
            let code = || format!("{}let t = {:?};\ns.push_str_truncate({});", self.head(), t, name);
            let mut s = self.s0;
            if cx.plain(PUSH, &code, || f(&mut s, 0, Call::Push)).is_some() {
                let cut = format!("{}{}", text, floor(t, free));
                cx.same(PUSH, "content", size, &content(s.as_str(), T::capacity()), &&cut[..], &code);
            }
            for i in [0, mid, len, len + 1, 256] {
                let code = || format!("{}let t = {:?};\nlet r = s.insert_str_truncate({}, {});", self.head(), t, i, name);
                let mut s = self.s0;
                if let Some(r) = cx.plain(INSERT, &code, || f(&mut s, i, Call::Insert)) {
                    cx.same(INSERT, "success", size, &r, &Some(i <= len), &code);
                    let mut want = text.to_string();
                    if i <= len {
                        want.insert_str(i, floor(t, free));
                    }
                    cx.same(INSERT, "content", size, &content(s.as_str(), T::capacity()), &&want[..], &code);
                }
            }
        }
        if u == 0 && cx.wants(&["C08"]) {
            let exp = (t.len() <= cap).then_some(t);
            let code = || format!("let t = {:?};\nlet r = {}::try_from_str({});", t, TY, name);
            let mut s = empty();
            if let Some(r) = cx.plain(CTOR, &code, || f(&mut s, 0, Call::TryFrom)) {
                cx.same(CTOR, "result", size, &(r == Some(true)).then_some(content(s.as_str(), T::capacity())), &exp, &code);
            }
            let code = || format!("let t = {:?};\nlet r = {}::try_from_iterator([{}]);", t, TY, name);
            let mut s = empty();
            if let Some(r) = cx.plain(LIST, &code, || f(&mut s, 0, Call::TryList)) {
                cx.same(LIST, "result", size, &(r == Some(true)).then_some(content(s.as_str(), T::capacity())), &exp, &code);
            }
        }
        if u == 0 && cx.wants(&["C09"]) {
            let code = || format!("let t = {:?};\nlet s = {}::from_str_truncate({});", t, TY, name);
            let mut s = empty();
            if cx.plain(CTOR, &code, || f(&mut s, 0, Call::From)).is_some() {
                cx.same(CTOR, "content", size, &content(s.as_str(), T::capacity()), &floor(t, cap), &code);
            }
            let code = || format!("let t = {:?};\nlet s = {}::from_iterator_truncate([{}, {}]);", t, TY, name, name);
            let mut s = empty();
            if cx.plain(LIST, &code, || f(&mut s, 0, Call::List)).is_some() {
                let two = format!("{}{}", t, t);
                cx.same(LIST, "content", size, &content(s.as_str(), T::capacity()), &floor(&two, cap), &code);
            }
        }
    }
}

enum Call {
    TryPush,
    TryInsert,
    Push,
    Insert,
    TryFrom,
    TryList,
    From,
    List,
}

pub fn run(u: usize, cx: &mut Cx) {
    let all = texts(T::capacity(), 4, cx.deep, cx.mini);
    let text = &all[u][..];
    let cap = T::capacity();
    let len = text.len();
    let free = cap - len;
    let s0 = mc_core::build!(T, text, (u % 4) as u8);
    cx.ctx = hash_bytes(7, text.as_bytes());
    // positions
    let mut pos: Vec<usize> = if len <= 8 { (0..=len + 2).collect() } else {
        let mut p = spread(&(0..=len + 2).collect::<Vec<_>>(), 9);
        p.extend([len - 1, len, len + 1]);
        p
    };
    pos.extend([cap + 1, 256, 256 + len, usize::MAX - 1, usize::MAX]);
    if cx.mini {
        pos = vec![0, 1, len, len + 1, usize::MAX];
    }
    pos.sort();
    pos.dedup();
    let texts: Vec<String> = {
        let mut v: Vec<String> = ["", "A", "\u{400}", "\u{ac00}", "\u{10400}"].iter().map(|s| s.to_string()).collect();
        for n in [free, free + 1, cap, cap + 1, 256, free + 256] {
            v.push(shaped(n, n % PATTERNS, true));
        }
        v.sort();
        v.dedup();
        v
    };
    let head = || format!("let mut s = {}::from_str_truncate({:?});\n", TY, text);
    let mut job = Job { text, s0, a: 0, b: 0, u };
    if cx.wants(&["C04"]) || cx.wants(&["C06"]) {
        for &a in &pos {
            for &b in &pos {
                (job.a, job.b) = (a, b);
                macro_rules! range {
                    ($name:literal, $r:expr) => {{
                        let at = resolve(&$r, text);
                        if cx.wants(&["C06"]) {
                            job.drain(cx, $name, at, &mut |s, out| match s.drain($r) {
                                Ok(d) => out(Some(content(d.as_str(), 255))),
                                Err(_) => out(None),
                            });
                        }
                        if cx.wants(&["C04"]) {
                            for t in &texts {
                                job.replace(cx, $name, at, t, &mut |s, t| s.replace_range($r, t));
                            }
                        }
                    }};
                }
                range!("a..b", a..b);
                range!("a..=b", a..=b);
                range!("&a..&b", &a..&b);
                range!("&a..=&b", &a..=&b);
                range!("(Included(a), Included(b))", (Included(a), Included(b)));
                range!("(Included(&a), Excluded(&b))", (Included(&a), Excluded(&b)));
                range!("(Excluded(&a), Included(&b))", (Excluded(&a), Included(&b)));
                range!("(Excluded(a), Excluded(b))", (Excluded(a), Excluded(b)));
                if b == pos[0] {
                    range!("a..", a..);
                    range!("&a..", &a..);
                    range!("..a", ..a);
                    range!("..&a", ..&a);
                    range!("..=a", ..=a);
                    range!("..=&a", ..=&a);
                    range!("(Excluded(a), Unbounded)", (Excluded(a), Bound::<usize>::Unbounded));
                    if a == pos[0] {
                        range!("..", ..);
                        range!("(Unbounded, Unbounded)", (Bound::<usize>::Unbounded, Bound::<usize>::Unbounded));
                    }
                }
                if a <= b && b <= len + 2 {
                    range!("{ let mut r = a..=b; r.by_ref().for_each(drop); r }", { let mut r = a..=b; r.by_ref().for_each(drop); r });
                    range!("{ let mut r = a..=b; r.next(); r }", { let mut r = a..=b; r.next(); r });
                    range!("{ let mut r = a..=b; r.next_back(); r }", { let mut r = a..=b; r.next_back(); r });
                    range!("{ let mut r = a..b; r.next(); r }", { let mut r = a..b; r.next(); r });
                }
            }
        }
    }
    // kinds of text
    for t in &texts {
        macro_rules! kind {
            ($name:literal, $v:expr) => {{
                job.kind(cx, t, $name, &mut |s, i, c| match c {
                    Call::TryPush => Some(s.try_push_str($v).is_ok()),
                    Call::TryInsert => Some(s.try_insert_str(i, $v).is_ok()),
                    Call::Push => {
                        s.push_str_truncate($v);
                        None
                    }
                    Call::Insert => Some(s.insert_str_truncate(i, $v).is_ok()),
                    Call::TryFrom => Some(T::try_from_str($v).map(|x| *s = x).is_ok()),
                    Call::TryList => Some(T::try_from_iterator([$v]).map(|x| *s = x).is_ok()),
                    Call::From => {
                        *s = T::from_str_truncate($v);
                        None
                    }
                    Call::List => {
                        *s = T::from_iterator_truncate([$v, $v]);
                        None
                    }
                });
            }};
        }
        kind!("t", t.as_str());
        kind!("String::from(t)", t.clone());
        kind!("&String::from(t)", t);
        kind!("&&t", &t.as_str());
        kind!("Cow::Borrowed(t)", Cow::Borrowed(t.as_str()));
        kind!("Cow::<str>::Owned(t.into())", Cow::<str>::Owned(t.clone()));
        kind!("Box::<str>::from(t)", Box::<str>::from(t.as_str()));
        kind!("std::rc::Rc::<str>::from(t)", std::rc::Rc::<str>::from(t.as_str()));
        if t.len() <= 255 {
            kind!("MaxString::from(t)", MaxString::try_from_str(t).unwrap());
            kind!("&MaxString::from(t)", &MaxString::try_from_str(t).unwrap());
        }
        if t.len() <= 63 {
            kind!("CacheString::from(t)", CacheString::try_from_str(t).unwrap());
            kind!("&CacheString::from(t)", &CacheString::try_from_str(t).unwrap());
        }
        if t.len() <= cap {
            kind!("same type", T::try_from_str(t).unwrap());
        }
    }
    // its own text
    if cx.wants(&["C03"]) {
        let code = || format!("{}s.push_str_truncate(s);", head());
        let mut s = s0;
        if cx.call(PUSH, &code, || { let t = s; s.push_str_truncate(t) }).is_some() {
            let two = format!("{}{}", text, text);
            cx.same(PUSH, "content", len, &content(s.as_str(), T::capacity()), &floor(&two, cap), &code);
        }
    }
    cx.sample(5_003, &|| format!("{} => ranges at {:?}, texts of lengths {:?}", head().trim(), pos, texts.iter().map(|t| t.len()).collect::<Vec<_>>()));
}
