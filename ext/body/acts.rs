// Actions on one string, with a hook called from inside every callback the call takes.
// `run(s, out, h)` acts on `s`, writes everything observable to `out`.
use std::fmt::{self, Write};
use std::hash::{Hash, Hasher};
use std::ops::{Bound, RangeBounds};

/// A sink that calls back.
struct Sink<'a>(&'a mut Out, &'a dyn Fn());
impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        (self.1)();
        self.0.write_str(s)?;
        (self.1)();
        Ok(())
    }
}
struct Txt<'a>(&'a str, &'a dyn Fn());
impl AsRef<str> for Txt<'_> {
    fn as_ref(&self) -> &str {
        (self.1)();
        self.0
    }
}
impl fmt::Display for Txt<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        (self.1)();
        f.write_str(self.0)?;
        (self.1)();
        f.write_str("~")
    }
}
struct Units<'a>(&'a [u16], &'a dyn Fn());
impl AsRef<[u16]> for Units<'_> {
    fn as_ref(&self) -> &[u16] {
        (self.1)();
        self.0
    }
}
struct Rg<'a>(usize, usize, &'a dyn Fn());
impl RangeBounds<usize> for Rg<'_> {
    fn start_bound(&self) -> Bound<&usize> {
        (self.2)();
        Bound::Included(&self.0)
    }
    fn end_bound(&self) -> Bound<&usize> {
        (self.2)();
        Bound::Excluded(&self.1)
    }
}
struct It<'a, I>(I, &'a dyn Fn());
impl<I: Iterator> Iterator for It<'_, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        (self.1)();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1)();
        self.0.size_hint()
    }
}
struct Hs<'a>(u64, &'a dyn Fn());
impl Hasher for Hs<'_> {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        (self.1)();
        for x in b {
            self.0 = self.0.wrapping_mul(0x100000001b3) ^ *x as u64;
        }
    }
}

const LONG: &str = "0\u{e9}1\u{20ac}2\u{1f600}3456789abcdefghijklmnopqrstuvwxyz\u{e9}\u{20ac}\u{1f600}ABCDEFGHIJKLMNOPQRSTUVWXYZ\u{1f600}\u{1f600}\u{1f600}---------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------------";

/// The boundary at or before the middle.
fn mid(s: &str) -> usize {
    step_pause(|| mid_(s))
}
fn mid_(s: &str) -> usize {
    let mut i = s.len() / 2;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
/// A text that just fits behind `s`, if `d` is 0, with `d` bytes more otherwise.
fn fits(s: &T, d: usize) -> &'static str {
    step_pause(|| fits_(s, d))
}
fn fits_(s: &T, d: usize) -> &'static str {
    let n = (T::capacity() - s.as_str().len() + d).min(LONG.len());
    let n = (0..=n).rev().find(|i| LONG.is_char_boundary(*i)).unwrap();
    &LONG[..n]
}
/// Note an observation (not part of what is single-stepped).
fn show(out: &mut Out, r: &dyn fmt::Debug) {
    step_pause(|| {
        let _ = write!(out, "{:?};", r);
    })
}

pub type Act = fn(&mut T, &mut Out, &dyn Fn());

pub const NACTS: usize = 52;
pub static ACTS: [(&str, Act); NACTS] = [
    ("try_push", |s, o, _| {
        let r = s.try_push('\u{e9}');
        show(o, &r)
    }),
    ("try_push_str", |s, o, h| {
        let t = fits(s, 0);
        let r = s.try_push_str(Txt(t, h));
        show(o, &r)
    }),
    ("try_push_str too long", |s, o, h| {
        let t = fits(s, 5);
        let r = s.try_push_str(Txt(t, h));
        show(o, &r)
    }),
    ("write_str", |s, o, _| {
        let t = fits(s, 0);
        let r = s.write_str(t);
        show(o, &r)
    }),
    ("write!", |s, o, h| {
        let r = write!(s, "{}<{}>", Txt("\u{e9}", h), Txt("b", h));
        show(o, &r)
    }),
    ("try_insert", |s, o, _| {
        let m = mid(s);
        let r = s.try_insert(m, '\u{20ac}');
        show(o, &r)
    }),
    ("try_insert_str", |s, o, h| {
        let m = mid(s);
        let t = fits(s, 0);
        let r = s.try_insert_str(m, Txt(t, h));
        show(o, &r)
    }),
    ("push_str_truncate", |s, o, h| {
        let r = s.push_str_truncate(Txt(LONG, h));
        show(o, &r)
    }),
    ("insert_str_truncate", |s, o, h| {
        let m = mid(s);
        let r = s.insert_str_truncate(m, Txt(LONG, h));
        show(o, &r)
    }),
    ("+", |s, o, _| {
        let r = *s + "+\u{e9}";
        show(o, &r);
        *s = r;
    }),
    ("extend(chars)", |s, o, h| {
        let r = s.extend(It(LONG[..20].chars(), h));
        show(o, &r)
    }),
    ("extend(&chars)", |s, o, h| {
        let r = s.extend(It(['x', '\u{e9}', '\u{20ac}', '\u{1f600}', 'z'].iter(), h));
        show(o, &r)
    }),
    ("extend(strs)", |s, o, h| {
        let r = s.extend(It(["", "a\u{e9}", "\u{1f600}b", "cd"].into_iter(), h));
        show(o, &r)
    }),
    ("replace_range, longer", |s, o, h| {
        let m = mid(s);
        let t = fits(s, 0);
        let r = s.replace_range(Rg(0, m, h), Txt(t, h));
        show(o, &r)
    }),
    ("replace_range, shorter", |s, o, h| {
        let m = mid(s);
        let l = s.as_str().len();
        let r = s.replace_range(Rg(m, l, h), Txt("", h));
        show(o, &r)
    }),
    ("replace_range, bad", |s, o, h| {
        let r = s.replace_range(Rg(3, 2, h), Txt("x", h));
        show(o, &r)
    }),
    ("pop", |s, o, _| {
        let r = s.pop();
        show(o, &r)
    }),
    ("remove", |s, o, _| {
        let m = mid(s);
        let r = s.remove(m);
        show(o, &r)
    }),
    ("truncate", |s, o, _| {
        let m = mid(s);
        let r = s.truncate(m);
        show(o, &r)
    }),
    ("truncate, bad", |s, o, _| {
        for m in [1, 2, 3, 300] {
            let r = s.truncate(m);
            show(o, &r)
        }
    }),
    ("clear", |s, o, _| {
        let r = s.clear();
        show(o, &r)
    }),
    ("retain, alternately", |s, o, h| {
        let mut i = 0;
        let r = s.retain(|c| {
            h();
            i += 1;
            c != 'z' && i % 2 == 0
        });
        show(o, &r)
    }),
    ("retain, all but the first", |s, o, h| {
        let mut i = 0;
        let r = s.retain(|_| {
            h();
            i += 1;
            i != 1
        });
        show(o, &r)
    }),
    ("trim", |s, o, _| {
        let r = s.trim();
        show(o, &r)
    }),
    ("drain", |s, o, h| {
        let m = mid(s);
        let r = s.drain(Rg(0, m, h));
        if let Ok(mut d) = r {
            loop {
                h();
                let a = d.next();
                h();
                let b = d.next_back();
                show(o, &(a, b, d.as_str()));
                if b.is_none() {
                    break;
                }
            }
        } else {
            show(o, &r.err());
        }
    }),
    ("drain, rest", |s, o, h| {
        let m = mid(s);
        let mut d = s.drain(m..).unwrap();
        let e = d.clone();
        h();
        d.next();
        show(o, &(d == e, Ord::cmp(&d, &e), d.as_str(), e.as_str()));
        let mut x = Hs(1, h);
        d.hash(&mut x);
        show(o, &x.0);
        let _ = write!(Sink(o, h), "{:?}", d);
    }),
    ("drain, bad", |s, o, h| {
        let r = s.drain(Rg(2, 1, h)).is_ok();
        show(o, &r);
        let r = s.drain(300..).is_ok();
        show(o, &r)
    }),
    ("split_off", |s, o, _| {
        let m = mid(s);
        let r = s.split_off(m);
        show(o, &r)
    }),
    ("try_from_str", |s, o, h| {
        let r = T::try_from_str(Txt(fits(s, 0), h));
        show(o, &r);
        let r = T::try_from_str(Txt(LONG, h));
        show(o, &r);
    }),
    ("from_str_truncate", |_, o, h| {
        let r = T::from_str_truncate(Txt(LONG, h));
        show(o, &r);
    }),
    ("try_from_chars", |s, o, h| {
        let r = T::try_from_chars(It(fits(s, 0).chars(), h));
        show(o, &r);
    }),
    ("from_chars_truncate", |_, o, h| {
        let r = T::from_chars_truncate(It(LONG.chars(), h));
        show(o, &r);
    }),
    ("try_from_iterator", |_, o, h| {
        let r = T::try_from_iterator(It(["", "a\u{e9}", "\u{1f600}b", "cd"].into_iter().map(|t| Txt(t, h)), h));
        show(o, &r);
    }),
    ("from_iterator_truncate", |_, o, h| {
        let r = T::from_iterator_truncate(It(["", "a\u{e9}", "\u{1f600}b", LONG, "cd"].into_iter().map(|t| Txt(t, h)), h));
        show(o, &r);
    }),
    ("collect(chars)", |_, o, h| {
        let r: T = It(LONG[..20].chars(), h).collect();
        show(o, &r);
    }),
    ("collect(strs)", |_, o, h| {
        let r: T = It(["", "a\u{e9}", "\u{1f600}b", "cd"].into_iter(), h).collect();
        show(o, &r);
    }),
    ("try_from_utf16", |_, o, h| {
        let r = T::try_from_utf16(Units(&[0x61, 0xe9, 0xd83d, 0xde00], h));
        show(o, &r);
        let r = T::try_from_utf16(Units(&[0x61, 0xd83d], h));
        show(o, &r);
    }),
    ("from_utf16_truncate", |_, o, h| {
        let r = T::from_utf16_truncate(Units(&[0x61, 0xe9, 0xd83d, 0xde00, 0x20ac, 0x62, 0xe9, 0x63, 0x64], h));
        show(o, &r);
    }),
    ("from_utf16_lossy_truncate", |_, o, h| {
        let r = T::from_utf16_lossy_truncate(Units(&[0x61, 0xdc00, 0xd83d, 0xde00, 0xd800], h));
        show(o, &r);
    }),
    ("parse and From", |s, o, _| {
        let r = fits(s, 0).parse::<T>();
        show(o, &r);
        let r = T::from(LONG);
        show(o, &r);
    }),
    ("Display", |s, o, h| {
        let r = write!(Sink(o, h), "{}", s);
        show(o, &r);
        let l = s.as_str().chars().count();
        let r = write!(Sink(o, h), "{:*^w$.p$}", s, w = l + 3, p = l / 2);
        show(o, &r);
    }),
    ("Debug", |s, o, h| {
        let r = write!(Sink(o, h), "{:?}", s);
        show(o, &r);
    }),
    ("hash", |s, o, h| {
        let mut x = Hs(1, h);
        s.hash(&mut x);
        show(o, &x.0);
    }),
    ("compare", |s, o, _| {
        let mut t = *s;
        let _ = t.pop();
        let u = s.clone();
        show(o, &(s == &t, s == &u, (*s).cmp(&t), t.partial_cmp(s), *s == "a\u{e9}", *s == *LONG));
    }),
    ("index", |s, o, _| {
        let m = mid(s) as u8;
        let l = s.as_str().len() as u8;
        show(o, &(&s[..m], &s[m..], &s[m..l], &s[..]));
        if l > m {
            show(o, &(&s[m..=l - 1], &s[..=l - 1]));
        }
    }),
    ("index_mut", |s, o, _| {
        let m = mid(s) as u8;
        s[..m].make_ascii_uppercase();
        s[m..].make_ascii_uppercase();
        show(o, &&s[..]);
    }),
    ("mutable views", |s, o, _| {
        s.as_mut_str().make_ascii_uppercase();
        AsMut::<str>::as_mut(s).make_ascii_lowercase();
        std::borrow::BorrowMut::<str>::borrow_mut(s).make_ascii_uppercase();
        let l = s.as_str().len();
        show(o, &l);
    }),
    ("views", |s, o, _| {
        show(o, &(s.as_str(), AsRef::<str>::as_ref(s), AsRef::<[u8]>::as_ref(s), s.len(), s.is_empty(), s.as_bytes(), T::capacity()));
        let b: &str = std::borrow::Borrow::borrow(s);
        show(o, &b);
    }),
    ("errors", |s, o, h| {
        let e = [Error::from(Utf8), Error::from(Utf16), Error::from(OutOfBounds)];
        let i = s.as_str().len() % 3;
        let r = write!(Sink(o, h), "{} {:?} {}", e[i], e[(i + 1) % 3], e[i] == e[0]);
        show(o, &r);
    }),
    ("bad positions", |s, o, _| {
        let r = (s.try_insert(1, 'x'), s.remove(2), s.split_off(3).is_ok());
        show(o, &r);
        let r = (s.try_insert(300, 'x'), s.remove(300), s.split_off(300).is_ok(), s.insert_str_truncate(300, "x"), s.truncate(300));
        show(o, &r);
    }),
    ("default and copies", |s, o, _| {
        let a = T::default();
        let b = T::new();
        let mut c = *s;
        let _ = c.try_push('!');
        let mut d = c.clone();
        d.clear();
        show(o, &(a, b, c, d));
    }),
    ("build up", |s, o, h| {
        let mut t = T::new();
        for c in LONG.chars().take(14) {
            if t.try_push(c).is_err() {
                break;
            }
            h();
        }
        while t.pop().is_some() {
            if t.as_str().len() < s.as_str().len() {
                break;
            }
            h();
        }
        show(o, &t);
    }),
];

/// Contents an action starts from.
pub fn starts() -> Vec<&'static str> {
    let cap = T::capacity();
    let cut = |s: &'static str, n: usize| {
        let mut i = n.min(s.len()).min(cap);
        while !s.is_char_boundary(i) {
            i -= 1;
        }
        &s[..i]
    };
    let mixed = "a\u{e9}\u{20ac}\u{1f600} z";
    let v = vec![cut(mixed, cap / 2 + 2), "", cut("  \u{3000}text \u{e9} \t", cap), cut("The quick brown \u{1f98a} jumps over the lazy \u{1f436}. \u{c9}t\u{e9}, \u{20ac}uro, na\u{ef}ve. The quick brown \u{1f98a} jumps over the lazy \u{1f436}. \u{c9}t\u{e9}, \u{20ac}uro, na\u{ef}ve. The quick brown \u{1f98a} jumps over the lazy \u{1f436}. \u{c9}t\u{e9}, \u{20ac}uro, na\u{ef}ve. The quick", cap)];
    let mut w: Vec<&'static str> = vec![];
    for x in v {
        if !w.contains(&x) {
            w.push(x);
        }
    }
    w
}

/// Run an action; everything observable afterwards.
pub fn perform(k: usize, s: &mut T, h: &dyn Fn(), out: &mut Out) {
    out.n = 0;
    (ACTS[k].1)(s, out, h);
    out.put(b"|");
    out.put(AsRef::<[u8]>::as_ref(s));
}
