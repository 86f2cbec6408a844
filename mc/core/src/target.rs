//! The system under exploration: every public operation of the crate behind one object-safe
//! interface, so the exploration loops are compiled once and only `apply`/`construct` are
//! instantiated per capacity.
use arraystring::prelude::*;
use arraystring::Error;
use core::ops::Bound::{self, *};

/// A range argument: how it is expressed, and its ends.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rng {
    pub form: u8,
    pub s: usize,
    pub e: usize,
}
pub const FORMS: u8 = 9;
impl Rng {
    pub fn bounds(&self) -> (Bound<usize>, Bound<usize>) {
        match self.form {
            0 => (Included(self.s), Excluded(self.e)),
            1 => (Included(self.s), Included(self.e)),
            2 => (Included(self.s), Unbounded),
            3 => (Unbounded, Excluded(self.e)),
            4 => (Unbounded, Included(self.e)),
            5 => (Unbounded, Unbounded),
            6 => (Excluded(self.s), Excluded(self.e)),
            7 => (Excluded(self.s), Included(self.e)),
            _ => (Excluded(self.s), Unbounded),
        }
    }
}

/// Answers of a retain predicate, by call number.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Mask(u64),
    DropAt(u16),
    KeepAt(u16),
    Mod(u16),
    NotChar(char),
    Ws,
}
impl Pred {
    pub fn keep(&self, i: usize, c: char) -> bool {
        match *self {
            Pred::Mask(m) => m >> (i & 63) & 1 == 1,
            Pred::DropAt(k) => i != k as usize,
            Pred::KeepAt(k) => i == k as usize,
            Pred::Mod(k) => i % (k as usize) == 0,
            Pred::NotChar(x) => x != c,
            Pred::Ws => c.is_whitespace(),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op<'a> {
    // fallible appends and inserts
    TryPush(char),
    TryPushStr(&'a str),
    WriteStr(&'a str),
    WriteChar(char),
    WriteFmt(&'a str, &'a str),
    TryInsert(usize, char),
    TryInsertStr(usize, &'a str),
    // truncating
    PushStrTrunc(&'a str),
    Add(&'a str),
    ExtendChars(&'a str),
    ExtendRefs(&'a [char]),
    ExtendStrs(&'a [&'a str]),
    InsertStrTrunc(usize, &'a str),
    // splice
    Replace(Rng, &'a str),
    // removals
    Pop,
    Remove(usize),
    Truncate(usize),
    Clear,
    Retain(Pred),
    Trim,
    // partition
    Drain(Rng),
    SplitOff(usize),
}

pub const F_APP: u8 = 1;
pub const F_TRUNC: u8 = 2;
pub const F_REPL: u8 = 4;
pub const F_REM: u8 = 8;
pub const F_DRAIN: u8 = 16;
pub const F_ALL: u8 = 31;
pub const OP_NAMES: [&str; 22] = [
    "try_push", "try_push_str", "write_str", "write_char", "write!", "try_insert", "try_insert_str",
    "push_str_truncate", "+", "extend(chars)", "extend(&chars)", "extend(strs)", "insert_str_truncate",
    "replace_range", "pop", "remove", "truncate", "clear", "retain", "trim", "drain", "split_off",
];
impl Op<'_> {
    pub fn idx(&self) -> usize {
        match self {
            Op::TryPush(..) => 0,
            Op::TryPushStr(..) => 1,
            Op::WriteStr(..) => 2,
            Op::WriteChar(..) => 3,
            Op::WriteFmt(..) => 4,
            Op::TryInsert(..) => 5,
            Op::TryInsertStr(..) => 6,
            Op::PushStrTrunc(..) => 7,
            Op::Add(..) => 8,
            Op::ExtendChars(..) => 9,
            Op::ExtendRefs(..) => 10,
            Op::ExtendStrs(..) => 11,
            Op::InsertStrTrunc(..) => 12,
            Op::Replace(..) => 13,
            Op::Pop => 14,
            Op::Remove(..) => 15,
            Op::Truncate(..) => 16,
            Op::Clear => 17,
            Op::Retain(..) => 18,
            Op::Trim => 19,
            Op::Drain(..) => 20,
            Op::SplitOff(..) => 21,
        }
    }
    pub fn family(&self) -> u8 {
        match self.idx() {
            0..=6 => F_APP,
            7..=12 => F_TRUNC,
            13 => F_REPL,
            14..=19 => F_REM,
            _ => F_DRAIN,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Ctor<'a> {
    New,
    Default,
    TryFromStr(&'a str),
    FromStr(&'a str),
    TryFromChars(&'a str),
    TryFromIter(&'a [&'a str]),
    FromStrTrunc(&'a str),
    From(&'a str),
    FromCharsTrunc(&'a str),
    CollectChars(&'a str),
    FromIterTrunc(&'a [&'a str]),
    CollectStrs(&'a [&'a str]),
    TryUtf16(&'a [u16]),
    Utf16Trunc(&'a [u16]),
    Utf16Lossy(&'a [u16]),
}
pub const CTOR_NAMES: [&str; 15] = [
    "new", "default", "try_from_str", "parse", "try_from_chars", "try_from_iterator", "from_str_truncate", "from",
    "from_chars_truncate", "collect(chars)", "from_iterator_truncate", "collect(strs)", "try_from_utf16",
    "from_utf16_truncate", "from_utf16_lossy_truncate",
];
impl Ctor<'_> {
    pub fn idx(&self) -> usize {
        match self {
            Ctor::New => 0,
            Ctor::Default => 1,
            Ctor::TryFromStr(_) => 2,
            Ctor::FromStr(_) => 3,
            Ctor::TryFromChars(_) => 4,
            Ctor::TryFromIter(_) => 5,
            Ctor::FromStrTrunc(_) => 6,
            Ctor::From(_) => 7,
            Ctor::FromCharsTrunc(_) => 8,
            Ctor::CollectChars(_) => 9,
            Ctor::FromIterTrunc(_) => 10,
            Ctor::CollectStrs(_) => 11,
            Ctor::TryUtf16(_) => 12,
            Ctor::Utf16Trunc(_) => 13,
            Ctor::Utf16Lossy(_) => 14,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ret {
    Unit,
    Ok,
    Oob,
    Utf8,
    Utf16,
    Fmt,
    Ch(Option<char>),
    /// text result is in `Obs::text`
    Text,
    Panic,
}
impl Ret {
    pub fn is_err(&self) -> bool {
        matches!(self, Ret::Oob | Ret::Utf8 | Ret::Utf16 | Ret::Fmt)
    }
    pub fn class(&self) -> usize {
        match self {
            Ret::Unit | Ret::Ok | Ret::Ch(Some(_)) | Ret::Text => 0,
            Ret::Oob | Ret::Fmt => 1,
            Ret::Utf8 | Ret::Utf16 => 2,
            Ret::Ch(None) => 3,
            Ret::Panic => 4,
        }
    }
}

pub struct Obs {
    pub ret: Ret,
    pub text: String,
}
impl Default for Obs {
    fn default() -> Self {
        Obs { ret: Ret::Unit, text: String::with_capacity(2048) }
    }
}
impl Obs {
    pub fn put(&mut self, s: &str) {
        self.text.push_str(s)
    }
}

pub fn err(e: Error) -> Ret {
    match e {
        Error::Utf8 => Ret::Utf8,
        Error::Utf16 => Ret::Utf16,
        Error::OutOfBounds => Ret::Oob,
    }
}
pub fn unit(r: Result<(), Error>) -> Ret {
    match r {
        Ok(()) => Ret::Ok,
        Err(e) => err(e),
    }
}
pub fn oob(r: Result<(), OutOfBounds>) -> Ret {
    match r {
        Ok(()) => Ret::Ok,
        Err(OutOfBounds) => Ret::Oob,
    }
}

pub trait Target {
    fn cap(&self) -> usize;
    fn is_cache(&self) -> bool;
    /// Make `cur` hold `content` with leftovers of kind `stale` behind it. False if that failed.
    fn set(&mut self, content: &str, stale: u8) -> bool;
    /// cur = base
    fn restore(&mut self);
    /// base = cur
    fn save(&mut self);
    fn apply(&mut self, op: &Op, obs: &mut Obs);
    fn construct(&mut self, c: &Ctor, obs: &mut Obs);
    fn bytes(&self) -> &[u8];
    fn size(&self) -> usize;
    fn raw_len(&self) -> usize;
    fn read_raw(&self, out: &mut [u8]);
    fn write_raw(&mut self, from: &[u8]);
    fn guards_ok(&self) -> bool;
    fn views(&mut self) -> Result<(), String>;
}

/// Where the object under exploration lives: in a page of its own between two inaccessible pages,
/// flush against the page's end (or start), the rest of the page filled with a canary.
pub struct Place {
    page: *mut u8,
    pub at: *mut u8,
    size: usize,
    end: bool,
}
const CANARY: u8 = 0xA5;
const PAGE: usize = 4096;
impl Place {
    #[cfg(not(miri))]
    pub fn new(size: usize, align: usize, end: bool) -> Place {
        assert!(size <= PAGE / 2 && align <= 256);
        unsafe {
            let m = libc::mmap(
                core::ptr::null_mut(),
                3 * PAGE,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8;
            assert!(m as isize != -1);
            let page = m.add(PAGE);
            assert!(libc::mprotect(page as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE) == 0);
            core::ptr::write_bytes(page, CANARY, PAGE);
            let at = if end { page.add((PAGE - size) & !(align - 1)) } else { page };
            Place { page, at, size, end }
        }
    }
    #[cfg(miri)]
    pub fn new(size: usize, align: usize, end: bool) -> Place {
        let at = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align(size, align).unwrap()) };
        Place { page: at, at, size, end }
    }
    /// The 64 bytes next to the object inside its page are untouched.
    pub fn intact(&self) -> bool {
        if cfg!(miri) {
            return true;
        }
        unsafe {
            let p = if self.end { self.at.sub(64) } else { self.at.add(self.size) };
            core::slice::from_raw_parts(p, 64).iter().all(|b| *b == CANARY)
        }
    }
    pub fn repair(&self) {
        if cfg!(miri) {
            return;
        }
        unsafe {
            let p = if self.end { self.at.sub(64) } else { self.at.add(self.size) };
            core::ptr::write_bytes(p, CANARY, 64);
        }
    }
}
impl Drop for Place {
    fn drop(&mut self) {
        #[cfg(not(miri))]
        unsafe {
            libc::munmap(self.page.sub(PAGE) as *mut _, 3 * PAGE);
        }
    }
}

pub struct Cell<T> {
    pub cur: *mut T,
    pub base: T,
    pub place: Place,
}
impl<T: Copy> Cell<T> {
    pub fn new(v: T, end: bool) -> Self {
        let place = Place::new(core::mem::size_of::<T>(), core::mem::align_of::<T>(), end);
        let cur = place.at as *mut T;
        unsafe { cur.write(v) };
        Cell { cur, base: v, place }
    }
}

#[macro_export]
macro_rules! common_target {
    ($t:ty, $cache:expr) => {
        fn cap(&self) -> usize {
            <$t>::capacity()
        }
        fn is_cache(&self) -> bool {
            $cache
        }
        #[inline(never)]
        fn set(&mut self, content: &str, stale: u8) -> bool {
            let cur: &mut $t = unsafe { &mut *self.0.cur };
            *cur = <$t>::new();
            if stale != 0 {
                let fill = match stale {
                    1 => "z".repeat(<$t>::capacity()),
                    2 => "\u{10ffff}".repeat(<$t>::capacity() / 4),
                    _ => "\u{7ff}".repeat(<$t>::capacity() / 2),
                };
                let _ = cur.try_push_str(fill.as_str());
                cur.clear();
            }
            let _ = cur.try_push_str(content);
            if AsRef::<[u8]>::as_ref(cur) != content.as_bytes() {
                cur.clear();
                for c in content.chars() {
                    let _ = cur.try_push(c);
                }
            }
            self.0.base = *cur;
            AsRef::<[u8]>::as_ref(cur) == content.as_bytes()
        }
        fn restore(&mut self) {
            unsafe { *self.0.cur = self.0.base };
        }
        fn save(&mut self) {
            self.0.base = unsafe { *self.0.cur };
        }
        fn bytes(&self) -> &[u8] {
            AsRef::<[u8]>::as_ref(unsafe { &*self.0.cur })
        }
        fn size(&self) -> usize {
            unsafe { &*self.0.cur }.len()
        }
        fn raw_len(&self) -> usize {
            core::mem::size_of::<$t>()
        }
        fn read_raw(&self, out: &mut [u8]) {
            let n = core::mem::size_of::<$t>();
            unsafe { core::ptr::copy_nonoverlapping(self.0.cur as *const u8, out.as_mut_ptr(), n) }
        }
        fn write_raw(&mut self, from: &[u8]) {
            let n = core::mem::size_of::<$t>();
            unsafe { core::ptr::copy_nonoverlapping(from.as_ptr(), self.0.cur as *mut u8, n) }
        }
        fn guards_ok(&self) -> bool {
            self.0.place.intact()
        }
        #[inline(never)]
        fn apply(&mut self, op: &Op, obs: &mut Obs) {
            obs.text.clear();
            let s: &mut $t = unsafe { &mut *self.0.cur };
            obs.ret = match *op {
                Op::TryPush(c) => $crate::target::oob(s.try_push(c)),
                Op::TryPushStr(t) => $crate::target::oob(s.try_push_str(t)),
                Op::WriteStr(t) => match core::fmt::Write::write_str(s, t) {
                    Ok(()) => Ret::Ok,
                    Err(_) => Ret::Fmt,
                },
                Op::WriteChar(c) => match core::fmt::Write::write_char(s, c) {
                    Ok(()) => Ret::Ok,
                    Err(_) => Ret::Fmt,
                },
                Op::WriteFmt(a, b) => match write!(s, "{}{}", a, b) {
                    Ok(()) => Ret::Ok,
                    Err(_) => Ret::Fmt,
                },
                Op::TryInsert(i, c) => $crate::target::unit(s.try_insert(i, c)),
                Op::TryInsertStr(i, t) => $crate::target::unit(s.try_insert_str(i, t)),
                Op::PushStrTrunc(t) => {
                    let () = s.push_str_truncate(t);
                    Ret::Unit
                }
                Op::Add(t) => {
                    *s = *s + t;
                    Ret::Unit
                }
                Op::ExtendChars(t) => {
                    <$t as Extend<char>>::extend(s, t.chars());
                    Ret::Unit
                }
                Op::ExtendRefs(t) => {
                    <$t as Extend<&char>>::extend(s, t.iter());
                    Ret::Unit
                }
                Op::ExtendStrs(t) => {
                    <$t as Extend<&str>>::extend(s, t.iter().copied());
                    Ret::Unit
                }
                Op::InsertStrTrunc(i, t) => $crate::target::unit(s.insert_str_truncate(i, t)),
                Op::Replace(r, t) => $crate::target::unit(s.replace_range(r.bounds(), t)),
                Op::Pop => Ret::Ch(s.pop()),
                Op::Remove(i) => match s.remove(i) {
                    Ok(c) => Ret::Ch(Some(c)),
                    Err(e) => $crate::target::err(e),
                },
                Op::Truncate(n) => match s.truncate(n) {
                    Ok(()) => Ret::Ok,
                    Err(Utf8) => Ret::Utf8,
                },
                Op::Clear => {
                    s.clear();
                    Ret::Unit
                }
                Op::Retain(p) => {
                    let mut i = 0usize;
                    let t = &mut obs.text;
                    s.retain(|c| {
                        if t.len() < 1500 {
                            t.push(c);
                        }
                        i += 1;
                        p.keep(i - 1, c)
                    });
                    Ret::Text
                }
                Op::Trim => {
                    s.trim();
                    Ret::Unit
                }
                Op::Drain(r) => match s.drain(r.bounds()) {
                    Ok(d) => {
                        obs.put(d.as_str());
                        Ret::Text
                    }
                    Err(e) => $crate::target::err(e),
                },
                Op::SplitOff(i) => match s.split_off(i) {
                    Ok(d) => {
                        obs.put(d.as_str());
                        Ret::Text
                    }
                    Err(e) => $crate::target::err(e),
                },
            };
        }
        #[inline(never)]
        fn construct(&mut self, c: &Ctor, obs: &mut Obs) {
            obs.text.clear();
            macro_rules! fin {
                ($r:expr, $p:pat => $e:expr) => {
                    match $r {
                        Ok(v) => {
                            unsafe { *self.0.cur = v };
                            Ret::Ok
                        }
                        Err($p) => $e,
                    }
                };
            }
            macro_rules! put {
                ($v:expr) => {{
                    let v = $v;
                    unsafe { *self.0.cur = v };
                    Ret::Unit
                }};
            }
            obs.ret = match *c {
                Ctor::New => put!(<$t>::new()),
                Ctor::Default => put!(<$t as Default>::default()),
                Ctor::TryFromStr(t) => fin!(<$t>::try_from_str(t), OutOfBounds => Ret::Oob),
                Ctor::FromStr(t) => fin!(t.parse::<$t>(), OutOfBounds => Ret::Oob),
                Ctor::TryFromChars(t) => fin!(<$t>::try_from_chars(t.chars()), OutOfBounds => Ret::Oob),
                Ctor::TryFromIter(t) => fin!(<$t>::try_from_iterator(t.iter().copied()), OutOfBounds => Ret::Oob),
                Ctor::FromStrTrunc(t) => put!(<$t>::from_str_truncate(t)),
                Ctor::From(t) => put!(<$t as From<&str>>::from(t)),
                Ctor::FromCharsTrunc(t) => put!(<$t>::from_chars_truncate(t.chars())),
                Ctor::CollectChars(t) => put!(<$t as core::iter::FromIterator<char>>::from_iter(t.chars())),
                Ctor::FromIterTrunc(t) => put!(<$t>::from_iterator_truncate(t.iter().copied())),
                Ctor::CollectStrs(t) => {
                    put!(<$t as core::iter::FromIterator<&str>>::from_iter(t.iter().copied()))
                }
                Ctor::TryUtf16(t) => fin!(<$t>::try_from_utf16(t), e => $crate::target::err(e)),
                Ctor::Utf16Trunc(t) => fin!(<$t>::from_utf16_truncate(t), Utf16 => Ret::Utf16),
                Ctor::Utf16Lossy(t) => put!(<$t>::from_utf16_lossy_truncate(t)),
            };
        }
        #[inline(never)]
        fn views(&mut self) -> Result<(), String> {
            use std::borrow::{Borrow, BorrowMut};
            use std::ops::{Deref, DerefMut};
            let s: &mut $t = unsafe { &mut *self.0.cur };
            let want: Vec<u8> = AsRef::<[u8]>::as_ref(s).to_vec();
            let n = want.len();
            let mut bad: Option<&'static str> = None;
            macro_rules! same {
                ($name:expr, $v:expr) => {
                    if AsRef::<[u8]>::as_ref($v) != &want[..] && bad.is_none() {
                        bad = Some($name);
                    }
                };
            }
            if s.len() != n {
                bad = Some("len()");
            }
            if s.is_empty() != (n == 0) {
                bad = Some("is_empty()");
            }
            same!("as_str", s.as_str());
            same!("AsRef<str>", AsRef::<str>::as_ref(s));
            same!("Deref", Deref::deref(s));
            same!("Borrow<str>", Borrow::<str>::borrow(s));
            same!("as_bytes", s.as_bytes());
            same!("as_mut_str", s.as_mut_str());
            same!("AsMut<str>", AsMut::<str>::as_mut(s));
            same!("DerefMut", DerefMut::deref_mut(s));
            same!("BorrowMut<str>", BorrowMut::<str>::borrow_mut(s));
            let mut k = 0;
            let mut b = [0u8; 4];
            for c in s.chars() {
                let e = c.encode_utf8(&mut b).as_bytes();
                if want.get(k..k + e.len()) != Some(e) && bad.is_none() {
                    bad = Some("chars()");
                }
                k += e.len();
            }
            if k != n && bad.is_none() {
                bad = Some("chars() length");
            }
            let copy = *s;
            same!("copy", &copy);
            same!("clone", &Clone::clone(s));
            let mut other = <$t>::new();
            other.clone_from(s);
            same!("clone_from", &other);
            match bad {
                None => Ok(()),
                Some(b) => Err(format!("{} disagrees with the byte view {:?}", b, String::from_utf8_lossy(&want))),
            }
        }
    };
}

#[macro_export]
macro_rules! one_target {
    ($m:ident, $t:ty, $cache:expr) => {
        pub mod $m {
            #[allow(unused_imports)]
            use arraystring::prelude::*;
            #[allow(unused_imports)]
            use core::fmt::Write as _;
            #[allow(unused_imports)]
            use $crate::target::*;
            pub struct S(Cell<$t>);
            impl Target for S {
                $crate::common_target!($t, $cache);
            }
            pub fn make(end: bool) -> Box<dyn Target> {
                Box::new(S(Cell::new(<$t>::new(), end)))
            }
        }
    };
}

#[macro_export]
macro_rules! caps {
    ($($m:ident $n:literal)*) => {
        $($crate::one_target!($m, ArrayString<$n>, false);)*
        pub fn make(n: usize, end: bool) -> Option<Box<dyn $crate::target::Target>> {
            Some(match n {
                $($n => $m::make(end),)*
                _ => return None,
            })
        }
    };
}
