//! What is enumerated: contents, text arguments, indices, ranges, predicates, item lists.
use crate::model::floor;
use crate::target::*;

/// A character of UTF-8 width `w`; `k` makes neighbours distinguishable. Contents (`arg` false) and
/// arguments use disjoint characters, none of them whitespace.
pub fn ch(w: usize, k: usize, arg: bool) -> char {
    match (w, arg) {
        (1, false) => (b"abcdefghijklmnopqrstuvwxyz0123456789;:<=>?@#$%&"[k % 47]) as char,
        (1, true) => (b"ABCDEFGHIJKLMNOPQRSTUVWXYZ!()*+,-./[]^_`{|}~"[k % 44]) as char,
        (2, false) => char::from_u32(0x100 + (k % 0x180) as u32).unwrap(),
        (2, true) => char::from_u32(0x400 + (k % 0x100) as u32).unwrap(),
        (3, false) => char::from_u32(0x4E00 + (k % 0x1000) as u32).unwrap(),
        (3, true) => char::from_u32(0xAC00 + (k % 0x1000) as u32).unwrap(),
        (_, false) => char::from_u32(0x1F300 + (k % 0x200) as u32).unwrap(),
        (_, true) => char::from_u32(0x10400 + (k % 0x50) as u32).unwrap(),
    }
}

/// Every sequence of character widths of total length `n`.
pub fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for w in 1..=4.min(n) {
        for mut t in compositions(n - w) {
            t.insert(0, w);
            out.push(t);
        }
    }
    out
}

pub fn render(widths: &[usize], arg: bool) -> String {
    widths.iter().enumerate().map(|(k, w)| ch(*w, k, arg)).collect()
}

/// Every width composition of every length up to `n`, rendered.
pub fn all_strings(n: usize, arg: bool) -> Vec<String> {
    (0..=n).flat_map(|l| compositions(l).into_iter().map(move |c| render(&c, arg))).collect()
}

pub const PATTERNS: usize = 10;
/// A string of exactly `n` bytes of a given shape (narrow filler where a wide character does not fit).
pub fn shaped(n: usize, pat: usize, arg: bool) -> String {
    let mut s = String::with_capacity(n);
    let mut k = 0;
    let mut push = |s: &mut String, w: usize| {
        s.push(ch(w, k, arg));
        k += 1;
    };
    while s.len() < n {
        let left = n - s.len();
        let w = match pat {
            // all of one width, narrow filler at the end
            0 => 1,
            1 => 2,
            2 => 3,
            3 => 4,
            // ASCII, then one wide character at the very end
            4..=6 => {
                let w = pat - 2;
                if left == w {
                    w
                } else {
                    1
                }
            }
            // narrow filler first, wide characters reach the very end
            7 => {
                if left % 4 == 0 {
                    4
                } else {
                    1
                }
            }
            8 => {
                if left % 3 == 0 {
                    3
                } else {
                    1
                }
            }
            // mixed
            _ => 1 + (s.len() * 7 + 3) % 4,
        };
        push(&mut s, if w > left { 1 } else { w });
    }
    s
}

/// Copy `s` to memory of its own, flush against an inaccessible page, so that reading past its end
/// faults. Lives as long as the program.
pub fn guarded(s: &[u8]) -> &'static [u8] {
    #[cfg(miri)]
    {
        Box::leak(s.to_vec().into_boxed_slice())
    }
    #[cfg(not(miri))]
    unsafe {
        let page = 4096;
        let n = (s.len() + page - 1) / page * page;
        let n = n.max(page);
        let m = libc::mmap(
            core::ptr::null_mut(),
            n + page,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut u8;
        if m as isize == -1 {
            return Box::leak(s.to_vec().into_boxed_slice());
        }
        let p = m.add(n - s.len());
        core::ptr::copy_nonoverlapping(s.as_ptr(), p, s.len());
        libc::mprotect(m as *mut _, n, libc::PROT_READ);
        libc::mprotect(m.add(n) as *mut _, page, libc::PROT_NONE);
        core::slice::from_raw_parts(p, s.len())
    }
}
pub fn gstr(s: &str) -> &'static str {
    unsafe { core::str::from_utf8_unchecked(guarded(s.as_bytes())) }
}

/// Text arguments by shape and length, and small ones exhaustively.
pub struct Args {
    /// every width composition up to `small_max` bytes
    pub small: Vec<&'static str>,
    pub small_chars: Vec<&'static [char]>,
    /// `by_len[n]`: distinct shapes of exactly n bytes
    by_len: Vec<Vec<&'static str>>,
    /// very long texts
    pub huge: Vec<&'static str>,
    /// lists of up to three items
    pub lists: Vec<&'static [&'static str]>,
    /// lists of up to three characters, both ends of each width's range
    pub chars: Vec<char>,
}
pub const MAX_LEN: usize = 600;
impl Args {
    /// Every text of up to `n` bytes over a few characters, one per width and a space.
    pub fn graph(n: usize) -> Args {
        let alpha = ['a', ' ', '\u{e9}', '\u{20ac}', '\u{1d11e}'];
        let mut all: Vec<String> = vec![String::new()];
        let mut i = 0;
        while i < all.len() {
            for c in alpha {
                if all[i].len() + c.len_utf8() <= n {
                    let mut t = all[i].clone();
                    t.push(c);
                    all.push(t);
                }
            }
            i += 1;
        }
        all.sort_by_key(|s| s.len());
        let small: Vec<&'static str> = all.iter().map(|s| gstr(s)).collect();
        let small_chars = small.iter().map(|s| &*Box::leak(s.chars().collect::<Vec<_>>().into_boxed_slice())).collect();
        let items = ["", "a", " ", "\u{e9}", "\u{20ac}", "\u{1d11e}"];
        let mut lists: Vec<&'static [&'static str]> = vec![&[]];
        for a in items {
            lists.push(Box::leak(vec![a].into_boxed_slice()));
            for b in items {
                lists.push(Box::leak(vec![a, b].into_boxed_slice()));
            }
        }
        Args { small, small_chars, by_len: vec![], huge: vec![], lists, chars: alpha.to_vec() }
    }

    pub fn new(small_max: usize) -> Args {
        let small: Vec<&'static str> = all_strings(small_max, true).iter().map(|s| gstr(s)).collect();
        let small_chars = small.iter().map(|s| &*Box::leak(s.chars().collect::<Vec<_>>().into_boxed_slice())).collect();
        let mut by_len = vec![];
        for n in 0..=MAX_LEN {
            let mut v: Vec<&'static str> = vec![];
            for p in 0..PATTERNS {
                let s = shaped(n, p, true);
                if !v.iter().any(|x| *x == s) {
                    v.push(gstr(&s));
                }
            }
            by_len.push(v);
        }
        let huge = [65536, 65537, 65536 + 7, 70000].iter().map(|n| gstr(&shaped(*n, 4, true))).collect();
        let items = ["", "A", "\u{400}", "\u{ac00}", "\u{10400}", "BC", "A\u{ac00}", "DEFGH"];
        let mut lists: Vec<Vec<&'static str>> = vec![vec![]];
        for a in items {
            lists.push(vec![a]);
            for b in items {
                lists.push(vec![a, b]);
                for c in items {
                    lists.push(vec![a, b, c]);
                }
            }
        }
        let lists = lists.into_iter().map(|l| &*Box::leak(l.into_boxed_slice())).collect();
        let chars = "\u{0}A~\u{7f}\u{80}\u{400}\u{7ff}\u{800}\u{ac00}\u{ffff}\u{10000}\u{10400}\u{10ffff}".chars().collect();
        Args { small, small_chars, by_len, huge, lists, chars }
    }
    /// A few texts of every width, and texts around the given lengths.
    pub fn tiny(around: &[usize]) -> Args {
        let small: Vec<&'static str> = ["", "A", "\u{400}", "\u{ac00}", "\u{10400}", "B\u{401}"].iter().map(|s| gstr(s)).collect();
        let small_chars = small.iter().map(|s| &*Box::leak(s.chars().collect::<Vec<_>>().into_boxed_slice())).collect();
        let mut by_len = vec![vec![]; MAX_LEN + 1];
        for n in around {
            let n = (*n).min(MAX_LEN);
            if by_len[n].is_empty() {
                for p in [0, 3, 6] {
                    let s = shaped(n, p, true);
                    if !by_len[n].contains(&&*s) {
                        by_len[n].push(gstr(&s));
                    }
                }
            }
        }
        let lists: [&[&str]; 6] = [&[], &[""], &["A", "\u{ac00}"], &["\u{10400}", "A"], &["", "\u{400}", "B"], &["AB", "\u{ac00}", "C"]];
        Args { small, small_chars, by_len, huge: vec![], lists: lists.to_vec(), chars: "A\u{400}\u{ac00}\u{10400}".chars().collect() }
    }
    pub fn of_len(&self, n: usize) -> &[&'static str] {
        self.by_len.get(n).map(|v| &v[..]).unwrap_or(&[])
    }
}

/// Positions beyond the content: capacity, one-byte/two-byte/four-byte aliases of real positions,
/// and the ends of the signed and unsigned ranges.
pub fn far(len: usize, cap: usize, many: bool, out: &mut Vec<usize>) {
    for x in [cap, cap + 1, cap + 2, 127, 128, 129, 254, 255, 256, 257, 258] {
        out.push(x);
    }
    let step = if many { 1 } else { (len / 3).max(1) };
    let mut i = 0;
    while i <= len {
        for m in [8usize, 16, 32, 63] {
            out.push((1usize << m) + i);
        }
        i += step;
    }
    for m in [8usize, 16, 32, 63] {
        out.push((1usize << m) + len);
    }
    for k in 0..6 {
        out.push(usize::MAX - k);
    }
    for k in 0..2 {
        out.push(usize::MAX - cap - k);
        out.push(usize::MAX - len - k);
        out.push(isize::MAX as usize - k);
        out.push(isize::MAX as usize + 1 + k);
        out.push(u32::MAX as usize - k);
    }
    out.retain(|x| *x > len);
    out.sort();
    out.dedup();
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// a few arguments per operation, for the complete state graph
    Graph,
    /// every small argument
    Small,
    /// boundary-focused, for large capacities
    Large,
    /// boundary-focused and sparse
    Sparse,
    /// the least that reaches every decision, for the interpreter
    Tiny,
}

pub struct Gen<'a> {
    pub args: &'a Args,
    pub mode: Mode,
    /// longest text argument taken from the exhaustive set
    pub small_max: usize,
    pub huge: bool,
    near: Vec<usize>,
    far: Vec<usize>,
    strs: Vec<&'static str>,
}

impl<'a> Gen<'a> {
    pub fn new(args: &'a Args, mode: Mode, small_max: usize, huge: bool) -> Self {
        Gen { args, mode, small_max, huge, near: vec![], far: vec![], strs: vec![] }
    }

    fn prepare(&mut self, cap: usize, s: &str) {
        let len = s.len();
        self.near.clear();
        self.far.clear();
        match self.mode {
            Mode::Graph => {
                self.near.extend(0..=cap + 1);
                self.far.extend([256, 257, usize::MAX - 1, usize::MAX]);
            }
            Mode::Small => {
                self.near.extend(0..=len + 2);
                far(len, cap, true, &mut self.far);
            }
            Mode::Tiny => {
                if len <= 5 {
                    self.near.extend(0..=len + 1);
                } else {
                    self.near.extend([0, 1, len / 2, len / 2 + 1, len - 1, len, len + 1]);
                }
                self.far.extend([256, usize::MAX]);
            }
            Mode::Large | Mode::Sparse => {
                let near = if self.mode == Mode::Large { 6 } else { 3 };
                let marks: &[usize] =
                    if self.mode == Mode::Large { &[0, 32, len / 2, 64, 128, len] } else { &[0, len / 2, len] };
                for b in marks.iter().copied() {
                    for d in 0..near {
                        if b + d <= len + 2 {
                            self.near.push(b + d);
                        }
                        if d > 0 && b >= d && b - d <= len + 2 {
                            self.near.push(b - d);
                        }
                    }
                }
                self.near.sort();
                self.near.dedup();
                far(len, cap, false, &mut self.far);
            }
        }
        let n = self.near.len();
        let near = std::mem::take(&mut self.near);
        self.far.retain(|x| !near.contains(x));
        self.near = near;
        debug_assert!(n > 0);
        // texts
        let free = cap - len;
        self.strs.clear();
        for s in &self.args.small {
            if s.len() <= self.small_max {
                self.strs.push(s);
            } else {
                break;
            }
        }
        if self.mode == Mode::Tiny {
            self.texts(free, 1);
            self.texts(cap + 1, 0);
            self.texts(256, 0);
        } else if self.mode != Mode::Graph {
            self.texts(free, 5);
            if self.mode != Mode::Sparse {
                self.texts(cap, 2);
                self.texts(256, 5);
                self.texts(256 + free, 2);
            } else {
                self.texts(256, 1);
            }
            if self.huge {
                self.strs.extend(&self.args.huge);
            }
        }
        self.strs.sort();
        self.strs.dedup();
    }
    /// all shapes of texts of `n - d ..= n + d` bytes
    fn texts(&mut self, n: usize, d: usize) {
        for l in n.saturating_sub(d)..=n + d {
            self.strs.extend(self.args.of_len(l));
        }
    }

    /// Every operation of the given families to try on content `s`.
    pub fn ops(&mut self, cap: usize, s: &str, fam: u8, f: &mut dyn FnMut(&Op)) {
        self.prepare(cap, s);
        let (near, far, strs) =
            (std::mem::take(&mut self.near), std::mem::take(&mut self.far), std::mem::take(&mut self.strs));
        let free = cap - s.len();
        let chars = &self.args.chars;
        let all_idx = || near.iter().chain(far.iter()).copied();
        if fam & F_APP != 0 {
            for c in chars {
                f(&Op::TryPush(*c));
                f(&Op::WriteChar(*c));
                for i in all_idx() {
                    f(&Op::TryInsert(i, *c));
                }
            }
            for t in &strs {
                f(&Op::TryPushStr(t));
                f(&Op::WriteStr(t));
                for i in near.iter() {
                    f(&Op::TryInsertStr(*i, t));
                }
            }
            for i in &far {
                for t in strs.iter().filter(|t| t.len() <= 2 || t.len() == free || t.len() + 1 == free || t.len() == 256)
                {
                    f(&Op::TryInsertStr(*i, t));
                }
            }
            for a in strs.iter().filter(|t| t.len() <= 2 || t.len() == free || t.len() == free + 1) {
                for b in strs.iter().filter(|t| t.len() <= 3) {
                    f(&Op::WriteFmt(a, b));
                }
            }
        }
        if fam & F_TRUNC != 0 {
            for t in &strs {
                f(&Op::PushStrTrunc(t));
                f(&Op::Add(t));
                f(&Op::ExtendChars(t));
                for i in near.iter() {
                    f(&Op::InsertStrTrunc(*i, t));
                }
            }
            for i in &far {
                for t in strs.iter().filter(|t| t.len() <= 2 || t.len() == free || t.len() == free + 1 || t.len() == 256)
                {
                    f(&Op::InsertStrTrunc(*i, t));
                }
            }
            for t in &self.args.small_chars {
                f(&Op::ExtendRefs(t));
            }
            for t in &self.args.lists {
                f(&Op::ExtendStrs(t));
            }
            if !matches!(self.mode, Mode::Graph | Mode::Tiny) {
                for l in free.saturating_sub(4)..=free + 2 {
                    for a in self.args.of_len(l) {
                        for b in ["", "A", "\u{400}", "\u{ac00}", "\u{10400}", "AB\u{400}"] {
                            f(&Op::ExtendStrs(&[a, b]));
                            f(&Op::ExtendStrs(&[b, a, "Z"]));
                        }
                    }
                }
                for t in strs.iter().filter(|t| t.len() > self.small_max && t.len() < 300) {
                    let cs: Vec<char> = t.chars().collect();
                    f(&Op::ExtendRefs(&cs));
                }
            }
        }
        if fam & F_REPL != 0 {
            self.each_range(s.len(), &near, &far, &mut |r, first| {
                // the texts whose result is around the capacity for this range, and the small ones
                let (a, b) = crate::model::resolve(&r, s.len());
                let removed = match (a, b) {
                    (Some(a), Some(b)) if a <= b && b <= s.len() => b - a,
                    _ => 0,
                };
                let inside = matches!((a, b), (Some(a), Some(b)) if a <= b && b <= s.len());
                if !inside && matches!(self.mode, Mode::Large | Mode::Sparse | Mode::Tiny) {
                    // fails whatever the text: an empty, a small, a fitting and a too long one
                    f(&Op::Replace(r, ""));
                    f(&Op::Replace(r, "A"));
                    for t in self.args.of_len(free).iter().take(2).chain(self.args.of_len(cap + 1).iter().take(1)) {
                        f(&Op::Replace(r, t));
                    }
                    return;
                }
                let room = free + removed;
                for t in &strs {
                    let l = t.len();
                    let boundary = l + 2 >= room && l <= room + 2;
                    let small = l <= if first { self.small_max.min(4) } else { 1 };
                    if boundary || small || (first && l >= 255 && l <= 257) {
                        f(&Op::Replace(r, t));
                    }
                }
                if self.mode == Mode::Tiny {
                    for t in self.args.of_len(room).iter().chain(self.args.of_len(room + 1)) {
                        f(&Op::Replace(r, t));
                    }
                } else if self.mode != Mode::Graph {
                    for l in room.saturating_sub(2)..=room + 2 {
                        for t in self.args.of_len(l) {
                            f(&Op::Replace(r, t));
                        }
                    }
                    // same length as what goes, one less, one more
                    for l in removed.saturating_sub(1)..=removed + 1 {
                        for t in self.args.of_len(l).iter().take(4) {
                            f(&Op::Replace(r, t));
                        }
                    }
                }
            });
        }
        if fam & F_REM != 0 {
            f(&Op::Pop);
            f(&Op::Clear);
            f(&Op::Trim);
            for i in all_idx() {
                f(&Op::Remove(i));
                f(&Op::Truncate(i));
            }
            let m = s.chars().count();
            f(&Op::Retain(Pred::Ws));
            if m <= if self.mode == Mode::Tiny { 2 } else { 10 } {
                for k in 0..1u64 << m {
                    f(&Op::Retain(Pred::Mask(k)));
                }
            } else {
                f(&Op::Retain(Pred::Mask(0)));
                f(&Op::Retain(Pred::Mask(!0)));
                for k in (0..m).filter(|k| self.mode != Mode::Tiny || *k == 0 || k + 1 == m) {
                    f(&Op::Retain(Pred::DropAt(k as u16)));
                    f(&Op::Retain(Pred::KeepAt(k as u16)));
                }
                for k in 2..8 {
                    f(&Op::Retain(Pred::Mod(k)));
                }
                for k in [0x5555_5555_5555_5555u64, 0xff00_ff00_ff00_ff00, 0x7fff_ffff_ffff_fffe] {
                    f(&Op::Retain(Pred::Mask(k)));
                    f(&Op::Retain(Pred::Mask(!k)));
                }
            }
            if let Some(c) = s.chars().next() {
                f(&Op::Retain(Pred::NotChar(c)));
            }
        }
        if fam & F_DRAIN != 0 {
            for i in all_idx() {
                f(&Op::SplitOff(i));
            }
            self.each_range(s.len(), &near, &far, &mut |r, _| f(&Op::Drain(r)));
        }
        self.near = near;
        self.far = far;
        self.strs = strs;
    }

    /// Every range over the given positions, in every form. `first` marks one form per pair of ends.
    fn each_range(&self, len: usize, near: &[usize], far: &[usize], f: &mut dyn FnMut(Rng, bool)) {
        let edge = if self.mode == Mode::Tiny { 1 } else { 4 };
        let sparse = |i: usize| matches!(self.mode, Mode::Graph | Mode::Small) || i <= edge || i + edge >= len + (edge == 1) as usize;
        for form in 0..FORMS {
            let full = form == 0 || matches!(self.mode, Mode::Graph | Mode::Small);
            match form {
                0 | 1 | 6 | 7 => {
                    for a in near {
                        for b in near {
                            if full || (sparse(*a) && sparse(*b)) {
                                f(Rng { form, s: *a, e: *b }, form == 0);
                            }
                        }
                    }
                    for (k, x) in far.iter().enumerate() {
                        for b in [0, len / 2, len, *x, usize::MAX] {
                            f(Rng { form, s: *x, e: b }, false);
                            f(Rng { form, s: b, e: *x }, false);
                        }
                        if let Some(y) = far.get(k + 1) {
                            f(Rng { form, s: *x, e: *y }, false);
                            f(Rng { form, s: *y, e: *x }, false);
                        }
                    }
                }
                2 | 8 => {
                    for a in near.iter().chain(far) {
                        f(Rng { form, s: *a, e: 0 }, form == 2);
                    }
                }
                3 | 4 => {
                    for b in near.iter().chain(far) {
                        f(Rng { form, s: 0, e: *b }, form == 3);
                    }
                }
                _ => f(Rng { form, s: 0, e: 0 }, true),
            }
        }
    }

    /// Every constructor call to try for a capacity.
    pub fn ctors(&mut self, cap: usize, fam: CtorFam, f: &mut dyn FnMut(&Ctor)) {
        self.prepare(cap, "");
        let strs = std::mem::take(&mut self.strs);
        match fam {
            CtorFam::Strict => {
                f(&Ctor::New);
                f(&Ctor::Default);
                for t in &strs {
                    f(&Ctor::TryFromStr(t));
                    f(&Ctor::FromStr(t));
                    f(&Ctor::TryFromChars(t));
                    f(&Ctor::TryFromIter(&[t]));
                }
                self.lists(cap, &mut |l| f(&Ctor::TryFromIter(l)));
            }
            CtorFam::Trunc => {
                for t in &strs {
                    f(&Ctor::FromStrTrunc(t));
                    f(&Ctor::From(t));
                    f(&Ctor::FromCharsTrunc(t));
                    f(&Ctor::CollectChars(t));
                    f(&Ctor::FromIterTrunc(&[t]));
                    f(&Ctor::CollectStrs(&[t]));
                }
                self.lists(cap, &mut |l| {
                    f(&Ctor::FromIterTrunc(l));
                    f(&Ctor::CollectStrs(l));
                });
            }
            CtorFam::Utf16 => self.units(cap, f),
        }
        self.strs = strs;
    }

    fn lists(&self, cap: usize, f: &mut dyn FnMut(&[&str])) {
        for l in &self.args.lists {
            f(l);
        }
        if self.mode == Mode::Tiny {
            for t in self.args.of_len(cap).iter().chain(self.args.of_len(cap + 1)) {
                for k in [0, 1, cap / 2, cap] {
                    if t.is_char_boundary(k) {
                        f(&[&t[..k], "", &t[k..], "A"]);
                    }
                }
            }
            return;
        }
        // a text of about the capacity, split anywhere, with empty items and a tail
        for l in cap.saturating_sub(4)..=cap + 5 {
            for t in self.args.of_len(l) {
                for k in 0..=t.len() {
                    if t.is_char_boundary(k) && (cap <= 40 || k <= 4 || k + 4 >= t.len() || k % 16 == 0) {
                        f(&[&t[..k], &t[k..]]);
                        f(&[&t[..k], "", &t[k..], "A"]);
                    }
                }
            }
        }
        // single characters
        for l in cap.saturating_sub(2)..=cap + 3 {
            for t in self.args.of_len(l) {
                let mut ix: Vec<usize> = t.char_indices().map(|x| x.0).collect();
                ix.push(t.len());
                let parts: Vec<&str> = ix.windows(2).map(|w| &t[w[0]..w[1]]).collect();
                f(&parts);
            }
        }
    }

    fn units(&self, cap: usize, f: &mut dyn FnMut(&Ctor)) {
        let mut try_all = |u: &[u16]| {
            f(&Ctor::TryUtf16(u));
            f(&Ctor::Utf16Trunc(u));
            f(&Ctor::Utf16Lossy(u));
        };
        // every sequence over one unit per class, up to a depth
        let alpha: &[u16] = &[0x41, 0xe9, 0x20ac, 0xd83d, 0xde00];
        let depth = match self.mode {
            Mode::Small => (cap + 2).min(6),
            Mode::Sparse | Mode::Tiny => 2,
            _ => 3,
        };
        let mut seq = vec![];
        fn rec(alpha: &[u16], depth: usize, seq: &mut Vec<u16>, f: &mut dyn FnMut(&[u16])) {
            f(seq);
            if depth == 0 {
                return;
            }
            for a in alpha {
                seq.push(*a);
                rec(alpha, depth - 1, seq, f);
                seq.pop();
            }
        }
        rec(alpha, depth, &mut seq, &mut try_all);
        // the same tails after a prefix that leaves 0..8 bytes of room
        let tail_depth = match self.mode {
            Mode::Sparse => 2,
            Mode::Tiny => 1,
            _ => 4,
        };
        for room in 0..=8usize.min(cap) {
            for pat in [0usize, 1, 2, 3] {
                if self.mode == Mode::Tiny && room > 3 || matches!(self.mode, Mode::Sparse | Mode::Tiny) && pat != 0 && pat != 3 {
                    continue;
                }
                let pre = shaped(cap - room, pat, true);
                let mut u: Vec<u16> = pre.encode_utf16().collect();
                rec(alpha, tail_depth, &mut u, &mut try_all);
                // an unpaired unit early on
                for bad in [0xd800u16, 0xdbff, 0xdc00, 0xdfff] {
                    let mut v = vec![bad];
                    v.extend_from_slice(&u);
                    try_all(&v);
                    v.extend_from_slice(&[0x41, bad]);
                    try_all(&v);
                    let m = v.len() / 2;
                    v.remove(0);
                    v.insert(m, bad);
                    try_all(&v);
                }
            }
        }
        // long texts
        for l in [255, 256, 257, 300, 512, 600] {
            for t in self.args.of_len(l) {
                let u: Vec<u16> = t.encode_utf16().collect();
                try_all(&u);
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CtorFam {
    Strict,
    Trunc,
    Utf16,
}

/// Characters with something special about them.
pub fn interesting() -> Vec<char> {
    let mut v: Vec<char> = vec![];
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
        if c.is_whitespace() {
            v.push(c);
        }
    }
    v.extend(
        "aZ09_\u{0}\u{1}\u{7}\u{8}\u{1b}\u{1c}\u{1f}!\u{7e}\u{7f}\u{80}\u{84}\u{86}\u{9f}\u{a1}\u{ad}\u{df}é\u{ff}\u{130}\u{131}\u{300}\u{301}\u{37e}\u{7ff}\u{800}\u{180e}\u{1fff}\u{200b}\u{200c}\u{200d}\u{200e}\u{202e}\u{2060}\u{212a}\u{20ac}\u{3001}\u{3164}\u{ac00}\u{d7ff}\u{e000}\u{f8ff}\u{fb01}\u{feff}\u{fffd}\u{fffe}\u{ffff}\u{10000}\u{1d11e}\u{1f468}\u{1f600}\u{e0001}\u{e0061}\u{10fffe}\u{10ffff}"
            .chars(),
    );
    v
}

/// Contents to try for a capacity too large for all of them.
pub fn large_contents(cap: usize, many: bool) -> Vec<String> {
    let mut v = vec![];
    let mut lens: Vec<usize> = vec![0, 1, cap, cap - 1];
    if many {
        for x in [2, 3, 4, 5, cap / 2, cap / 2 + 1, cap.saturating_sub(2), cap.saturating_sub(3), cap.saturating_sub(4), 31, 32, 33, 63, 64, 65, 127, 128, 129]
        {
            if x <= cap {
                lens.push(x);
            }
        }
    } else {
        for x in [cap / 2, cap.saturating_sub(3)] {
            lens.push(x);
        }
    }
    lens.sort();
    lens.dedup();
    for l in lens {
        for p in 0..PATTERNS {
            if !many && matches!(p, 4 | 5 | 8) {
                continue;
            }
            let s = shaped(l, p, false);
            if !v.contains(&s) {
                v.push(s);
            }
        }
    }
    v
}

/// Largest prefix check helper for contents.
pub fn fits(s: &str, cap: usize) -> bool {
    floor(s, cap).len() == s.len()
}
