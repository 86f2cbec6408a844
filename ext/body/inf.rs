// Iterators that never end: every call returns, with the right prefix.
const TRUNC: usize = 0;
const STRICT: usize = 1;
const EXTEND: usize = 2;

/// Pulls after which a call counts as not ending.
const BUDGET: usize = 200_000;
struct Forever<'a, X> {
    first: &'a [X],
    then: &'a [X],
    n: usize,
    left: usize,
}
impl<X: Copy> Iterator for Forever<'_, X> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        if self.left == 0 {
            panic!("still asking after {} items", BUDGET);
        }
        self.left -= 1;
        let i = self.n;
        self.n += 1;
        Some(if i < self.first.len() { self.first[i] } else { self.then[(i - self.first.len()) % self.then.len()] })
    }
}
fn forever<'a, X>(first: &'a [X], then: &'a [X]) -> Forever<'a, X> {
    Forever { first, then, n: 0, left: BUDGET }
}

const CYCLES: [&str; 9] = ["a", "\u{e9}", "\u{20ac}", "\u{1d11e}", "a\u{1d11e}", "\u{1d11e}a", "\u{20ac}\u{e9}a", "ab\u{20ac}", "\u{e9}\u{1d11e}"];
const WORDS: [&[&str]; 9] = [
    &["a"],
    &["\u{20ac}"],
    &["ab", ""],
    &["", "", "\u{1d11e}"],
    &["a\u{e9}", "\u{20ac}"],
    &["abcdefghijklmnopqrstuvwxyz0123456789"],
    &["\u{1d11e}\u{1d11e}\u{1d11e}", "x"],
    &["", "\u{e9}\u{20ac}\u{1d11e}a"],
    &["xyz", "\u{1d11e}"],
];

mod hints {
    use super::*;
    include!("hints.rs");
}

const OWN: usize = CYCLES.len() * 5;
pub fn units(deep: bool, mini: bool) -> usize {
    OWN + if mini { 0 } else { hints::units(deep, mini) }
}

pub fn run(u: usize, cx: &mut Cx) {
    if u >= OWN {
        hints::run(u - OWN, cx);
        return;
    }
    let cap = T::capacity();
    let (k, l) = (u / 5, u % 5);
    let first: String = "z".repeat(l);
    let first_c: Vec<char> = first.chars().collect();
    let cycle: Vec<char> = CYCLES[k].chars().collect();
    let words = WORDS[k];
    let first_w: Vec<&str> = ["z", "", "zz", "y"][..l.min(4)].to_vec();
    cx.ctx = u as u64;
    let mut all_c: String = first.clone();
    while all_c.len() < 2 * cap + 8 {
        all_c.push_str(CYCLES[k]);
    }
    let mut all_w: String = first_w.concat();
    while all_w.len() < 2 * cap + 64 {
        all_w.push_str(&words.concat());
    }
    let size = cap + u;
    let chars = |f: &str| format!("let r = {};", f.replace("T::", &format!("{}::", TY)).replace("IT", &format!("{:?}.chars().chain({:?}.chars().cycle())", first, CYCLES[k])));
    let strs = |f: &str| format!("let r = {};", f.replace("T::", &format!("{}::", TY)).replace("IT", &format!("{:?}.into_iter().chain({:?}.into_iter().cycle())", first_w, words)));
    let (want_c, want_w) = (floor(&all_c, cap), floor(&all_w, cap));
    macro_rules! trunc {
        ($code:expr, $name:literal, $e:expr, $want:expr) => {{
            let code = || $code($name);
            match cx.call(TRUNC, &code, || $e) {
                Some(s) => {
                    cx.same(TRUNC, "content", size, &content(s.as_str(), T::capacity()), &$want, &code);
                }
                None => cx.check(false, TRUNC, "does not end", size, &|| format!("still asking for items after {}", BUDGET), &code),
            }
        }};
    }
    if cx.wants(&["C09"]) {
    trunc!(chars, "T::from_chars_truncate(IT)", T::from_chars_truncate(forever(&first_c, &cycle)), want_c);
    trunc!(chars, "<T as FromIterator<char>>::from_iter(IT)", <T as FromIterator<char>>::from_iter(forever(&first_c, &cycle)), want_c);
    trunc!(strs, "T::from_iterator_truncate(IT)", T::from_iterator_truncate(forever(&first_w, words)), want_w);
    trunc!(strs, "<T as FromIterator<&str>>::from_iter(IT)", <T as FromIterator<&str>>::from_iter(forever(&first_w, words)), want_w);
    }
    // strict constructors refuse; extending keeps the prefix
    if cx.wants(&["C08"]) {
        let code = || chars("T::try_from_chars(IT)");
        match cx.call(STRICT, &code, || T::try_from_chars(forever(&first_c, &cycle)).is_ok()) {
            Some(r) => {
                cx.same(STRICT, "success", size, &r, &false, &code);
            }
            None => cx.check(false, STRICT, "does not end", size, &|| format!("still asking for items after {}", BUDGET), &code),
        }
        let code = || strs("T::try_from_iterator(IT)");
        match cx.call(STRICT, &code, || T::try_from_iterator(forever(&first_w, words)).is_ok()) {
            Some(r) => {
                cx.same(STRICT, "success", size, &r, &false, &code);
            }
            None => cx.check(false, STRICT, "does not end", size, &|| format!("still asking for items after {}", BUDGET), &code),
        }
    }
    if cx.wants(&["C03"]) {
        for n in [0, 1, cap / 2, cap.saturating_sub(1), cap] {
            let old = "o".repeat(n);
            let s0 = mc_core::build!(T, &old, 2);
            let all_c = format!("{}{}", old, all_c);
            let all_w = format!("{}{}", old, all_w);
            macro_rules! ext {
                ($code:expr, $name:literal, $it:expr, $t:ty, $want:expr) => {{
                    let code = || format!("let mut s = {}::from_str_truncate({:?});\n{}", TY, old, $code($name));
                    let mut s = s0;
                    match cx.call(EXTEND, &code, || <T as Extend<$t>>::extend(&mut s, $it)) {
                        Some(()) => {
                            cx.same(EXTEND, "content", size, &content(s.as_str(), T::capacity()), &$want, &code);
                        }
                        None => cx.check(false, EXTEND, "does not end", size, &|| format!("still asking for items after {}", BUDGET), &code),
                    }
                }};
            }
            ext!(chars, "s.extend(IT)", forever(&first_c, &cycle), char, floor(&all_c, cap));
            let refs: Vec<&char> = first_c.iter().collect();
            let refs2: Vec<&char> = cycle.iter().collect();
            ext!(chars, "s.extend(IT /* by reference */)", forever(&refs, &refs2), &char, floor(&all_c, cap));
            ext!(strs, "s.extend(IT)", forever(&first_w, words), &str, floor(&all_w, cap));
        }
    }
    cx.sample(997, &|| chars("T::from_chars_truncate(IT)"));
}
