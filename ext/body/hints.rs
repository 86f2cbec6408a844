// Every honest way an iterator may announce its length, and iterators that resume after their end:
// the result depends on the items up to the first end only.
/// An iterator whose size hint is true but tells as much or as little as `style` says.
struct Honest<I> {
    it: I,
    style: usize,
    /// items yielded after the first end
    extra: usize,
    ended: bool,
}
const STYLES: usize = 9;
impl<X: Copy, I: ExactSizeIterator<Item = X> + Clone> Iterator for Honest<I> {
    type Item = X;
    fn next(&mut self) -> Option<X> {
        if self.ended && self.extra > 0 {
            self.extra -= 1;
            return self.it.clone().next();
        }
        // the last item is kept for after the end by the resuming style
        if self.style == 7 && self.it.len() == 1 && !self.ended {
            self.ended = true;
            self.extra = 3;
            return None;
        }
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.it.len() - (self.style == 7 && self.it.len() > 0) as usize;
        match self.style {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n)),
            3 => (0, Some(2 * n + 7)),
            4 => (0, Some(usize::MAX)),
            5 => (n, None),
            6 => (n / 2, Some(n + 1)),
            7 => (0, Some(n)),
            _ => (n.min(1), Some(n + 300)),
        }
    }
}
fn honest<X: Copy, I: ExactSizeIterator<Item = X> + Clone>(it: I, style: usize) -> Honest<I> {
    Honest { it, style, extra: 0, ended: false }
}

fn inputs(cap: usize, deep: bool, mini: bool) -> Vec<String> {
    if cap <= 4 && !mini {
        return all_strings(cap + 3 + deep as usize, false);
    }
    let mut v: Vec<String> = vec![];
    let mut lens: Vec<usize> = vec![0, 1, 3, cap / 2];
    lens.extend(cap.saturating_sub(4)..=cap + 5);
    lens.push(2 * cap + 1);
    if mini {
        lens = vec![0, cap, cap + 1];
    }
    for c in ["a", "\u{e9}", "\u{20ac}", "\u{1d11e}", "a\u{e9}\u{20ac}\u{1d11e}", "\u{1d11e}\u{20ac}\u{e9}a"] {
        for pre in ["", "x", "xy"] {
            for n in &lens {
                let mut s = String::from(pre);
                for ch in c.chars().cycle() {
                    if s.len() + ch.len_utf8() > *n {
                        break;
                    }
                    s.push(ch);
                }
                v.push(s.clone());
                // one that does not fit before some that would
                while s.len() < *n {
                    s.push('b');
                }
                v.push(s.clone());
                v.push(s + "\u{1d11e}cd");
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn units(deep: bool, mini: bool) -> usize {
    inputs(T::capacity(), deep, mini).len()
}

pub fn run(u: usize, cx: &mut Cx) {
    let cap = T::capacity();
    let input = &inputs(cap, cx.deep, cx.mini)[u];
    let all: Vec<char> = input.chars().collect();
    // the same text in pieces: one character each, pairs with empty texts between, and whole
    let ones: Vec<&str> = input.char_indices().map(|(i, c)| &input[i..i + c.len_utf8()]).collect();
    let mut pairs: Vec<&str> = vec![];
    let mut i = 0;
    while i < input.len() {
        let mut j = i + 1;
        while !input.is_char_boundary(j) {
            j += 1;
        }
        if j < input.len() {
            j += 1;
            while !input.is_char_boundary(j) {
                j += 1;
            }
        }
        pairs.push(&input[i..j]);
        pairs.push("");
        i = j;
    }
    let lists: [&[&str]; 3] = [&ones, &pairs, &[&input[..]]];
    let size = input.len();
    cx.ctx = u as u64;
    for style in 0..STYLES {
        let cut = |n: usize| if style == 7 { n.saturating_sub(1) } else { n };
        let text: String = all[..cut(all.len())].iter().collect();
        macro_rules! case {
            ($op:expr, $of:expr, $name:literal, $got:expr, $want:expr) => {{
                let code = || format!("// iterator over {:?} with honest size hint of style {}\nlet r = {};", $of, style, $name.replace("T", TY));
                if let Some(g) = cx.call($op, &code, || -> Option<T> { $got }) {
                    let want: Option<String> = $want;
                    cx.same($op, "content", size, &g.as_ref().map(|s| content(s.as_str(), T::capacity())), &want.as_deref(), &code);
                }
            }};
        }
        let full = |s: &str| Some(floor(s, cap).to_string());
        let fits = |s: &str| (s.len() <= cap).then(|| s.to_string());
        if cx.wants(&["C09"]) {
            case!(TRUNC, all, "T::from_chars_truncate(it)", Some(T::from_chars_truncate(honest(all.iter().copied(), style))), full(&text));
            case!(TRUNC, all, "it.collect::<T>()", Some(honest(all.iter().copied(), style).collect()), full(&text));
        }
        if cx.wants(&["C08"]) {
            case!(STRICT, all, "T::try_from_chars(it).ok()", T::try_from_chars(honest(all.iter().copied(), style)).ok(), fits(&text));
        }
        for l in lists {
            let ltext = l[..cut(l.len())].concat();
            if cx.wants(&["C09"]) {
                case!(TRUNC, l, "T::from_iterator_truncate(it)", Some(T::from_iterator_truncate(honest(l.iter().copied(), style))), full(&ltext));
                case!(TRUNC, l, "it.collect::<T>()", Some(honest(l.iter().copied(), style).collect()), full(&ltext));
            }
            if cx.wants(&["C08"]) {
                case!(STRICT, l, "T::try_from_iterator(it).ok()", T::try_from_iterator(honest(l.iter().copied(), style)).ok(), fits(&ltext));
            }
        }
        if cx.wants(&["C03"]) {
            let mut olds = vec![0, 1, cap / 2, cap.saturating_sub(3), cap - 1, cap];
            olds.dedup();
            for n in olds {
                let old = "o".repeat(n);
                let s0 = mc_core::build!(T, &old, 2);
                let more = |t: &str| Some(floor(&format!("{}{}", old, t), cap).to_string());
                macro_rules! ext {
                    ($of:expr, $name:literal, $it:expr, $t:ty, $text:expr) => {
                        case!(EXTEND, (&old, &$of), $name, { let mut s = s0; <T as Extend<$t>>::extend(&mut s, $it); Some(s) }, more($text))
                    };
                }
                ext!(all, "T.extend(it)", honest(all.iter().copied(), style), char, &text);
                ext!(all, "T.extend(it of references)", honest(all.iter(), style), &char, &text);
                for l in lists {
                    ext!(l, "T.extend(it of texts)", honest(l.iter().copied(), style), &str, &l[..cut(l.len())].concat());
                }
            }
        }
    }
    cx.sample(9973, &|| format!("iterators over {:?}, every style of size hint", input));
}
