// Indexing with every form of u8 range, and edits through mutable views.
use std::borrow::BorrowMut;
use std::ops::*;

const INDEX: usize = 0;
const MUT: usize = 1;
const VIEW: usize = 2;

pub fn units(deep: bool, mini: bool) -> usize {
    texts(T::capacity(), 5, deep, mini).len()
}

pub fn run(u: usize, cx: &mut Cx) {
    let all = texts(T::capacity(), 5, cx.deep, cx.mini);
    let text = &all[u][..];
    let len = text.len();
    let cap = T::capacity();
    cx.ctx = hash_bytes(7, text.as_bytes());
    // every pair of bytes for one text of each capacity, positions around the text and the limits else
    let full = !cx.mini && (u + 1 == all.len() && (cx.deep || matches!(KEY, 4 | 63 | 128 | 255 | 256))) ;
    let pos: Vec<u8> = if full {
        (0..=255).collect()
    } else {
        let mut p: Vec<usize> = if len <= 10 { (0..=len + 2).collect() } else {
            let mut p = spread(&(0..=len + 1).collect::<Vec<_>>(), 12);
            p.extend([len - 2, len - 1, len, len + 1, len / 2 + 1]);
            p
        };
        p.extend([cap, cap + 1, 127, 128, 254, 255]);
        p.retain(|x| *x <= 255);
        p.sort();
        p.dedup();
        p.into_iter().map(|x| x as u8).collect()
    };
    let s0 = mc_core::build!(T, text, (u % 4) as u8);
    for &a in &pos {
        for &b in &pos {
            macro_rules! range {
                ($name:literal, $r:expr, $std:expr) => {{
                    // what str does
                    let want: Option<(usize, usize)> = text.get($std).map(|x| (x.as_ptr() as usize - text.as_ptr() as usize, x.len()));
                    let code = || format!("let s = {}::from_str_truncate({:?});\nlet (a, b) = ({}u8, {}u8);\nlet r = &s[{}];", TY, text, a, b, $name);
                    {
                        let s = &s0;
                        let base = s.as_str().as_ptr() as usize;
                        let got = cx.may_panic(INDEX, &code, || -> &str { &s[$r] });
                        let txt = got.as_deref().ok();
                        let at = txt.map(|v| (v.as_ptr() as usize).wrapping_sub(base));
                        outcome(cx, INDEX, text, want, got.is_err(), txt, at, &code);
                    }
                    {
                        let mut s = s0;
                        let base = s.as_str().as_ptr() as usize;
                        let got = cx.may_panic(MUT, &code, || {
                            let v: &mut str = &mut s[$r];
                            let at = (v.as_ptr() as usize).wrapping_sub(base);
                            v.make_ascii_uppercase();
                            (at, v.len())
                        });
                        outcome(cx, MUT, text, want, got.is_err(), None, got.as_ref().ok().map(|g| g.0), &code);
                        let mut t = text.to_string();
                        if let (Ok(g), Some((p, l))) = (&got, want) {
                            cx.same(MUT, "length of the mutable slice", len, &g.1, &l, &code);
                            t[p..p + l].make_ascii_uppercase();
                        }
                        cx.same(MUT, "text after editing the slice", len, &content(s.as_str(), T::capacity()), &&t[..], &code);
                    }
                }};
            }
            let (x, y) = (a as usize, b as usize);
            range!("a..b", a..b, x..y);
            range!("a..=b", a..=b, x..=y);
            if b == pos[0] {
                range!("a..", a.., x..);
                range!("..a", ..a, ..x);
                range!("..=a", ..=a, ..=x);
                if a == pos[0] {
                    range!("..", .., ..);
                }
            }
            if a <= b && b as usize <= len + 1 && (x + 2 >= y || x == 0) {
                // partly or wholly used up
                range!("{ let mut r = a..b; r.next(); r }", { let mut r = a..b; r.next(); r }, { let mut r = x..y; r.next(); r });
                range!("{ let mut r = a..=b; r.next(); r }", { let mut r = a..=b; r.next(); r }, { let mut r = x..=y; r.next(); r });
                range!("{ let mut r = a..=b; r.next_back(); r }", { let mut r = a..=b; r.next_back(); r }, { let mut r = x..=y; r.next_back(); r });
                range!("{ let mut r = a..=b; r.by_ref().for_each(drop); r }", { let mut r = a..=b; r.by_ref().for_each(drop); r }, { let mut r = x..=y; r.by_ref().for_each(drop); r });
            }
        }
    }
    // edits through every mutable view, of every kind str allows
    let head = || format!("let mut s = {}::from_str_truncate({:?});\n", TY, text);
    macro_rules! view {
        ($name:literal, $s:ident, $v:expr) => {{
            for edit in 0..6usize {
                for at in spread(&boundaries(text), 6) {
                    let mut $s = s0;
                    let mut want = text.to_string();
                    apply_edit(&mut want, edit, at);
                    let code = || format!("{}let v: &mut str = {};\n// edit {} ({}) from byte {}\n", head(), $name, edit, EDITS[edit], at);
                    let got = cx.call(VIEW, &code, || {
                        let v: &mut str = $v;
                        apply_edit(v, edit, at);
                        v.len()
                    });
                    if let Some(n) = got {
                        cx.same(VIEW, "length of the view", len, &n, &len, &code);
                        cx.same(VIEW, "text after the edit", len, &content($s.as_str(), T::capacity()), &&want[..], &code);
                        cx.same(VIEW, "length after the edit", len, &$s.len(), &len, &code);
                    }
                }
            }
        }};
    }
    view!("s.as_mut_str()", s, s.as_mut_str());
    view!("AsMut::<str>::as_mut(&mut s)", s, AsMut::<str>::as_mut(&mut s));
    view!("&mut *s", s, { let d: &mut str = &mut *s; d });
    view!("BorrowMut", s, BorrowMut::<str>::borrow_mut(&mut s));
    view!("&mut s[..]", s, &mut s[..]);
    view!("&mut s[0..]", s, &mut s[0u8..]);
    view!("deref coercion", s, { let d: &mut ArrayString<{ if KEY == 256 { 63 } else { KEY } }> = &mut s; let e: &mut str = d; e });
    cx.sample(500_009, &|| format!("{}{} positions squared", head(), pos.len()));
}

const EDITS: [&str; 6] = ["upper case", "lower case", "rewrite each character", "split at and swap halves of ASCII", "get_mut", "nothing"];
fn apply_edit(s: &mut str, k: usize, at: usize) {
    match k {
        0 => s[at..].make_ascii_uppercase(),
        1 => s[..at].make_ascii_lowercase(),
        2 => {
            // each character by another of its width
            let mut i = at;
            while i < s.len() {
                let w = s[i..].chars().next().unwrap().len_utf8();
                let r = ["~", "\u{3b1}", "\u{20ac}", "\u{1f9ff}"][w - 1];
                unsafe { s.as_bytes_mut()[i..i + w].copy_from_slice(r.as_bytes()) };
                i += w;
            }
        }
        3 => {
            let (a, b) = s.split_at_mut(at);
            a.make_ascii_uppercase();
            b.make_ascii_lowercase();
        }
        4 => {
            if let Some(x) = s.get_mut(..at) {
                x.make_ascii_uppercase()
            }
        }
        _ => {}
    }
}

fn outcome(cx: &mut Cx, op: usize, text: &str, want: Option<(usize, usize)>, panicked: bool, txt: Option<&str>, at: Option<usize>, code: &dyn Fn() -> String) {
    let len = text.len();
    if panicked && want.is_some() {
        // C11: panics only when str would
        cx.always(!cx.panic || cx.functional, op, "panics", len, &|| "indexing panics where str indexing does not".into(), code);
    }
    cx.same(op, "panics", len, &panicked, &want.is_none(), code);
    if let (Some(at), Some((p, l))) = (at, want) {
        if l > 0 {
            cx.same(op, "position of the slice", len, &at, &p, code);
        }
        if let Some(t) = txt {
            cx.same(op, "slice", len, &t, &&text[p..p + l], code);
        }
    }
}
