// Draining iterators: every range, every interleaving of front and back steps.
use std::collections::VecDeque;

pub fn units(deep: bool, mini: bool) -> usize {
    texts(T::capacity(), 6, deep, mini).len()
}

const MAKE: usize = 0;
const STEP: usize = 1;
const LOOK: usize = 2;
const ALT: usize = 3;

pub fn run(u: usize, cx: &mut Cx) {
    let all = texts(T::capacity(), 6, cx.deep, cx.mini);
    let text = &all[u];
    let len = text.len();
    let mut bounds: Vec<usize> = (0..=len).filter(|i| text.is_char_boundary(*i)).collect();
    if bounds.len() > 9 {
        // the ends, the middle and a few around them
        let m = bounds.len();
        bounds = [0, 1, 2, m / 2 - 1, m / 2, m / 2 + 1, m - 3, m - 2, m - 1].iter().map(|i| bounds[*i]).collect();
        bounds.dedup();
    }
    for stale in [0u8, 2] {
        let s0 = mc_core::build!(T, text.as_str(), stale);
        for &a in &bounds {
            for &b in &bounds {
                if a <= b {
                    one(cx, &s0, text, a, b, stale);
                }
            }
        }
    }
}

fn one(cx: &mut Cx, s0: &T, text: &str, a: usize, b: usize, stale: u8) {
    let piece = &text[a..b];
    let rest = format!("{}{}", &text[..a], &text[b..]);
    let size = text.len();
    let head = || format!("let mut s = {}::from_str_truncate({:?});\nlet mut d = s.drain({}..{}).unwrap();\n", TY, text, a, b);
    let mut s = *s0;
    let Some(r) = cx.call(MAKE, &head, || s.drain(a..b)) else { return };
    let Ok(d) = r else {
        cx.check(false, MAKE, "refused", size, &|| "drain of a valid range failed".into(), &head);
        return;
    };
    cx.same(MAKE, "string after drain", size, &content(s.as_str(), T::capacity()), &&rest[..], &head);
    cx.check(s.as_str() == rest, MAKE, "string after drain", size, &|| format!("the string holds {:?}, expected {:?}", s.as_str(), rest), &head);
    let chars: Vec<char> = piece.chars().collect();
    let m = chars.len();
    let ctx = hash_bytes(a as u64 * 256 + b as u64, text.as_bytes());
    cx.ctx = ctx;
    cx.seen_str(MAKE, ctx, s.as_str());
    // all words of front/back steps for short pieces, regular ones for long pieces
    let words: Vec<(u64, usize)> = if m <= 6 {
        let n = m + 2;
        (0..1u64 << n).map(|w| (w, n)).collect()
    } else {
        vec![
            (0, m + 2),
            (!0, m + 2),
            (0x5555_5555_5555_5555, m + 2),
            (0xaaaa_aaaa_aaaa_aaaa, m + 2),
            (0x3333_3333_3333_3333, m + 2),
            (0xff00_ff00_ff00_ff00, m + 2),
        ]
    };
    for (w, n) in words {
        walk(cx, &d, &chars, w, n, &head, size, ctx);
    }
    // other ways of consuming, from every state reached by i front and j back steps
    let lim = if m <= 6 { m } else { 2 };
    for i in 0..=lim {
        for j in 0..=lim.saturating_sub(i) {
            let mut e = d;
            for _ in 0..i {
                e.next();
            }
            for _ in 0..j {
                e.next_back();
            }
            let left: Vec<char> = chars[i.min(m)..m - j.min(m - i.min(m))].to_vec();
            consume(cx, &e, &left, &|| format!("{}for _ in 0..{} {{ d.next(); }}\nfor _ in 0..{} {{ d.next_back(); }}\n", head(), i, j), size);
        }
    }
    cx.check(s.as_str() == rest, MAKE, "string after iterating", size, &|| format!("the string became {:?}", s.as_str()), &head);
    cx.sample(50_021, &|| format!("{} stale {} => {:?} and {:?}", head().replace('\n', " "), stale, piece, rest));
}

fn walk(cx: &mut Cx, d: &Drain<{ N }>, chars: &[char], w: u64, n: usize, head: &dyn Fn() -> String, size: usize, ctx: u64) {
    let mut d = *d;
    let (mut lo, mut hi) = (0usize, chars.len());
    let mut want = String::new();
    for k in 0..n {
        let back = w >> (k & 63) & 1 == 1;
        let code = || {
            let steps: String = (0..=k).map(|i| if w >> (i & 63) & 1 == 1 { "d.next_back();" } else { "d.next();" }).collect();
            format!("{}{}", head(), steps)
        };
        let exp = if lo < hi {
            if back {
                hi -= 1;
                Some(chars[hi])
            } else {
                lo += 1;
                Some(chars[lo - 1])
            }
        } else {
            None
        };
        let Some(got) = cx.call(STEP, &code, || if back { d.next_back() } else { d.next() }) else { return };
        cx.check(got == exp, STEP, "step", size + k, &|| format!("step {} returned {:?}, expected {:?}", k + 1, got, exp), &code);
        cx.seen(STEP, mix(ctx, mix(w & 2u64.wrapping_shl(k as u32).wrapping_sub(1), got.map(|c| c as u64 + 1).unwrap_or(0))));
        let dr = &d;
        let Some(rem) = cx.call(LOOK, &code, || dr.as_str()) else { return };
        want.clear();
        want.extend(&chars[lo..hi]);
        cx.check(rem == want, LOOK, "remaining text", size + k, &|| format!("as_str() shows {:?}, expected {:?}", rem, want), &code);
        let hint = d.size_hint();
        let left = hi - lo;
        cx.check(
            hint.0 <= left && hint.1.map_or(true, |x| x >= left),
            LOOK,
            "size_hint",
            size + k,
            &|| format!("size_hint() is {:?} with {} characters left", hint, left),
            &code,
        );
        if got != exp || rem != want {
            return;
        }
    }
}

fn consume(cx: &mut Cx, d: &Drain<{ N }>, left: &[char], head: &dyn Fn() -> String, size: usize) {
    let m = left.len();
    macro_rules! same {
        ($name:expr, $got:expr, $exp:expr) => {{
            let code = || format!("{}{}", head(), $name);
            let Some(got) = cx.call(ALT, &code, || $got) else { return };
            let exp = $exp;
            cx.same(ALT, $name, size, &got, &exp, &code);
        }};
    }
    same!("d.count()", (*d).count(), m);
    same!("d.last()", (*d).last(), left.last().copied());
    same!("d.eq(chars)", (*d).eq(left.iter().copied()), true);
    same!("d.rev().eq(chars)", (*d).rev().eq(left.iter().rev().copied()), true);
    same!("d.fold", (*d).fold(0u64, |h, c| h.wrapping_mul(31).wrapping_add(c as u64)), left.iter().fold(0u64, |h, c| h.wrapping_mul(31).wrapping_add(*c as u64)));
    same!("d.rfold", (*d).rfold(0u64, |h, c| h.wrapping_mul(31).wrapping_add(c as u64)), left.iter().rev().fold(0u64, |h, c| h.wrapping_mul(31).wrapping_add(*c as u64)));
    same!("d.max()", Iterator::max(*d), left.iter().copied().max());
    same!("d.min()", Iterator::min(*d), left.iter().copied().min());
    for k in 0..=(m + 1).min(8) {
        same!("d.nth(k) and the next one", { let mut e = *d; (e.nth(k), e.next(), e.next_back()) }, { let mut e = left.iter().copied(); (e.nth(k), e.next(), e.next_back()) });
        same!("d.nth_back(k) and the next one", { let mut e = *d; (e.nth_back(k), e.next(), e.next_back()) }, { let mut e = left.iter().copied(); (e.nth_back(k), e.next(), e.next_back()) });
        same!("d.skip(k).step_by(2)", (*d).skip(k).step_by(2).eq(left.iter().copied().skip(k).step_by(2)), true);
    }
    for c in left.iter().take(4) {
        same!("d.position", { *d }.position(|x| x == *c), left.iter().position(|x| x == c));
        same!("d.find", { *d }.find(|x| x == c), Some(*c));
        same!("d.rfind", { *d }.rfind(|x| x == c), Some(*c));
        same!("d.all(..)", { *d }.all(|x| x != *c), false);
    }
    same!("d.clone()", Clone::clone(d).as_str() == d.as_str() && Clone::clone(d).eq(left.iter().copied()), true);
    same!("e.clone_from(&d)", {
        let mut e = *d;
        e.next_back();
        let mut f = <Drain<{ N }>>::default();
        e.clone_from(d);
        f.clone_from(d);
        e.as_str() == d.as_str() && f.as_str() == d.as_str() && e.eq(left.iter().copied()) && f.rev().eq(left.iter().rev().copied())
    }, true);
    same!("for c in d", { let mut i = 0; let mut ok = true; for c in *d { ok &= left.get(i) == Some(&c); i += 1; } ok && i == m }, true);
    // collecting back, into the same type and by reference
    same!("d.collect::<T>()", { let t: T = (*d).collect(); t.chars().eq(left.iter().copied()) }, true);
    same!("by_ref().take(1) then the rest", { let mut e = *d; let a = e.by_ref().take(1).last(); let b = e.as_str().chars().eq(left.iter().skip(1).copied()); (a, b) }, (left.first().copied(), true));
}
const N: usize = if KEY == 256 { 63 } else { KEY };
