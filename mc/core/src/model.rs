//! The reference model: a std `String` plus a capacity. Deliberately boring.
use crate::target::*;

/// Longest prefix of `s` of at most `max` bytes ending at a character boundary.
pub fn floor(s: &str, max: usize) -> &str {
    let mut e = max.min(s.len());
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    &s[..e]
}

/// What the model predicts for one operation on one content.
pub struct Exp {
    /// the operation succeeds
    pub ok: bool,
    /// result when it succeeds
    pub ret: Ret,
    pub text: String,
    /// content afterwards
    pub content: String,
    /// error kinds that apply when it fails
    pub oob: bool,
    pub utf8: bool,
}
impl Default for Exp {
    fn default() -> Self {
        Exp {
            ok: true,
            ret: Ret::Unit,
            text: String::with_capacity(2048),
            content: String::with_capacity(1024),
            oob: false,
            utf8: false,
        }
    }
}
impl Exp {
    fn fail(&mut self, oob: bool, utf8: bool) {
        self.ok = false;
        self.oob = oob;
        self.utf8 = utf8;
    }
    /// Is `obs` an error the model allows here?
    pub fn allows_err(&self, r: Ret) -> bool {
        !self.ok
            && match r {
                Ret::Oob | Ret::Fmt => self.oob,
                Ret::Utf8 => self.utf8,
                _ => false,
            }
    }
}

/// Start and end of a range over a string of length `len`; `None` stands for a number beyond usize.
pub fn resolve(r: &Rng, len: usize) -> (Option<usize>, Option<usize>) {
    use core::ops::Bound::*;
    let (s, e) = r.bounds();
    let s = match s {
        Included(x) => Some(x),
        Excluded(x) => x.checked_add(1),
        Unbounded => Some(0),
    };
    let e = match e {
        Included(x) => x.checked_add(1),
        Excluded(x) => Some(x),
        Unbounded => Some(len),
    };
    (s, e)
}

/// (valid, oob applies, utf8 applies) for a range over `s`.
fn range(r: &Rng, s: &str) -> (Option<(usize, usize)>, bool, bool) {
    let (a, b) = resolve(r, s.len());
    let inside = |x: Option<usize>| matches!(x, Some(v) if v <= s.len());
    let reversed = match (a, b) {
        (Some(a), Some(b)) => a > b,
        (None, Some(_)) => true,
        _ => false,
    };
    let oob = reversed || !inside(a) || !inside(b);
    let mid = |x: Option<usize>| matches!(x, Some(v) if v < s.len() && !s.is_char_boundary(v));
    let utf8 = mid(a) || mid(b);
    if oob || utf8 {
        (None, oob, utf8)
    } else {
        (Some((a.unwrap(), b.unwrap())), false, false)
    }
}

fn index(i: usize, s: &str) -> (bool, bool) {
    (i > s.len(), i < s.len() && !s.is_char_boundary(i))
}

pub fn predict(cap: usize, old: &str, op: &Op, x: &mut Exp) {
    x.ok = true;
    x.ret = Ret::Unit;
    x.text.clear();
    x.content.clear();
    x.content.push_str(old);
    x.oob = false;
    x.utf8 = false;
    let free = cap - old.len();
    let mut cb = [0u8; 4];
    match *op {
        Op::TryPush(c) | Op::WriteChar(c) => {
            x.ret = Ret::Ok;
            if c.len_utf8() <= free {
                x.content.push(c)
            } else {
                x.fail(true, false)
            }
        }
        Op::TryPushStr(t) | Op::WriteStr(t) => {
            x.ret = Ret::Ok;
            if t.len() <= free {
                x.content.push_str(t)
            } else {
                x.fail(true, false)
            }
        }
        Op::WriteFmt(a, b) => {
            // each piece is all-or-nothing; a failed piece ends the formatting
            x.ret = Ret::Ok;
            for p in [a, b] {
                if x.content.len() + p.len() <= cap {
                    x.content.push_str(p);
                } else {
                    x.fail(true, false);
                    break;
                }
            }
        }
        Op::TryInsert(i, _) | Op::TryInsertStr(i, _) => {
            let t: &str = match op {
                Op::TryInsertStr(_, t) => t,
                Op::TryInsert(_, c) => c.encode_utf8(&mut cb),
                _ => unreachable!(),
            };
            x.ret = Ret::Ok;
            let (oob, utf8) = index(i, old);
            if oob || utf8 || t.len() > free {
                x.fail(oob || t.len() > free, utf8)
            } else {
                x.content.insert_str(i, t)
            }
        }
        Op::PushStrTrunc(t) | Op::Add(t) | Op::ExtendChars(t) => x.content.push_str(floor(t, free)),
        Op::ExtendRefs(cs) => {
            for c in cs {
                if x.content.len() + c.len_utf8() > cap {
                    break;
                }
                x.content.push(*c);
            }
        }
        Op::ExtendStrs(ts) => {
            for t in ts {
                let p = floor(t, cap - x.content.len());
                x.content.push_str(p);
                if p.len() < t.len() {
                    break;
                }
            }
        }
        Op::InsertStrTrunc(i, t) => {
            x.ret = Ret::Ok;
            let (oob, utf8) = index(i, old);
            if oob || utf8 {
                x.fail(oob, utf8)
            } else {
                x.content.insert_str(i, floor(t, free))
            }
        }
        Op::Replace(r, t) => {
            x.ret = Ret::Ok;
            let (v, oob, utf8) = range(&r, old);
            match v {
                None => x.fail(oob, utf8),
                Some((a, b)) => {
                    if old.len() - (b - a) + t.len() > cap {
                        x.fail(true, false)
                    } else {
                        x.content.replace_range(a..b, t)
                    }
                }
            }
            if v.is_none() && t.len() > cap {
                x.oob = true;
            }
            if let (None, (Some(a), Some(b))) = (v, resolve(&r, old.len())) {
                // several things wrong at once: the result would not fit either
                if a <= b && b <= old.len() && old.len() - (b - a) + t.len() > cap {
                    x.oob = true;
                }
            }
        }
        Op::Pop => x.ret = Ret::Ch(x.content.pop()),
        Op::Remove(i) => {
            if i >= old.len() {
                x.fail(true, false)
            } else if !old.is_char_boundary(i) {
                x.fail(false, true)
            } else {
                x.ret = Ret::Ch(Some(x.content.remove(i)))
            }
        }
        Op::Truncate(n) => {
            x.ret = Ret::Ok;
            if n < old.len() {
                if old.is_char_boundary(n) {
                    x.content.truncate(n)
                } else {
                    x.fail(false, true)
                }
            }
        }
        Op::Clear => x.content.clear(),
        Op::Retain(p) => {
            x.ret = Ret::Text;
            x.text.push_str(old);
            let mut i = 0;
            x.content.retain(|c| {
                i += 1;
                p.keep(i - 1, c)
            });
        }
        Op::Trim => {
            x.content.clear();
            x.content.push_str(old.trim());
        }
        Op::Drain(r) => {
            x.ret = Ret::Text;
            let (v, oob, utf8) = range(&r, old);
            match v {
                None => x.fail(oob, utf8),
                Some((a, b)) => {
                    x.text.push_str(&old[a..b]);
                    x.content.drain(a..b);
                }
            }
        }
        Op::SplitOff(i) => {
            x.ret = Ret::Text;
            let (oob, utf8) = index(i, old);
            if oob || utf8 {
                x.fail(oob, utf8)
            } else {
                x.text.push_str(&old[i..]);
                x.content.truncate(i);
            }
        }
    }
}

/// Model of a constructor. `ret`/`content` as in `predict`; for UTF-16, `utf16` and `oob` say which
/// errors are acceptable, and `ok` whether success is.
pub struct CtorExp {
    pub ok: bool,
    pub content: String,
    pub oob: bool,
    pub utf16: bool,
    /// an unpaired unit right where the string is exactly full: success and Utf16 are both fine
    pub either: bool,
}

pub fn predict_ctor(cap: usize, c: &Ctor) -> CtorExp {
    let mut x = CtorExp { ok: true, content: String::new(), oob: false, utf16: false, either: false };
    let strict = |x: &mut CtorExp, t: String| {
        if t.len() <= cap {
            x.content = t
        } else {
            x.ok = false;
            x.oob = true
        }
    };
    match *c {
        Ctor::New | Ctor::Default => {}
        Ctor::TryFromStr(t) | Ctor::FromStr(t) | Ctor::TryFromChars(t) => strict(&mut x, t.to_string()),
        Ctor::TryFromIter(ts) => strict(&mut x, ts.concat()),
        Ctor::FromStrTrunc(t) | Ctor::From(t) | Ctor::FromCharsTrunc(t) | Ctor::CollectChars(t) => {
            x.content = floor(t, cap).to_string()
        }
        Ctor::FromIterTrunc(ts) | Ctor::CollectStrs(ts) => x.content = floor(&ts.concat(), cap).to_string(),
        Ctor::TryUtf16(u) | Ctor::Utf16Trunc(u) => {
            let strict = matches!(c, Ctor::TryUtf16(_));
            let mut invalid_inside = false; // an unpaired surrogate before any overflow
            let mut invalid = false;
            let mut overflow = false;
            for r in char::decode_utf16(u.iter().copied()) {
                match r {
                    Ok(ch) => {
                        if !overflow && !invalid {
                            if x.content.len() + ch.len_utf8() <= cap {
                                x.content.push(ch)
                            } else {
                                overflow = true
                            }
                        }
                    }
                    Err(_) => {
                        if !overflow && !invalid && x.content.len() == cap {
                            x.either = true
                        }
                        if !overflow {
                            invalid_inside = true
                        }
                        invalid = true
                    }
                }
            }
            x.utf16 = invalid;
            if strict {
                x.ok = !invalid && !overflow;
                x.either = false;
                // an unpaired surrogate ahead of any overflow must be reported as Utf16
                x.oob = overflow && !invalid_inside;
            } else {
                // beyond the cut, an unpaired surrogate may or may not be noticed
                x.ok = !invalid_inside;
            }
        }
        Ctor::Utf16Lossy(u) => {
            let s: String = char::decode_utf16(u.iter().copied()).map(|r| r.unwrap_or('\u{fffd}')).collect();
            x.content = floor(&s, cap).to_string();
        }
    }
    x
}
