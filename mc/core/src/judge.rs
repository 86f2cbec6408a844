//! One step of exploration: run an operation on the real string, compare with the model, and keep
//! what the property under check says about it.
use crate::engine::*;
use crate::model::*;
use crate::target::*;

/// What a property looks at.
#[derive(Clone, Copy, Debug, Default)]
pub struct Aspect {
    /// families whose success and content are compared with the model
    pub result: u8,
    pub ctor: [bool; 3],
    pub failure: bool,
    pub valid: bool,
    pub panic: bool,
    pub alloc: bool,
    pub mem: bool,
    pub digest: bool,
}
impl Aspect {
    pub fn of(prop: &str) -> Option<Aspect> {
        let d = Aspect::default();
        Some(match prop {
            "C01" => Aspect { valid: true, ..d },
            "C02" => Aspect { result: F_APP, ..d },
            "C03" => Aspect { result: F_TRUNC, ..d },
            "C04" => Aspect { result: F_REPL, ..d },
            "C05" => Aspect { result: F_REM, ..d },
            "C06" => Aspect { result: F_DRAIN, ..d },
            "C07" => Aspect { failure: true, ..d },
            "C08" => Aspect { ctor: [true, false, false], ..d },
            "C09" => Aspect { ctor: [false, true, false], ..d },
            "C10" => Aspect { ctor: [false, false, true], ..d },
            "C11" => Aspect { panic: true, ..d },
            "C12" => Aspect { alloc: true, ..d },
            "C13" => Aspect { mem: true, ..d },
            // compared in lockstep, see `pair` in mc
            "C17" => d,
            "C21" => Aspect { digest: true, ..d },
            _ => return None,
        })
    }
    /// Families of operations worth running for this property.
    pub fn fams(&self) -> u8 {
        if self.result != 0 {
            self.result
        } else if self.ctor.iter().any(|x| *x) {
            0
        } else {
            F_ALL
        }
    }
    pub fn ctor_fams(&self) -> [bool; 3] {
        if self.result != 0 || self.failure {
            [false; 3]
        } else if self.ctor.iter().any(|x| *x) {
            self.ctor
        } else {
            [true; 3]
        }
    }
}

pub fn type_name(t: &dyn Target) -> String {
    if t.is_cache() {
        "CacheString".into()
    } else {
        format!("ArrayString::<{}>", t.cap())
    }
}
pub fn cap_key(t: &dyn Target) -> usize {
    if t.is_cache() {
        256
    } else {
        t.cap()
    }
}

fn q(s: &str) -> String {
    if s.len() > 80 {
        // written compactly: runs of one character
        let mut parts: Vec<String> = vec![];
        let cs: Vec<char> = s.chars().collect();
        let lit: String = cs.iter().flat_map(|c| c.escape_default()).collect();
        parts.push(lit);
        format!("\"{}\"", parts.concat())
    } else {
        format!("\"{}\"", s.escape_default())
    }
}
fn qc(c: char) -> String {
    format!("'{}'", c.escape_default())
}
fn rng(r: &Rng) -> String {
    use core::ops::Bound::*;
    let (s, e) = r.bounds();
    match (s, e) {
        (Included(a), Excluded(b)) => format!("{}..{}", a, b),
        (Included(a), Included(b)) => format!("{}..={}", a, b),
        (Included(a), Unbounded) => format!("{}..", a),
        (Unbounded, Excluded(b)) => format!("..{}", b),
        (Unbounded, Included(b)) => format!("..={}", b),
        (Unbounded, Unbounded) => "..".into(),
        (a, b) => format!("(std::ops::Bound::{:?}, std::ops::Bound::{:?})", a, b),
    }
}
fn list(ts: &[&str]) -> String {
    format!("[{}]", ts.iter().map(|t| q(t)).collect::<Vec<_>>().join(", "))
}
fn pred(p: &Pred) -> String {
    match *p {
        Pred::Mask(m) => format!("{{ let mut i = 0; move |_| {{ i += 1; {:#x}u64 >> ((i - 1) & 63) & 1 == 1 }} }}", m),
        Pred::DropAt(k) => format!("{{ let mut i = 0; move |_| {{ i += 1; i - 1 != {} }} }}", k),
        Pred::KeepAt(k) => format!("{{ let mut i = 0; move |_| {{ i += 1; i - 1 == {} }} }}", k),
        Pred::Mod(k) => format!("{{ let mut i = 0; move |_| {{ i += 1; (i - 1) % {} == 0 }} }}", k),
        Pred::NotChar(c) => format!("|c| c != {}", qc(c)),
        Pred::Ws => "|c: char| c.is_whitespace()".into(),
    }
}

pub fn op_code(op: &Op) -> String {
    match op {
        Op::TryPush(c) => format!("s.try_push({})", qc(*c)),
        Op::TryPushStr(t) => format!("s.try_push_str({})", q(t)),
        Op::WriteStr(t) => format!("std::fmt::Write::write_str(&mut s, {})", q(t)),
        Op::WriteChar(c) => format!("std::fmt::Write::write_char(&mut s, {})", qc(*c)),
        Op::WriteFmt(a, b) => format!("write!(s, \"{{}}{{}}\", {}, {})", q(a), q(b)),
        Op::TryInsert(i, c) => format!("s.try_insert({}, {})", i, qc(*c)),
        Op::TryInsertStr(i, t) => format!("s.try_insert_str({}, {})", i, q(t)),
        Op::PushStrTrunc(t) => format!("s.push_str_truncate({})", q(t)),
        Op::Add(t) => format!("{{ s = s + {}; }}", q(t)),
        Op::ExtendChars(t) => format!("s.extend({}.chars())", q(t)),
        Op::ExtendRefs(t) => format!("s.extend({:?}.iter())", t),
        Op::ExtendStrs(t) => format!("s.extend({}.iter().copied())", list(t)),
        Op::InsertStrTrunc(i, t) => format!("s.insert_str_truncate({}, {})", i, q(t)),
        Op::Replace(r, t) => format!("s.replace_range({}, {})", rng(r), q(t)),
        Op::Pop => "s.pop()".into(),
        Op::Remove(i) => format!("s.remove({})", i),
        Op::Truncate(i) => format!("s.truncate({})", i),
        Op::Clear => "s.clear()".into(),
        Op::Retain(p) => format!("s.retain({})", pred(p)),
        Op::Trim => "s.trim()".into(),
        Op::Drain(r) => format!("s.drain({}).map(|d| d.as_str().to_string())", rng(r)),
        Op::SplitOff(i) => format!("s.split_off({})", i),
    }
}
pub fn ctor_code(ty: &str, c: &Ctor) -> String {
    let u = |v: &[u16]| format!("{:?}", v);
    match c {
        Ctor::New => format!("{}::new()", ty),
        Ctor::Default => format!("<{} as Default>::default()", ty),
        Ctor::TryFromStr(t) => format!("{}::try_from_str({})", ty, q(t)),
        Ctor::FromStr(t) => format!("{}.parse::<{}>()", q(t), ty),
        Ctor::TryFromChars(t) => format!("{}::try_from_chars({}.chars())", ty, q(t)),
        Ctor::TryFromIter(t) => format!("{}::try_from_iterator({}.iter().copied())", ty, list(t)),
        Ctor::FromStrTrunc(t) => format!("{}::from_str_truncate({})", ty, q(t)),
        Ctor::From(t) => format!("<{} as From<&str>>::from({})", ty, q(t)),
        Ctor::FromCharsTrunc(t) => format!("{}::from_chars_truncate({}.chars())", ty, q(t)),
        Ctor::CollectChars(t) => format!("{}.chars().collect::<{}>()", q(t), ty),
        Ctor::FromIterTrunc(t) => format!("{}::from_iterator_truncate({}.iter().copied())", ty, list(t)),
        Ctor::CollectStrs(t) => format!("{}.iter().copied().collect::<{}>()", list(t), ty),
        Ctor::TryUtf16(t) => format!("{}::try_from_utf16(&{}[..])", ty, u(t)),
        Ctor::Utf16Trunc(t) => format!("{}::from_utf16_truncate(&{}[..])", ty, u(t)),
        Ctor::Utf16Lossy(t) => format!("{}::from_utf16_lossy_truncate(&{}[..])", ty, u(t)),
    }
}

pub fn set_code(ty: &str, content: &str, stale: u8) -> String {
    let pre = match stale {
        0 => String::new(),
        1 => format!("let _ = s.try_push_str(\"z\".repeat({ty}::capacity()).as_str()); s.clear();\n", ty = ty),
        2 => format!("let _ = s.try_push_str(\"\\u{{10ffff}}\".repeat({ty}::capacity() / 4).as_str()); s.clear();\n", ty = ty),
        _ => format!("let _ = s.try_push_str(\"\\u{{7ff}}\".repeat({ty}::capacity() / 2).as_str()); s.clear();\n", ty = ty),
    };
    format!("let mut s = {}::new();\n{}s.try_push_str({}).unwrap();\n", ty, pre, q(content))
}

fn show(ret: Ret, text: &str) -> String {
    match ret {
        Ret::Unit => "()".into(),
        Ret::Ok => "Ok(())".into(),
        Ret::Oob => "Err(OutOfBounds)".into(),
        Ret::Utf8 => "Err(Utf8)".into(),
        Ret::Utf16 => "Err(Utf16)".into(),
        Ret::Fmt => "Err(fmt::Error)".into(),
        Ret::Ch(c) => format!("{:?}", c),
        Ret::Text => format!("text {:?}", text),
        Ret::Panic => "a panic".into(),
    }
}

#[derive(Default)]
pub struct Bufs {
    pub obs: Obs,
    pub exp: Exp,
}

fn content_of(t: &dyn Target) -> String {
    format!("{:?}", String::from_utf8_lossy(t.bytes()))
}

/// Run `op` on the current content (`old`, which must also be the base of `t`), judge it.
pub fn step(
    a: &Aspect,
    t: &mut dyn Target,
    setup: &dyn Fn() -> String,
    old: &str,
    op: &Op,
    b: &mut Bufs,
    st: &mut Stats,
) {
    let cap = t.cap();
    let describe = || format!("{}let r = {};", setup(), op_code(op));
    t.restore();
    let before = allocs();
    let r = {
        let obs = &mut b.obs;
        let t = &mut *t;
        sut(&describe, move || t.apply(op, obs))
    };
    let grew = allocs() - before;
    let panicked = r.is_err();
    if panicked {
        b.obs.ret = Ret::Panic;
    }
    let ret = b.obs.ret;
    st.count(op.idx(), ret.class());
    let name = OP_NAMES[op.idx()];
    let size = old.len() * 4 + describe_len(op) + cap / 8;
    macro_rules! bad {
        ($class:expr, $($w:tt)*) => {{
            let what = format!($($w)*);
            let code = describe();
            st.violation(format!("{}: {}", name, $class), size, &|| (what.clone(), code.clone()));
        }};
    }
    if a.panic && panicked {
        let m = r.as_ref().err().cloned().unwrap_or_default();
        bad!("panics", "the call panics: {}", m);
    }
    if a.alloc && grew > 0 && !panicked {
        bad!("allocates", "the call made {} heap allocation(s)", grew);
    }
    if a.mem && !t.guards_ok() {
        bad!("writes outside", "bytes next to the string object were overwritten");
        return;
    }
    if a.valid {
        valid(t, &mut |class, w| bad!(class, "{}", w));
    }
    if a.digest {
        let mut h = hash_bytes(0, old.as_bytes());
        h = hash_op(h, op);
        h = mix(h, hash_ret(ret));
        h = hash_bytes(h, b.obs.text.as_bytes());
        h = hash_bytes(h, t.bytes());
        st.digest(op.idx() * NCAP + cap_key(t), h);
    }
    if a.result & op.family() != 0 {
        predict(cap, old, op, &mut b.exp);
        let x = &b.exp;
        if panicked {
            let m = r.err().unwrap_or_default();
            bad!("panics", "the call panics ({}); expected {}", m, if x.ok { "success" } else { "an error" });
        } else if x.ok {
            if ret.is_err() {
                bad!("refused", "returned {}, expected success with content {:?}", show(ret, ""), x.content);
            } else if t.bytes() != x.content.as_bytes() || t.size() != x.content.len() {
                bad!("wrong content", "content is {} (length {}), expected {:?}", content_of(t), t.size(), x.content);
            } else if ret != x.ret || (ret == Ret::Text && b.obs.text != x.text) {
                bad!(
                    "wrong result",
                    "returned {}, expected {}",
                    show(ret, &b.obs.text),
                    show(x.ret, &x.text)
                );
            }
        } else if !ret.is_err() {
            bad!("accepted", "returned {} with content {}, expected an error", show(ret, &b.obs.text), content_of(t));
        } else if matches!(op, Op::Remove(_) | Op::Truncate(_)) && !x.allows_err(ret) {
            bad!("wrong error", "returned {}, which does not apply", show(ret, ""));
        }
    }
    if a.failure {
        predict(cap, old, op, &mut b.exp);
        let x = &b.exp;
        if ret.is_err() {
            let partial = matches!(op, Op::WriteFmt(..)) && t.bytes() == x.content.as_bytes();
            if x.ok {
                bad!("refused", "returned {} although nothing is wrong with the arguments", show(ret, ""));
            } else if !x.allows_err(ret) {
                bad!("wrong kind", "returned {}, which does not apply here", show(ret, ""));
            } else if t.bytes() != old.as_bytes() && !partial {
                bad!("content changed", "failed with {} but content became {}", show(ret, ""), content_of(t));
            }
        } else if panicked && !x.ok {
            bad!("panics", "the call panics instead of returning an error");
        }
    }
    if st.samples.len() < 3 || (st.transitions % 9_999_991 == 7) {
        let after = content_of(t);
        let shown = show(ret, &b.obs.text);
        st.sample(&|| format!("{} => {}; content {}", describe().replace('\n', " "), shown, after));
    }
}

fn describe_len(op: &Op) -> usize {
    match op {
        Op::TryPushStr(t) | Op::WriteStr(t) | Op::PushStrTrunc(t) | Op::Add(t) | Op::ExtendChars(t) => t.len(),
        Op::WriteFmt(a, b) => a.len() + b.len(),
        Op::TryInsertStr(i, t) | Op::InsertStrTrunc(i, t) => t.len() + (*i).min(64),
        Op::TryInsert(i, _) | Op::Remove(i) | Op::Truncate(i) | Op::SplitOff(i) => (*i).min(64),
        Op::ExtendRefs(t) => t.len(),
        Op::ExtendStrs(t) => t.iter().map(|x| x.len() + 1).sum(),
        Op::Replace(r, t) => t.len() + r.s.min(64) + r.e.min(64) + r.form as usize,
        Op::Drain(r) => r.s.min(64) + r.e.min(64) + r.form as usize,
        _ => 0,
    }
}

fn hash_ret(r: Ret) -> u64 {
    match r {
        Ret::Unit => 1,
        Ret::Ok => 2,
        Ret::Oob => 3,
        Ret::Utf8 => 4,
        Ret::Utf16 => 5,
        Ret::Fmt => 6,
        Ret::Ch(None) => 7,
        Ret::Ch(Some(c)) => 0x100 + c as u64,
        Ret::Text => 8,
        Ret::Panic => 9,
    }
}
fn hash_op(h: u64, op: &Op) -> u64 {
    let h = mix(h, op.idx() as u64);
    match op {
        Op::TryPush(c) | Op::WriteChar(c) => mix(h, *c as u64),
        Op::TryPushStr(t) | Op::WriteStr(t) | Op::PushStrTrunc(t) | Op::Add(t) | Op::ExtendChars(t) => {
            hash_bytes(h, t.as_bytes())
        }
        Op::WriteFmt(a, b) => hash_bytes(hash_bytes(h, a.as_bytes()), b.as_bytes()),
        Op::TryInsertStr(i, t) | Op::InsertStrTrunc(i, t) => hash_bytes(mix(h, *i as u64), t.as_bytes()),
        Op::TryInsert(i, c) => mix(mix(h, *i as u64), *c as u64),
        Op::Remove(i) | Op::Truncate(i) | Op::SplitOff(i) => mix(h, *i as u64),
        Op::ExtendRefs(t) => t.iter().fold(h, |h, c| mix(h, *c as u64)),
        Op::ExtendStrs(t) => t.iter().fold(h, |h, c| hash_bytes(h, c.as_bytes())),
        Op::Replace(r, t) => hash_bytes(mix(mix(mix(h, r.form as u64), r.s as u64), r.e as u64), t.as_bytes()),
        Op::Drain(r) => mix(mix(mix(h, r.form as u64), r.s as u64), r.e as u64),
        _ => h,
    }
}

/// The invariant: valid UTF-8, within capacity, all views agree.
pub fn valid(t: &mut dyn Target, bad: &mut dyn FnMut(&str, String)) {
    let n = t.bytes().len();
    if n > t.cap() || t.size() > t.cap() {
        bad("length beyond capacity", format!("length {} exceeds capacity {}", n.max(t.size()), t.cap()));
        return;
    }
    if core::str::from_utf8(t.bytes()).is_err() {
        bad("invalid UTF-8", format!("content is not valid UTF-8: {:x?}", t.bytes()));
        return;
    }
    match sut(&|| "/* views of the string */".into(), || t.views()) {
        Ok(Ok(())) => {}
        Ok(Err(w)) => bad("views disagree", w),
        Err(m) => bad("a view panics", m),
    }
}

/// Run a constructor, judge it.
pub fn step_ctor(a: &Aspect, t: &mut dyn Target, c: &Ctor, b: &mut Bufs, st: &mut Stats) {
    let cap = t.cap();
    let cache = t.is_cache();
    let describe = || {
        let ty = if cache { "CacheString".into() } else { format!("ArrayString::<{}>", cap) };
        format!("let r = {};", ctor_code(&ty, c))
    };
    t.restore();
    let before = allocs();
    let r = {
        let obs = &mut b.obs;
        let t = &mut *t;
        sut(&describe, move || t.construct(c, obs))
    };
    let grew = allocs() - before;
    let panicked = r.is_err();
    if panicked {
        b.obs.ret = Ret::Panic;
    }
    let ret = b.obs.ret;
    st.count(OP_NAMES.len() + c.idx(), ret.class());
    let name = CTOR_NAMES[c.idx()];
    let size = cap / 8 + ctor_len(c);
    macro_rules! bad {
        ($class:expr, $($w:tt)*) => {{
            let what = format!($($w)*);
            let code = describe();
            st.violation(format!("{}: {}", name, $class), size, &|| (what.clone(), code.clone()));
        }};
    }
    if a.panic && panicked {
        bad!("panics", "the call panics: {}", r.as_ref().err().cloned().unwrap_or_default());
    }
    if a.alloc && grew > 0 && !panicked {
        bad!("allocates", "the call made {} heap allocation(s)", grew);
    }
    if a.mem && !t.guards_ok() {
        bad!("writes outside", "bytes next to the string object were overwritten");
        return;
    }
    if a.valid {
        valid(t, &mut |class, w| bad!(class, "{}", w));
    }
    if a.digest {
        let mut h = hash_ctor(c);
        h = mix(h, hash_ret(ret));
        if !ret.is_err() {
            h = hash_bytes(h, t.bytes());
        }
        st.digest((OP_NAMES.len() + c.idx()) * NCAP + cap_key(t), h);
    }
    let fam = match c.idx() {
        0..=5 => 0,
        6..=11 => 1,
        _ => 2,
    };
    if a.ctor[fam] {
        let x = predict_ctor(cap, c);
        if panicked {
            bad!("panics", "the call panics: {}", r.err().unwrap_or_default());
        } else if ret.is_err() {
            let ok_kind = match ret {
                Ret::Oob => x.oob,
                Ret::Utf16 => x.utf16,
                _ => false,
            };
            if x.ok {
                bad!("refused", "returned {}, expected success with content {:?}", show(ret, ""), x.content);
            } else if !ok_kind {
                bad!("wrong kind", "returned {}, which does not apply here", show(ret, ""));
            }
        } else if !x.ok && !x.either {
            bad!("accepted", "succeeded with content {}, expected an error", content_of(t));
        } else if t.bytes() != x.content.as_bytes() || t.size() != x.content.len() {
            bad!("wrong content", "content is {}, expected {:?}", content_of(t), x.content);
        }
    }
    if st.samples.len() < 3 || st.transitions % 999_983 == 7 {
        let after = content_of(t);
        let shown = show(ret, "");
        st.sample(&|| format!("{} => {}; content {}", describe(), shown, after));
    }
}

fn ctor_len(c: &Ctor) -> usize {
    match c {
        Ctor::New | Ctor::Default => 0,
        Ctor::TryFromStr(t) | Ctor::FromStr(t) | Ctor::TryFromChars(t) | Ctor::FromStrTrunc(t) | Ctor::From(t)
        | Ctor::FromCharsTrunc(t) | Ctor::CollectChars(t) => t.len(),
        Ctor::TryFromIter(t) | Ctor::FromIterTrunc(t) | Ctor::CollectStrs(t) => t.iter().map(|x| x.len() + 1).sum(),
        Ctor::TryUtf16(t) | Ctor::Utf16Trunc(t) | Ctor::Utf16Lossy(t) => t.len() * 2,
    }
}
fn hash_ctor(c: &Ctor) -> u64 {
    let h = c.idx() as u64 + 77;
    match c {
        Ctor::New | Ctor::Default => h,
        Ctor::TryFromStr(t) | Ctor::FromStr(t) | Ctor::TryFromChars(t) | Ctor::FromStrTrunc(t) | Ctor::From(t)
        | Ctor::FromCharsTrunc(t) | Ctor::CollectChars(t) => hash_bytes(h, t.as_bytes()),
        Ctor::TryFromIter(t) | Ctor::FromIterTrunc(t) | Ctor::CollectStrs(t) => {
            t.iter().fold(h, |h, x| hash_bytes(h, x.as_bytes()))
        }
        Ctor::TryUtf16(t) | Ctor::Utf16Trunc(t) | Ctor::Utf16Lossy(t) => t.iter().fold(h, |h, x| mix(h, *x as u64)),
    }
}
