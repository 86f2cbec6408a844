// Error values: every pair, every conversion, every way to obtain one.
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

const RELATE: usize = 0;
const TEXT: usize = 1;
const CONVERT: usize = 2;
const STD: usize = 3;
const OBTAIN: usize = 4;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Utf8,
    Utf16,
    Oob,
}
fn k(e: Error) -> K {
    match e {
        Error::Utf8 => K::Utf8,
        Error::Utf16 => K::Utf16,
        Error::OutOfBounds => K::Oob,
    }
}
fn name(k: K) -> &'static str {
    match k {
        K::Utf8 => "utf8",
        K::Utf16 => "utf16",
        K::Oob => "outofbounds",
    }
}
/// Letters and digits only, in lower case.
fn plain(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).map(|c| c.to_ascii_lowercase()).collect()
}
/// Which kinds a text names.
fn names(s: &str) -> Vec<K> {
    let p = plain(s);
    [K::Utf8, K::Utf16, K::Oob].into_iter().filter(|x| p.contains(name(*x))).collect()
}
fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

// is a type a std error?  `Probe(&x).dynamic()` picks the first impl that applies
pub struct Probe<'a, E>(pub &'a E);
pub trait Is<'a> {
    fn dynamic(&self) -> Option<&'a (dyn std::error::Error + 'static)>;
}
pub trait IsNot<'a> {
    fn dynamic(&self) -> Option<&'a (dyn std::error::Error + 'static)>;
}
impl<'a, E: std::error::Error + 'static> Is<'a> for Probe<'a, E> {
    fn dynamic(&self) -> Option<&'a (dyn std::error::Error + 'static)> {
        Some(self.0)
    }
}
impl<'a, E> IsNot<'a> for &Probe<'a, E> {
    fn dynamic(&self) -> Option<&'a (dyn std::error::Error + 'static)> {
        None
    }
}

struct Fixed([u8; 256], usize);
impl Write for Fixed {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.1 + s.len() > 256 {
            return Err(std::fmt::Error);
        }
        self.0[self.1..self.1 + s.len()].copy_from_slice(s.as_bytes());
        self.1 += s.len();
        Ok(())
    }
}
impl Fixed {
    fn new() -> Self {
        Fixed([0; 256], 0)
    }
    fn text(&self) -> &str {
        std::str::from_utf8(&self.0[..self.1]).unwrap_or("?")
    }
}

/// Error values by every route: the variants, conversions, failing operations.
fn values(cx: &mut Cx) -> Vec<(Error, K, String)> {
    let mut v = vec![];
    let cap = T::capacity();
    let full = "y".repeat(cap - cap % 2);
    let wide = "\u{e9}".repeat(cap / 2);
    macro_rules! put {
        ($($k:ident $e:expr),* $(,)?) => {$({
            let code = || format!("let r = {};", stringify!($e).replace("T::", &format!("{}::", TY)));
            if let Some(x) = cx.call(OBTAIN, &code, || -> Option<Error> { $e }) {
                match x {
                    Some(e) => v.push((e, K::$k, code())),
                    None => cx.check(false, OBTAIN, "no error", 1, &|| "the call is expected to fail and succeeds".into(), &code),
                }
            }
        })*};
    }
    put! {
        Utf8 Some(Error::Utf8), Utf16 Some(Error::Utf16), Oob Some(Error::OutOfBounds),
        Utf8 Some(Error::from(arraystring::error::Utf8)), Utf16 Some(Error::from(arraystring::error::Utf16)), Oob Some(Error::from(OutOfBounds)),
        Utf8 Some(Error::from(<arraystring::error::Utf8>::default())), Utf16 Some(Error::from(<arraystring::error::Utf16>::default())), Oob Some(Error::from(OutOfBounds::default())),
        Oob build(&full).try_push('\u{10ffff}').err().map(Error::from),
        Oob build(&full).try_push_str("\u{10ffff}").err().map(Error::from),
        Oob build(&full).try_insert(0, '\u{10ffff}').err(),
        Oob build(&full).try_insert_str(0, "\u{10ffff}").err(),
        Oob build(&full).try_insert(300, 'a').err(),
        Oob build(&full).insert_str_truncate(300, "a").err(),
        Oob build(&full).remove(300).err(),
        Oob build(&full).split_off(300).err(),
        Oob build(&full).drain(300..).err(),
        Oob build(&full).drain(2..1).err(),
        Oob build(&full).replace_range(..300, "").err(),
        Oob build(&full).replace_range(2..1, "").err(),
        Utf8 build(&wide).truncate(1).err().map(Error::from),
        Utf8 build(&wide).remove(1).err(),
        Utf8 build(&wide).split_off(1).err(),
        Utf8 build(&wide).drain(1..).err(),
        Utf8 build(&wide).drain(..1).err(),
        Utf8 build(&wide).replace_range(1.., "").err(),
        Utf8 build(&wide).try_insert_str(1, "").err(),
        Utf8 build(&wide).insert_str_truncate(1, "").err(),
        Oob T::try_from_str("a".repeat(300)).err().map(Error::from),
        Oob "a".repeat(300).parse::<T>().err().map(Error::from),
        Oob T::try_from_chars("a".repeat(300).chars()).err().map(Error::from),
        Oob T::try_from_iterator(["a".repeat(300)]).err().map(Error::from),
        Oob T::try_from_utf16([0x61u16; 300]).err(),
        Utf16 T::try_from_utf16([0xdc00u16]).err(),
        Utf16 T::try_from_utf16([0x61u16, 0xd800]).err(),
        Utf16 T::from_utf16_truncate([0xd800u16]).err().map(Error::from),
        Utf16 T::from_utf16_truncate([0x61u16, 0xdfff]).err().map(Error::from),
    }
    v
}
fn build(text: &str) -> T {
    mc_core::build!(T, text, 0)
}

pub fn units(_deep: bool, mini: bool) -> usize {
    if KEY == 256 && !mini {
        1 + 8 + 257
    } else {
        1
    }
}

pub fn run(u: usize, cx: &mut Cx) {
    cx.ctx = u as u64;
    match u {
        0 => relations(cx),
        1..=8 => surrogates(u - 1, cx),
        _ => bytes(u - 9, cx),
    }
}

fn relations(cx: &mut Cx) {
    let alloc = std::mem::replace(&mut cx.alloc, false);
    let all = values(cx);
    cx.alloc = alloc;
    for (a, ka, ca) in &all {
        let code = || ca.clone();
        cx.same(OBTAIN, "kind", ca.len(), &k(*a), ka, &code);
        for (b, kb, cb) in &all {
            let code = || format!("let a = {{ {} r }}; let b = {{ {} r }}; // a == b, a != b, hashes", ca, cb);
            let same = ka == kb;
            mc_core::look!(cx, RELATE, ca.len() + cb.len(), &code, "a == b, a != b", (a == b, a != b, b == a), (same, !same, same));
            if same {
                mc_core::look!(cx, RELATE, ca.len() + cb.len(), &code, "equal errors hash equally", hash(a) == hash(b), true);
            }
        }
        // display and debug text, also under widths and into sinks that fail
        for f in 0..6 {
            let code = || format!("{} // formatted as {}", ca, ["{}", "{:?}", "{:#?}", "{:>20}", "{:<3}", "to_string"][f]);
            let mut out = Fixed::new();
            let r = match f {
                0 => cx.call(TEXT, &code, || write!(out, "{}", a)),
                1 => cx.call(TEXT, &code, || write!(out, "{:?}", a)),
                2 => cx.call(TEXT, &code, || write!(out, "{:#?}", a)),
                3 => cx.call(TEXT, &code, || write!(out, "{:>20}", a)),
                4 => cx.call(TEXT, &code, || write!(out, "{:<3}", a)),
                _ => cx.plain(TEXT, &code, || write!(out, "{}", a.to_string())),
            };
            if r.is_some() {
                cx.same(TEXT, "formatting succeeds", f, &r, &Some(Ok(())), &code);
                let t = out.text();
                cx.same(TEXT, "names exactly its kind", f, &names(t), &[*ka][..], &code);
            }
        }
        let code = || format!("{} // as a std error", ca);
        if cfg!(feature = "std") {
            if let Some(d) = cx.call(STD, &code, || (&Probe(a)).dynamic()) {
                as_std(cx, d, *ka, &code);
            }
        }
    }
    // the specific errors
    macro_rules! specific {
        ($t:ident, $k:ident, $v:expr) => {{
            let e = $v;
            let code = || format!("let e = {};", stringify!($v));
            let mut out = Fixed::new();
            let mut dbg = Fixed::new();
            if cx.call(TEXT, &code, || (write!(out, "{}", e), write!(dbg, "{:?}", e))).is_some() {
                cx.same(TEXT, "text of a specific error names exactly its kind", 0, &names(out.text()), &[K::$k][..], &code);
                cx.same(TEXT, "debug text of a specific error names exactly its kind", 0, &names(dbg.text()), &[K::$k][..], &code);
            }
            mc_core::look!(cx, CONVERT, 0, &code, "converted kind", k(Error::from(e)), K::$k);
            let f: fn() -> Result<(), Error> = || {
                Err::<(), _>($v)?;
                Ok(())
            };
            mc_core::look!(cx, CONVERT, 0, &code, "kind after ?", f().map_err(k), Err::<(), K>(K::$k));
            mc_core::look!(cx, RELATE, 0, &code, "equal to itself", (e == $v, e != $v, e == e.clone(), e == arraystring::error::$t::default()), (true, false, true, true));
            if cfg!(feature = "std") {
                if let Some(d) = cx.call(STD, &code, || (&Probe(&e)).dynamic()) {
                    as_std(cx, d, K::$k, &code);
                }
            }
        }};
    }
    specific!(Utf8, Utf8, arraystring::error::Utf8);
    specific!(Utf16, Utf16, arraystring::error::Utf16);
    specific!(OutOfBounds, Oob, arraystring::error::OutOfBounds);
    // std sources of UTF-16 units
    for t in mc_core::gen::all_strings(5, false) {
        for skip in 0..3 {
            let code = || format!("let mut i = {:?}.encode_utf16(); i.by_ref().take({}).count(); // Error::from(i), Utf16::from(i)", t, skip);
            let mut i = t.encode_utf16();
            i.by_ref().take(skip).count();
            let j = i.clone();
            mc_core::look!(cx, CONVERT, t.len(), &code, "kind from EncodeUtf16", k(Error::from(i)), K::Utf16);
            mc_core::look!(cx, CONVERT, t.len(), &code, "kind from EncodeUtf16 through Utf16", k(Error::from(arraystring::error::Utf16::from(j))), K::Utf16);
        }
    }
    cx.sample(1, &|| format!("{} error values by route, all pairs; e.g. {}", all.len(), all.last().map(|x| x.2.clone()).unwrap_or_default()));
}

fn as_std(cx: &mut Cx, d: Option<&(dyn std::error::Error + 'static)>, kind: K, code: &dyn Fn() -> String) {
    match d {
        None => {
            cx.same(STD, "is a std error", 0, &false, &true, code);
        }
        Some(d) => {
            if let Some(r) = cx.plain(STD, code, || (names(&d.to_string()), names(&format!("{:?}", d)))) {
                cx.same(STD, "text and debug text as a std error", 0, &r, &(vec![kind], vec![kind]), code);
            }
            // a chain of causes, if any, names no other kind
            if let Some(r) = cx.plain(STD, code, || {
                #[allow(deprecated)]
                let mut ok = names(d.description()).iter().chain(d.cause().map(|c| names(&c.to_string())).iter().flatten()).all(|y| *y == kind);
                let mut s = d.source();
                let mut n = 0;
                while let Some(x) = s {
                    ok &= names(&x.to_string()).iter().all(|y| *y == kind);
                    s = x.source();
                    n += 1;
                    if n > 100 {
                        return false;
                    }
                }
                ok
            }) {
                cx.same(STD, "causes name no other kind", 0, &r, &true, code);
            }
        }
    }
}

/// Every unpaired surrogate, in every short context.
fn surrogates(part: usize, cx: &mut Cx) {
    for u in 0xd800 + part as u32 * 256..0xd800 + part as u32 * 256 + 256 {
        let u = u as u16;
        for seq in [&[u][..], &[u, 0x61], &[0x61, u], &[0xd83d, 0xde00, u], &[u, 0xd83d, 0xde00], &[u, u]] {
            for r in char::decode_utf16(seq.iter().copied()) {
                let Err(e) = r else { continue };
                let code = || format!("let e = char::decode_utf16({:?}).find_map(|r| r.err()).unwrap(); // Error::from(e), Utf16::from(e)", seq);
                let e2 = e.clone();
                mc_core::look!(cx, CONVERT, seq.len(), &code, "kind from DecodeUtf16Error", k(Error::from(e)), K::Utf16);
                mc_core::look!(cx, CONVERT, seq.len(), &code, "kind from DecodeUtf16Error through Utf16", k(Error::from(arraystring::error::Utf16::from(e2))), K::Utf16);
            }
        }
        let code = || format!("let r = {}::try_from_utf16(&[{:#x}][..]);", TY, u);
        mc_core::look!(cx, OBTAIN, 1, &code, "kind of a lone surrogate", T::try_from_utf16([u]).map_err(k).map(|_| ()), Err::<(), K>(K::Utf16));
    }
}

/// Every byte sequence of up to three bytes beginning with `b`, and longer ones behind text.
fn bytes(b: usize, cx: &mut Cx) {
    let mut one = |s: &[u8], cx: &mut Cx| {
        let Err(e) = std::str::from_utf8(s) else { return };
        let code = || format!("let e = std::str::from_utf8(&{:?}).unwrap_err(); // Error::from(e), Utf8::from(e)", s);
        mc_core::look!(cx, CONVERT, s.len(), &code, "kind from Utf8Error", k(Error::from(e)), K::Utf8);
        mc_core::look!(cx, CONVERT, s.len(), &code, "kind from Utf8Error through Utf8", k(Error::from(arraystring::error::Utf8::from(e))), K::Utf8);
    };
    if b == 256 {
        for n in 0..300 {
            for bad in [&[0x80u8][..], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xff], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80]] {
                let mut v = vec![b'a'; n];
                v.extend(bad);
                one(&v, cx);
                v.extend(b"tail");
                one(&v, cx);
            }
        }
        return;
    }
    let b = b as u8;
    one(&[b], cx);
    for c in 0..=255u8 {
        one(&[b, c], cx);
        for d in 0..=255u8 {
            if cx.deep || matches!(d, 0 | 0x41 | 0x7f..=0x81 | 0x8f | 0x90 | 0x9f | 0xa0 | 0xbf..=0xc2 | 0xdf..=0xe1 | 0xed | 0xf0 | 0xf4 | 0xf5 | 0xff) {
                one(&[b, c, d], cx);
            }
        }
    }
}
