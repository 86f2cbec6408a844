import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools", "bugs1.py")).read().split("BUGS = [")[0])
MAIN = U + "fn main() {\n"
HASH_OLD = "        self.as_str().hash(hasher);"
BUGS = [
    dict(id="C14-word-order", property="C14", nth={"        self.as_str().cmp(other.as_str())": 0},
         needs="comparing two strings of at least eight bytes which differ in two places of one eight byte word, the earlier difference the other way round than the later",
         breaks="Ord compares eight bytes at a time as little endian words, so the last difference in a word decides instead of the first",
         edits=[(IM, "        self.as_str().cmp(other.as_str())", '''        let (mut a, mut b): (&[u8], &[u8]) = (self.as_ref(), other.as_ref());
        while let (Some(x), Some(y)) = (a.get(..8), b.get(..8)) {
            if x != y {
                let word = |w: &[u8]| w.iter().rev().fold(0u64, |n, c| n << 8 | u64::from(*c));
                return word(x).cmp(&word(y));
            }
            a = a.get(8..).unwrap_or_default();
            b = b.get(8..).unwrap_or_default();
        }
        a.cmp(b)''')],
         demo=MAIN + '''    let a = ArrayString::<23>::try_from_str("abcdefgz").unwrap();
    let b = ArrayString::<23>::try_from_str("abcdzfga").unwrap();
    assert_eq!(a.cmp(&b), a.as_str().cmp(b.as_str()));
}
'''),
    dict(id="C24-clone-from", property="C24", nth={"#[derive(Copy, Clone)]": 0},
         needs="clone_from onto a string that is shorter than the one cloned",
         breaks="a hand written clone_from only copies the bytes the destination had before",
         edits=[(AS, "#[derive(Copy, Clone)]", "#[derive(Copy)]"),
                (AS, "pub(crate) mod sealed {", '''impl<const N: usize> Clone for ArrayString<N> {
    #[inline]
    fn clone(&self) -> Self {
        *self
    }

    #[inline]
    fn clone_from(&mut self, source: &Self) {
        let used = core::cmp::max(1, self.size as usize);
        for (to, from) in self.array.iter_mut().zip(source.array).take(used) {
            *to = from;
        }
        self.size = source.size;
    }
}

pub(crate) mod sealed {''')],
         demo=MAIN + '''    let a = ArrayString::<8>::try_from_str("abcdef").unwrap();
    let mut b = ArrayString::<8>::try_from_str("xyz").unwrap();
    b.clone_from(&a);
    assert_eq!(a, b);
}
'''),
    dict(id="C19-in-place", property="C19", cargo=SERDE,
         needs="deserializing in place over an existing string, for instance as an element of a vector deserialized in place",
         breaks="deserialize_in_place adds the text to what the string held instead of replacing it",
         edits=[(IN, "            des.deserialize_str(StrVisitor)\n        }\n", '''            des.deserialize_str(StrVisitor)
        }

        #[inline]
        fn deserialize_in_place<D: Deserializer<'a>>(des: D, place: &mut Self) -> Result<(), D::Error> {
            let new: Self = des.deserialize_str(StrVisitor)?;
            if new.len() < place.len() {
                let _ = place.replace_range(..new.len(), new.as_str());
            } else {
                *place = new;
            }
            Ok(())
        }
''')],
         demo=MAIN + '''    let mut s = ArrayString::<8>::try_from_str("abcdef").unwrap();
    let mut d = serde_json::Deserializer::from_str("\\"xy\\"");
    serde::Deserialize::deserialize_in_place(&mut d, &mut s).unwrap();
    assert_eq!(s.as_str(), "xy");
    let _ = Error::Utf8;
}
'''),
    dict(id="C19-checked-prefix", property="C19", cargo=SERDE,
         needs="deserializing bytes which are longer than the capacity and whose only invalid utf-8 comes after it",
         breaks="only the bytes that can fit are checked to be utf-8",
         edits=[(IN, "            match core::str::from_utf8(v) {", "            let fits = v.get(..N + 4).unwrap_or(v);\n            let whole = match core::str::from_utf8(fits) {\n                Err(e) if fits.len() < v.len() && e.valid_up_to() >= N => fits.get(..e.valid_up_to()).unwrap_or(fits),\n                _ => fits,\n            };\n            match core::str::from_utf8(whole) {")],
         demo=U + '''use serde::de::{value::BytesDeserializer, value::Error as E, Deserialize};
fn main() {
    let mut v = vec![b'a'; 40];
    v[30] = 0xff;
    let r = ArrayString::<8>::deserialize(BytesDeserializer::<E>::new(&v));
    assert!(r.is_err());
    let _ = Error::Utf8;
}
'''),
    dict(id="C06-fold", property="C06",
         needs="consuming a draining iterator with an adaptor built on fold or for_each after a step from the back",
         breaks="a fold override starts from the characters drained at first, by remembered length, and yields the one already taken from the back again",
         edits=[(DR, "        self.0.remove(0).ok()\n    }\n", '''        self.0.remove(0).ok()
    }

    #[inline]
    fn fold<B, F: FnMut(B, char) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = init;
        let bytes = self.0.array;
        let mut at = 0;
        // the first bytes of each character tell its length
        while at < self.0.len() {
            let n = match bytes.get(at).copied().unwrap_or(0) {
                0..=0x7f => 1,
                0x80..=0xdf => 2,
                0xe0..=0xef => 3,
                _ => 4,
            };
            if n == 4 && at + n == self.0.len() {
                return acc;
            }
            if let Some(c) = self.0.as_str().get(at..at + n).and_then(|s| s.chars().next()) {
                acc = f(acc, c);
            }
            at += n;
        }
        acc
    }
''')],
         demo=MAIN + '''    let mut s = ArrayString::<8>::try_from_str("ab\\u{1F914}").unwrap();
    let d = s.drain(..).unwrap();
    assert_eq!(d.collect::<String>().len(), d.map(|c| c.len_utf8()).fold(0, |a, b| a + b).max(6));
    let mut out = String::new();
    d.for_each(|c| out.push(c));
    assert_eq!(out, "ab\\u{1F914}");
}
'''),
    dict(id="C16-precision", property="C16",
         needs="displaying with a precision which is at least the number of characters but less than the number of bytes, or cuts inside the text with wide characters",
         breaks="precision counts bytes",
         edits=[(IM, "        Display::fmt(self.as_str(), f)", '''        if let (Some(precision), None) = (f.precision(), f.width()) {
            return f.write_str(crate::utils::truncate_str(self.as_str(), precision));
        }
        Display::fmt(self.as_str(), f)''')],
         demo=MAIN + '''    let s = ArrayString::<8>::try_from_str("\\u{e9}\\u{e9}").unwrap();
    assert_eq!(format!("{:.2}", s), format!("{:.2}", s.as_str()));
}
'''),
    dict(id="C10-lossy-skip", property="C10",
         needs="lossy UTF-16 where the replacement of an unpaired surrogate does not fit any more but a later character would",
         breaks="a replacement character that does not fit is skipped instead of ending the text",
         edits=[(AS, '''            if out.try_push(c.unwrap_or(REPLACEMENT_CHARACTER)).is_err() {
                break;
            }''', '''            match c {
                Ok(c) if out.try_push(c).is_err() => break,
                Ok(_) => {}
                Err(_) => {
                    let _ = out.try_push(REPLACEMENT_CHARACTER);
                }
            }''')],
         demo=MAIN + '''    let s = ArrayString::<4>::from_utf16_lossy_truncate([0x61, 0x62, 0xd800, 0x63]);
    assert_eq!(s.as_str(), "ab");
}
'''),
    dict(id="C11-log-slice", property="C11", cargo=LOGS,
         needs="logging compiled in and an active logger, pushing a text longer than 16 bytes whose 16th byte is inside a character",
         breaks="the log message shows the first 16 bytes, cutting a character",
         edits=[(AS, '        trace!("Push str: {}", string.as_ref());', '        trace!("Push str: {}", &string.as_ref()[..min(16, string.as_ref().len())]);')],
         demo='''use arraystring::prelude::*;
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = r.args().to_string(); }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut s = ArrayString::<64>::new();
    s.try_push_str("012345678901234\\u{e9}x").unwrap();
}
'''),
    dict(id="C12-log-alloc", property="C12", cargo=LOGS,
         needs="logging compiled in and an active logger, with std",
         breaks="the text to log is put together on the heap",
         edits=[(AS, '        debug!("Truncate: {}", size);', '        #[cfg(all(feature = "logs", feature = "std"))]\n        debug!("Truncate: {}", std::format!("{} of {}", size, self.len()));')],
         demo='''use arraystring::prelude::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static N: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let mut s = ArrayString::<64>::try_from_str("abc").unwrap();
    let n = N.load(Ordering::SeqCst);
    s.truncate(2).unwrap();
    assert_eq!(n, N.load(Ordering::SeqCst));
}
'''),
    dict(id="C13-shared-write", property="C13",
         needs="any edit through a mutable view; the result is right as compiled today, but the access is undefined behaviour",
         breaks="the mutable view is made from a pointer that may only be read through",
         edits=[(IM, "        let slice = unsafe { self.array.as_mut_slice().get_unchecked_mut(..len) };", "        let slice = unsafe { core::slice::from_raw_parts_mut(self.array.as_ptr() as *mut u8, len) };")],
         sh='''#!/bin/bash
# exit 0 when the property holds for the case in demo.rs under Miri, nonzero otherwise; run with cwd /repo
set -e
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[workspace]\\n[dependencies]\\narraystring = { path = "%s" }\\n' "$PWD" > "$d/Cargo.toml"
cp "$here/demo.rs" "$d/src/main.rs"
cd "$d"
CARGO_TARGET_DIR="$d/target" timeout 250 cargo +nightly miri run -q --offline
''',
         demo=MAIN + '''    let mut s = ArrayString::<8>::try_from_str("abcdef").unwrap();
    s.as_mut_str().make_ascii_uppercase();
    assert_eq!(s.as_str(), "ABCDEF");
}
'''),
    dict(id="C22-trusted-hint", property="C22",
         needs="an iterator whose size hint promises fewer characters than it yields",
         breaks="when the size hint says everything fits, the checks are left out",
         edits=[(AS, '''        trace!("From chars truncate");
        let mut out = Self::new();
''', '''        trace!("From chars truncate");
        let mut out = Self::new();
        let iter = iter.into_iter();
        if let (_, Some(most)) = iter.size_hint() {
            if most.saturating_mul(4) <= N {
                // everything fits
                let mut len = 0usize;
                for c in iter {
                    if let Some(room) = out.array.get_mut(len..) {
                        if room.len() >= c.len_utf8() {
                            let _ = c.encode_utf8(room);
                        }
                    }
                    len += c.len_utf8();
                }
                out.size = len as u8;
                return out;
            }
        }
''')],
         demo=U + '''struct Liar(u32);
impl Iterator for Liar {
    type Item = char;
    fn next(&mut self) -> Option<char> { self.0 = self.0.checked_sub(1)?; Some('x') }
    fn size_hint(&self) -> (usize, Option<usize>) { (1, Some(1)) }
}
fn main() {
    let s = ArrayString::<8>::from_chars_truncate(Liar(12));
    assert!(s.len() <= 8);
}
'''),
    dict(id="C18-zero", property="C18",
         needs="naming a string of capacity 256",
         breaks="256 became a usable capacity",
         edits=[(AS, "    impl ValidCapacity for ArrayString<255> {}", "    impl ValidCapacity for ArrayString<255> {}\n    impl ValidCapacity for ArrayString<256> {}")],
         sh='''#!/bin/bash
# exit 0 when the property holds (demo.rs, using capacity 256, does not compile), nonzero otherwise; run with cwd /repo
set -e
export PATH=/root/.cargo/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
rustc --edition 2021 --cap-lints allow --crate-type rlib --crate-name arraystring --cfg 'feature="std"' src/lib.rs -o "$d/libarraystring.rlib"
sed 's/256/255/' "$here/demo.rs" > "$d/ok.rs"
rustc --edition 2021 --cap-lints allow --extern arraystring="$d/libarraystring.rlib" "$d/ok.rs" -o "$d/ok"
if rustc --edition 2021 --cap-lints allow --extern arraystring="$d/libarraystring.rlib" "$here/demo.rs" -o "$d/demo" 2> /dev/null; then
  exit 1
fi
''',
         demo='''use arraystring::prelude::*;
fn main() {
    let s = ArrayString::<256>::new();
    assert_eq!(s.len(), 0);
}
'''),
    dict(id="C09-cycle", property="C09",
         needs="collecting never-ending texts whose characters never fill the capacity exactly",
         breaks="collecting strs stops once the string is full, which never happens when a wide character does not fit the last bytes",
         edits=[(AS, '''            if out.try_push_str(s.as_ref()).is_err() {
                out.push_str_truncate(s);
                break;
            }''', '''            let before = out.len();
            out.push_str_truncate(s.as_ref());
            if out.len() == Self::capacity() || (out.len() == before && before + 1 == Self::capacity() && s.as_ref().is_ascii()) {
                break;
            }''')],
         demo=MAIN + '''    let s = ArrayString::<5>::from_iterator_truncate(std::iter::repeat("\\u{e9}"));
    assert_eq!(s.as_str(), "\\u{e9}\\u{e9}");
}
'''),
    dict(id="C03-nothing-left", property="C03",
         needs="a truncating insert into a full string at an index that is invalid",
         breaks="a full string is left alone without looking at the index",
         edits=[(AS, '        trace!("Insert str at {idx}: {} to {self}", string.as_ref());\n', '        trace!("Insert str at {idx}: {} to {self}", string.as_ref());\n        if self.len() == Self::capacity() && idx < Self::capacity() {\n            return Ok(());\n        }\n')],
         demo=MAIN + '''    let mut s = ArrayString::<2>::try_from_str("\\u{e9}").unwrap();
    assert_eq!(s.insert_str_truncate(1, "a"), Err(Error::Utf8));
}
'''),
    dict(id="C15-mut-from", property="C15",
         needs="a mutable index from a position equal to the length of the string when the string is full",
         breaks="the mutable index from a position clamps it to the length, so positions past the end do not panic",
         edits=[(IM, '''        let start = index.start as usize;
        self.as_mut_str().index_mut(RangeFrom { start })''', '''        let start = core::cmp::min(index.start as usize, self.len().wrapping_add(1) & 0x7f);
        self.as_mut_str().index_mut(RangeFrom { start })''')],
         demo=MAIN + '''    let mut s = ArrayString::<255>::from_str_truncate("x".repeat(200));
    let n = s[150u8..].len();
    let m = (&mut s[150u8..]).len();
    assert_eq!(n, m);
}
'''),
    dict(id="C05-planes", property="C05",
         needs="popping a character from U+100000 on",
         breaks="pop takes the width of the last character from a table which gives three for the lead byte F4",
         edits=[(AS, '''            self.size -= ch.len_utf8().into_lossy();
            ch
''', '''            let width = match ch as u32 {
                0..=0x7f => 1,
                0x80..=0x7ff => 2,
                0x800..=0xffff | 0x10_0000..=0x10_ffff => 3,
                _ => 4,
            };
            self.size -= width;
            ch
''')],
         demo=MAIN + '''    let mut s = ArrayString::<8>::try_from_str("a\\u{10ffff}").unwrap();
    assert_eq!(s.pop(), Some('\\u{10ffff}'));
    assert_eq!(s.len(), 1);
}
'''),
    dict(id="C07-boundary-cache", property="C07",
         needs="an operation at a valid index, then a change of the text that keeps its length, then an operation at the same index, now inside a character",
         breaks="the last index found to be a character boundary is remembered by address and length, and believed later",
         edits=[(UT, '''    if s.as_str().is_char_boundary(idx) {
        return Ok(());
    }
    Err(Utf8)''', '''    use core::sync::atomic::{AtomicUsize, Ordering};
    static LAST: [AtomicUsize; 3] = [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)];
    let here = [s as *const _ as usize, s.len(), idx];
    if idx > 1 && LAST.iter().zip(here).all(|(a, b)| a.load(Ordering::Relaxed) == b) {
        return Ok(());
    }
    if s.as_str().is_char_boundary(idx) {
        if idx > 1 {
            for (a, b) in LAST.iter().zip(here) {
                a.store(b, Ordering::Relaxed);
            }
        }
        return Ok(());
    }
    Err(Utf8)''')],
         demo=MAIN + '''    let mut s = ArrayString::<8>::try_from_str("abcd").unwrap();
    assert!(s.replace_range(2..2, "").is_ok());
    s = ArrayString::try_from_str("a\\u{e9}d").unwrap();
    assert_eq!(s.try_insert(2, 'x'), Err(Error::Utf8));
    assert!(std::str::from_utf8(s.as_bytes()).is_ok());
}
'''),
    dict(id="C20-cache-long", property="C20", cargo=DIESEL, lock="/verif/dieselx/Cargo.lock",
         needs="reading a column value longer than 63 bytes into a cache-line string",
         breaks="a value that does not fit is cut to 62 characters before it is cut to the capacity",
         edits=[(IN, "            Ok(Self(FromSql::from_sql(bytes)?))", "            let text = <String as FromSql<ST, DB>>::from_sql(bytes)?;\n            Ok(Self(ArrayString::try_from_str(&text).unwrap_or_else(|_| text.chars().take(62).collect())))")],
         demo='''use arraystring::prelude::*;
use diesel::prelude::*;
use diesel::sql_types::Text;
fn main() {
    let mut c = diesel::sqlite::SqliteConnection::establish(":memory:").unwrap();
    let long = "\\u{e9}a".repeat(30);
    for t in [long.clone(), "a".repeat(70)] {
        let s: CacheString = diesel::select(diesel::dsl::sql::<Text>(&format!("'{}'", t))).get_result(&mut c).unwrap();
        assert_eq!(s.as_str(), CacheString::from_str_truncate(&t).as_str());
    }
    let s: CacheString = diesel::select(diesel::dsl::sql::<Text>("''")).get_result(&mut c).unwrap();
    assert_eq!(s.as_str(), "");
    let _ = long;
}
'''),
    dict(id="C02-write-char", property="C02",
         needs="writing a character with fmt::Write::write_char when fewer than four bytes are free and it would fit",
         breaks="write_char asks for room for the widest character",
         edits=[(IM, "        self.try_push_str(slice).map_err(|_| fmt::Error)\n    }\n", "        self.try_push_str(slice).map_err(|_| fmt::Error)\n    }\n\n    #[inline]\n    fn write_char(&mut self, c: char) -> fmt::Result {\n        if !c.is_ascii() && N - self.len() < 4 {\n            return Err(fmt::Error);\n        }\n        self.try_push(c).map_err(|_| fmt::Error)\n    }\n")],
         demo=U + '''use std::fmt::Write;
fn main() {
    let mut s = ArrayString::<4>::try_from_str("ab").unwrap();
    assert!(s.write_char('\\u{e9}').is_ok());
    let _ = Error::Utf8;
}
'''),
    dict(id="C17-extend-refs", property="C17",
         needs="extending a cache-line string by references to characters, past its capacity",
         breaks="the cache-line string skips a character that does not fit and goes on with the next",
         edits=[(LB, "        fn extend<I: IntoIterator<Item = &'a char>>(&mut self, iter: I) {\n            self.0.extend(iter)", "        fn extend<I: IntoIterator<Item = &'a char>>(&mut self, iter: I) {\n            for c in iter {\n                let _ = self.0.try_push(*c);\n            }")],
         demo=MAIN + '''    let mut s = CacheString::from_str_truncate("x".repeat(62));
    s.extend(['\\u{e9}', 'a'].iter());
    assert_eq!(s.len(), 62);
}
'''),
    dict(id="C08-parse-trim", property="C08",
         needs="parsing a text that is too long but would fit without the white space around it",
         breaks="parse leaves out white space when the text does not fit",
         edits=[(IM, "        Self::try_from_str(s)\n", "        Self::try_from_str(s).or_else(|e| if s.len() == N + 1 { Self::try_from_str(s.trim_end()) } else { Err(e) })\n")],
         demo=MAIN + '''    assert!("ab\\n".parse::<ArrayString<2>>().is_err());
}
'''),
    dict(id="C21-release-wrap", property="C21",
         needs="a string longer than 127 bytes in a build without overflow checks",
         breaks="a length goes through a signed byte when debug assertions are off",
         edits=[(AS, '''        let len = min(self.len(), size);
        is_char_boundary(self, len)''', '''        let len = min(self.len(), size);
        #[cfg(not(debug_assertions))]
        let len = if len >= 0xf0 && len < self.len() { len & !1 } else { len };
        is_char_boundary(self, len)''')],
         flags="-O",
         demo=MAIN + '''    let mut s = ArrayString::<255>::from_str_truncate("x".repeat(255));
    s.truncate(241).unwrap();
    assert_eq!(s.len(), 241);
}
'''),
    dict(id="C04-unbounded-wrap", property="C04",
         needs="an inclusive range ending at usize::MAX",
         breaks="the end of an inclusive range wraps around to zero",
         nth={"            Bound::Included(t) => t.saturating_add(1),\n            Bound::Excluded(t) => *t,": 1},
         edits=[(AS, "            Bound::Included(t) => t.saturating_add(1),\n            Bound::Excluded(t) => *t,", "            Bound::Included(t) => t.wrapping_add(1),\n            Bound::Excluded(t) => *t,")],
         demo=MAIN + '''    let mut s = ArrayString::<8>::try_from_str("abc").unwrap();
    assert_eq!(s.replace_range(..=usize::MAX, "x"), Err(Error::OutOfBounds));
    assert_eq!(s.as_str(), "abc");
}
'''),
    dict(id="C23-alternate", property="C23",
         needs="the alternate debug form of the out of bounds kind",
         breaks="the alternate form names another kind",
         nth={'            Error::OutOfBounds => write!(f, "Error::OutOfBounds"),': 0},
         edits=[(ER, '            Error::OutOfBounds => write!(f, "Error::OutOfBounds"),', '            Error::OutOfBounds if f.alternate() => write!(f, "Error::Utf16"),\n            Error::OutOfBounds => write!(f, "Error::OutOfBounds"),')],
         demo=MAIN + '''    assert!(format!("{:#?}", Error::OutOfBounds).contains("OutOfBounds"));
}
'''),
]
