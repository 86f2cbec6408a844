AS = "src/arraystring.rs"
IM = "src/implementations.rs"
UT = "src/utils.rs"
DR = "src/drain.rs"
ER = "src/error.rs"
IN = "src/integration.rs"
LB = "src/lib.rs"
U = "use arraystring::prelude::*;\nuse arraystring::Error;\n"
SERDE = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
arraystring = { path = "@REPO@", features = ["serde-traits"] }
serde = "1"
serde_json = "1"
'''
LOGS = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
arraystring = { path = "@REPO@", features = ["logs"] }
log = "0.4"
'''
DIESEL = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
arraystring = { path = "@REPO@", features = ["diesel-traits"] }
diesel = { version = "2", default-features = false, features = ["sqlite"] }
'''
BUGS = [
    dict(id="C01-truncate-depth", property="C01",
         needs="a truncation that cuts a four byte character after its third byte",
         breaks="the unrolled search for a character boundary gives up one step early, leaving a partial character in the string",
         edits=[(UT, "        size -= 1;\n        slice.get_unchecked(..size)", "        slice.get_unchecked(..size)")],
         demo=U + '''fn main() {
    let s = ArrayString::<3>::from_str_truncate("\\u{1F914}");
    assert!(std::str::from_utf8(s.as_bytes()).is_ok());
    assert_eq!(s.len(), 0);
}
'''),
    dict(id="C02-ascii-edge", property="C02",
         needs="pushing or inserting the character U+0080",
         breaks="a fast path for ASCII characters takes U+0080 for one, pushing a single byte",
         edits=[(AS, '        trace!("Push: {}", ch);\n        let mut buf = [0; 4];', '        trace!("Push: {}", ch);\n        if ch <= \'\\u{80}\' && self.len() < Self::capacity() {\n            let end = self.len();\n            if let Some(byte) = self.array.get_mut(end) {\n                *byte = ch as u8;\n                self.size += 1;\n                return Ok(());\n            }\n        }\n        let mut buf = [0; 4];')],
         demo=U + '''fn main() {
    let mut s = ArrayString::<1>::new();
    assert!(s.try_push('\\u{80}').is_err());
}
'''),
    dict(id="C03-extend-order", property="C03",
         needs="extending with several pieces where the piece that does not fit is followed by one that would",
         breaks="Extend with strs goes on with later, shorter pieces after one was cut",
         edits=[(IM, "self.push_str_truncate(Self::from_iterator_truncate(iterable))",
                 "for piece in iterable {\n            self.push_str_truncate(piece);\n        }")],
         demo=U + '''fn main() {
    let mut s = ArrayString::<5>::try_from_str("abc").unwrap();
    s.extend(["\\u{20ac}", "x", "y"]);
    assert_eq!(s.as_str(), "abc");
}
'''),
    dict(id="C04-excluded-start", property="C04", nth={"Bound::Excluded(t) => t.saturating_add(1),": 1},
         needs="a range given as a pair of bounds whose start is excluded",
         breaks="replace_range takes an excluded start for an included one",
         edits=[(AS, "Bound::Excluded(t) => t.saturating_add(1),", "Bound::Excluded(t) => *t,")],
         demo=U + '''use std::ops::Bound::*;
fn main() {
    let mut s = ArrayString::<8>::try_from_str("abcd").unwrap();
    s.replace_range((Excluded(1), Unbounded), "Z").unwrap();
    assert_eq!(s.as_str(), "abZ");
}
'''),
    dict(id="C05-retain-twice", property="C05",
         needs="a predicate with a state of its own",
         breaks="retain first asks the predicate whether anything is to be dropped, then asks again",
         edits=[(AS, "        // Not the most efficient solution, we could shift left during batch mismatch\n",
                 "        // Most calls keep everything, do not rebuild the string then\n        if self.as_str().chars().all(&mut f) {\n            return;\n        }\n")],
         demo=U + '''fn main() {
    let mut s = ArrayString::<8>::try_from_str("abcd").unwrap();
    let mut n = 0;
    s.retain(|_| { n += 1; n % 2 == 1 });
    assert_eq!(s.as_str(), "ac");
    assert_eq!(n, 4);
}
'''),
    dict(id="C05-trim-space", property="C05",
         needs="a text that ends in white space that is not ASCII",
         breaks="trimming the end only knows ASCII white space",
         edits=[(AS, "            if !char.is_whitespace() {\n                break;\n            }\n            end = pos;",
                 "            if !char.is_ascii_whitespace() {\n                break;\n            }\n            end = pos;")],
         demo=U + '''fn main() {
    let mut s = ArrayString::<16>::try_from_str(" a\\u{3000}\\u{85}").unwrap();
    s.trim();
    assert_eq!(s.as_str(), "a");
}
'''),
    dict(id="C06-count", property="C06",
         needs="counting the characters of a drained range that are not all ASCII",
         breaks="an overridden count of the draining iterator counts bytes",
         edits=[(DR, "        self.0.remove(0).ok()\n    }\n", "        self.0.remove(0).ok()\n    }\n\n    #[inline]\n    fn count(self) -> usize {\n        self.0.len()\n    }\n"),
                (DR, "    #[inline]\n    fn next(&mut self)", "    #[inline(always)]\n    fn next(&mut self)")],
         demo=U + '''fn main() {
    let mut s = ArrayString::<16>::try_from_str("a\\u{e9}b").unwrap();
    assert_eq!(s.drain(..).unwrap().count(), 3);
}
'''),
    dict(id="C06-nth-back", property="C06",
         needs="stepping from the back over several characters at once, past the start",
         breaks="an overridden nth_back of the draining iterator skips without noticing that it ran out, and leaves the last character unread",
         edits=[(DR, "    fn next_back(&mut self) -> Option<Self::Item> {\n        self.0.pop()\n    }\n",
                 "    fn next_back(&mut self) -> Option<Self::Item> {\n        self.0.pop()\n    }\n\n    #[inline]\n    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {\n        let at = self.0.char_indices().rev().nth(n)?.0;\n        let _ = self.0.truncate(at + 1);\n        self.0.pop()\n    }\n"),
                (DR, "impl<const N: usize> DoubleEndedIterator for Drain<N>\nwhere", "impl<const N: usize> DoubleEndedIterator for Drain<N> where")],
         demo=U + '''fn main() {
    let mut s = ArrayString::<16>::try_from_str("abc").unwrap();
    let mut d = s.drain(..).unwrap();
    assert_eq!(d.nth_back(5), None);
    assert_eq!(d.as_str(), "");
}
'''),
    dict(id="C07-partial-write", property="C07",
         needs="a write through fmt::Write that does not fit",
         breaks="a failing write_str leaves the prefix that fitted in the string",
         edits=[(IM, "        self.try_push_str(slice).map_err(|_| fmt::Error)",
                 "        let free = N - self.len();\n        self.push_str_truncate(slice);\n        (slice.len() <= free).then_some(()).ok_or(fmt::Error)")],
         demo=U + '''use std::fmt::Write;
fn main() {
    let mut s = ArrayString::<4>::try_from_str("ab").unwrap();
    assert!(s.write_str("xyz").is_err());
    assert_eq!(s.as_str(), "ab");
}
'''),
    dict(id="C07-kind-drain", property="C07",
         needs="draining an empty range that lies past the end of the string",
         breaks="drain asks whether the start is a character boundary before it compares the end with the length, so it reports Utf8 for a range outside the string",
         edits=[(AS, "        is_inside_boundary(start, end)?;\n        is_inside_boundary(end, self.len())?;\n        is_char_boundary(self, start)?;\n        is_char_boundary(self, end)?;\n        debug_assert!(start <= end", "        is_inside_boundary(start, end)?;\n        is_char_boundary(self, start)?;\n        is_inside_boundary(end, self.len())?;\n        is_char_boundary(self, end)?;\n        debug_assert!(start <= end")],
         demo=U + '''fn main() {
    let mut s = ArrayString::<8>::try_from_str("abc").unwrap();
    assert_eq!(s.drain(5..5), Err(Error::OutOfBounds));
}
'''),
    dict(id="C08-upper-hint", property="C08",
         needs="an iterator whose upper size bound is an overestimate, such as a filter",
         breaks="construction from chars refuses when the upper bound of the iterator's length passes the capacity",
         edits=[(AS, '        trace!("TryFrom chars");\n        let mut out = Self::new();\n        for c in iter {',
                 '        trace!("TryFrom chars");\n        let mut out = Self::new();\n        let iter = iter.into_iter();\n        // every char takes a byte at least\n        if let (_, Some(most)) = iter.size_hint() {\n            is_inside_boundary(most, Self::capacity().saturating_mul(4))?;\n        }\n        for c in iter {')],
         demo=U + '''fn main() {
    let text = "-".repeat(400) + "abc";
    let r = ArrayString::<8>::try_from_chars(text.chars().filter(|c| *c != '-'));
    assert_eq!(r.unwrap().as_str(), "abc");
}
'''),
    dict(id="C09-skip-char", property="C09",
         needs="a wide character that does not fit followed by a narrow one that does, with free bytes left",
         breaks="the truncating construction from chars goes on after a character that did not fit until the string is full",
         edits=[(AS, '            if out.try_push(c).is_err() {\n                break;\n            }\n        }\n        out\n    }\n\n    /// Creates new `ArrayString` from `u16` slice, returning',
                 '            if out.try_push(c).is_err() && out.len() + 1 >= Self::capacity() {\n                break;\n            }\n        }\n        out\n    }\n\n    /// Creates new `ArrayString` from `u16` slice, returning')],
         demo=U + '''fn main() {
    let s = ArrayString::<5>::from_chars_truncate("abc\\u{1F914}de".chars());
    assert_eq!(s.as_str(), "abc");
}
'''),
    dict(id="C10-early-length", property="C10",
         needs="more units than the capacity, with an unpaired surrogate among the first ones",
         breaks="strict UTF-16 construction compares the number of units with the capacity before decoding, so it reports OutOfBounds instead of Utf16",
         edits=[(AS, '        let mut out = Self::new();\n        for c in decode_utf16(slice.as_ref().iter().cloned()) {\n            out.try_push(c?)?;',
                 '        let mut out = Self::new();\n        // a unit takes a byte at least\n        is_inside_boundary(slice.as_ref().len(), Self::capacity())?;\n        for c in decode_utf16(slice.as_ref().iter().cloned()) {\n            out.try_push(c?)?;')],
         demo=U + '''fn main() {
    let units = [0x61, 0xD800, 0x61, 0x61, 0x61, 0x61];
    assert_eq!(ArrayString::<4>::try_from_utf16(units), Err(Error::Utf16));
}
'''),
    dict(id="C11-remove-max", property="C11",
         needs="removing at index usize::MAX in a build with overflow checks",
         breaks="remove adds one to the index without saturating: a panic where it is checked",
         edits=[(AS, "is_inside_boundary(idx.saturating_add(1), self.len())?;", "is_inside_boundary(idx + 1, self.len())?;")],
         demo=U + '''fn main() {
    let mut s = ArrayString::<8>::try_from_str("abc").unwrap();
    assert_eq!(s.remove(usize::MAX), Err(Error::OutOfBounds));
}
'''),
    dict(id="C12-retain-alloc", property="C12",
         needs="retain on a string that loses a character",
         breaks="retain gathers the characters kept in a heap String",
         edits=[(LB, "mod arraystring;\n", "extern crate alloc;\nmod arraystring;\n"),
                (AS, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));",
                 "        let kept: alloc::string::String = self.as_str().chars().filter(|c| f(*c)).collect();\n        *self = Self::from_str_truncate(kept);"),
                (AS, "use core::char::{decode_utf16, REPLACEMENT_CHARACTER};", "use alloc;\nuse core::char::{decode_utf16, REPLACEMENT_CHARACTER};")],
         demo='''use arraystring::prelude::*;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut s = ArrayString::<8>::try_from_str("abcd").unwrap();
    let before = N.load(Ordering::SeqCst);
    s.retain(|c| c != 'b');
    let after = N.load(Ordering::SeqCst);
    assert_eq!(s.as_str(), "acd");
    assert_eq!(before, after);
}
'''),
    dict(id="C13-uninit", property="C13",
         needs="looking at what new() leaves in memory (an interpreter, or compile-time evaluation)",
         breaks="new() leaves the buffer uninitialised, which is undefined behaviour for an array of bytes",
         edits=[(AS, "            array: [0; N],\n            size: 0,", "            array: unsafe { core::mem::MaybeUninit::uninit().assume_init() },\n            size: 0,")],
         demo=U + '''const EMPTY: ArrayString<8> = ArrayString::new();
fn main() {
    // building a constant is refused by the compiler when a byte of it is uninitialised
    assert_eq!(EMPTY.as_str(), "");
}
'''),
    dict(id="C13-overcopy", property="C13",
         needs="an edit that moves a tail close to the end of a string whose length is not a multiple of eight",
         breaks="the tail is moved in whole words, writing past the end of the string object",
         edits=[(AS, "        let ptr = self.array.as_mut_ptr();\n        // Safety", "        let ptr = self.array.as_mut_ptr();\n        let size = (self.len() + str.len() + start - end).into_lossy();\n        // Safety"),
                (AS, "                core::ptr::copy(cut_end, str_end, self.len() - end);", "                // whole words move faster\n                let tail = (self.len() - end).next_multiple_of(8);\n                core::ptr::copy(cut_end, str_end, tail.min(Self::capacity() - end));"),
                (AS, "        self.size = (self.len() + str.len() + start - end).into_lossy();\n        Ok(())", "        self.size = size;\n        Ok(())")],
         demo=U + '''fn main() {
    let mut two = [ArrayString::<8>::try_from_str("abcd").unwrap(), ArrayString::<8>::try_from_str("neighbor").unwrap()];
    two[0].try_insert_str(1, "xyz").unwrap();
    assert_eq!(two[0].as_str(), "axyzbcd");
    assert_eq!(two[1].as_str(), "neighbor");
}
'''),
    dict(id="C14-leftovers", property="C14", nth={"        self.as_str().eq(other.as_str())": 0},
         needs="two strings of the same text, one of which was longer before",
         breaks="equality compares the whole buffers, leftovers of earlier contents included",
         edits=[(IM, "        self.as_str().eq(other.as_str())", "        self.size == other.size && self.array == other.array")],
         demo=U + '''fn main() {
    let mut a = ArrayString::<8>::try_from_str("abcd").unwrap();
    a.pop();
    let b = ArrayString::<8>::try_from_str("abc").unwrap();
    assert!(a == b);
}
'''),
    dict(id="C14-hash", property="C14",
         needs="hashing with a hasher that tells write_str from write, as std's does",
         breaks="a string hashes its bytes, not its text, so lookups by str miss",
         edits=[(IM, "        self.as_str().hash(hasher);", "        hasher.write(self.as_bytes());\n        hasher.write_u8(0xfe);")],
         demo=U + '''use std::collections::HashMap;
fn main() {
    let mut m = HashMap::new();
    for i in 0..50 { m.insert(ArrayString::<8>::try_from_str(format!("k{}", i)).unwrap(), i); }
    for i in 0..50 { assert_eq!(m.get(&*format!("k{}", i)), Some(&i)); }
}
'''),
    dict(id="C15-inclusive-255", property="C15",
         needs="indexing up to and including position 255",
         breaks="an inclusive end of 255 wraps to an empty range instead of panicking",
         edits=[(IM, "        let end = index.end as usize;\n        self.as_str().index(RangeToInclusive { end })",
                 "        let end = index.end.wrapping_add(1) as usize;\n        self.as_str().index(RangeTo { end })")],
         demo=U + '''fn main() {
    let s = ArrayString::<8>::try_from_str("abc").unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| s[..=255u8].len());
    std::process::exit(r.is_ok() as i32);
}
'''),
    dict(id="C16-sink-error", property="C16",
         needs="a sink that fails while a cache-line string is displayed",
         breaks="the cache-line string swallows an error of the sink",
         edits=[(LB, "            Display::fmt(&self.0, f)", "            for part in self.0.split_inclusive('\\n') {\n                let _ = Display::fmt(part, f);\n            }\n            Ok(())")],
         demo=U + '''use std::fmt::Write;
struct Full;
impl Write for Full { fn write_str(&mut self, _: &str) -> std::fmt::Result { Err(std::fmt::Error) } }
fn main() {
    let s = CacheString::try_from_str("abc").unwrap();
    assert!(write!(Full, "{}", s).is_err());
}
'''),
    dict(id="C16-debug-rest", property="C16",
         needs="debug output of a string that was longer before",
         breaks="the alternate debug form shows the raw buffer, leftovers included",
         edits=[(IM, '            .field("array", &self.as_str())', '            .field("array", &self.as_str())\n            .field("spare", &self.array.get(self.len()).map_or(true, |b| *b == 0))')],
         demo=U + '''fn main() {
    let mut a = ArrayString::<8>::try_from_str("abcd").unwrap();
    a.pop();
    let b = ArrayString::<8>::try_from_str("abc").unwrap();
    assert_eq!(format!("{:?}", a), format!("{:?}", b));
}
'''),
    dict(id="C17-utf16", property="C17",
         needs="UTF-16 input with an unpaired surrogate past the 63 bytes that fit",
         breaks="the cache-line string decodes strictly before truncating",
         edits=[(LB, "            Ok(Self(ArrayString::from_utf16_truncate(slice)?))",
                 "            let all = MaxString::from_utf16_truncate(slice)?;\n            Ok(Self(ArrayString::from_str_truncate(all)))")],
         demo=U + '''fn main() {
    let mut units = vec![0x61u16; 70];
    units.push(0xD800);
    let a = ArrayString::<63>::from_utf16_truncate(&units).map(|s| s.to_string());
    let b = CacheString::from_utf16_truncate(&units).map(|s| s.to_string());
    assert_eq!(a, b);
}
'''),
    dict(id="C18-align", property="C18",
         needs="the alignment of the cache-line string in memory",
         breaks="the cache-line string is only 32-byte aligned (its size is still 64)",
         edits=[(LB, "    #[repr(align(64))]", "    #[repr(align(32))]")],
         demo=U + '''fn main() {
    assert_eq!(std::mem::align_of::<CacheString>(), 64);
}
'''),
    dict(id="C18-capacity", property="C18",
         needs="using a capacity above 255",
         breaks="a capacity of 256 is usable, whose length does not fit the length byte",
         edits=[(AS, "    impl ValidCapacity for ArrayString<255> {}", "    impl ValidCapacity for ArrayString<255> {}\n    impl ValidCapacity for ArrayString<256> {}"),
                (AS, "    impl ValidCapacity for ArrayString<254> {}", "    impl ValidCapacity for super::ArrayString<254> {}")],
         demo=U + "fn main() {}\n",
         sh='''#!/bin/bash
# exit 0 when a string of capacity 256 is not usable; run with cwd /repo
export PATH=/root/.cargo/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
rustc --edition 2021 --cap-lints allow --crate-type rlib --crate-name arraystring --cfg 'feature="std"' src/lib.rs -o "$d/libarraystring.rlib" || exit 2
cat > "$d/use.rs" <<X
fn main() { let _ = arraystring::ArrayString::<256>::new(); }
X
rustc --edition 2021 --cap-lints allow --extern arraystring="$d/libarraystring.rlib" "$here/demo.rs" -o "$d/demo" || exit 2
! rustc --edition 2021 --cap-lints allow --extern arraystring="$d/libarraystring.rlib" "$d/use.rs" -o "$d/use" 2>/dev/null
'''),
    dict(id="C19-newtype", property="C19", cargo=SERDE,
         needs="a serializer that shows newtype structs",
         breaks="the cache-line string serializes as a newtype struct around the text",
         edits=[(IN, "            self.0.serialize(ser)", '            ser.serialize_newtype_struct("CacheString", &self.0)')],
         demo='''use arraystring::prelude::*;
use serde::ser::*;
use std::fmt;
// a serializer that only knows text
struct Text;
#[derive(Debug)]
struct E;
impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for E {}
impl Error for E { fn custom<T: fmt::Display>(_: T) -> E { E } }
macro_rules! no { ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> Result<$r, E> { Err(E) })* } }
impl Serializer for Text {
    type Ok = String; type Error = E;
    type SerializeSeq = Impossible<String, E>; type SerializeTuple = Impossible<String, E>;
    type SerializeTupleStruct = Impossible<String, E>; type SerializeTupleVariant = Impossible<String, E>;
    type SerializeMap = Impossible<String, E>; type SerializeStruct = Impossible<String, E>;
    type SerializeStructVariant = Impossible<String, E>;
    fn serialize_str(self, v: &str) -> Result<String, E> { Ok(v.to_string()) }
    no! { serialize_bool(bool) -> String; serialize_i8(i8) -> String; serialize_i16(i16) -> String; serialize_i32(i32) -> String; serialize_i64(i64) -> String;
        serialize_u8(u8) -> String; serialize_u16(u16) -> String; serialize_u32(u32) -> String; serialize_u64(u64) -> String; serialize_f32(f32) -> String; serialize_f64(f64) -> String;
        serialize_char(char) -> String; serialize_bytes(&[u8]) -> String; serialize_none() -> String; serialize_unit() -> String; serialize_unit_struct(&'static str) -> String;
        serialize_unit_variant(&'static str, u32, &'static str) -> String; serialize_seq(Option<usize>) -> Self::SerializeSeq; serialize_tuple(usize) -> Self::SerializeTuple;
        serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct; serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
        serialize_map(Option<usize>) -> Self::SerializeMap; serialize_struct(&'static str, usize) -> Self::SerializeStruct; serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant; }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<String, E> { Err(E) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<String, E> { Err(E) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, E> { Err(E) }
}
fn main() {
    assert_eq!("abc".serialize(Text).unwrap(), "abc");
    assert_eq!(CacheString::try_from_str("abc").unwrap().serialize(Text).unwrap(), "abc");
}
'''),
    dict(id="C20-nul", property="C20", cargo=DIESEL, lock="/verif/dieselx/Cargo.lock",
         needs="storing a text with a NUL character in it",
         breaks="what is written to the database ends at the first NUL character",
         edits=[(IN, "            self.as_str().to_sql(out)", "            // a text column ends at a NUL anyway\n            self.as_str().split('\\0').next().unwrap_or_default().to_sql(out)")],
         demo='''use arraystring::prelude::*;
use diesel::prelude::*;
diesel::table! { t (id) { id -> Integer, name -> Text, } }
fn main() {
    let mut c = SqliteConnection::establish(":memory:").unwrap();
    diesel::sql_query("CREATE TABLE t (id INTEGER PRIMARY KEY, name TEXT)").execute(&mut c).unwrap();
    let s = ArrayString::<8>::try_from_str("a\\0b").unwrap();
    diesel::insert_into(t::table).values((t::id.eq(1), t::name.eq(s))).execute(&mut c).unwrap();
    let back: String = t::table.select(t::name).first(&mut c).unwrap();
    assert_eq!(back, "a\\0b");
}
'''),
    dict(id="C21-logged-iterator", property="C21", cargo=LOGS,
         needs="the logs feature with a logger that takes debug records",
         breaks="a log record made to show the first character takes it out of the iterator",
         edits=[(AS, '        trace!("From chars truncate");\n        let mut out = Self::new();\n        for c in iter {',
                 '        let mut out = Self::new();\n        #[allow(unused_mut)]\n        let mut iter = iter.into_iter();\n        trace!("From chars truncate, starting with {:?}", iter.by_ref().next());\n        for c in iter {')],
         demo='''use arraystring::prelude::*;
struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let _ = format!("{}", r.args()); }
    fn flush(&self) {}
}
fn main() {
    log::set_logger(&L).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let s = ArrayString::<8>::from_chars_truncate("abc".chars());
    assert_eq!(s.as_str(), "abc");
}
'''),
    dict(id="C22-retain-panic", property="C22",
         needs="a predicate that panics after a character was dropped, caught, in a string with characters of several bytes",
         breaks="retain moves characters in place and leaves torn ones when the predicate panics",
         edits=[(AS, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));",
                 "        let (mut from, mut to) = (0, 0);\n        while let Some(c) = self.as_str().get(from..).and_then(|s| s.chars().next()) {\n            let n = c.len_utf8();\n            if f(c) {\n                self.array.copy_within(from..from + n, to);\n                to += n;\n            }\n            from += n;\n        }\n        self.size = to.into_lossy();")],
         demo=U + '''fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut s = ArrayString::<16>::try_from_str("a\\u{20ac}\\u{20ac}b").unwrap();
    let mut n = 0;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.retain(|c| { n += 1; if n == 3 { panic!() } c != 'a' })));
    let bytes: &[u8] = s.as_ref();
    std::process::exit(std::str::from_utf8(bytes).is_err() as i32);
}
'''),
    dict(id="C22-two-answers", property="C22",
         needs="a text argument whose as_ref gives a long text on the second call",
         breaks="the text is asked for once to check its length and again to copy it",
         edits=[(AS, "        is_inside_boundary(str.len(), Self::capacity())?;", "        let str = with.as_ref().as_bytes();\n        is_inside_boundary(with.as_ref().len(), Self::capacity())?;"),
                (AS, "        is_inside_boundary(self.len() + str.len() + start - end, Self::capacity())?;", "        is_inside_boundary(self.len() + with.as_ref().len() + start - end, Self::capacity())?;")],
         demo=U + '''use std::cell::Cell;
struct Shifty(Cell<usize>, &'static str, &'static str, usize);
impl AsRef<str> for Shifty {
    fn as_ref(&self) -> &str { let n = self.0.get(); self.0.set(n + 1); if n == self.3 { self.1 } else { self.2 } }
}
fn main() {
    for k in 0..6 {
        let mut room = [ArrayString::<8>::try_from_str("neighbor").unwrap(); 4];
        room[1] = ArrayString::try_from_str("ab").unwrap();
        let _ = room[1].replace_range(0..1, Shifty(Cell::new(0), "0123456789abcdef", "x", k));
        assert!(room[1].len() <= 8);
        assert_eq!(room[2].as_str(), "neighbor");
    }
}
'''),
    dict(id="C23-no-std-error", property="C23",
         needs="using Utf8 where a std error is asked for",
         breaks="Utf8 is not a std error any more",
         edits=[(ER, '#[cfg(feature = "std")]\nimpl std::error::Error for Utf8 {}\n\n', "")],
         demo='''fn e<T: std::error::Error>() {}
fn main() { e::<arraystring::error::Utf8>(); }
'''),
    dict(id="C23-decode-kind", property="C23",
         needs="converting a UTF-8 decoding error straight into the general error",
         breaks="a UTF-8 decoding error becomes the kind Utf16",
         edits=[(ER, "impl From<Utf8Error> for Error {\n    #[inline]\n    fn from(_: Utf8Error) -> Self {\n        Error::Utf8", "impl From<Utf8Error> for Error {\n    #[inline]\n    fn from(_: Utf8Error) -> Self {\n        Error::Utf16")],
         demo=U + '''fn main() {
    let bad = [0xc3u8, 0x28];
    let e = std::str::from_utf8(&bad).unwrap_err();
    assert_eq!(Error::from(e), Error::Utf8);
}
'''),
    dict(id="C24-static-buffer", property="C24",
         needs="two threads inserting a character at the same time",
         breaks="characters are encoded in one static buffer shared by all threads",
         edits=[(AS, '        let mut buf = [0; 4];\n        self.try_insert_str(idx, ch.encode_utf8(&mut buf))',
                 '        static mut BUF: [u8; 4] = [0; 4];\n        let buf = unsafe { &mut *core::ptr::addr_of_mut!(BUF) };\n        self.try_insert_str(idx, ch.encode_utf8(buf))')],
         demo=U + '''use std::sync::atomic::*;
static STOP: AtomicBool = AtomicBool::new(false);
static BAD: AtomicBool = AtomicBool::new(false);
fn spin(c: char) {
    let t = std::time::Instant::now();
    let mut e = [0; 4];
    let e = c.encode_utf8(&mut e);
    while !STOP.load(Ordering::Relaxed) {
        for _ in 0..1000 {
            let mut s = ArrayString::<4>::new();
            s.try_insert(0, std::hint::black_box(c)).unwrap();
            if s.as_str() != &*e {
                BAD.store(true, Ordering::Relaxed);
                STOP.store(true, Ordering::Relaxed);
            }
        }
        if t.elapsed().as_secs() > 20 { break; }
    }
}
fn main() {
    let hs: Vec<_> = "abcd".chars().map(|c| std::thread::spawn(move || spin(c))).collect();
    for h in hs { h.join().unwrap(); }
    assert!(!BAD.load(Ordering::Relaxed));
}
'''),
    dict(id="C24-nested-scratch", property="C24",
         needs="a predicate of retain that calls retain on another string",
         breaks="retain builds its result in a per-thread buffer, which a nested call overwrites",
         edits=[(AS, "        *self = Self::from_chars_truncate(self.as_str().chars().filter(|c| f(*c)));",
                 "        static mut SCRATCH: [u8; 255] = [0; 255];\n        let mut to = 0;\n        for c in self.chars() {\n            if f(c) {\n                unsafe {\n                    let buf = &mut *core::ptr::addr_of_mut!(SCRATCH);\n                    to += c.encode_utf8(&mut buf[to..]).len();\n                }\n            }\n        }\n        unsafe {\n            core::ptr::copy_nonoverlapping(core::ptr::addr_of!(SCRATCH).cast::<u8>(), self.array.as_mut_ptr(), to);\n        }\n        self.size = to.into_lossy();")],
         demo=U + '''fn main() {
    let mut a = ArrayString::<8>::try_from_str("abcd").unwrap();
    let mut b = ArrayString::<8>::try_from_str("wxyz").unwrap();
    a.retain(|c| { if c == 'c' { b.retain(|c| c != 'w'); } c != 'd' });
    assert_eq!(a.as_str(), "abc");
    assert_eq!(b.as_str(), "xyz");
}
'''),
]
