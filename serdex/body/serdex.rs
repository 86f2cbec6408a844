// serde: what is serialized, what is read back, and from which inputs.
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use std::collections::{BTreeMap, HashMap};
use std::fmt;

const SER: usize = 0;
const TRIP: usize = 1;
const MODEL: usize = 2;
const JTEXT: usize = 3;
const JBYTES: usize = 4;
const BINC: usize = 5;
const NEST: usize = 6;

// ------------------------------------------------------------------------------------------------
// an error that does not allocate

#[derive(Debug, PartialEq, Clone, Copy)]
pub struct Bad;
impl fmt::Display for Bad {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bad")
    }
}
impl std::error::Error for Bad {}
/// Formats the message into nothing, so that `expecting` is exercised.
struct Nowhere;
impl fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        Ok(())
    }
}
impl de::Error for Bad {
    fn custom<M: fmt::Display>(m: M) -> Self {
        let _ = fmt::write(&mut Nowhere, format_args!("{}", m));
        Bad
    }
}
impl ser::Error for Bad {
    fn custom<M: fmt::Display>(_: M) -> Self {
        Bad
    }
}

// ------------------------------------------------------------------------------------------------
// a serializer that records what it is told

#[derive(PartialEq, Clone)]
pub struct Rec {
    buf: [u8; 700],
    n: usize,
}
impl fmt::Debug for Rec {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:?}", String::from_utf8_lossy(&self.buf[..self.n]))
    }
}
struct Ser {
    human: bool,
}
fn rec(kind: &str, b: &[u8]) -> Result<Rec, Bad> {
    let mut r = Rec { buf: [0; 700], n: 0 };
    for x in kind.bytes().chain(*b":").chain(b.iter().copied()).take(700) {
        r.buf[r.n] = x;
        r.n += 1;
    }
    Ok(r)
}
macro_rules! other {
    ($($f:ident $t:ty),*) => {$( fn $f(self, v: $t) -> Result<Rec, Bad> { let _ = v; rec(stringify!($f), b"") } )*};
}
impl Serializer for Ser {
    type Ok = Rec;
    type Error = Bad;
    type SerializeSeq = ser::Impossible<Rec, Bad>;
    type SerializeTuple = ser::Impossible<Rec, Bad>;
    type SerializeTupleStruct = ser::Impossible<Rec, Bad>;
    type SerializeTupleVariant = ser::Impossible<Rec, Bad>;
    type SerializeMap = ser::Impossible<Rec, Bad>;
    type SerializeStruct = ser::Impossible<Rec, Bad>;
    type SerializeStructVariant = ser::Impossible<Rec, Bad>;
    other!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char);
    fn serialize_str(self, v: &str) -> Result<Rec, Bad> {
        rec("str", v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Rec, Bad> {
        rec("bytes", v)
    }
    fn serialize_none(self) -> Result<Rec, Bad> {
        rec("none", b"")
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Rec, Bad> {
        rec("some", b"")
    }
    fn serialize_unit(self) -> Result<Rec, Bad> {
        rec("unit", b"")
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Rec, Bad> {
        rec("unit struct", b"")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Rec, Bad> {
        rec("unit variant", b"")
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Rec, Bad> {
        rec("newtype struct", b"")
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Rec, Bad> {
        rec("newtype variant", b"")
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Bad> {
        Err(Bad)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Bad> {
        Err(Bad)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Bad> {
        Err(Bad)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Bad> {
        Err(Bad)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Bad> {
        Err(Bad)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Bad> {
        Err(Bad)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Bad> {
        Err(Bad)
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<Rec, Bad> {
        rec("str", v.to_string().as_bytes())
    }
}

// ------------------------------------------------------------------------------------------------
// a deserializer that delivers one value of the data model

#[derive(Clone, Copy, Debug)]
pub enum What<'a> {
    Str(&'a str),
    BorrowedStr(&'a str),
    String(&'a str),
    Bytes(&'a [u8]),
    BorrowedBytes(&'a [u8]),
    ByteBuf(&'a [u8]),
    Char(char),
    Bool(bool),
    I(i64),
    U(u64),
    F(f64),
    Unit,
    None,
    Some(&'a str),
    Newtype(&'a str),
    Seq(&'a str),
    ByteSeq(&'a [u8]),
    Map(&'a str),
    Fail,
}
#[derive(Clone, Copy)]
pub struct De<'a> {
    what: What<'a>,
    human: bool,
}
struct Items<'a>(De<'a>, usize);
impl<'a> SeqAccess<'a> for Items<'a> {
    type Error = Bad;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        let h = self.0.human;
        let w = match self.0.what {
            What::Seq(s) if self.1 < 2 => What::Str(s),
            What::ByteSeq(b) if self.1 < b.len() => What::U(b[self.1] as u64),
            _ => return Ok(None),
        };
        self.1 += 1;
        seed.deserialize(De { what: w, human: h }).map(Some)
    }
}
impl<'a> MapAccess<'a> for Items<'a> {
    type Error = Bad;
    fn next_key_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> Result<Option<T::Value>, Bad> {
        let What::Map(s) = self.0.what else { return Ok(None) };
        self.1 += 1;
        if self.1 > 1 {
            return Ok(None);
        }
        seed.deserialize(De { what: What::Str(s), human: self.0.human }).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'a>>(&mut self, seed: T) -> Result<T::Value, Bad> {
        let What::Map(s) = self.0.what else { return Err(Bad) };
        seed.deserialize(De { what: What::Str(s), human: self.0.human })
    }
}
impl<'a> Deserializer<'a> for De<'a> {
    type Error = Bad;
    fn deserialize_any<V: Visitor<'a>>(self, v: V) -> Result<V::Value, Bad> {
        match self.what {
            // not borrowed from the input: a copy that is gone afterwards
            What::Str(s) => {
                let mut buf = [0u8; 700];
                buf[..s.len()].copy_from_slice(s.as_bytes());
                let r = v.visit_str(std::str::from_utf8(&buf[..s.len()]).unwrap());
                buf.fill(0xff);
                std::hint::black_box(&buf);
                r
            }
            What::BorrowedStr(s) => v.visit_borrowed_str(s),
            What::String(s) => v.visit_string(s.to_string()),
            What::Bytes(b) => {
                let mut buf = [0u8; 700];
                buf[..b.len()].copy_from_slice(b);
                let r = v.visit_bytes(&buf[..b.len()]);
                buf.fill(0xff);
                std::hint::black_box(&buf);
                r
            }
            What::BorrowedBytes(b) => v.visit_borrowed_bytes(b),
            What::ByteBuf(b) => v.visit_byte_buf(b.to_vec()),
            What::Char(c) => v.visit_char(c),
            What::Bool(b) => v.visit_bool(b),
            What::I(i) => v.visit_i64(i),
            What::U(u) => v.visit_u64(u),
            What::F(f) => v.visit_f64(f),
            What::Unit => v.visit_unit(),
            What::None => v.visit_none(),
            What::Some(s) => v.visit_some(De { what: What::Str(s), human: self.human }),
            What::Newtype(s) => v.visit_newtype_struct(De { what: What::Str(s), human: self.human }),
            What::Seq(_) | What::ByteSeq(_) => v.visit_seq(Items(self, 0)),
            What::Map(_) => v.visit_map(Items(self, 0)),
            What::Fail => Err(Bad),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
    serde::forward_to_deserialize_any! {
        <W: Visitor<'a>>
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

// ------------------------------------------------------------------------------------------------

const CAP: usize = if KEY == 256 { 63 } else { KEY };

/// Texts from nothing to well past the capacity.
fn inputs(deep: bool, mini: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    if CAP <= 5 {
        for n in 0..=CAP + if mini { 1 } else { 4 } {
            v.extend(mc_core::gen::all_strings(n, false).into_iter().filter(|s| s.len() == n));
        }
    }
    let mut lens: Vec<usize> = vec![0, 1, 2, CAP - 1, CAP, CAP + 1, CAP + 2, CAP + 3, CAP + 4, CAP + 9, 255, 256, 257, 256 + CAP, 300, 512, 600];
    if deep {
        lens.extend(0..=CAP + 8);
    }
    if mini {
        lens.truncate(6);
    }
    for n in lens {
        for p in 0..mc_core::gen::PATTERNS {
            let s = mc_core::gen::shaped(n, p, false);
            if s.len() <= 650 {
                v.push(s);
            }
        }
        // things formats escape
        if n >= 1 && !mini {
            for e in ["\"", "\\", "\n", "\u{0}", "\u{7f}", "\u{2028}", "\u{fffd}", "\u{feff}", "/", "\u{1f}"] {
                v.push(format!("{}{}", "x".repeat(n - 1), e));
                v.push(format!("{}{}", e, "\u{e9}".repeat((n - 1) / 2)));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

const PARTS: usize = 14;
const TOKENS: [&str; 12] = ["a", "\u{e9}", "\u{1f600}", "\\u0061", "\\u00e9", "\\ud83d\\ude00", "\\ud83d", "\\ude00", "\\n", "\\\"", "\\x", "\u{1}"];
const BYTES: [u8; 9] = [b'a', 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0xff];
const DOC: [u8; 16] = [b'"', b'\\', b'a', b'n', b'u', b'l', b'1', b'[', b']', b' ', b'{', b'}', b',', b':', 0xc3, 0xa9];

pub fn units(deep: bool, mini: bool) -> usize {
    let _ = deep;
    if mini {
        1
    } else {
        2 + PARTS
    }
}

fn want(s: &str) -> &str {
    floor(s, CAP)
}
/// What reading this type must give, from what reading a String gives.
fn wanted<E>(r: Result<String, E>) -> Option<String> {
    r.ok().map(|s| want(&s).to_string())
}
fn got<E>(r: Result<T, E>) -> Option<String> {
    r.ok().map(|s| content(s.as_str(), CAP).to_string())
}

pub fn run(u: usize, cx: &mut Cx) {
    cx.ctx = u as u64;
    match u {
        0 => {
            for s in inputs(cx.deep, cx.mini) {
                cx.ctx = hash_bytes(1, s.as_bytes());
                serialize(&s, cx);
                model(&s, cx);
            }
            scalars(cx);
        }
        1 => {
            for s in inputs(cx.deep, cx.mini) {
                cx.ctx = hash_bytes(2, s.as_bytes());
                formats(&s, cx);
            }
            binc(cx);
        }
        _ => {
            let part = u - 2;
            byte_values(part, cx);
            json_bodies(part, cx);
            json_docs(part, cx);
        }
    }
}

fn serialize(s: &str, cx: &mut Cx) {
    if s.len() > CAP {
        return;
    }
    for stale in 0..4 {
        let t = mc_core::build!(T, s, stale);
        for human in [true, false] {
            let code = || format!("{}// serialize with a recording serializer (human readable: {})", mc_core::judge::set_code(TY, s, stale), human);
            let exp = s.serialize(Ser { human });
            mc_core::look!(cx, SER, s.len(), &code, "serializer events", t.serialize(Ser { human }), exp);
        }
    }
}

fn deliver(w: What, size: usize, cx: &mut Cx) {
    for human in [true, false] {
        let code = || format!("let r = {}::deserialize(d) // d delivers {:?}, human readable: {}", TY, w, human);
        let exp = wanted(String::deserialize(De { what: w, human }));
        let allocates = matches!(w, What::String(_) | What::ByteBuf(_));
        let r = if allocates {
            cx.plain(MODEL, &code, || T::deserialize(De { what: w, human }))
        } else {
            cx.call(MODEL, &code, || T::deserialize(De { what: w, human }))
        };
        if let Some(r) = r {
            cx.same(MODEL, "deserialized text", size, &got(r), &exp, &code);
        }
        // into an existing value
        let mut place = mc_core::build!(T, want("zz\u{e9}zzzz"), 2);
        let was = place;
        let r = if allocates {
            cx.plain(MODEL, &code, || T::deserialize_in_place(De { what: w, human }, &mut place).is_ok())
        } else {
            cx.call(MODEL, &code, || T::deserialize_in_place(De { what: w, human }, &mut place).is_ok())
        };
        if let Some(ok) = r {
            let now = content(place.as_str(), CAP);
            cx.same(MODEL, "deserialized in place", size, &ok.then(|| now.to_string()), &exp, &code);
            let _ = was;
        }
    }
}

fn model(s: &str, cx: &mut Cx) {
    let n = s.len();
    for w in [What::Str(s), What::BorrowedStr(s), What::String(s), What::Bytes(s.as_bytes()), What::BorrowedBytes(s.as_bytes()), What::ByteBuf(s.as_bytes()), What::Some(s), What::Newtype(s), What::Seq(s), What::ByteSeq(s.as_bytes()), What::Map(s)] {
        deliver(w, n, cx);
    }
    // text that goes bad at the end, at the capacity, or past it
    for bad in [&[0xffu8][..], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0x80], &[0xf0, 0x9f, 0x98]] {
        for tail in ["", "tail"] {
            let mut b = s.as_bytes().to_vec();
            b.extend(bad);
            b.extend(tail.as_bytes());
            for w in [What::Bytes(&b), What::BorrowedBytes(&b), What::ByteBuf(&b)] {
                deliver(w, b.len(), cx);
            }
        }
    }
    cx.sample(30_011, &|| format!("{}: every kind of value made of {:?}, expected text {:?}", TY, s, want(s)));
}

fn scalars(cx: &mut Cx) {
    for c in ['a', '\0', '\u{e9}', '\u{20ac}', '\u{1f600}', '\u{10ffff}'] {
        deliver(What::Char(c), 1, cx);
    }
    for i in [i64::MIN, -1, 0, 1, i64::MAX] {
        deliver(What::I(i), 1, cx);
        deliver(What::U(i as u64), 1, cx);
        deliver(What::F(i as f64), 1, cx);
    }
    for w in [What::Bool(true), What::Bool(false), What::Unit, What::None, What::Fail, What::F(f64::NAN)] {
        deliver(w, 1, cx);
    }
}

/// Byte sequences, alone and behind text up to and past the capacity.
fn byte_values(part: usize, cx: &mut Cx) {
    let mut seqs: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < seqs.len() {
        if seqs[i].len() < 4 {
            for b in BYTES {
                let mut x = seqs[i].clone();
                x.push(b);
                seqs.push(x);
            }
        }
        i += 1;
    }
    let pads = [0, CAP.saturating_sub(3), CAP.saturating_sub(2), CAP - 1, CAP, CAP + 1, 256 - CAP.min(2)];
    for (i, q) in seqs.iter().enumerate() {
        if i % PARTS != part {
            continue;
        }
        for pad in pads {
            if q.len() == 4 && pad != 0 && pad + 2 != CAP && !cx.deep {
                continue;
            }
            let mut b = vec![b'p'; pad];
            b.extend(q);
            cx.ctx = hash_bytes(3, &b);
            deliver(What::Bytes(&b), b.len(), cx);
            deliver(What::BorrowedBytes(&b), b.len(), cx);
        }
    }
}

fn json<'a>(doc: &'a [u8], op: usize, cx: &mut Cx) {
    let code = || format!("let r = serde_json::from_slice::<{}>(b{:?});", TY, String::from_utf8_lossy(doc));
    cx.ctx = hash_bytes(4, doc);
    let exp = wanted(serde_json::from_slice::<String>(doc));
    if let Some(r) = cx.plain(op, &code, || serde_json::from_slice::<T>(doc)) {
        cx.same(op, "from_slice", doc.len(), &got(r), &exp, &code);
    }
    let exp = wanted(serde_json::from_reader::<_, String>(doc));
    if let Some(r) = cx.plain(op, &code, || serde_json::from_reader::<_, T>(doc)) {
        cx.same(op, "from_reader", doc.len(), &got(r), &exp, &code);
    }
    if let Ok(text) = std::str::from_utf8(doc) {
        let exp = wanted(serde_json::from_str::<String>(text));
        if let Some(r) = cx.plain(op, &code, || serde_json::from_str::<T>(text)) {
            cx.same(op, "from_str", doc.len(), &got(r), &exp, &code);
        }
    }
}

fn json_bodies(part: usize, cx: &mut Cx) {
    let depth = if cx.deep { 6 } else if matches!(KEY, 2 | 5 | 8 | 63 | 256) { 5 } else { 3 };
    let mut doc: Vec<u8> = vec![];
    for n in 0..=depth {
        let count = TOKENS.len().pow(n as u32);
        for i in 0..count {
            if i % PARTS != part {
                continue;
            }
            doc.clear();
            doc.push(b'"');
            let mut x = i;
            for _ in 0..n {
                doc.extend(TOKENS[x % TOKENS.len()].as_bytes());
                x /= TOKENS.len();
            }
            doc.push(b'"');
            json(&doc, JTEXT, cx);
        }
    }
    cx.sample(200_003, &|| format!("{}: serde_json on {:?}", TY, String::from_utf8_lossy(&doc)));
}

fn json_docs(part: usize, cx: &mut Cx) {
    let depth = if cx.deep { 5 } else if matches!(KEY, 1 | 5 | 63 | 256) { 4 } else { 2 };
    let mut doc: Vec<u8> = vec![];
    for n in 0..=depth {
        let count = DOC.len().pow(n as u32);
        for i in 0..count {
            if i % PARTS != part {
                continue;
            }
            doc.clear();
            let mut x = i;
            for _ in 0..n {
                doc.push(DOC[x % DOC.len()]);
                x /= DOC.len();
            }
            json(&doc, JBYTES, cx);
        }
    }
}

#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
struct Deep<S> {
    first: S,
    more: Vec<S>,
    maybe: Option<S>,
    pair: (S, u8, S),
    one: Wrap<S>,
    choice: Choice<S>,
}
#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
struct Wrap<S>(S);
#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
enum Choice<S> {
    A(S),
    B { s: S },
}
#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
#[serde(untagged)]
enum Loose<S> {
    Text(S),
    Number(i64),
}
#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
#[serde(tag = "kind")]
enum Tagged<S> {
    A { s: S },
    B { s: S, n: u8 },
}
#[derive(serde::Serialize, serde::Deserialize, Debug, PartialEq, Clone)]
struct Flat<S> {
    #[serde(flatten)]
    rest: BTreeMap<String, S>,
}
fn deep<S: Clone>(s: S, alt: bool) -> Deep<S> {
    Deep { first: s.clone(), more: vec![s.clone(); 2], maybe: if alt { None } else { Some(s.clone()) }, pair: (s.clone(), 7, s.clone()), one: Wrap(s.clone()), choice: if alt { Choice::A(s) } else { Choice::B { s } } }
}

/// Through real formats, plain and nested, text that fits and text that does not.
fn formats(s: &str, cx: &mut Cx) {
    let n = s.len();
    let w = want(s).to_string();
    let text = s.to_string();
    let code = || format!("// {} and a text of {} bytes: {:?}", TY, n, s);
    macro_rules! same {
        ($op:expr, $class:literal, $got:expr, $exp:expr) => {
            if let Some(g) = cx.plain($op, &code, || $got) {
                let e = $exp;
                cx.same($op, $class, n, &g, &e, &code);
            }
        };
    }
    // reading text of any length
    let j = serde_json::to_string(&text).unwrap();
    let b = bincode::serialize(&text).unwrap();
    json(j.as_bytes(), JTEXT, cx);
    same!(TRIP, "serde_json::from_value", got(serde_json::from_value::<T>(serde_json::Value::String(text.clone()))), Some(w.clone()));
    same!(TRIP, "bincode of a String", got(bincode::deserialize::<T>(&b)), Some(w.clone()));
    same!(TRIP, "bincode of a String, from a reader", got(bincode::deserialize_from::<_, T>(&b[..])), Some(w.clone()));
    let lines = |d: &Deep<T>| format!("{:?}", Deep { first: content(d.first.as_str(), CAP), more: d.more.iter().map(|x| content(x.as_str(), CAP)).collect(), maybe: d.maybe.as_ref().map(|x| content(x.as_str(), CAP)), pair: (content(d.pair.0.as_str(), CAP), d.pair.1, content(d.pair.2.as_str(), CAP)), one: Wrap(content(d.one.0.as_str(), CAP)), choice: match &d.choice { Choice::A(s) => Choice::A(content(s.as_str(), CAP)), Choice::B { s } => Choice::B { s: content(s.as_str(), CAP) } } });
    for alt in [false, true] {
        let src = deep(text.clone(), alt);
        let jd = serde_json::to_string(&src).unwrap();
        let bd = bincode::serialize(&src).unwrap();
        let exp = format!("{:?}", deep(&w[..], alt));
        same!(NEST, "struct from JSON", serde_json::from_str::<Deep<T>>(&jd).map(|d| lines(&d)).map_err(|e| e.to_string()), Ok::<_, String>(exp.clone()));
        same!(NEST, "struct from a JSON reader", serde_json::from_reader::<_, Deep<T>>(jd.as_bytes()).map(|d| lines(&d)).map_err(|e| e.to_string()), Ok::<_, String>(exp.clone()));
        same!(NEST, "struct from a JSON value", serde_json::from_value::<Deep<T>>(serde_json::to_value(&src).unwrap()).map(|d| lines(&d)).map_err(|e| e.to_string()), Ok::<_, String>(exp.clone()));
        same!(NEST, "struct from bincode", bincode::deserialize::<Deep<T>>(&bd).map(|d| lines(&d)).map_err(|e| e.to_string()), Ok::<_, String>(exp.clone()));
    }
    same!(NEST, "untagged enum", serde_json::from_str::<Loose<T>>(&j).ok().map(|l| if let Loose::Text(t) = l { Some(content(t.as_str(), CAP).to_string()) } else { None }), Some(Some(w.clone())));
    let tagged = serde_json::to_string(&Tagged::B { s: text.clone(), n: 3 }).unwrap();
    same!(NEST, "internally tagged enum", serde_json::from_str::<Tagged<T>>(&tagged).ok().map(|l| if let Tagged::B { s, n: 3 } = l { Some(content(s.as_str(), CAP).to_string()) } else { None }), Some(Some(w.clone())));
    let flat = format!("{{\"k\":{}}}", j);
    same!(NEST, "flattened", serde_json::from_str::<Flat<T>>(&flat).ok().and_then(|f| f.rest.get("k").map(|t| content(t.as_str(), CAP).to_string())), Some(w.clone()));
    let map = format!("{{{}:1}}", j);
    same!(NEST, "map key", serde_json::from_str::<BTreeMap<T, u8>>(&map).ok().map(|m| m.keys().map(|k| content(k.as_str(), CAP).to_string()).collect::<Vec<_>>()), Some(vec![w.clone()]));
    same!(NEST, "map key of a value", serde_json::from_str::<serde_json::Value>(&map).ok().and_then(|v| serde_json::from_value::<HashMap<T, u8>>(v).ok()).map(|m| m.keys().map(|k| content(k.as_str(), CAP).to_string()).collect::<Vec<_>>()), Some(vec![w.clone()]));
    same!(NEST, "option", serde_json::from_str::<Option<T>>(&j).ok().map(|o| o.map(|t| content(t.as_str(), CAP).to_string())), Some(Some(w.clone())));
    same!(NEST, "null option", serde_json::from_str::<Option<T>>("null").ok().map(|o| o.is_none()), Some(true));
    same!(NEST, "null", serde_json::from_str::<T>("null").is_err(), true);
    // writing and reading back
    if n > CAP {
        return;
    }
    for stale in 0..4 {
        let t = mc_core::build!(T, s, stale);
        same!(TRIP, "to JSON", serde_json::to_string(&t).unwrap(), j.clone());
        same!(TRIP, "to JSON value", serde_json::to_value(&t).unwrap(), serde_json::Value::String(text.clone()));
        same!(TRIP, "to pretty JSON", serde_json::to_string_pretty(&(t, [t])).unwrap(), serde_json::to_string_pretty(&(&text, [&text])).unwrap());
        same!(TRIP, "to bincode", bincode::serialize(&t).unwrap(), b.clone());
        same!(TRIP, "bincode size", bincode::serialized_size(&t).unwrap(), b.len() as u64);
        same!(TRIP, "JSON round trip", got(serde_json::from_str::<T>(&serde_json::to_string(&t).unwrap())), Some(text.clone()));
        same!(TRIP, "bincode round trip", got(bincode::deserialize::<T>(&bincode::serialize(&t).unwrap())), Some(text.clone()));
        same!(TRIP, "value round trip", got(serde_json::from_value::<T>(serde_json::to_value(&t).unwrap())), Some(text.clone()));
        for alt in [false, true] {
            same!(NEST, "struct to JSON", serde_json::to_string(&deep(t, alt)).unwrap(), serde_json::to_string(&deep(&text, alt)).unwrap());
            same!(NEST, "struct to bincode", bincode::serialize(&deep(t, alt)).unwrap(), bincode::serialize(&deep(&text, alt)).unwrap());
        }
        same!(NEST, "map key to JSON", serde_json::to_string(&BTreeMap::from([(t, t)])).unwrap(), serde_json::to_string(&BTreeMap::from([(&text, &text)])).unwrap());
    }
}

/// bincode: an 8-byte length, then the text.
fn binc(cx: &mut Cx) {
    let mut one = |b: &[u8], cx: &mut Cx| {
        cx.ctx = hash_bytes(5, b);
        let code = || format!("let r = bincode::deserialize::<{}>(&{:?});", TY, b);
        let exp = wanted(bincode::deserialize::<String>(b));
        if let Some(r) = cx.plain(BINC, &code, || bincode::deserialize::<T>(b)) {
            cx.same(BINC, "from bytes", b.len(), &got(r), &exp, &code);
        }
        let exp = wanted(bincode::deserialize_from::<_, String>(b));
        if let Some(r) = cx.plain(BINC, &code, || bincode::deserialize_from::<_, T>(b)) {
            cx.same(BINC, "from a reader", b.len(), &got(r), &exp, &code);
        }
    };
    let payloads: Vec<Vec<u8>> = {
        let mut p = vec![];
        for n in [0, 1, 2, 3, CAP - 1, CAP, CAP + 1, CAP + 2, 256, 300] {
            p.push(vec![b'x'; n]);
            for bad in [&[0xffu8][..], &[0xc3], &[0xc3, 0xa9], &[0xe2, 0x82, 0xac], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98, 0x80]] {
                let mut v = vec![b'x'; n];
                v.extend(bad);
                p.push(v.clone());
                v.extend(b"yz");
                p.push(v);
            }
        }
        p
    };
    for p in &payloads {
        for claim in [p.len() as u64, p.len() as u64 + 1, (p.len() as u64).wrapping_sub(1), 0] {
            if claim > 100_000 {
                continue;
            }
            let mut b = claim.to_le_bytes().to_vec();
            b.extend(p);
            one(&b, cx);
        }
    }
    for cut in 0..9 {
        one(&[3, 0, 0, 0, 0, 0, 0, 0, b'a'][..cut], cx);
    }
}
