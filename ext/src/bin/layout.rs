//! Which capacities are usable, how many bytes each type occupies, and how many bytes it really
//! holds. Everything goes through std traits here, so that this compiles whatever the set of
//! usable capacities.
use arraystring::prelude::*;
use mc_core::engine::*;
use std::fmt::Write;
use std::mem::{align_of, size_of};
use std::str::FromStr;

#[global_allocator]
static ALLOC: Counting = Counting;

const VALID: usize = 0;
const SIZE: usize = 1;
const HOLDS: usize = 2;
const ALIAS: usize = 3;
const PLACED: usize = 4;

struct Probe<T>(std::marker::PhantomData<T>);
/// What a usable type can do: made from nothing and from text, written to, looked at.
trait Full {
    fn make(&self) -> bool;
    /// bytes held when written to one `unit` at a time, and the content then
    fn fill(&self, unit: &str) -> (usize, String);
    /// is a text of this many bytes accepted at once?
    fn parse(&self, text: &str) -> Option<String>;
    fn cut(&self, text: &str) -> String;
}
trait Lacking {
    fn make(&self) -> bool {
        false
    }
    fn fill(&self, _: &str) -> (usize, String) {
        (usize::MAX, String::new())
    }
    fn parse(&self, _: &str) -> Option<String> {
        None
    }
    fn cut(&self, _: &str) -> String {
        String::new()
    }
}
impl<T> Full for Probe<T>
where
    T: Default + Write + AsRef<str> + FromStr + for<'a> From<&'a str>,
{
    fn make(&self) -> bool {
        T::default().as_ref().is_empty()
    }
    fn fill(&self, unit: &str) -> (usize, String) {
        let mut t = T::default();
        let mut n = 0;
        while n < 2000 && t.write_str(unit).is_ok() {
            n += unit.len();
        }
        // the rest of the space, byte by byte
        while n < 2000 && t.write_str("-").is_ok() {
            n += 1;
        }
        (n, t.as_ref().to_string())
    }
    fn parse(&self, text: &str) -> Option<String> {
        T::from_str(text).ok().map(|t| t.as_ref().to_string())
    }
    fn cut(&self, text: &str) -> String {
        T::from(text).as_ref().to_string()
    }
}
impl<T> Lacking for &Probe<T> {}
/// Made at all, in any of the ways a type could be made through std traits?
trait Made {
    fn made(&self) -> bool;
}
macro_rules! makes {
    ($($m:ident $n:ident $no:ident [$($b:tt)*]),*) => {$(
        trait $n { fn $m(&self) -> bool { true } }
        trait $no { fn $m(&self) -> bool { false } }
        impl<T: $($b)*> $n for Probe<T> {}
        impl<T> $no for &Probe<T> {}
    )*};
}
makes! {
    default HasDefault NoDefault [Default],
    parse_ HasParse NoParse [FromStr],
    from HasFrom NoFrom [From<&'static str>],
    chars HasChars NoChars [FromIterator<char>],
    strs HasStrs NoStrs [FromIterator<&'static str>],
    writes HasWrite NoWrite [Write],
    derefs HasDeref NoDeref [std::ops::Deref]
}
impl Made for () {
    fn made(&self) -> bool {
        false
    }
}

struct Row {
    name: String,
    cap: usize,
    size: usize,
    align: usize,
    ways: [bool; 7],
    make: fn() -> bool,
    fill: fn(&str) -> (usize, String),
    parse: fn(&str) -> Option<String>,
    cut: fn(&str) -> String,
}
macro_rules! row {
    ($t:ty, $cap:expr) => {{
        type T = $t;
        fn p() -> Probe<T> {
            Probe(std::marker::PhantomData)
        }
        fn make() -> bool {
            (&p()).make()
        }
        fn fill(u: &str) -> (usize, String) {
            (&p()).fill(u)
        }
        fn parse(t: &str) -> Option<String> {
            (&p()).parse(t)
        }
        fn cut(t: &str) -> String {
            (&p()).cut(t)
        }
        let q = p();
        let _ = (&q, ().made());
        Row {
            name: stringify!($t).to_string(),
            cap: $cap,
            size: size_of::<T>(),
            align: align_of::<T>(),
            ways: [(&q).default(), (&q).parse_(), (&q).from(), (&q).chars(), (&q).strs(), (&q).writes(), (&q).derefs()],
            make,
            fill,
            parse,
            cut,
        }
    }};
}
macro_rules! rows {
    ($v:ident; $($n:literal)*) => {$( $v.push(row!(ArrayString<$n>, $n)); )*};
}

fn unit_text(w: usize) -> &'static str {
    ["", "a", "\u{e9}", "\u{20ac}", "\u{1f600}"][w]
}

fn main() {
    let prop = std::env::args().nth(1).unwrap();
    init(&prop);
    let mut rows: Vec<Row> = vec![];
    rows!(rows;
        0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
        40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76
        77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110
        111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138
        139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166
        167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194
        195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222
        223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250
        251 252 253 254 255 256 257 258 259 260 261 262 263 264 265 266 267 268 269 270 271 272 273 274 275 276 277 278
        279 280 281 282 283 284 285 286 287 288 289 290 291 292 293 294 295 296 297 298 299 300 301 302 303 304 305 306
        307 308 309 310 311 312 319 320 383 384 400 511 512 513 767 768 1000 1023 1024 1025 2047 2048 4095 4096 65535 65536);
    let nrows = rows.len();
    rows.push(row!(CacheString, 63));
    rows.push(row!(MaxString, 255));
    rows.push(row!(SmallString, size_of::<String>() - 1));
    let idx: Vec<usize> = (0..rows.len()).collect();
    let mut st = explore(&idx, || (), |i, _, st| {
        let r = &rows[*i];
        st.states += 1;
        let mut bad = |st: &mut Stats, op: usize, class: &str, what: String| {
            st.violation(format!("{} of {}: {}", NAMES[op], r.name, class), r.cap, &|| (what.clone(), format!("// {} ", r.name)));
        };
        let usable = r.cap >= 1 && r.cap <= 255;
        if !usable {
            st.count(VALID, 1);
            if r.ways[..5].iter().any(|w| *w) || r.ways[5] || r.ways[6] {
                bad(st, VALID, "usable", format!("{} implements the traits of a usable string ({:?}: Default, FromStr, From<&str>, FromIterator<char>, FromIterator<&str>, Write, Deref), which capacities outside 1..=255 must not", r.name, r.ways));
            }
            return;
        }
        st.count(VALID, 0);
        if r.ways.iter().any(|w| !*w) || !(r.make)() {
            bad(st, VALID, "not usable", format!("{} lacks the traits of a usable string ({:?}: Default, FromStr, From<&str>, FromIterator<char>, FromIterator<&str>, Write, Deref), or is not empty at first", r.name, r.ways));
            return;
        }
        st.count(SIZE, 0);
        let cache = r.name == "CacheString";
        let want = if cache { (64, 64) } else { (r.cap + 1, 1) };
        if (r.size, if cache { r.align } else { 1 }) != want {
            bad(st, SIZE, "size", format!("{} occupies {} bytes (alignment {}), documented {} for a capacity of {}", r.name, r.size, r.align, want.0, r.cap));
        }
        for w in 1..5 {
            let u = unit_text(w);
            let mut text = u.repeat(r.cap / w);
            while text.len() < r.cap {
                text.push('-');
            }
            st.count(HOLDS, 0);
            let code = || format!("writing {:?} piecewise into {}, then \"-\"", u, r.name);
            match sut(&code, || (r.fill)(u)) {
                Ok((n, t)) if n == r.cap && t == text => {}
                Ok((n, t)) => bad(st, HOLDS, "really held", format!("filling {} with {:?} and then \"-\" holds {} bytes ({} of content), expected {}", r.name, u, n, t.len(), r.cap)),
                Err(m) => bad(st, HOLDS, "panics", format!("filling {}: {}", r.name, m)),
            }
            for d in 0..4 {
                let exact = &text[..];
                let mut more = text.clone();
                more.push_str(&unit_text(1 + (w + d) % 4).repeat(d));
                st.count(HOLDS, if d == 0 { 0 } else { 1 });
                let code = || format!("{:?}.parse::<{}>()", more, r.name);
                match sut(&code, || ((r.parse)(&more), (r.cut)(&more))) {
                    Ok((p, c)) => {
                        let wantp = (d == 0).then(|| more.clone());
                        if p != wantp {
                            bad(st, HOLDS, "parse", format!("{} bytes parsed into {}: {:?}", more.len(), r.name, p.map(|p| p.len())));
                        }
                        if c != exact {
                            bad(st, HOLDS, "truncating conversion", format!("{} bytes cut into {}: {} bytes, expected {}", more.len(), r.name, c.len(), exact.len()));
                        }
                    }
                    Err(m) => bad(st, HOLDS, "panics", format!("{}: {}", code(), m)),
                }
            }
        }
        if st.samples.len() < 4 {
            st.sample(&|| format!("{}: size {} align {}, filled to {} bytes by units of 1, 2, 3 and 4 bytes", r.name, r.size, r.align, r.cap));
        }
    });
    // aliases and placement
    let mut same = |st: &mut Stats, op: usize, what: &str, got: usize, exp: usize| {
        st.count(op, 0);
        if got != exp {
            st.violation(format!("{}: {}", NAMES[op], what), 0, &|| (format!("{} is {}, documented {}", what, got, exp), format!("// {}", what)));
        }
    };
    same(&mut st, ALIAS, "size_of::<SmallString>()", size_of::<SmallString>(), size_of::<String>());
    same(&mut st, ALIAS, "size_of::<MaxString>()", size_of::<MaxString>(), 256);
    same(&mut st, ALIAS, "size_of::<CacheString>()", size_of::<CacheString>(), 64);
    same(&mut st, ALIAS, "align_of::<CacheString>()", align_of::<CacheString>(), 64);
    // wherever it is put
    struct After<T>(u8, T, u8);
    fn at<T>(t: &T) -> usize {
        t as *const T as usize
    }
    let local = [CacheString::default(); 5];
    let heap = vec![CacheString::default(); 9];
    let boxed: Vec<Box<After<CacheString>>> = (0..9).map(|i| Box::new(After(i, CacheString::default(), i))).collect();
    let opt = [Some(CacheString::default()); 3];
    let mut addrs: Vec<(usize, &str)> = vec![];
    addrs.extend(local.iter().map(|x| (at(x), "an array on the stack")));
    addrs.extend(heap.iter().map(|x| (at(x), "a Vec")));
    addrs.extend(boxed.iter().map(|x| (at(&x.1), "a struct in a Box")));
    addrs.extend(opt.iter().flatten().map(|x| (at(x), "an Option")));
    let _ = boxed.iter().map(|b| b.0 as u32 + b.2 as u32).sum::<u32>();
    for (a, w) in addrs {
        same(&mut st, PLACED, &format!("address modulo 64 of a CacheString in {}", w), a % 64, 0);
    }
    same(&mut st, PLACED, "distance of CacheStrings in an array", at(&local[1]) - at(&local[0]), 64);
    st.note("capacities probed", nrows as u64);
    eprintln!("{} layout: states {} transitions {} violations {}", prop, st.states, st.transitions, st.nviols);
    finish(&prop, &st, &NAMES, "every capacity 0..=312 and 22 larger ones up to 65536, CacheString, MaxString, SmallString: which traits exist, size, alignment, bytes really held when filled with characters of every width, parse and truncation of capacity + 0..3 characters")
}
const NAMES: [&str; 5] = ["usable capacities", "size", "bytes held", "aliases", "placement"];
