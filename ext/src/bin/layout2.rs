//! Reported capacity and bytes really held, by every operation that adds text, for every capacity.
use arraystring::prelude::*;
use mc_core::engine::*;

#[global_allocator]
static ALLOC: Counting = Counting;

struct Row {
    name: &'static str,
    cap: usize,
    reported: fn() -> usize,
    /// fill up by way `w` with a text of `unit`s: number of bytes taken before the first refusal
    fill: fn(usize, &str) -> (usize, String),
    accepts: fn(usize, &str) -> Option<String>,
}
const WAYS: [&str; 7] = ["try_push", "try_push_str", "try_insert at the front", "try_insert_str at the front", "push_str_truncate", "extend(chars)", "replace_range(len..)"];
const ALL: [&str; 10] = ["try_from_str", "try_from_chars", "try_from_iterator", "try_from_utf16", "from_str_truncate", "from_chars_truncate", "from_iterator_truncate", "from_utf16_truncate", "from_utf16_lossy_truncate", "+"];
macro_rules! row {
    ($t:ty, $cap:expr) => {{
        type T = $t;
        fn reported() -> usize {
            T::capacity()
        }
        fn fill(way: usize, unit: &str) -> (usize, String) {
            let mut s = T::new();
            let c = unit.chars().next().unwrap();
            let mut n = 0;
            while n < 600 {
                let before = s.len() as usize;
                let ok = match way {
                    0 => s.try_push(c).is_ok(),
                    1 => s.try_push_str(unit).is_ok(),
                    2 => s.try_insert(0, c).is_ok(),
                    3 => s.try_insert_str(0, unit).is_ok(),
                    4 => {
                        s.push_str_truncate(unit);
                        s.len() as usize == before + unit.len()
                    }
                    5 => {
                        s.extend(unit.chars());
                        s.len() as usize == before + unit.len()
                    }
                    _ => s.replace_range(before.., unit).is_ok(),
                };
                if !ok {
                    break;
                }
                n += unit.len();
            }
            (n, s.as_str().to_string())
        }
        fn accepts(way: usize, text: &str) -> Option<String> {
            let u: Vec<u16> = text.encode_utf16().collect();
            let s: T = match way {
                0 => T::try_from_str(text).ok()?,
                1 => T::try_from_chars(text.chars()).ok()?,
                2 => T::try_from_iterator([text]).ok()?,
                3 => T::try_from_utf16(&u).ok()?,
                4 => T::from_str_truncate(text),
                5 => T::from_chars_truncate(text.chars()),
                6 => T::from_iterator_truncate([text]),
                7 => T::from_utf16_truncate(&u).ok()?,
                8 => T::from_utf16_lossy_truncate(&u),
                _ => T::new() + text,
            };
            Some(s.as_str().to_string())
        }
        Row { name: stringify!($t), cap: $cap, reported, fill, accepts }
    }};
}
macro_rules! rows {
    ($v:ident; $($n:literal)*) => {$( $v.push(row!(ArrayString<$n>, $n)); )*};
}
const NAMES: [&str; 3] = ["reported capacity", "bytes held (filled)", "bytes held (at once)"];

fn main() {
    let prop = std::env::args().nth(1).unwrap();
    init(&prop);
    let mut rows: Vec<Row> = vec![];
    rows!(rows;
        1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24
        25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48
        49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72
        73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96
        97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120
        121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144
        145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168
        169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192
        193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216
        217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240
        241 242 243 244 245 246 247 248 249 250 251 252 253 254 255);
    rows.push(row!(CacheString, 63));
    rows.push(row!(MaxString, 255));
    rows.push(row!(SmallString, std::mem::size_of::<String>() - 1));
    let idx: Vec<usize> = (0..rows.len()).collect();
    let st = explore(&idx, || (), |i, _, st| {
        let r = &rows[*i];
        st.states += 1;
        let bad = |st: &mut Stats, op: usize, class: &str, what: String| {
            st.violation(format!("{} of {}: {}", NAMES[op], r.name, class), r.cap, &|| (what.clone(), format!("// {}: {}", r.name, class)));
        };
        st.count(0, 0);
        let n = (r.reported)();
        if n != r.cap {
            bad(st, 0, "capacity()", format!("{}::capacity() is {}", r.name, n));
        }
        for u in ["a", "\u{e9}", "\u{20ac}", "\u{1f600}"] {
            let room = r.cap / u.len() * u.len();
            for w in 0..WAYS.len() {
                st.count(1, 0);
                let code = || format!("// filling {} with {:?} by {}", r.name, u, WAYS[w]);
                match sut(&code, || (r.fill)(w, u)) {
                    Ok((n, t)) if n == room && t == u.repeat(room / u.len()) => {}
                    Ok((n, t)) => bad(st, 1, WAYS[w], format!("filled with {:?} takes {} bytes (content {} bytes), expected {}", u, n, t.len(), room)),
                    Err(m) => bad(st, 1, WAYS[w], format!("panics: {}", m)),
                }
            }
            for extra in 0..3 {
                let text = format!("{}{}", "-".repeat(r.cap - room), u.repeat(room / u.len() + extra));
                let full = &text[..r.cap];
                for w in 0..ALL.len() {
                    st.count(2, if extra == 0 { 0 } else { 1 });
                    let code = || format!("// {} of {:?} into {}", ALL[w], text, r.name);
                    let want = if extra == 0 || w >= 4 { Some(full.to_string()) } else { None };
                    match sut(&code, || (r.accepts)(w, &text)) {
                        Ok(t) if t == want => {}
                        Ok(t) => bad(st, 2, ALL[w], format!("a text of {} bytes: {:?} bytes held, expected {:?}", text.len(), t.map(|t| t.len()), want.map(|t| t.len()))),
                        Err(m) => bad(st, 2, ALL[w], format!("panics: {}", m)),
                    }
                }
            }
        }
        if st.samples.len() < 4 {
            st.sample(&|| format!("{}: capacity() {}, filled by {:?} with characters of 1..4 bytes", r.name, n, WAYS));
        }
    });
    eprintln!("{} layout2: states {} transitions {} violations {}", prop, st.states, st.transitions, st.nviols);
    finish(&prop, &st, &NAMES, "every capacity 1..=255, CacheString, MaxString, SmallString: reported capacity; filled one character at a time by 7 operations and at once by 10 constructors, with characters of every width, up to two characters beyond the capacity")
}
