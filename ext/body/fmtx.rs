// Display under every width, fill, alignment, precision and flag; Debug; failing sinks.
use std::fmt::{self, Write};

const DISPLAY: usize = 0;
const DEBUG: usize = 1;
const FAILING: usize = 2;
const OTHER: usize = 3;

/// Takes `limit` bytes and fails beyond.
pub struct Sink {
    buf: [u8; 3000],
    n: usize,
    limit: usize,
}
impl Sink {
    fn new(limit: usize) -> Sink {
        Sink { buf: [0; 3000], n: 0, limit }
    }
    fn text(&self) -> &str {
        std::str::from_utf8(&self.buf[..self.n]).unwrap_or("(not UTF-8)")
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.n + s.len() > self.limit.min(3000) {
            return Err(fmt::Error);
        }
        self.buf[self.n..self.n + s.len()].copy_from_slice(s.as_bytes());
        self.n += s.len();
        Ok(())
    }
}

pub fn units(deep: bool, mini: bool) -> usize {
    texts(T::capacity(), 5, deep, mini).len()
}

pub fn run(u: usize, cx: &mut Cx) {
    let all = texts(T::capacity(), 5, cx.deep, cx.mini);
    let text = &all[u][..];
    let len = text.len();
    let chars = text.chars().count();
    let cap = T::capacity();
    cx.ctx = hash_bytes(7, text.as_bytes());
    let kinds: &[u8] = if cx.mini { &[0, 2] } else { &[0, 1, 2, 3] };
    let ss: Vec<T> = kinds.iter().map(|k| mc_core::build!(T, text, *k)).collect();
    let s = &ss[u % ss.len()];
    let head = || mc_core::judge::set_code(TY, text, kinds[u % kinds.len()]);
    // Display
    let mut widths: Vec<usize> = if chars <= 8 { (0..=chars + 3).collect() } else { vec![0, 1, 2, chars / 2, chars - 1, chars, chars + 1, chars + 2, len, len + 1, cap, cap + 1, 255, 256, 260] };
    widths.extend([cap + 2, 300]);
    widths.sort();
    widths.dedup();
    let mut precs: Vec<usize> = if chars <= 8 { (0..=chars + 1).collect() } else { vec![0, 1, 2, chars / 2, chars - 1, chars, chars + 1, len, 255, 256] };
    precs.sort();
    precs.dedup();
    if cx.mini {
        widths = vec![0, chars, chars + 2];
        precs = vec![0, 1, chars];
    }
    macro_rules! show {
        ($f:literal, $($arg:tt)*) => {{
            let code = || format!("{}let r = format!({:?}, s{});", head(), $f, stringify!($($arg)*));
            let mut out = Sink::new(3000);
            let got = cx.call(DISPLAY, &code, || write!(out, $f, s, $($arg)*));
            let mut want = Sink::new(3000);
            let exp = write!(want, $f, text, $($arg)*);
            if let Some(got) = got {
                cx.same(DISPLAY, "result", len, &got, &exp, &code);
                cx.same(DISPLAY, $f, len, &out.text(), &want.text(), &code);
            }
        }};
    }
    show!("{}",);
    show!("{:#}",);
    show!("{:+}",);
    for w in &widths {
        let w = *w;
        show!("{:w$}", w = w);
        show!("{:<w$}", w = w);
        show!("{:^w$}", w = w);
        show!("{:>w$}", w = w);
        show!("{:*<w$}", w = w);
        show!("{:*^w$}", w = w);
        show!("{:*>w$}", w = w);
        show!("{:é<w$}", w = w);
        show!("{:é^w$}", w = w);
        show!("{:é>w$}", w = w);
        show!("{:😀<w$}", w = w);
        show!("{:😀^w$}", w = w);
        show!("{:😀>w$}", w = w);
        show!("{:0w$}", w = w);
        show!("{:#w$}", w = w);
        show!("{:+w$}", w = w);
        for p in &precs {
            let p = *p;
            if w > 300 && p > 8 {
                continue;
            }
            show!("{:w$.p$}", w = w, p = p);
            show!("{:<w$.p$}", w = w, p = p);
            show!("{:-^w$.p$}", w = w, p = p);
            show!("{:€>w$.p$}", w = w, p = p);
            show!("{:0w$.p$}", w = w, p = p);
        }
    }
    for p in &precs {
        let p = *p;
        show!("{:.p$}", p = p);
    }
    // sinks that fail
    macro_rules! fail {
        ($f:literal, $s:expr, $($arg:tt)*) => {{
            let mut full = Sink::new(3000);
            let _ = write!(full, $f, $s, $($arg)*);
            let n = full.n;
            let limits: Vec<usize> = if n <= 12 { (0..=n + 1).collect() } else { vec![0, 1, 2, n / 2, n - 2, n - 1, n, n + 1] };
            for k in limits {
                let code = || format!("{}// write!(sink, {:?}, s) into a sink that takes {} bytes and fails beyond\n", head(), $f, k);
                let mut out = Sink::new(k);
                let got = cx.call(FAILING, &code, || write!(out, $f, $s, $($arg)*));
                if let Some(got) = got {
                    cx.same(FAILING, "result", len, &got.is_err(), &(n > k), &code);
                }
            }
        }};
    }
    fail!("{}", s,);
    for w in [0, chars, chars + 3] {
        for p in [0, 1, chars, chars + 1] {
            fail!("{:~^w$.p$}", s, w = w, p = p);
            fail!("{:>w$.p$}", s, w = w, p = p);
        }
        fail!("{:w$}", s, w = w);
    }
    fail!("{:?}", s,);
    fail!("{:#?}", s,);
    // Debug
    let mut dbg = Sink::new(3000);
    let _ = write!(dbg, "{:?}", text);
    let inner = dbg.text();
    let mut outs: Vec<(String, String)> = vec![];
    for (i, s) in ss.iter().enumerate() {
        let code = || format!("{}let r = format!(\"{{:?}}\", s);", mc_core::judge::set_code(TY, text, kinds[i]));
        let mut a = Sink::new(3000);
        let mut b = Sink::new(3000);
        let got = cx.call(DEBUG, &code, || (write!(a, "{:?}", s), write!(b, "{:#?}", s)));
        if let Some(got) = got {
            cx.same(DEBUG, "result", len, &got, &(Ok(()), Ok(())), &code);
            cx.same(DEBUG, "contains the debug form of the text", len, &(a.text().contains(inner), b.text().contains(inner)), &(true, true), &code);
            let o = (a.text().to_string(), b.text().to_string());
            if let Some(first) = outs.first() {
                cx.check(*first == o, DEBUG, "depends on earlier contents", len, &|| format!("{:?} here, {:?} without leftovers", o, first), &code);
            }
            // the type's own name is all that may differ between the two string types
            if cx.prop != "C17" {
                cx.seen_str(DEBUG, 3, &o.0);
                cx.seen_str(DEBUG, 4, &o.1);
            }
            outs.push(o);
        }
    }
    // the iterator over a drained piece
    for i in spread(&boundaries(text), 4) {
        let mut outs: Vec<String> = vec![];
        for (k, s) in ss.iter().enumerate() {
            let mut s = *s;
            let code = || format!("{}let r = format!(\"{{:?}}\", s.drain({}..));", mc_core::judge::set_code(TY, text, kinds[k]), i);
            let mut a = Sink::new(3000);
            let got = cx.call(DEBUG, &code, || s.drain(i..).map(|d| write!(a, "{:?}", d)).is_ok());
            let mut want = Sink::new(3000);
            let _ = write!(want, "{:?}", &text[i..]);
            if got == Some(true) {
                cx.same(DEBUG, "iterator: contains the debug form of the rest", len, &a.text().contains(want.text()), &true, &code);
                let o = a.text().to_string();
                if let Some(f) = outs.first() {
                    cx.check(*f == o, DEBUG, "iterator: depends on earlier contents", len, &|| format!("{:?} here, {:?} without leftovers", o, f), &code);
                }
                outs.push(o);
            }
        }
    }
    // the other ways std goes through Display
    let code = || format!("{}let r = s.to_string();", head());
    if let Some(g) = cx.plain(OTHER, &code, || (ToString::to_string(s), format!("<{}>", s), format_args!("{s:>4}{s}").to_string())) {
        cx.same(OTHER, "to_string and format!", len, &g, &(text.to_string(), format!("<{}>", text), format!("{0:>4}{0}", text)), &code);
    }
    // into another string of the same type
    for k in [0, 1, cap / 2] {
        let mut t = mc_core::build!(T, &"x".repeat(k.min(cap)), 0);
        let code = || format!("{}let mut t = {}::from_str_truncate({:?}); let r = write!(t, \"{{}}\", s);", head(), TY, t.as_str());
        let mut t2 = t;
        if let Some(g) = cx.call(OTHER, &code, || write!(t2, "{}", s)) {
            let fits = k.min(cap) + len <= cap;
            cx.same(OTHER, "written into another string", len, &(g.is_ok(), t2.as_str() == format!("{}{}", t.as_str(), text)), &(fits, fits || len == 0), &code);
        }
        t.clear();
    }
    cx.sample(100_003, &|| format!("{} widths {:?} precisions {:?}", head().replace('\n', " "), widths, precs));
}
