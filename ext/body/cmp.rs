// Equality, order, hash and lookup against str, for every pair.
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};

const EQ: usize = 0;
const ORD: usize = 1;
const STR: usize = 2;
const HASH: usize = 3;
const MAP: usize = 4;
const SORT: usize = 5;
const DRAIN: usize = 6;
const COPY: usize = 7;

/// Sees how the bytes arrive, not only which.
pub struct Rec([u64; 2]);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0[0] = hash_bytes(self.0[0], b);
        self.0[1] += 1;
    }
    fn finish(&self) -> u64 {
        mix(self.0[0], self.0[1])
    }
}
/// Sees only the bytes.
pub struct Flat(u64);
impl Hasher for Flat {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0, *x as u64);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub struct Build(u8);
impl BuildHasher for Build {
    type Hasher = Rec;
    fn build_hasher(&self) -> Rec {
        Rec([self.0 as u64, 0])
    }
}
#[inline]
fn hashes<K: Hash + ?Sized>(k: &K) -> (u64, u64, u64) {
    let mut r = Rec([0, 0]);
    k.hash(&mut r);
    let mut f = Flat(0);
    k.hash(&mut f);
    #[allow(deprecated)]
    let mut s = std::hash::SipHasher::new();
    k.hash(&mut s);
    (r.finish(), f.finish(), s.finish())
}

fn list(deep: bool, mini: bool) -> Vec<String> {
    let cap = T::capacity();
    let mut v = if mini {
        all_strings(cap.min(2), false)
    } else if cap <= 4 {
        // every text over a few characters
        Args::graph(cap.min(3)).small.iter().map(|s| s.to_string()).collect()
    } else {
        vec![]
    };
    if !mini {
        // texts which differ in one place, at every place
        for l in [cap, cap - 1, cap / 2, 16.min(cap), 17.min(cap), 8.min(cap), 9.min(cap), 32.min(cap)] {
            let pats: &[usize] = if deep { &[0, 1, 2, 3, 7, 9] } else { &[0, 9] };
            for p in pats {
                let s = shaped(l, *p, false);
                v.push(s.clone());
                let idx: Vec<(usize, char)> = s.char_indices().collect();
                let some = if deep { idx.clone() } else { spread(&idx, if cap > 64 { 12 } else { 16 }) };
                for (i, c) in some {
                    let other = match c.len_utf8() {
                        1 => if c == 'q' { 'r' } else { 'q' },
                        2 => '\u{7ff}',
                        3 => '\u{ffff}',
                        _ => '\u{10ffff}',
                    };
                    let mut t = s.clone();
                    t.replace_range(i..i + c.len_utf8(), other.encode_utf8(&mut [0; 4]));
                    v.push(t);
                    // cut off there
                    v.push(s[..i].to_string());
                }
            }
        }
        v.extend(["\0", "\0\0", "a\0", "a", "\u{7f}", "\u{80}", "\u{ffff}", "\u{10000}", "\u{d7ff}", "\u{e000}", " ", "A"].iter().map(|s| s.to_string()));
    }
    v.retain(|s| s.len() <= cap);
    v.sort();
    v.dedup();
    v
}

pub fn units(deep: bool, mini: bool) -> usize {
    list(deep, mini).len()
}

pub fn run(u: usize, cx: &mut Cx) {
    let all = list(cx.deep, cx.mini);
    let x = &all[u][..];
    let kinds: &[u8] = if cx.mini { &[0, 2] } else { &[0, 1, 2, 3] };
    let xs: Vec<T> = kinds.iter().map(|k| mc_core::build!(T, x, *k)).collect();
    let head = |i: usize, j: usize, y: &str| {
        format!("{}let x = s;\n{}let y = s;\n", mc_core::judge::set_code(TY, x, kinds[i]), mc_core::judge::set_code(TY, y, kinds[j]))
    };
    cx.ctx = hash_bytes(11, x.as_bytes());
    // hash
    for i in 0..xs.len() {
        let a = &xs[i];
        let code = || format!("{}// hash and views of x\n", head(i, i, x));
        mc_core::look!(cx, HASH, x.len(), &code, "hash", hashes(a), hashes(x));
        mc_core::look!(cx, HASH, x.len(), &code, "hash of a pair", hashes(&(*a, *a)), hashes(&(x, x)));
        mc_core::look!(cx, HASH, x.len(), &code, "hash of a slice", hashes(&[*a, *a][..]), hashes(&[x, x][..]));
        mc_core::look!(cx, HASH, x.len(), &code, "Borrow<str>", hashes::<str>(a.borrow()), hashes(x));
    }
    // pairs
    for y in &all {
        let y = &y[..];
        cx.ctx = hash_bytes(hash_bytes(13, x.as_bytes()), y.as_bytes());
        let size = x.len() + y.len();
        for (i, j) in [(0usize, 0usize), (0, kinds.len() - 1), (1, kinds.len() - 1), (kinds.len() - 1, 0)] {
            let a = &xs[i];
            let b = mc_core::build!(T, y, kinds[j]);
            let b = &b;
            let code = || head(i, j, y);
            mc_core::look!(cx, EQ, size, &code, "x == y", (a == b, a != b, b == a), (x == y, x != y, x == y));
            mc_core::look!(cx, ORD, size, &code, "x.cmp(&y)", a.cmp(b), x.cmp(y));
            mc_core::look!(cx, ORD, size, &code, "x.partial_cmp(&y)", a.partial_cmp(b), x.partial_cmp(y));
            mc_core::look!(cx, ORD, size, &code, "< <= > >=", (a < b, a <= b, a > b, a >= b), (x < y, x <= y, x > y, x >= y));
            if cx.prop != "C14" {
                // not about comparing, but this is where any two texts meet
                let over = |f: &dyn Fn(&mut T)| {
                    let mut t = *b;
                    f(&mut t);
                    t.as_bytes() == x.as_bytes()
                };
                mc_core::look!(cx, COPY, size, &code, "y.clone_from(&x), y = x, y = x.clone()", (over(&|t| t.clone_from(a)), over(&|t| *t = *a), over(&|t| *t = Clone::clone(a))), (true, true, true));
            }
            if i != j {
                continue;
            }
            mc_core::look!(cx, ORD, size, &code, "max, min", (Ord::max(*a, *b).as_str() == x.max(y), Ord::min(*a, *b).as_str() == x.min(y)), (true, true));
            mc_core::look!(cx, ORD, size, &code, "clamp", if a <= b { Ord::clamp(*a, *a, *b).as_str() == x } else { true }, true);
            mc_core::look!(cx, STR, size, &code, "== str", (*a == *y, *a != *y, a.eq(&y), PartialEq::<str>::ne(a, y), PartialEq::<&str>::eq(a, &y)), (x == y, x != y, x == y, x != y, x == y));
            if x != y {
                // equal hashes would only be a coincidence
                mc_core::look!(cx, HASH, size, &code, "hash tells them apart", hashes(a) == hashes(b), hashes(x) == hashes(y));
            }
        }
    }
    // maps
    if u == 0 {
        cx.ctx = 17;
        let code = || "// a map of all texts, looked up by str".to_string();
        let ts: Vec<T> = all.iter().enumerate().map(|(i, t)| mc_core::build!(T, t.as_str(), kinds[i % kinds.len()])).collect();
        let got = cx.plain(MAP, &code, || {
            let mut h: HashMap<T, usize, Build> = HashMap::with_hasher(Build(3));
            let mut b: BTreeMap<T, usize> = BTreeMap::new();
            let mut hs: HashSet<T> = HashSet::new();
            let mut bs: BTreeSet<T> = BTreeSet::new();
            for (i, t) in ts.iter().enumerate() {
                h.insert(*t, i);
                b.insert(*t, i);
                hs.insert(*t);
                bs.insert(*t);
            }
            let mut bad = vec![];
            for (i, t) in all.iter().enumerate() {
                let again = mc_core::build!(T, t.as_str(), kinds[(i + 1) % kinds.len()]);
                let k: &str = t;
                let ok = h.get(k) == Some(&i)
                    && b.get(k) == Some(&i)
                    && hs.contains(k)
                    && bs.contains(k)
                    && h.get(&again) == Some(&i)
                    && b.get(&again) == Some(&i)
                    && hs.contains(&again)
                    && b.range::<str, (std::ops::Bound<&str>, std::ops::Bound<&str>)>((std::ops::Bound::Included(k), std::ops::Bound::Unbounded)).next().map(|e| *e.1) == Some(i);
                if !ok {
                    bad.push(t.clone());
                }
            }
            let sizes = [h.len(), b.len(), hs.len(), bs.len()];
            let order = b.keys().map(|k| k.as_str()).eq(all.iter().map(|s| &s[..]));
            (bad, sizes, order)
        });
        if let Some(got) = got {
            cx.same(MAP, "maps", 0, &got, &(vec![], [all.len(); 4], true), &code);
        }
        let code = || "// sorting all texts".to_string();
        let got = cx.plain(SORT, &code, || {
            let mut v: Vec<T> = ts.iter().rev().copied().collect();
            v.sort();
            let a = v.iter().map(|s| s.as_str()).eq(all.iter().map(|s| &s[..]));
            v.reverse();
            v.sort_unstable();
            let b = v.iter().map(|s| s.as_str()).eq(all.iter().map(|s| &s[..]));
            let found = all.iter().all(|t| v.binary_search_by(|p| p.as_str().cmp(t)).is_ok());
            let mx = v.iter().max().map(|s| s.as_str().to_string()) == all.iter().max().cloned();
            let mn = v.iter().min().map(|s| s.as_str().to_string()) == all.iter().min().cloned();
            v.dedup();
            (a, b, found, mx, mn, v.len())
        });
        if let Some(got) = got {
            cx.same(SORT, "sort", 0, &got, &(true, true, true, true, true, all.len()), &code);
        }
    }
    // draining iterators with the same rest and different histories
    let bs = boundaries(x);
    let cuts = spread(&bs, 4);
    let iters = |k: usize| -> Vec<Drain<{ N }>> {
        let mut v = vec![];
        for stale in [0u8, 2] {
            let mut s = mc_core::build!(T, x, stale);
            if let Ok(d) = s.drain(cuts[k]..) {
                v.push(d);
            }
            let mut s = mc_core::build!(T, x, stale);
            if let Ok(mut d) = s.drain(..) {
                for _ in x[..cuts[k]].chars() {
                    d.next();
                }
                v.push(d);
            }
        }
        v
    };
    let per: Vec<Vec<Drain<{ N }>>> = (0..cuts.len()).map(iters).collect();
    for (k, ds) in per.iter().enumerate() {
        let p = &x[cuts[k]..];
        cx.ctx = hash_bytes(hash_bytes(19, x.as_bytes()), p.as_bytes());
        for (l, es) in per.iter().enumerate() {
            let q = &x[cuts[l]..];
            for (i, d) in ds.iter().enumerate() {
                for (j, e) in es.iter().enumerate() {
                    if d.as_str() != p || e.as_str() != q {
                        continue;
                    }
                    let code = || format!("// iterators over {:?}: one with {:?} left (history {}), one with {:?} left (history {})\n", x, p, i, q, j);
                    mc_core::look!(cx, DRAIN, x.len(), &code, "equality", (d == e, d != e), (p == q, p != q));
                    mc_core::look!(cx, DRAIN, x.len(), &code, "order", (d.cmp(e), d.partial_cmp(e), d < e), (p.cmp(q), Some(p.cmp(q)), p < q));
                    mc_core::look!(cx, DRAIN, x.len(), &code, "hash", hashes(d), hashes(p));
                }
            }
        }
    }
    let _: Ordering = Ordering::Equal;
    cx.sample(200_003, &|| format!("{:?} against {} texts", x, all.len()));
}
const N: usize = if KEY == 256 { 63 } else { KEY };
