// Independence on one thread: an action on one string, another on a second string before it, after
// it and inside each of its callbacks; each must end as it does alone.  The strings are neighbours
// in one array, or copies of each other.
include!("acts.rs");
use std::cell::Cell;

const NESTED: usize = 0;
const SEQUENCE: usize = 1;
const COPIES: usize = 2;

pub fn units(_deep: bool, mini: bool) -> usize {
    if mini {
        NACTS
    } else {
        NACTS * starts().len()
    }
}

/// A callback that may panic is not explored here: a panic is reported.
fn alone(k: usize, text: &str) -> Vec<u8> {
    let mut s = mc_core::build!(T, text, 0);
    let mut o = Out::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(k, &mut s, &|| {}, &mut o)));
    if r.is_err() {
        return b"panic".to_vec();
    }
    o.bytes().to_vec()
}

pub fn run(u: usize, cx: &mut Cx) {
    let ss = starts();
    let a = u % NACTS;
    let ta = ss[u / NACTS];
    cx.ctx = u as u64;
    let exp_a = alone(a, ta);
    let others: Vec<&str> = if cx.deep { ss.clone() } else if cx.mini { vec![ss[0]] } else { vec![ta, ss[(u / NACTS + 1) % ss.len()], ss[ss.len() - 1]] };
    // how many callbacks
    let calls = Cell::new(0usize);
    let mut s = mc_core::build!(T, ta, 1);
    let mut out = Out::new();
    let code = || format!("// {} on {} {:?}", ACTS[a].0, TY, ta);
    let r = cx.plain(SEQUENCE, &code, || perform(a, &mut s, &|| calls.set(calls.get() + 1), &mut out));
    if r.is_none() {
        return;
    }
    cx.same(SEQUENCE, "outcome on a string with leftovers", a, &String::from_utf8_lossy(out.bytes()), &String::from_utf8_lossy(&exp_a), &code);
    let n = calls.get();
    let points: Vec<usize> = if n <= 40 || cx.deep { (0..n).collect() } else { (0..20).chain(n - 20..n).collect() };
    for b in 0..NACTS {
        for tb in &others {
            let exp_b = alone(b, tb);
            // in sequence, as neighbours: b before a, and after
            for first in [true, false] {
                let mut arr = [mc_core::build!(T, tb, 0), mc_core::build!(T, ta, 2), mc_core::build!(T, "a", 3)];
                let (mut oa, mut ob) = (Out::new(), Out::new());
                let code = || format!("// {} on {:?} {} {} on {:?}, neighbours of type {}", ACTS[b].0, tb, if first { "before" } else { "after" }, ACTS[a].0, ta, TY);
                let r = cx.plain(SEQUENCE, &code, || {
                    if first {
                        perform(b, &mut arr[0], &|| {}, &mut ob);
                        perform(a, &mut arr[1], &|| {}, &mut oa);
                    } else {
                        perform(a, &mut arr[1], &|| {}, &mut oa);
                        perform(b, &mut arr[0], &|| {}, &mut ob);
                    }
                });
                if r.is_some() {
                    verdict(cx, SEQUENCE, a + b, &oa, &ob, &exp_a, &exp_b, &arr, &code);
                }
            }
            // nested
            for k in &points {
                let k = *k;
                let mut arr = [mc_core::build!(T, tb, 0), mc_core::build!(T, ta, 0), mc_core::build!(T, "a", 0)];
                let (mut oa, mut ob) = (Out::new(), Out::new());
                let code = || format!("// {} on {:?}, and inside its callback number {} (from 0): {} on {:?}, neighbours of type {}", ACTS[a].0, ta, k, ACTS[b].0, tb, TY);
                let i = Cell::new(0usize);
                let r = {
                    let [x, y, _] = &mut arr;
                    let x = std::cell::RefCell::new((x, &mut ob));
                    let hook = || {
                        if i.get() == k {
                            i.set(i.get() + 1);
                            let (x, ob) = &mut *x.borrow_mut();
                            perform(b, x, &|| {}, ob);
                        } else {
                            i.set(i.get() + 1);
                        }
                    };
                    cx.plain(NESTED, &code, || perform(a, y, &hook, &mut oa))
                };
                if r.is_some() {
                    verdict(cx, NESTED, a + b + k, &oa, &ob, &exp_a, &exp_b, &arr, &code);
                }
            }
            // copies: b on a copy or clone of what a is working on
            if *tb == ta {
                for how in 0..5 {
                    let s0 = mc_core::build!(T, ta, 0);
                    let (mut oa, mut ob) = (Out::new(), Out::new());
                    let code = || format!("// let t = {}; then {} on s ({:?}) and {} on t, type {}", ["s", "s.clone()", "s, changed meanwhile", "an empty string; t.clone_from(&s)", "a full string; t.clone_from(&s)"][how], ACTS[a].0, ta, ACTS[b].0, TY);
                    let mut s = s0;
                    let mut t = match how {
                        1 => s.clone(),
                        3 => mc_core::build!(T, "", 0),
                        4 => T::from_str_truncate("\u{e9}".repeat(128)),
                        _ => s,
                    };
                    if how >= 3 && cx.plain(COPIES, &code, || t.clone_from(&s)).is_none() {
                        continue;
                    }
                    let r = cx.plain(COPIES, &code, || {
                        if how == 2 {
                            // the original changes before the copy is used
                            perform(a, &mut s, &|| {}, &mut oa);
                            perform(b, &mut t, &|| {}, &mut ob);
                        } else {
                            perform(b, &mut t, &|| {}, &mut ob);
                            perform(a, &mut s, &|| {}, &mut oa);
                        }
                    });
                    if r.is_some() {
                        verdict(cx, COPIES, a + b, &oa, &ob, &exp_a, &exp_b, &[t, s, mc_core::build!(T, "a", 0)], &code);
                    }
                }
            }
        }
    }
    // and at the end of it all, alone again
    let again = alone(a, ta);
    cx.same(SEQUENCE, "outcome after all of these", a, &String::from_utf8_lossy(&again), &String::from_utf8_lossy(&exp_a), &code);
    cx.sample(50_021, &|| format!("{} ({} callbacks) with {} other actions before, after and inside: {:?}", code(), n, NACTS, String::from_utf8_lossy(&exp_a)));
}

fn verdict(cx: &mut Cx, op: usize, size: usize, oa: &Out, ob: &Out, ea: &[u8], eb: &[u8], arr: &[T; 3], code: &dyn Fn() -> String) {
    let l = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    if oa.bytes() != ea {
        cx.check(false, op, "outcome of the outer action", size, &|| format!("{:?}, alone {:?}", l(oa.bytes()), l(ea)), code);
    }
    if ob.bytes() != eb {
        cx.check(false, op, "outcome of the other action", size, &|| format!("{:?}, alone {:?}", l(ob.bytes()), l(eb)), code);
    }
    let tail = |b: &[u8]| b.iter().rposition(|x| *x == b'|').unwrap_or(0);
    // content afterwards (the other action may have come later)
    let (ca, cb) = (AsRef::<[u8]>::as_ref(&arr[1]), AsRef::<[u8]>::as_ref(&arr[0]));
    if !ea.ends_with(ca) || ea.len() - tail(ea) - 1 != ca.len() {
        cx.check(false, op, "content of the outer string afterwards", size, &|| format!("{:?}, alone {:?}", l(ca), l(ea)), code);
    }
    if !eb.ends_with(cb) || eb.len() - tail(eb) - 1 != cb.len() {
        cx.check(false, op, "content of the other string afterwards", size, &|| format!("{:?}, alone {:?}", l(cb), l(eb)), code);
    }
    if arr[2].as_str() != "a" {
        cx.check(false, op, "content of a third string", size, &|| format!("{:?} instead of \"a\"", arr[2].as_str()), code);
    }
    cx.seen(op, hash_bytes(hash_bytes(cx.ctx, oa.bytes()), ob.bytes()));
}
