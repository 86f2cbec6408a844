// diesel: what is written to a database and what is read from one.
use diesel::prelude::*;
use diesel::sql_types::{Binary, Integer, Nullable, Text};
use diesel::sqlite::SqliteConnection;

const WRITE: usize = 0;
const READ: usize = 1;
const TRIP: usize = 2;
const NULLS: usize = 3;
const EXPR: usize = 4;
const HIST: usize = 5;
const WIRE: usize = 6;

const CAP: usize = if KEY == 256 { 63 } else { KEY };

diesel::table! {
    items (id) {
        id -> Integer,
        name -> Text,
        more -> Nullable<Text>,
    }
}

#[derive(Queryable, Insertable, AsChangeset, Identifiable, QueryableByName, Selectable, Clone, Debug, PartialEq)]
#[diesel(table_name = items)]
struct Row {
    id: i32,
    name: T,
    more: Option<T>,
}
#[derive(Queryable, Insertable, AsChangeset, Identifiable, QueryableByName, Selectable, Clone, Debug, PartialEq)]
#[diesel(table_name = items)]
struct Plain {
    id: i32,
    name: String,
    more: Option<String>,
}
#[derive(Insertable)]
#[diesel(table_name = items)]
struct ByRef<'a> {
    id: i32,
    name: &'a T,
    more: Option<&'a T>,
}
impl Row {
    fn plain(&self) -> Plain {
        Plain { id: self.id, name: text(self.name), more: self.more.map(text) }
    }
}
impl Plain {
    fn cut(&self) -> Plain {
        Plain { id: self.id, name: want(&self.name), more: self.more.as_ref().map(|t| want(t)) }
    }
}

fn want(s: &str) -> String {
    floor(s, CAP).to_string()
}
/// The content, even if it should not be utf-8.
fn text(t: T) -> String {
    content(t.as_str(), CAP).to_string()
}
fn open() -> SqliteConnection {
    let mut c = SqliteConnection::establish(":memory:").unwrap();
    diesel::sql_query("CREATE TABLE items (id INTEGER PRIMARY KEY, name, more)").execute(&mut c).unwrap();
    c
}
type Out<R> = Result<R, String>;
fn err<R>(r: QueryResult<R>) -> Out<R> {
    r.map_err(|e| match e {
        diesel::result::Error::DeserializationError(_) => "could not be read".to_string(),
        e => e.to_string(),
    })
}

fn inputs(deep: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    if CAP <= 3 {
        v.extend(mc_core::gen::all_strings(CAP + 3, false));
    }
    let mut lens: Vec<usize> = vec![0, 1, 2, 3, CAP - 1, CAP, CAP + 1, CAP + 2, CAP + 3, CAP + 4, CAP + 9, 255, 256, 257, 256 + CAP, 300, 512, 600];
    if deep {
        lens.extend(0..=CAP + 8);
    }
    for n in lens {
        for p in 0..mc_core::gen::PATTERNS {
            v.push(mc_core::gen::shaped(n, p, false));
        }
        if n >= 1 {
            for e in ["'", "\"", "\\", "%", "_", ";", "\u{0}", "\n", "\u{feff}", "\u{fffd}"] {
                v.push(format!("{}{}", "x".repeat(n - 1), e));
                v.push(format!("{}{}", e, "\u{e9}".repeat((n - 1) / 2)));
            }
        }
    }
    v.extend(["0", "1", "-1", "1.5", "1e9", "null", "NULL", "x'41'", "  a ", "A"].map(String::from));
    v.sort();
    v.dedup();
    v
}

const PARTS: usize = 8;
pub fn units(deep: bool, mini: bool) -> usize {
    let _ = deep;
    if mini {
        // the interpreter cannot run SQLite
        1
    } else {
        2 + PARTS
    }
}

pub fn run(u: usize, cx: &mut Cx) {
    let u = u + cx.mini as usize;
    cx.ctx = u as u64;
    match u {
        0 => {
            let mut c = open();
            for s in inputs(cx.deep) {
                cx.ctx = hash_bytes(1, s.as_bytes());
                write(&s, &mut c, cx);
                read(&s, &mut c, cx);
            }
            classes(&mut c, cx);
            nulls(&mut c, cx);
        }
        1 => {
            for s in if cx.mini { ["", "a", "\u{e9}", "ab\u{20ac}"].map(String::from).into_iter().chain([CAP - 1, CAP, CAP + 1, 300].map(|n| "x".repeat(n))).collect() } else { inputs(cx.deep) } {
                cx.ctx = hash_bytes(2, s.as_bytes());
                wire(s.as_bytes(), cx);
                for bad in [&[0xffu8][..], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0x80], &[0xf0, 0x9f, 0x98]] {
                    for tail in ["", "tail"] {
                        let mut b = s.as_bytes().to_vec();
                        b.extend(bad);
                        b.extend(tail.as_bytes());
                        wire(&b, cx);
                    }
                }
                bind(&s, cx);
            }
        }
        _ => histories(u - 2, cx),
    }
}

macro_rules! same {
    ($cx:expr, $op:expr, $class:literal, $n:expr, $code:expr, $got:expr, $exp:expr) => {
        if let Some(g) = $cx.plain($op, $code, || $got) {
            let e = $exp;
            $cx.same($op, $class, $n, &g, &e, $code);
        }
    };
}

fn clear(c: &mut SqliteConnection) {
    diesel::delete(items::table).execute(c).unwrap();
}

/// A text that fits, written through the string type in every way; read back by std types.
fn write(s: &str, c: &mut SqliteConnection, cx: &mut Cx) {
    if s.len() > CAP {
        return;
    }
    let n = s.len();
    let code = || format!("// writing {:?} to a text column as {}", s, TY);
    for stale in 0..4 {
        let t = mc_core::build!(T, s, stale);
        let full = Plain { id: 1, name: s.to_string(), more: Some(s.to_string()) };
        macro_rules! stored {
            ($class:literal, $insert:expr, $exp:expr) => {
                same!(cx, WRITE, $class, n, &code, {
                    clear(c);
                    let r = err($insert);
                    (r, err(items::table.load::<Plain>(c)))
                }, (Ok::<usize, String>(1), Ok::<_, String>(vec![$exp])));
            };
        }
        stored!("inserted struct", diesel::insert_into(items::table).values(&Row { id: 1, name: t, more: Some(t) }).execute(c), full.clone());
        stored!("inserted struct, nothing optional", diesel::insert_into(items::table).values(Row { id: 1, name: t, more: None }).execute(c), Plain { more: None, ..full.clone() });
        stored!("inserted by reference", diesel::insert_into(items::table).values(&ByRef { id: 1, name: &t, more: Some(&t) }).execute(c), full.clone());
        stored!("inserted columns", diesel::insert_into(items::table).values((items::id.eq(1), items::name.eq(t), items::more.eq(Some(t)))).execute(c), full.clone());
        stored!("inserted column references", diesel::insert_into(items::table).values((items::id.eq(1), items::name.eq(&t), items::more.eq(&t))).execute(c), full.clone());
        stored!("inserted batch", diesel::insert_into(items::table).values(&vec![Row { id: 1, name: t, more: Some(t) }]).execute(c), full.clone());
        stored!("replaced", diesel::replace_into(items::table).values(&Row { id: 1, name: t, more: Some(t) }).execute(c), full.clone());
        stored!("raw bind", diesel::sql_query("INSERT INTO items VALUES (1, ?, ?)").bind::<Text, _>(t).bind::<Nullable<Text>, _>(Some(t)).execute(c), full.clone());
        stored!("raw bind of a reference", diesel::sql_query("INSERT INTO items VALUES (1, ?, ?)").bind::<Text, _>(&t).bind::<Nullable<Text>, _>(Some(&t)).execute(c), full.clone());
        stored!("updated", {
            diesel::insert_into(items::table).values((items::id.eq(1), items::name.eq("before"), items::more.eq(None::<String>))).execute(c).unwrap();
            diesel::update(items::table.find(1)).set((items::name.eq(t), items::more.eq(Some(t)))).execute(c)
        }, full.clone());
        stored!("changeset", {
            diesel::insert_into(items::table).values((items::id.eq(1), items::name.eq("before"), items::more.eq(None::<String>))).execute(c).unwrap();
            diesel::update(items::table).set(&Row { id: 1, name: t, more: Some(t) }).execute(c)
        }, full.clone());
        // exactly as std String is stored
        let probe = "SELECT typeof(name) || ':' || hex(name) || ':' || length(name) AS shown, id AS id FROM items";
        #[derive(QueryableByName, Debug, PartialEq)]
        struct Shown {
            #[diesel(sql_type = Text)]
            shown: String,
        }
        let mut how = |mine: bool| -> Out<Vec<Shown>> {
            clear(c);
            if mine {
                err(diesel::insert_into(items::table).values((items::id.eq(1), items::name.eq(&t))).execute(c))?;
            } else {
                err(diesel::insert_into(items::table).values((items::id.eq(1), items::name.eq(s))).execute(c))?;
            }
            err(diesel::sql_query(probe).load::<Shown>(c))
        };
        let exp = how(false);
        same!(cx, WRITE, "stored form", n, &code, how(true), exp);
        // read back as the type itself
        same!(cx, TRIP, "row", n, &code, err(items::table.first::<Row>(c)).map(|r| r.plain()), Ok::<_, String>(Plain { more: None, ..full.clone() }));
        // found by it
        for (class, hit) in [
            ("eq", err(items::table.filter(items::name.eq(t)).count().get_result::<i64>(c))),
            ("eq reference", err(items::table.filter(items::name.eq(&t)).count().get_result::<i64>(c))),
            ("eq_any", err(items::table.filter(items::name.eq_any(vec![t, t])).count().get_result::<i64>(c))),
            ("ge le", err(items::table.filter(items::name.ge(t).and(items::name.le(t))).count().get_result::<i64>(c))),
            ("between", err(items::table.filter(items::name.between(t, t)).count().get_result::<i64>(c))),
        ] {
            let code = || format!("// filtering a table holding {:?} by {} with the same text as {}", s, class, TY);
            cx.st.count(EXPR, 0);
            cx.same(EXPR, "rows found", n, &hit, &Ok::<i64, String>(1), &code);
        }
        same!(cx, EXPR, "rows found by ne", n, &code, err(items::table.filter(items::name.ne(t)).count().get_result::<i64>(c)), Ok::<i64, String>(0));
        same!(cx, EXPR, "rows found by gt", n, &code, err(items::table.filter(items::name.gt(&t)).count().get_result::<i64>(c)), Ok::<i64, String>(0));
        same!(cx, EXPR, "selected expression", n, &code, err(diesel::select(diesel::dsl::sql::<Text>("").bind::<Text, _>(t)).get_result::<String>(c)), Ok::<_, String>(s.to_string()));
        same!(cx, EXPR, "selected expression, both", n, &code, err(diesel::select(t.into_sql::<Text>()).get_result::<T>(c)).map(text), Ok::<_, String>(s.to_string()));
        same!(cx, EXPR, "selected reference", n, &code, err(diesel::select((&t).into_sql::<Text>()).get_result::<String>(c)), Ok::<_, String>(s.to_string()));
        same!(cx, EXPR, "selected optional", n, &code, err(diesel::select(Some(t).into_sql::<Nullable<Text>>()).get_result::<Option<T>>(c)).map(|o| o.map(text)), Ok::<_, String>(Some(s.to_string())));
        let exp = err(diesel::select("b".into_sql::<Text>().concat(s.to_string())).get_result::<String>(c));
        same!(cx, EXPR, "concatenated", n, &code, err(diesel::select("b".into_sql::<Text>().concat(t)).get_result::<String>(c)), exp);
        same!(cx, TRIP, "returning", n, &code, {
            clear(c);
            err(diesel::insert_into(items::table).values(Row { id: 1, name: t, more: Some(t) }).returning(Row::as_returning()).get_result::<Row>(c)).map(|r| r.plain())
        }, Ok::<_, String>(full.clone()));
    }
}

/// A text of any length, written by std String, read as the string type in every way.
fn read(s: &str, c: &mut SqliteConnection, cx: &mut Cx) {
    let n = s.len();
    let code = || format!("// reading {:?} from a text column as {}", s, TY);
    let full = Plain { id: 1, name: s.to_string(), more: Some(s.to_string()) };
    clear(c);
    diesel::insert_into(items::table).values(&full).execute(c).unwrap();
    all_reads(n, &code, c, cx);
    cx.sample(2003, &|| format!("{}: a text column holding {:?} must read as {:?}", TY, s, want(s)));
}

/// Every way of reading the first row must agree with reading std Strings, cut to the capacity.
fn all_reads(n: usize, code: &dyn Fn() -> String, c: &mut SqliteConnection, cx: &mut Cx) {
    let full = err(items::table.load::<Plain>(c)).map(|v| v.iter().map(|p| p.cut()).collect::<Vec<_>>());
    same!(cx, READ, "rows as structs", n, code, err(items::table.load::<Row>(c)).map(|v| v.iter().map(|r| r.plain()).collect::<Vec<_>>()), full.clone());
    same!(cx, READ, "rows as tuples", n, code, err(items::table.load::<(i32, T, Option<T>)>(c)).map(|v| v.iter().map(|r| Row { id: r.0, name: r.1, more: r.2 }.plain()).collect::<Vec<_>>()), full.clone());
    same!(cx, READ, "rows by selection", n, code, err(items::table.select(Row::as_select()).load(c)).map(|v| v.iter().map(|r| r.plain()).collect::<Vec<_>>()), full.clone());
    same!(cx, READ, "rows by name", n, code, err(diesel::sql_query("SELECT more, id, name FROM items ORDER BY id").load::<Row>(c)).map(|v| v.iter().map(|r| r.plain()).collect::<Vec<_>>()), full.clone());
    same!(cx, READ, "mixed with String", n, code, err(items::table.select((items::name, items::name, items::id)).load::<(T, String, i32)>(c)).map(|v| v.iter().map(|r| text(r.0) == want(&r.1)).collect::<Vec<_>>()), err(items::table.select(items::name).load::<String>(c)).map(|v| vec![true; v.len()]));
    let exp = err(items::table.select(items::name).load::<String>(c)).map(|v| v.iter().map(|s| want(s)).collect::<Vec<_>>());
    same!(cx, READ, "column", n, code, err(items::table.select(items::name).load::<T>(c)).map(|v| v.into_iter().map(text).collect::<Vec<_>>()), exp);
    let exp = err(items::table.select(items::more).load::<Option<String>>(c)).map(|v| v.iter().map(|s| s.as_ref().map(|s| want(s))).collect::<Vec<_>>());
    same!(cx, READ, "optional column", n, code, err(items::table.select(items::more).load::<Option<T>>(c)).map(|v| v.into_iter().map(|o| o.map(text)).collect::<Vec<_>>()), exp.clone());
    same!(cx, READ, "name made optional", n, code, err(items::table.select(items::name.nullable()).load::<Option<T>>(c)).map(|v| v.into_iter().map(|o| o.map(text)).collect::<Vec<_>>()), err(items::table.select(items::name.nullable()).load::<Option<String>>(c)).map(|v| v.iter().map(|s| s.as_ref().map(|s| want(s))).collect::<Vec<_>>()));
    same!(cx, READ, "iterated", n, code, items::table.select(items::name).load_iter::<T, diesel::connection::DefaultLoadingMode>(c).map_err(|e| e.to_string()).map(|i| i.map(|r| err(r).map(text)).collect::<Vec<_>>()), items::table.select(items::name).load_iter::<String, diesel::connection::DefaultLoadingMode>(c).map_err(|e| e.to_string()).map(|i| i.map(|r| err(r).map(|s| want(&s))).collect::<Vec<_>>()));
}

/// Values of other storage classes in the column.
fn classes(c: &mut SqliteConnection, cx: &mut Cx) {
    for v in ["1", "-7", "1234567890123", "1.5", "-2.25e10", "x''", "x'41'", "x'414243444546'", "x'c3a9e282ac'", "''", "'a' || 'b'", "hex(zeroblob(200))", "NULL", "x'ff'", "x'6162c3'", "CAST(x'ff41' AS TEXT)", "CAST(x'6162636465666768c3' AS TEXT)", "CAST(x'410042' AS TEXT)", "zeroblob(3)", "CAST('text' AS BLOB)", "replace(hex(zeroblob(150)), '00', 'é')", "CAST(replace(hex(zeroblob(150)), '00', '€') AS BLOB)"] {
        cx.ctx = hash_bytes(3, v.as_bytes());
        for col in ["name", "more"] {
            clear(c);
            let sql = if col == "name" { format!("INSERT INTO items VALUES (1, {}, 'm')", v) } else { format!("INSERT INTO items VALUES (1, 'n', {})", v) };
            diesel::sql_query(&sql).execute(c).unwrap();
            let code = || format!("// reading a column written as {} as {}", v, TY);
            all_reads(v.len(), &code, c, cx);
        }
    }
}

fn nulls(c: &mut SqliteConnection, cx: &mut Cx) {
    let code = || format!("// reading NULL as {}", TY);
    clear(c);
    diesel::sql_query("INSERT INTO items VALUES (1, NULL, NULL)").execute(c).unwrap();
    same!(cx, NULLS, "NULL into a non-optional", 0, &code, err(items::table.select(items::name).load::<T>(c)).is_err(), true);
    same!(cx, NULLS, "NULL into a non-optional field", 0, &code, err(items::table.load::<Row>(c)).is_err(), true);
    same!(cx, NULLS, "NULL into a non-optional field by name", 0, &code, err(diesel::sql_query("SELECT * FROM items").load::<Row>(c)).is_err(), true);
    same!(cx, NULLS, "NULL into an option", 0, &code, err(items::table.select(items::more).load::<Option<T>>(c)).map(|v| v.iter().map(|o| o.is_none()).collect::<Vec<_>>()), Ok::<_, String>(vec![true]));
    same!(cx, NULLS, "NULL written", 0, &code, {
        clear(c);
        diesel::insert_into(items::table).values((items::id.eq(1), items::name.eq(T::new()), items::more.eq(None::<T>))).execute(c).unwrap();
        err(items::table.load::<Plain>(c))
    }, Ok::<_, String>(vec![Plain { id: 1, name: String::new(), more: None }]));
    same!(cx, NULLS, "errors like String", 0, &code, {
        clear(c);
        diesel::sql_query("INSERT INTO items VALUES (1, NULL, NULL)").execute(c).unwrap();
        err(items::table.select(items::name).load::<T>(c)).map(|v| v.len())
    }, err(items::table.select(items::name).load::<String>(c)).map(|v| v.len()));
}

// ------------------------------------------------------------------------------------------------
// every sequence of table operations

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(i32, usize),
    Replace(i32, usize),
    Update(i32, usize),
    UpdateMore(i32, Option<usize>),
    RenameAll(usize, usize),
    Copy(i32),
    Raw(i32, usize),
    Delete(usize),
    Rollback(i32, usize),
}

fn vocabulary() -> Vec<String> {
    // two that fit, the longest that fits, and one longer
    let full = mc_core::gen::shaped(CAP, 1, false);
    let long = format!("{}\u{e9}x", full);
    let mut v = vec![String::new(), "a".to_string(), full, long];
    v.dedup();
    v
}

fn histories(part: usize, cx: &mut Cx) {
    let words = vocabulary();
    let fits: Vec<usize> = (0..words.len()).filter(|i| words[*i].len() <= CAP).collect();
    let mut ops = vec![];
    for id in 1..=2 {
        for &w in &fits {
            ops.push(Op::Insert(id, w));
            ops.push(Op::Update(id, w));
        }
        let last = *fits.last().unwrap();
        ops.push(Op::Replace(id, last));
        ops.push(Op::UpdateMore(id, Some(last)));
        ops.push(Op::UpdateMore(id, None));
        ops.push(Op::Copy(id));
        ops.push(Op::Raw(id, words.len() - 1));
        ops.push(Op::Rollback(id, last));
    }
    for &w in &fits {
        ops.push(Op::RenameAll(w, fits[0]));
        ops.push(Op::Delete(w));
    }
    let depth = if cx.deep { 4 } else { 3 };
    let mut c = open();
    let typed: Vec<Option<T>> = words.iter().map(|w| T::try_from_str(w).ok()).collect();
    let t = |w: usize| typed[w].unwrap();
    let count = ops.len().pow(depth as u32);
    let mut hist: Vec<Op> = vec![];
    let mut last_first = usize::MAX;
    for i in 0..count {
        // the last operation varies fastest
        let first = i / ops.len().pow(depth as u32 - 1);
        if first % PARTS != part {
            continue;
        }
        if first != last_first {
            last_first = first;
        }
        clear(&mut c);
        let mut model: std::collections::BTreeMap<i32, (String, Option<String>)> = Default::default();
        hist.clear();
        for k in 0..depth {
            let op = ops[i / ops.len().pow((depth - 1 - k) as u32) % ops.len()];
            hist.push(op);
            let code = || format!("// words {:?}\n// history {:?} through {}", words, hist, TY);
            cx.ctx = mix(i as u64, k as u64);
            let mut exp: Out<usize> = Ok(0);
            // the model
            match op {
                Op::Insert(id, w) | Op::Raw(id, w) => {
                    if model.contains_key(&id) {
                        exp = Err("refused".into());
                    } else {
                        model.insert(id, (words[w].clone(), None));
                        exp = Ok(1);
                    }
                }
                Op::Replace(id, w) => {
                    model.insert(id, (words[w].clone(), Some(words[w].clone())));
                    exp = Ok(1);
                }
                Op::Update(id, w) => {
                    if let Some(r) = model.get_mut(&id) {
                        r.0 = words[w].clone();
                        exp = Ok(1);
                    }
                }
                Op::UpdateMore(id, w) => {
                    if let Some(r) = model.get_mut(&id) {
                        r.1 = w.map(|w| words[w].clone());
                        exp = Ok(1);
                    }
                }
                Op::RenameAll(a, b) => {
                    let mut n = 0;
                    for r in model.values_mut() {
                        if r.0 == words[a] {
                            r.0 = words[b].clone();
                            n += 1;
                        }
                    }
                    exp = Ok(n);
                }
                Op::Copy(id) => {
                    // read through the string type, written to the other row
                    if let Some(r) = model.get(&id).cloned() {
                        model.insert(3 - id, (want(&r.0), r.1.as_ref().map(|s| want(s))));
                        exp = Ok(1);
                    }
                }
                Op::Delete(w) => {
                    let n = model.len();
                    model.retain(|_, r| r.0 != words[w]);
                    exp = Ok(n - model.len());
                }
                Op::Rollback(..) => {}
            }
            // the database, through the string type
            let got = cx.plain(HIST, &code, || match op {
                Op::Insert(id, w) => diesel::insert_into(items::table).values((items::id.eq(id), items::name.eq(t(w)))).execute(&mut c).map_err(|_| "refused".to_string()),
                Op::Raw(id, w) => diesel::insert_into(items::table).values((items::id.eq(id), items::name.eq(&words[w]))).execute(&mut c).map_err(|_| "refused".to_string()),
                Op::Replace(id, w) => err(diesel::replace_into(items::table).values(Row { id, name: t(w), more: Some(t(w)) }).execute(&mut c)),
                Op::Update(id, w) => err(diesel::update(items::table.find(id)).set(items::name.eq(&t(w))).execute(&mut c)),
                Op::UpdateMore(id, w) => err(diesel::update(items::table.find(id)).set(items::more.eq(w.map(t))).execute(&mut c)),
                Op::RenameAll(a, b) => err(diesel::update(items::table.filter(items::name.eq(t(a)))).set(items::name.eq(t(b))).execute(&mut c)),
                Op::Copy(id) => match items::table.find(id).first::<Row>(&mut c).optional() {
                    Ok(Some(r)) => err(diesel::replace_into(items::table).values(Row { id: 3 - id, ..r }).execute(&mut c)),
                    Ok(None) => Ok(0),
                    Err(e) => Err(e.to_string()),
                },
                Op::Delete(w) => err(diesel::delete(items::table.filter(items::name.eq(&t(w)))).execute(&mut c)),
                Op::Rollback(id, w) => {
                    let r: Result<(), diesel::result::Error> = c.transaction(|c| {
                        diesel::replace_into(items::table).values(Row { id, name: t(w), more: None }).execute(c)?;
                        Err(diesel::result::Error::RollbackTransaction)
                    });
                    drop(r);
                    Ok(0)
                }
            });
            let Some(got) = got else { return };
            cx.same(HIST, "result", hist.len(), &got, &exp, &code);
            if k + 1 == depth || cx.deep {
                let rows: Vec<Plain> = model.iter().map(|(id, r)| Plain { id: *id, name: r.0.clone(), more: r.1.clone() }).collect();
                let cut: Vec<Plain> = rows.iter().map(|p| p.cut()).collect();
                same!(cx, HIST, "table read as String", hist.len(), &code, err(items::table.order(items::id).load::<Plain>(&mut c)), Ok::<_, String>(rows));
                same!(cx, HIST, "table read", hist.len(), &code, err(items::table.order(items::id).load::<Row>(&mut c)).map(|v| v.iter().map(|r| r.plain()).collect::<Vec<_>>()), Ok::<_, String>(cut));
            }
        }
        cx.sample(100_003, &|| format!("{}: history {:?}", TY, hist));
    }
}

// ------------------------------------------------------------------------------------------------
// wire values of the other backends

struct NoOid;
impl diesel::pg::TypeOidLookup for NoOid {
    fn lookup(&self) -> std::num::NonZeroU32 {
        std::num::NonZeroU32::new(25).unwrap()
    }
}
fn wire(b: &[u8], cx: &mut Cx) {
    use diesel::deserialize::FromSql;
    use diesel::mysql::{Mysql, MysqlType, MysqlValue};
    use diesel::pg::{Pg, PgValue};
    cx.ctx = hash_bytes(4, b);
    let code = || format!("// a text column of PostgreSQL or MySQL holding the bytes {:?}, read as {}", String::from_utf8_lossy(b), TY);
    let oid = NoOid;
    let exp = <String as FromSql<Text, Pg>>::from_sql(PgValue::new(b, &oid)).ok().map(|s| want(&s));
    same!(cx, WIRE, "PostgreSQL value", b.len(), &code, <T as FromSql<Text, Pg>>::from_sql(PgValue::new(b, &oid)).ok().map(text), exp);
    for ty in [MysqlType::String, MysqlType::Blob, MysqlType::Enum, MysqlType::Set] {
        let exp = <String as FromSql<Text, Mysql>>::from_sql(MysqlValue::new(b, ty)).ok().map(|s| want(&s));
        same!(cx, WIRE, "MySQL value", b.len(), &code, <T as FromSql<Text, Mysql>>::from_sql(MysqlValue::new(b, ty)).ok().map(text), exp);
    }
    // an option reads a missing value as none, and a missing value is an error otherwise
    same!(cx, WIRE, "PostgreSQL option", b.len(), &code, <Option<T> as FromSql<Nullable<Text>, Pg>>::from_nullable_sql(Some(PgValue::new(b, &oid))).ok().map(|o| o.map(text)), <Option<String> as FromSql<Nullable<Text>, Pg>>::from_nullable_sql(Some(PgValue::new(b, &oid))).ok().map(|o| o.map(|s| want(&s))));
    same!(cx, WIRE, "PostgreSQL missing", b.len(), &code, <T as FromSql<Text, Pg>>::from_nullable_sql(None).is_err(), true);
    same!(cx, WIRE, "MySQL missing", b.len(), &code, <T as FromSql<Text, Mysql>>::from_nullable_sql(None).is_err(), true);
}

struct NoLookup;
impl diesel::pg::PgMetadataLookup for NoLookup {
    fn lookup_type(&mut self, _: &str, _: Option<&str>) -> diesel::pg::PgTypeMetadata {
        diesel::pg::PgTypeMetadata::new(25, 1009)
    }
}
fn bind(s: &str, cx: &mut Cx) {
    use diesel::mysql::Mysql;
    use diesel::pg::Pg;
    use diesel::query_builder::bind_collector::RawBytesBindCollector;
    use diesel::query_builder::BindCollector;
    if s.len() > CAP {
        return;
    }
    for stale in 0..4 {
        let t = mc_core::build!(T, s, stale);
        let code = || format!("{}// bound as a text parameter of PostgreSQL or MySQL", mc_core::judge::set_code(TY, s, stale));
        same!(cx, WIRE, "PostgreSQL parameter", s.len(), &code, {
            let mut c = RawBytesBindCollector::<Pg>::new();
            c.push_bound_value::<Text, _>(&t, &mut NoLookup).is_ok().then(|| c.binds.clone())
        }, Some(vec![Some(s.as_bytes().to_vec())]));
        same!(cx, WIRE, "MySQL parameter", s.len(), &code, {
            let mut c = RawBytesBindCollector::<Mysql>::new();
            c.push_bound_value::<Text, _>(&t, &mut ()).is_ok().then(|| c.binds.clone())
        }, Some(vec![Some(s.as_bytes().to_vec())]));
    }
}
