//! C24..C26: small statements in every combination, and wide ones.

use crate::engine::*;
use crate::sql_ast::*;
use crate::sql_typed::{both, class_of, fixed_cat, FROM, OPERANDS};
use crate::sql_types::*;

fn tab(schema: &str, name: &str, cols: &[(&str, T, bool)]) -> Table {
    Table { schema: schema.into(), name: name.into(), cols: cols.iter().map(|c| (c.0.to_string(), c.1, c.2)).collect(), view: false }
}

fn cat() -> Cat {
    Cat {
        schemas: vec!["main".into(), "aux".into()],
        default: "main".into(),
        tables: vec![
            tab("main", "tri", &[("a", T::Numeric, true), ("b", T::Varchar, false), ("c", T::Date, true)]),
            tab("main", "duo", &[("a", T::Numeric, false), ("x", T::Varchar, true)]),
            tab("aux", "tri", &[("z", T::Numeric, true), ("b", T::Varchar, true)]),
        ],
    }
}

/// all lists of up to `max` of the items
fn lists(items: &[&str], max: usize) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for k in from..to {
            for i in items {
                let mut l = out[k].clone();
                l.push(i.to_string());
                out.push(l);
            }
        }
        from = to;
    }
    out
}

fn all(s: &mut Src, n: usize) -> usize {
    (s.upto(u64::MAX) % n as u64) as usize
}

// ---------------------------------------------------------------- INSERT
const COLS: [&str; 4] = ["a", "B", "c", "nosuch"];
const VALS: [&str; 4] = ["1", "'s'", "DATE 'd'", "NULL"];
pub const INSERTS: u64 = 85;

pub fn inserts(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let cols = &lists(&COLS, 3)[all(s, INSERTS as usize)];
    let head = if cols.is_empty() { "INSERT INTO tri".to_string() } else { format!("INSERT INTO tri ({})", cols.join(", ")) };
    let (cat, real) = (cat(), cat().real());
    ctx.case(|| head.clone());
    for vals in lists(&VALS, 3).iter().filter(|v| !v.is_empty()) {
        let row = vals.join(", ");
        both(&cat, &real, &format!("{} VALUES ({})", head, row), ctx, side)?;
        both(&cat, &real, &format!("{} VALUES ({}), ({})", head, row, row.replace("DATE 'd'", "NULL")), ctx, side)?;
        both(&cat, &real, &format!("{} VALUES ({}), ({})", head, row.replace("1", "NULL"), row), ctx, side)?;
        let named: Vec<String> = vals.iter().zip(["a", "b", "c", "q"]).map(|(v, n)| format!("{} AS {}", v, n)).collect();
        both(&cat, &real, &format!("{} SELECT {}", head, named.join(", ")), ctx, side)?;
        both(&cat, &real, &format!("{} SELECT {}", head, row), ctx, side)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- UPDATE
pub const UPDATES: u64 = 441;

pub fn updates(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let mut one: Vec<String> = vec![];
    for c in COLS {
        for v in ["1", "'s'", "DATE 'd'", "NULL", "b"] {
            one.push(format!("{} = {}", c, v));
        }
    }
    let i = all(s, UPDATES as usize);
    let mut head: Vec<String> = vec![];
    for k in [i % 21, i / 21] {
        if k < 20 {
            head.push(one[k].clone());
        }
    }
    let (cat, real) = (cat(), cat().real());
    ctx.case(|| head.join(", "));
    for third in &one {
        let mut l = head.clone();
        l.push(third.clone());
        let text = format!("UPDATE tri SET {}", l.join(", "));
        both(&cat, &real, &text, ctx, side)?;
        both(&cat, &real, &format!("{} WHERE c = CURRENT_DATE", text), ctx, side)?;
        both(&cat, &real, &format!("{} WHERE tri.a = b", text), ctx, side)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- FROM
const ITEMS: [&str; 11] = [
    "tri",
    "tri AS x",
    "duo",
    "duo x",
    "aux.tri",
    "aux.tri duo",
    "(SELECT a, b FROM tri) x",
    "(SELECT a AS k, x AS b FROM duo)",
    "(SELECT 1 AS a) AS tri",
    "(tri JOIN duo ON tri.a = duo.a)",
    "(duo LEFT JOIN aux.tri ON duo.a = z)",
];
const LINKS: [(&str, &str); 11] = [
    (", ", ""),
    (" JOIN ", " ON 0 = 0"),
    (" INNER JOIN ", " ON tri.a = 1"),
    (" LEFT JOIN ", " USING (a)"),
    (" RIGHT OUTER JOIN ", " ON a = 1"),
    (" CROSS JOIN ", " ON x.b = 'c'"),
    (" FULL JOIN ", " USING (a, b)"),
    (" JOIN ", " USING (B)"),
    (" NATURAL JOIN ", " ON 0 = 0"),
    (" LEFT JOIN ", " ON 0"),
    (" RIGHT JOIN ", " ON duo.x = tri.b"),
];
const SHOWN: [&str; 20] = [
    "*", "a", "tri.a", "x.a, x.*", "duo.x", "X.*", "tri.*, 1", "duo.*", "b", "x.b, tri.b", "a AS b, b AS a, 2 AS a", "k", "main.tri.a", "z, tri.z", "c",
    "duo.a + 1 AS k, a", "*; WHERE a = 1", "1 AS a; ORDER BY a, b", "a AS q; GROUP BY a HAVING b = 's'", "tri.b; ORDER BY tri.b, q",
];
pub const FROMS2: u64 = (ITEMS.len() * LINKS.len() * ITEMS.len()) as u64;

fn shown(cat: &Cat, real: &cathlamet::sql::verif::Catalog, from: &str, what: &str, ctx: &mut Ctx, side: u32) -> Res {
    let (cols, rest) = what.split_once("; ").unwrap_or((what, ""));
    both(cat, real, &format!("SELECT {} FROM {} {}", cols, from, rest), ctx, side)
}

pub fn froms2(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let i = all(s, FROMS2 as usize);
    let (n, m) = (ITEMS.len(), LINKS.len());
    let l = LINKS[i / n % m];
    let from = format!("{}{}{}{}", ITEMS[i % n], l.0, ITEMS[i / n / m], l.1);
    let (cat, real) = (cat(), cat().real());
    ctx.case(|| from.clone());
    for w in SHOWN {
        shown(&cat, &real, &from, w, ctx, side)?;
    }
    Ok(())
}

pub fn froms(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let k = 3 + s.upto(1);
    let mut from = s.pick(&ITEMS).to_string();
    for _ in 1..k {
        let l = *s.pick(&LINKS);
        let item = *s.pick(&ITEMS);
        from = match s.upto(3) {
            // the part so far as right operand
            0 if l.1 != "" && from.contains(" JOIN ") && !from.contains(", ") => format!("{}{}({}){}", item, l.0, from, l.1),
            _ => format!("{}{}{}{}", from, l.0, item, l.1),
        };
    }
    let (cat, real) = (cat(), cat().real());
    ctx.case(|| from.clone());
    for w in SHOWN {
        shown(&cat, &real, &from, w, ctx, side)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- WITH
const CTE_NAMES: [&str; 4] = ["w", "tri", "aux", "W"];
const CTE_COLS: [&str; 5] = ["", " (a)", " (b, A)", " (z)", " (c, a)"];
const CTE_QUERIES: [&str; 6] =
    ["SELECT 1 AS a, 's' AS b", "SELECT * FROM w", "SELECT a, b, c FROM tri", "SELECT z AS a FROM aux.tri", "SELECT NULL AS b, a FROM duo", "VALUES (1, 2)"];
const CTE_USES: [&str; 14] = [
    "SELECT * FROM w",
    "SELECT * FROM tri",
    "SELECT * FROM aux.tri",
    "SELECT * FROM main.tri",
    "SELECT w.a, w.b FROM w",
    "SELECT a FROM w UNION SELECT a FROM tri",
    "INSERT INTO duo (a, x) SELECT a, b FROM w",
    "INSERT INTO tri SELECT * FROM tri",
    "INSERT INTO w VALUES (1, 's', CURRENT_DATE)",
    "DELETE FROM tri WHERE c = CURRENT_DATE AND a IN (SELECT a FROM w)",
    "UPDATE duo SET a = (SELECT a FROM w) WHERE x IN w",
    "SELECT * FROM (WITH w AS (SELECT 2 AS c2) SELECT * FROM w) q, w",
    "SELECT (WITH tri AS (SELECT 's' AS s) SELECT s FROM tri), a FROM tri",
    "SELECT * FROM duo LEFT JOIN w USING (a)",
];
const CTE_N: usize = CTE_NAMES.len() * CTE_COLS.len() * CTE_QUERIES.len();
pub const CTES: u64 = CTE_N as u64 + 1;

fn cte(i: usize) -> String {
    let (n, m) = (CTE_NAMES.len(), CTE_COLS.len());
    format!("{}{} AS ({})", CTE_NAMES[i % n], CTE_COLS[i / n % m], CTE_QUERIES[i / n / m])
}

pub fn ctes(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let i = all(s, CTES as usize);
    let (cat, real) = (cat(), cat().real());
    ctx.case(|| if i == CTE_N { String::new() } else { cte(i) });
    for j in 0..CTE_N {
        let with = if i == CTE_N { format!("WITH {}", cte(j)) } else { format!("WITH {}, {}", cte(i), cte(j)) };
        for u in CTE_USES {
            both(&cat, &real, &format!("{} {}", with, u), ctx, side)?;
        }
    }
    Ok(())
}

pub fn ctes3(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let (cat, real) = (cat(), cat().real());
    let k = 3 + s.upto(1);
    let w: Vec<String> = (0..k).map(|_| cte(s.upto(CTE_N as u64 - 1) as usize).replacen(s.pick(&["w", "tri", "aux"]), s.pick(&["v", "w", "u"]), 1)).collect();
    let with = format!("WITH {}", w.join(", "));
    ctx.case(|| with.clone());
    for u in CTE_USES {
        both(&cat, &real, &format!("{} {}", with, u), ctx, side)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- several operands at once
const TEN: [&str; 10] = ["nn", "n", "vn", "v", "NULL", "ln", "dn", "'s'", "(nn, vn)", "nosuch"];
pub const QUADS: u64 = 10_000;

fn digits<'a>(i: usize, of: &[&'a str], k: usize) -> Vec<&'a str> {
    let mut i = i;
    (0..k)
        .map(|_| {
            let d = of[i % of.len()];
            i /= of.len();
            d
        })
        .collect()
}

pub fn tuples(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let d = digits(all(s, QUADS as usize), &TEN, 4);
    let (cat, real) = (fixed_cat(), fixed_cat().real());
    let (l, r) = (format!("({}, {})", d[0], d[1]), format!("({}, {})", d[2], d[3]));
    ctx.case(|| format!("{} ? {}", l, r));
    for t in [
        format!("{} = {}", l, r),
        format!("{} != {}", l, r),
        format!("{} < {}", l, r),
        format!("{} IN ({})", l, r),
        format!("{} IN ({}, (nn, vn))", l, r),
        format!("{} NOT IN (SELECT {}, {} {})", l, d[2], d[3], FROM),
        format!("{} BETWEEN {} AND {}", l, r, r),
        format!("({}, {}, {}) = ({}, 1, {})", d[0], d[1], d[2], d[3], d[0]),
        format!("({}, {}, {}) != ({}, {}, {})", d[0], d[1], d[2], d[0], d[1], d[3]),
        format!("({}, {}, {}) = {}", d[0], d[1], d[2], r),
        format!("({}, {}) = {}", l, d[0], r),
        format!("({}, {}) = ({}, {})", l, d[0], r, d[1]),
        format!("(SELECT {}, {} {}) = {}", d[0], d[1], FROM, r),
    ] {
        both(&cat, &real, &format!("SELECT {} AS r {}", t, FROM), ctx, side)?;
    }
    Ok(())
}

/// two rows, or two operands of a set operation
pub fn rows(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let d = digits(all(s, QUADS as usize), &TEN, 4);
    let (cat, real) = (fixed_cat(), fixed_cat().real());
    ctx.case(|| d.join(" ? "));
    for op in ["UNION", "UNION ALL", "EXCEPT", "INTERSECT"] {
        both(&cat, &real, &format!("SELECT {} AS x, {} AS y {} {} SELECT {} AS p, {} AS x {}", d[0], d[1], FROM, op, d[2], d[3], FROM), ctx, side)?;
        both(&cat, &real, &format!("SELECT {} {} UNION SELECT {} {} {} SELECT {} {} EXCEPT SELECT {} {}", d[0], FROM, d[1], FROM, op, d[2], FROM, d[3], FROM), ctx, side)?;
        both(&cat, &real, &format!("SELECT {} {} {} VALUES ({}), ({})", d[0], FROM, op, d[1], d[2]), ctx, side)?;
        both(&cat, &real, &format!("SELECT {}, {} {} {} SELECT {} {}", d[0], d[1], FROM, op, d[2], FROM), ctx, side)?;
    }
    for t in [
        format!("VALUES ({}, {}), ({}, {})", d[0], d[1], d[2], d[3]),
        format!("VALUES ({}, {}), (1, 's'), ({}, {})", d[0], d[1], d[2], d[3]),
        format!("VALUES ({}, {}), ({}), ({}, 1)", d[0], d[1], d[2], d[3]),
        format!("VALUES ({}, {}, {}), (NULL, NULL, {})", d[0], d[1], d[2], d[3]),
        format!("SELECT * FROM (SELECT {} AS a, {} AS b {}) x JOIN (SELECT {} AS a, {} AS c {}) y USING (a)", d[0], d[1], FROM, d[2], d[3], FROM),
        format!("SELECT * FROM (SELECT {} AS a, {} AS b {}) x LEFT JOIN (SELECT {} AS a, {} AS c {}) y ON x.a = y.a", d[0], d[1], FROM, d[2], d[3], FROM),
        format!("SELECT q.x + 1, q.y || 's' FROM (SELECT {} AS x, {} AS y {} UNION SELECT {}, {} {}) AS q", d[0], d[1], FROM, d[2], d[3], FROM),
        format!("WITH q (x, y) AS (SELECT {}, {} {} UNION SELECT {}, {} {}) SELECT y, x FROM q WHERE x = 1", d[0], d[1], FROM, d[2], d[3], FROM),
        format!("INSERT INTO o (zn, z, dup) SELECT * FROM (SELECT {}, {}, 1 {} UNION SELECT {}, {}, 2 {})", d[0], d[1], FROM, d[2], d[3], FROM),
        format!("UPDATE m SET n = {}, v = {}, l = {} WHERE {}", d[0], d[1], d[2], d[3]),
    ] {
        both(&cat, &real, &t, ctx, side)?;
    }
    Ok(())
}

const EIGHT: [&str; 8] = ["nn", "n", "vn", "NULL", "ln", "l", "(nn, vn)", "nosuch"];
pub const QUINTS: u64 = 8 * 8 * 8 * 8 * 8;

pub fn cases(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let d = digits(all(s, QUINTS as usize), &EIGHT, 5);
    let (cat, real) = (fixed_cat(), fixed_cat().real());
    ctx.case(|| d.join(" ? "));
    for t in [
        format!("CASE WHEN {} THEN {} WHEN {} THEN {} ELSE {} END", d[0], d[1], d[2], d[3], d[4]),
        format!("CASE {} WHEN {} THEN {} WHEN {} THEN {} END", d[0], d[1], d[2], d[3], d[4]),
        format!("CASE {} WHEN {} THEN {} WHEN {} THEN {} ELSE nn END", d[0], d[1], d[2], d[3], d[4]),
        format!("{} IN ({}, {}, {}, {})", d[0], d[1], d[2], d[3], d[4]),
    ] {
        both(&cat, &real, &format!("SELECT {} AS r {}", t, FROM), ctx, side)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- column types
const KINDS: [T; 8] = [T::Numeric, T::Varchar, T::Date, T::Time, T::Timestamp, T::Logical, T::Geometry, T::Numeric];
const JOINS: [&str; 5] = ["JOIN", "INNER JOIN", "LEFT JOIN", "RIGHT OUTER JOIN", "FULL JOIN"];
pub const USINGS: u64 = 7 * 2 * 7 * 2;

pub fn using(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let i = all(s, USINGS as usize);
    let (t, tn, u, un) = (KINDS[i % 7], i / 7 % 2 == 1, KINDS[i / 14 % 7], i / 98 == 1);
    let cat = Cat {
        schemas: vec!["main".into()],
        default: "main".into(),
        tables: vec![
            tab("main", "l", &[("k", t, tn), ("a", T::Numeric, true), ("m", u, un)]),
            tab("main", "r", &[("b", T::Varchar, false), ("K", u, un), ("A", T::Numeric, false)]),
            tab("main", "z", &[("a", u, tn), ("k", t, un), ("y", t, true)]),
        ],
    };
    let real = cat.real();
    ctx.case(|| format!("{:?} {} and {:?} {}", t, tn, u, un));
    for j in JOINS {
        for from in [
            format!("l {} r USING (k)", j),
            format!("l {} r USING (A, k)", j),
            format!("l AS x {} r AS w USING (K, a)", j),
            format!("l {} r USING (k) JOIN z USING (k)", j),
            format!("l JOIN r USING (k, a) {} z USING (k)", j),
            format!("l {} (r JOIN z USING (k)) USING (k)", j),
            format!("z {} (SELECT m AS a, a AS s FROM l) q USING (a)", j),
            format!("l {} r ON l.k = r.k", j),
            format!("l {} r ON m = r.k", j),
        ] {
            for what in ["*", "k", "l.k", "r.*", "a, k, b", "z.y, k", "x.*, k", "s"] {
                both(&cat, &real, &format!("SELECT {} FROM {}", what, from), ctx, side)?;
            }
        }
    }
    for text in [
        "SELECT k FROM l UNION SELECT k FROM r",
        "SELECT k, a FROM l EXCEPT SELECT k, a FROM r",
        "SELECT * FROM l WHERE k IN (SELECT k FROM r)",
        "SELECT k = (SELECT k FROM r) FROM l",
        "SELECT k = m, k != m, k < m, k >= m, (k, m) = (m, k) FROM l",
        "SELECT k BETWEEN m AND m, k IN (m), k IN (k, m) FROM l",
        "SELECT CASE k WHEN m THEN 1 END, CASE WHEN 0 = 0 THEN k ELSE m END FROM l",
        "INSERT INTO r (k, a) SELECT k, a FROM l",
        "INSERT INTO l (m, k, a) SELECT k, k, 1 FROM r",
        "INSERT INTO l SELECT k, 1, k FROM r",
        "INSERT INTO z SELECT m, k, y FROM l JOIN z USING (k)",
        "INSERT INTO r (k) SELECT y FROM z",
        "UPDATE l SET k = m",
        "UPDATE l SET m = k WHERE k = m",
        "UPDATE r SET a = (SELECT a FROM l), k = (SELECT k FROM l)",
        "DELETE FROM l WHERE k IN r",
        "WITH w AS (SELECT k FROM r) DELETE FROM l WHERE k IN w",
        "WITH w (a, b) AS (SELECT k, m FROM l) SELECT a = b, a, b FROM w",
    ] {
        both(&cat, &real, text, ctx, side)?;
    }
    Ok(())
}

pub const TARGETS: u64 = 14 * 34;

/// every column type as target of an assignment and as set
pub fn targets(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let i = all(s, TARGETS as usize);
    let (o, k) = (OPERANDS[i % 34], i / 34);
    let mut cat = fixed_cat();
    cat.tables.push(tab("main", "t", &[("k", KINDS[k % 7], k >= 7)]));
    let mut view = tab("aux", "seen", &[("k", KINDS[k % 7], k >= 7), ("n", T::Numeric, k >= 7)]);
    view.view = true;
    cat.tables.push(view);
    cat.tables.push(tab("aux", "wide", &[("n", T::Numeric, false), ("k", KINDS[k % 7], k >= 7), ("v", T::Varchar, true)]));
    let real = cat.real();
    ctx.case(|| format!("{} and {:?} not null: {}", o, KINDS[k % 7], k >= 7));
    for t in [
        format!("INSERT INTO t VALUES ({})", o),
        format!("INSERT INTO t (K) VALUES ({}), ({})", o, o),
        format!("INSERT INTO t VALUES (NULL), ({})", o),
        format!("INSERT INTO t SELECT {} {}", o, FROM),
        format!("INSERT INTO t (k) SELECT {} AS r {}", o, FROM),
        format!("INSERT INTO t (k) SELECT * FROM (SELECT {} {} UNION SELECT k FROM t)", o, FROM),
        format!("INSERT INTO aux.wide (v, k) SELECT 's', {} {}", o, FROM),
        format!("INSERT INTO aux.wide (k, v) SELECT k, {} {}, t", o, FROM),
        format!("INSERT INTO aux.wide SELECT 1, {}, 's' {}", o, FROM),
        format!("WITH w AS (SELECT {} AS c {}) INSERT INTO t SELECT c FROM w", o, FROM),
        format!("UPDATE t SET k = {}", o),
        format!("UPDATE t SET k = (SELECT {} {})", o, FROM),
        format!("UPDATE aux.wide SET v = 's', k = {}", o),
        format!("WITH w AS (SELECT {} AS c {}) UPDATE t SET k = (SELECT c FROM w)", o, FROM),
        format!("SELECT {} = k, {} IN t {}, t", o, o, FROM),
        format!("SELECT {} NOT IN (SELECT k FROM t) {}", o, FROM),
        format!("SELECT {} IN aux.seen {}", o, FROM),
        format!("SELECT {} IN (SELECT k FROM aux.seen) {}", o, FROM),
        format!("SELECT {} != (SELECT k FROM aux.seen) {}", o, FROM),
        format!("SELECT ({}, 1) = (k, n) {}, aux.seen", o, "FROM one"),
        format!("SELECT * {}, aux.seen AS s1 WHERE s1.k = {}", FROM, o),
        format!("SELECT * FROM t WHERE k BETWEEN {} AND k", o),
        format!("DELETE FROM t WHERE k = {}", o),
        format!("DELETE FROM t WHERE k IN (SELECT {} {})", o, FROM),
        format!("SELECT k FROM t UNION SELECT {} {}", o, FROM),
        format!("SELECT CASE k WHEN {} THEN {} ELSE k END {}, t", o, o, FROM),
        format!("SELECT CASE WHEN {} IS NULL THEN k ELSE {} END {}, t", o, o, FROM),
    ] {
        both(&cat, &real, &t, ctx, side)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- wide
const TYPES: [(T, &str); 6] = [
    (T::Numeric, "1"),
    (T::Varchar, "'s'"),
    (T::Date, "CURRENT_DATE"),
    (T::Time, "TIME 't'"),
    (T::Timestamp, "CURRENT_TIMESTAMP"),
    (T::Logical, "0 = 0"),
];

/// a statement with `n` parts of one kind, of which part `bad` may be wrong
pub fn wide_text(s: &mut Src, n: usize, bad: Option<usize>) -> (Cat, String) {
    let shape = s.upto(28);
    shaped_text(s, n, bad, shape)
}

fn shaped_text(s: &mut Src, n: usize, bad: Option<usize>, shape: u64) -> (Cat, String) {
    let name = |i: usize| format!("c{}", i);
    let not_null = |i: usize| i % 3 != 1;
    let w = |name: &str| Table {
        schema: "main".into(),
        name: name.into(),
        cols: (0..n).map(|i| (format!("c{}", i), TYPES[i % 6].0, not_null(i))).collect(),
        view: false,
    };
    let cat = Cat { schemas: vec!["main".into()], default: "main".into(), tables: vec![w("wide"), w("wide2"), tab("main", "one", &[("q", T::Numeric, true)])] };
    let is_bad = |i: usize| bad == Some(i);
    let (t, v) = TYPES[s.upto(5) as usize];
    let other = if t == T::Numeric { "'x'" } else { "7" };
    let val = |i: usize| if is_bad(i) { other } else { v };
    let own = |i: usize| if is_bad(i) { if i % 6 == 0 { "'x'" } else { "7" } } else { TYPES[i % 6].1 };
    let join = |sep: &str, f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(sep);
    let mut order: Vec<usize> = (0..n).collect();
    if s.coin() {
        for i in 1..n {
            let j = s.upto(i as u64) as usize;
            order.swap(i, j);
        }
    }
    let pick = |sep: &str, f: &dyn Fn(usize) -> String| order.iter().map(|i| f(*i)).collect::<Vec<_>>().join(sep);
    let text = match shape {
        0 => format!("SELECT {} FROM wide", pick(", ", &|i| if is_bad(i) { "nosuch".into() } else { name(i) })),
        1 => format!("SELECT {}", join(", ", &|i| format!("{} AS {}", if is_bad(i) { "-'x'" } else { own(i) }, ["k", "k", "m"][i % 3]))),
        2 => format!("VALUES {}", join(", ", &|i| format!("({}, 1)", val(i)))),
        3 => format!("VALUES {}", join(", ", &|i| if is_bad(i) { format!("({}, 1, 2)", v) } else { format!("({}, 1)", v) })),
        4 => format!("VALUES ({}), ({})", join(", ", &|i| TYPES[i % 6].1.into()), join(", ", &|i| own(i).into())),
        5 => format!("SELECT CASE {} END", join(" ", &|i| format!("WHEN {} THEN {}", if is_bad(i) { "1" } else { "0 = 0" }, v))),
        6 => format!("SELECT CASE {} ELSE {} END", join(" ", &|i| format!("WHEN 0 = 0 THEN {}", val(i))), v),
        7 => format!("SELECT CASE {} {} ELSE 2 END", v, join(" ", &|i| format!("WHEN {} THEN 1", val(i)))),
        8 => format!("SELECT {} IN ({})", v, join(", ", &|i| val(i).into())),
        9 => format!(
            "WITH {} SELECT * FROM w{}",
            join(", ", &|i| {
                let from = if i == 0 { "wide".to_string() } else { format!("w{}", i - 1) };
                format!("w{} AS (SELECT * FROM {})", i, if is_bad(i) { "nosuch".into() } else { from })
            }),
            n - 1
        ),
        10 => format!(
            "WITH {} SELECT {} FROM {}",
            join(", ", &|i| format!("{} AS (SELECT {} AS k{})", if is_bad(i) { "x0".into() } else { format!("x{}", i) }, TYPES[i % 6].1, i)),
            pick(", ", &|i| format!("x{}.k{}", i, i)),
            pick(", ", &|i| format!("x{}", i))
        ),
        11 => format!(
            "SELECT b.*{} FROM one AS b {}",
            join("", &|i| format!(", w{}.q", i)),
            join(" ", &|i| format!(
                "{} JOIN one AS w{} ON {}",
                ["LEFT", "RIGHT", "INNER", "FULL"][i % 4],
                i,
                if is_bad(i) { format!("w{}.q = b.q", i + 1) } else { format!("w{}.q = b.q", i) }
            ))
        ),
        12 => format!("SELECT {} {}", v, join(" ", &|i| format!("{} SELECT {}", ["UNION", "EXCEPT", "UNION ALL", "INTERSECT"][i % 4], val(i)))),
        13 => format!("SELECT 1 FROM wide WHERE {}", pick(" AND ", &|i| format!("{} = {}", name(i), own(i)))),
        14 => format!("SELECT 1 FROM wide ORDER BY {}", pick(", ", &|i| if is_bad(i) { "nosuch DESC".into() } else { name(i) })),
        15 => format!("SELECT 1 FROM wide GROUP BY {}", pick(", ", &|i| if is_bad(i) { "nosuch".into() } else { name(i) })),
        16 => format!("SELECT (1, {}) = (1, {})", join(", ", &|i| TYPES[i % 6].1.into()), join(", ", &|i| own(i).into())),
        17 => format!("INSERT INTO wide VALUES ({})", join(", ", &|i| own(i).into())),
        18 => format!("INSERT INTO wide ({}) VALUES ({})", pick(", ", &|i| name(i)), pick(", ", &|i| own(i).into())),
        19 => {
            // one column is missing
            let left: Vec<usize> = order.iter().copied().filter(|i| n == 1 || !is_bad(*i)).collect();
            let l = |f: &dyn Fn(usize) -> String| left.iter().map(|i| f(*i)).collect::<Vec<_>>().join(", ");
            format!("INSERT INTO wide ({}) SELECT {} FROM wide2", l(&name), l(&name))
        }
        20 => {
            // one column is listed again
            let again = |f: &dyn Fn(usize) -> String| bad.map(|b| format!(", {}", f(b))).unwrap_or_default();
            format!("INSERT INTO wide ({}{}) VALUES ({}{})", pick(", ", &|i| name(i)), again(&name), pick(", ", &|i| TYPES[i % 6].1.into()), again(&|i| TYPES[i % 6].1.into()))
        }
        21 => {
            let again = bad.map(|b| format!(", {} = {}", name(b), TYPES[b % 6].1)).unwrap_or_default();
            format!("UPDATE wide SET {}{}", pick(", ", &|i| format!("{} = {}", name(i), TYPES[i % 6].1)), again)
        }
        22 => format!("UPDATE wide SET {} WHERE c0 = 1", pick(", ", &|i| format!("{} = {}", name(i), own(i)))),
        23 => format!("SELECT * FROM wide {}JOIN wide2 USING ({})", s.pick(&["", "LEFT ", "FULL "]), pick(", ", &|i| if is_bad(i) { "nosuch".into() } else { name(i) })),
        24 => format!("SELECT * FROM {}", join(", ", &|i| if is_bad(i) { "one".into() } else if i == 0 { "one".to_string() } else { format!("one AS w{}", i) })),
        25 => format!(
            "WITH w ({}) AS (SELECT * FROM wide) SELECT * FROM w",
            pick(", ", &|i| if is_bad(i) { "nosuch".into() } else { name(i) })
        ),
        26 => {
            let mut q = "SELECT q FROM one".to_string();
            for i in 0..n {
                q = format!("SELECT {} FROM ({}) AS d{}", if is_bad(i) { "one.q" } else { "q" }, q, i);
            }
            q
        }
        // sets and scalars of many columns
        28 => {
            let q = format!("SELECT {} FROM wide", pick(", ", &|i| name(i)));
            s.pick(&["SELECT 1 IN (@)", "SELECT 1 FROM one WHERE q IN wide", "SELECT 1 IN (SELECT * FROM wide)", "SELECT (@) + 1", "SELECT q FROM one WHERE q = (@)", "VALUES ((SELECT * FROM wide)), (1)", "INSERT INTO one VALUES ((@))", "INSERT INTO one @", "SELECT 1 UNION @", "UPDATE one SET q = (@)", "SELECT 1 LIMIT (@)", "WITH w (a) AS (@) SELECT a FROM w", "SELECT (@) = (@)"]).replace('@', &q)
        }
        _ => {
            let (op, u, v, x) = *s.pick(&[("+", "1", "q", "'s'"), ("-", "1.5", "q", "0 = 0"), ("||", "'s'", "'t'", "1"), ("OR", "0 = 0", "q = 1", "1"), ("*", "2", "q", "NULL = 1")]);
            format!("SELECT {} {} {} FROM one", u, op, join(&format!(" {} ", op), &|i| if is_bad(i) { x.into() } else { v.into() }))
        }
    };
    (cat, text)
}

pub fn wide(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let n = 1 + s.len(69);
    let bad = match side {
        24 => s.chance(9, 10),
        _ => s.chance(1, 10),
    };
    let bad = if bad { Some(s.upto(n as u64 - 1) as usize) } else { None };
    let (cat, text) = wide_text(s, n, bad);
    ctx.case(|| text.clone());
    both(&cat, &cat.real(), &text, ctx, side)
}

pub fn wide_total(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + s.len(199);
    let bad = if s.coin() { Some(s.upto(n as u64 - 1) as usize) } else { None };
    let (cat, text) = wide_text(s, n, bad);
    ctx.case(|| text.clone());
    ctx.nontrivial = n > 8;
    class_of(&cat, &text)
}

// ---------------------------------------------------------------- assignments of one value to several columns
pub const ASSIGNS: u64 = 84;

pub fn assigns(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let columns = &lists(&COLS, 3)[1 + all(s, ASSIGNS as usize)];
    let list = columns.join(", ");
    let mut cat = cat();
    // like tri, but all its columns are of one type
    cat.tables.push(tab("main", "same", &[("a", T::Numeric, true), ("b", T::Numeric, false), ("c", T::Numeric, true), ("d", T::Numeric, false)]));
    let real = cat.real();
    ctx.case(|| list.clone());
    for table in ["same", "tri"] {
        for v in ["1", "'s'", "NULL", "a", "b", "(1, 2)", "(SELECT a FROM duo)", "1 + d"] {
            let text = format!("UPDATE {} SET {} = {}", table, list, v);
            both(&cat, &real, &text, ctx, side)?;
            for more in ["a = 1", "B = NULL", "c = 2", "d = b", "a, d = 1", "d, d = 1"] {
                both(&cat, &real, &format!("{}, {} WHERE a = 1", text, more), ctx, side)?;
                both(&cat, &real, &format!("UPDATE {} SET {}, {} = {}", table, more, list, v), ctx, side)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- every combination of clauses, everywhere
const QUERY_COLS: [(&str, &str, &str); 10] = [
    // columns, of the second operand of a set operation, unlike both
    ("a", "x", "'s'"),
    ("n", "x", "DATE 'd'"),
    ("b AS r", "NULL", "1"),
    ("NULL", "'s'", "1, 2"),
    ("p.*", "1, 's', CURRENT_DATE, 2", "1, 2, 3, 4"),
    ("a, a", "1, 2", "1, 's'"),
    ("n, a", "x, NULL", "1"),
    ("COUNT", "1", "0 = 0"),
    ("a = 1", "n = 1", "TIME 't'"),
    ("*", "1, 's', CURRENT_DATE, 2, 3, 4", "1, 's', 2, CURRENT_DATE, 3, 4"),
];
const FLAWS: usize = 12;
pub const CLAUSES: u64 = (128 * QUERY_COLS.len() * FLAWS) as u64;

pub fn clauses(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let i = all(s, CLAUSES as usize);
    let (mask, cols, flaw) = (i % 128, QUERY_COLS[i / 128 % QUERY_COLS.len()], i / 128 / QUERY_COLS.len());
    let mut cat = cat();
    cat.tables.push(tab("main", "p", &[("a", T::Numeric, true), ("b", T::Varchar, true), ("d", T::Date, false), ("n", T::Numeric, false)]));
    cat.tables.push(tab("main", "q", &[("x", T::Numeric, true), ("count", T::Numeric, false)]));
    cat.tables.push(tab("main", "k", &[("v", T::Numeric, false)]));
    let on = |bit: usize| mask >> bit & 1 == 1;
    // flaws beyond what the clauses that are present can have
    let needs = [None, None, None, Some(0), Some(2), Some(3), Some(3), Some(4), Some(5), Some(6), Some(6), Some(4)];
    if needs[flaw].map_or(false, |b| !on(b)) || (flaw != 0 && side == 25) {
        return Ok(());
    }
    let is = |k: usize| flaw == k;
    let mut q = String::new();
    if on(0) {
        q += &format!("WITH w (y) AS (SELECT a AS y FROM {}) ", if is(3) { "nosuch" } else { "p" });
    }
    q += if on(1) { "SELECT DISTINCT " } else { "SELECT " };
    q += &if is(1) { format!("{}, p.nosuch", cols.0).replace("*, ", "a, ") } else { cols.0.to_string() };
    q += if is(2) { " FROM p, q, nosuch" } else { " FROM p, q" };
    if on(2) {
        q += if is(4) { " WHERE a + 1" } else { " WHERE q.x < a" };
    }
    if on(3) {
        q += if is(5) { " GROUP BY a, w.a" } else { " GROUP BY b, p.a" };
        q += if is(6) { " HAVING 1" } else { " HAVING a = 1" };
    }
    if on(4) {
        q += &format!(" UNION SELECT {} FROM q{}", if is(7) { cols.2 } else { cols.1 }, if is(11) { " WHERE a = 1" } else { "" });
    }
    if on(5) {
        q += if is(8) { " ORDER BY 1, nosuch DESC" } else { " ORDER BY 1, 's' DESC" };
    }
    if on(6) {
        q += if is(9) { " LIMIT 's' OFFSET 2" } else if is(10) { " LIMIT 1 OFFSET a" } else { " LIMIT 1 OFFSET 2" };
    }
    ctx.case(|| q.clone());
    let real = cat.real();
    for t in [
        q.clone(),
        format!("EXPLAIN QUERY PLAN {}", q),
        format!("SELECT 1 IN ({})", q),
        format!("SELECT v NOT IN ({}), v FROM k", q),
        format!("SELECT NULL IN ({})", q),
        format!("SELECT 's' IN ({}) FROM k WHERE v = 1", q),
        format!("SELECT ({}) AS r FROM k", q),
        format!("SELECT ({}) = 1, ({}) || 's'", q, q),
        format!("SELECT ({}) IS NULL", q),
        format!("SELECT * FROM ({}) AS d", q),
        format!("SELECT d.*, v FROM k, ({}) d ORDER BY 1", q),
        format!("SELECT * FROM k LEFT JOIN ({}) AS d ON v = 1", q),
        format!("WITH z AS ({}) SELECT * FROM z", q),
        format!("WITH z AS ({}), y AS (SELECT * FROM z) SELECT * FROM k, y", q),
        format!("WITH z (a) AS ({}) SELECT a, z.a + 1 FROM z", q),
        format!("SELECT 1 FROM k WHERE v IN ({})", q),
        format!("SELECT 1 FROM k GROUP BY v HAVING v = ({})", q),
        format!("SELECT 1 FROM k JOIN k AS l ON l.v IN ({})", q),
        format!("SELECT 1 FROM k ORDER BY ({})", q),
        format!("SELECT 1 FROM k LIMIT ({})", q),
        format!("VALUES (({})), (1)", q),
        format!("SELECT CASE WHEN v IN ({}) THEN 1 ELSE ({}) END FROM k", q, q),
        format!("SELECT v BETWEEN 0 AND ({}) FROM k", q),
        format!("UPDATE k SET v = ({})", q),
        format!("UPDATE k SET v = 1 WHERE v IN ({})", q),
        format!("DELETE FROM k WHERE v = ({})", q),
        format!("INSERT INTO k VALUES (({}))", q),
        format!("INSERT INTO k SELECT * FROM ({})", q),
        format!("INSERT INTO k {}", q),
        format!("WITH z AS ({}) INSERT INTO k SELECT * FROM z", q),
        format!("WITH z AS ({}) UPDATE k SET v = 1 WHERE v IN z", q),
        format!("WITH z AS ({}) DELETE FROM k WHERE 's' IN z", q),
    ] {
        // an INSERT takes no clauses that come after a set operation
        if parse_text(&t).is_some() {
            both(&cat, &real, &t, ctx, side)?;
        } else if !t.starts_with("INSERT INTO k") {
            panic!("harness bug: not a statement: {}", t);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- hundreds and thousands of parts
/// shapes of `wide_text` whose nesting and cost do not grow with the number of parts
const FLAT: [u64; 22] = [28, 0, 1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25];

const SIZES: [usize; 8] = [17, 128, 256, 257, 600, 1024, 1500, 2049];
pub const HUGES: u64 = (FLAT.len() * SIZES.len()) as u64;

/// every shape in several sizes
fn huge_case(s: &mut Src) -> (u64, usize) {
    let i = all(s, HUGES as usize);
    (FLAT[i % FLAT.len()], SIZES[i / FLAT.len()])
}

pub fn huges(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let (shape, n) = huge_case(s);
    let bads = if side == 24 { vec![Some(n - 1), Some(n / 2)] } else { vec![None] };
    for bad in bads {
        let (cat, text) = shaped_text(s, n, bad, shape);
        ctx.case(|| text.clone());
        both(&cat, &cat.real(), &text, ctx, side)?;
    }
    Ok(())
}

pub fn huges_statement(s: &mut Src) -> String {
    let (shape, n) = huge_case(s);
    shaped_text(s, n, None, shape).1
}

pub fn huges_total(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (shape, n) = huge_case(s);
    for bad in [None, Some(n - 1)] {
        let (cat, text) = shaped_text(s, n, bad, shape);
        ctx.case(|| text.clone());
        ctx.nontrivial = true;
        class_of(&cat, &text)?;
    }
    Ok(())
}

fn huge_text(s: &mut Src, bad: u64) -> (Cat, String, usize) {
    let n = match s.weighted(&[2, 2, 1]) {
        0 => s.range(254, 258),
        1 => s.range(200, 1100),
        _ => s.range(1000, 2200),
    };
    let bad = if s.chance(bad, 10) {
        Some(match s.upto(2) {
            0 => n - 1,
            1 => n - 1 - s.upto(n as u64 / 4) as usize,
            _ => s.upto(n as u64 - 1) as usize,
        })
    } else {
        None
    };
    let shape = *s.pick(&FLAT);
    let (cat, text) = shaped_text(s, n, bad, shape);
    (cat, text, n)
}

pub fn huge(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let (cat, text, n) = huge_text(s, if side == 24 { 9 } else { 1 });
    ctx.label(if n > 1000 { "more than 1000 parts" } else { "200 to 1000 parts" });
    ctx.case(|| text.clone());
    both(&cat, &cat.real(), &text, ctx, side)
}

pub fn huge_total(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (cat, text, _) = huge_text(s, 5);
    ctx.case(|| text.clone());
    ctx.nontrivial = true;
    class_of(&cat, &text)
}

pub fn huge_statement(s: &mut Src) -> (String, usize) {
    let (_, text, n) = huge_text(s, 0);
    (text, n)
}
