//! C24..C26: type checking of SQL statements.

use crate::engine::*;
use crate::ensure;
use crate::sql_ast::*;
use crate::sql_gen::*;
use crate::sql_parse::clip;
use crate::sql_small::*;
use crate::sql_types::*;
use cathlamet::sql::verif as hook;
use hook::Checked;

pub fn check(cat: &hook::Catalog, default: &str, text: &str) -> Result<Checked, Fail> {
    no_panic("type check", || cat.check(default, text)).map_err(|mut f| {
        f.msg = format!("{} on {:?}", f.msg, clip(text));
        f
    })
}

pub fn print(s: &mut Src, st: &Stmt) -> String {
    let t = tokens(s, st, false);
    layout(s, &t, 0)
}

fn must_refuse(cat: &Cat, real: &hook::Catalog, text: &str, why: &str) -> Res {
    match check(real, &cat.default, text)? {
        Checked::Refused(_) => Ok(()),
        Checked::Syntax(e) => fail("syntax", format!("{:?} is not parsed: {}", clip(text), e)),
        Checked::Accepted(c) => fail(
            "accepts",
            format!("ill-typed statement accepted: {:?}\n ({})\n with {:?}\n catalog {} (default {})", clip(text), why, c, cat.text(), cat.default),
        ),
    }
}

fn must_accept(cat: &Cat, real: &hook::Catalog, text: &str, want: &Option<Vec<Column>>) -> Res {
    let tail = || format!("catalog {} (default {})", cat.text(), cat.default);
    match (check(real, &cat.default, text)?, want) {
        (Checked::Syntax(e), _) => fail("syntax", format!("{:?} is not parsed: {}", clip(text), e)),
        (Checked::Refused(e), _) => fail("refuses", format!("well-typed statement refused: {:?}\n {}\n {}", clip(text), e, tail())),
        (Checked::Accepted(None), None) => Ok(()),
        (Checked::Accepted(Some(got)), Some(want)) => {
            ensure!(
                got.len() == want.len(),
                "columns",
                "{:?}\n has {} result columns {:?}, expected {}\n {}",
                clip(text),
                got.len(),
                got,
                want.len(),
                tail()
            );
            for (i, (w, g)) in want.iter().zip(&got).enumerate() {
                if let Err(e) = column_matches(w, g) {
                    return fail("column", format!("column {} of {:?}\n {}\n {}", i, clip(text), e, tail()));
                }
                ensure!(
                    !got[..i].iter().any(|o| up(&o.0) == up(&g.0)),
                    "duplicate",
                    "result of {:?} has two columns {:?}\n {}",
                    clip(text),
                    g.0,
                    tail()
                );
            }
            Ok(())
        }
        (Checked::Accepted(got), want) => fail("kind", format!("{:?} yields {:?}, expected {:?}\n {}", clip(text), got, want, tail())),
    }
}

/// number of columns with a definite answer on names, types and nullability
fn definite(c: &Option<Vec<Column>>) -> bool {
    match c {
        None => true,
        Some(c) => c.iter().any(|c| c.t.is_some() && c.n != N::Free),
    }
}

pub fn typed(s: &mut Src, cat: &Cat) -> Stmt {
    let fuel = *s.pick(&[6, 12, 25, 50]);
    TG { s, cat, fuel }.stmt()
}

/// for work on the generators: PBT_TRACE names a file that receives what was not judged
fn trace(kind: &str, why: &str, text: &str, cat: &Cat) {
    if let Ok(f) = std::env::var("PBT_TRACE") {
        use std::io::Write;
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(f) {
            let _ = f.write_all(format!("{} {} # {} # {}\n", kind, why, text, cat.text()).as_bytes());
        }
    }
}

/// judge one statement; `side`: 24 or 25
fn judge(cat: &Cat, text: &str, ctx: &mut Ctx, side: u32) -> Res {
    let st = match parse_text(text) {
        Some(s) => s,
        None => panic!("harness bug: generated text is no statement: {}", text),
    };
    ctx.case(|| format!("{} | {}", text, cat.text()));
    match (verdict(cat, &st), side) {
        (Verdict::Refuse(why), 24) => {
            ctx.nontrivial = true;
            ctx.label("ill-typed");
            must_refuse(cat, &cat.real(), text, &why)
        }
        (Verdict::Accept(cols), 25) => {
            ctx.nontrivial = weight(&dump(&st)) >= 5 && definite(&cols);
            ctx.label(match &st {
                Stmt::Select(_) => "select",
                Stmt::Insert { .. } => "insert",
                Stmt::Update { .. } => "update",
                Stmt::Delete { .. } => "delete",
                _ => "other",
            });
            must_accept(cat, &cat.real(), text, &cols)
        }
        (Verdict::Open(w), _) => {
            trace("OPEN", &w, text, cat);
            ctx.label("open");
            Ok(())
        }
        (Verdict::Refuse(w), _) => {
            trace("REFUSE", &w, text, cat);
            ctx.label("other verdict");
            Ok(())
        }
        _ => {
            ctx.label("other verdict");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C24
fn mutated(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let cat = gen_cat(s);
    let mut st = typed(s, &cat);
    let k = 1 + s.weighted(&[6, 2, 1]);
    for _ in 0..k {
        mutate(s, &cat, &mut st);
    }
    let text = print(s, &st);
    judge(&cat, &text, ctx, side)
}

fn c24_mutated(s: &mut Src, ctx: &mut Ctx) -> Res {
    mutated(s, ctx, 24)
}

/// one expression of the wrong type in a well-typed statement
fn c24_injected(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cat = gen_cat(s);
    let mut st = typed(s, &cat);
    for _ in 0..20 {
        let mut m = st.clone();
        mutate(s, &cat, &mut m);
        if let Verdict::Refuse(_) = verdict(&cat, &m) {
            st = m;
            break;
        }
    }
    let text = print(s, &st);
    judge(&cat, &text, ctx, 24)
}

// ---------------------------------------------------------------- C25
fn c25_typed(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cat = gen_cat(s);
    let st = typed(s, &cat);
    let text = print(s, &st);
    judge(&cat, &text, ctx, 25)
}

fn c25_mutated(s: &mut Src, ctx: &mut Ctx) -> Res {
    mutated(s, ctx, 25)
}

// ---------------------------------------------------------------- exhaustive matrices
pub fn fixed_cat() -> Cat {
    let c = |n: &str, t: T, nn: bool| (n.to_string(), t, nn);
    let tab = |s: &str, n: &str, cols: Vec<(String, T, bool)>| Table { schema: s.into(), name: n.into(), cols, view: false };
    Cat {
        schemas: vec!["main".into(), "aux".into()],
        default: "main".into(),
        tables: vec![
            tab(
                "main",
                "m",
                vec![
                    c("v", T::Varchar, false),
                    c("vn", T::Varchar, true),
                    c("n", T::Numeric, false),
                    c("nn", T::Numeric, true),
                    c("l", T::Logical, false),
                    c("ln", T::Logical, true),
                    c("d", T::Date, false),
                    c("dn", T::Date, true),
                    c("ti", T::Time, false),
                    c("tin", T::Time, true),
                    c("ts", T::Timestamp, false),
                    c("tsn", T::Timestamp, true),
                    c("ge", T::Geometry, false),
                    c("gen", T::Geometry, true),
                    c("dup", T::Numeric, true),
                ],
            ),
            tab("main", "o", vec![c("dup", T::Numeric, true), c("z", T::Varchar, true), c("zn", T::Numeric, false)]),
            tab("main", "one", vec![c("q", T::Numeric, true)]),
            tab("aux", "ov", vec![c("r", T::Varchar, false)]),
        ],
    }
}

pub const OPERANDS: [&str; 34] = [
    "v", "vn", "n", "nn", "l", "ln", "d", "dn", "ti", "tin", "ts", "tsn", "ge", "gen", "NULL", "'s'", "1.5", "DATE 'd'", "TIME 't'", "TIMESTAMP 't'",
    "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "(n, v)", "(nn, vn)", "(nn, vn, d)", "(SELECT q FROM one)", "(SELECT q, q FROM one)",
    "nosuch", "dup", "m.dup", "o.dup", "one.q", "m.zn",
];
const BINARY: [&str; 15] = ["*", "/", "+", "-", "||", "AND", "OR", "=", "!=", "<", "<=", ">", ">=", "LIKE", "IS NOT NULL AND"];
pub const FROM: &str = "FROM m, o";

pub fn both(cat: &Cat, real: &hook::Catalog, text: &str, ctx: &mut Ctx, side: u32) -> Res {
    let st = match parse_text(text) {
        Some(s) => s,
        None => panic!("harness bug: generated text is no statement: {}", text),
    };
    match (verdict(cat, &st), side) {
        (Verdict::Refuse(why), 24) => {
            ctx.nontrivial = true;
            must_refuse(cat, real, text, &why)
        }
        (Verdict::Accept(cols), 25) => {
            ctx.nontrivial = true;
            must_accept(cat, real, text, &cols)
        }
        (Verdict::Open(w), _) => {
            trace("OPEN", &w, text, cat);
            Ok(())
        }
        _ => Ok(()),
    }
}

fn matrix(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let n = OPERANDS.len();
    let (a, b) = (OPERANDS[i % n], OPERANDS[i / n % n]);
    let cat = fixed_cat();
    let real = cat.real();
    let mut texts: Vec<String> = BINARY.iter().map(|op| format!("SELECT {} {} {} AS r {}", a, op, b, FROM)).collect();
    for neg in ["", "NOT "] {
        texts.push(format!("SELECT {} {}IN ({}) AS r {}", a, neg, b, FROM));
        texts.push(format!("SELECT {} {}IN (SELECT {} {}) AS r {}", a, neg, b, FROM, FROM));
    }
    texts.push(format!("SELECT {}, {} {}", a, b, FROM));
    texts.push(format!("SELECT CASE WHEN {} THEN {} END AS r {}", a, b, FROM));
    texts.push(format!("SELECT CASE WHEN {} THEN 1 ELSE {} END AS r {}", a, b, FROM));
    texts.push(format!("SELECT CASE WHEN ln THEN {} ELSE {} END AS r {}", a, b, FROM));
    texts.push(format!("SELECT CASE WHEN ln THEN {} WHEN l THEN {} ELSE {} END AS r {}", a, a, b, FROM));
    texts.push(format!("SELECT CASE {} WHEN {} THEN 1 ELSE 2 END AS r {}", a, b, FROM));
    texts.push(format!("SELECT CASE {} WHEN {} THEN 1 WHEN {} THEN 3 ELSE 2 END AS r {}", a, a, b, FROM));
    texts.push(format!("SELECT ({}, {}) = ({}, {}) AS r {}", a, b, b, a, FROM));
    texts.push(format!("SELECT ({}, nn) = ({}, nn) AS r {}", a, b, FROM));
    texts.push(format!("SELECT -{} AS r, NOT {} AS s {}", a, b, FROM));
    texts.push(format!("SELECT {} IS NULL AS r, {} IS NOT NULL AS s {}", a, b, FROM));
    texts.push(format!("VALUES ({}), ({})", a, b));
    texts.push(format!("VALUES (1, {}), (2, {}), (3, {})", a, b, a));
    for op in ["UNION", "UNION ALL", "EXCEPT", "INTERSECT"] {
        texts.push(format!("SELECT {} AS r {} {} SELECT {} AS s {}", a, FROM, op, b, FROM));
    }
    texts.push(format!("SELECT 1 {} LIMIT {}, {}", FROM, a, b));
    texts.push(format!("UPDATE m SET n = {} WHERE {}", a, b));
    texts.push(format!("SELECT 1 {} GROUP BY {} HAVING {}", FROM, a, b));
    texts.push(format!("SELECT 1 AS one {} ORDER BY {}, {}", FROM, a, b));
    texts.push(format!("SELECT m.n AS a1 FROM m JOIN o ON {} WHERE {}", a, b));
    ctx.case(|| format!("{} ? {}", a, b));
    for t in texts {
        both(&cat, &real, &t, ctx, side)?;
    }
    Ok(())
}

/// BETWEEN and lists: three operands
fn ternary(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let n = OPERANDS.len();
    let (a, b, c) = (OPERANDS[i % n], OPERANDS[i / n % n], OPERANDS[i / n / n % n]);
    let cat = fixed_cat();
    let real = cat.real();
    ctx.case(|| format!("{} ? {} ? {}", a, b, c));
    for t in [
        format!("SELECT {} BETWEEN {} AND {} AS r {}", a, b, c, FROM),
        format!("SELECT {} NOT IN ({}, {}) AS r {}", a, b, c, FROM),
        format!("SELECT CASE {} WHEN {} THEN nn ELSE {} END AS r {}", a, b, c, FROM),
        format!("SELECT CASE WHEN ln THEN {} WHEN ln THEN {} ELSE {} END AS r {}", a, b, c, FROM),
        format!("VALUES ({}), ({}), ({})", a, b, c),
    ] {
        both(&cat, &real, &t, ctx, side)?;
    }
    Ok(())
}

const EXPR_HOLES: [&str; 34] = [
    "@", "-@", "NOT @", "@ IS NULL", "@ IS NOT NULL", "@ + nn", "nn / @", "nn - 2 * @", "@ || vn", "vn || @", "@ AND ln", "ln OR @", "@ = nn", "vn != @",
    "@ < dn", "tsn >= @", "@ LIKE vn", "vn LIKE @", "@ IN (1, 2)", "nn IN (1, @, 3)", "nn NOT IN (@)", "@ IN (SELECT q FROM one)", "@ IN one",
    "@ IN aux.ov", "nn IN (SELECT @)", "@ BETWEEN 1 AND 2", "nn BETWEEN @ AND nn", "nn NOT BETWEEN nn AND @", "CASE WHEN @ THEN 1 ELSE 2 END",
    "CASE WHEN ln THEN @ ELSE 'a' END", "CASE WHEN ln THEN 1 ELSE @ END", "CASE @ WHEN 1 THEN 2 ELSE 3 END", "CASE vn WHEN @ THEN 1 END", "(SELECT @)",
];

const STMT_HOLES: [&str; 40] = [
    "SELECT @ AS r FROM m, o",
    "SELECT nn, @ FROM m, o",
    "SELECT 1 FROM m, o WHERE @",
    "SELECT 1 FROM m, o WHERE ln AND NOT (@)",
    "SELECT 1 FROM m, o GROUP BY @",
    "SELECT 1 FROM m, o GROUP BY nn, @",
    "SELECT 1 FROM m, o GROUP BY nn HAVING @",
    "SELECT 1 AS k FROM m, o ORDER BY @",
    "SELECT 1 AS k FROM m, o ORDER BY nn, @ DESC",
    "SELECT 1 FROM m, o LIMIT @",
    "SELECT 1 FROM m, o LIMIT 1, @",
    "SELECT 1 FROM m, o LIMIT 5 OFFSET @",
    "SELECT 1 FROM m JOIN o ON @",
    "SELECT 1 FROM m LEFT JOIN o ON ln JOIN one ON @",
    "SELECT 1 FROM one JOIN (m JOIN o ON @) ON TRUE_ = 1",
    "SELECT * FROM (SELECT @ AS c1 FROM m, o) AS w",
    "SELECT w.c1 FROM (SELECT @ AS c1 FROM m, o) w",
    "SELECT c1 + 1 FROM (SELECT @ AS c1 FROM m, o) w",
    "SELECT 1 FROM (SELECT nn FROM m, o WHERE @) AS w",
    "WITH w AS (SELECT @ AS c1 FROM m, o) SELECT c1 FROM w",
    "WITH w AS (SELECT @ AS c1 FROM m, o) SELECT 1",
    "WITH w(c1) AS (SELECT 1 AS c0, @ AS c1 FROM m, o), x AS (SELECT * FROM w) SELECT x.c1 || 'a' FROM x",
    "SELECT 1 UNION SELECT @ FROM m, o",
    "SELECT @ FROM m, o EXCEPT SELECT nn FROM m",
    "SELECT nn FROM m INTERSECT SELECT nn FROM m UNION ALL SELECT @ FROM m, o",
    "SELECT 1 WHERE 1 IN (SELECT @ FROM m, o)",
    "SELECT (SELECT @ FROM m, o) AS r",
    "SELECT 1 FROM m, o WHERE nn = (SELECT nn FROM m, o WHERE @)",
    "INSERT INTO one VALUES (@)",
    "INSERT INTO one SELECT @ FROM m, o",
    "INSERT INTO o (zn, dup, z) SELECT nn, @, vn FROM m, o",
    "INSERT INTO o (zn, dup, z) SELECT @, nn, vn FROM m, o",
    "INSERT INTO o (zn, dup, z) SELECT 1, 2, @ FROM m, o",
    "WITH w AS (SELECT @ AS c1 FROM m, o) INSERT INTO one SELECT c1 FROM w",
    "DELETE FROM m WHERE @",
    "UPDATE m SET nn = @",
    "UPDATE m SET v = 'a', ge = @ WHERE ln",
    "UPDATE m SET v = 'a' WHERE @",
    "EXPLAIN QUERY PLAN SELECT nn, @ AS r FROM m, o",
    "WITH w AS (SELECT nn FROM m, o WHERE @) DELETE FROM one WHERE q IN w",
];

fn holes(s: &mut Src, ctx: &mut Ctx, side: u32) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let (n, m) = (EXPR_HOLES.len(), STMT_HOLES.len());
    let (e, st) = (EXPR_HOLES[i % n], STMT_HOLES[i / n % m]);
    let cat = fixed_cat();
    let real = cat.real();
    ctx.case(|| st.replace('@', e));
    for o in OPERANDS {
        let t = st.replace('@', &e.replace('@', o));
        both(&cat, &real, &t, ctx, side)?;
        let t = st.replace('@', &format!("({})", e.replace('@', o)));
        both(&cat, &real, &t, ctx, side)?;
    }
    Ok(())
}

/// accepted or refused, in any letter case
pub fn class_of(cat: &Cat, text: &str) -> Res {
    if parse_text(text).is_none() {
        panic!("harness bug: generated text is no statement: {}", text);
    }
    let real = cat.real();
    let a = class(check(&real, &cat.default, text)?);
    let b = class(check(&real, &cat.default.to_uppercase(), &text.to_ascii_lowercase())?);
    ensure!(a == b, "case", "{:?}\n yields {:?}, in lower case {:?}", clip(text), a, b);
    Ok(())
}

macro_rules! sides {
    ($($name:ident $f:ident $side:expr;)*) => { $(fn $name(s: &mut Src, ctx: &mut Ctx) -> Res { $f(s, ctx, $side) })* };
}
sides! {
    c24_matrix matrix 24; c25_matrix matrix 25;
    c24_ternary ternary 24; c25_ternary ternary 25;
    c24_holes holes 24; c25_holes holes 25;
    c24_inserts inserts 24; c25_inserts inserts 25;
    c24_updates updates 24; c25_updates updates 25;
    c24_froms2 froms2 24; c25_froms2 froms2 25;
    c24_froms froms 24; c25_froms froms 25;
    c24_ctes ctes 24; c25_ctes ctes 25;
    c24_ctes3 ctes3 24; c25_ctes3 ctes3 25;
    c24_wide wide 24; c25_wide wide 25;
    c24_huge huge 24; c25_huge huge 25;
    c24_huges huges 24; c25_huges huges 25;
    c24_assigns assigns 24; c25_assigns assigns 25;
    c24_clauses clauses 24; c25_clauses clauses 25;
    c24_tuples tuples 24; c25_tuples tuples 25;
    c24_cases cases 24; c25_cases cases 25;
    c24_rows rows 24; c25_rows rows 25;
    c24_using using 24; c25_using using 25;
    c24_targets targets 24; c25_targets targets 25;
}

// ---------------------------------------------------------------- C26
const CAT_NAMES: [&str; 16] = ["a", "b", "C", "x", "y_1", "t1", "u", "Total", "T2", "Orders", "main", "Aux", "p", "q", "id", "nosuch"];

#[derive(Debug, PartialEq)]
pub enum Class {
    Refused,
    Done,
    Columns(Vec<(String, T, bool)>),
}

pub fn class(c: Checked) -> Class {
    match c {
        Checked::Syntax(e) => panic!("harness bug: statement not parsed: {}", e),
        Checked::Refused(_) => Class::Refused,
        Checked::Accepted(None) => Class::Done,
        Checked::Accepted(Some(c)) => Class::Columns(c.into_iter().map(|c| (up(&c.0), c.1, c.2)).collect()),
    }
}

/// the same statement with other letter case in all identifiers
fn other_case(s: &mut Src, toks: &[Tk]) -> Vec<Tk> {
    toks.iter()
        .map(|t| match t {
            Tk::Id(n) => Tk::Id(match s.upto(2) {
                0 => n.to_ascii_uppercase(),
                1 => n.to_ascii_lowercase(),
                _ => n.chars().map(|c| if s.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            }),
            t => t.clone(),
        })
        .collect()
}

pub fn messy_cat(s: &mut Src) -> Cat {
    let mut cat = gen_cat(s);
    match s.weighted(&[6, 1, 1, 1, 1]) {
        1 => cat.default = "missing".into(),
        2 => cat = Cat { schemas: vec!["main".into()], default: "main".into(), tables: vec![] },
        3 => {
            // a table without columns
            if !cat.tables.is_empty() {
                let k = s.upto(cat.tables.len() as u64 - 1) as usize;
                cat.tables[k].cols.clear();
            }
        }
        4 => {
            // a table with a repeated column
            if !cat.tables.is_empty() {
                let k = s.upto(cat.tables.len() as u64 - 1) as usize;
                if let Some(c) = cat.tables[k].cols.first().cloned() {
                    let n = recase(s, &c.0);
                    cat.tables[k].cols.push((n, T::Varchar, false));
                }
            }
        }
        _ => {}
    }
    cat
}

fn c26_any(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cat = messy_cat(s);
    let st = if s.chance(1, 3) {
        let usable = cat.tables.iter().all(|t| !t.cols.is_empty());
        if !usable {
            cat.tables.retain(|t| !t.cols.is_empty());
        }
        let mut st = typed(s, &cat);
        for _ in 0..s.weighted(&[2, 3, 3, 1]) {
            mutate(s, &cat, &mut st);
        }
        st
    } else {
        let fuel = *s.pick(&[4, 8, 16, 40]);
        Gen { s, fuel, names: &CAT_NAMES }.stmt()
    };
    let toks = tokens(s, &st, false);
    let text = layout(s, &toks, 0);
    ctx.nontrivial = weight(&dump(&st)) >= 5;
    ctx.case(|| format!("{} | {}", text, cat.text()));
    let real = cat.real();
    let first = class(check(&real, &cat.default, &text)?);
    ctx.label(match &first {
        Class::Refused => "refused",
        _ => "accepted",
    });
    let again = class(check(&cat.real(), &cat.default, &text)?);
    ensure!(first == again, "deterministic", "{:?}\n yields {:?}\n and then {:?}\n catalog {}", clip(&text), first, again, cat.text());
    // letter case of the statement, and of the catalog
    let toks2 = other_case(s, &toks);
    let text2 = layout(s, &toks2, 3);
    let second = class(check(&real, &cat.default, &text2)?);
    ensure!(
        first == second,
        "case",
        "{:?}\n yields {:?}\n but {:?}\n yields {:?}\n catalog {} (default {})",
        clip(&text),
        first,
        clip(&text2),
        second,
        cat.text(),
        cat.default
    );
    let mut cat3 = cat.clone();
    let flip = |n: &mut String| {
        *n = n.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect()
    };
    cat3.schemas.iter_mut().for_each(flip);
    flip(&mut cat3.default);
    for t in cat3.tables.iter_mut() {
        flip(&mut t.schema);
        flip(&mut t.name);
        t.cols.iter_mut().for_each(|c| flip(&mut c.0));
    }
    let third = class(check(&cat3.real(), &cat3.default, &text)?);
    ensure!(
        first == third,
        "catalog case",
        "{:?}\n yields {:?} over {}\n but {:?} over {}",
        clip(&text),
        first,
        cat.text(),
        third,
        cat3.text()
    );
    // explaining a statement checks it
    if matches!(st, Stmt::Select(_) | Stmt::Insert { .. } | Stmt::Update { .. } | Stmt::Delete { .. }) {
        let text4 = format!("EXPLAIN QUERY PLAN {}", text);
        if parse_text(&text4).is_some() {
            let fourth = class(check(&real, &cat.default, &text4)?);
            ensure!(first == fourth, "explain", "{:?}\n yields {:?}\n explained {:?}\n catalog {}", clip(&text), first, fourth, cat.text());
        }
    }
    Ok(())
}

/// deep and wide statements
fn c26_deep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cat = fixed_cat();
    let n = 1 + s.upto(299) as usize;
    let o = *s.pick(&OPERANDS);
    let k = s.upto(9);
    let nest = |open: &str, mid: &str, close: &str| format!("{}{}{}", open.repeat(n), mid, close.repeat(n));
    let text = match k {
        0 => format!("SELECT {} {}", nest("(", o, " + 1)"), FROM),
        1 => format!("SELECT {} {}", nest("NOT ", o, ""), FROM),
        2 => format!("SELECT {} {}", nest("(SELECT ", o, ")"), FROM),
        3 => format!("SELECT {} {}", nest("CASE WHEN ln THEN ", o, " ELSE 1 END"), FROM),
        4 => format!("{} FROM one {}", nest("SELECT * FROM (", "SELECT q", ")"), ""),
        5 => format!("SELECT {} {}", vec![o; n].join(", "), FROM),
        6 => format!("SELECT 1 FROM {}", (0..n).map(|i| format!("one AS w{}", i)).collect::<Vec<_>>().join(", ")),
        7 => format!("SELECT 1 {}", (0..n).map(|_| format!("UNION SELECT {}", o)).collect::<Vec<_>>().join(" ")),
        8 => format!("SELECT 1 FROM one AS b {}", (0..n).map(|i| format!("LEFT JOIN one AS w{} ON w{}.q = b.q", i, i)).collect::<Vec<_>>().join(" ")),
        _ => format!(
            "WITH {} SELECT * FROM w{}",
            (0..n).map(|i| if i == 0 { format!("w0 AS (SELECT {} {})", o, FROM) } else { format!("w{} AS (SELECT * FROM w{})", i, i - 1) }).collect::<Vec<_>>().join(", "),
            n - 1
        ),
    };
    ctx.case(|| text.clone());
    ctx.nontrivial = n > 20;
    let real = cat.real();
    if parse_text(&text).is_none() {
        return Ok(());
    }
    let a = class(check(&real, "main", &text)?);
    let b = class(check(&real, "MAIN", &text.to_ascii_lowercase())?);
    ensure!(a == b, "case", "{:?}\n yields {:?}, in lower case {:?}", clip(&text), a, b);
    Ok(())
}

const A: &[&str] = &[
    "the catalog has no two objects of one name in a schema and no two columns of one name in an object (C24, C25)",
    "statements whose meaning the grammar and documentation leave open (correlated subqueries, NATURAL JOIN with common columns, ordering of tuples, ...) are not judged",
];

pub fn properties() -> Vec<Property> {
    let nn = OPERANDS.len() as u64;
    let holes_n = (EXPR_HOLES.len() * STMT_HOLES.len()) as u64;
    let arm = |name, quick, thorough, f| Arm { name, quick, thorough, exhaustive: false, f };
    let all = |name, n, f| Arm { name, quick: n, thorough: n, exhaustive: true, f };
    vec![
        Property {
            id: "C24",
            rule: "type-directed random statements with one or more random changes, every pair and triple of 34 operands under every operator, in 34 expression holes and 40 statement holes, every INSERT of up to 3 columns and values, every UPDATE of up to 3 assignments, every pair of 11 relations under 11 joins, every pair of 120 common table expressions, every comparison of two tuples, two rows or two set operands of two items out of ten, every CASE of five items out of eight, every pair of column types joined by USING, every column type as target and as set, longer random ones of both, every UPDATE of several columns from one value, every combination of clauses, columns and flaws in 32 positions, and statements with up to 70 (at random and in set sizes up to 2200) parts of one kind of which one is wrong. Non-trivial: the reference type checker finds a definite type error in the statement",
            assumptions: A,
            arms: vec![
                arm("injected", 40_000, 2_000_000, c24_injected),
                arm("mutated", 40_000, 2_000_000, c24_mutated),
                all("matrix", nn * nn, c24_matrix),
                all("ternary", nn * nn * nn, c24_ternary),
                all("holes", holes_n, c24_holes),
                all("inserts", INSERTS, c24_inserts),
                all("updates", UPDATES, c24_updates),
                all("froms2", FROMS2, c24_froms2),
                all("ctes", CTES, c24_ctes),
                all("tuples", QUADS, c24_tuples),
                all("cases", QUINTS, c24_cases),
                all("rows", QUADS, c24_rows),
                all("using", USINGS, c24_using),
                all("targets", TARGETS, c24_targets),
                all("assigns", ASSIGNS, c24_assigns),
                all("clauses", CLAUSES, c24_clauses),
                arm("huge", 150, 10_000, c24_huge),
                all("huge sizes", HUGES, c24_huges),
                arm("froms", 4_000, 200_000, c24_froms),
                arm("ctes3", 2_000, 100_000, c24_ctes3),
                arm("wide", 8_000, 400_000, c24_wide),
            ],
        },
        Property {
            id: "C25",
            rule: "type-directed random statements and the enumerations described for C24. Non-trivial: the reference type checker accepts the statement, which has at least five nodes and a result column with definite type and nullability",
            assumptions: A,
            arms: vec![
                arm("typed", 60_000, 3_000_000, c25_typed),
                arm("mutated", 30_000, 1_500_000, c25_mutated),
                all("matrix", nn * nn, c25_matrix),
                all("ternary", nn * nn * nn, c25_ternary),
                all("holes", holes_n, c25_holes),
                all("inserts", INSERTS, c25_inserts),
                all("updates", UPDATES, c25_updates),
                all("froms2", FROMS2, c25_froms2),
                all("ctes", CTES, c25_ctes),
                all("tuples", QUADS, c25_tuples),
                all("cases", QUINTS, c25_cases),
                all("rows", QUADS, c25_rows),
                all("using", USINGS, c25_using),
                all("targets", TARGETS, c25_targets),
                all("assigns", ASSIGNS, c25_assigns),
                all("clauses", CLAUSES, c25_clauses),
                arm("huge", 150, 10_000, c25_huge),
                all("huge sizes", HUGES, c25_huges),
                arm("froms", 4_000, 200_000, c25_froms),
                arm("ctes3", 2_000, 100_000, c25_ctes3),
                arm("wide", 8_000, 400_000, c25_wide),
            ],
        },
        Property {
            id: "C26",
            rule: "random statements over random catalogs, nested up to 300 levels or with up to 2200 parts of one kind, checked twice and with other letter case. Non-trivial: at least five nodes (deep: nested more than twenty times; wide: more than eight parts)",
            assumptions: &["nesting of at most 300 levels"],
            arms: vec![arm("any", 60_000, 3_000_000, c26_any), arm("deep", 600, 20_000, c26_deep), arm("wide", 6_000, 200_000, wide_total), arm("huge", 150, 10_000, huge_total), all("huge sizes", HUGES, huges_total)],
        },
    ]
}
