//! C20..C23: SQL parser, names, catalog.

use crate::engine::*;
use crate::ensure;
use crate::sql_ast::*;
use cathlamet::sql::verif as hook;
use std::cmp::Ordering;
use std::collections::BTreeMap;

pub fn real(text: &str) -> Result<Result<String, String>, Fail> {
    no_panic("parse", || hook::parse(text)).map_err(|mut f| {
        f.msg = format!("{} on {:?}", f.msg, clip(text));
        f
    })
}

pub fn clip(s: &str) -> String {
    if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}... ({} bytes)", &s[..e], s.len())
    } else {
        s.to_string()
    }
}

fn compare(text: &str, want: Option<&str>) -> Res {
    let got = real(text)?;
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (Some(w), Ok(g)) => {
            ensure!(g == w, "structure", "{:?}\n parses to {}\n expected  {}", clip(text), clip(&g), clip(w));
            Ok(())
        }
        (None, Ok(g)) => fail("accepts", format!("not a statement but accepted: {:?}\n parsed as {}", clip(text), clip(&g))),
        (Some(w), Err(e)) => fail("refuses", format!("a statement but refused: {:?}\n error {}\n denotes {}", clip(text), clip(&e), clip(w))),
    }
}

// ---------------------------------------------------------------- C20
fn c20_print(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fuel = *s.pick(&[3, 6, 12, 25, 60]);
    let st = gen_stmt(s, fuel);
    let want = dump(&st);
    ctx.nontrivial = weight(&want) >= 6;
    let toks = tokens(s, &st, true);
    let mode = s.upto(3);
    let text = layout(s, &toks, mode);
    ctx.case(|| text.clone());
    if parse(&toks).map(|p| dump(&p)).as_deref() != Some(&want) {
        panic!("harness bug: printer and reference parser disagree on {}", text);
    }
    compare(&text, Some(&want))
}

/// two layouts of one statement that differ in everything that does not count
fn c20_layouts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fuel = *s.pick(&[6, 12, 25]);
    let st = gen_stmt(s, fuel);
    let a = tokens(s, &st, false);
    let b = tokens(s, &st, true);
    let ta = layout(s, &a, 0);
    let tb = layout(s, &b, 3);
    ctx.nontrivial = ta != tb && a.len() > 8;
    ctx.case(|| format!("{} ## {}", ta, tb));
    let (ra, rb) = (real(&ta)?, real(&tb)?);
    ensure!(
        ra.is_ok() && ra.as_ref().ok() == rb.as_ref().ok(),
        "layout",
        "{:?}\n parses to {:?}\n{:?}\n parses to {:?}",
        clip(&ta),
        ra,
        clip(&tb),
        rb
    );
    Ok(())
}

const INFIX: [&str; 22] = [
    "OR", "AND", "=", "!=", "<", ">", "<=", ">=", "LIKE", "+", "-", "||", "*", "/", "IN u.v OR", "NOT IN ( 1 , 2 ) AND", "BETWEEN c AND",
    "NOT BETWEEN - c AND", "IS NULL =", "NOTNULL AND", "IS NOT NULL OR", "NOT NULL <",
];

/// x1 op1 x2 op2 x3 with prefixes and parentheses in all places
fn c20_operators(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let n = INFIX.len();
    let (o1, o2, par, pre) = (i % n, i / n % n, i / n / n % 3, i / n / n / 3 % 4);
    for k in 0..16usize {
        let p = |j: usize| ["", "NOT ", "- ", "+ "][(pre * 16 + k) >> (2 * j) & 3];
        let (a, b) = (INFIX[o1], INFIX[o2]);
        let text = match par {
            0 => format!("SELECT {}x {} {}y {} {}z", p(0), a, p(1), b, p(2)),
            1 => format!("SELECT {}(x {} {}y) {} {}z", p(0), a, p(1), b, p(2)),
            _ => format!("SELECT {}x {} {}(y {} {}z)", p(0), a, p(1), b, p(2)),
        };
        let want = parse_text(&text).map(|x| dump(&x));
        ctx.nontrivial |= want.is_some();
        ctx.case(|| text.clone());
        compare(&text, want.as_deref())?;
    }
    Ok(())
}

/// every character in a string
fn c20_strings(s: &mut Src, ctx: &mut Ctx) -> Res {
    let block = s.upto(u64::MAX) as u32 * 256;
    let text: String = (block..block + 256).filter_map(char::from_u32).filter(|c| !c.is_ascii_control() && *c != '\'').collect();
    if text.is_empty() {
        return Ok(());
    }
    ctx.nontrivial = true;
    ctx.case(|| format!("strings of U+{:04X} and the next 255 characters", block));
    for t in [format!("SELECT '{}'", text), format!("SELECT DATE '{}', TIMESTAMP'{}', TIME '{}'", text, text, text), format!("ATTACH FILE '{}' AS a.b", text)] {
        let want = parse_text(&t).map(|x| dump(&x));
        compare(&t, want.as_deref())?;
    }
    Ok(())
}

/// statements with many parts of one kind
fn c20_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (text, n) = if s.chance(1, 40) {
        crate::sql_small::huge_statement(s)
    } else {
        let n = 1 + s.len(299);
        (crate::sql_small::wide_text(s, n, None).1, n)
    };
    ctx.nontrivial = n > 8;
    ctx.case(|| text.clone());
    let want = parse_text(&text).map(|x| dump(&x));
    if want.is_none() {
        panic!("harness bug: not a statement: {}", text);
    }
    compare(&text, want.as_deref())
}

fn c20_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let text = crate::sql_small::huges_statement(s);
    ctx.nontrivial = true;
    ctx.case(|| text.clone());
    let want = parse_text(&text).map(|x| dump(&x));
    compare(&text, want.as_deref())
}

/// the same with one token too many or too few
fn c21_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = 1 + s.len(149);
    let text = crate::sql_small::wide_text(s, n, None).1;
    let mut parts: Vec<&str> = text.split(' ').collect();
    for _ in 0..s.upto(2) {
        let at = s.upto(parts.len() as u64 - 1) as usize;
        let b = s.upto(parts.len() as u64 - 1) as usize;
        match s.upto(2) {
            0 => {
                parts.remove(at);
            }
            1 => parts.insert(at, parts[b]),
            _ => parts.swap(at, b),
        }
        if parts.is_empty() {
            break;
        }
    }
    let text = parts.join(" ");
    ctx.nontrivial = n > 8;
    ctx.case(|| text.clone());
    verdict(&text, ctx)
}

// ---------------------------------------------------------------- C21
/// every character inside and outside of a string
fn c21_each(s: &mut Src, ctx: &mut Ctx) -> Res {
    let block = s.upto(u64::MAX) as u32 * 64;
    ctx.nontrivial = true;
    ctx.case(|| format!("U+{:04X} and the next 63 characters", block));
    for c in (block..block + 64).filter_map(char::from_u32) {
        if !judged(&c.to_string()) {
            continue;
        }
        for t in [format!("SELECT a{}b FROM t", c), format!("SELECT 'a{}'", c)] {
            let want = parse_text(&t).map(|x| dump(&x));
            compare(&t, want.as_deref())?;
        }
    }
    Ok(())
}

const LEX: [&str; 13] = ["0", "7", ".", "E", "e", "+", "-", "x", "F", "g", "_", "'", " "];
const SYM: [&str; 16] = ["!", "=", "<", ">", "|", "-", "*", "/", "(", ")", ".", ",", "a", "1", " ", ";"];

/// every short text over characters that make up numbers and names, and over those of operators
fn c21_lexemes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let (n, m) = (LEX.len(), SYM.len());
    let head = format!("{}{}", LEX[i % n], LEX[i / n % n]);
    ctx.nontrivial = true;
    ctx.case(|| format!("texts that begin with {:?}", head));
    for k in 0..n * n * n {
        let text = format!("SELECT {}{}{}{}", head, LEX[k % n], LEX[k / n % n], LEX[k / n / n]);
        let want = parse_text(&text).map(|x| dump(&x));
        compare(&text, want.as_deref())?;
    }
    for k in 0..m * m {
        let text = format!("SELECT a{}{}{}{}b FROM t", SYM[i % m], SYM[i / m % m], SYM[k % m], SYM[k / m]);
        let want = parse_text(&text).map(|x| dump(&x));
        compare(&text, want.as_deref())?;
    }
    Ok(())
}

fn judged(text: &str) -> bool {
    // U+017F and U+212A have ASCII letters as their case variants
    !text.contains(|c| c == 'ſ' || c == '\u{212a}')
}

fn verdict(text: &str, ctx: &mut Ctx) -> Res {
    if !judged(text) {
        let _ = real(text)?;
        ctx.label("unjudged");
        return Ok(());
    }
    let want = parse_text(text);
    ctx.label(if want.is_some() { "valid" } else { "invalid" });
    let d = want.map(|x| dump(&x));
    compare(text, d.as_deref())
}

fn any_token(s: &mut Src) -> Tk {
    match s.weighted(&[6, 5, 3, 2, 2]) {
        0 => Tk::Kw(loop {
            let k = *s.pick(&KEYWORDS);
            if !k.is_empty() {
                break k;
            }
            break "SELECT";
        }),
        1 => Tk::Sym(*s.pick(&SYMBOLS)),
        2 => Tk::Id(if s.chance(1, 4) { sql_word(s) } else { s.pick(&NAMES).to_string() }),
        3 => Tk::Num(s.pick(&["0", "1", "17", "1.5", ".5", "2.", "1E5", "1.5E-3", "0xFF"]).to_string()),
        _ => Tk::Str(s.pick(&["", "a", "x y", "\"", "é"]).to_string()),
    }
}

fn edit_tokens(s: &mut Src, t: &mut Vec<Tk>) {
    let n = t.len() as u64;
    if n == 0 {
        t.push(any_token(s));
        return;
    }
    let i = s.upto(n - 1) as usize;
    match s.weighted(&[4, 3, 3, 3, 2, 2]) {
        0 => drop(t.remove(i)),
        1 => {
            let x = any_token(s);
            t.insert(i, x)
        }
        2 => t[i] = any_token(s),
        3 => {
            let j = s.upto(n - 1) as usize;
            t.swap(i, j)
        }
        4 => {
            let x = t[i].clone();
            t.insert(i, x)
        }
        _ => {
            // copy a stretch elsewhere, or cut the tail
            if s.coin() {
                t.truncate(i)
            } else {
                let k = s.range(1, 5).min(t.len() - i);
                let part: Vec<Tk> = t[i..i + k].to_vec();
                let at = s.upto(t.len() as u64) as usize;
                for (j, x) in part.into_iter().enumerate() {
                    t.insert(at + j, x);
                }
            }
        }
    }
}

fn c21_tokens(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fuel = *s.pick(&[3, 6, 12, 25]);
    let st = gen_stmt(s, fuel);
    let mut t = tokens(s, &st, true);
    let edits = s.range(1, 3);
    for _ in 0..edits {
        edit_tokens(s, &mut t);
    }
    let mode = s.upto(3);
    let text = if t.is_empty() { String::new() } else { layout(s, &t, mode) };
    ctx.nontrivial = t.len() >= 4;
    ctx.case(|| text.clone());
    verdict(&text, ctx)
}

const CHARS: [&str; 48] = [
    " ", "'", "\"", "(", ")", ",", ".", "*", "/", "+", "-", "=", "!", "<", ">", "|", "||", ";", "@", "#", "$", "%", "&", ":", "?", "[", "]", "{", "}",
    "\\", "`", "~", "^", "0", "9", "E", "x", "a", "_", "\n", "\t", "\0", "\u{7f}", "é", "--", "0x", "1.", ".5",
];

fn edit_chars(s: &mut Src, text: &str) -> String {
    let mut c: Vec<String> = text.chars().map(|c| c.to_string()).collect();
    for _ in 0..s.range(1, 3) {
        let i = s.upto(c.len() as u64) as usize;
        match s.weighted(&[3, 3, 3, 1]) {
            0 => {
                if i < c.len() {
                    c.remove(i);
                }
            }
            1 => c.insert(i, s.pick(&CHARS).to_string()),
            2 => {
                if i < c.len() {
                    c[i] = s.pick(&CHARS).to_string();
                }
            }
            _ => {
                if i > 0 && i < c.len() {
                    c.swap(i - 1, i)
                }
            }
        }
    }
    c.concat()
}

fn c21_chars(s: &mut Src, ctx: &mut Ctx) -> Res {
    let fuel = *s.pick(&[3, 6, 12]);
    let st = gen_stmt(s, fuel);
    let t = tokens(s, &st, true);
    let mode = s.upto(3);
    let text = layout(s, &t, mode);
    let text = edit_chars(s, &text);
    ctx.nontrivial = text.len() >= 10;
    ctx.case(|| text.clone());
    verdict(&text, ctx)
}

fn c21_soup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let text = match s.weighted(&[3, 2, 2]) {
        0 => {
            let k = s.len(14);
            let mut t: Vec<Tk> = (0..k).map(|_| any_token(s)).collect();
            if s.coin() {
                t.insert(0, Tk::Kw(*s.pick(&["SELECT", "WITH", "INSERT", "UPDATE", "DELETE", "VALUES", "EXPLAIN", "DESCRIBE", "ATTACH"])));
            }
            if t.is_empty() {
                String::new()
            } else {
                layout(s, &t, 3)
            }
        }
        1 => {
            let k = s.len(24);
            (0..k).map(|_| *s.pick(&CHARS)).collect()
        }
        _ => {
            let k = s.len(24);
            (0..k)
                .map(|_| match s.upto(3) {
                    0 => s.upto(0x7f) as u8 as char,
                    1 => char::from_u32(s.upto(0x24ff) as u32).unwrap_or('x'),
                    2 => char::from_u32(s.upto(0x10ffff) as u32).unwrap_or('\u{fffd}'),
                    _ => *s.pick(&['\u{0}', '\'', '\u{7f}', '\u{80}', '\u{feff}', '\u{2028}', 'ſ', '\u{212a}', 'İ', '\u{130}']),
                })
                .collect()
        }
    };
    ctx.nontrivial = text.len() >= 4;
    ctx.case(|| text.clone());
    verdict(&text, ctx)
}

const CONTEXTS: [(&str, &str); 14] = [
    ("SELECT", ""),
    ("SELECT a FROM t", ""),
    ("SELECT a", "b FROM t"),
    ("SELECT a FROM t WHERE a", "1"),
    ("SELECT ( a", ") FROM t"),
    ("SELECT a FROM t", "u ON a = b"),
    ("INSERT INTO t", "( 1 )"),
    ("UPDATE t SET a = 1", "b = 2"),
    ("SELECT CASE", "THEN 1 END"),
    ("", "SELECT 1"),
    ("WITH c AS ( SELECT 1 )", ""),
    ("SELECT a FROM t ORDER BY a", ""),
    ("", "t"),
    ("SELECT a IN", "t )"),
];

fn alphabet() -> Vec<String> {
    let mut v: Vec<String> = KEYWORDS.iter().filter(|k| !k.is_empty()).map(|k| k.to_string()).collect();
    v.extend(SYMBOLS.iter().map(|x| x.to_string()));
    v.extend(["a", "1", "'s'", "0x1", ".5"].iter().map(|x| x.to_string()));
    v
}

/// every pair of tokens in fixed surroundings
fn c21_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let al = alphabet();
    let (c, x) = (CONTEXTS[i % CONTEXTS.len()], &al[i / CONTEXTS.len() % al.len()]);
    ctx.nontrivial = true;
    ctx.case(|| format!("{} {} ? {}", c.0, x, c.1));
    for y in al.iter().map(|y| y.as_str()).chain(std::iter::once("")) {
        let text = format!("{} {} {} {}", c.0, x, y, c.1);
        let want = parse_text(&text).map(|x| dump(&x));
        compare(&text, want.as_deref())?;
    }
    Ok(())
}

/// every word at every place
fn c21_words(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let w = crate::words::WORDS[i % crate::words::WORDS.len()];
    ctx.nontrivial = true;
    ctx.case(|| format!("the word {} in every place", w));
    for w in [w.to_string(), w.to_uppercase(), format!("{}{}", w[..1].to_uppercase(), &w[1..])] {
        for t in [
            "@", "@ t", "@ TABLE t", "@ SELECT 1", "SELECT 1 @", "SELECT @", "SELECT @ ( a )", "SELECT @ ( )", "SELECT @ ( * )", "SELECT @ FROM t", "SELECT @ a FROM t", "SELECT a @ FROM t", "SELECT a AS @ FROM t",
            "SELECT a . @ FROM t", "SELECT @ . a FROM t", "SELECT @ . * FROM t", "SELECT a FROM @", "SELECT a FROM t @", "SELECT a FROM t AS @", "SELECT a FROM t @ u",
            "SELECT a FROM t @ JOIN u", "SELECT a FROM t LEFT @ JOIN u", "SELECT a FROM t JOIN u @ ( a )", "SELECT a FROM t WHERE @", "SELECT a FROM t WHERE a @ b", "SELECT a FROM t WHERE a @", "SELECT a FROM t WHERE @ a",
            "SELECT a FROM t WHERE a NOT @ b", "SELECT a FROM t WHERE a IS @", "SELECT a FROM t WHERE a IS NOT @", "SELECT a FROM t WHERE a LIKE b @ c", "SELECT a FROM t WHERE a @ ( SELECT 1 )", "SELECT a FROM t GROUP BY @", "SELECT a FROM t GROUP BY a @ a",
            "SELECT a FROM t ORDER BY a @", "SELECT a FROM t ORDER BY a ASC @", "SELECT a FROM t LIMIT 1 @ 2", "SELECT a FROM t LIMIT @", "SELECT 1 @ SELECT 2", "SELECT 1 UNION @ SELECT 2",
            "SELECT a @ '2020'", "SELECT @ '2020'", "WITH @ AS ( SELECT 1 ) SELECT 1", "WITH @ a AS ( SELECT 1 ) SELECT 1", "WITH a ( @ ) AS ( SELECT 1 ) SELECT 1", "INSERT INTO @ VALUES ( 1 )",
            "INSERT @ t VALUES ( 1 )", "INSERT INTO t ( @ ) VALUES ( 1 )", "INSERT INTO t @", "UPDATE @ SET a = 1", "UPDATE t SET @ = 1", "UPDATE t SET a = @", "UPDATE t @ a = 1", "DELETE FROM @", "DELETE FROM t @ a", "EXPLAIN @ SELECT 1", "EXPLAIN QUERY PLAN @",
            "DESCRIBE @", "DESCRIBE @ t", "ATTACH @ 'f' AS a", "ATTACH FILE 'f' AS @", "ATTACH 'f' AS @", "SELECT CASE @ WHEN 1 THEN 2 END", "SELECT CASE WHEN @ THEN 2 END", "SELECT CASE WHEN 1 THEN 2 @",
            "SELECT a COLLATE @", "SELECT a BETWEEN 1 @ 2",
        ] {
            let text = t.replace('@', &w);
            let want = parse_text(&text).map(|x| dump(&x));
            compare(&text, want.as_deref())?;
        }
    }
    Ok(())
}

fn c21_deep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = *s.pick(&[10usize, 100, 400, 1000]);
    let text = match s.upto(6) {
        0 => format!("SELECT {}1{}", "(".repeat(n), ")".repeat(n)),
        1 => format!("SELECT {}1", "- ".repeat(n)),
        2 => format!("SELECT 1{}", " + 1".repeat(n)),
        3 => format!("SELECT {}1{}", "(SELECT ".repeat(n), ")".repeat(n)),
        4 => format!("SELECT 1 FROM {}t{}", "(".repeat(n), ")".repeat(n)),
        5 => format!("SELECT {}1{}", "CASE WHEN a THEN ".repeat(n), " END".repeat(n)),
        _ => format!("SELECT {}1{}", "(".repeat(n), ")".repeat(n - 1)),
    };
    ctx.nontrivial = true;
    ctx.case(|| text.clone());
    verdict(&text, ctx)
}

// ---------------------------------------------------------------- C22
fn upper(s: &str) -> String {
    s.chars().flat_map(|c| c.to_uppercase()).collect()
}

pub fn name_text(s: &mut Src) -> String {
    let k = s.len(6);
    (0..k).map(|_| name_char(s)).collect()
}

fn name_char(s: &mut Src) -> char {
    match s.weighted(&[6, 3, 3, 1]) {
        0 => *s.pick(&['a', 'A', 'b', 'B', 'z', 'Z', '_', '0', '9', 's', 'S', 'k', 'K']),
        1 => *s.pick(&[
            'ß', 'ẞ', 'ſ', '\u{212a}', 'ŉ', 'ǰ', 'ﬁ', 'ﬃ', 'ı', 'İ', 'i', 'I', 'é', 'É', 'σ', 'ς', 'Σ', 'ǆ', 'ǅ', 'Ǆ', 'ᾳ', 'ᾼ', 'ΐ', 'և', 'ա', 'Ա', '日', '\u{345}',
            'µ', 'μ', 'Μ', '𐐨', '𐐀', 'ა', 'Ა', '[', '`', '{', '@', '^',
        ]),
        2 => char::from_u32(s.upto(0x24f) as u32).unwrap(),
        _ => char::from_u32(s.upto(0x1ffff) as u32).unwrap_or('x'),
    }
}

/// another spelling of a name: same letters in other cases, or a small change
pub fn respell(s: &mut Src, n: &str) -> String {
    let mut out = String::new();
    for c in n.chars() {
        match s.weighted(&[4, 3, 3]) {
            0 => out.push(c),
            1 => out.extend(c.to_uppercase()),
            _ => out.extend(c.to_lowercase()),
        }
    }
    match s.weighted(&[6, 1, 1, 1]) {
        0 => {}
        1 => drop(out.pop()),
        2 => out.push(name_char(s)),
        _ => {
            let mut v: Vec<char> = out.chars().collect();
            if !v.is_empty() {
                let i = s.upto(v.len() as u64 - 1) as usize;
                v[i] = name_char(s);
            }
            out = v.into_iter().collect();
        }
    }
    out
}

fn check_names(a: &str, b: &str) -> Res {
    let (ua, ub) = (upper(a), upper(b));
    let want = ua.chars().cmp(ub.chars());
    let eq = want == Ordering::Equal;
    let got = no_panic("names", || {
        (
            [hook::name_eq(a, b), !hook::name_ne(a, b), hook::name_eq_text(a, b)],
            hook::name_cmp(a, b),
            hook::name_partial_cmp(a, b),
            hook::name_partial_cmp_text(a, b),
        )
    })?;
    ensure!(got.0 == [eq; 3], "equal", "{:?} and {:?}: ==, !(!=), == text give {:?}, upper-case forms {:?} {:?}", a, b, got.0, ua, ub);
    ensure!(got.1 == want, "cmp", "{:?} cmp {:?} is {:?}, upper-case forms {:?} {:?}", a, b, got.1, ua, ub);
    ensure!(got.2 == Some(want), "partial_cmp", "{:?} partial_cmp {:?} is {:?}, upper-case forms {:?} {:?}", a, b, got.2, ua, ub);
    ensure!(got.3 == Some(want), "partial_cmp_text", "{:?} partial_cmp text {:?} is {:?}, upper-case forms {:?} {:?}", a, b, got.3, ua, ub);
    let t = no_panic("display", || hook::name_texts(a))?;
    ensure!(t[0] == a && t[1] == a && t[2] == a, "display", "{:?} is displayed as {:?}", a, t);
    ensure!(t[3].replace(' ', "") == format!("{}|{}", a, a).replace(' ', ""), "display", "{:?} is displayed as {:?}", a, t);
    Ok(())
}

fn c22_pairs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = name_text(s);
    let b = if s.coin() { respell(s, &a) } else { name_text(s) };
    ctx.nontrivial = a != b && upper(&a) == upper(&b) || !a.is_ascii();
    ctx.case(|| format!("{:?} {:?}", a, b));
    check_names(&a, &b)?;
    check_names(&b, &a)?;
    check_names(&a, &a)
}

/// long names that differ in one place at most, apart from letter case
fn c22_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let unit: Vec<char> = (0..s.range(1, 12)).map(|_| name_char(s)).collect();
    let bits = s.range(1, 12) as u32;
    let n = s.bits(bits) as usize;
    let salt = s.upto(255) as usize;
    let spell = |c: char, i: usize| -> String {
        match (i * 7 + i / 3 + salt) % 3 {
            0 => c.to_uppercase().collect(),
            1 => c.to_lowercase().collect(),
            _ => c.to_string(),
        }
    };
    let one = |i: usize| unit[(i + i / 5) % unit.len()];
    let a: Vec<char> = (0..n).map(one).collect();
    let mut b = a.clone();
    let change = s.weighted(&[2, 3, 1, 1]);
    match change {
        0 => {}
        1 if n > 0 => {
            let i = if s.coin() { s.upto(n as u64 - 1) as usize } else { n - 1 - (s.bits(4) as usize).min(n - 1) };
            b[i] = name_char(s);
        }
        2 => drop(b.pop()),
        _ => b.push(name_char(s)),
    }
    let a: String = a.into_iter().collect();
    let b: String = if s.coin() { b.into_iter().enumerate().map(|(i, c)| spell(c, i)).collect() } else { b.into_iter().collect() };
    ctx.nontrivial = a != b && n > 6;
    ctx.case(|| format!("{:?} {:?}", a, b));
    check_names(&a, &b)?;
    check_names(&b, &a)
}

/// every character against its case variants and neighbours, alone and inside names
fn c22_chars(s: &mut Src, ctx: &mut Ctx) -> Res {
    let base = s.upto(u64::MAX) as u32 % 4352 * 256;
    ctx.nontrivial = true;
    ctx.case(|| format!("U+{:04X}..", base));
    for k in 0..256 {
        let c = match char::from_u32(base + k) {
            Some(c) => c,
            None => continue,
        };
        let up: String = c.to_uppercase().collect();
        let low: String = c.to_lowercase().collect();
        if up.chars().eq(Some(c)) && low.chars().eq(Some(c)) && k % 16 != 0 {
            continue;
        }
        let n = c.to_string();
        for o in [&up, &low, &n] {
            check_names(&n, o)?;
            check_names(&format!("a{}b", n), &format!("A{}B", o))?;
        }
        check_names(&n, "s")?;
        check_names("Z", &n)?;
    }
    Ok(())
}

/// sorting and map lookup through the whole catalog machinery agree with the upper-case forms
fn c22_maps(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut seen: BTreeMap<String, String> = BTreeMap::new();
    let mut cat = hook::Catalog::new();
    let mut all: Vec<String> = vec![];
    let k = s.range(2, 10);
    ctx.nontrivial = k > 3;
    for _ in 0..k {
        let n = if all.is_empty() || s.coin() { name_text(s) } else { let i = s.upto(all.len() as u64 - 1) as usize; respell(s, &all[i].clone()) };
        all.push(n);
    }
    ctx.case(|| format!("{:?}", all));
    for n in &all {
        let fresh = !seen.contains_key(&upper(n));
        let r = no_panic("create_schema", || cat.create_schema(n))?;
        ensure!(r.is_ok() == fresh, "map", "{:?} among {:?}: {:?}", n, seen, r);
        if fresh {
            seen.insert(upper(n), n.clone());
        }
    }
    let got: Vec<String> = no_panic("contents", || cat.contents())?.into_iter().map(|x| x.0).collect();
    let mut want: Vec<(Vec<char>, String)> = seen.into_iter().map(|(u, n)| (u.chars().collect(), n)).collect();
    want.sort();
    let want: Vec<String> = want.into_iter().map(|x| x.1).collect();
    ensure!(got == want, "order", "catalog order {:?}, expected {:?}", got, want);
    Ok(())
}

// ---------------------------------------------------------------- C23
const TYPES: [hook::ColumnType; 8] = [
    hook::ColumnType::Generic,
    hook::ColumnType::Varchar,
    hook::ColumnType::Numeric,
    hook::ColumnType::Logical,
    hook::ColumnType::Date,
    hook::ColumnType::Time,
    hook::ColumnType::Timestamp,
    hook::ColumnType::Geometry,
];

pub fn gen_columns(s: &mut Src) -> Vec<hook::Column> {
    let k = s.len(6);
    (0..k)
        .map(|i| hook::Column {
            name: if s.chance(1, 5) { format!("c{}", i % 3) } else { format!("{}{}", name_text(s), i) },
            data_type: *s.pick(&TYPES),
            not_null: s.coin(),
            primary_key: s.chance(1, 3),
        })
        .collect()
}

type Model = BTreeMap<String, (String, BTreeMap<String, (String, Vec<hook::Column>)>)>;

fn c23_history(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cat = hook::Catalog::new();
    let mut model: Model = BTreeMap::new();
    let steps = s.range(1, 24);
    let mut log: Vec<String> = vec![];
    let mut refused = 0;
    let mut found = 0;
    let pool: Vec<String> = (0..4).map(|i| if i < 2 { s.pick(&["main", "Temp", "aux_1", "straße"]).to_string() } else { name_text(s) }).collect();
    let opool: Vec<String> = (0..4).map(|i| if i < 2 { s.pick(&["t1", "Orders", "view2", "ﬁle"]).to_string() } else { name_text(s) }).collect();
    let mut check = |cat: &hook::Catalog, model: &Model, log: &Vec<String>| -> Res {
        let got = no_panic("contents", || cat.contents())?;
        let mut want: Vec<_> = model
            .iter()
            .map(|(u, (n, objs))| {
                let mut v: Vec<_> = objs.iter().map(|(u, (n, c))| (u.chars().collect::<Vec<char>>(), (n.clone(), c.clone()))).collect();
                v.sort_by(|a, b| a.0.cmp(&b.0));
                (u.chars().collect::<Vec<char>>(), (n.clone(), n.clone(), v.into_iter().map(|x| x.1).collect::<Vec<_>>()))
            })
            .collect();
        want.sort_by(|a, b| a.0.cmp(&b.0));
        let want: Vec<_> = want.into_iter().map(|x| x.1).collect();
        ensure!(got == want, "contents", "after {}\n catalog  {:?}\n expected {:?}", log.join("; "), got, want);
        Ok(())
    };
    for _ in 0..steps {
        let n0 = s.pick(&pool).clone();
        let n = respell(s, &n0);
        match s.weighted(&[3, 3, 4]) {
            0 => {
                log.push(format!("create {:?}", n));
                let r = no_panic("create_schema", || cat.create_schema(&n))?;
                let fresh = !model.contains_key(&upper(&n));
                ensure!(r.is_ok() == fresh, "create", "{}: {:?}, expected {}", log.join("; "), r, if fresh { "success" } else { "an error" });
                if fresh {
                    model.insert(upper(&n), (n, BTreeMap::new()));
                } else {
                    refused += 1;
                }
            }
            1 => {
                if let Some((sn, objs)) = model.get_mut(&upper(&n)) {
                    let o0 = s.pick(&opool).clone();
                    let o = respell(s, &o0);
                    if !objs.contains_key(&upper(&o)) {
                        let cols = gen_columns(s);
                        let view = s.chance(1, 3);
                        log.push(format!("{} {:?}.{:?} {:?}", if view { "view" } else { "table" }, sn, o, cols));
                        no_panic("add", || cat.add_object(&n, &o, &cols, view))?;
                        objs.insert(upper(&o), (o, cols));
                    }
                }
            }
            _ => {
                let o0 = s.pick(&opool).clone();
                let o = respell(s, &o0);
                log.push(format!("describe {:?}.{:?}", n, o));
                let want = model.get(&upper(&n)).and_then(|x| x.1.get(&upper(&o))).map(|x| x.1.clone());
                let got = no_panic("describe", || cat.describe(&n, &o))?;
                found += want.is_some() as u32;
                ensure!(got.as_ref().ok() == want.as_ref(), "describe", "{}: {:?}, expected {:?}", log.join("; "), got, want);
            }
        }
        check(&cat, &model, &log)?;
    }
    // everything can be found by any spelling at the end
    for (_, (sn, objs)) in model.clone().iter() {
        for (_, (on, cols)) in objs {
            let (a, b) = (upper(sn), on.to_lowercase());
            let b = if upper(&b) == upper(on) { b } else { on.clone() };
            let got = no_panic("describe", || cat.describe(&a, &b))?;
            ensure!(got.as_ref().ok() == Some(cols), "describe", "{}; describe {:?}.{:?}: {:?}, expected {:?}", log.join("; "), a, b, got, cols);
            found += 1;
        }
    }
    ctx.nontrivial = refused > 0 && found > 0;
    if refused > 0 {
        ctx.label("refused");
    }
    if found > 0 {
        ctx.label("found");
    }
    ctx.case(|| log.join("; "));
    Ok(())
}

/// catalogs with many schemas, objects and columns
fn c23_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cat = hook::Catalog::new();
    let (b0, b1, b2) = *s.pick(&[(8u32, 1, 1), (1, 8, 2), (1, 1, 9), (4, 4, 3), (0, 5, 5), (9, 0, 0), (0, 9, 0)]);
    let many = |s: &mut Src, b: u32| 1 + if b > 0 { s.bits(b) as usize } else { 0 };
    let (ns, no, nc) = (many(s, b0), many(s, b1), many(s, b2));
    let prefix = if s.coin() { "t".to_string() } else { name_text(s) };
    let step = *s.pick(&[1usize, 7, 101, 1009]);
    let long = if s.chance(1, 8) { "x".repeat(s.bits(10) as usize) } else { String::new() };
    let name = |i: usize, n: usize, kind: char| format!("{}{}{}{}", prefix, long, kind, (i * step) % n.max(1).next_power_of_two().max(1) * 3 + i % 3);
    let snames: Vec<String> = (0..ns).map(|i| name(i, ns, 's')).collect();
    let mut seen = std::collections::BTreeSet::new();
    let snames: Vec<String> = snames.into_iter().filter(|n| seen.insert(upper(n))).collect();
    let mut seen = std::collections::BTreeSet::new();
    let onames: Vec<String> = (0..no).map(|i| name(i, no, 'o')).filter(|n| seen.insert(upper(n))).collect();
    ctx.nontrivial = snames.len() > 8 || onames.len() > 8 || nc > 8;
    ctx.case(|| format!("{} schemas, {} objects, {} columns each, names like {:?}", snames.len(), onames.len(), nc, name(1, 2, 'o')));
    let columns = |i: usize, j: usize| -> Vec<hook::Column> {
        (0..nc)
            .map(|k| hook::Column { name: format!("{}{}", if k % 2 == 0 { "c" } else { "D" }, k), data_type: TYPES[(i + 3 * j + k) % 8], not_null: (i + j + k) % 3 == 0, primary_key: (i + k) % 5 == 0 })
            .collect()
    };
    for (i, n) in snames.iter().enumerate() {
        let r = no_panic("create_schema", || cat.create_schema(n))?;
        ensure!(r.is_ok(), "create", "schema {:?}, number {}: {:?}", n, i, r);
    }
    for (i, n) in snames.iter().enumerate() {
        for (j, o) in onames.iter().enumerate() {
            no_panic("add", || cat.add_object(n, o, &columns(i, j), (i + j) % 4 == 0))?;
        }
    }
    let before = no_panic("contents", || cat.contents())?;
    ensure!(before.len() == snames.len(), "contents", "{} schemas of {}", before.len(), snames.len());
    for n in &snames {
        let o = respell(s, n);
        if upper(&o) == upper(n) {
            let r = no_panic("create_schema", || cat.create_schema(&o))?;
            ensure!(r.is_err(), "create", "schema {:?} created beside {:?}", o, n);
        }
    }
    ensure!(no_panic("contents", || cat.contents())? == before, "contents", "a refused creation has changed the catalog of {:?}", snames);
    for (i, n) in snames.iter().enumerate() {
        let up = upper(n);
        for (j, o) in onames.iter().enumerate() {
            let (a, b) = if (i + j) % 2 == 0 { (&up, upper(o)) } else { (n, o.clone()) };
            let got = no_panic("describe", || cat.describe(a, &b))?;
            ensure!(got.as_ref().ok() == Some(&columns(i, j)), "describe", "{:?}.{:?} among {} schemas with {} objects: {:.300}", a, b, snames.len(), onames.len(), format!("{:?}", got));
        }
        for missing in [format!("{}~", onames[0]), "~".to_string()] {
            let got = no_panic("describe", || cat.describe(n, &missing))?;
            ensure!(got.is_err(), "describe", "{:?}.{:?} does not exist: {:.300}", n, missing, format!("{:?}", got));
        }
    }
    let got = no_panic("describe", || cat.describe("~", &onames[0]))?;
    ensure!(got.is_err(), "describe", "schema \"~\" does not exist: {:.300}", format!("{:?}", got));
    Ok(())
}

const ARM: fn(&'static str, u64, u64, CaseFn) -> Arm = |name, quick, thorough, f| Arm { name, quick, thorough, exhaustive: false, f };
const ALL: fn(&'static str, u64, CaseFn) -> Arm = |name, n, f| Arm { name, quick: n, thorough: n, exhaustive: true, f };

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            rule: "random statement structures printed with redundant parentheses, optional words, letter case and white space as drawn, strings of all characters, statements with up to 300 (at random and in set sizes up to 2200) parts of one kind, and all operator pairs with prefixes and parentheses; the parsed structure rendered by the hook must equal the structure printed (or read by the reference parser). Non-trivial: at least 6 structure nodes",
            assumptions: &["the supported language is the one of src/sql/parser.lalrpop; LIMIT a, b has the number of rows first"],
            arms: vec![
                ARM("print", 60_000, 2_000_000, c20_print),
                ARM("layouts", 30_000, 1_000_000, c20_layouts),
                ALL("strings", 0x1100, c20_strings),
                ARM("wide", 4_000, 200_000, c20_wide),
                ALL("sizes", crate::sql_small::HUGES, c20_sizes),
                ALL("operators", (INFIX.len() * INFIX.len() * 12) as u64, c20_operators),
            ],
        },
        Property {
            id: "C21",
            rule: "valid statements with token and character edits, token and character soups, arbitrary Unicode, every pair of tokens in 14 surroundings, every word of a 350-word list in 66 places, every character inside and outside of a string, every text of 5 characters over those of numbers and names and of 4 over those of operators, statements with up to 150 parts, nesting up to 1000; verdict compared with a recursive-descent reference parser over its own lexer. Non-trivial: at least 4 tokens or 10 characters",
            assumptions: &[
                "the supported language is the one of src/sql/parser.lalrpop",
                "texts with U+017F or U+212A (case variants of ASCII letters) are only checked for absence of panics",
                "nesting is bounded by 1000: the recursive syntax tree itself limits the depth that a stack can hold",
            ],
            arms: vec![
                ARM("tokens", 80_000, 3_000_000, c21_tokens),
                ARM("chars", 50_000, 2_000_000, c21_chars),
                ARM("soup", 60_000, 2_000_000, c21_soup),
                ALL("words", crate::words::WORDS.len() as u64, c21_words),
                ALL("each", 0x11_0000 / 64, c21_each),
                ALL("lexemes", 256, c21_lexemes),
                ARM("wide", 6_000, 300_000, c21_wide),
                ARM("deep", 100, 1_000, c21_deep),
                ALL("small", (CONTEXTS.len() * alphabet().len()) as u64, c21_small),
            ],
        },
        Property {
            id: "C22",
            rule: "random names with case variants, special-casing characters and one-character changes, names of up to 4000 characters that differ in one place at most, every Unicode character against its case variants, and ordered maps of names; compared with upper-case forms. Non-trivial: the names differ but have equal upper-case forms, or are not ASCII",
            assumptions: &["upper case is Unicode's default upper-case mapping of each character"],
            arms: vec![ARM("pairs", 200_000, 8_000_000, c22_pairs), ARM("long", 20_000, 1_000_000, c22_long), ARM("maps", 20_000, 500_000, c22_maps), ALL("chars", 4352, c22_chars)],
        },
        Property {
            id: "C23",
            rule: "random histories of schema creation, object definition and lookup with respelled names, contents compared with a model after every step, and catalogs with up to 500 schemas, objects or columns. Non-trivial: at least one refused creation and one object found, or more than 8 of something",
            assumptions: &["objects are put into the catalog through the hook, since creating tables and views is not implemented"],
            arms: vec![ARM("history", 40_000, 1_000_000, c23_history), ARM("wide", 1_000, 20_000, c23_wide)],
        },
    ]
}
