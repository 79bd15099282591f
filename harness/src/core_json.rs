//! C03, C04, C05, C06, C07, C08, C11: type language, JSON codec, tokenizer, paths.

use crate::engine::*;
use crate::ensure;
use crate::json::{self, Tok, J};
use crate::model::*;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::json::decoder::JsonDecoder;
use cathlamet::core::json::encoder::JsonEncoder;
use cathlamet::core::json::tokenizer::{Token, Tokenizer};
use cathlamet::core::types::parser::TypeParser;
use cathlamet::core::types::{Case, Field, Kind, Path, Primitive, Type};
use cathlamet::core::value::PrimitiveValue as Pv;
use std::cmp::Ordering;
use std::io;

// ---------------------------------------------------------------- C03 type language
thread_local! {
    static PARSER: TypeParser = TypeParser::new();
}

fn parse_type(text: &str) -> Result<Result<Type, String>, Fail> {
    no_panic("parse", || PARSER.with(|p| p.parse(text).map_err(|e| format!("{:?}", e))))
}

const LAYOUT: [&str; 12] = ["", "", " ", " ", "\n", "\t", "\r\n", "  ", "\u{b}", "\u{c}", "\u{a0}", "\u{3000}"];

fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

fn join_tokens(s: &mut Src, toks: &[String]) -> String {
    let mut out = String::new();
    let mode = s.upto(2);
    for t in toks {
        let sep = match mode {
            0 => "",
            1 => " ",
            _ => *s.pick(&LAYOUT),
        };
        let need = out.chars().last().map(word).unwrap_or(false) && t.chars().next().map(word).unwrap_or(false);
        out.push_str(if need && sep.is_empty() { " " } else { sep });
        out.push_str(t);
    }
    if s.chance(1, 4) {
        out.push_str(*s.pick(&LAYOUT));
    }
    out
}

/// gives members the name of another one, or makes them equal to it
fn repeat_members(s: &mut Src, t: &mut Type) {
    match t.kind {
        Kind::Tuple(ref mut c) => {
            if c.len() > 1 && s.chance(1, 4) {
                let (i, j) = (s.range(0, c.len() - 1), s.range(0, c.len() - 1));
                c[i] = c[j].clone();
            }
            c.iter_mut().for_each(|x| repeat_members(s, x));
        }
        Kind::Struct(ref mut f) => {
            if f.len() > 1 && s.chance(1, 2) {
                let (i, j) = (s.range(0, f.len() - 1), s.range(0, f.len() - 1));
                f[i].label = f[j].label.clone();
                if s.coin() {
                    f[i] = f[j].clone();
                }
            }
            f.iter_mut().for_each(|x| repeat_members(s, &mut x.typ));
        }
        Kind::Enum(ref mut f) => {
            if f.len() > 1 && s.chance(1, 2) {
                let (i, j) = (s.range(0, f.len() - 1), s.range(0, f.len() - 1));
                f[i].label = f[j].label.clone();
                if s.coin() {
                    f[i] = f[j].clone();
                }
            }
            f.iter_mut().for_each(|x| repeat_members(s, &mut x.typ));
        }
        _ => (),
    }
}

fn c03_types(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t = gen_type(s, &TypeCfg { ident_labels: true, ..TypeCfg::default() });
    if s.chance(1, 8) {
        repeat_members(s, &mut t);
    }
    let mut toks = vec![];
    type_tokens(&t, &mut toks);
    ctx.nontrivial = toks.len() >= 5;
    let toks: Vec<String> = toks
        .into_iter()
        .filter_map(|x| match x {
            Some(x) => Some(x),
            None => {
                if s.chance(1, 3) {
                    Some(",".to_string())
                } else {
                    None
                }
            }
        })
        .collect();
    let text = join_tokens(s, &toks);
    ctx.case(|| text.clone());
    match parse_type(&text)? {
        Ok(got) => ensure!(got == t, "other-type", "{:?} parses to {} instead of {}", text, show_type(&got), show_type(&t)),
        Err(e) => return fail("rejected", format!("{:?} is refused: {}", text, e)),
    }
    Ok(())
}

/// Reference recogniser of the type language.
fn ref_lex(text: &str) -> Option<Vec<String>> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        if c[i].is_whitespace() {
            i += 1;
        } else if "(){},:".contains(c[i]) {
            out.push(c[i].to_string());
            i += 1;
        } else if c[i].is_ascii_alphabetic() || c[i] == '_' {
            let st = i;
            while i < c.len() && word(c[i]) {
                i += 1;
            }
            out.push(c[st..i].iter().collect());
        } else {
            return None;
        }
    }
    Some(out)
}

fn ref_type(t: &[String], pos: &mut usize) -> Option<Type> {
    let tok = t.get(*pos)?.as_str();
    *pos += 1;
    let at = |p: usize, x: &str| t.get(p).map(|y| y == x).unwrap_or(false);
    for p in PRIMS {
        if prim_name(p) == tok {
            return Some(ty(Kind::Primitive(p)));
        }
    }
    match tok {
        "string" => Some(ty(Kind::String)),
        "(" => {
            if at(*pos, ")") {
                *pos += 1;
                return Some(ty(Kind::Unit));
            }
            let mut v = vec![];
            loop {
                v.push(Box::new(ref_type(t, pos)?));
                if at(*pos, ")") {
                    *pos += 1;
                    return Some(ty(Kind::Tuple(v)));
                }
                if !at(*pos, ",") {
                    return None;
                }
                *pos += 1;
            }
        }
        "struct" | "enum" => {
            if !at(*pos, "{") {
                return None;
            }
            *pos += 1;
            let mut v: Vec<(String, Box<Type>)> = vec![];
            loop {
                let l = t.get(*pos)?.clone();
                let c = l.chars().next()?;
                if !(c.is_ascii_alphabetic() || c == '_') || is_keyword(&l) {
                    return None;
                }
                *pos += 1;
                if !at(*pos, ":") {
                    return None;
                }
                *pos += 1;
                v.push((l, Box::new(ref_type(t, pos)?)));
                if at(*pos, ",") {
                    *pos += 1;
                    if !at(*pos, "}") {
                        continue;
                    }
                }
                if !at(*pos, "}") {
                    return None;
                }
                *pos += 1;
                return Some(if tok == "struct" {
                    ty(Kind::Struct(v.into_iter().map(|(label, typ)| Field { label, typ }).collect()))
                } else {
                    ty(Kind::Enum(v.into_iter().map(|(label, typ)| Case { label, typ }).collect()))
                });
            }
        }
        _ => None,
    }
}

fn ref_parse(text: &str) -> Option<Type> {
    let toks = ref_lex(text)?;
    let mut pos = 0;
    let t = ref_type(&toks, &mut pos)?;
    if pos == toks.len() {
        Some(t)
    } else {
        None
    }
}

fn c03_check(text: &str, ctx: &mut Ctx) -> Res {
    ctx.case(|| format!("{:?}", text));
    let want = ref_parse(text);
    let got = parse_type(text)?;
    match (want, got) {
        (Some(w), Ok(g)) => {
            ctx.label("mutant is a type");
            ensure!(w == g, "other-type", "{:?} parses to {} instead of {}", text, show_type(&g), show_type(&w))
        }
        (None, Err(_)) => (),
        (Some(w), Err(e)) => return fail("rejected", format!("{:?} denotes {} but is refused: {}", text, show_type(&w), e)),
        (None, Ok(g)) => return fail("accepted", format!("{:?} is not a type but parses to {}", text, show_type(&g))),
    }
    Ok(())
}

const TYPE_TOKENS: [&str; 30] = [
    "(", ")", "{", "}", ",", ":", "struct", "enum", "string", "u8", "u128", "i16", "f64", "bool", "char", "a", "b", "kind", "0", "12", "U8", "u", "_", ";", "[", "]", "|", "<", "u8a", "i",
];

fn type_token(s: &mut Src) -> String {
    if s.chance(1, 12) {
        crate::model::word(s)
    } else {
        s.pick(&TYPE_TOKENS).to_string()
    }
}

/// every word at every place of a name
fn c03_words(s: &mut Src, ctx: &mut Ctx) -> Res {
    let w = crate::words::WORDS[s.upto(u64::MAX) as usize % crate::words::WORDS.len()];
    ctx.nontrivial = true;
    ctx.case(|| format!("the word {} in every place", w));
    for w in [w.to_string(), w.to_uppercase(), format!("{}{}", w[..1].to_uppercase(), &w[1..])] {
        for t in ["@", "(@)", "(u8, @)", "struct { @ : u8 }", "enum { a : u8, @ : (), }", "struct { a : @ }", "enum { @ : @ }", "@ { a : u8 }", "struct @ { a : u8 }", "@ u8", "u8 @"] {
            c03_check(&t.replace('@', &w), ctx)?;
        }
    }
    Ok(())
}

fn c03_mutants(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg { ident_labels: true, budget: 12, wide: false, ..TypeCfg::default() });
    let mut toks = vec![];
    type_tokens(&t, &mut toks);
    let mut toks: Vec<String> = toks.into_iter().flatten().collect();
    ctx.nontrivial = toks.len() >= 5;
    for _ in 0..1 + s.upto(2) {
        let n = toks.len() as u64;
        match s.upto(5) {
            0 if n > 0 => {
                toks.remove(s.upto(n - 1) as usize);
            }
            1 => toks.insert(s.upto(n) as usize, type_token(s)),
            2 if n > 0 => {
                let i = s.upto(n - 1) as usize;
                toks[i] = type_token(s);
            }
            3 if n > 1 => {
                let i = s.upto(n - 2) as usize;
                toks.swap(i, i + 1);
            }
            4 if n > 0 => {
                let i = s.upto(n - 1) as usize;
                let x = toks[i].clone();
                toks.insert(i, x);
            }
            _ => toks.truncate(s.upto(n) as usize),
        }
    }
    let mut text = join_tokens(s, &toks);
    if s.chance(1, 3) {
        let mut c: Vec<char> = text.chars().collect();
        let i = s.upto(c.len() as u64) as usize;
        if i < c.len() && s.coin() {
            c.remove(i);
        } else {
            c.insert(i, gen_char(s));
        }
        text = c.into_iter().collect();
    }
    c03_check(&text, ctx)
}

fn c03_soup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.len(30);
    let text = if s.chance(1, 5) {
        gen_string(s, 40)
    } else {
        let toks: Vec<String> = (0..n).map(|_| type_token(s)).collect();
        join_tokens(s, &toks)
    };
    ctx.nontrivial = text.len() >= 5;
    c03_check(&text, ctx)
}

/// every token sequence of up to 5 tokens from a small alphabet
fn c03_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    const A: [&str; 9] = ["(", ")", "{", "}", ",", ":", "struct", "a", "u8"];
    let i = s.upto(u64::MAX);
    ctx.nontrivial = true;
    let (mut x, mut text) = (i, String::new());
    for _ in 0..4 {
        text.push_str(A[(x % 9) as usize]);
        text.push(' ');
        x /= 9;
    }
    for last in A {
        for pre in ["", "struct { a : ", "enum { a : u8 , b : ( "] {
            c03_check(&format!("{}{}{}", pre, text, last), ctx)?;
        }
    }
    ctx.case(|| format!("{:?} with every fifth token in three contexts", text));
    Ok(())
}

fn c03_deep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.upto(2000) as usize;
    let mut text = String::new();
    let mut close = vec![];
    for i in 0..n {
        match (i as u64 + s.upto(2)) % 3 {
            0 => {
                text.push('(');
                close.push(")");
            }
            1 => {
                text.push_str("struct{a:");
                close.push("}");
            }
            _ => {
                text.push_str("enum{a:");
                close.push("}");
            }
        }
    }
    text.push_str("u8");
    let drop = s.chance(1, 3);
    close.reverse();
    if drop {
        close.pop();
    }
    text.push_str(&close.concat());
    ctx.nontrivial = n > 2;
    ctx.case(|| format!("{} levels, {}", n, if drop { "unbalanced" } else { "balanced" }));
    c03_check(&text, ctx)
}

// ---------------------------------------------------------------- JSON encoding
fn encode(t: &Type, ds: &dyn DataSource) -> Result<Vec<u8>, Fail> {
    let mut out = vec![];
    no_panic("encode", || JsonEncoder::new(t).encode(&mut out, ds))?.map_err(|e| Fail { sig: "encode-error".into(), msg: e.to_string() })?;
    Ok(out)
}

/// Accepts the bytes in pieces of chosen sizes, sometimes interrupted.
struct Chunks<'a> {
    out: Vec<u8>,
    sizes: &'a [usize],
    k: usize,
}

impl<'a> io::Write for Chunks<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.sizes[self.k % self.sizes.len()];
        self.k += 1;
        if n == 0 && self.sizes.len() > 1 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "again"));
        }
        let n = n.max(1).min(buf.len());
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Fails once `limit` bytes were taken, from then on or for a single time.
struct Failing {
    out: Vec<u8>,
    limit: usize,
    zero: bool,
    once: bool,
    failed: bool,
}

impl io::Write for Failing {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = if self.failed && self.once { buf.len() } else { (self.limit - self.out.len()).min(buf.len()) };
        if n == 0 && !buf.is_empty() {
            self.failed = true;
            if self.zero {
                return Ok(0);
            }
            let kinds = [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof, io::ErrorKind::WriteZero];
            return Err(io::Error::new(kinds[self.limit % 5], "no space left"));
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn special(v: &Val) -> bool {
    match v {
        Val::Str(s) => s.chars().any(|c| !(' '..='~').contains(&c) || c == '"' || c == '\\'),
        Val::Prim(Pv::Char(c)) => !c.is_ascii_alphanumeric(),
        Val::Seq(v) => v.iter().any(special),
        Val::Enum(_, v) => special(v),
        _ => false,
    }
}

fn json_labels(ctx: &mut Ctx, t: &Type, v: &Val) {
    let ls = all_leaves(t, v);
    ctx.nontrivial = ls.len() >= 3 || special(v);
    if special(v) {
        ctx.label("special characters");
    }
    if ls.iter().any(|(_, l)| matches!(l, Leaf::Tag(_))) {
        ctx.label("has enum");
    }
    if ls.iter().any(|(_, l)| matches!(l, Leaf::Prim(Pv::F32(_)) | Leaf::Prim(Pv::F64(_)))) {
        ctx.label("has float");
    }
}

fn check_document(t: &Type, v: &Val, doc: &[u8]) -> Res {
    let text = match std::str::from_utf8(doc) {
        Ok(x) => x,
        Err(e) => return fail("utf8", format!("JSON of {} is not UTF-8: {} in {:?}", show_val(v), e, String::from_utf8_lossy(doc))),
    };
    let j = match json::parse(text) {
        Ok(j) => j,
        Err(e) => return fail("not-json", format!("{:?} is not JSON: {}", text, e)),
    };
    json_matches(t, v, &j, "document").or_else(|e| fail("other-value", format!("{:?} does not denote {}: {}", text, show_val(v), e)))
}

fn c04_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg::default());
    let v = gen_val(s, &t);
    ctx.case(|| show(&t, &v));
    json_labels(ctx, &t, &v);
    let ds = to_ds(&t, &v);
    let enc = no_panic("encoder", || JsonEncoder::new(&t))?;
    let mut out = vec![];
    no_panic("encode", || enc.encode(&mut out, &ds))?.map_err(|e| Fail { sig: "encode-error".into(), msg: e.to_string() })?;
    check_document(&t, &v, &out)?;
    let sizes: Vec<usize> = (0..1 + s.upto(4)).map(|_| s.upto(5) as usize).collect();
    if sizes.iter().any(|n| *n > 0) || sizes.len() == 1 {
        let mut w = Chunks { out: vec![], sizes: &sizes, k: 0 };
        let r = no_panic("encode/chunks", || enc.encode(&mut w, &ds))?;
        if let Err(e) = r {
            return fail("chunks", format!("{} when the stream takes {:?} bytes at a time", e, sizes));
        }
        ensure!(w.out == out, "chunks", "a stream taking {:?} bytes at a time receives {:?} instead of {:?}", sizes, String::from_utf8_lossy(&w.out), String::from_utf8_lossy(&out));
    }
    let mut w = Failing { out: vec![], limit: s.upto(out.len() as u64 - 1) as usize, zero: s.coin(), once: s.coin(), failed: false };
    let r = no_panic("encode/failing", || enc.encode(&mut w, &ds))?;
    ensure!(r.is_err(), "error-dropped", "the stream failed after {} of {} bytes{} but encoding reports success", w.limit, out.len(), if w.once { ", for once," } else { "" });
    ensure!(out.starts_with(&w.out[..w.limit]), "failing-bytes", "bytes before the stream error are {:?} instead of a prefix of {:?}", String::from_utf8_lossy(&w.out[..w.limit]), String::from_utf8_lossy(&out));
    let mut w = Failing { out: vec![], limit: out.len(), zero: s.coin(), once: false, failed: false };
    let r = no_panic("encode/failing", || enc.encode(&mut w, &ds))?;
    ensure!(r.is_ok() && w.out == out, "exact-stream", "a stream with room for exactly the document fails");
    Ok(())
}

/// blocks of 256 code points through `char`, `string`, a label and back
fn chars_block(s: &mut Src, ctx: &mut Ctx, back: bool) -> Res {
    let base = s.upto(u64::MAX) as u32 * 256;
    ctx.nontrivial = true;
    ctx.case(|| format!("characters U+{:04X}..U+{:04X}", base, base + 255));
    let t = ty(Kind::Tuple(vec![Box::new(ty(Kind::Primitive(Primitive::Char))), Box::new(ty(Kind::String)), Box::new(ty(Kind::String))]));
    let enc = JsonEncoder::new(&t);
    let mut dec = JsonDecoder::new(&t);
    let mut store = IntermediateDataSource::new();
    for c in base..base + 256 {
        let c = match char::from_u32(c) {
            Some(c) => c,
            None => continue,
        };
        let v = Val::Seq(vec![Val::Prim(Pv::Char(c)), Val::Str(c.to_string()), Val::Str(format!("a{}1{}", c, c))]);
        let mut out = vec![];
        no_panic("encode", || enc.encode(&mut out, &to_ds(&t, &v)))?.map_err(|e| Fail { sig: "encode-error".into(), msg: e.to_string() })?;
        if back {
            let text = String::from_utf8_lossy(&out).into_owned();
            let r = no_panic("decode", || dec.parse(&text, &mut store))?;
            if let Err(e) = r {
                return fail("decode-error", format!("{} for {:?}", e, text));
            }
            compare(&store, &all_leaves(&t, &v), true)?;
        } else {
            check_document(&t, &v, &out)?;
            if c as u32 % 16 == base / 256 % 16 {
                let lt = ty(Kind::Struct(vec![
                    Field { label: c.to_string(), typ: Box::new(ty(Kind::Unit)) },
                    Field { label: "e".into(), typ: Box::new(ty(Kind::Enum(vec![Case { label: format!("{}x", c), typ: Box::new(ty(Kind::Unit)) }]))) },
                ]));
                let lv = Val::Seq(vec![Val::Unit, Val::Enum(0, Box::new(Val::Unit))]);
                let doc = encode(&lt, &to_ds(&lt, &lv))?;
                if c != 'e' {
                    check_document(&lt, &lv, &doc)?;
                }
            }
        }
    }
    Ok(())
}

fn c04_chars(s: &mut Src, ctx: &mut Ctx) -> Res {
    chars_block(s, ctx, false)
}

fn c05_chars(s: &mut Src, ctx: &mut Ctx) -> Res {
    chars_block(s, ctx, true)
}

fn c05_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg::default());
    let mut dec = no_panic("decoder", || JsonDecoder::new(&t))?;
    let mut store = IntermediateDataSource::new();
    for round in 0..1 + s.upto(1) {
        let v = gen_val(s, &t);
        if round == 0 {
            ctx.case(|| show(&t, &v));
            json_labels(ctx, &t, &v);
        }
        let doc = encode(&t, &to_ds(&t, &v))?;
        let text = String::from_utf8(doc).map_err(|_| Fail { sig: "utf8".into(), msg: format!("JSON of {} is not UTF-8", show_val(&v)) })?;
        // same decoder and store again: nothing of the previous document may stay
        let r = no_panic("decode", || dec.parse(&text, &mut store))?;
        if let Err(e) = r {
            return fail("decode-error", format!("{} for {:?} of type {}", e, text, show_type(&t)));
        }
        compare(&store, &all_leaves(&t, &v), true).map_err(|f| Fail { msg: format!("{} (document {:?})", f.msg, text), ..f })?;
        ghosts(&t, &v, &store)?;
        // encoding what was decoded gives the same document
        let again = encode(&t, &store)?;
        ensure!(again == text.as_bytes(), "re-encode", "{:?} decodes and encodes to {:?}", text, String::from_utf8_lossy(&again));
    }
    Ok(())
}

/// the cases of the root enum that were not selected hold nothing
fn ghosts(t: &Type, v: &Val, store: &IntermediateDataSource) -> Res {
    if let (Kind::Enum(c), Val::Enum(i, _)) = (&t.kind, v) {
        for (k, case) in c.iter().enumerate().filter(|(k, _)| k != i).take(4) {
            let p = Path::create_empty().with_component(k);
            let found = match case.typ.kind {
                Kind::String => guarded(|| store.get_bytes(&p).len()).is_ok(),
                Kind::Primitive(Primitive::U8) => guarded(|| store.get_u8(&p)).is_ok(),
                _ => false,
            };
            ensure!(!found, "ghost", "case {} holds a value although case {} was decoded", k, i);
        }
    }
    Ok(())
}

fn c05_numbers(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = *s.pick(&PRIMS);
    let t = ty(Kind::Primitive(p));
    let mut dec = JsonDecoder::new(&t);
    let mut store = IntermediateDataSource::new();
    for i in 0..32 {
        let v = Val::Prim(gen_prim(s, p));
        if i == 0 {
            ctx.case(|| format!("32 values of {}, first {}", prim_name(p), show_val(&v)));
        }
        let doc = encode(&t, &to_ds(&t, &v))?;
        check_document(&t, &v, &doc)?;
        let text = String::from_utf8_lossy(&doc).into_owned();
        let r = no_panic("decode", || dec.parse(&text, &mut store))?;
        if let Err(e) = r {
            return fail("decode-error", format!("{} for {:?} of type {}", e, text, prim_name(p)));
        }
        compare(&store, &all_leaves(&t, &v), true)?;
    }
    ctx.nontrivial = true;
    Ok(())
}

// ---------------------------------------------------------------- C06 other spellings
fn ws(s: &mut Src, out: &mut String, mode: u64) {
    match mode {
        0 => (),
        1 => out.push(*s.pick(&[' ', '\n', '\t', '\r'])),
        _ => {
            for _ in 0..s.upto(2) {
                out.push(*s.pick(&[' ', '\n', '\t', '\r']));
            }
        }
    }
}

fn hex4(s: &mut Src, v: u32) -> String {
    if s.coin() {
        format!("\\u{:04x}", v)
    } else {
        format!("\\u{:04X}", v)
    }
}

fn spell_string(s: &mut Src, text: &str, out: &mut String) {
    out.push('"');
    let mode = s.upto(2);
    for c in text.chars() {
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '/' => Some("\\/"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            _ => None,
        };
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        let how = match mode {
            0 => 0,
            1 => 2,
            _ => s.upto(2),
        };
        match how {
            0 if !must => out.push(c),
            0 | 1 if short.is_some() => out.push_str(short.unwrap()),
            1 if !must => out.push(c),
            _ => {
                let v = c as u32;
                if v >= 0x10000 {
                    let a = hex4(s, 0xd800 + ((v - 0x10000) >> 10));
                    out.push_str(&a);
                    let a = hex4(s, 0xdc00 + ((v - 0x10000) & 0x3ff));
                    out.push_str(&a);
                } else {
                    let a = hex4(s, v);
                    out.push_str(&a);
                }
            }
        }
    }
    out.push('"');
}

fn spell_float(s: &mut Src, plain: String, exp: String) -> String {
    match s.upto(6) {
        0 => plain,
        6 => match plain.strip_prefix('-') {
            Some(rest) => format!("-{}", shift_point(s, rest)),
            None => shift_point(s, &plain),
        },
        1 => exp,
        2 => exp.replace('e', "E"),
        3 => {
            if exp.contains("e-") {
                exp
            } else {
                exp.replace('e', "e+")
            }
        }
        4 => {
            if plain.contains('.') {
                format!("{}00", plain)
            } else {
                format!("{}.0", plain)
            }
        }
        _ => {
            // extra zeros in the exponent and the fraction
            let (m, e) = exp.split_once('e').unwrap();
            let m = if m.contains('.') { format!("{}0", m) } else { format!("{}.0", m) };
            if let Some(e) = e.strip_prefix('-') {
                format!("{}E-0{}", m, e)
            } else {
                format!("{}E+0{}", m, e)
            }
        }
    }
}

fn spell(s: &mut Src, t: &Type, v: &Val, mode: u64, out: &mut String) {
    ws(s, out, mode);
    match (&t.kind, v) {
        (Kind::Unit, _) => out.push_str("null"),
        (Kind::Primitive(_), Val::Prim(p)) => match p {
            Pv::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Pv::Char(c) => spell_string(s, &c.to_string(), out),
            _ => {
                let (text, finite) = match p {
                    Pv::F32(x) if x.is_finite() => (spell_float(s, format!("{}", x), format!("{:e}", x)), true),
                    Pv::F64(x) if x.is_finite() => (spell_float(s, format!("{}", x), format!("{:e}", x)), true),
                    Pv::F32(_) | Pv::F64(_) => (pv_text(p), false),
                    _ => (pv_text(p), true),
                };
                if !finite || s.chance(1, 4) {
                    spell_string(s, &text, out);
                } else {
                    out.push_str(&text);
                }
            }
        },
        (Kind::String, Val::Str(x)) => spell_string(s, x, out),
        (Kind::Tuple(c), Val::Seq(vs)) => {
            out.push('[');
            for (i, (t, v)) in c.iter().zip(vs).enumerate() {
                if i > 0 {
                    out.push(',');
                }
                spell(s, t, v, mode, out);
            }
            out.push(']');
        }
        (Kind::Struct(f), Val::Seq(vs)) => {
            let mut order: Vec<usize> = (0..f.len()).collect();
            if s.chance(3, 4) {
                for i in (1..order.len()).rev() {
                    let j = s.upto(i as u64) as usize;
                    order.swap(i, j);
                }
            }
            out.push('{');
            for (k, i) in order.into_iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                ws(s, out, mode);
                spell_string(s, &f[i].label, out);
                ws(s, out, mode);
                out.push(':');
                spell(s, &f[i].typ, &vs[i], mode, out);
            }
            out.push('}');
        }
        (Kind::Enum(c), Val::Enum(i, v)) => {
            out.push('{');
            ws(s, out, mode);
            spell_string(s, "kind", out);
            ws(s, out, mode);
            out.push(':');
            ws(s, out, mode);
            spell_string(s, &c[*i].label, out);
            ws(s, out, mode);
            out.push(',');
            ws(s, out, mode);
            spell_string(s, "value", out);
            ws(s, out, mode);
            out.push(':');
            spell(s, &c[*i].typ, v, mode, out);
            out.push('}');
        }
        _ => panic!("harness bug"),
    }
    ws(s, out, mode);
}

/// moves the decimal point of an unsigned plain number, correcting by an exponent
fn shift_point(s: &mut Src, plain: &str) -> String {
    let (whole, frac) = plain.split_once('.').unwrap_or((plain, ""));
    let digits: Vec<char> = whole.chars().chain(frac.chars()).collect();
    let pos = whole.len() as i64;
    let by = s.range(0, 40) as i64 - 20;
    let at = pos + by;
    let mut out = String::new();
    if at <= 0 {
        out.push_str("0.");
        out.extend(std::iter::repeat('0').take(-at as usize));
        out.extend(digits.iter());
    } else {
        let lead: String = (0..at as usize).map(|i| digits.get(i).cloned().unwrap_or('0')).collect();
        let lead = lead.trim_start_matches('0');
        out.push_str(if lead.is_empty() { "0" } else { lead });
        if (at as usize) < digits.len() {
            out.push('.');
            out.extend(digits[at as usize..].iter());
        }
    }
    let sign = if by > 0 {
        "-"
    } else if s.coin() {
        "+"
    } else {
        ""
    };
    format!("{}{}{}{}", out, if s.coin() { 'e' } else { 'E' }, sign, by.abs())
}

/// The exact decimal expansion of the middle between two neighbouring numbers
fn middle(a: f64, b: f64) -> String {
    let (a, b) = (format!("{:.1100}", a), format!("{:.1100}", b));
    let n = std::cmp::max(a.len(), b.len());
    let (a, b) = (format!("{:0>w$}", a, w = n), format!("{:0>w$}", b, w = n));
    let mut digits = Vec::new();
    let mut carry = 0;
    for (x, y) in a.bytes().zip(b.bytes()).rev() {
        if x == b'.' {
            digits.push(b'.');
            continue;
        }
        let d = x - b'0' + y - b'0' + carry;
        digits.push(d % 10);
        carry = d / 10;
    }
    digits.push(carry);
    digits.reverse();
    let mut out = String::new();
    let mut rest = 0;
    for d in digits {
        if d == b'.' {
            out.push('.');
            continue;
        }
        let d = rest * 10 + d;
        out.push((b'0' + d / 2) as char);
        rest = d % 2;
    }
    if rest == 1 {
        out.push('5');
    }
    let out = out.trim_end_matches('0').trim_end_matches('.').trim_start_matches('0');
    if out.is_empty() || out.starts_with('.') {
        format!("0{}", out)
    } else {
        out.to_string()
    }
}

/// numbers with many digits that lie on, just below or just above the middle between two floats
fn c06_floats(s: &mut Src, ctx: &mut Ctx) -> Res {
    let single = s.coin();
    let (low, high, even) = if single {
        let bits = match s.upto(3) {
            0 => s.upto(0x7f7f_fffe) as u32,
            1 => (s.upto(0xfd) as u32) << 23 | s.upto(3) as u32,
            2 => (s.upto(0xfd) as u32) << 23 | 0x7f_fffc | s.upto(3) as u32,
            _ => (s.range(100, 180) as u32) << 23 | s.upto(0x7f_ffff) as u32,
        };
        (f32::from_bits(bits) as f64, f32::from_bits(bits + 1) as f64, bits % 2 == 0)
    } else {
        let bits = match s.upto(3) {
            0 => s.upto(0x7fef_ffff_ffff_fffe),
            1 => s.upto(0x7fd) << 52 | s.upto(3),
            2 => s.upto(0x7fd) << 52 | 0xf_ffff_ffff_fffc | s.upto(3),
            _ => (s.range(900, 1150) as u64) << 52 | s.upto(0xf_ffff_ffff_ffff),
        };
        (f64::from_bits(bits), f64::from_bits(bits + 1), bits % 2 == 0)
    };
    let exact = middle(low, high);
    let point = if exact.contains('.') { "" } else { "." };
    let far = s.upto(40) as usize;
    let (text, up) = match s.upto(4) {
        0 => (exact.clone(), !even),
        1 => (format!("{}{}{}1", exact, point, "0".repeat(far)), true),
        2 => {
            // a little less: the last digit of the middle is never 0 unless it is a whole number
            let mut cut = exact.clone();
            if point.is_empty() {
                let last = cut.pop().unwrap();
                (format!("{}{}9{}", cut, (last as u8 - 1) as char, "9".repeat(far)), false)
            } else {
                (format!("{}.0", cut), !even)
            }
        }
        3 => {
            // the smaller number itself, in full
            let full = format!("{:.1100}", low);
            (full.trim_end_matches('0').trim_end_matches('.').to_string(), false)
        }
        _ => {
            let full = format!("{:.1100}", high);
            (full, true)
        }
    };
    let text = if s.coin() { shift_point(s, &text) } else { text };
    let negative = s.coin();
    let text = if negative { format!("-{}", text) } else { text };
    let nearest = if up { high } else { low };
    let want = if negative { -nearest } else { nearest };
    let quoted = s.chance(1, 5);
    let doc = if quoted { format!("\"{}\"", text) } else { text };
    ctx.case(|| format!("{} as {}", if single { "f32" } else { "f64" }, doc));
    ctx.nontrivial = true;
    let t = ty(Kind::Primitive(if single { Primitive::F32 } else { Primitive::F64 }));
    let v = Val::Prim(if single { Pv::F32(want as f32) } else { Pv::F64(want) });
    match json::parse(&doc).map(|j| ref_decode(&t, &j)) {
        Ok(Dec::Value(w)) if same_val(&v, &w) => (),
        _ => panic!("harness bug: {} is not {:?} to the reference", doc, want),
    }
    let mut dec = JsonDecoder::new(&t);
    let mut store = IntermediateDataSource::new();
    let r = no_panic("decode", || dec.parse(&doc, &mut store))?;
    if let Err(e) = r {
        return fail("refused", format!("{} for {:?}", e, doc));
    }
    compare(&store, &all_leaves(&t, &v), true).map_err(|f| Fail { msg: format!("{} (document {:?})", f.msg, doc), ..f })
}

fn c06_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg::default());
    let v = gen_val(s, &t);
    let mut text = String::new();
    let mode = s.upto(2);
    spell(s, &t, &v, mode, &mut text);
    ctx.case(|| format!("{} as {}", show_type(&t), text));
    // the oracle's own reading of the spelling
    match json::parse(&text).map(|j| ref_decode(&t, &j)) {
        Ok(Dec::Value(w)) if same_val(&v, &w) || has_nan(&v) => (),
        Ok(Dec::Open) => {
            ctx.label("open");
            return Ok(());
        }
        _ => panic!("harness bug: spelling {:?} of {} is not read back by the reference", text, show_val(&v)),
    }
    let plain = encode(&t, &to_ds(&t, &v)).unwrap_or_default();
    ctx.nontrivial = plain != text.as_bytes();
    if text.contains("\\u") {
        ctx.label("unicode escapes");
    }
    let mut dec = JsonDecoder::new(&t);
    let mut store = IntermediateDataSource::new();
    let r = no_panic("decode", || dec.parse(&text, &mut store))?;
    if let Err(e) = r {
        return fail("refused", format!("{} for {:?} of type {}", e, text, show_type(&t)));
    }
    compare(&store, &all_leaves(&t, &v), true).map_err(|f| Fail { msg: format!("{} (document {:?})", f.msg, text), ..f })
}

fn has_nan(v: &Val) -> bool {
    match v {
        Val::Prim(Pv::F32(x)) => x.is_nan(),
        Val::Prim(Pv::F64(x)) => x.is_nan(),
        Val::Seq(v) => v.iter().any(has_nan),
        Val::Enum(_, v) => has_nan(v),
        _ => false,
    }
}

/// every code point (in blocks) spelled as an escape in every way
fn c06_chars(s: &mut Src, ctx: &mut Ctx) -> Res {
    let base = s.upto(u64::MAX) as u32 * 1024;
    ctx.nontrivial = true;
    ctx.case(|| format!("escapes of U+{:04X}..U+{:04X}", base, base + 1023));
    let t = ty(Kind::String);
    let mut dec = JsonDecoder::new(&t);
    let mut store = IntermediateDataSource::new();
    for c in base..base + 1024 {
        let c = match char::from_u32(c) {
            Some(c) => c,
            None => continue,
        };
        let mut b = [0u16; 2];
        let units = c.encode_utf16(&mut b);
        let lower: String = units.iter().map(|u| format!("\\u{:04x}", u)).collect();
        let upper: String = units.iter().map(|u| format!("\\u{:04X}", u)).collect();
        let text = format!("\"{}-{}\"", lower, upper);
        let r = no_panic("decode", || dec.parse(&text, &mut store))?;
        if let Err(e) = r {
            return fail("refused", format!("{} for {}", e, text));
        }
        let want = Val::Str(format!("{}-{}", c, c));
        compare(&store, &all_leaves(&t, &want), false)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C07 refusal
fn to_j(t: &Type, v: &Val) -> J {
    match (&t.kind, v) {
        (Kind::Unit, _) => J::Null,
        (Kind::Primitive(_), Val::Prim(p)) => match p {
            Pv::Bool(b) => J::Bool(*b),
            Pv::Char(c) => J::Str(c.to_string()),
            Pv::F32(x) if !x.is_finite() => J::Str(x.to_string()),
            Pv::F64(x) if !x.is_finite() => J::Str(x.to_string()),
            p => J::Num(pv_text(p)),
        },
        (Kind::String, Val::Str(x)) => J::Str(x.clone()),
        (Kind::Tuple(c), Val::Seq(v)) => J::Arr(c.iter().zip(v).map(|(t, v)| to_j(t, v)).collect()),
        (Kind::Struct(f), Val::Seq(v)) => J::Obj(f.iter().zip(v).map(|(f, v)| (f.label.clone(), to_j(&f.typ, v))).collect()),
        (Kind::Enum(c), Val::Enum(i, v)) => J::Obj(vec![("kind".into(), J::Str(c[*i].label.clone())), ("value".into(), to_j(&c[*i].typ, v))]),
        _ => panic!("harness bug"),
    }
}

fn j_count(j: &J) -> usize {
    1 + match j {
        J::Arr(a) => a.iter().map(j_count).sum(),
        J::Obj(o) => o.iter().map(|(_, j)| j_count(j)).sum(),
        _ => 0,
    }
}

fn j_node<'a>(j: &'a mut J, n: &mut usize) -> Option<&'a mut J> {
    if *n == 0 {
        return Some(j);
    }
    *n -= 1;
    match j {
        J::Arr(a) => a.iter_mut().find_map(|x| j_node(x, n)),
        J::Obj(o) => o.iter_mut().find_map(|(_, x)| j_node(x, n)),
        _ => None,
    }
}

fn some_j(s: &mut Src) -> J {
    match s.upto(9) {
        0 => J::Null,
        1 => J::Bool(s.coin()),
        2 => J::Num(s.pick(&NUMBERS).to_string()),
        3 => J::Str(gen_string(s, 3)),
        4 => J::Arr(vec![]),
        5 => J::Obj(vec![]),
        6 => J::Arr(vec![J::Null]),
        7 => J::Obj(vec![("a".into(), J::Null)]),
        8 => J::Str(s.pick(&NUMBERS).to_string()),
        _ => J::Obj(vec![("kind".into(), J::s("a")), ("value".into(), J::Null)]),
    }
}

const NUMBERS: [&str; 40] = [
    "0", "-0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648",
    "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615",
    "18446744073709551616", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
    "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "1.0", "1.5", "1e2", "-1E-2", "1e400", "0.1", "99999999999999999999999999999999999999999",
];

fn edit_j(s: &mut Src, j: &mut J) {
    let n = j_count(j);
    // of a wide document mostly the wide part
    let mut k = if shape() == Shape::Wide && s.coin() { s.upto(1.min(n as u64 - 1)) as usize } else { s.upto(n as u64 - 1) as usize };
    let node = j_node(j, &mut k).expect("harness bug: node count");
    match node {
        J::Obj(o) if !o.is_empty() && s.chance(4, 5) => {
            let i = s.upto(o.len() as u64 - 1) as usize;
            match s.upto(7) {
                0 => {
                    o.remove(i);
                }
                1 => {
                    let d = o[i].clone();
                    o.insert(s.upto(o.len() as u64) as usize, d);
                }
                2 => o[i].0.push('x'),
                3 => o[i].0 = gen_string(s, 3),
                4 => o.insert(i, (gen_string(s, 3), some_j(s))),
                5 => {
                    let k = s.upto(o.len() as u64 - 1) as usize;
                    let l = o[k].0.clone();
                    o[i].0 = l;
                }
                6 => {
                    let k = s.upto(o.len() as u64 - 1) as usize;
                    o.swap(i, k);
                }
                _ => o[i].0 = o[i].0.to_uppercase(),
            }
        }
        J::Arr(a) if s.chance(4, 5) => match s.upto(3) {
            0 if !a.is_empty() => {
                a.pop();
            }
            1 if !a.is_empty() => {
                let i = s.upto(a.len() as u64 - 1) as usize;
                let x = a[i].clone();
                a.insert(i, x);
            }
            2 if a.len() > 1 => {
                let i = s.upto(a.len() as u64 - 2) as usize;
                a.swap(i, i + 1);
            }
            _ => a.push(some_j(s)),
        },
        J::Str(x) if s.chance(3, 5) => match s.upto(4) {
            0 => x.push(gen_char(s)),
            1 => {
                x.pop();
            }
            2 => *x = x.to_lowercase(),
            3 => x.insert(0, ' '),
            _ => x.clear(),
        },
        J::Num(x) if s.chance(3, 5) => match s.upto(5) {
            0 => *x = s.pick(&NUMBERS).to_string(),
            1 => x.push('0'),
            2 => x.push_str(".5"),
            3 => x.push_str("e0"),
            4 => {
                if x.starts_with('-') {
                    x.remove(0);
                } else {
                    x.insert(0, '-');
                }
            }
            _ => {
                let q = J::Str(x.clone());
                *node = q;
            }
        },
        _ => *node = some_j(s),
    }
}

fn c07_check(ctx: &mut Ctx, t: &Type, text: &str, good: Option<(&Val, &str)>) -> Res {
    ctx.case(|| format!("{} given {:?}", show_type(t), text));
    let want = match json::parse(text) {
        Ok(j) => ref_decode(t, &j),
        Err(e) => Dec::Reject(format!("not JSON: {}", e)),
    };
    let mut dec = no_panic("decoder", || JsonDecoder::new(t))?;
    let mut store = IntermediateDataSource::new();
    let got = no_panic("decode", || dec.parse(text, &mut store))?;
    match (want, got) {
        (Dec::Open, _) => ctx.label("open"),
        (Dec::Reject(_), Err(_)) => {
            ctx.nontrivial = true;
            ctx.label("refused");
        }
        (Dec::Reject(why), Ok(())) => {
            return fail("accepted", format!("{:?} is accepted for type {} although: {}", text, show_type(t), why));
        }
        (Dec::Value(v), Ok(())) => {
            ctx.label("accepted");
            compare(&store, &all_leaves(t, &v), true).map_err(|f| Fail { msg: format!("{} (document {:?})", f.msg, text), ..f })?;
        }
        (Dec::Value(_), Err(e)) => return fail("refused", format!("{:?} conforms to {} but is refused: {}", text, show_type(t), e)),
    }
    // the same decoder and store still work on a good document
    if let Some((v, doc)) = good {
        let r = no_panic("decode", || dec.parse(doc, &mut store))?;
        if let Err(e) = r {
            return fail("stuck", format!("after {:?} the decoder refuses {:?}: {}", text, doc, e));
        }
        compare(&store, &all_leaves(t, v), true)?;
    }
    Ok(())
}

fn c07_tree(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg { budget: 15, ..TypeCfg::default() });
    let v = gen_val(s, &t);
    let mut j = to_j(&t, &v);
    let doc = j.to_string();
    for _ in 0..1 + s.upto(1) {
        edit_j(s, &mut j);
    }
    c07_check(ctx, &t, &j.to_string(), Some((&v, &doc)))
}

const PIECES: [&str; 40] = [
    "{", "}", "[", "]", ",", ":", "\"", "\\", "null", "true", "false", "nul", "nullx", "0", "1", "-", "1.", ".5", "1e", "e5", "+1", "01", "\"a\"", "\"kind\"", "\"value\"", "\\u12",
    "\\ud800", "\\udc00", "\\ud83d\\ude00", "\\x", " ", "\n", "\u{a0}", "\u{0}", "\u{feff}", "//", "NaN", "'a'", "\u{1f600}", "\\",
];

fn c07_text(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg { budget: 10, wide: false, ..TypeCfg::default() });
    let v = gen_val(s, &t);
    let mut good = String::new();
    let mode = s.upto(1);
    spell(s, &t, &v, mode, &mut good);
    let mut c: Vec<char> = good.chars().collect();
    for _ in 0..1 + s.upto(1) {
        let n = c.len() as u64;
        match s.upto(6) {
            0 if n > 0 => {
                c.remove(s.upto(n - 1) as usize);
            }
            1 => {
                let p = s.pick(&PIECES).chars().collect::<Vec<_>>();
                let i = s.upto(n) as usize;
                c.splice(i..i, p);
            }
            2 if n > 0 => {
                let i = s.upto(n - 1) as usize;
                c[i] = gen_char(s);
            }
            3 if n > 1 => {
                let i = s.upto(n - 2) as usize;
                c.swap(i, i + 1);
            }
            4 => c.truncate(s.upto(n) as usize),
            5 => {
                let p = s.pick(&PIECES).chars().collect::<Vec<_>>();
                c.extend(p);
            }
            _ => c.extend(good.chars()),
        }
    }
    let text: String = c.into_iter().collect();
    c07_check(ctx, &t, &text, None)
}

fn c07_soup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg { budget: 4, max_depth: 2, wide: false, ..TypeCfg::default() });
    let text = match s.upto(3) {
        0 => gen_string(s, 20),
        _ => (0..s.len(8)).map(|_| *s.pick(&PIECES)).collect::<String>(),
    };
    c07_check(ctx, &t, &text, None)
}

/// every number text of a list against every primitive, bare and quoted
fn c07_numbers(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let p = PRIMS[i % 14];
    let n = NUMBERS[i / 14 % 40];
    let t = ty(Kind::Primitive(p));
    c07_check(ctx, &t, n, None)?;
    c07_check(ctx, &t, &format!("\"{}\"", n), None)?;
    c07_check(ctx, &t, &format!("[{}]", n), None)?;
    c07_check(ctx, &t, &format!("{} ", n), None)
}

fn c07_deep(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.upto(100_000) as usize;
    let t = gen_type(s, &TypeCfg { budget: 3, max_depth: 2, wide: false, ..TypeCfg::default() });
    let text = match s.upto(2) {
        0 => "[".repeat(n),
        1 => "{\"kind\":".repeat(n),
        _ => format!("{}{}", "[".repeat(n), "]".repeat(n)),
    };
    let mut dec = JsonDecoder::new(&t);
    let mut store = IntermediateDataSource::new();
    ctx.nontrivial = n > 10;
    ctx.case(|| format!("{} given {} brackets", show_type(&t), n));
    let got = no_panic("decode", || dec.parse(&text, &mut store))?;
    ensure!(got.is_err(), "accepted", "{} nested brackets accepted for {}", n, show_type(&t));
    Ok(())
}

// ---------------------------------------------------------------- C08 tokenizer
fn same_token(t: &Tokenizer, w: &Tok) -> bool {
    match w {
        Tok::Null => t.token == Token::Null,
        Tok::True => t.token == Token::True,
        Tok::False => t.token == Token::False,
        Tok::Str(x) => t.token == Token::String && t.value() == x,
        Tok::Num(x) => t.token == Token::Number && t.value() == x,
        Tok::Punct('[') => t.token == Token::BeginArray,
        Tok::Punct(']') => t.token == Token::EndArray,
        Tok::Punct('{') => t.token == Token::BeginObject,
        Tok::Punct('}') => t.token == Token::EndObject,
        Tok::Punct(',') => t.token == Token::Comma,
        Tok::Punct(_) => t.token == Token::Colon,
    }
}

fn token_name(t: &Token) -> &'static str {
    match t {
        Token::Eof => "end",
        Token::Error => "error",
        Token::Null => "null",
        Token::True => "true",
        Token::False => "false",
        Token::String => "string",
        Token::Number => "number",
        Token::BeginObject => "{",
        Token::EndObject => "}",
        Token::BeginArray => "[",
        Token::EndArray => "]",
        Token::Comma => ",",
        Token::Colon => ":",
    }
}

fn c08_check(input: &str) -> Result<usize, Fail> {
    let (toks, err) = json::lex_all(input);
    let r = no_panic("tokenizer", || -> Result<(), (String, String)> {
        let mut t: Option<Tokenizer> = None;
        for (i, w) in toks.iter().enumerate() {
            let step = match t {
                None => Tokenizer::new(input).map(|x| t = Some(x)),
                Some(ref mut t) => t.next(),
            };
            if let Err(e) = step {
                return Err(("refused".into(), format!("token {} of {:?} should be {:?} but is an error: {}", i, input, w, e)));
            }
            let t = t.as_ref().unwrap();
            if !same_token(t, w) {
                let val = if t.token == Token::String || t.token == Token::Number { t.value().to_string() } else { String::new() };
                return Err(("token".into(), format!("token {} of {:?} should be {:?} but is {} {:?}", i, input, w, token_name(&t.token), val)));
            }
        }
        let step = match t {
            None => Tokenizer::new(input).map(|x| t = Some(x)),
            Some(ref mut t) => t.next(),
        };
        match (step, &err) {
            (Err(_), Some(_)) => Ok(()),
            (Err(e), None) => Err(("refused".into(), format!("{:?} should end after {} tokens but gives an error: {}", input, toks.len(), e))),
            (Ok(()), Some(e)) => {
                let t = t.as_ref().unwrap();
                Err(("accepted".into(), format!("{:?}: after {} tokens the input is wrong ({}) but token {} is reported", input, toks.len(), e, token_name(&t.token))))
            }
            (Ok(()), None) => {
                let t = t.as_mut().unwrap();
                if t.token != Token::Eof {
                    return Err(("token".into(), format!("{:?} should end after {} tokens but continues with {}", input, toks.len(), token_name(&t.token))));
                }
                // the end stays the end
                if t.next().is_err() || t.token != Token::Eof {
                    return Err(("end".into(), format!("{:?}: advancing at the end does not stay at the end", input)));
                }
                Ok(())
            }
        }
    })?;
    match r {
        Ok(()) => Ok(toks.len()),
        Err((sig, msg)) => fail(&sig, msg),
    }
}

fn c08_soup(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.len(12);
    let mut text = String::new();
    for _ in 0..n {
        match s.weighted(&[6, 3, 2, 2, 1]) {
            0 => text.push_str(s.pick(&PIECES)),
            1 => text.push_str(s.pick(&NUMBERS)),
            2 => {
                let x = gen_string(s, 6);
                spell_string(s, &x, &mut text);
            }
            3 => ws(s, &mut text, 1),
            _ => text.push(gen_char(s)),
        }
    }
    ctx.case(|| format!("{:?}", text));
    let k = c08_check(&text)?;
    ctx.nontrivial = k >= 2;
    Ok(())
}

fn c08_mutants(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg { budget: 8, wide: false, ..TypeCfg::default() });
    let v = gen_val(s, &t);
    let mut text = String::new();
    let mode = s.upto(2);
    spell(s, &t, &v, mode, &mut text);
    if s.chance(2, 3) {
        let mut c: Vec<char> = text.chars().collect();
        let i = s.upto(c.len() as u64 - 1) as usize;
        match s.upto(3) {
            0 => {
                c.remove(i);
            }
            1 => c[i] = gen_char(s),
            2 => c.truncate(i),
            _ => {
                let p = s.pick(&PIECES).chars().collect::<Vec<_>>();
                c.splice(i..i, p);
            }
        }
        text = c.into_iter().collect();
    }
    ctx.case(|| format!("{:?}", text));
    let k = c08_check(&text)?;
    ctx.nontrivial = k >= 2;
    Ok(())
}

/// every code point: alone, in a string, after a literal, after a number, escaped (16 bit)
fn c08_chars(s: &mut Src, ctx: &mut Ctx) -> Res {
    let base = s.upto(u64::MAX) as u32 * 256;
    ctx.nontrivial = true;
    ctx.case(|| format!("code points U+{:04X}..U+{:04X} in 19 contexts", base, base + 255));
    for v in base..base + 256 {
        if v < 0x10000 {
            for text in [
                format!("\"\\u{:04x}\"", v),
                format!("\"\\u{:04X}x\" 1", v),
                format!("\"\\u{:04x}\\udc01\"", v),
                format!("\"\\ud801\\u{:04x}\"", v),
            ] {
                c08_check(&text)?;
            }
        }
        if let Some(c) = char::from_u32(v) {
            for text in [
                format!("{}1", c),
                format!("\"{}\",", c),
                format!("null{}", c),
                format!("12{}", c),
                format!("\"\\{}\"", c),
                format!("\"\\u00{}4\"", c),
                format!("1{}5", c),
                format!("-{}", c),
                format!("[{}]", c),
                format!("0{}", c),
                format!("1.5{}", c),
                format!("1e5{}", c),
                format!("1e{}", c),
                format!("1.{}", c),
                format!("true{}", c),
                format!("false{} ", c),
                format!("nul{}", c),
                format!("\"a{}b\"{}1", c, c),
                format!(" {} 1", c),
            ] {
                c08_check(&text)?;
            }
        }
    }
    Ok(())
}

/// every text of up to 6 characters over a number alphabet
fn c08_numbers(s: &mut Src, ctx: &mut Ctx) -> Res {
    const A: [char; 8] = ['0', '7', '-', '+', '.', 'e', 'E', ' '];
    let i = s.upto(u64::MAX);
    ctx.nontrivial = true;
    let mut x = i;
    let mut head = String::new();
    for _ in 0..4 {
        head.push(A[(x % 8) as usize]);
        x /= 8;
    }
    ctx.case(|| format!("number texts {:?} + 0..2 more characters", head));
    c08_check(&head)?;
    for a in A {
        c08_check(&format!("{}{}", head, a))?;
        for b in A {
            c08_check(&format!("{}{}{}", head, a, b))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11 paths
enum Res11 {
    Path(Vec<usize>),
    Bad,
    Open,
}

fn ref_resolve(t: &Type, name: &str) -> Res11 {
    let mut t = t;
    let mut out = vec![];
    for c in name.split('.') {
        match &t.kind {
            Kind::Struct(f) => match f.iter().position(|f| f.label == c) {
                Some(i) => {
                    out.push(i);
                    t = &f[i].typ;
                }
                None => return Res11::Bad,
            },
            Kind::Enum(f) => match f.iter().position(|f| f.label == c) {
                Some(i) => {
                    out.push(i);
                    t = &f[i].typ;
                }
                None => return Res11::Bad,
            },
            Kind::Tuple(v) => {
                if c.is_empty() || !c.bytes().all(|b| b.is_ascii_digit()) {
                    if c.strip_prefix('+').map(|d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())).unwrap_or(false) {
                        return Res11::Open;
                    }
                    return Res11::Bad;
                }
                let canonical = c.trim_start_matches('0');
                match (if canonical.is_empty() { "0" } else { canonical }).parse::<usize>() {
                    Ok(i) if i < v.len() => {
                        if c.len() > 1 && c.starts_with('0') {
                            return Res11::Open;
                        }
                        out.push(i);
                        t = &v[i];
                    }
                    _ => return Res11::Bad,
                }
            }
            _ => return Res11::Bad,
        }
    }
    Res11::Path(out)
}

fn c11_resolve(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg { ident_labels: true, ..TypeCfg::default() });
    // walk to an element
    let mut comps: Vec<String> = vec![];
    let mut cur = &t;
    loop {
        let (l, next): (String, &Type) = match &cur.kind {
            Kind::Struct(f) => {
                let i = s.upto(f.len() as u64 - 1) as usize;
                (f[i].label.clone(), &f[i].typ)
            }
            Kind::Enum(f) => {
                let i = s.upto(f.len() as u64 - 1) as usize;
                (f[i].label.clone(), &f[i].typ)
            }
            Kind::Tuple(v) => {
                let i = s.upto(v.len() as u64 - 1) as usize;
                (i.to_string(), &v[i])
            }
            _ => break,
        };
        comps.push(l);
        cur = next;
        if s.chance(1, 5) {
            break;
        }
    }
    if comps.is_empty() || s.chance(1, 3) {
        // damage the name
        match s.upto(7) {
            0 => comps.push(s.pick(&["0", "a", "", "kind"]).to_string()),
            1 => {
                if let Some(l) = comps.last_mut() {
                    l.push('x')
                }
            }
            2 => {
                if let Some(l) = comps.last_mut() {
                    *l = l.to_uppercase()
                }
            }
            3 => {
                if let Some(l) = comps.last_mut() {
                    l.pop();
                }
            }
            4 => comps.insert(0, gen_string(s, 3)),
            5 => {
                let i = s.upto(comps.len() as u64) as usize;
                comps.insert(i, s.pick(&["", "0", "1", "99", "18446744073709551616", "-1", " 0", "a"]).to_string())
            }
            6 => comps.truncate(comps.len() / 2),
            _ => comps = vec![gen_string(s, 8)],
        }
    }
    let name = comps.join(".");
    ctx.nontrivial = comps.len() >= 2;
    ctx.case(|| format!("{:?} in {}", name, show_type(&t)));
    let got = no_panic("resolve_qualified_name", || Path::resolve_qualified_name(&t, &name))?;
    match (ref_resolve(&t, &name), got) {
        (Res11::Open, _) => ctx.label("open"),
        (Res11::Bad, Err(_)) => ctx.label("refused"),
        (Res11::Bad, Ok(p)) => return fail("accepted", format!("{:?} names no element of {} but resolves to {:?}", name, show_type(&t), p)),
        (Res11::Path(w), Err(e)) => return fail("refused", format!("{:?} should resolve to {:?} in {}: {}", name, w, show_type(&t), e)),
        (Res11::Path(w), Ok(p)) => {
            ctx.label("resolved");
            ensure!(p.path() == &w[..], "other-path", "{:?} resolves to {:?} instead of {:?} in {}", name, p, w, show_type(&t));
            let mut elem = &t;
            for c in &w {
                elem = match &elem.kind {
                    Kind::Struct(f) => &f[*c].typ,
                    Kind::Enum(f) => &f[*c].typ,
                    Kind::Tuple(v) => &v[*c],
                    _ => panic!("harness bug"),
                };
            }
            let got = no_panic("extract", || t.extract(&p).clone())?;
            ensure!(got == *elem, "other-type", "extracting {:?} gives {} instead of {}", name, show_type(&got), show_type(elem));
        }
    }
    Ok(())
}

fn mk(c: &[usize]) -> Path {
    c.iter().fold(Path::create_empty(), |p, x| p.with_component(*x))
}

fn c11_pair(a: &[usize], b: &[usize]) -> Res {
    let (p, q) = (mk(a), mk(b));
    ensure!(p.path() == a, "path", "components {:?} become {:?}", a, p.path());
    let want = a.cmp(b);
    ensure!(p.cmp(&q) == want, "order", "{:?} against {:?} is {:?} instead of {:?}", a, b, p.cmp(&q), want);
    ensure!(p.partial_cmp(&q) == Some(want), "order", "partial order of {:?} and {:?} differs", a, b);
    ensure!((p == q) == (want == Ordering::Equal), "equality", "{:?} == {:?} is {}", a, b, p == q);
    ensure!((p != q) != (p == q), "equality", "{:?} != {:?} is {}", a, b, p != q);
    ensure!((p < q) == (want == Ordering::Less) && (p > q) == (want == Ordering::Greater) && (p <= q) == (want != Ordering::Greater) && (p >= q) == (want != Ordering::Less), "order", "comparison operators disagree on {:?} and {:?}", a, b);
    ensure!(p.is_prefix_of(&q) == b.starts_with(a), "prefix", "{:?} prefix of {:?}: {}", a, b, p.is_prefix_of(&q));
    ensure!(p.is_proper_prefix_of(&q) == (b.starts_with(a) && a != b), "proper-prefix", "{:?} proper prefix of {:?}: {}", a, b, p.is_proper_prefix_of(&q));
    Ok(())
}

fn c11_order(s: &mut Src, ctx: &mut Ctx) -> Res {
    let comp = |s: &mut Src| *s.pick(&[0usize, 1, 2, 3, 9, 10, 11, 100, 255, 256, 65536, usize::MAX - 1, usize::MAX]);
    let a: Vec<usize> = (0..s.len(6)).map(|_| comp(s)).collect();
    let mut b = a.clone();
    b.truncate(s.upto(a.len() as u64) as usize);
    for _ in 0..s.upto(3) {
        b.push(comp(s));
    }
    let common = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    ctx.nontrivial = common > 0;
    ctx.case(|| format!("{:?} and {:?}", a, b));
    c11_pair(&a, &b)?;
    c11_pair(&b, &a)?;
    c11_pair(&a, &a)
}

fn nth_path(mut i: usize) -> Vec<usize> {
    // 1 + 3 + 9 + 27 = 40 paths
    let mut len = 0;
    let mut n = 1;
    while i >= n {
        i -= n;
        n *= 3;
        len += 1;
    }
    (0..len)
        .map(|_| {
            let d = i % 3;
            i /= 3;
            d
        })
        .collect()
}

fn c11_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let a = nth_path(i % 121);
    ctx.nontrivial = true;
    ctx.case(|| format!("{:?} against all paths of up to 4 components below 3", a));
    for k in 0..121 {
        c11_pair(&a, &nth_path(k))?;
    }
    Ok(())
}

fn c03_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    shaped(Shape::Wide, || c03_types(s, ctx))
}
fn c03_each(s: &mut Src, ctx: &mut Ctx) -> Res {
    each_small(s, ctx, 2, c03_types)
}
fn c04_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    shaped(Shape::Wide, || c04_random(s, ctx))
}
fn c04_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    each_small(s, ctx, 2, c04_random)
}
fn c05_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    shaped(Shape::Wide, || c05_random(s, ctx))
}
fn c05_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    each_small(s, ctx, 2, c05_random)
}
fn c06_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    shaped(Shape::Wide, || c06_random(s, ctx))
}
fn c06_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    each_small(s, ctx, 3, c06_random)
}
fn c07_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    shaped(Shape::Wide, || c07_tree(s, ctx))
}
fn c07_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    each_small(s, ctx, 6, c07_tree)
}
fn c11_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    shaped(Shape::Wide, || c11_resolve(s, ctx))
}
fn c11_each(s: &mut Src, ctx: &mut Ctx) -> Res {
    each_small(s, ctx, 6, c11_resolve)
}

/// a few types for which documents are enumerated
fn doc_types() -> Vec<Type> {
    let p = |x| ty(Kind::Primitive(x));
    let st = |v: Vec<(&str, Type)>| ty(Kind::Struct(v.into_iter().map(|(l, t)| Field { label: l.into(), typ: Box::new(t) }).collect()));
    let en = |v: Vec<(&str, Type)>| ty(Kind::Enum(v.into_iter().map(|(l, t)| Case { label: l.into(), typ: Box::new(t) }).collect()));
    let tu = |v: Vec<Type>| ty(Kind::Tuple(v.into_iter().map(Box::new).collect()));
    vec![
        st(vec![("a", p(Primitive::U8)), ("b", ty(Kind::Unit))]),
        en(vec![("a", ty(Kind::Unit)), ("b", p(Primitive::U8))]),
        st(vec![("kind", ty(Kind::String)), ("value", p(Primitive::F64))]),
        st(vec![("a", ty(Kind::String))]),
        en(vec![("a", st(vec![("b", ty(Kind::Unit))]))]),
        st(vec![("a", ty(Kind::Unit)), ("b", ty(Kind::Unit)), ("kind", p(Primitive::Bool))]),
        tu(vec![p(Primitive::U8), ty(Kind::Unit)]),
        tu(vec![st(vec![("a", ty(Kind::Unit))])]),
        ty(Kind::String),
        p(Primitive::U8),
        ty(Kind::Unit),
        p(Primitive::Char),
    ]
}

const MEMBER_KEYS: [&str; 5] = ["a", "b", "kind", "value", ""];
const MEMBER_VALUES: [&str; 6] = ["null", "1", "\"a\"", "\"b\"", "true", "{\"b\":null}"];

/// every object of up to three members over five keys and six values
fn c07_objects(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let t = &doc_types()[i % 12];
    // 0 stands for no member
    let (m1, m2) = (i / 12 % 31, i / 12 / 31);
    let mut refused = false;
    for m3 in 0..31 {
        let ms: Vec<String> = [m1, m2, m3].iter().filter(|m| **m > 0).map(|m| format!("\"{}\":{}", MEMBER_KEYS[(m - 1) % 5], MEMBER_VALUES[(m - 1) / 5])).collect();
        c07_check(ctx, t, &format!("{{{}}}", ms.join(",")), None)?;
        if m3 < 7 {
            let vs: Vec<&str> = [m1, m2, m3].iter().filter(|m| **m > 0).map(|m| MEMBER_VALUES[(m - 1) / 5]).collect();
            c07_check(ctx, t, &format!("[{}]", vs.join(",")), None)?;
        }
        refused |= ctx.nontrivial;
    }
    ctx.nontrivial = refused;
    ctx.labels.clear();
    ctx.case(|| format!("objects with members {} and {} and another one for {}", m1, m2, show_type(t)));
    Ok(())
}

const DOC_LEXEMES: [&str; 12] = ["{", "}", "[", "]", ",", ":", "\"a\"", "\"kind\"", "\"value\"", "1", "null", "\"b\""];

/// every text of five lexemes, and every continuation of an object begun
fn c07_lexemes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let t = &doc_types()[i % 12];
    let first = i / 12;
    let mut refused = false;
    for k in 0..1728 {
        let l = [first / 12, first % 12, k / 144, k / 12 % 12, k % 12];
        let text: String = l.iter().map(|x| DOC_LEXEMES[*x]).collect();
        c07_check(ctx, t, &text, None)?;
        if first / 12 == 0 {
            // {"a":1 followed by four lexemes, the usual way to get the end of a record wrong
            let text: String = ["{", "\"a\"", ":", "1"].into_iter().chain(l[1..].iter().map(|x| DOC_LEXEMES[*x])).collect();
            c07_check(ctx, t, &text, None)?;
            let text: String = ["{", "\"kind\"", ":", "\"a\"", ","].into_iter().chain(l[1..].iter().map(|x| DOC_LEXEMES[*x])).collect();
            c07_check(ctx, t, &text, None)?;
        }
        refused |= ctx.nontrivial;
    }
    ctx.nontrivial = refused;
    ctx.labels.clear();
    ctx.case(|| format!("texts of five lexemes from {:?} for {}", (first / 12, first % 12), show_type(t)));
    Ok(())
}

/// every code point wherever a document is sensitive to single characters
fn c07_chars(s: &mut Src, ctx: &mut Ctx) -> Res {
    let base = s.upto(u64::MAX) as u32 * 256;
    let label = |l: &str| Field { label: l.into(), typ: Box::new(ty(Kind::Primitive(Primitive::U8))) };
    let case = |l: &str| Case { label: l.into(), typ: Box::new(ty(Kind::Unit)) };
    let prim = |p| ty(Kind::Primitive(p));
    let types = [prim(Primitive::Char), ty(Kind::Unit), prim(Primitive::U8), prim(Primitive::F32), prim(Primitive::Bool), ty(Kind::String)];
    let record = ty(Kind::Struct(vec![label("a")]));
    let choice = ty(Kind::Enum(vec![case("a")]));
    for c in base..base + 256 {
        // lone surrogates can only be spelled as escapes
        let escaped: String = match char::from_u32(c) {
            Some(c) => c.encode_utf16(&mut [0; 2]).iter().map(|u| format!("\\u{:04x}", u)).collect(),
            None => format!("\\u{:04x}", c),
        };
        let mut forms = vec![escaped];
        forms.extend(char::from_u32(c).map(String::from));
        for x in &forms {
            for (t, text) in [
                (0, format!("\"{}\"", x)),
                (0, format!("\"a{}\"", x)),
                (0, format!("\"{}a\"", x)),
                (0, format!("\"\u{1f600}{}\"", x)),
                (0, x.clone()),
                (1, format!("{}null", x)),
                (1, format!("null{}", x)),
                (1, format!("nul{}l", x)),
                (2, format!("{}7", x)),
                (2, format!("7{}", x)),
                (2, format!("\"7{}\"", x)),
                (3, format!("1{}5", x)),
                (3, format!("1.5{}", x)),
                (3, format!("1e{}5", x)),
                (4, format!("tru{}", x)),
                (5, format!("{}a{}", x, x)),
                (5, format!("\"\\{}\"", x)),
            ] {
                c07_check(ctx, &types[t], &text, None)?;
            }
            for text in [
                format!("{{\"a{}\":1}}", x),
                format!("{{\"{}\":1}}", x),
                format!("{{\"{}a\":1}}", x),
                format!("{{{}\"a\":1}}", x),
                format!("{{\"a\"{}:1}}", x),
                format!("{{\"a\"{}1}}", x),
                format!("{{\"a\":{}1}}", x),
                format!("{{\"a\":1{}}}", x),
                format!("{{\"a\":1{}", x),
            ] {
                c07_check(ctx, &record, &text, None)?;
            }
            for text in [
                format!("{{\"kind\":\"a{}\",\"value\":null}}", x),
                format!("{{\"kind\":\"{}\",\"value\":null}}", x),
                format!("{{\"kind{}\":\"a\",\"value\":null}}", x),
                format!("{{\"kind\":\"a\",\"value{}\":null}}", x),
                format!("{{\"kind\":\"a\"{}\"value\":null}}", x),
            ] {
                c07_check(ctx, &choice, &text, None)?;
            }
        }
    }
    ctx.nontrivial = true;
    ctx.labels.clear();
    ctx.case(|| format!("U+{:04X}..U+{:04X} in 31 places", base, base + 255));
    Ok(())
}

/// every text of four lexemes over what a number, literal or string can begin with
fn c08_lexemes(s: &mut Src, ctx: &mut Ctx) -> Res {
    const L: [&str; 20] = ["{", "]", ",", ":", "\"", "\\", "u00", "e9", "d83d", "\\ude00", "-", "0", "7", ".", "E", "+", "null", "tru", " ", "\n"];
    let i = s.upto(u64::MAX) as usize;
    let mut most = 0;
    for k in 0..400 {
        let text: String = [i / 20, i % 20, k / 20, k % 20].iter().map(|x| L[*x]).collect();
        most = most.max(c08_check(&text)?);
    }
    ctx.nontrivial = most >= 2;
    ctx.case(|| format!("texts beginning with {:?}", [L[i / 20], L[i % 20]]));
    Ok(())
}

/// long texts of many tokens, long strings and long numbers
fn c08_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.range(20, 3000);
    let mut text = String::new();
    let unit: Vec<String> = (0..s.range(1, 6))
        .map(|_| match s.upto(4) {
            0 => s.pick(&PIECES[..24]).to_string(),
            1 => format!("\"{}\"", "x\\n\u{e9}\u{1f600}".repeat(s.upto(40) as usize)),
            2 => format!("{}{}", if s.coin() { "-" } else { "" }, "9".repeat(1 + s.upto(300) as usize)),
            3 => format!("1.{}e-{}", "0".repeat(s.upto(100) as usize + 1), s.upto(100_000)),
            _ => " ".repeat(s.upto(300) as usize),
        })
        .collect();
    for k in 0..n {
        text.push_str(&unit[k % unit.len()]);
        text.push_str([" ", "\t", "\r", "\n"][k % 4]);
        if text.len() > 60_000 {
            break;
        }
    }
    // one more character somewhere
    if s.coin() {
        let mut c: Vec<char> = text.chars().collect();
        c.insert(s.upto(c.len() as u64) as usize, gen_char(s));
        text = c.into_iter().collect();
    }
    ctx.case(|| format!("{} pieces {:?}", n, unit));
    let tokens = c08_check(&text)?;
    ctx.nontrivial = tokens >= 2;
    if tokens > 255 {
        ctx.label("more than 255 tokens");
    }
    Ok(())
}

/// long paths that differ late
fn c11_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.range(6, 600);
    let a: Vec<usize> = (0..n).map(|i| (i * 7) % (1 + s.upto(3) as usize)).collect();
    let mut b = a.clone();
    let at = s.upto(n as u64) as usize;
    match s.upto(3) {
        0 => b.truncate(at),
        1 if at < n => b[at] ^= 1,
        2 => b.insert(at, s.upto(2) as usize),
        _ => b.extend_from_slice(&a[at..]),
    }
    ctx.nontrivial = true;
    ctx.case(|| format!("{} components against {} components, different at {}", a.len(), b.len(), at));
    c11_pair(&a, &b)?;
    c11_pair(&b, &a)
}

const LABELS: &[&str] = &["labels within one struct or enum are distinct"];

pub fn properties() -> Vec<Property> {
    let arm = |name, quick, thorough, f: CaseFn| Arm { name, quick, thorough, exhaustive: false, f };
    let all = |name, n, f: CaseFn| Arm { name, quick: n, thorough: n, exhaustive: true, f };
    vec![
        Property {
            id: "C03",
            rule: "random types (some with repeated members) printed with random layout; token and character edits of type texts, token soups and arbitrary Unicode judged by a reference recogniser; all five-token texts over nine tokens in three contexts; every word of a 350-word list in every place of a name or type; deeply nested types; every type of up to five nodes; wide (up to 2049 members), deep (90 levels) and long ones. Non-trivial: at least 5 tokens (or 5 bytes for soups)",
            assumptions: &[],
            arms: vec![
                arm("types", 180_000, 2_000_000, c03_types),
                arm("mutants", 360_000, 4_000_000, c03_mutants),
                arm("soup", 180_000, 2_000_000, c03_soup),
                all("words", crate::words::WORDS.len() as u64, c03_words),
                arm("deep", 600, 2_000, c03_deep),
                all("small", 6561, c03_small),
                all("each", SMALL_TYPES, c03_each),
                arm("wide", 1_200, 20_000, c03_wide),
            ],
        },
        Property {
            id: "C04",
            rule: "random types and values encoded into a plain, a chunking/interrupting and a failing stream; the document read by an independent strict JSON parser and matched against the value; every Unicode character in a char, a string and (1 in 16) a label; every type of up to five nodes; wide (up to 2049 members), deep (90 levels) and long ones. Non-trivial: at least 3 leaves or a character that is not plain printable ASCII",
            assumptions: LABELS,
            arms: vec![arm("random", 450_000, 5_000_000, c04_random), all("chars", 4352, c04_chars), all("small", SMALL_TYPES, c04_small), arm("wide", 1_200, 20_000, c04_wide)],
        },
        Property {
            id: "C05",
            rule: "random types and values encoded, decoded with a reused decoder and store, compared leaf by leaf and encoded again; every Unicode character; 32 values per case of each number type; every type of up to five nodes; wide (up to 2049 members), deep (90 levels) and long ones. Non-trivial: at least 3 leaves or a special character",
            assumptions: LABELS,
            arms: vec![arm("random", 360_000, 4_000_000, c05_random), arm("numbers", 60_000, 1_000_000, c05_numbers), all("chars", 4352, c05_chars), all("small", SMALL_TYPES, c05_small), arm("wide", 1_200, 20_000, c05_wide)],
        },
        Property {
            id: "C06",
            rule: "random types and values respelled: shuffled fields, whitespace, every kind of escape incl. surrogate pairs, exponents, quoted numbers; floats with up to 1100 digits on, just below or just above the middle between two neighbours; every code point as lower and upper case escapes; every type of up to five nodes; wide (up to 2049 members), deep (90 levels) and long ones. Non-trivial: the text differs from the encoder's own",
            assumptions: LABELS,
            arms: vec![arm("random", 450_000, 5_000_000, c06_random), all("chars", 1088, c06_chars), arm("floats", 60_000, 2_000_000, c06_floats), all("small", SMALL_TYPES, c06_small), arm("wide", 1_200, 20_000, c06_wide)],
        },
        Property {
            id: "C07",
            rule: "valid documents with one or two tree edits or text edits, token soups, all listed boundary numbers for all primitives, deep nesting, edits of documents of every small type and of wide ones, every object of up to three members over five keys and six values and every text of five lexemes for twelve types, every code point, raw and escaped, in 31 places; verdict compared with a strict JSON parser plus a reference conformance check, and the decoder used again afterwards. Spellings the documentation leaves open (-0 for unsigned, quoted odd spellings, floats beyond the range, value before kind) count only for absence of panics. Non-trivial: the reference refuses the document",
            assumptions: LABELS,
            arms: vec![
                arm("tree", 450_000, 5_000_000, c07_tree),
                arm("text", 450_000, 5_000_000, c07_text),
                arm("soup", 180_000, 2_000_000, c07_soup),
                arm("deep", 1_200, 4_000, c07_deep),
                all("numbers", 560, c07_numbers),
                all("small", SMALL_TYPES, c07_small),
                all("objects", 12 * 31 * 31, c07_objects),
                all("lexemes", 12 * 144, c07_lexemes),
                all("chars", 4352, c07_chars),
                arm("wide", 1_800, 20_000, c07_wide),
            ],
        },
        Property {
            id: "C08",
            rule: "soups of JSON lexemes and fragments, edited documents, every code point in 19 lexical contexts, every 4..6 character text over a number alphabet, every text of four out of twenty fragments, texts of thousands of tokens, against a reference lexer. Non-trivial: at least 2 tokens",
            assumptions: &["a literal name directly followed by a letter or digit is not a token"],
            arms: vec![
                arm("soup", 750_000, 8_000_000, c08_soup),
                arm("mutants", 360_000, 4_000_000, c08_mutants),
                all("chars", 4352, c08_chars),
                all("numbers", 4096, c08_numbers),
                all("lexemes", 400, c08_lexemes),
                arm("long", 1_200, 10_000, c08_long),
            ],
        },
        Property {
            id: "C11",
            rule: "qualified names of random elements of random types, damaged names, judged by a reference resolver; path pairs sharing prefixes and all pairs of paths of up to 4 components below 3 against vector comparison; names in every small type and in wide ones, paths of hundreds of components. Non-trivial: at least 2 name components / a shared prefix",
            assumptions: LABELS,
            arms: vec![arm("resolve", 450_000, 5_000_000, c11_resolve), arm("order", 600_000, 5_000_000, c11_order), all("small", 121, c11_small), all("each", SMALL_TYPES, c11_each), arm("wide", 6_000, 60_000, c11_wide), arm("long", 60_000, 500_000, c11_long)],
        },
    ]
}
