//! Record types and values: generators, reference (de)coding, comparison against data sources.

use crate::engine::*;
use crate::ensure;
use crate::json::J;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::types::{Case, Field, Kind, Path, Primitive, Type};
use cathlamet::core::value::PrimitiveValue as Pv;

#[derive(Clone, Debug)]
pub enum Val {
    Unit,
    Prim(Pv),
    Str(String),
    /// tuple components or struct fields
    Seq(Vec<Val>),
    Enum(usize, Box<Val>),
}

pub fn ty(kind: Kind) -> Type {
    Type { kind }
}

pub const PRIMS: [Primitive; 14] = [
    Primitive::U8,
    Primitive::Bool,
    Primitive::Char,
    Primitive::U16,
    Primitive::U32,
    Primitive::U64,
    Primitive::U128,
    Primitive::I8,
    Primitive::I16,
    Primitive::I32,
    Primitive::I64,
    Primitive::I128,
    Primitive::F32,
    Primitive::F64,
];

#[derive(Clone, Copy)]
pub struct TypeCfg {
    /// labels are identifiers of the type language
    pub ident_labels: bool,
    pub max_depth: usize,
    pub budget: usize,
    /// allow structs with > 16 fields and enums with > 16 cases
    pub wide: bool,
}

impl Default for TypeCfg {
    fn default() -> Self {
        TypeCfg { ident_labels: false, max_depth: 5, budget: 40, wide: true }
    }
}

const KEYWORDS: [&str; 17] = [
    "bool", "char", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "struct", "enum",
];

pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.contains(&s)
}

/// a word of some language, or a long identifier
pub fn word(s: &mut Src) -> String {
    let w = s.pick(crate::words::WORDS).to_string();
    match s.weighted(&[8, 1, 1, 1, 1]) {
        0 => w,
        1 => w.to_uppercase(),
        2 => format!("{}{}", w[..1].to_uppercase(), &w[1..]),
        3 => format!("{}{}", w, s.upto(300)),
        _ => format!("{}_", w).repeat(1 + s.upto(60) as usize),
    }
}

fn gen_label(s: &mut Src, cfg: &TypeCfg, used: &[String], index: usize) -> String {
    let base = match s.weighted(&[12, 4, 2, 4, 1]) {
        0 => ["a", "b", "c", "d", "e", "f"][s.upto(5) as usize].to_string(),
        1 => ["kind", "value", "_", "A", "x1", "u8x", "structure", "Enum", "_0", "bool_", "a_b", "i1289"][s.upto(11) as usize].to_string(),
        2 if !cfg.ident_labels => gen_string(s, 6),
        2 => "Z9_".to_string(),
        3 => format!("f{}", s.upto(99)),
        _ => word(s),
    };
    let mut l = base;
    if used.iter().any(|u| *u == l) {
        l = format!("{}{}", l, index);
    }
    while used.iter().any(|u| *u == l) || (cfg.ident_labels && (is_keyword(&l) || l.is_empty())) {
        l.push('_');
    }
    l
}

/// Number of members of a struct / enum / tuple
fn gen_width(s: &mut Src, wide: bool, is_enum: bool) -> usize {
    let w: &[u32] = if wide { &[200, 12, 3] } else { &[1] };
    match s.weighted(w) {
        0 => 1 + s.len(5),
        1 => 1 + s.upto(19) as usize,
        _ => {
            if is_enum {
                *s.pick(&[16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 130, 200, 255, 256, 257, 300])
            } else {
                *s.pick(&[31, 32, 33, 62, 63, 64, 65, 66, 70])
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Shape {
    Any,
    /// many members, long strings, deep nesting
    Wide,
    /// the n-th of all small types
    Small(usize),
}

thread_local! {
    static SHAPE: std::cell::Cell<Shape> = std::cell::Cell::new(Shape::Any);
}

struct Reset;

impl Drop for Reset {
    fn drop(&mut self) {
        SHAPE.with(|x| x.set(Shape::Any));
    }
}

/// Runs a case whose types have the given shape.
pub fn shaped(shape: Shape, f: impl FnOnce() -> Res) -> Res {
    let _reset = Reset;
    SHAPE.with(|x| x.set(shape));
    f()
}

pub fn shape() -> Shape {
    SHAPE.with(|x| x.get())
}

/// A case over each small type, with a few values each.
pub fn each_small(s: &mut Src, ctx: &mut Ctx, rounds: u64, f: CaseFn) -> Res {
    let i = s.upto(u64::MAX);
    let mut nontrivial = false;
    let mut first = None;
    for r in 0..rounds {
        // values follow from the index, so that the index alone replays the case
        let mut inner = Src::random(fnv(&(i * 64 + r).to_le_bytes()));
        let k = i as usize;
        shaped(Shape::Small(k), || f(&mut inner, ctx))?;
        nontrivial |= ctx.nontrivial;
        if first.is_none() {
            first = Some(ctx.desc.clone());
        }
    }
    ctx.nontrivial = nontrivial;
    let first = first.unwrap_or_default();
    ctx.case(|| first);
    Ok(())
}

const SMALL_NODES: usize = 5;

/// all types of at most five nodes over a few leaves
pub fn small_types() -> &'static [Type] {
    static ALL: std::sync::OnceLock<Vec<Type>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        let leaf = |k| ty(k);
        let mut by: Vec<Vec<Type>> = vec![
            vec![],
            vec![
                leaf(Kind::Unit),
                leaf(Kind::Primitive(Primitive::U8)),
                leaf(Kind::Primitive(Primitive::U16)),
                leaf(Kind::Primitive(Primitive::U128)),
                leaf(Kind::Primitive(Primitive::Bool)),
                leaf(Kind::String),
            ],
        ];
        for n in 2..=SMALL_NODES {
            let mut rows: Vec<Vec<Type>> = vec![];
            sequences(&by, n - 1, &mut vec![], &mut rows);
            let mut out = vec![];
            for m in rows {
                let l = |i: usize| ["a", "b", "c", "d"][i].to_string();
                out.push(ty(Kind::Tuple(m.iter().map(|t| Box::new(t.clone())).collect())));
                out.push(ty(Kind::Struct(m.iter().enumerate().map(|(i, t)| Field { label: l(i), typ: Box::new(t.clone()) }).collect())));
                out.push(ty(Kind::Enum(m.iter().enumerate().map(|(i, t)| Case { label: l(i), typ: Box::new(t.clone()) }).collect())));
            }
            by.push(out);
        }
        by.into_iter().flatten().collect()
    })
}

/// how many there are
pub const SMALL_TYPES: u64 = 6 + 18 + 162 + 1782 + 21870;

fn sequences(by: &[Vec<Type>], left: usize, now: &mut Vec<Type>, out: &mut Vec<Vec<Type>>) {
    if left == 0 {
        out.push(now.clone());
        return;
    }
    for k in 1..=left {
        for t in &by[k] {
            now.push(t.clone());
            sequences(by, left - k, now, out);
            now.pop();
        }
    }
}

fn wide_count(s: &mut Src) -> usize {
    match s.weighted(&[5, 5, 3, 1]) {
        0 => s.range(10, 40),
        1 => s.range(40, 300),
        2 => (1usize << s.range(4, 9)) + s.upto(2) as usize - 1,
        _ => (1usize << s.range(9, 11)) + s.upto(2) as usize - 1,
    }
}

fn wide_members(s: &mut Src, cfg: &TypeCfg, n: usize) -> Vec<Type> {
    let small = TypeCfg { wide: false, max_depth: 3, ..*cfg };
    let pattern: Vec<Type> = (0..s.range(1, 5))
        .map(|_| {
            let mut budget = 4;
            let depth = s.upto(2) as usize;
            gen_type_in(s, &small, depth, &mut budget)
        })
        .collect();
    let shift = s.upto(4) as usize;
    // one of them is different
    let odd = s.upto(n as u64) as usize;
    (0..n)
        .map(|i| if i == odd { ty(Kind::Enum(vec![Case { label: "x".into(), typ: Box::new(ty(Kind::String)) }, Case { label: "y".into(), typ: Box::new(ty(Kind::Unit)) }])) } else { pattern[(i >> shift) % pattern.len()].clone() })
        .collect()
}

fn wide_of(s: &mut Src, members: Vec<Type>) -> Type {
    let form = s.upto(2);
    let label = |i: usize| match form {
        0 => format!("n{}", i),
        1 => format!("the_members_of_a_wide_record_have_names_with_a_long_common_prefix_{:05}", i),
        _ => format!("{}_{}", crate::words::WORDS[i % crate::words::WORDS.len()], i),
    };
    let boxed = members.into_iter().map(Box::new).enumerate();
    match s.upto(2) {
        0 => ty(Kind::Struct(boxed.map(|(i, typ)| Field { label: label(i), typ }).collect())),
        1 => ty(Kind::Tuple(boxed.map(|(_, typ)| typ).collect())),
        _ => ty(Kind::Enum(boxed.map(|(i, typ)| Case { label: label(i), typ }).collect())),
    }
}

fn gen_wide(s: &mut Src, cfg: &TypeCfg) -> Type {
    match s.weighted(&[5, 3, 2, 2]) {
        0 => {
            let n = wide_count(s);
            let m = wide_members(s, cfg, n);
            wide_of(s, m)
        }
        1 => {
            // a wide one among a few others
            let n = wide_count(s);
            let m = wide_members(s, cfg, n);
            let inner = wide_of(s, m);
            let k = s.range(1, 4);
            let mut outer = wide_members(s, cfg, k);
            outer.insert(s.upto(k as u64) as usize, inner);
            wide_of(s, outer)
        }
        2 => {
            // wide ones in a wide one
            let (n, k) = (s.range(5, 40), s.range(5, 40));
            let m = wide_members(s, cfg, n);
            let inner = wide_of(s, m);
            let mut outer = wide_members(s, cfg, 2);
            outer.extend((0..k).map(|_| inner.clone()));
            wide_of(s, outer)
        }
        _ => {
            let mut budget = 4;
            let mut t = gen_type_in(s, cfg, 2, &mut budget);
            for _ in 0..s.range(6, 90) {
                let k = s.len(2);
                let mut m = wide_members(s, &TypeCfg { max_depth: 1, ..*cfg }, k.max(1));
                m.truncate(k);
                m.insert(s.upto(k as u64) as usize, t);
                t = wide_of(s, m);
            }
            t
        }
    }
}

pub fn gen_type(s: &mut Src, cfg: &TypeCfg) -> Type {
    match shape() {
        Shape::Any => (),
        Shape::Wide => return gen_wide(s, cfg),
        Shape::Small(n) => return small_types()[n].clone(),
    }
    let mut budget = cfg.budget;
    match s.weighted(&[6, 1, 1]) {
        0 => gen_type_in(s, cfg, 0, &mut budget),
        1 => gen_enum_heavy(s, cfg, &mut budget),
        _ => {
            // a composite at the root
            let k = 1 + s.upto(2) as usize;
            gen_composite(s, cfg, 0, &mut budget, k)
        }
    }
}

/// many enums next to each other, so that their tags share bit containers in all ways
fn gen_enum_heavy(s: &mut Src, cfg: &TypeCfg, budget: &mut usize) -> Type {
    let n = 1 + s.len(20);
    let mut fields: Vec<Field> = vec![];
    for i in 0..n {
        let cases = match s.weighted(&[4, 4, 2, 1]) {
            0 => 1 + s.upto(3) as usize,
            1 => 1 + s.upto(8) as usize,
            2 => 1usize << s.upto(7),
            _ => *s.pick(&[1, 2, 5, 9, 17, 33, 65, 100, 129, 200, 256, 257]),
        };
        let payload = if s.chance(1, 3) { Some(gen_type_in(s, cfg, cfg.max_depth - 1, budget)) } else { None };
        let cs = (0..cases)
            .map(|c| Case {
                label: format!("c{}", c),
                typ: Box::new(match (&payload, c) {
                    (Some(p), c) if c + 1 == cases || c % 3 == 1 => p.clone(),
                    _ => ty(Kind::Unit),
                }),
            })
            .collect();
        fields.push(Field { label: format!("e{}", i), typ: Box::new(ty(Kind::Enum(cs))) });
    }
    if s.coin() {
        ty(Kind::Struct(fields))
    } else {
        ty(Kind::Tuple(fields.into_iter().map(|f| f.typ).collect()))
    }
}

fn gen_type_in(s: &mut Src, cfg: &TypeCfg, depth: usize, budget: &mut usize) -> Type {
    if *budget == 0 || depth >= cfg.max_depth {
        return match s.weighted(&[1, 6, 3]) {
            0 => ty(Kind::Unit),
            1 => ty(Kind::Primitive(*s.pick(&PRIMS))),
            _ => ty(Kind::String),
        };
    }
    *budget -= 1;
    match s.weighted(&[1, 6, 3, 3, 3, 5]) {
        0 => ty(Kind::Unit),
        1 => ty(Kind::Primitive(*s.pick(&PRIMS))),
        2 => ty(Kind::String),
        k => gen_composite(s, cfg, depth, budget, k - 3),
    }
}

fn gen_composite(s: &mut Src, cfg: &TypeCfg, depth: usize, budget: &mut usize, which: usize) -> Type {
    match which {
        0 => {
            let n = gen_width(s, false, false);
            ty(Kind::Tuple((0..n).map(|_| Box::new(gen_type_in(s, cfg, depth + 1, budget))).collect()))
        }
        1 => {
            let n = gen_width(s, cfg.wide, false);
            let mut used: Vec<String> = vec![];
            let mut fields = vec![];
            for i in 0..n {
                let label = gen_label(s, cfg, &used, i);
                used.push(label.clone());
                let d = if n > 16 { cfg.max_depth } else { depth + 1 };
                fields.push(Field { label, typ: Box::new(gen_type_in(s, cfg, d, budget)) });
            }
            ty(Kind::Struct(fields))
        }
        _ => {
            let n = gen_width(s, cfg.wide, true);
            let mut used: Vec<String> = vec![];
            let mut cases = vec![];
            for i in 0..n {
                let label = if n > 20 { format!("k{}", i) } else { gen_label(s, cfg, &used, i) };
                used.push(label.clone());
                let typ = if n > 20 {
                    ty(match i % 4 {
                        0 | 1 => Kind::Unit,
                        2 => Kind::Primitive(PRIMS[i % 14]),
                        _ => Kind::String,
                    })
                } else {
                    gen_type_in(s, cfg, depth + 1, budget)
                };
                cases.push(Case { label, typ: Box::new(typ) });
            }
            ty(Kind::Enum(cases))
        }
    }
}

pub fn gen_char(s: &mut Src) -> char {
    match s.weighted(&[6, 2, 2, 2, 2]) {
        0 => (b'a' + s.upto(25) as u8) as char,
        1 => char::from_u32(s.upto(0x7f) as u32).unwrap(),
        2 => *s.pick(&[
            '"', '\\', '/', '\0', '\u{1}', '\u{8}', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{10}', '\u{19}', '\u{1a}', '\u{1f}', '\u{7f}', '\u{80}', '\u{a0}', '\u{7ff}',
            '\u{800}', '\u{fff}', '\u{1000}', '\u{7fff}', '\u{8000}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{2028}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}',
            '\u{fffff}', '\u{100000}', '\u{10ffff}', 'u', '0', ' ', '\u{3000}', '\u{85}',
        ]),
        3 => {
            let mut c = s.upto(0xffff) as u32;
            if (0xd800..0xe000).contains(&c) {
                c -= 0x1000;
            }
            char::from_u32(c).unwrap()
        }
        _ => char::from_u32(0x10000 + s.upto(0x10ffff - 0x10000) as u32).unwrap(),
    }
}

pub fn gen_string(s: &mut Src, max: usize) -> String {
    let n = s.len(max);
    (0..n).map(|_| gen_char(s)).collect()
}

fn gen_float_bits(s: &mut Src, bits: u32) -> u64 {
    // exponent/mantissa widths
    let (e, m) = if bits == 32 { (8, 23) } else { (11, 52) };
    let one_exp = (1u64 << (e - 1)) - 1;
    match s.weighted(&[3, 3, 3, 3]) {
        0 => {
            // small integers and simple fractions
            let v = s.upto(100) as f64 / *s.pick(&[1.0, 2.0, 4.0, 10.0, 3.0]);
            let v = if s.coin() { -v } else { v };
            if bits == 32 {
                (v as f32).to_bits() as u64
            } else {
                v.to_bits()
            }
        }
        1 => {
            // specials: zeros, infinities, nans, subnormals, extremes
            let sign = s.upto(1) << (e + m);
            let body = match s.upto(7) {
                0 => 0,
                1 => ((1u64 << e) - 1) << m,
                2 => (((1u64 << e) - 1) << m) | (1u64 << (m - 1)),
                3 => 1,
                4 => (1u64 << m) - 1,
                5 => 1u64 << m,
                6 => (((1u64 << e) - 1) << m) - 1,
                _ => one_exp << m,
            };
            sign | body
        }
        2 => s.bits(bits) as u64,
        _ => {
            let mant = s.upto((1u64 << m) - 1);
            let exp = s.upto((1u64 << e) - 1);
            (s.upto(1) << (e + m)) | (exp << m) | mant
        }
    }
}

pub fn gen_prim(s: &mut Src, p: Primitive) -> Pv {
    match p {
        Primitive::Bool => Pv::Bool(s.coin()),
        Primitive::Char => Pv::Char(gen_char(s)),
        Primitive::U8 => Pv::U8(s.bits(8) as u8),
        Primitive::U16 => Pv::U16(s.bits(16) as u16),
        Primitive::U32 => Pv::U32(s.bits(32) as u32),
        Primitive::U64 => Pv::U64(s.bits(64) as u64),
        Primitive::U128 => Pv::U128(s.bits(128)),
        Primitive::I8 => Pv::I8(s.bits(8) as u8 as i8),
        Primitive::I16 => Pv::I16(s.bits(16) as u16 as i16),
        Primitive::I32 => Pv::I32(s.bits(32) as u32 as i32),
        Primitive::I64 => Pv::I64(s.bits(64) as u64 as i64),
        Primitive::I128 => Pv::I128(s.bits(128) as i128),
        Primitive::F32 => Pv::F32(f32::from_bits(gen_float_bits(s, 32) as u32)),
        Primitive::F64 => Pv::F64(f64::from_bits(gen_float_bits(s, 64))),
    }
}

pub fn gen_val(s: &mut Src, t: &Type) -> Val {
    match &t.kind {
        Kind::Unit => Val::Unit,
        Kind::Primitive(p) => Val::Prim(gen_prim(s, *p)),
        Kind::String if shape() == Shape::Wide && s.chance(1, 40) => {
            // a long one
            let part = gen_string(s, 12);
            let n = match s.weighted(&[4, 1]) {
                0 => s.range(20, 700),
                _ => (1usize << s.range(8, 16)) + s.upto(3) as usize - 1,
            };
            let mut x = String::new();
            while x.len() < n {
                x.push_str(&part);
                x.push((b'a' + (x.len() % 23) as u8) as char);
            }
            while x.len() > n {
                x.pop();
            }
            Val::Str(x)
        }
        Kind::String => Val::Str(gen_string(s, 20)),
        Kind::Tuple(c) => Val::Seq(c.iter().map(|t| gen_val(s, t)).collect()),
        Kind::Struct(f) => Val::Seq(f.iter().map(|f| gen_val(s, &f.typ)).collect()),
        Kind::Enum(c) => {
            let n = c.len() as u64;
            let i = match s.weighted(&[3, 1]) {
                0 => s.upto(n - 1),
                _ => n - 1,
            };
            Val::Enum(i as usize, Box::new(gen_val(s, &c[i as usize].typ)))
        }
    }
}

pub fn pv_bits(v: &Pv) -> u128 {
    match *v {
        Pv::Bool(b) => b as u128,
        Pv::Char(c) => c as u128,
        Pv::U8(x) => x as u128,
        Pv::U16(x) => x as u128,
        Pv::U32(x) => x as u128,
        Pv::U64(x) => x as u128,
        Pv::U128(x) => x,
        Pv::I8(x) => x as u8 as u128,
        Pv::I16(x) => x as u16 as u128,
        Pv::I32(x) => x as u32 as u128,
        Pv::I64(x) => x as u64 as u128,
        Pv::I128(x) => x as u128,
        Pv::F32(x) => x.to_bits() as u128,
        Pv::F64(x) => x.to_bits() as u128,
    }
}

pub fn pv_same(a: &Pv, b: &Pv) -> bool {
    a.primitive() == b.primitive() && pv_bits(a) == pv_bits(b)
}

pub fn get_prim(ds: &dyn DataSource, p: Primitive, path: &Path) -> Pv {
    match p {
        Primitive::Bool => Pv::Bool(ds.get_bool(path)),
        Primitive::Char => Pv::Char(ds.get_char(path)),
        Primitive::U8 => Pv::U8(ds.get_u8(path)),
        Primitive::U16 => Pv::U16(ds.get_u16(path)),
        Primitive::U32 => Pv::U32(ds.get_u32(path)),
        Primitive::U64 => Pv::U64(ds.get_u64(path)),
        Primitive::U128 => Pv::U128(ds.get_u128(path)),
        Primitive::I8 => Pv::I8(ds.get_i8(path)),
        Primitive::I16 => Pv::I16(ds.get_i16(path)),
        Primitive::I32 => Pv::I32(ds.get_i32(path)),
        Primitive::I64 => Pv::I64(ds.get_i64(path)),
        Primitive::I128 => Pv::I128(ds.get_i128(path)),
        Primitive::F32 => Pv::F32(ds.get_f32(path)),
        Primitive::F64 => Pv::F64(ds.get_f64(path)),
    }
}

/// Leaf entries (what a data source stores for a value), in declaration order.
#[derive(Clone, Debug)]
pub enum Leaf {
    Prim(Pv),
    Str(String),
    Tag(usize),
}

pub fn leaves(t: &Type, v: &Val, path: &Path, out: &mut Vec<(Path, Leaf)>) {
    match (&t.kind, v) {
        (Kind::Unit, Val::Unit) => (),
        (Kind::Primitive(_), Val::Prim(p)) => out.push((path.clone(), Leaf::Prim(*p))),
        (Kind::String, Val::Str(s)) => out.push((path.clone(), Leaf::Str(s.clone()))),
        (Kind::Tuple(c), Val::Seq(vs)) => {
            for (i, (t, v)) in c.iter().zip(vs).enumerate() {
                leaves(t, v, &path.with_component(i), out);
            }
        }
        (Kind::Struct(f), Val::Seq(vs)) => {
            for (i, (f, v)) in f.iter().zip(vs).enumerate() {
                leaves(&f.typ, v, &path.with_component(i), out);
            }
        }
        (Kind::Enum(c), Val::Enum(i, v)) => {
            out.push((path.clone(), Leaf::Tag(*i)));
            leaves(&c[*i].typ, v, &path.with_component(*i), out);
        }
        _ => panic!("harness bug: value does not fit type"),
    }
}

pub fn all_leaves(t: &Type, v: &Val) -> Vec<(Path, Leaf)> {
    let mut out = vec![];
    leaves(t, v, &Path::create_empty(), &mut out);
    out
}

pub fn fill(ds: &mut IntermediateDataSource, ls: &[(Path, Leaf)]) {
    for (p, l) in ls {
        match l {
            Leaf::Prim(v) => ds.add_primitive(p, *v),
            Leaf::Str(s) => ds.add_string(p, s),
            Leaf::Tag(t) => ds.add_case_tag(p, *t),
        }
    }
}

pub fn to_ds(t: &Type, v: &Val) -> IntermediateDataSource {
    let mut ds = IntermediateDataSource::new();
    fill(&mut ds, &all_leaves(t, v));
    ds
}

/// Every leaf read back through the data source interface.
pub fn compare(ds: &dyn DataSource, ls: &[(Path, Leaf)], nan_ok: bool) -> Res {
    for (p, l) in ls {
        match l {
            Leaf::Prim(v) => {
                let got = no_panic("get_primitive", || get_prim(ds, v.primitive(), p))?;
                let nan = nan_ok
                    && match (got, v) {
                        (Pv::F32(a), Pv::F32(b)) => a.is_nan() && b.is_nan(),
                        (Pv::F64(a), Pv::F64(b)) => a.is_nan() && b.is_nan(),
                        _ => false,
                    };
                ensure!(nan || pv_same(&got, v), "value", "element {:?}: stored {:?}, read {:?}", p, v, got);
            }
            Leaf::Str(s) => {
                let n = no_panic("get_length", || ds.get_length(p))?;
                ensure!(n == s.len(), "length", "element {:?}: length of {:?} read as {}", p, s, n);
                let b = no_panic("get_bytes", || ds.get_bytes(p).to_vec())?;
                ensure!(b == s.as_bytes(), "bytes", "element {:?}: stored {:?}, read {:?}", p, s, String::from_utf8_lossy(&b));
            }
            Leaf::Tag(t) => {
                let g = no_panic("get_case_tag", || ds.get_case_tag(p))?;
                ensure!(g == *t, "tag", "element {:?}: case tag {} read as {}", p, t, g);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- text forms
pub fn prim_name(p: Primitive) -> &'static str {
    match p {
        Primitive::Bool => "bool",
        Primitive::Char => "char",
        Primitive::U8 => "u8",
        Primitive::U16 => "u16",
        Primitive::U32 => "u32",
        Primitive::U64 => "u64",
        Primitive::U128 => "u128",
        Primitive::I8 => "i8",
        Primitive::I16 => "i16",
        Primitive::I32 => "i32",
        Primitive::I64 => "i64",
        Primitive::I128 => "i128",
        Primitive::F32 => "f32",
        Primitive::F64 => "f64",
    }
}

/// Tokens of the type language for a type; `None` marks a place for an optional trailing comma.
pub fn type_tokens(t: &Type, out: &mut Vec<Option<String>>) {
    let mut p = |s: &str| out.push(Some(s.to_string()));
    match &t.kind {
        Kind::Unit => {
            p("(");
            p(")");
        }
        Kind::Primitive(x) => p(prim_name(*x)),
        Kind::String => p("string"),
        Kind::Tuple(c) => {
            p("(");
            for (i, x) in c.iter().enumerate() {
                if i > 0 {
                    out.push(Some(",".into()));
                }
                type_tokens(x, out);
            }
            out.push(Some(")".into()));
        }
        Kind::Struct(f) => {
            p("struct");
            p("{");
            for (i, x) in f.iter().enumerate() {
                if i > 0 {
                    out.push(Some(",".into()));
                }
                out.push(Some(x.label.clone()));
                out.push(Some(":".into()));
                type_tokens(&x.typ, out);
            }
            out.push(None);
            out.push(Some("}".into()));
        }
        Kind::Enum(f) => {
            p("enum");
            p("{");
            for (i, x) in f.iter().enumerate() {
                if i > 0 {
                    out.push(Some(",".into()));
                }
                out.push(Some(x.label.clone()));
                out.push(Some(":".into()));
                type_tokens(&x.typ, out);
            }
            out.push(None);
            out.push(Some("}".into()));
        }
    }
}

pub fn show_type(t: &Type) -> String {
    let mut v = vec![];
    type_tokens(t, &mut v);
    let mut s = String::new();
    for x in v.into_iter().flatten() {
        if x.chars().all(|c| c.is_ascii_alphanumeric() || "_(){}:,".contains(c)) && !x.is_empty() {
            s.push_str(&x);
        } else {
            s.push_str(&format!("{:?}", x));
        }
        if x == "," || x == ":" || x == "struct" || x == "enum" {
            s.push(' ');
        }
    }
    s
}

pub fn show_val(v: &Val) -> String {
    match v {
        Val::Unit => "()".into(),
        Val::Prim(p) => match p {
            Pv::F32(x) => format!("f32#{:08x}={}", x.to_bits(), x),
            Pv::F64(x) => format!("f64#{:016x}={}", x.to_bits(), x),
            p => format!("{:?}", p),
        },
        Val::Str(s) => format!("{:?}", s),
        Val::Seq(v) => format!("[{}]", v.iter().map(show_val).collect::<Vec<_>>().join(", ")),
        Val::Enum(i, v) => format!("#{}:{}", i, show_val(v)),
    }
}

pub fn show(t: &Type, v: &Val) -> String {
    format!("type {} value {}", show_type(t), show_val(v))
}

// ---------------------------------------------------------------- JSON reference coding
pub fn pv_text(v: &Pv) -> String {
    match v {
        Pv::Bool(x) => x.to_string(),
        Pv::Char(x) => x.to_string(),
        Pv::U8(x) => x.to_string(),
        Pv::U16(x) => x.to_string(),
        Pv::U32(x) => x.to_string(),
        Pv::U64(x) => x.to_string(),
        Pv::U128(x) => x.to_string(),
        Pv::I8(x) => x.to_string(),
        Pv::I16(x) => x.to_string(),
        Pv::I32(x) => x.to_string(),
        Pv::I64(x) => x.to_string(),
        Pv::I128(x) => x.to_string(),
        Pv::F32(x) => x.to_string(),
        Pv::F64(x) => x.to_string(),
    }
}

/// Does the JSON document denote exactly the value, by the documented mapping?
pub fn json_matches(t: &Type, v: &Val, j: &J, at: &str) -> Result<(), String> {
    let bad = |what: &str| Err(format!("at {}: {} (document has {})", at, what, j));
    match (&t.kind, v) {
        (Kind::Unit, _) => {
            if *j == J::Null {
                Ok(())
            } else {
                bad("unit must be null")
            }
        }
        (Kind::Primitive(_), Val::Prim(p)) => match p {
            Pv::Bool(b) => {
                if *j == J::Bool(*b) {
                    Ok(())
                } else {
                    bad("wrong boolean")
                }
            }
            Pv::Char(c) => {
                if *j == J::Str(c.to_string()) {
                    Ok(())
                } else {
                    bad(&format!("wrong character, expected {:?}", c))
                }
            }
            _ => {
                let finite = match p {
                    Pv::F32(x) => x.is_finite(),
                    Pv::F64(x) => x.is_finite(),
                    _ => true,
                };
                let text = match j {
                    J::Num(n) if finite => n.clone(),
                    // non-finite floats have no JSON number; any spelling the float parser reads back is right
                    J::Str(n) if !finite => n.clone(),
                    _ => return bad("number expected"),
                };
                let ok = match p {
                    Pv::F32(x) => text.parse::<f32>().map(|y| y.to_bits() == x.to_bits() || (x.is_nan() && y.is_nan())),
                    Pv::F64(x) => text.parse::<f64>().map(|y| y.to_bits() == x.to_bits() || (x.is_nan() && y.is_nan())),
                    p => Ok(text == pv_text(p)),
                };
                if ok == Ok(true) {
                    Ok(())
                } else {
                    bad(&format!("wrong number, expected {}", pv_text(p)))
                }
            }
        },
        (Kind::String, Val::Str(s)) => {
            if *j == J::Str(s.clone()) {
                Ok(())
            } else {
                bad(&format!("wrong string, expected {:?}", s))
            }
        }
        (Kind::Tuple(c), Val::Seq(vs)) => match j {
            J::Arr(a) if a.len() == c.len() => {
                for (i, ((t, v), j)) in c.iter().zip(vs).zip(a).enumerate() {
                    json_matches(t, v, j, &format!("{}.{}", at, i))?;
                }
                Ok(())
            }
            _ => bad("array of the tuple's length expected"),
        },
        (Kind::Struct(f), Val::Seq(vs)) => match j {
            J::Obj(o) if o.len() == f.len() => {
                for ((f, v), (k, j)) in f.iter().zip(vs).zip(o) {
                    if *k != f.label {
                        return bad(&format!("member {:?} where field {:?} belongs", k, f.label));
                    }
                    json_matches(&f.typ, v, j, &format!("{}.{}", at, k))?;
                }
                Ok(())
            }
            _ => bad("object with one member per field expected"),
        },
        (Kind::Enum(c), Val::Enum(i, v)) => match j {
            J::Obj(o) if o.len() == 2 && o[0].0 == "kind" && o[1].0 == "value" && o[0].1 == J::Str(c[*i].label.clone()) => {
                json_matches(&c[*i].typ, v, &o[1].1, &format!("{}.{}", at, c[*i].label))
            }
            _ => bad(&format!("kind {:?} and value expected", c[*i].label)),
        },
        _ => panic!("harness bug"),
    }
}

/// Verdict of the reference decoder
pub enum Dec {
    Value(Val),
    Reject(String),
    /// the documentation leaves it open
    Open,
}

fn is_json_number(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    matches!(crate::json::lex(&c, 0), Ok(Some((crate::json::Tok::Num(ref t), p))) if p == c.len() && t == s)
}

fn plain_int(s: &str) -> bool {
    let d = s.strip_prefix('-').unwrap_or(s);
    !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())
}

fn ref_number(p: Primitive, text: &str, quoted: bool) -> Dec {
    macro_rules! int {
        ($t:ty, $c:ident) => {{
            if plain_int(text) {
                match text.parse::<$t>() {
                    Ok(v) => {
                        if quoted && !is_json_number(text) {
                            Dec::Open // leading zeros inside a string
                        } else {
                            Dec::Value(Val::Prim(Pv::$c(v)))
                        }
                    }
                    Err(_) if text.trim_start_matches('-').bytes().all(|b| b == b'0') => Dec::Open, // -0 for an unsigned type
                    Err(e) => Dec::Reject(e.to_string()),
                }
            } else if !quoted && is_json_number(text) && text.parse::<f64>().map(|f| f.fract() == 0.0).unwrap_or(false) {
                // 1.0 or 1e2 for an integer: fraction or exponent is not the integer syntax
                Dec::Reject("fraction or exponent for an integer".into())
            } else if quoted && text.parse::<$t>().is_ok() {
                Dec::Open // "+1"
            } else {
                Dec::Reject("not an integer".into())
            }
        }};
    }
    macro_rules! float {
        ($t:ty, $c:ident) => {{
            if is_json_number(text) {
                match text.parse::<$t>() {
                    Ok(v) if v.is_finite() => Dec::Value(Val::Prim(Pv::$c(v))),
                    _ => Dec::Open, // magnitude beyond the type
                }
            } else if text.parse::<$t>().is_ok() {
                if matches!(text, "NaN" | "inf" | "-inf") {
                    Dec::Value(Val::Prim(Pv::$c(text.parse::<$t>().unwrap())))
                } else {
                    Dec::Open
                }
            } else {
                Dec::Reject("not a number".into())
            }
        }};
    }
    match p {
        Primitive::U8 => int!(u8, U8),
        Primitive::U16 => int!(u16, U16),
        Primitive::U32 => int!(u32, U32),
        Primitive::U64 => int!(u64, U64),
        Primitive::U128 => int!(u128, U128),
        Primitive::I8 => int!(i8, I8),
        Primitive::I16 => int!(i16, I16),
        Primitive::I32 => int!(i32, I32),
        Primitive::I64 => int!(i64, I64),
        Primitive::I128 => int!(i128, I128),
        Primitive::F32 => float!(f32, F32),
        Primitive::F64 => float!(f64, F64),
        _ => panic!("harness bug"),
    }
}

pub fn ref_decode(t: &Type, j: &J) -> Dec {
    macro_rules! sub {
        ($t:expr, $j:expr, $open:ident) => {
            match ref_decode($t, $j) {
                Dec::Value(v) => v,
                Dec::Reject(e) => return Dec::Reject(e),
                Dec::Open => {
                    $open = true;
                    Val::Unit
                }
            }
        };
    }
    let mut open = false;
    let v = match (&t.kind, j) {
        (Kind::Unit, J::Null) => Val::Unit,
        (Kind::Unit, _) => return Dec::Reject("null expected".into()),
        (Kind::Primitive(Primitive::Bool), J::Bool(b)) => Val::Prim(Pv::Bool(*b)),
        (Kind::Primitive(Primitive::Char), J::Str(s)) if s.chars().count() == 1 => Val::Prim(Pv::Char(s.chars().next().unwrap())),
        (Kind::Primitive(Primitive::Bool), _) | (Kind::Primitive(Primitive::Char), _) => return Dec::Reject("wrong kind".into()),
        (Kind::Primitive(p), J::Num(n)) => match ref_number(*p, n, false) {
            Dec::Value(v) => v,
            o => return o,
        },
        (Kind::Primitive(p), J::Str(n)) => match ref_number(*p, n, true) {
            Dec::Value(v) => v,
            o => return o,
        },
        (Kind::String, J::Str(s)) => Val::Str(s.clone()),
        (Kind::Tuple(c), J::Arr(a)) => {
            if a.len() != c.len() {
                return Dec::Reject("array length".into());
            }
            let mut vs = vec![];
            for (t, j) in c.iter().zip(a) {
                vs.push(sub!(t, j, open));
            }
            Val::Seq(vs)
        }
        (Kind::Struct(f), J::Obj(o)) => {
            if o.len() != f.len() {
                return Dec::Reject("member count".into());
            }
            let mut vs = vec![];
            for f in f {
                match o.iter().find(|(k, _)| *k == f.label) {
                    Some((_, j)) => vs.push(sub!(&f.typ, j, open)),
                    None => return Dec::Reject("missing field".into()),
                }
            }
            Val::Seq(vs)
        }
        (Kind::Enum(c), J::Obj(o)) => {
            let kind = j.get("kind");
            let value = j.get("value");
            if o.len() != 2 || kind.is_none() || value.is_none() {
                return Dec::Reject("kind and value expected".into());
            }
            if o[0].0 != "kind" {
                return Dec::Open; // 'value' before 'kind': the source says it may be relaxed
            }
            let i = match kind {
                Some(J::Str(k)) => match c.iter().position(|c| c.label == *k) {
                    Some(i) => i,
                    None => return Dec::Reject("unknown case".into()),
                },
                _ => return Dec::Reject("kind must be a string".into()),
            };
            Val::Enum(i, Box::new(sub!(&c[i].typ, value.unwrap(), open)))
        }
        _ => return Dec::Reject("wrong JSON kind".into()),
    };
    if open {
        Dec::Open
    } else {
        Dec::Value(v)
    }
}

pub fn same_val(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Unit, Val::Unit) => true,
        (Val::Prim(a), Val::Prim(b)) => pv_same(a, b),
        (Val::Str(a), Val::Str(b)) => a == b,
        (Val::Seq(a), Val::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_val(a, b)),
        (Val::Enum(i, a), Val::Enum(j, b)) => i == j && same_val(a, b),
        _ => false,
    }
}

// ---------------------------------------------------------------- aligned memory
/// A 16-byte aligned buffer with `guard` bytes on both sides of the usable slice.
pub struct Buf {
    mem: Vec<u128>,
    guard: usize,
    pub len: usize,
    fill: u8,
}

impl Buf {
    pub fn new(len: usize, fill: u8, guard_fill: u8) -> Buf {
        let guard = 64;
        let words = (len + 2 * guard) / 16 + 2;
        let mut b = Buf { mem: vec![0; words], guard, len, fill: guard_fill };
        for x in b.whole() {
            *x = guard_fill;
        }
        for x in b.slice() {
            *x = fill;
        }
        b
    }
    fn whole(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.mem.as_mut_ptr() as *mut u8, self.mem.len() * 16) }
    }
    pub fn slice(&mut self) -> &mut [u8] {
        let (g, l) = (self.guard, self.len);
        &mut self.whole()[g..g + l]
    }
    pub fn read(&self) -> &[u8] {
        unsafe { &std::slice::from_raw_parts(self.mem.as_ptr() as *const u8, self.mem.len() * 16)[self.guard..self.guard + self.len] }
    }
    pub fn guards_intact(&mut self) -> bool {
        let (g, l, f) = (self.guard, self.len, self.fill);
        self.whole()[..g].iter().all(|x| *x == f) && self.whole()[g + l..].iter().all(|x| *x == f)
    }
}
