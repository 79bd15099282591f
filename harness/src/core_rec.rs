//! C01, C02, C09, C10, C12, C13, C14: binary records, pages, value store, helpers, pipeline.

use crate::engine::*;
use crate::ensure;
use crate::model::*;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::json::decoder::JsonDecoder;
use cathlamet::core::json::encoder::JsonEncoder;
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use cathlamet::core::nsm::PageFormat;
use cathlamet::core::types::{Case, Field, Kind, Path, Primitive, Type};
use cathlamet::core::util;
use cathlamet::core::value::PrimitiveValue as Pv;
use std::collections::BTreeMap;
use std::sync::Arc;

fn marshaller(t: &Type) -> Result<Marshaller, Fail> {
    no_panic("layout", || Marshaller::new(Arc::new(Layout::new(t))))
}

fn interesting(t: &Type, ls: &[(Path, Leaf)]) -> bool {
    let _ = t;
    ls.len() >= 3 || ls.iter().any(|(_, l)| !matches!(l, Leaf::Prim(_)))
}

fn label_leaves(ctx: &mut Ctx, ls: &[(Path, Leaf)]) {
    if ls.iter().any(|(_, l)| matches!(l, Leaf::Tag(_))) {
        ctx.label("has enum");
    }
    if ls.iter().filter(|(_, l)| matches!(l, Leaf::Tag(_))).count() > 2 {
        ctx.label("has > 2 enums");
    }
    if ls.iter().any(|(p, l)| matches!(l, Leaf::Str(_)) && !p.path().is_empty()) {
        ctx.label("has nested string");
    }
    if ls.len() > 10 {
        ctx.label("> 10 leaves");
    }
    if ls.iter().any(|(_, l)| matches!(l, Leaf::Tag(t) if *t > 127)) {
        ctx.label("tag > 127");
    }
}

fn encode_and_read(t: &Type, v: &Val, m: &Marshaller, prior: u8) -> Res {
    let ls = all_leaves(t, v);
    let ds = to_ds(t, v);
    let size = no_panic("encoding_size", || m.encoding_size(&ds))?;
    let mut buf = Buf::new(size + 64, prior, 0xA5);
    no_panic("encode", || m.encode(&ds, buf.slice()))?;
    let view = MarshallerDataSource::new(m, buf.read());
    compare(&view, &ls, false)
}

fn c01_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg::default());
    let m = marshaller(&t)?;
    for round in 0..2 {
        let v = gen_val(s, &t);
        let ls = all_leaves(&t, &v);
        ctx.nontrivial |= interesting(&t, &ls);
        if round == 0 {
            label_leaves(ctx, &ls);
            ctx.case(|| show(&t, &v));
        }
        let prior = *s.pick(&[0u8, 0xff, 0x5a]);
        encode_and_read(&t, &v, &m, prior)?;
    }
    Ok(())
}

fn unit_enum(n: usize) -> Type {
    ty(Kind::Enum((0..n).map(|i| Case { label: format!("c{}", i), typ: Box::new(ty(Kind::Unit)) }).collect()))
}

/// every tag of an enum of n cases, alone and between neighbours in a struct
fn c01_tags(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.upto(u64::MAX) as usize + 1;
    ctx.case(|| format!("enum of {} unit cases, every tag", n));
    ctx.nontrivial = true;
    let e = unit_enum(n);
    let m1 = marshaller(&e)?;
    let t2 = ty(Kind::Tuple(vec![
        Box::new(unit_enum(3)),
        Box::new(e.clone()),
        Box::new(ty(Kind::Primitive(Primitive::U16))),
        Box::new(unit_enum(2)),
        Box::new(ty(Kind::String)),
    ]));
    let m2 = marshaller(&t2)?;
    let u = |i| Val::Enum(i, Box::new(Val::Unit));
    for tag in 0..n {
        encode_and_read(&e, &u(tag), &m1, 0)?;
        let v = Val::Seq(vec![
            u(tag % 3),
            u(tag),
            Val::Prim(cathlamet::core::value::PrimitiveValue::U16(tag as u16 ^ 0xffff)),
            u((tag + 1) % 2),
            Val::Str("xyz"[..tag % 4].to_string()),
        ]);
        encode_and_read(&t2, &v, &m2, 0xff)?;
    }
    Ok(())
}

const PACK: [usize; 13] = [1, 2, 3, 4, 5, 8, 9, 16, 17, 128, 129, 256, 257];

/// three enums side by side, all combinations of case counts
fn c01_pack(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let ns = [PACK[i % 13], PACK[i / 13 % 13], PACK[i / 169 % 13]];
    ctx.case(|| format!("three enums of {:?} cases", ns));
    ctx.nontrivial = true;
    let t = ty(Kind::Struct(
        ns.iter().enumerate().map(|(i, n)| Field { label: format!("e{}", i), typ: Box::new(unit_enum(*n)) }).collect(),
    ));
    let m = marshaller(&t)?;
    for pat in 0..8 {
        let v = Val::Seq((0..3).map(|k| Val::Enum(if pat >> k & 1 == 1 { ns[k] - 1 } else { ns[k] / 3 }, Box::new(Val::Unit))).collect());
        encode_and_read(&t, &v, &m, if pat % 2 == 0 { 0 } else { 0xff })?;
    }
    Ok(())
}

fn c01_huge(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = [65535usize, 65536, 65537][s.upto(2) as usize];
    ctx.case(|| format!("enum of {} unit cases", n));
    ctx.nontrivial = true;
    let t = ty(Kind::Tuple(vec![Box::new(unit_enum(5)), Box::new(unit_enum(n)), Box::new(unit_enum(1))]));
    let m = marshaller(&t)?;
    for tag in [0, 1, 255, 256, 257, 32767, 32768, n - 2, n - 1] {
        let v = Val::Seq(vec![Val::Enum(4, Box::new(Val::Unit)), Val::Enum(tag, Box::new(Val::Unit)), Val::Enum(0, Box::new(Val::Unit))]);
        encode_and_read(&t, &v, &m, 0xff)?;
    }
    Ok(())
}

fn c02_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg::default());
    let v = gen_val(s, &t);
    let ls = all_leaves(&t, &v);
    ctx.nontrivial = interesting(&t, &ls);
    ctx.case(|| show(&t, &v));
    label_leaves(ctx, &ls);
    let m = marshaller(&t)?;
    let ds = to_ds(&t, &v);
    let size = no_panic("encoding_size", || m.encoding_size(&ds))?;
    // the announced size is enough to hold the information
    let payload: usize = ls.iter().map(|(_, l)| match l {
        Leaf::Prim(p) => p.primitive().encoding_size(),
        Leaf::Str(x) => x.len(),
        Leaf::Tag(_) => 0,
    }).sum();
    ensure!(size >= payload, "size-too-small", "announced {} bytes for {} bytes of payload", size, payload);
    let mut images: Vec<Vec<u8>> = vec![];
    for prior in [0u8, 0xff, 0x5a] {
        let mut buf = Buf::new(size, prior, !prior);
        let n = no_panic("encode", || m.encode(&ds, buf.slice()))?;
        ensure!(n == size, "size-mismatch", "announced size {} but encoding reports {}", size, n);
        ensure!(buf.guards_intact(), "overrun", "encoding wrote outside its {} byte buffer", size);
        {
            let view = MarshallerDataSource::new(&m, buf.read());
            compare(&view, &ls, false)?;
            // re-encode from the view
            let size2 = no_panic("encoding_size/view", || m.encoding_size(&view))?;
            ensure!(size2 == size, "size-view", "size {} from the value but {} from the view", size, size2);
            let mut buf2 = Buf::new(size, prior.wrapping_add(1), 0x33);
            let n2 = no_panic("encode/view", || m.encode(&view, buf2.slice()))?;
            ensure!(n2 == size, "size-mismatch", "re-encoding reports {} instead of {}", n2, size);
            ensure!(buf2.guards_intact(), "overrun", "re-encoding wrote outside its buffer");
            compare(&MarshallerDataSource::new(&m, buf2.read()), &ls, false)?;
        }
        images.push(buf.read().to_vec());
    }
    // a buffer that is too small: whatever happens, nothing outside of it is written
    if size > 0 {
        let k = size - 1 - match s.weighted(&[3, 2]) {
            0 => s.upto((size as u64 - 1).min(17)) as usize,
            _ => s.upto(size as u64 - 1) as usize,
        };
        let mut small = Buf::new(k, 0x77, 0x11);
        let _ = guarded(|| m.encode(&ds, small.slice()));
        ensure!(small.guards_intact(), "overrun", "encoding wrote outside a buffer of {} bytes where {} are needed", k, size);
    }
    // a larger buffer: everything beyond the announced size stays as it was
    let mut big = Buf::new(size + 48, 0x77, 0x11);
    no_panic("encode", || m.encode(&ds, big.slice()))?;
    ensure!(big.read()[size..].iter().all(|x| *x == 0x77), "overrun", "encoding wrote past the announced size {}", size);
    // trailing bytes do not matter to a reader
    compare(&MarshallerDataSource::new(&m, big.read()), &ls, false)
}

// ---------------------------------------------------------------- pages
#[derive(Clone, Debug)]
enum PageOp {
    Append(Vec<u8>),
    Insert(usize, Vec<u8>),
    Remove(usize),
    Init,
}

fn slots_end(rows: usize, align: usize) -> usize {
    (4 * (rows + 1) + align - 1) / align * align
}

fn al(n: usize, a: usize) -> usize {
    (n + a - 1) / a * a
}

/// Exact space oracle: the largest row that fits, or None when not even an entry fits.
fn model_room(rows: &[Vec<u8>], page: usize, a: usize) -> Option<usize> {
    let used: usize = rows.iter().map(|r| al(r.len(), a)).sum();
    let top = page - used;
    let low = slots_end(rows.len() + 1, a);
    if top >= low {
        Some(top - low)
    } else {
        None
    }
}

struct PageRun {
    fmt: PageFormat,
    buf: Buf,
    rows: Vec<Vec<u8>>,
    a: usize,
    size: usize,
    /// look at the rows of a full page only now and then
    lazy: bool,
}

fn brief(row: &[u8]) -> String {
    match row.len() {
        0..=40 => format!("{:?}", row),
        n => format!("{:?}... ({} bytes)", &row[..40], n),
    }
}

impl PageRun {
    fn new(size: usize, a: usize, garbage: u8) -> Result<PageRun, Fail> {
        let fmt = PageFormat::new(a);
        let mut buf = Buf::new(size, garbage, 0xC3);
        no_panic("initialize_page", || fmt.initialize_page(buf.slice()))?;
        Ok(PageRun { fmt, buf, rows: vec![], a, size, lazy: false })
    }
    fn check_content(&mut self, after: &str) -> Res {
        let n = self.fmt.num_rows(self.buf.read());
        ensure!(n == self.rows.len(), "row-count", "after {}: {} rows instead of {}", after, n, self.rows.len());
        if self.lazy && n > 8 {
            return Ok(());
        }
        self.check_all(after)
    }
    fn check_all(&mut self, after: &str) -> Res {
        let n = self.fmt.num_rows(self.buf.read());
        ensure!(n == self.rows.len(), "row-count", "after {}: {} rows instead of {}", after, n, self.rows.len());
        for i in 0..n {
            let r = no_panic("get_row", || self.fmt.get_row(self.buf.read(), i).to_vec())?;
            ensure!(r == self.rows[i], "row-content", "after {}: row {} is {} instead of {}", after, i, brief(&r), brief(&self.rows[i]));
            let p = self.fmt.get_row(self.buf.read(), i).as_ptr() as usize - self.buf.read().as_ptr() as usize;
            ensure!(r.is_empty() || p % self.a == 0, "row-alignment", "after {}: row {} starts at offset {} of the page, alignment {}", after, i, p, self.a);
        }
        ensure!(self.buf.guards_intact(), "outside-page", "after {}: bytes outside the page changed", after);
        Ok(())
    }
    /// Positions outside of the list are refused.
    fn check_outside(&mut self, beyond: usize) -> Res {
        let n = self.rows.len();
        let before = self.buf.read().to_vec();
        for i in [n, n + 1, n + beyond, usize::MAX] {
            let r = guarded(|| self.fmt.get_row(self.buf.read(), i).to_vec());
            ensure!(r.is_err(), "outside-list", "row {} of a page with {} rows is read as {}", i, n, brief(&r.unwrap()));
            let (fmt, page) = (&self.fmt, self.buf.slice());
            let r = guarded(|| fmt.remove_row(page, i));
            ensure!(r.is_err(), "outside-list", "row {} of a page with {} rows is removed", i, n);
            if i > n {
                let r = guarded(|| fmt.insert_row(page, i, &[]));
                ensure!(r.is_err(), "outside-list", "a row is inserted at {} into a page with {} rows", i, n);
            }
        }
        ensure!(self.buf.read() == &before[..] && self.buf.guards_intact(), "refusal-damage", "refused positions outside of the {} rows changed memory", n);
        Ok(())
    }
    fn check_space(&mut self, after: &str) -> Res {
        let m = no_panic("max_insert_row_size", || self.fmt.max_insert_row_size(self.buf.read()))?;
        let want = model_room(&self.rows, self.size, self.a).unwrap_or(0);
        ensure!(m == want, "space", "after {}: reports room for {} bytes, arithmetic says {} (page {}, alignment {}, rows {:?})", after, m, want, self.size, self.a, self.rows.iter().map(|r| r.len()).collect::<Vec<_>>());
        Ok(())
    }
    /// Applies the operation to page and model; returns whether it was accepted.
    fn apply(&mut self, op: &PageOp, space: bool) -> Result<bool, Fail> {
        let before = self.buf.read().to_vec();
        let fits = |rows: &Vec<Vec<u8>>, r: &Vec<u8>, size, a| model_room(rows, size, a).map(|m| r.len() <= m).unwrap_or(false);
        let (ok_expected, desc) = match op {
            PageOp::Append(r) => (fits(&self.rows, r, self.size, self.a), format!("append of {} bytes", r.len())),
            PageOp::Insert(i, r) => (*i <= self.rows.len() && fits(&self.rows, r, self.size, self.a), format!("insert of {} bytes at {}", r.len(), i)),
            PageOp::Remove(i) => (*i < self.rows.len(), format!("remove of row {}", i)),
            PageOp::Init => (true, "initialisation".to_string()),
        };
        let fmt = &self.fmt;
        let page = self.buf.slice();
        let res = guarded(|| match op {
            PageOp::Append(r) => fmt.append_row(page, r),
            PageOp::Insert(i, r) => fmt.insert_row(page, *i, r),
            PageOp::Remove(i) => fmt.remove_row(page, *i),
            PageOp::Init => fmt.initialize_page(page),
        });
        match (ok_expected, res) {
            (true, Err(m)) => fail("refused", format!("{} was refused although it is valid: {} (page {}, alignment {}, rows {:?})", desc, m, self.size, self.a, self.rows.iter().map(|r| r.len()).collect::<Vec<_>>())),
            (true, Ok(())) => {
                match op {
                    PageOp::Append(r) => self.rows.push(r.clone()),
                    PageOp::Insert(i, r) => self.rows.insert(*i, r.clone()),
                    PageOp::Remove(i) => drop(self.rows.remove(*i)),
                    PageOp::Init => self.rows.clear(),
                }
                self.check_content(&desc)?;
                if space {
                    self.check_space(&desc)?;
                }
                Ok(true)
            }
            (false, Ok(())) => {
                // accepted something that does not fit: only sound if nothing was lost, which cannot be
                fail("accepted", format!("{} was accepted although it cannot fit (page {}, alignment {}, rows {:?})", desc, self.size, self.a, self.rows.iter().map(|r| r.len()).collect::<Vec<_>>()))
            }
            (false, Err(_)) => {
                ensure!(self.buf.read() == &before[..], "refusal-damage", "refused {} changed the page", desc);
                ensure!(self.buf.guards_intact(), "outside-page", "refused {}: bytes outside the page changed", desc);
                Ok(false)
            }
        }
    }
}

fn gen_page(s: &mut Src) -> (usize, usize) {
    let a = 1usize << s.upto(6);
    let size = match s.weighted(&[3, 3, 2]) {
        0 => al(8 + s.upto(120) as usize, a),
        1 => al(64 + s.upto(1000) as usize, a),
        _ => *s.pick(&[512usize, 4096, 8192, 65536]),
    };
    (size.max(al(4, a)), a)
}

fn gen_row(s: &mut Src, run: &PageRun, edge: bool) -> Vec<u8> {
    let room = model_room(&run.rows, run.size, run.a).unwrap_or(0);
    let n = match s.weighted(if edge { &[3, 4, 2] } else { &[8, 1, 0] }) {
        0 => s.len(run.size.min(40)),
        1 => (room + 2).saturating_sub(s.upto(4) as usize),
        _ => room / (1 + s.upto(4) as usize),
    };
    let seed = s.upto(255) as u8;
    (0..n).map(|i| seed.wrapping_add((i as u8).wrapping_mul(31))).collect()
}

fn page_history(s: &mut Src, ctx: &mut Ctx, edge: bool) -> Res {
    let (size, a) = gen_page(s);
    let garbage = *s.pick(&[0u8, 0xff, 0x5a]);
    let mut run = PageRun::new(size, a, garbage)?;
    run.check_content("initialisation")?;
    if edge {
        run.check_space("initialisation")?;
    }
    let n = s.len(40);
    let mut desc = format!("page {} bytes, alignment {}:", size, a);
    let (mut mid, mut max_rows, mut refused) = (false, 0, false);
    for _ in 0..n {
        let k = run.rows.len();
        let op = match s.weighted(&[5, 5, 4, if edge { 0 } else { 1 }]) {
            0 => PageOp::Append(gen_row(s, &run, edge)),
            1 => PageOp::Insert(s.upto(k as u64 + edge as u64) as usize, gen_row(s, &run, edge)),
            2 if k > 0 => PageOp::Remove(s.upto(k as u64 - 1 + edge as u64) as usize),
            2 => PageOp::Append(gen_row(s, &run, edge)),
            _ => {
                if s.chance(1, 4) {
                    PageOp::Init
                } else {
                    PageOp::Append(gen_row(s, &run, edge))
                }
            }
        };
        match &op {
            PageOp::Append(r) => desc.push_str(&format!(" append({})", r.len())),
            PageOp::Insert(i, r) => {
                mid |= *i < k;
                desc.push_str(&format!(" insert({}, {})", i, r.len()))
            }
            PageOp::Remove(i) => {
                mid |= *i + 1 < k;
                desc.push_str(&format!(" remove({})", i))
            }
            PageOp::Init => desc.push_str(" init"),
        }
        ctx.case(|| desc.clone());
        if !run.apply(&op, edge)? {
            desc.push('!');
            refused = true;
        }
        max_rows = max_rows.max(run.rows.len());
    }
    if s.chance(1, 8) {
        let beyond = s.bits(16) as usize;
        run.check_outside(2 + beyond)?;
    }
    if refused {
        ctx.label("some operation refused");
    }
    if mid {
        ctx.label("insert or remove in the middle");
    }
    if run.size > 4096 {
        ctx.label("page > 4096");
    }
    ctx.nontrivial = if edge { refused || max_rows >= 3 } else { mid && max_rows >= 3 };
    Ok(())
}

fn c09_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    page_history(s, ctx, false)
}
fn c10_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    page_history(s, ctx, true)
}

/// Fill a page to the brim with rows of one length class, then probe the limit, then free rows again.
fn c10_fill(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (size, a) = gen_page(s);
    let mut run = PageRun::new(size, a, 0xff)?;
    let base = s.upto(40) as usize;
    let spread = s.upto(12);
    ctx.case(|| format!("fill page {} bytes alignment {} with rows of about {} bytes", size, a, base));
    let mut count = 0usize;
    loop {
        let len = base + s.upto(spread) as usize;
        let r: Vec<u8> = (0..len).map(|i| (i + count * 7) as u8).collect();
        let room = model_room(&run.rows, size, a);
        // full content comparison on big pages only now and then
        let op = if s.chance(1, 3) { PageOp::Insert(s.upto(run.rows.len() as u64) as usize, r) } else { PageOp::Append(r) };
        if !run.apply(&op, true)? {
            // fill up exactly, then even an empty row must be refused or fit according to the arithmetic
            if let Some(m) = room {
                run.apply(&PageOp::Append(vec![0xEE; m]), true)?;
            }
            run.apply(&PageOp::Append(vec![]), true)?;
            run.apply(&PageOp::Insert(0, vec![]), true)?;
            run.apply(&PageOp::Append(vec![1]), true)?;
            break;
        }
        count += 1;
        if count > 120 {
            break;
        }
    }
    ctx.nontrivial = run.rows.len() >= 3;
    while !run.rows.is_empty() && s.chance(7, 8) {
        let i = s.upto(run.rows.len() as u64 - 1) as usize;
        run.apply(&PageOp::Remove(i), true)?;
    }
    Ok(())
}

/// Every history of 5 operations over a tiny page
fn tiny_histories(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut x = s.upto(u64::MAX);
    let a = [1usize, 2, 4, 8][(x % 4) as usize];
    x /= 4;
    let size = al([24usize, 40][(x % 2) as usize], a);
    x /= 2;
    let mut run = PageRun::new(size, a, 0xff)?;
    let mut d = format!("page {} alignment {}:", size, a);
    for step in 0..5u8 {
        let k = run.rows.len();
        let o = (x % 8) as usize;
        x /= 8;
        let row = |n: usize| vec![0x10 + step; n];
        let op = match o {
            0 => PageOp::Append(row(0)),
            1 => PageOp::Append(row(3)),
            2 => PageOp::Insert(0, row(4)),
            3 => PageOp::Insert(0, row(0)),
            4 => PageOp::Insert(k / 2, row(5)),
            5 => PageOp::Remove(0),
            6 => PageOp::Remove(k / 2),
            _ => PageOp::Remove(k.saturating_sub(1)),
        };
        d.push_str(&format!(" {:?}", op));
        run.apply(&op, true)?;
    }
    run.check_outside(2)?;
    ctx.nontrivial = true;
    ctx.case(|| d);
    Ok(())
}

fn c09_rejects_bad_page(s: &mut Src, ctx: &mut Ctx) -> Res {
    // page sizes from minimal upwards: initialisation works for every size that is a multiple of the alignment
    let i = s.upto(u64::MAX) as usize;
    let a = 1usize << (i % 7);
    let size = al(4 + i / 7, a);
    ctx.case(|| format!("initialise page of {} bytes, alignment {}", size, a));
    ctx.nontrivial = true;
    let mut run = PageRun::new(size, a, 0xff)?;
    run.check_content("initialisation")?;
    run.apply(&PageOp::Append(vec![1, 2, 3]), false)?;
    run.apply(&PageOp::Insert(0, vec![9]), false)?;
    run.apply(&PageOp::Insert(1, vec![7; 5]), false)?;
    Ok(())
}

// ---------------------------------------------------------------- C15 malformed records and pages
/// A valid encoding that is damaged, or bytes out of the blue
fn damaged(s: &mut Src, image: &[u8]) -> (Vec<u8>, String) {
    let mut b = image.to_vec();
    let mut what = String::new();
    let kind = s.weighted(&[4, 3, 4, 2]);
    if kind == 3 {
        let n = s.upto(image.len() as u64 + 8) as usize;
        let fill = s.upto(3) as u8 * 85;
        b = (0..n).map(|_| if s.coin() { fill } else { s.upto(255) as u8 }).collect();
        return (b, "replaced".to_string());
    }
    if kind != 1 && !b.is_empty() {
        for _ in 0..s.range(1, 4) {
            // the fixed part comes first
            let i = if s.chance(2, 3) { s.upto((b.len() as u64 - 1).min(16)) as usize } else { s.upto(b.len() as u64 - 1) as usize };
            b[i] = *s.pick(&[0u8, 1, 2, 3, 0x10, 0x7f, 0x80, 0xd8, 0xff, b[i] ^ 1, b[i].wrapping_add(1), b[i].wrapping_sub(1)]);
            what.push_str(&format!("byte {} = {:#x}, ", i, b[i]));
        }
    }
    if kind <= 1 && !b.is_empty() {
        let k = if s.coin() { b.len() - 1 - s.upto((b.len() as u64 - 1).min(9)) as usize } else { s.upto(b.len() as u64 - 1) as usize };
        b.truncate(k);
        what.push_str(&format!("truncated to {}", k));
    }
    (b, what)
}

fn is_inside(part: &[u8], whole: &[u8]) -> bool {
    let (a, b) = (part.as_ptr() as usize, whole.as_ptr() as usize);
    part.is_empty() || a >= b && a - b <= whole.len() && part.len() <= whole.len() - (a - b)
}

fn c15_records(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg::default());
    let (v, v2) = (gen_val(s, &t), gen_val(s, &t));
    let m = marshaller(&t)?;
    let ds = to_ds(&t, &v);
    let size = no_panic("encoding_size", || m.encoding_size(&ds))?;
    let mut buf = Buf::new(size, 0, 0);
    no_panic("encode", || m.encode(&ds, buf.slice()))?;
    let (bytes, what) = damaged(s, buf.read());
    ctx.case(|| format!("{} as {} bytes {:02x?}; {}", show(&t, &v), size, &bytes[..bytes.len().min(64)], what));
    let images: Vec<Buf> = [0u8, 0xff, 0x41]
        .iter()
        .map(|g| {
            let mut b = Buf::new(bytes.len(), 0, *g);
            b.slice().copy_from_slice(&bytes);
            b
        })
        .collect();
    let mut ls = all_leaves(&t, &v);
    ls.extend(all_leaves(&t, &v2));
    let (mut refused, mut answered) = (0, 0);
    for (p, l) in &ls {
        let mut first: Option<Result<String, ()>> = None;
        for b in &images {
            let view = MarshallerDataSource::new(&m, b.read());
            let got: Result<String, ()> = match l {
                Leaf::Prim(x) => match x.primitive() {
                    Primitive::Bool => match guarded(|| { let b = view.get_bool(p); unsafe { std::ptr::read_volatile(&b as *const bool as *const u8) } }) {
                        Ok(raw) => {
                            ensure!(raw <= 1, "no-bool", "{:?} is read as a boolean with the bits {:#x}", p, raw);
                            Ok(raw.to_string())
                        }
                        Err(_) => Err(()),
                    },
                    Primitive::Char => match guarded(|| { let c = view.get_char(p); unsafe { std::ptr::read_volatile(&c as *const char as *const u32) } }) {
                        Ok(raw) => {
                            ensure!(char::from_u32(raw).is_some(), "no-char", "{:?} is read as a character with the code {:#x}", p, raw);
                            Ok(raw.to_string())
                        }
                        Err(_) => Err(()),
                    },
                    k => guarded(|| get_prim(&view, k, p)).map(|x| show_bits(&x)).map_err(drop),
                },
                Leaf::Str(_) => match guarded(|| { let r = view.get_bytes(p); (r.as_ptr(), r.len(), is_inside(r, b.read())) }) {
                    Ok((at, n, inside)) => {
                        ensure!(inside, "outside", "{:?} is read as {} bytes at {:p}, outside of the record of {} bytes at {:p}", p, n, at, bytes.len(), b.read().as_ptr());
                        Ok(format!("{:02x?} {:?}", view.get_bytes(p), guarded(|| view.get_length(p)).ok()))
                    }
                    Err(_) => guarded(|| view.get_length(p)).map(|x| x.to_string()).map_err(drop),
                },
                Leaf::Tag(_) => guarded(|| view.get_case_tag(p)).map(|x| x.to_string()).map_err(drop),
            };
            match got {
                Ok(_) => answered += 1,
                Err(_) => refused += 1,
            }
            match &first {
                None => first = Some(got),
                Some(f) => ensure!(*f == got, "outside", "{:?} is read as {:?} or {:?}, depending on what follows the record", p, f, got),
            }
        }
    }
    // the whole record, as JSON and as a record again
    let mut texts = vec![];
    for b in &images {
        let view = MarshallerDataSource::new(&m, b.read());
        let mut out = vec![];
        texts.push(match guarded(|| JsonEncoder::new(&t).encode(&mut out, &view).is_ok()) {
            Ok(true) => Some(out),
            _ => None,
        });
        if let Ok(n) = guarded(|| m.encoding_size(&view)) {
            if n <= 1 << 16 {
                let mut copy = Buf::new(n, 0x22, 0x33);
                let _ = guarded(|| m.encode(&view, copy.slice()));
                ensure!(copy.guards_intact(), "overrun", "encoding a damaged record wrote outside of the {} bytes announced", n);
            }
        }
    }
    ensure!(texts.iter().all(|x| *x == texts[0]), "outside", "the JSON text depends on what follows the record");
    if let Some(out) = &texts[0] {
        let text = std::str::from_utf8(out).map_err(|e| Fail { sig: "bad-json".into(), msg: format!("the JSON text of a damaged record is no UTF-8: {}", e) })?;
        if let Err(e) = crate::json::parse(text) {
            return fail("bad-json", format!("the JSON text of a damaged record is none: {}: {:.300}", e, text));
        }
    }
    if refused > 0 {
        ctx.label("some element refused");
    }
    if answered > 0 {
        ctx.label("some element answered");
    }
    if texts[0].is_some() {
        ctx.label("still encodes to JSON");
    }
    ctx.nontrivial = refused > 0 || bytes[..] != *buf.read();
    Ok(())
}

fn show_bits(v: &Pv) -> String {
    match v {
        Pv::F32(x) => format!("{:#x}", x.to_bits()),
        Pv::F64(x) => format!("{:#x}", x.to_bits()),
        x => show_val(&Val::Prim(*x)),
    }
}

fn c15_pages(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (size, a) = gen_page(s);
    let size = size.min(4096 / a * a).max(al(4, a));
    let fmt = PageFormat::new(a);
    let mut buf = Buf::new(size, 0, 0xC3);
    no_panic("initialize_page", || fmt.initialize_page(buf.slice()))?;
    for k in 0..s.upto(6) as usize {
        let n = s.upto(20) as usize;
        let _ = guarded(|| fmt.append_row(buf.slice(), &vec![k as u8; n]));
    }
    let (bytes, what) = loop {
        let (b, what) = damaged(s, buf.read());
        if b.len() == size {
            break (b, what);
        }
        // pages have a size of their own: fill up what is missing
        let mut b = b;
        let fill = b.last().copied().unwrap_or(0xff);
        b.resize(size, fill);
        break (b, what);
    };
    let mut d = format!("page of {} bytes, alignment {}, {}: {:02x?};", size, a, what, &bytes[..size.min(48)]);
    let mut images: Vec<Buf> = [0u8, 0xff, 0x41]
        .iter()
        .map(|g| {
            let mut b = Buf::new(size, 0, *g);
            b.slice().copy_from_slice(&bytes);
            b
        })
        .collect();
    let mut refused = false;
    for step in 0..5u8 {
        let n = guarded(|| fmt.num_rows(images[0].read())).unwrap_or(0);
        let index = match s.weighted(&[4, 2, 1]) {
            0 => s.upto((n as u64).min(8)) as usize,
            1 => n.saturating_sub(s.upto(2) as usize),
            _ => s.bits(32) as usize,
        };
        let row = vec![0x60 + step; s.upto(24) as usize];
        let op = s.upto(4);
        d.push_str(&format!(" {} {} ({});", ["get", "append", "insert", "remove", "space"][op as usize], index, row.len()));
        ctx.case(|| d.clone());
        let mut first: Option<Option<String>> = None;
        for b in images.iter_mut() {
            let got = match op {
                0 => match guarded(|| { let r = fmt.get_row(b.read(), index); (r.len(), is_inside(r, b.read())) }) {
                    Ok((len, inside)) => {
                        ensure!(inside, "outside", "row {} of {} bytes is outside of the page", index, len);
                        Some(format!("{:02x?}", fmt.get_row(b.read(), index)))
                    }
                    Err(_) => None,
                },
                1 => guarded(|| fmt.append_row(b.slice(), &row)).ok().map(|_| String::new()),
                2 => guarded(|| fmt.insert_row(b.slice(), index, &row)).ok().map(|_| String::new()),
                3 => guarded(|| fmt.remove_row(b.slice(), index)).ok().map(|_| String::new()),
                _ => guarded(|| fmt.max_insert_row_size(b.read())).ok().map(|x| x.to_string()),
            };
            ensure!(b.guards_intact(), "outside-page", "bytes outside of the page changed");
            refused |= got.is_none();
            match &first {
                None => first = Some(got),
                Some(f) => ensure!(*f == got, "outside", "{:?} or {:?}, depending on what follows the page", f, got),
            }
        }
        for k in 1..images.len() {
            ensure!(images[k].read() == images[0].read(), "outside", "the contents of the page depend on what surrounds it");
        }
    }
    if refused {
        ctx.label("some operation refused");
    }
    ctx.nontrivial = bytes[..] != *buf.read();
    Ok(())
}

// ---------------------------------------------------------------- C12 value store
fn c12_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut ds = IntermediateDataSource::new();
    let mut model: BTreeMap<Vec<usize>, Leaf> = BTreeMap::new();
    let n = s.len(40);
    let mut desc = String::new();
    let mut overwritten = false;
    let mk = |c: &[usize]| c.iter().fold(Path::create_empty(), |p, x| p.with_component(*x));
    for _ in 0..n {
        let len = s.upto(3) as usize;
        let comps: Vec<usize> = (0..len).map(|_| *s.pick(&[0usize, 1, 2, 10, 255, 256, usize::MAX])).collect();
        let path = mk(&comps);
        match s.weighted(&[6, 3, 2, 1]) {
            0 => {
                let p = *s.pick(&PRIMS);
                let v = gen_prim(s, p);
                ds.add_primitive(&path, v);
                desc.push_str(&format!(" {:?}={}", comps, show_val(&Val::Prim(v))));
                overwritten |= model.insert(comps, Leaf::Prim(v)).is_some();
            }
            1 => {
                let t = gen_string(s, 10);
                ds.add_string(&path, &t);
                desc.push_str(&format!(" {:?}={:?}", comps, t));
                overwritten |= model.insert(comps, Leaf::Str(t)).is_some();
            }
            2 => {
                let t = s.bits(64) as usize;
                ds.add_case_tag(&path, t);
                desc.push_str(&format!(" {:?}=#{}", comps, t));
                overwritten |= model.insert(comps, Leaf::Tag(t)).is_some();
            }
            _ => {
                ds.clear();
                model.clear();
                desc.push_str(" clear");
            }
        }
        if s.chance(1, 3) {
            let ls: Vec<(Path, Leaf)> = model.iter().map(|(k, v)| (mk(k), v.clone())).collect();
            compare(&ds, &ls, false)?;
        }
    }
    ctx.nontrivial = overwritten;
    ctx.case(|| desc);
    let ls: Vec<(Path, Leaf)> = model.iter().map(|(k, v)| (mk(k), v.clone())).collect();
    compare(&ds, &ls, false)?;
    // nothing is readable under a path that was never stored (or was cleared)
    let probe: Vec<usize> = (0..s.upto(3) as usize).map(|_| *s.pick(&[0usize, 1, 2, 10, 255, 256])).collect();
    if !model.contains_key(&probe) {
        let p = mk(&probe);
        ensure!(guarded(|| ds.get_bytes(&p).len()).is_err(), "ghost", "a string is readable at {:?}, where nothing is stored", probe);
        ensure!(guarded(|| ds.get_case_tag(&p)).is_err(), "ghost", "a tag is readable at {:?}, where nothing is stored", probe);
        ensure!(guarded(|| ds.get_u8(&p)).is_err(), "ghost", "a number is readable at {:?}, where nothing is stored", probe);
    }
    Ok(())
}

/// Storing the leaves of a value in any order, with earlier junk overwritten, gives the value.
fn c12_order(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg::default());
    let v = gen_val(s, &t);
    let w = gen_val(s, &t);
    let ls = all_leaves(&t, &v);
    ctx.nontrivial = ls.len() >= 3;
    ctx.case(|| show(&t, &v));
    let mut ds = to_ds(&t, &w);
    if s.coin() {
        ds.clear();
    }
    let mut order: Vec<usize> = (0..ls.len()).collect();
    for i in (1..order.len()).rev() {
        let j = s.upto(i as u64) as usize;
        order.swap(i, j);
    }
    for i in order {
        fill(&mut ds, &ls[i..i + 1]);
    }
    compare(&ds, &ls, false)
}

// ---------------------------------------------------------------- C13 pipeline
fn to_json(t: &Type, ds: &dyn DataSource) -> Result<Vec<u8>, Fail> {
    let mut out = vec![];
    no_panic("json/encode", || JsonEncoder::new(t).encode(&mut out, ds))?.map_err(|e| Fail { sig: "json/encode-error".into(), msg: e.to_string() })?;
    Ok(out)
}

/// every row of the page through the binary view, against the documents that should be there
fn c13_rows(t: &Type, m: &Marshaller, fmt: &PageFormat, in_place: bool, buf: &mut Buf, docs: &[Vec<u8>], when: &str) -> Res {
    let n = no_panic("num_rows", || fmt.num_rows(buf.read()))?;
    ensure!(n == docs.len(), "row-count", "{} rows instead of {} {}", n, docs.len(), when);
    for (i, d) in docs.iter().enumerate() {
        let row = no_panic("get_row", || fmt.get_row(buf.read(), i))?;
        let got = if in_place {
            to_json(t, &MarshallerDataSource::new(m, row))?
        } else {
            // rows at smaller alignments are copied to where a record may lie
            let mut copy = Buf::new(row.len(), 0, 0x77);
            copy.slice().copy_from_slice(row);
            to_json(t, &MarshallerDataSource::new(m, copy.read()))?
        };
        ensure!(&got == d, "pipeline", "row {} ({} bytes) reads back as {} instead of {} {}", i, row.len(), String::from_utf8_lossy(&got), String::from_utf8_lossy(d), when);
    }
    ensure!(buf.guards_intact(), "outside-page", "bytes outside the page changed");
    Ok(())
}

fn c13_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = gen_type(s, &TypeCfg { budget: 15, ..TypeCfg::default() });
    let m = marshaller(&t)?;
    let align = if s.chance(1, 3) { 1usize << s.upto(7) } else { 16 };
    let fmt = PageFormat::new(align);
    let size = *s.pick(&[256usize, 1024, 4096, 16384]) << if shape() == Shape::Wide { 6 } else { 0 };
    // the memory of a page lies at a multiple of 16: rows of larger alignments as well
    let in_place = align >= 16;
    let mut buf = Buf::new(size, 0xff, 0xC3);
    no_panic("initialize_page", || fmt.initialize_page(buf.slice()))?;
    let mut docs: Vec<Vec<u8>> = vec![];
    let mut desc = format!("type {} page {} alignment {}:", show_type(&t), size, align);
    let decoder = |text: &str, ds: &mut IntermediateDataSource| no_panic("json/decode", || JsonDecoder::new(&t).parse(text, ds));
    // one store reused for all documents, as a server would
    let mut store = IntermediateDataSource::new();
    let mut mid = false;
    let long = s.chance(1, 16);
    let steps = if long { s.len(300) } else { s.len(12) };
    let watched = s.chance(1, 4);
    for _ in 0..1 + steps {
        if watched {
            c13_rows(&t, &m, &fmt, in_place, &mut buf, &docs, "during the history")?;
        }
        if !docs.is_empty() && s.chance(1, 4) {
            let i = s.upto(docs.len() as u64 - 1) as usize;
            mid |= i + 1 < docs.len();
            desc.push_str(&format!(" remove({})", i));
            no_panic("remove_row", || fmt.remove_row(buf.slice(), i))?;
            docs.remove(i);
            continue;
        }
        let v = gen_val(s, &t);
        let doc = to_json(&t, &to_ds(&t, &v))?;
        let text = match String::from_utf8(doc.clone()) {
            Ok(x) => x,
            Err(_) => return fail("json/utf8", format!("JSON of {} is not UTF-8", show(&t, &v))),
        };
        store.clear();
        if let Err(e) = decoder(&text, &mut store)? {
            return fail("json/decode-error", format!("{} for {}", e, text));
        }
        let n = no_panic("encoding_size", || m.encoding_size(&store))?;
        let mut row = Buf::new(n, 0xAA, 0x11);
        no_panic("encode", || m.encode(&store, row.slice()))?;
        if n > no_panic("max_insert_row_size", || fmt.max_insert_row_size(buf.read()))? || model_full(&fmt, &buf, docs.len()) {
            ensure!(!docs.is_empty() || n + 4 * align + 32 > size, "no-room", "a row of {} bytes does not fit into an empty page of {}", n, size);
            if long && !docs.is_empty() {
                // make room and go on
                let i = s.upto(docs.len() as u64 - 1) as usize;
                mid |= i + 1 < docs.len();
                desc.push_str(&format!(" remove({})", i));
                no_panic("remove_row", || fmt.remove_row(buf.slice(), i))?;
                docs.remove(i);
            }
            continue;
        }
        let at = if s.coin() { docs.len() } else { s.upto(docs.len() as u64) as usize };
        mid |= at < docs.len();
        desc.push_str(&format!(" insert({}, {})", at, text));
        no_panic("insert_row", || {
            if at == docs.len() {
                fmt.append_row(buf.slice(), row.read())
            } else {
                fmt.insert_row(buf.slice(), at, row.read())
            }
        })?;
        docs.insert(at, doc);
    }
    ctx.nontrivial = docs.len() >= 2 && mid;
    if docs.len() >= 4 {
        ctx.label(">= 4 rows at the end");
    }
    if docs.len() >= 40 {
        ctx.label(">= 40 rows at the end");
    }
    ctx.case(|| desc);
    c13_rows(&t, &m, &fmt, in_place, &mut buf, &docs, "in the end")
}

/// an empty row at zero room is a matter of C10
fn model_full(fmt: &PageFormat, buf: &Buf, _rows: usize) -> bool {
    fmt.max_insert_row_size(buf.read()) == 0
}

// ---------------------------------------------------------------- C14 helpers
fn c14_align(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = 1usize << s.upto(63);
    // half of them within a few multiples of the largest values
    let v = if s.coin() { s.bits(64) as usize } else { usize::MAX - s.bits(64) as usize };
    ctx.case(|| format!("align({}, {})", v, a));
    ctx.nontrivial = v > 1;
    let want = (v as u128 + a as u128 - 1) / a as u128 * a as u128;
    if want <= usize::MAX as u128 {
        let got = no_panic("align", || util::align(v, a))?;
        ensure!(got as u128 == want, "align", "align({}, {}) = {} instead of {}", v, a, got, want);
    }
    // an alignment that is no power of two is refused
    let bad = s.bits(64) as usize;
    if !bad.is_power_of_two() {
        ensure!(guarded(|| util::align(7, bad)).is_err(), "align-accepts", "align accepted the alignment {}", bad);
    }
    Ok(())
}

fn c14_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    let block = s.upto(u64::MAX) as usize;
    ctx.case(|| format!("all helpers for values {}..{}", block * 64, block * 64 + 63));
    ctx.nontrivial = true;
    for v in block * 64..block * 64 + 64 {
        for k in 0..20 {
            let a = 1usize << k;
            let got = util::align(v, a);
            let want = (v + a - 1) / a * a;
            ensure!(got == want, "align", "align({}, {}) = {} instead of {}", v, a, got, want);
        }
        check_bits(v)?;
    }
    Ok(())
}

/// values with two bits set, runs of bits, and their neighbours, with every alignment
fn c14_shapes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let (hi, lo) = (1usize << (i / 64), 1usize << (i % 64));
    ctx.case(|| format!("all helpers for values around 2^{} and 2^{}", i / 64, i % 64));
    ctx.nontrivial = i / 64 > 1;
    for base in [hi | lo, hi.wrapping_sub(lo), !(hi | lo), !hi.wrapping_sub(lo)] {
        for v in [base, base.wrapping_sub(1), base.wrapping_add(1), base.wrapping_add(2)] {
            check_bits(v)?;
            for k in 0..64 {
                let a = 1usize << k;
                let want = (v as u128 + a as u128 - 1) / a as u128 * a as u128;
                if want <= usize::MAX as u128 {
                    let got = no_panic("align", || util::align(v, a))?;
                    ensure!(got as u128 == want, "align", "align({}, {}) = {} instead of {}", v, a, got, want);
                }
            }
            if !v.is_power_of_two() {
                ensure!(guarded(|| util::align(7, v)).is_err(), "align-accepts", "align accepted the alignment {}", v);
            }
        }
    }
    Ok(())
}

fn check_bits(v: usize) -> Res {
    let got = no_panic("required_bits", || util::required_bits(v))?;
    let want = (0..=64usize).find(|n| (v as u128) < (1u128 << n)).unwrap();
    ensure!(got == want, "required_bits", "required_bits({}) = {} instead of {}", v, got, want);
    if v.is_power_of_two() {
        let l = no_panic("log2", || util::log2(v))?;
        ensure!(1usize << l == v, "log2", "log2({}) = {}", v, l);
    } else {
        ensure!(guarded(|| util::log2(v)).is_err(), "log2-accepts", "log2 accepted {}, which is no power of two", v);
    }
    Ok(())
}

fn c14_bits(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v = s.bits(64) as usize;
    ctx.case(|| format!("required_bits/log2({})", v));
    ctx.nontrivial = v > 1;
    check_bits(v)
}

fn c14_getset(s: &mut Src, ctx: &mut Ctx) -> Res {
    let len = match s.weighted(&[12, 1]) {
        0 => s.upto(80) as usize,
        _ => s.upto(70_000) as usize,
    };
    let mut model: Vec<u8> = (0..len).map(|i| (i * 37 + 11) as u8).collect();
    let mut buf = Buf::new(len, 0, 0xC3);
    buf.slice().copy_from_slice(&model);
    let mut desc = format!("{} bytes:", len);
    for _ in 0..1 + s.len(8) {
        macro_rules! go {
            ($t:ty, $v:expr) => {{
                let n = std::mem::size_of::<$t>();
                let off = s.upto(len as u64 / n as u64 + 1) as usize * n;
                let v: $t = $v;
                desc.push_str(&format!(" {}@{}={:?}", stringify!($t), off, v));
                let r = guarded(|| util::set_value::<$t>(buf.slice(), off, v));
                if off + n <= len {
                    if let Err(m) = r {
                        return fail("panic/set_value", m);
                    }
                    model[off..off + n].copy_from_slice(&v.to_ne_bytes());
                    let g = no_panic("get_value", || util::get_value::<$t>(buf.read(), off))?;
                    ensure!(g.to_ne_bytes() == v.to_ne_bytes(), "get_value", "wrote {:?} at {}, read {:?}", v, off, g);
                } else {
                    ensure!(r.is_err(), "out-of-bounds", "a write of {} bytes at {} of {} was accepted", n, off, len);
                    ensure!(guarded(|| util::get_value::<$t>(buf.read(), off)).is_err(), "out-of-bounds", "a read of {} bytes at {} of {} was accepted", n, off, len);
                }
                ensure!(buf.read() == &model[..], "neighbours", "bytes other than the written ones changed");
                ensure!(buf.guards_intact(), "outside", "bytes outside the slice changed");
            }};
        }
        match s.upto(13) {
            8 => go!(i8, s.bits(8) as u8 as i8),
            9 => go!(i16, s.bits(16) as u16 as i16),
            10 => go!(i128, s.bits(128) as i128),
            11 => go!(f32, f32::from_bits(s.bits(31) as u32 % 0x7f80_0000)),
            12 => go!(usize, s.bits(64) as usize),
            13 => go!(isize, s.bits(64) as usize as isize),
            0 => go!(u8, s.bits(8) as u8),
            1 => go!(u16, s.bits(16) as u16),
            2 => go!(u32, s.bits(32) as u32),
            3 => go!(u64, s.bits(64) as u64),
            4 => go!(u128, s.bits(128)),
            5 => go!(i64, s.bits(64) as u64 as i64),
            6 => go!(i32, s.bits(32) as u32 as i32),
            _ => go!(f64, s.upto(1000) as f64 / 3.0),
        }
    }
    ctx.nontrivial = len > 8;
    ctx.case(|| desc);
    Ok(())
}

fn c01_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    shaped(Shape::Wide, || c01_random(s, ctx))
}
fn c01_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    each_small(s, ctx, 2, c01_random)
}
fn c02_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    shaped(Shape::Wide, || c02_random(s, ctx))
}
fn c02_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    each_small(s, ctx, 3, c02_random)
}
fn c12_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    shaped(Shape::Wide, || c12_order(s, ctx))
}
fn c13_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    shaped(Shape::Wide, || c13_random(s, ctx))
}
fn c13_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    each_small(s, ctx, 2, c13_random)
}

/// sizes of the announced encodings of enums, as C01 has them
fn c02_tags(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.upto(u64::MAX) as usize + 1;
    ctx.case(|| format!("enum of {} unit cases in a record, encoded exactly", n));
    ctx.nontrivial = true;
    let t = ty(Kind::Tuple(vec![Box::new(unit_enum(3)), Box::new(ty(Kind::String)), Box::new(unit_enum(n)), Box::new(unit_enum(2))]));
    let m = marshaller(&t)?;
    let u = |i| Val::Enum(i, Box::new(Val::Unit));
    for tag in [0, n / 2, n - 1] {
        let v = Val::Seq(vec![u(tag % 3), Val::Str("xyz"[..tag % 4].to_string()), u(tag), u(tag % 2)]);
        exact(&t, &v, &m)?;
    }
    Ok(())
}

/// encoded into a buffer of exactly the announced size, once over zeros and once over ones
fn exact(t: &Type, v: &Val, m: &Marshaller) -> Res {
    let ls = all_leaves(t, v);
    let ds = to_ds(t, v);
    let size = no_panic("encoding_size", || m.encoding_size(&ds))?;
    for prior in [0u8, 0xff] {
        let mut buf = Buf::new(size, prior, 0x3c);
        let n = no_panic("encode", || m.encode(&ds, buf.slice()))?;
        ensure!(n == size, "size-mismatch", "announced size {} but encoding reports {}", size, n);
        ensure!(buf.guards_intact(), "overrun", "encoding wrote outside its {} byte buffer", size);
        let view = MarshallerDataSource::new(m, buf.read());
        compare(&view, &ls, false)?;
        let again = no_panic("encoding_size/view", || m.encoding_size(&view))?;
        ensure!(again == size, "size-view", "size {} from the value but {} from the view", size, again);
    }
    Ok(())
}

/// records of more members and longer strings than 16 bits count
fn c01_giant(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX);
    let n = [65535usize, 65536, 65537, 70001][i as usize % 4];
    let form = i / 4;
    ctx.case(|| format!("giant record of form {} with {} members or bytes", form, n));
    ctx.nontrivial = true;
    let prim = |p| Box::new(ty(Kind::Primitive(p)));
    let (t, v) = match form {
        0 => (
            ty(Kind::Tuple((0..n).map(|i| prim(if i % 7 == 0 { Primitive::U32 } else { Primitive::U8 })).collect())),
            Val::Seq((0..n).map(|i| if i % 7 == 0 { Val::Prim(Pv::U32(i as u32 * 77)) } else { Val::Prim(Pv::U8(i as u8)) }).collect()),
        ),
        1 => (
            ty(Kind::Struct((0..n).map(|i| Field { label: format!("f{}", i), typ: Box::new(unit_enum(2 + i % 9)) }).collect())),
            Val::Seq((0..n).map(|i| Val::Enum((i / 3) % (2 + i % 9), Box::new(Val::Unit))).collect()),
        ),
        2 => {
            let n = [n, 1 << 17, (1 << 20) + 5, (1 << 24) + 3][i as usize % 4];
            let long = |i: usize| Val::Str(std::iter::repeat((b'a' + i as u8) as char).take(n + i).collect());
            (ty(Kind::Tuple((0..4).map(|_| Box::new(ty(Kind::String))).collect())), Val::Seq((0..4).map(long).collect()))
        }
        3 => (
            ty(Kind::Tuple((0..n).map(|i| if i % 16 == 3 { Box::new(ty(Kind::String)) } else { prim(Primitive::U16) }).collect())),
            Val::Seq((0..n).map(|i| if i % 16 == 3 { Val::Str(if i % 5 == 0 { i.to_string() } else { String::new() }) } else { Val::Prim(Pv::U16(i as u16)) }).collect()),
        ),
        _ => (
            ty(Kind::Enum((0..n).map(|i| Case { label: format!("c{}", i), typ: Box::new(ty(if i % 3 == 0 { Kind::String } else { Kind::Primitive(PRIMS[i % 14]) })) }).collect())),
            Val::Enum(n / 3 * 3 - 3, Box::new(Val::Str("last".into()))),
        ),
    };
    if form == 4 {
        // in the midst of other members of varying size
        let t3 = ty(Kind::Tuple(vec![Box::new(ty(Kind::String)), Box::new(t.clone()), Box::new(unit_enum(3)), Box::new(t.clone()), Box::new(ty(Kind::String))]));
        let m = marshaller(&t3)?;
        let txt = |x: &str| Val::Str(x.into());
        for (a, b) in [(0, n / 3 * 3 - 3), (n / 3 * 3 - 3, 3), (65532, 257 * 3)] {
            let tag = |k: usize, x: &str| Val::Enum(k, Box::new(txt(x)));
            let v3 = Val::Seq(vec![txt("first"), tag(a, "in the middle"), Val::Enum(2, Box::new(Val::Unit)), tag(b, "behind"), txt("end")]);
            encode_and_read(&t3, &v3, &m, 0xff)?;
            exact(&t3, &v3, &m)?;
        }
    }
    let m = marshaller(&t)?;
    encode_and_read(&t, &v, &m, 0xff)?;
    exact(&t, &v, &m)
}

/// pages of 32 MiB with rows of several MiB
fn page_giant(s: &mut Src, ctx: &mut Ctx, _edge: bool) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let a = [8, 1, 4096, 65536][i % 4];
    let size = (1usize << 25) - if a == 1 { 4096 + 3 } else { 0 };
    let mut run = PageRun::new(size, a, 0xff)?;
    run.lazy = true;
    ctx.case(|| format!("rows of up to 17 MiB in a page of {} bytes, alignment {}", size, a));
    ctx.nontrivial = true;
    let row = |k: usize, n: usize| -> Vec<u8> { (0..n).map(|i| (i * 7 + i / 251 + k * 13) as u8).collect() };
    for (k, (at, n)) in [(0, 5), (0, 1 << 20), (1, (1 << 22) + 1), (0, 70_000), (2, (1 << 24) + 77), (0, 3), (5, 1 << 21), (3, 0), (1, 1 << 22), (0, 1 << 23), (0, 1 << 16)].into_iter().enumerate() {
        run.apply(&PageOp::Insert(at.min(run.rows.len()), row(k, n)), true)?;
    }
    run.check_all("inserts")?;
    run.check_space("inserts")?;
    for at in [1, 0, 2, 1] {
        run.apply(&PageOp::Remove(at), true)?;
        run.check_all("removal")?;
        run.check_space("removal")?;
    }
    let left = (i / 4 % 2) * 9;
    let room = model_room(&run.rows, size, a).unwrap_or(0);
    run.apply(&PageOp::Append(row(77, room - left.min(room))), true)?;
    run.check_all("filling")?;
    run.check_space("filling")
}
fn c09_giant(s: &mut Src, ctx: &mut Ctx) -> Res {
    page_giant(s, ctx, false)
}

/// Memory that only becomes resident where it is touched
struct Lazy {
    at: *mut u8,
    layout: std::alloc::Layout,
}

impl Lazy {
    fn new(len: usize) -> Option<Lazy> {
        let layout = std::alloc::Layout::from_size_align(len, 4096).ok()?;
        let at = unsafe { std::alloc::alloc_zeroed(layout) };
        if at.is_null() {
            None
        } else {
            Some(Lazy { at, layout })
        }
    }
    fn slice(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.at, self.layout.size()) }
    }
}

impl Drop for Lazy {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.at, self.layout) }
    }
}

/// pages around 2 GiB and 4 GiB, of which only the ends are used
fn page_huge(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let a = [1usize, 64, 65536][i % 3];
    let size = [(1usize << 31) - a, 1 << 31, (1 << 31) + 5 * a, 3 << 30, (1 << 32) - 2 * a, (1 << 32) - a, 1 << 32][i / 3 % 7] / a * a;
    ctx.case(|| format!("page of {} bytes, alignment {}", size, a));
    ctx.nontrivial = true;
    let mut mem = match Lazy::new(size) {
        Some(m) => m,
        None => return Ok(()),
    };
    let fmt = PageFormat::new(a);
    let page = mem.slice();
    if size >= 1 << 32 {
        // may be more than a directory entry can address
        if guarded(|| fmt.initialize_page(page)).is_err() {
            ctx.label("too large");
            return Ok(());
        }
    } else {
        no_panic("initialize_page", || fmt.initialize_page(page))?;
    }
    let mut rows: Vec<Vec<u8>> = vec![];
    for step in 0..14usize {
        let k = rows.len();
        let desc = match step {
            4 | 9 => {
                let at = if step == 4 { 1 } else { k - 1 };
                no_panic("remove_row", || fmt.remove_row(page, at))?;
                rows.remove(at);
                format!("removal at {}", at)
            }
            _ => {
                let n = [5usize, 0, 1000, 70_000, 0, 64, 63, 65, 1, 0, 4096, 3, 2, 1][step];
                let r: Vec<u8> = (0..n).map(|i| (i * 3 + step) as u8).collect();
                let at = [0, 1, 0, 1, 0, 0, 2, k, 3, 0, k, k / 2, 0, 1][step].min(k);
                if at == k && step % 2 == 0 {
                    no_panic("append_row", || fmt.append_row(page, &r))?;
                } else {
                    no_panic("insert_row", || fmt.insert_row(page, at, &r))?;
                }
                rows.insert(at, r);
                format!("insertion of {} bytes at {}", n, at)
            }
        };
        let n = fmt.num_rows(page);
        ensure!(n == rows.len(), "row-count", "after {}: {} rows instead of {}", desc, n, rows.len());
        for (i, want) in rows.iter().enumerate() {
            let r = no_panic("get_row", || fmt.get_row(page, i).to_vec())?;
            ensure!(r == *want, "row-content", "after {}: row {} is {} instead of {}", desc, i, brief(&r), brief(want));
        }
        let m = no_panic("max_insert_row_size", || fmt.max_insert_row_size(page))?;
        let want = model_room(&rows, size, a).unwrap_or(0);
        ensure!(m == want, "space", "after {}: reports room for {} bytes, arithmetic says {}", desc, m, want);
    }
    Ok(())
}

/// big pages with many rows, wide alignments
fn page_large(s: &mut Src, ctx: &mut Ctx, edge: bool) -> Res {
    let a = match s.weighted(&[3, 1]) {
        0 => 1usize << s.upto(6),
        _ => 1usize << s.range(7, 12),
    };
    let size = match s.weighted(&[3, 3, 1]) {
        0 => 1usize << s.range(9, 16),
        1 => al(1000 + s.upto(40_000) as usize, a),
        _ => 1usize << s.range(16, 20),
    };
    let size = al(size, a).max(al(4, a));
    let mut run = PageRun::new(size, a, 0xff)?;
    run.lazy = true;
    let class = match s.weighted(&[2, 2, 1, 1]) {
        0 => 6,
        1 => 60,
        2 => 700,
        _ => size / 3,
    };
    let mut desc = format!("page {} bytes, alignment {}, rows up to {} bytes:", size, a, class);
    let mut most = 0;
    let mut middle = false;
    for _ in 0..1 + s.upto(3) {
        let grow = s.range(1, 900);
        let place = s.upto(3);
        let stamp = s.upto(255) as u8;
        desc.push_str(&format!(" up to {} inserts in place {}", grow, place));
        let mut refused = 0;
        for k in 0..grow {
            let n = s.upto(class as u64) as usize;
            let row: Vec<u8> = (0..n).map(|i| stamp.wrapping_add((i * 7 + k * 13) as u8)).collect();
            let at = match place {
                0 => run.rows.len(),
                1 => 0,
                2 => run.rows.len() / 2,
                _ => s.upto(run.rows.len() as u64) as usize,
            };
            middle |= at < run.rows.len();
            let op = if place == 0 { PageOp::Append(row) } else { PageOp::Insert(at, row) };
            if !run.apply(&op, edge && k % 16 == 0)? {
                refused += 1;
                if refused > 3 {
                    break;
                }
            }
        }
        most = most.max(run.rows.len());
        run.check_all("inserts")?;
        if edge {
            run.check_space("inserts")?;
        }
        if !run.rows.is_empty() {
            let drop = s.upto(run.rows.len() as u64) as usize;
            let place = s.upto(3);
            desc.push_str(&format!(" {} removals in place {}", drop, place));
            for k in 0..drop {
                let last = run.rows.len() - 1;
                let at = match place {
                    0 => last,
                    1 => 0,
                    2 => last / 2,
                    _ => s.upto(last as u64) as usize,
                };
                middle |= at < last;
                run.apply(&PageOp::Remove(at), edge && k % 16 == 0)?;
            }
            run.check_all("removals")?;
            if edge {
                run.check_space("removals")?;
            }
        }
    }
    if most > 255 {
        ctx.label("more than 255 rows");
    }
    if size > 65536 {
        ctx.label("page > 65536");
    }
    if a > 64 {
        ctx.label("alignment > 64");
    }
    ctx.nontrivial = most >= 3 && (edge || middle);
    ctx.case(|| desc);
    Ok(())
}

fn c09_large(s: &mut Src, ctx: &mut Ctx) -> Res {
    page_large(s, ctx, false)
}
fn c10_large(s: &mut Src, ctx: &mut Ctx) -> Res {
    page_large(s, ctx, true)
}

/// many paths at once, long paths, long strings
fn c12_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut ds = IntermediateDataSource::new();
    let mut model: BTreeMap<Vec<usize>, Leaf> = BTreeMap::new();
    let ops = s.range(20, 600);
    let (width, depth) = match s.weighted(&[2, 2, 1]) {
        0 => (s.range(2, 40), s.range(1, 3)),
        1 => (2, s.range(4, 12)),
        _ => (3, s.range(20, 200)),
    };
    ctx.case(|| format!("{} stores under paths of up to {} components below {}, first choice {:?}", ops, depth, width, s.rec.last()));
    let mk = |c: &[usize]| c.iter().fold(Path::create_empty(), |p, x| p.with_component(*x));
    let mut overwritten = false;
    for k in 0..ops {
        let n = s.upto(depth as u64) as usize;
        let comps: Vec<usize> = (0..n).map(|_| s.upto(width as u64) as usize).collect();
        let leaf = match s.weighted(&[6, 3, 2]) {
            0 => {
                let p = *s.pick(&PRIMS);
                Leaf::Prim(gen_prim(s, p))
            }
            1 if s.chance(1, 20) => Leaf::Str(format!("{}:{}", k, "long ".repeat(s.upto(15_000) as usize))),
            1 => Leaf::Str(gen_string(s, 10)),
            _ => Leaf::Tag(s.bits(64) as usize),
        };
        if s.chance(1, 400) {
            ds.clear();
            model.clear();
        }
        fill(&mut ds, &[(mk(&comps), leaf.clone())]);
        overwritten |= model.insert(comps, leaf).is_some();
        if k % 97 == 0 {
            compare(&ds, &model.iter().map(|(k, v)| (mk(k), v.clone())).collect::<Vec<_>>(), false)?;
        }
    }
    ctx.nontrivial = overwritten && model.len() > 16;
    if model.len() > 255 {
        ctx.label("more than 255 paths");
    }
    compare(&ds, &model.iter().map(|(k, v)| (mk(k), v.clone())).collect::<Vec<_>>(), false)
}

/// every store history of four steps over four paths, then what each path shows
fn c12_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut x = s.upto(u64::MAX);
    let paths: [&[usize]; 4] = [&[], &[0], &[0, 0], &[1]];
    let mk = |c: &[usize]| c.iter().fold(Path::create_empty(), |p, x| p.with_component(*x));
    let mut ds = IntermediateDataSource::new();
    let mut model: BTreeMap<Vec<usize>, Leaf> = BTreeMap::new();
    let mut desc = String::new();
    for step in 0..4u8 {
        let o = (x % 17) as usize;
        x /= 17;
        if o == 16 {
            ds.clear();
            model.clear();
            desc.push_str(" clear");
            continue;
        }
        let leaf = match o / 4 {
            0 => Leaf::Prim(Pv::U8(step)),
            1 => Leaf::Prim(Pv::I64(-(step as i64))),
            2 => Leaf::Str("abcd"[..step as usize].to_string()),
            _ => Leaf::Tag(step as usize),
        };
        desc.push_str(&format!(" {:?}={:?}", paths[o % 4], leaf));
        fill(&mut ds, &[(mk(paths[o % 4]), leaf.clone())]);
        model.insert(paths[o % 4].to_vec(), leaf);
    }
    ctx.nontrivial = model.len() < 4;
    ctx.case(|| desc.clone());
    for p in paths {
        match model.get(p) {
            Some(l) => compare(&ds, &[(mk(p), l.clone())], false)?,
            None => {
                let q = mk(p);
                ensure!(guarded(|| ds.get_bytes(&q).len()).is_err() && guarded(|| ds.get_case_tag(&q)).is_err() && guarded(|| ds.get_u8(&q)).is_err() && guarded(|| ds.get_i64(&q)).is_err(), "ghost", "something is readable at {:?}, where nothing is stored, after{}", p, desc);
            }
        }
    }
    Ok(())
}

const MEM: &[&str] = &["buffers handed to the record codec and the page format are 16-byte aligned, as their callers must ensure", "labels within one struct or enum are distinct"];

pub fn properties() -> Vec<Property> {
    let arm = |name, quick, thorough, f: CaseFn| Arm { name, quick, thorough, exhaustive: false, f };
    let all = |name, n, f: CaseFn| Arm { name, quick: n, thorough: n, exhaustive: true, f };
    vec![
        Property {
            id: "C01",
            rule: "random record types (depth <= 5, up to 300 cases / 70 fields, all primitives) with two random values each, encoded over stale bytes and read back leaf by leaf; plus every tag of every enum of up to 260 cases and every packing of three enums from 13 sizes; all 23838 types of up to five nodes over six leaves; records with up to 2049 members, nested up to 90 deep or with strings up to 16 MiB, and some with more than 65535 members. Non-trivial: at least 3 leaves, or a string or enum leaf. Distinct by type and first value",
            assumptions: MEM,
            arms: vec![arm("random", 600_000, 6_000_000, c01_random), all("tags", 260, c01_tags), all("pack", 2197, c01_pack), all("huge", 3, c01_huge), arm("wide", 4_500, 60_000, c01_wide), all("small", SMALL_TYPES, c01_small), all("giant", 4 * 5, c01_giant)],
        },
        Property {
            id: "C02",
            rule: "random record types and values; each encoded into exactly-sized buffers with three prior contents and guard bytes, read back, re-encoded through the view, and encoded into buffers that are too small; all types of up to five nodes, wide, deep and long ones as for C01. Non-trivial: at least 3 leaves, or a string or enum leaf",
            assumptions: MEM,
            arms: vec![arm("random", 360_000, 4_000_000, c02_random), arm("wide", 2_400, 30_000, c02_wide), all("small", SMALL_TYPES, c02_small), all("tags", 300, c02_tags)],
        },
        Property {
            id: "C09",
            rule: "operation histories (append, insert at any index, remove, re-initialise) over random page sizes (8..65536), row alignments 1..64 and prior memory contents, against a list; plus all 262144 five-step histories over 8 tiny pages and histories of hundreds of rows in pages of up to 1 MiB with alignments up to 4096; rows of up to 17 MiB in pages of 32 MiB and small rows in pages of up to 4 GiB. Non-trivial: at least 3 rows at some point and an insert or removal that is not at the end",
            assumptions: MEM,
            arms: vec![arm("random", 360_000, 4_000_000, c09_random), all("sizes", 7 * 80, c09_rejects_bad_page), arm("large", 4_500, 60_000, c09_large), all("giant", 8, c09_giant), all("huge", 21, page_huge), all("tiny", 8 * 32768, tiny_histories)],
        },
        Property {
            id: "C10",
            rule: "histories biased to the space limit: rows within a few bytes of the reported room, out-of-range positions, pages filled to the brim and emptied; free space compared with exact arithmetic after every step, refused operations compared byte for byte; also with hundreds of rows in pages of up to 1 MiB and rows of up to 17 MiB in pages of 32 MiB and small rows in pages of up to 4 GiB. Non-trivial: at least 3 rows, or some operation refused",
            assumptions: MEM,
            arms: vec![arm("random", 240_000, 3_000_000, c10_random), arm("fill", 90_000, 600_000, c10_fill), arm("large", 4_500, 60_000, c10_large), all("giant", 8, c09_giant), all("huge", 21, page_huge), all("tiny", 8 * 32768, tiny_histories)],
        },
        Property {
            id: "C15",
            rule: "encodings of random values of random types and pages with rows, truncated, with bytes changed, or replaced by random bytes; every element of two values of the type is read and the whole is encoded as JSON and as a record again, with three different contents of the memory behind it; page operations likewise. Non-trivial: the bytes are not a valid record as encoded",
            assumptions: MEM,
            arms: vec![arm("records", 60_000, 2_000_000, c15_records), arm("pages", 60_000, 2_000_000, c15_pages)],
        },
        Property {
            id: "C12",
            rule: "histories of stores, overwrites, clears and reads over 1..3-component paths and all value kinds against a map; values stored in random leaf order over an earlier value; hundreds of paths of up to 200 components; all four-step histories over four paths. Non-trivial: an overwrite happened / at least 3 leaves",
            assumptions: &[],
            arms: vec![arm("random", 450_000, 5_000_000, c12_random), arm("order", 300_000, 3_000_000, c12_order), arm("many", 9_000, 100_000, c12_many), arm("wide", 1_800, 20_000, c12_wide), all("small", 17 * 17 * 17 * 17, c12_small)],
        },
        Property {
            id: "C13",
            rule: "random record type, up to 13 (sometimes 300) inserts/removals of random values through JSON -> store -> binary row -> page, then page -> binary view -> JSON compared with the documents that should be there, in the end and sometimes after every step, for row alignments 1..128; also for every type of up to five nodes and for wide, deep and long ones. Non-trivial: at least 2 rows left and an insert or removal that was not at the end",
            assumptions: MEM,
            arms: vec![arm("random", 180_000, 2_000_000, c13_random), arm("wide", 900, 10_000, c13_wide), all("small", SMALL_TYPES, c13_small)],
        },
        Property {
            id: "C14",
            rule: "values biased to powers of two +-2 and extremes, all alignments, all bytes-slice positions; all values below 65536 and all sums and differences of two powers of two enumerated. Non-trivial: value above 1 / slice above 8 bytes",
            assumptions: MEM,
            arms: vec![
                arm("align", 900_000, 5_000_000, c14_align),
                arm("bits", 900_000, 5_000_000, c14_bits),
                arm("getset", 450_000, 4_000_000, c14_getset),
                all("small", 1024, c14_small),
                all("shapes", 4096, c14_shapes),
            ],
        },
    ]
}
