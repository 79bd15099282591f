//! C27: catalogs and volume parameters survive serialisation.

use crate::engine::*;
use crate::ensure;
use crate::sql_parse::*;
use crate::sql_typed::*;
use cathlamet::sql::verif as hook;
use cathlamet::storage::VolumeParameters;
use serde::{de::DeserializeOwned, Serialize};

fn stored<T: Serialize>(what: &str, x: &T) -> Result<Vec<u8>, Fail> {
    match no_panic("serialize", || bincode::serialize(x))? {
        Ok(b) => Ok(b),
        Err(e) => Err(Fail { sig: "not-stored".into(), msg: format!("{} cannot be serialised: {}", what, e) }),
    }
}

fn restored<T: DeserializeOwned>(what: &str, bytes: &[u8]) -> Result<T, Fail> {
    match no_panic("deserialize", || bincode::deserialize(bytes))? {
        Ok(x) => Ok(x),
        Err(e) => Err(Fail { sig: "not-restored".into(), msg: format!("{} cannot be read back: {}", what, e) }),
    }
}

fn same(desc: &str, a: &hook::Catalog, b: &hook::Catalog) -> Res {
    let (x, y) = (no_panic("contents", || a.contents())?, no_panic("contents", || b.contents())?);
    ensure!(x == y, "contents", "{}\n holds        {:?}\n but restored {:?}", desc, x, y);
    let (x, y) = (no_panic("details", || a.details())?, no_panic("details", || b.details())?);
    ensure!(x == y, "details", "{}\n is           {}\n but restored {}", desc, x, y);
    Ok(())
}

/// build, store, restore, go on with both
fn c27_history(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cat = hook::Catalog::new();
    let mut log: Vec<String> = vec![];
    let pool: Vec<String> = (0..4).map(|i| if i < 2 { s.pick(&["main", "Temp", "aux_1", "straße"]).to_string() } else { name_text(s) }).collect();
    let opool: Vec<String> = (0..4).map(|i| if i < 2 { s.pick(&["t1", "Orders", "view2", "ﬁle"]).to_string() } else { name_text(s) }).collect();
    let mut objects = 0;
    for _ in 0..s.range(0, 16) {
        let n0 = s.pick(&pool).clone();
        let n = respell(s, &n0);
        match s.weighted(&[3, 4, 2, 2]) {
            0 => {
                log.push(format!("create {:?}", n));
                let _ = no_panic("create_schema", || cat.create_schema(&n))?;
            }
            1 => {
                if no_panic("contents", || cat.contents())?.iter().any(|x| hook::name_eq(&x.0, &n)) {
                    let o0 = s.pick(&opool).clone();
                    let o = respell(s, &o0);
                    let cols = gen_columns(s);
                    let view = s.chance(1, 3);
                    log.push(format!("{} {:?}.{:?} {:?}", if view { "view" } else { "table" }, n, o, cols));
                    no_panic("add", || cat.add_object(&n, &o, &cols, view))?;
                    objects += 1;
                }
            }
            2 => {
                let o0 = s.pick(&opool).clone();
                let o = respell(s, &o0);
                let bytes = stored(&log.join("; "), &cat)?;
                let copy: hook::Catalog = restored(&log.join("; "), &bytes)?;
                let (a, b) = (no_panic("describe", || cat.describe(&n, &o))?, no_panic("describe", || copy.describe(&n, &o))?);
                ensure!(a.as_ref().ok() == b.as_ref().ok(), "describe", "{}; describe {:?}.{:?}: {:?}, restored {:?}", log.join("; "), n, o, a, b);
            }
            _ => {
                // the restored catalog takes the place of the original
                let bytes = stored(&log.join("; "), &cat)?;
                let copy: hook::Catalog = restored(&log.join("; "), &bytes)?;
                same(&log.join("; "), &cat, &copy)?;
                log.push("restore".into());
                cat = copy;
            }
        }
    }
    let desc = log.join("; ");
    let bytes = stored(&desc, &cat)?;
    let copy: hook::Catalog = restored(&desc, &bytes)?;
    same(&desc, &cat, &copy)?;
    // bytes that are cut short are no catalog
    let cut = s.upto(bytes.len() as u64 - 1) as usize;
    let r = no_panic("deserialize", || bincode::deserialize::<hook::Catalog>(&bytes[..cut]))?;
    ensure!(r.is_err(), "cut", "{}: the first {} of {} bytes are taken for a catalog", desc, cut, bytes.len());
    ctx.nontrivial = objects > 0;
    ctx.case(|| desc);
    Ok(())
}

/// statements are checked over the restored catalog as over the original
fn c27_checked(s: &mut Src, ctx: &mut Ctx) -> Res {
    let cat = messy_cat(s);
    let usable = cat.tables.iter().all(|t| !t.cols.is_empty());
    let real = cat.real();
    let copy: hook::Catalog = restored(&cat.text(), &stored(&cat.text(), &real)?)?;
    same(&cat.text(), &real, &copy)?;
    let text = if usable {
        let st = typed(s, &cat);
        print(s, &st)
    } else {
        "SELECT * FROM t1".to_string()
    };
    ctx.nontrivial = usable;
    ctx.case(|| format!("{} | {}", text, cat.text()));
    let (a, b) = (class(check(&real, &cat.default, &text)?), class(check(&copy, &cat.default, &text)?));
    ensure!(a == b, "verdict", "{:?}\n yields {:?}\n but over the restored catalog {:?}\n catalog {}", clip(&text), a, b, cat.text());
    Ok(())
}

/// many schemas, objects, columns; long names
fn c27_wide(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut cat = hook::Catalog::new();
    let (b0, b1, b2) = *s.pick(&[(7u32, 0, 1), (0, 8, 2), (0, 0, 10), (3, 4, 3), (9, 0, 0), (0, 9, 0)]);
    let n = |s: &mut Src, b: u32| 1 + if b > 0 { s.bits(b) as usize } else { 0 };
    let (ns, no, nc) = (n(s, b0), n(s, b1), n(s, b2));
    let long = if s.chance(1, 3) { "x".repeat(s.bits(12) as usize) } else { name_text(s) };
    let desc = format!("{} schemas, {} objects, {} columns, names like {}", ns, no, nc, clip(&long));
    ctx.nontrivial = ns > 8 || no > 8 || nc > 8;
    ctx.case(|| desc.clone());
    for i in 0..ns {
        let name = format!("{}{}", long, i);
        let _ = no_panic("create_schema", || cat.create_schema(&name))?;
        for j in 0..no {
            let cols: Vec<hook::Column> = gen_columns(s).into_iter().cycle().take(if s.coin() { nc } else { 3 }).collect();
            no_panic("add", || cat.add_object(&name, &format!("{}{}", long, j), &cols, (i + j) % 3 == 0))?;
        }
    }
    let copy: hook::Catalog = restored(&desc, &stored(&desc, &cat)?)?;
    same(&desc, &cat, &copy)
}

fn c27_volume(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = VolumeParameters { volume_size: s.bits(64) as u64, log_block_size: s.bits(16) as u16, log_file_header_size: s.bits(16) as u16 };
    ctx.nontrivial = p.volume_size > 1;
    let desc = format!("{:?}", p);
    ctx.case(|| desc.clone());
    let q: VolumeParameters = restored(&desc, &stored(&desc, &p)?)?;
    ensure!(
        (q.volume_size, q.log_block_size, q.log_file_header_size) == (p.volume_size, p.log_block_size, p.log_file_header_size),
        "volume",
        "{} is restored as {:?}",
        desc,
        q
    );
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let arm = |name, quick, thorough, f| Arm { name, quick, thorough, exhaustive: false, f };
    vec![Property {
        id: "C27",
        rule: "random histories of schema creations, table and view definitions, storing and restoring (bincode), the restored catalog taking the place of the original at random points; random statements checked over original and restored catalogs; up to 512 schemas, objects or 1000 columns; random volume parameters. Non-trivial: at least one object (wide: more than eight of a kind; volume: size above one)",
        assumptions: &["serialisation goes through serde's derived data model, here with the bincode format"],
        arms: vec![arm("history", 40_000, 1_000_000, c27_history), arm("checked", 20_000, 500_000, c27_checked), arm("wide", 600, 20_000, c27_wide), arm("volume", 40_000, 1_000_000, c27_volume)],
    }]
}
