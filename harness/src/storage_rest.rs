//! C32..C34: locations, size arithmetic, volume creation.

use crate::engine::*;
use crate::ensure;
use cathlamet::storage::{verif as hook, VolumeParameters};
use std::future::Future;
use std::os::unix::fs::OpenOptionsExt;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

const OFFSETS: u64 = 1 << 56;

// ---------------------------------------------------------------- C32
fn offset(s: &mut Src) -> u64 {
    s.bits(56) as u64
}

fn c32_parts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v = s.bits(8) as u8;
    let o = offset(s);
    // the second one often differs in a single part or bit
    let (v2, o2) = match s.weighted(&[2, 2, 2, 2, 1]) {
        0 => (s.bits(8) as u8, offset(s)),
        1 => (v, o ^ (1 << s.upto(55))),
        2 => (v ^ (1 << s.upto(7)), o),
        3 => (v.wrapping_add(1), o.wrapping_sub(s.upto(2)) % OFFSETS),
        _ => (v, o),
    };
    ctx.nontrivial = (v, o) != (0, 0) && (v2, o2) != (0, 0);
    ctx.case(|| format!("{}:{} and {}:{}", v, o, v2, o2));
    pair(v, o, v2, o2)
}

fn pair(v: u8, o: u64, v2: u8, o2: u64) -> Res {
    let (a, b) = no_panic("Location::new", || (hook::Place::new(v, o), hook::Place::new(v2, o2)))?;
    for (p, v, o) in [(a, v, o), (b, v2, o2)] {
        let (gv, go) = no_panic("Location parts", || (p.volume(), p.offset()))?;
        ensure!(gv == v && go == o, "parts", "location of volume {} offset {} gives volume {} offset {}", v, o, gv, go);
    }
    ensure!((a == b) == ((v, o) == (v2, o2)), "equal", "{}:{} == {}:{} is {}", v, o, v2, o2, a == b);
    ensure!(a.cmp(&b) == (v, o).cmp(&(v2, o2)), "order", "{}:{} compared with {}:{} gives {:?}", v, o, v2, o2, a.cmp(&b));
    ensure!(a.partial_cmp(&b) == Some(a.cmp(&b)), "order", "partial order of {}:{} and {}:{} is {:?}", v, o, v2, o2, a.partial_cmp(&b));
    ensure!((a < b) == ((v, o) < (v2, o2)) && (a >= b) == ((v, o) >= (v2, o2)), "order", "{}:{} < {}:{} is {}", v, o, v2, o2, a < b);
    Ok(())
}

/// every volume with every power of two and its neighbours
fn c32_all(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX);
    let v = i as u8;
    let k = (i >> 8) as u32;
    ctx.nontrivial = k > 0;
    ctx.case(|| format!("volume {} around 2^{}", v, k));
    let os = [(1u64 << k) - 1, 1 << k, (1 << k) + 1, OFFSETS - (1 << k), OFFSETS - 1];
    for o in os.iter().filter(|o| **o < OFFSETS) {
        for (v2, o2) in [(v, *o), (v.wrapping_add(1), 0), (v, o ^ 1), (v, o & (o - (*o > 0) as u64)), (!v, *o), (v, OFFSETS - 1)] {
            pair(v, *o, v2, o2)?;
        }
    }
    Ok(())
}

fn c32_beyond(s: &mut Src, ctx: &mut Ctx) -> Res {
    let v = s.bits(8) as u8;
    let low = offset(s);
    let o = match s.weighted(&[1, 1, 1]) {
        0 => OFFSETS,
        1 => low | OFFSETS << s.upto(7),
        _ => low | (1 + s.upto(254)) << 56,
    };
    ctx.nontrivial = true;
    ctx.case(|| format!("{}:{}", v, o));
    if let Ok(p) = guarded(|| hook::Place::new(v, o)) {
        return fail("beyond", format!("volume {} offset {} is beyond the addressable range but becomes volume {} offset {}", v, o, p.volume(), p.offset()));
    }
    Ok(())
}

fn c32_volumes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let buffers = s.range(1, 3);
    let asks = 250 + s.upto(20) as usize;
    ctx.nontrivial = asks > 256;
    ctx.case(|| format!("{} volumes", asks));
    let pool = no_panic("BufferPool::new", || hook::Pool::new(512, buffers))?.map_err(|e| Fail { sig: "HARNESS".into(), msg: e.to_string() })?;
    let mut m = no_panic("VolumeManager::new", || hook::Volumes::new(&pool))?;
    let mut seen = [false; 256];
    let mut given = 0;
    for k in 0..asks {
        match no_panic("next_volume", || m.next_volume())? {
            Ok(v) => {
                ensure!(!seen[v as usize], "twice", "volume index {} is given out again at request {}", v, k);
                seen[v as usize] = true;
                given += 1;
            }
            Err(_) => ensure!(given >= 255, "early", "no volume index after {} of 256", given),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C33
fn c33_blocks(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = match s.weighted(&[3, 1]) {
        0 => 1u64 << s.upto(63),
        _ => (s.bits(64) as u64).max(1),
    };
    let f = match s.weighted(&[2, 2, 1]) {
        0 => s.bits(64) as u64,
        1 => (b as u128 * s.bits(20) + s.upto(2) as u128).saturating_sub(1).min(u64::MAX as u128) as u64,
        _ => u64::MAX - s.upto(b.min(1 << 40)),
    };
    ctx.nontrivial = f > 0 && b > 1;
    ctx.case(|| format!("{} bytes in blocks of {}", f, b));
    blocks(f, b)
}

fn blocks(f: u64, b: u64) -> Res {
    let got = no_panic("calc_file_blocks", || hook::calc_file_blocks(f, b))? as u128;
    let fits = got * b as u128 >= f as u128;
    let least = got == 0 || (got - 1) * (b as u128) < f as u128;
    ensure!(fits && least, "blocks", "{} bytes need {} blocks of {} bytes", f, got, b);
    Ok(())
}

fn aligned(got: u128, v: u128, a: u128, bits: u32) -> Res {
    let ok = got >= v && got - v < a && got % a == 0;
    ensure!(ok, "align", "{} aligned to {} gives {} ({} bits)", v, a, got, bits);
    Ok(())
}

fn align_case(v: u128, a: u128, bits: u32) -> Res {
    let got = no_panic("align", || match bits {
        8 => hook::align_u8(v as u8, a as u8) as u128,
        16 => hook::align_u16(v as u16, a as u16) as u128,
        32 => hook::align_u32(v as u32, a as u32) as u128,
        64 => hook::align_u64(v as u64, a as u64) as u128,
        65 => hook::align_usize(v as usize, a as usize) as u128,
        _ => hook::align_u128(v, a),
    })?;
    aligned(got, v, a, bits)
}

fn c33_align(s: &mut Src, ctx: &mut Ctx) -> Res {
    let bits = *s.pick(&[8u32, 16, 32, 64, 65, 128]);
    let width = if bits == 65 { 64 } else { bits };
    let max = if width == 128 { u128::MAX } else { (1 << width) - 1 };
    let a = 1u128 << s.upto(width as u64 - 1);
    // the least multiple must be representable
    let top = max - (a - 1);
    let v = match s.weighted(&[2, 1, 1]) {
        0 => s.bits(width),
        1 => (a.saturating_mul(s.bits(4))).saturating_add(s.upto(2) as u128).saturating_sub(1),
        _ => top.saturating_sub(s.upto(2) as u128),
    }
    .min(top);
    ctx.nontrivial = v > 0 && a > 1;
    ctx.case(|| format!("{} to {} in {} bits", v, a, bits));
    align_case(v, a, bits)
}

/// every 8-bit value and alignment, every 16-bit boundary, blocks of small files
fn c33_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX);
    ctx.nontrivial = i > 1;
    ctx.case(|| format!("value {}", i));
    for k in 0..8 {
        let a = 1u128 << k;
        for bits in [8, 16, 32, 64, 65, 128] {
            if bits > 8 || i as u128 <= 255 - (a - 1) {
                align_case(i as u128, a, bits)?;
            }
        }
    }
    for b in 1..=40 {
        blocks(i, b)?;
    }
    Ok(())
}

fn c33_defaults(s: &mut Src, ctx: &mut Ctx) -> Res {
    let blocks = match s.weighted(&[2, 2, 1, 1]) {
        0 => 1 + s.bits(32) as u64,
        1 => 1 + s.upto(100),
        2 => (1u64 << 32) - s.upto(3),
        _ => 1 << s.upto(32),
    };
    ctx.nontrivial = blocks > 1;
    ctx.case(|| format!("{} blocks", blocks));
    let size = blocks * 4096;
    let p = no_panic("new_with_defaults", || VolumeParameters::new_with_defaults(size))?;
    ensure!(p.volume_size == size, "defaults", "volume of {} bytes recorded as {}", size, p.volume_size);
    ensure!(p.log_block_size == 12, "defaults", "default block size is 2^{} bytes", p.log_block_size);
    ensure!(p.log_file_header_size == 10, "defaults", "default file header size is 2^{} bytes", p.log_file_header_size);
    // sizes that are not a number of 4096-byte blocks the volume can address
    let bad = match s.weighted(&[3, 1, 1, 1]) {
        0 => size - 1 - s.upto(4094),
        1 => 0,
        2 => ((1u64 << 32) + 1 + s.upto(1000)) * 4096,
        _ => size - (1 << s.upto(11)),
    };
    if let Ok(p) = guarded(|| VolumeParameters::new_with_defaults(bad)) {
        return fail("defaults", format!("{} bytes are no valid volume size, but parameters are {:?}", bad, p));
    }
    Ok(())
}

// ---------------------------------------------------------------- C34
struct Zeros;

impl hook::Disk for Zeros {
    fn fetch<'a>(&'a self, _: u8, _: u64, buffer: &'a mut [u8]) -> Pin<Box<dyn Future<Output = std::io::Result<()>> + Send + 'a>> {
        Box::pin(async move {
            buffer.fill(0);
            Ok(())
        })
    }
}

struct Parker(std::thread::Thread);

impl Wake for Parker {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}

/// None: the future waits although nothing else happens
fn block_on<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(Parker(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    let start = Instant::now();
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return Some(x),
            Poll::Pending if start.elapsed() > Duration::from_secs(60) => {
                std::mem::forget(f);
                return None;
            }
            Poll::Pending => std::thread::park_timeout(Duration::from_millis(500)),
        }
    }
}

struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// a scratch directory on a file system that supports O_DIRECT
fn scratch() -> Result<Scratch, Fail> {
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    for base in [format!("{}/target", verif), "/tmp".into(), "/var/tmp".into(), "/dev/shm".into()] {
        // left behind by runs that were ended
        for e in std::fs::read_dir(&base).into_iter().flatten().flatten() {
            let name = e.file_name().into_string().unwrap_or_default();
            if let Some(pid) = name.strip_prefix("volumes-").and_then(|p| p.parse::<u32>().ok()) {
                if !PathBuf::from(format!("/proc/{}", pid)).exists() {
                    let _ = std::fs::remove_dir_all(e.path());
                }
            }
        }
        let d = PathBuf::from(base).join(format!("volumes-{}", std::process::id()));
        if std::fs::create_dir_all(&d).is_err() {
            continue;
        }
        let probe = d.join("probe");
        let ok = std::fs::OpenOptions::new().read(true).write(true).create(true).custom_flags(libc::O_DIRECT).open(&probe).and_then(|f| f.set_len(16 << 30)).is_ok();
        let _ = std::fs::remove_file(&probe);
        if ok {
            return Ok(Scratch(d));
        }
        let _ = std::fs::remove_dir_all(&d);
    }
    fail("HARNESS", "harness bug: no directory for volume files".into())
}

fn stamp(t: SystemTime) -> u64 {
    let d = t.duration_since(UNIX_EPOCH).unwrap();
    d.as_secs() << 16 | (d.subsec_nanos() as u64 >> 14)
}

fn u16_at(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}
fn u32_at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u64_at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

#[derive(Debug)]
struct File {
    typ: u32,
    version: u32,
    created: u64,
    modified: u64,
    allocated: u32,
    used: u32,
    last: u32,
    name: Option<Vec<u8>>,
    extents: Vec<(u32, u32)>,
}

/// file header record: fixed part, then 16-bit aligned attributes up to the end marker
fn file_header(b: &[u8]) -> Result<File, String> {
    let mut f = File {
        typ: u32_at(b, 0),
        version: u32_at(b, 4),
        created: u64_at(b, 8),
        modified: u64_at(b, 16),
        allocated: u32_at(b, 24),
        used: u32_at(b, 28),
        last: u32_at(b, 32),
        name: None,
        extents: vec![],
    };
    let mut o = 40;
    loop {
        o = (o + 1) & !1;
        if o + 2 > b.len() {
            return Err(format!("attributes without end marker ({:?})", f));
        }
        match u16_at(b, o) {
            0 => return Ok(f),
            1 => {
                if o + 3 > b.len() || o + 3 + b[o + 2] as usize > b.len() {
                    return Err("name beyond the record".into());
                }
                if f.name.is_some() {
                    return Err("two names".into());
                }
                let n = b[o + 2] as usize;
                f.name = Some(b[o + 3..o + 3 + n].to_vec());
                o += 3 + n;
            }
            0x10 => {
                if o + 4 > b.len() {
                    return Err("extents beyond the record".into());
                }
                let n = u16_at(b, o + 2) as usize;
                let at = (o + 4 + 3) & !3;
                if at + 8 * n > b.len() {
                    return Err("extents beyond the record".into());
                }
                for k in 0..n {
                    f.extents.push((u32_at(b, at + 8 * k), u32_at(b, at + 8 * k + 4)));
                }
                o = at + 8 * n;
            }
            x => return Err(format!("unknown attribute {:#x} at {} ({:?})", x, o, f)),
        }
    }
}

struct Image<'a> {
    pool: &'a hook::Pool,
    volume: u8,
    block: u64,
}

impl<'a> Image<'a> {
    fn page(&self, block: u64) -> Result<Vec<u8>, Fail> {
        let r = no_panic("read", || {
            block_on(async {
                let h = self.pool.read_only(self.volume, block * self.block).await;
                let b = h.bytes().to_vec();
                h.release().await;
                b
            })
        })?;
        r.ok_or_else(|| Fail { sig: "stuck".into(), msg: format!("block {} cannot be read after creation", block) })
    }

    fn bytes(&self, from: u64, len: u64) -> Result<Vec<u8>, Fail> {
        let mut v = vec![];
        for b in from / self.block..(from + len + self.block - 1) / self.block {
            v.extend(self.page(b)?);
        }
        let skip = (from % self.block) as usize;
        Ok(v[skip..skip + len as usize].to_vec())
    }
}

#[derive(Debug, Clone)]
struct Params {
    blocks: u64,
    log_block: u16,
    log_header: u16,
}

fn metadata_blocks(p: &Params) -> u64 {
    let block = 1u64 << p.log_block;
    let table = ((16u64 << p.log_header) + block - 1) / block;
    let bitmap = ((p.blocks + 7) / 8 + block - 1) / block;
    1 + 2 * table + bitmap
}

fn params(s: &mut Src) -> Params {
    let log_block = *s.pick(&[12u16, 9, 10, 11, 13, 14, 16, 18]);
    let log_header = s.range(9, (log_block as usize).min(12)) as u16;
    let log_header = if s.chance(1, 8) { log_block.min(14) } else { log_header };
    let bits = 8u64 << log_block;
    let blocks = match s.weighted(&[4, 3, 2, 2]) {
        0 => s.upto(400),
        1 => 128 * s.upto(40) + s.upto(2),
        2 => (bits * (1 + s.upto(2))).min(1 << 17) + s.upto(4),
        _ => s.upto(1 << 15),
    };
    let mut p = Params { blocks, log_block, log_header };
    if s.chance(1, 4) {
        // the metadata ends near the end of a bitmap word
        let without = metadata_blocks(&Params { blocks: 0, ..p.clone() });
        let target = (128 * (1 + s.upto(2)) + s.upto(2) - 1).max(without + 1);
        p.blocks = ((target - without) << (p.log_block + 3)) - s.upto(300);
    }
    // 16 GiB at most
    p.blocks = p.blocks.min(1 << (34 - log_block)).saturating_sub(2 * s.upto(1));
    while p.blocks < metadata_blocks(&p).max(16) {
        p.blocks = metadata_blocks(&p).max(16) + s.upto(3);
    }
    p
}

const NAMES: [&str; 5] = ["$file_table_0", "$file_table_1", "$allocation_bitmap", "$journal", "$volume_header"];

fn check_volume(im: &Image, p: &Params, t: Option<(u64, u64)>) -> Result<[u8; 16], Fail> {
    let block = 1u64 << p.log_block;
    let size = p.blocks * block;
    let h = im.page(0)?;
    let want = (0xCA78u32, 0x0100u32, size, p.log_block, p.log_header);
    let table = u64_at(&h, 32);
    let got = (u32_at(&h, 0), u32_at(&h, 4), u64_at(&h, 24), u16_at(&h, 40), u16_at(&h, 42));
    ensure!(got == want, "header", "volume header has (magic, version, size, log block size, log file header size) {:?}, expected {:?}", got, want);
    let uuid: [u8; 16] = h[8..24].try_into().unwrap();
    ensure!(uuid.iter().any(|b| *b != 0), "header", "volume identifier is all zero");
    let record = 1u64 << p.log_header;
    let tsize = 16 * record;
    let tblocks = (tsize + block - 1) / block;
    ensure!(table % block == 0 && table >= block && table + tsize <= size, "header", "file table is at offset {}", table);
    let raw = im.bytes(table, tsize)?;
    let mut files = vec![];
    for i in 0..16 {
        let r = &raw[(i * record) as usize..((i + 1) * record) as usize];
        match file_header(r) {
            Ok(f) => files.push(f),
            Err(e) => return fail("file header", format!("file header {}: {}", i, e)),
        }
    }
    let bitmap_bytes = (p.blocks + 7) / 8;
    let sizes = [Some(tsize), Some(tsize), Some(bitmap_bytes), Some(0), Some(block)];
    // which blocks belong to which file: (first, end, file)
    let mut used: Vec<(u64, u64, usize)> = vec![];
    for (i, f) in files.iter().enumerate() {
        let want = NAMES.get(i).map(|s| s.to_string()).unwrap_or_else(|| format!("$reserved_{}", i));
        let name = f.name.as_ref().map(|n| String::from_utf8_lossy(n).to_string());
        ensure!(name.as_deref() == Some(&want[..]), "name", "file {} is named {:?}, expected {:?}", i, name, want);
        ensure!(f.typ == 1 || (i >= 5 && f.typ == 0xffff), "type", "file {} ({}) has type {:#x}", i, want, f.typ);
        ensure!(f.version == 1, "version", "file {} has version {}", i, f.version);
        ensure!(f.created == f.modified, "time", "file {} is created at {:#x} and modified at {:#x}", i, f.created, f.modified);
        if let Some((a, b)) = t {
            ensure!(a <= f.created && f.created <= b, "time", "file {} is created at {:#x}, not between {:#x} and {:#x}", i, f.created, a, b);
        }
        let bytes = sizes.get(i).copied().flatten().unwrap_or(0);
        let need = (bytes + block - 1) / block;
        let total: u64 = f.extents.iter().map(|e| e.1 as u64).sum();
        ensure!(total == f.allocated as u64, "extents", "file {} ({}) has {} blocks allocated but extents {:?}", i, want, f.allocated, f.extents);
        ensure!(f.used as u64 == need, "extents", "file {} ({}) of {} bytes uses {} blocks of {}", i, want, bytes, f.used, block);
        ensure!(total == need, "extents", "file {} ({}) of {} bytes has extents {:?} in blocks of {}", i, want, bytes, f.extents, block);
        let last = (bytes % block) as u32;
        ensure!(f.last == last || (last == 0 && bytes > 0 && f.last as u64 == block), "last", "file {} ({}) of {} bytes says its last block has {} bytes", i, want, bytes, f.last);
        for (start, n) in &f.extents {
            let (start, end) = (*start as u64, *start as u64 + *n as u64);
            ensure!(end <= p.blocks, "extents", "file {} ({}) has block {} of {}", i, want, end - 1, p.blocks);
            if end > start {
                used.push((start, end, i));
            }
        }
    }
    used.sort();
    for w in used.windows(2) {
        if w[0].1 > w[1].0 {
            return fail("overlap", format!("block {} belongs to files {} and {}", w[1].0, w[0].2, w[1].2));
        }
    }
    let owner = |b: u64| used.iter().find(|u| u.0 <= b && b < u.1).map(|u| u.2);
    // a file's contents, block by block as its extents say
    let content = |f: &File| -> Result<Vec<u8>, Fail> {
        let mut v = vec![];
        for (start, n) in &f.extents {
            for b in *start as u64..*start as u64 + *n as u64 {
                v.extend(im.page(b)?);
            }
        }
        Ok(v)
    };
    ensure!(owner(0) == Some(4), "extents", "block 0 does not belong to the volume header but to {:?}", owner(0));
    ensure!(files[0].extents.first().map(|e| e.0 as u64 * block) == Some(table), "extents", "the header has the file table at {}, its entry at {:?}", table, files[0].extents);
    let (first, mirror) = (content(&files[0])?, content(&files[1])?);
    ensure!(first[..tsize as usize] == raw[..], "extents", "file table extents do not hold the file table");
    if first != mirror {
        let k = (0..first.len()).find(|k| first[*k] != mirror[*k]).unwrap();
        return fail("mirror", format!("the file table mirror differs at byte {} of {} blocks", k, tblocks));
    }
    let per_page = block * 8;
    let pages = files[2].extents.iter().flat_map(|(start, n)| *start as u64..*start as u64 + *n as u64);
    for (k, at) in pages.enumerate() {
        let got = im.page(at)?;
        // blocks that do not exist count as used
        let (lo, hi) = (k as u64 * per_page, (k as u64 + 1) * per_page);
        let mut want = vec![0xffu8; block as usize];
        for (a, b) in used.iter().map(|u| (u.0, u.1)).chain(Some((p.blocks, u64::MAX))) {
            let mut x = a.max(lo);
            while x < b.min(hi) {
                if x % 8 == 0 && x + 8 <= b.min(hi) {
                    want[((x - lo) / 8) as usize] = 0;
                    x += 8;
                } else {
                    want[((x - lo) / 8) as usize] &= !(1 << (x % 8));
                    x += 1;
                }
            }
        }
        if got != want {
            let x = (0..block as usize).find(|x| got[*x] != want[*x]).unwrap();
            let b = lo + x as u64 * 8 + (got[x] ^ want[x]).trailing_zeros() as u64;
            let free = got[x] >> (b % 8) & 1 == 1;
            return fail("bitmap", format!("block {} of {} is marked {} but {}", b, p.blocks, if free { "free" } else { "used" }, if b >= p.blocks { "does not exist".into() } else { format!("belongs to {:?}", owner(b)) }));
        }
    }
    Ok(uuid)
}

fn c34_create(s: &mut Src, ctx: &mut Ctx) -> Res {
    let first = params(s);
    let n = 1 + s.weighted(&[6, 2, 1]);
    let mut all = vec![first.clone()];
    while all.len() < n {
        // one block size per pool
        let mut p = params(s);
        p.log_block = first.log_block;
        p.log_header = p.log_header.min(p.log_block);
        p.blocks = p.blocks.min(1 << (34 - p.log_block)).max(metadata_blocks(&Params { blocks: 1 << 17, ..p.clone() }).max(16));
        all.push(p);
    }
    let clash = s.chance(1, 4);
    let spare = s.upto(3);
    ctx.nontrivial = first.blocks > 128 || first.log_header != 10 || n > 1;
    if n > 1 {
        ctx.label("several volumes");
    }
    if metadata_blocks(&first) > 40 {
        ctx.label("large metadata");
    }
    if first.blocks % 8 != 0 {
        ctx.label("blocks not a multiple of 8");
    }
    ctx.case(|| format!("{:?}, {} spare buffers, path exists: {}", all, spare, clash));
    let dir = scratch()?;
    let total: u64 = all.iter().map(metadata_blocks).sum();
    let block = 1usize << first.log_block;
    hook::set_disk(Some(Arc::new(Zeros)));
    let pool = no_panic("BufferPool::new", || hook::Pool::new(block, (total + 1 + spare) as usize))?.map_err(|e| Fail { sig: "HARNESS".into(), msg: e.to_string() })?;
    let mut m = no_panic("VolumeManager::new", || hook::Volumes::new(&pool))?;
    let mut indices = vec![];
    let mut times = vec![];
    for (k, p) in all.iter().enumerate() {
        let path = dir.0.join(format!("volume{}", k));
        let size = p.blocks << p.log_block;
        let vp = VolumeParameters { volume_size: size, log_block_size: p.log_block, log_file_header_size: p.log_header };
        if clash && k + 1 == n {
            let old = dir.0.join("taken");
            std::fs::write(&old, b"precious").unwrap();
            let r = no_panic("create", || block_on(m.create(&old, &vp)))?;
            ensure!(matches!(r, Some(Err(_))), "exists", "creating a volume over an existing file gives {:?}", r);
            let now = std::fs::read(&old).unwrap();
            ensure!(now == b"precious", "exists", "creating a volume over an existing file changed it ({} bytes)", now.len());
        }
        let (w0, i0) = (SystemTime::now(), Instant::now());
        let r = no_panic("create", || block_on(m.create(&path, &vp)))?;
        let (w1, el) = (SystemTime::now(), i0.elapsed());
        // only if the wall clock was not set meanwhile
        let steady = matches!(w1.duration_since(w0), Ok(d) if d <= el + Duration::from_millis(5) && el <= d + Duration::from_millis(5));
        times.push(if steady { Some((stamp(w0), stamp(w1))) } else { None });
        match r {
            None => return fail("stuck", format!("creation of {:?} does not end with {} buffers", p, total + 1 + spare)),
            Some(Err(e)) => return fail("create", format!("creation of {:?} fails: {}", p, e)),
            Some(Ok(v)) => {
                ensure!(!indices.contains(&v), "index", "two volumes have index {}", v);
                indices.push(v);
            }
        }
        let len = std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0);
        ensure!(len == size, "length", "volume file has {} bytes instead of {}", len, size);
    }
    let mut ids = vec![];
    for (k, p) in all.iter().enumerate() {
        let im = Image { pool: &pool, volume: indices[k], block: block as u64 };
        let id = check_volume(&im, p, times[k]).map_err(|mut f| {
            f.msg = format!("{} in volume {} of {:?}", f.msg, k, all);
            f
        })?;
        ensure!(!ids.contains(&id), "identifier", "two volumes share their identifier");
        ids.push(id);
    }
    Ok(())
}

const ARM: fn(&'static str, u64, u64, CaseFn) -> Arm = |name, quick, thorough, f| Arm { name, quick, thorough, exhaustive: false, f };
const ALL: fn(&'static str, u64, CaseFn) -> Arm = |name, n, f| Arm { name, quick: n, thorough: n, exhaustive: true, f };

/// every number of blocks from the least possible, for three block sizes
fn c34_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX);
    let (log_block, log_header) = [(9, 9), (12, 10), (10, 9)][(i % 3) as usize];
    let mut p = Params { blocks: 16, log_block, log_header };
    p.blocks = metadata_blocks(&p).max(16) + i / 3;
    ctx.nontrivial = true;
    ctx.case(|| format!("{:?}", p));
    let dir = scratch()?;
    let block = 1usize << log_block;
    hook::set_disk(Some(Arc::new(Zeros)));
    let pool = no_panic("BufferPool::new", || hook::Pool::new(block, metadata_blocks(&p) as usize + 1))?.map_err(|e| Fail { sig: "HARNESS".into(), msg: e.to_string() })?;
    let mut m = hook::Volumes::new(&pool);
    let vp = VolumeParameters { volume_size: p.blocks << log_block, log_block_size: log_block, log_file_header_size: log_header };
    match no_panic("create", || block_on(m.create(&dir.0.join("v"), &vp)))? {
        None => fail("stuck", format!("creation of {:?} does not end", p)),
        Some(Err(e)) => fail("create", format!("creation of {:?} fails: {}", p, e)),
        Some(Ok(v)) => check_volume(&Image { pool: &pool, volume: v, block: block as u64 }, &p, None).map(|_| ()),
    }
}

/// as many volumes as one manager takes
fn c34_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let count = match s.weighted(&[2, 1]) {
        0 => s.range(4, 40),
        _ => s.range(250, 258),
    };
    let blocks = 40 + s.upto(100);
    let p = Params { blocks, log_block: 9, log_header: 9 };
    ctx.nontrivial = true;
    if count >= 255 {
        ctx.label("255 volumes or more");
    }
    ctx.case(|| format!("{} volumes of {:?}", count, p));
    let dir = scratch()?;
    hook::set_disk(Some(Arc::new(Zeros)));
    let buffers = metadata_blocks(&p) as usize * count + 1;
    let pool = no_panic("BufferPool::new", || hook::Pool::new(512, buffers))?.map_err(|e| Fail { sig: "HARNESS".into(), msg: e.to_string() })?;
    let mut m = hook::Volumes::new(&pool);
    let mut indices = vec![];
    for k in 0..count {
        let vp = VolumeParameters { volume_size: blocks << 9, log_block_size: 9, log_file_header_size: 9 };
        match no_panic("create", || block_on(m.create(&dir.0.join(format!("v{}", k)), &vp)))? {
            None => return fail("stuck", format!("creation of volume {} of {:?} does not end", k, p)),
            // the last index may be kept back
            Some(Err(_)) if k >= 255 => break,
            Some(Err(e)) => return fail("create", format!("creation of volume {} of {:?} fails: {}", k, p, e)),
            Some(Ok(v)) => {
                ensure!(!indices.contains(&v), "index", "two volumes have index {}", v);
                indices.push(v);
            }
        }
    }
    let mut ids = vec![];
    for (k, v) in indices.iter().enumerate() {
        let id = check_volume(&Image { pool: &pool, volume: *v, block: 512 }, &p, None).map_err(|mut f| {
            f.msg = format!("{} in volume {} of {}", f.msg, k, count);
            f
        })?;
        ensure!(!ids.contains(&id), "identifier", "two volumes share their identifier");
        ids.push(id);
    }
    Ok(())
}

/// the largest file the scratch directory takes, as a power of two
fn room(dir: &Scratch) -> u32 {
    let probe = dir.0.join("room");
    let mut log = 34;
    if let Ok(f) = std::fs::OpenOptions::new().write(true).create(true).open(&probe) {
        while log < 42 && f.set_len(1 << (log + 1)).is_ok() {
            log += 1;
        }
    }
    let _ = std::fs::remove_file(&probe);
    log
}

/// volumes of many blocks and with large file headers
fn c34_big(s: &mut Src, ctx: &mut Ctx) -> Res {
    let log_block = *s.pick(&[9u16, 12, 10, 14, 16, 18]);
    let log_header = match s.weighted(&[3, 1]) {
        0 => s.range(9, (log_block as usize).min(12)) as u16,
        _ => log_block,
    };
    let dir = scratch()?;
    let most = room(&dir) - log_block as u32;
    let blocks = match s.weighted(&[2, 1, 1]) {
        0 => 1 + s.bits(most.min(22)) as u64,
        1 => (1 << s.range(16, most.min(24) as usize)) + s.upto(300) - 150,
        _ => (1u64 << most.min(25)) - s.upto(1 << 20),
    };
    let mut p = Params { blocks, log_block, log_header };
    while p.blocks < metadata_blocks(&p).max(16) {
        p.blocks = metadata_blocks(&p).max(16) + s.upto(3);
    }
    ctx.nontrivial = p.blocks > 1 << 16 || p.log_header > 12;
    if p.blocks > 1 << 20 {
        ctx.label("more than 2^20 blocks");
    }
    if p.blocks << log_block > 1 << 34 {
        ctx.label("more than 16 GiB");
    }
    ctx.case(|| format!("{:?}", p));
    hook::set_disk(Some(Arc::new(Zeros)));
    let pool = no_panic("BufferPool::new", || hook::Pool::new(1 << log_block, metadata_blocks(&p) as usize + 1))?.map_err(|e| Fail { sig: "HARNESS".into(), msg: e.to_string() })?;
    let mut m = hook::Volumes::new(&pool);
    let vp = VolumeParameters { volume_size: p.blocks << log_block, log_block_size: log_block, log_file_header_size: log_header };
    match no_panic("create", || block_on(m.create(&dir.0.join("v"), &vp)))? {
        None => fail("stuck", format!("creation of {:?} does not end", p)),
        Some(Err(e)) => fail("create", format!("creation of {:?} fails: {}", p, e)),
        Some(Ok(v)) => check_volume(&Image { pool: &pool, volume: v, block: 1 << log_block }, &p, None).map(|_| ()),
    }
}

/// volumes of so many blocks that their numbers and those of the bitmap's blocks leave 16 bits, up to the most
/// that a block pointer can tell apart
fn c34_giant(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (log_block, blocks) = [(9u16, (1u64 << 28) + (1 << 24) + 77), (9, 1 << 32), (9, (1 << 32) - 1), (9, (1 << 31) + 129), (10, 1 << 32), (10, (1 << 32) - 4097)][(s.upto(u64::MAX) % 6) as usize];
    let p = Params { blocks, log_block, log_header: 9 };
    ctx.case(|| format!("{:?}", p));
    let dir = scratch()?;
    if room(&dir) < 32 + log_block as u32 {
        ctx.label("no room");
        return Ok(());
    }
    ctx.nontrivial = true;
    hook::set_disk(Some(Arc::new(Zeros)));
    let pool = no_panic("BufferPool::new", || hook::Pool::new(1 << log_block, metadata_blocks(&p) as usize + 1))?.map_err(|e| Fail { sig: "HARNESS".into(), msg: e.to_string() })?;
    let mut m = hook::Volumes::new(&pool);
    let vp = VolumeParameters { volume_size: p.blocks << log_block, log_block_size: log_block, log_file_header_size: p.log_header };
    match no_panic("create", || block_on(m.create(&dir.0.join("v"), &vp)))? {
        None => fail("stuck", format!("creation of {:?} does not end", p)),
        Some(Err(e)) => fail("create", format!("creation of {:?} fails: {}", p, e)),
        Some(Ok(v)) => check_volume(&Image { pool: &pool, volume: v, block: 1 << log_block }, &p, None).map(|_| ()),
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C32",
            rule: "pairs of (volume, offset) differing in one bit, one part or at random, every volume with every power of two and its neighbours, offsets beyond 56 bits, and requests for more than 256 volume indices. Non-trivial: neither location is 0:0",
            assumptions: &["an offset beyond the addressable range is refused by a panic, as the code documents with an assertion"],
            arms: vec![ARM("parts", 3_000_000, 60_000_000, c32_parts), ARM("beyond", 20_000, 400_000, c32_beyond), ARM("volumes", 200, 5_000, c32_volumes), ALL("boundaries", 256 * 56, c32_all)],
        },
        Property {
            id: "C33",
            rule: "sizes, block sizes and alignments biased to powers of two and the largest values, compared with the definition in 128-bit arithmetic; every value up to 4096 with every small alignment and block size; volume sizes up to 2^32 blocks. Non-trivial: size above 0 and alignment or block above 1",
            assumptions: &["alignments are powers of two and the least multiple is representable", "invalid volume sizes are refused by a panic, as the code documents with assertions"],
            arms: vec![ARM("blocks", 3_000_000, 60_000_000, c33_blocks), ARM("align", 4_000_000, 20_000_000, c33_align), ARM("defaults", 200_000, 400_000, c33_defaults), ALL("small", 4096, c33_small)],
        },
        Property {
            id: "C34",
            rule: "volumes with block sizes 2^9..2^18, header sizes 2^9..2^14 and block counts biased to bitmap word and block boundaries, one to three per manager, up to 258 volumes of one manager, volumes of up to 2^25 blocks and 8 TiB and six of up to 2^32 blocks, created over new and existing paths; the cached image is decoded by an independent reader and the bitmap recounted from the extents. Non-trivial: more than 128 blocks, non-default header size or several volumes",
            assumptions: &[
                "the volume has room for its metadata and the pool for all metadata blocks, since writing back is not implemented",
                "the image is read through the buffer pool over an empty disk; bit set in the allocation bitmap means free",
            ],
            arms: vec![ARM("create", 12_000, 60_000, c34_create), ARM("many", 24, 400, c34_many), ARM("big", 40, 1_000, c34_big), ALL("giant", 6, c34_giant), ALL("sizes", 3 * 400, c34_sizes)],
        },
    ]
}
