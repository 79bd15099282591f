//! C30, C31: the buffer pool under arbitrary interleavings of requests and releases.
//!
//! A deterministic executor plays all tasks at once: a pending request or release is a future that
//! is polled when its waker was called (and now and then without). Page contents, exclusive
//! access and the duty to grant requests are followed by a model that only knows requests,
//! grants, writes and releases.

use crate::engine::*;
use crate::ensure;
use cathlamet::storage::verif as hook;
use std::future::Future;
use std::mem::ManuallyDrop;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Ro,
    Rw,
    Init,
}

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

fn flag() -> Arc<Flag> {
    Arc::new(Flag(AtomicBool::new(true)))
}

// ---------------------------------------------------------------- disk

/// what the disk holds for a page
fn stored(page: usize, size: usize) -> Vec<u8> {
    (0..size).map(|i| (fnv(&[page as u8, (page >> 8) as u8, (i / 7) as u8]) >> (8 * (i % 7))) as u8 | 1).collect()
}

struct Yield(u32);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Default)]
struct Gates {
    inflight: Vec<usize>,
    waiting: Vec<Waker>,
    opened: u64,
    fetches: usize,
    log: Vec<usize>,
}

struct Disk {
    places: Vec<(u8, u64)>,
    size: usize,
    /// (yields, wait for the gate) of the n-th fetch, cyclically
    plan: Vec<(u32, bool)>,
    gates: Mutex<Gates>,
}

struct Gate<'a>(&'a Disk, u64);

impl<'a> Future for Gate<'a> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.gates.lock().unwrap();
        if g.opened > self.1 {
            return Poll::Ready(());
        }
        g.waiting.push(cx.waker().clone());
        Poll::Pending
    }
}

impl hook::Disk for Disk {
    fn fetch<'a>(&'a self, volume: u8, offset: u64, buffer: &'a mut [u8]) -> Pin<Box<dyn Future<Output = std::io::Result<()>> + Send + 'a>> {
        Box::pin(async move {
            let page = match self.places.iter().position(|p| *p == (volume, offset)) {
                Some(p) if buffer.len() == self.size => p,
                Some(_) => return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("fetch into a buffer of {} bytes", buffer.len()))),
                None => return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("fetch of {}:{} that nobody asked for", volume, offset))),
            };
            let (yields, gated, opened) = {
                let mut g = self.gates.lock().unwrap();
                let (y, w) = self.plan[g.fetches % self.plan.len()];
                g.fetches += 1;
                g.inflight.push(page);
                g.log.push(page);
                (y, w, g.opened)
            };
            if yields > 0 || gated {
                let half = buffer.len() / 2;
                buffer[..half].fill(0xEE);
            }
            Yield(yields).await;
            if gated {
                Gate(self, opened).await;
            }
            buffer.copy_from_slice(&stored(page, self.size));
            let mut g = self.gates.lock().unwrap();
            let i = g.inflight.iter().position(|p| *p == page).unwrap();
            g.inflight.remove(i);
            Ok(())
        })
    }
}

// ---------------------------------------------------------------- world

enum Grant {
    Ro(hook::ReadOnly<'static>),
    Rw(hook::ReadWrite<'static>),
}

impl Grant {
    fn bytes(&self) -> &[u8] {
        match self {
            Grant::Ro(h) => h.bytes(),
            Grant::Rw(h) => h.bytes(),
        }
    }
}

struct Pending {
    page: usize,
    kind: Kind,
    fut: Pin<Box<dyn Future<Output = Grant>>>,
    flag: Arc<Flag>,
}

struct Held {
    page: usize,
    kind: Kind,
    grant: Grant,
    snap: Vec<u8>,
}

struct Releasing {
    page: usize,
    fut: Pin<Box<dyn Future<Output = Grant>>>,
    flag: Arc<Flag>,
}

struct World {
    pool: &'static hook::Pool,
    disk: Arc<Disk>,
    n: usize,
    size: usize,
    pending: Vec<Pending>,
    held: Vec<Held>,
    releasing: Vec<Releasing>,
    /// handles that were released already (C37)
    spent: Vec<(usize, Grant)>,
    keep: bool,
    refused: u64,
    content: Vec<Vec<u8>>,
    dirty: Vec<bool>,
    stamp: u64,
    grants: bool,
    trace: String,
    waited: bool,
    shared: bool,
    polls: u64,
}

fn err(sig: &str, msg: String) -> Fail {
    Fail { sig: sig.into(), msg }
}

impl World {
    fn new(n: usize, size: usize, places: Vec<(u8, u64)>, plan: Vec<(u32, bool)>, grants: bool) -> Result<World, Fail> {
        let pool = no_panic("BufferPool::new", || hook::Pool::new(size, n))?.map_err(|e| err("new", format!("no pool of {} buffers of {} bytes: {}", n, size, e)))?;
        ensure!(pool.total_size() == n * size, "total", "pool of {} buffers of {} bytes says it has {} bytes", n, size, pool.total_size());
        let content = (0..places.len()).map(|p| stored(p, size)).collect();
        let dirty = vec![false; places.len()];
        let disk = Arc::new(Disk { places, size, plan, gates: Default::default() });
        hook::set_disk(Some(disk.clone()));
        Ok(World {
            pool: Box::leak(Box::new(pool)),
            disk,
            n,
            size,
            pending: vec![],
            held: vec![],
            releasing: vec![],
            spent: vec![],
            keep: false,
            refused: 0,
            content,
            dirty,
            stamp: 0,
            grants,
            trace: String::new(),
            waited: false,
            shared: false,
            polls: 0,
        })
    }

    fn log(&mut self, s: String) {
        if self.trace.len() < 6000 {
            self.trace.push_str(&s);
            self.trace.push(' ');
        }
    }

    fn fail<T>(&self, sig: &str, msg: String) -> Result<T, Fail> {
        fail(sig, format!("{}\n pool of {} buffers of {} bytes, pages {:?}\n history: {}", msg, self.n, self.size, self.disk.places, self.trace))
    }

    fn issue(&mut self, page: usize, kind: Kind) {
        self.log(format!("request-{:?}({})", kind, page));
        let pool = self.pool;
        let (v, o) = self.disk.places[page];
        let fut: Pin<Box<dyn Future<Output = Grant>>> = match kind {
            Kind::Ro => Box::pin(async move { Grant::Ro(pool.read_only(v, o).await) }),
            Kind::Rw => Box::pin(async move { Grant::Rw(pool.read_write(v, o).await) }),
            Kind::Init => Box::pin(async move { Grant::Rw(pool.initialize(v, o).await) }),
        };
        if self.pending.iter().any(|p| p.page == page) || self.held.iter().any(|h| h.page == page) {
            self.shared = true;
        }
        self.pending.push(Pending { page, kind, fut, flag: flag() });
    }

    fn poll_pending(&mut self, i: usize) -> Res {
        let p = &mut self.pending[i];
        p.flag.0.store(false, SeqCst);
        let w = Waker::from(p.flag.clone());
        let r = guarded(|| p.fut.as_mut().poll(&mut Context::from_waker(&w)));
        match r {
            Err(m) => {
                let p = self.pending.remove(i);
                let s = format!("request {:?} of page {} panicked: {}", p.kind, p.page, m);
                std::mem::forget(p);
                self.fail("panic", s)
            }
            Ok(Poll::Pending) => {
                self.waited = true;
                Ok(())
            }
            Ok(Poll::Ready(grant)) => {
                let p = self.pending.remove(i);
                let (page, kind) = (p.page, p.kind);
                self.log(format!("granted-{:?}({})", kind, page));
                let snap = grant.bytes().to_vec();
                let others: Vec<Kind> = self.held.iter().filter(|h| h.page == page).map(|h| h.kind).collect();
                self.held.push(Held { page, kind, grant, snap: snap.clone() });
                let ok = if kind == Kind::Ro { others.iter().all(|k| *k == Kind::Ro) } else { others.is_empty() };
                if !ok {
                    return self.fail("exclusive", format!("page {} granted {:?} while held {:?}", page, kind, others));
                }
                if snap.len() != self.size {
                    return self.fail("length", format!("page {} has {} bytes", page, snap.len()));
                }
                if kind == Kind::Init {
                    if snap != self.content[page] && snap.iter().any(|b| *b != 0) {
                        return self.fail("content", format!("initialised page {} shows {:?}, latest contents {:?}", page, clip(&snap), clip(&self.content[page])));
                    }
                    self.content[page] = snap;
                } else if snap != self.content[page] {
                    return self.fail("content", format!("page {} ({:?}) shows {:?}, latest contents {:?}", page, kind, clip(&snap), clip(&self.content[page])));
                }
                if kind != Kind::Ro {
                    self.dirty[page] = true;
                }
                Ok(())
            }
        }
    }

    fn poll_releasing(&mut self, i: usize) -> Res {
        let p = &mut self.releasing[i];
        p.flag.0.store(false, SeqCst);
        let w = Waker::from(p.flag.clone());
        match guarded(|| p.fut.as_mut().poll(&mut Context::from_waker(&w))) {
            Err(m) => {
                let p = self.releasing.remove(i);
                let s = format!("release of page {} panicked: {}", p.page, m);
                std::mem::forget(p);
                self.fail("panic", s)
            }
            Ok(Poll::Pending) => Ok(()),
            Ok(Poll::Ready(grant)) => {
                let page = self.releasing.remove(i).page;
                if self.keep && self.spent.len() < 8 {
                    self.spent.push((page, grant));
                    return Ok(());
                }
                match guarded(|| drop(grant)) {
                    Ok(()) => Ok(()),
                    Err(m) => self.fail("panic", format!("dropping a released handle of page {} panicked: {}", page, m)),
                }
            }
        }
    }

    fn release(&mut self, i: usize) {
        let h = self.held.remove(i);
        self.log(format!("release({})", h.page));
        let mut grant = h.grant;
        let fut = Box::pin(async move {
            match &mut grant {
                Grant::Ro(g) => g.release_only().await,
                Grant::Rw(g) => g.release_only().await,
            }
            grant
        });
        self.releasing.push(Releasing { page: h.page, fut, flag: flag() });
    }

    /// a handle is released once more
    fn release_again(&mut self, i: usize) -> Res {
        let page = self.spent[i].0;
        self.log(format!("release-again({})", page));
        let w = Waker::from(flag());
        let cx = &mut Context::from_waker(&w);
        let r = match &mut self.spent[i].1 {
            Grant::Ro(g) => {
                let mut f = Box::pin(g.release_only());
                guarded(|| f.as_mut().poll(cx))
            }
            Grant::Rw(g) => {
                let mut f = Box::pin(g.release_only());
                guarded(|| f.as_mut().poll(cx))
            }
        };
        if let Ok(p) = r {
            let s = format!("a handle of page {} is released twice{}", page, if p.is_pending() { " and waits" } else { "" });
            return self.fail("twice", s);
        }
        self.refused += 1;
        self.verify()
    }

    /// all handles that were released already can go
    fn forget_spent(&mut self) -> Res {
        for (page, g) in std::mem::take(&mut self.spent) {
            if let Err(m) = guarded(|| drop(g)) {
                return self.fail("panic", format!("dropping a released handle of page {} panicked: {}", page, m));
            }
        }
        Ok(())
    }

    /// a handle is dropped while it is held
    fn forget(&mut self, i: usize) -> Res {
        let h = self.held.remove(i);
        self.log(format!("drop({})", h.page));
        let grant = h.grant;
        if guarded(|| drop(grant)).is_ok() {
            let s = format!("{:?} access of page {} is dropped without having been released", h.kind, h.page);
            return self.fail("dropped", s);
        }
        self.refused += 1;
        Ok(())
    }

    fn write(&mut self, i: usize, from: usize, to: usize) {
        self.stamp += 1;
        let stamp = self.stamp;
        let h = &mut self.held[i];
        if let Grant::Rw(g) = &mut h.grant {
            let b = g.bytes_mut();
            for (k, b) in b[from..to].iter_mut().enumerate() {
                *b = (fnv(&[stamp as u8, (stamp >> 8) as u8, k as u8]) >> 8) as u8 & !1;
            }
            h.snap = g.bytes().to_vec();
            self.content[h.page] = h.snap.clone();
            let page = h.page;
            self.log(format!("write({},{}..{})", page, from, to));
        }
    }

    fn verify(&self) -> Res {
        for h in &self.held {
            if h.grant.bytes() != &h.snap[..] {
                return self.fail("changed", format!("page {} changed from {:?} to {:?} while {:?} access was held", h.page, clip(&h.snap), clip(h.grant.bytes()), h.kind));
            }
        }
        Ok(())
    }

    fn woken(&self) -> Vec<(bool, usize)> {
        let mut v = vec![];
        for (i, p) in self.pending.iter().enumerate() {
            if p.flag.0.load(SeqCst) {
                v.push((false, i));
            }
        }
        for (i, p) in self.releasing.iter().enumerate() {
            if p.flag.0.load(SeqCst) {
                v.push((true, i));
            }
        }
        v
    }

    fn poll(&mut self, (rel, i): (bool, usize)) -> Res {
        if rel {
            self.poll_releasing(i)?;
        } else {
            self.poll_pending(i)?;
        }
        // with hundreds of accesses, now and then is often enough
        self.polls += 1;
        if self.held.len() <= 16 || self.polls % 128 == 0 {
            self.verify()?;
        }
        Ok(())
    }

    /// Run until nothing can make progress any more, then judge what is still waiting.
    ///
    /// Readers waiting for the same lock wake each other up for as long as a writer holds it
    /// (async-lock passes its notification on before it looks), so nothing woken is not required:
    /// it is enough that everything woken was polled several times in turn without any effect.
    fn settle(&mut self, s: &mut Src) -> Res {
        let mut idle = 0;
        loop {
            let w = self.woken();
            if w.is_empty() {
                break;
            }
            let before = self.progress();
            if idle < 30 {
                let k = if w.len() > 1 { s.upto(w.len() as u64 - 1) as usize } else { 0 };
                self.poll(w[k])?;
            } else {
                let mut effect = false;
                for _ in 0..8 {
                    let mut i = 0;
                    while i < self.pending.len() + self.releasing.len() {
                        let t = if i < self.pending.len() { (false, i) } else { (true, i - self.pending.len()) };
                        if self.woken().contains(&t) {
                            self.poll(t)?;
                        }
                        i += 1;
                    }
                    effect |= self.progress() != before;
                }
                if !effect {
                    break;
                }
            }
            idle = if self.progress() == before { idle + 1 } else { 0 };
        }
        if self.grants {
            self.judge()
        } else {
            Ok(())
        }
    }

    fn progress(&self) -> (usize, usize, usize, usize) {
        let g = self.disk.gates.lock().unwrap();
        (self.pending.len(), self.releasing.len(), g.inflight.len(), g.fetches)
    }

    fn occupied(&self) -> Vec<bool> {
        let mut v = self.dirty.clone();
        for h in &self.held {
            v[h.page] = true;
        }
        for p in &self.disk.gates.lock().unwrap().inflight {
            v[*p] = true;
        }
        v
    }

    fn judge(&self) -> Res {
        if let Some(r) = self.releasing.first() {
            return self.fail("release", format!("the release of page {} never ends", r.page));
        }
        let occ = self.occupied();
        let inflight = self.disk.gates.lock().unwrap().inflight.clone();
        let used = occ.iter().filter(|x| **x).count();
        for page in 0..self.content.len() {
            let kinds: Vec<Kind> = self.pending.iter().filter(|p| p.page == page).map(|p| p.kind).collect();
            if kinds.is_empty() || inflight.contains(&page) || (!occ[page] && used >= self.n) {
                continue;
            }
            let holders: Vec<Kind> = self.held.iter().filter(|h| h.page == page).map(|h| h.kind).collect();
            let grantable = holders.is_empty() || (holders.iter().all(|k| *k == Kind::Ro) && kinds.iter().all(|k| *k == Kind::Ro));
            if grantable {
                return self.fail(
                    "forgotten",
                    format!("requests {:?} of page {} still wait although {} of {} buffers are taken and the page is held by {:?}", kinds, page, used, self.n, holders),
                );
            }
        }
        Ok(())
    }

    fn open_gates(&mut self) {
        self.log("disk".into());
        let w = {
            let mut g = self.disk.gates.lock().unwrap();
            g.opened += 1;
            std::mem::take(&mut g.waiting)
        };
        for w in w {
            w.wake();
        }
    }

    /// everything is released; every buffer without unwritten data must be usable
    fn finish(&mut self, s: &mut Src, extra: usize) -> Res {
        self.log("finish:".into());
        // let every waiting request through that can be granted
        let mut rounds = 0;
        loop {
            self.open_gates();
            self.settle(s)?;
            let stuck = !self.disk.gates.lock().unwrap().inflight.is_empty();
            if self.held.is_empty() && !stuck {
                break;
            }
            while !self.held.is_empty() {
                let i = s.upto(self.held.len() as u64 - 1) as usize;
                self.release(i);
                if s.coin() {
                    self.settle(s)?;
                }
            }
            rounds += 1;
            if rounds > 500 {
                return fail("HARNESS", "harness bug: history does not end".into());
            }
        }
        if self.grants && !self.releasing.is_empty() {
            return self.fail("release", "a release never ends".into());
        }
        let blocked = self.pending.len();
        let dirty: Vec<usize> = (0..self.content.len()).filter(|p| self.dirty[*p]).collect();
        let free = self.n.saturating_sub(dirty.len());
        // as many unrelated pages as there are buffers left, all at once
        for k in 0..free.min(self.content.len() - extra) {
            self.issue(extra + k, Kind::Ro);
        }
        for p in &dirty {
            self.issue(*p, Kind::Ro);
        }
        self.complete(s)?;
        if self.grants && self.pending.len() > blocked {
            return self.fail(
                "leak",
                format!("{} buffers hold modified pages {:?} and nothing is held, but {} further pages cannot be accessed at once", dirty.len(), dirty, free),
            );
        }
        // one page too many
        if free < self.content.len() - extra {
            self.issue(extra + free, Kind::Ro);
            self.complete(s)?;
        }
        while !self.held.is_empty() {
            self.release(0);
        }
        self.complete(s)?;
        while !self.held.is_empty() {
            self.release(0);
        }
        self.complete(s)?;
        // every page that fits, one after the other
        for p in 0..self.content.len() {
            if self.dirty[p] || free > 0 {
                let before = self.held.len();
                self.issue(p, Kind::Ro);
                self.complete(s)?;
                if self.grants && self.held.len() == before {
                    return self.fail("leak", format!("page {} cannot be read although nothing is held and {} pages are modified", p, dirty.len()));
                }
                while !self.held.is_empty() {
                    self.release(0);
                }
                self.complete(s)?;
            }
        }
        Ok(())
    }

    fn complete(&mut self, s: &mut Src) -> Res {
        for _ in 0..1000 {
            self.settle(s)?;
            if self.disk.gates.lock().unwrap().inflight.is_empty() {
                return Ok(());
            }
            self.open_gates();
        }
        Ok(())
    }

    fn close(mut self) {
        self.pending.clear();
        // the handles are gone, only a pool that forgets requests or releases keeps some
        if self.held.is_empty() && self.releasing.is_empty() {
            let p = self.pool as *const hook::Pool as *mut hook::Pool;
            drop(unsafe { Box::from_raw(p) });
        } else {
            std::mem::forget(std::mem::take(&mut self.held));
            std::mem::forget(std::mem::take(&mut self.releasing));
        }
        hook::set_disk(None);
    }
}

fn clip(b: &[u8]) -> String {
    let h: String = b.iter().take(16).map(|x| format!("{:02x}", x)).collect();
    format!("{}{}", h, if b.len() > 16 { ".." } else { "" })
}

const PLACES: [(u8, u64); 14] = [
    (0, 0),
    (0, 4096),
    (1, 0),
    (1, 4096),
    (0, 8192),
    (255, 0),
    (0, 1 << 55),
    (255, (1 << 56) - 4096),
    (2, 0),
    (128, 0),
    (127, 1 << 32),
    (0, 1 << 32),
    (0, (1 << 56) - 1),
    (3, 1),
];

fn scenario(s: &mut Src, n: usize, pages: usize, size: usize, grants: bool) -> Result<ManuallyDrop<World>, Fail> {
    let mut places = PLACES.to_vec();
    let r = s.upto(places.len() as u64 - 1) as usize;
    places.rotate_left(r);
    if s.coin() {
        places.reverse();
    }
    places.truncate(pages);
    for k in places.len()..pages {
        // many neighbouring pages of few volumes
        places.push((9 + (k % 3) as u8, (k / 3) as u64 * size as u64));
    }
    for k in 0..n + 1 {
        places.push((7, k as u64 * size as u64));
    }
    let plan: Vec<(u32, bool)> = match s.weighted(&[2, 2, 3]) {
        0 => vec![(0, false)],
        1 => vec![(1, false)],
        _ => {
            let k = s.range(1, 5);
            (0..k).map(|_| (s.upto(2) as u32, s.chance(1, 3))).collect()
        }
    };
    Ok(ManuallyDrop::new(World::new(n, size, places, plan, grants)?))
}

/// sizes a pool can have
fn c37_pools(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = s.upto(u64::MAX) as usize;
    let size = match i / 6 {
        k @ 0..=300 => k,
        k => (1usize << (9 + (k - 301) / 3)) + (k - 301) % 3 - 1,
    };
    let n = [0, 1, 2, 3, u32::MAX as usize, 1 << 32][i % 6];
    if n > 3 && size > 4 {
        ctx.nontrivial = false;
        return Ok(());
    }
    one_pool(ctx, size, n)
}

/// multiples of powers of two and any other sizes
fn c37_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let size = match s.weighted(&[3, 1]) {
        0 => (1 + s.upto(99) as usize) << s.upto(18),
        _ => s.bits(26) as usize,
    };
    let n = 1 + s.upto(9) as usize;
    one_pool(ctx, size, n)
}

fn one_pool(ctx: &mut Ctx, size: usize, n: usize) -> Res {
    ctx.case(|| format!("pool of {} buffers of {} bytes", n, size));
    ctx.nontrivial = true;
    let bad = n == 0 || !size.is_power_of_two() || n >= u32::MAX as usize;
    match (guarded(|| hook::Pool::new(size, n)), bad) {
        (Ok(Ok(_)), true) => fail("pool", format!("a pool of {} buffers of {} bytes is not refused", n, size)),
        (Ok(Ok(p)), false) => {
            ensure!(p.total_size() == n * size, "total", "pool of {} buffers of {} bytes says it has {} bytes", n, size, p.total_size());
            Ok(())
        }
        (Ok(Err(e)), false) => fail("new", format!("no pool of {} buffers of {} bytes: {}", n, size, e)),
        (Err(e), false) => fail("panic", format!("pool of {} buffers of {} bytes: {}", n, size, e)),
        (_, true) => Ok(()),
    }
}

fn c37_history(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.range(1, 5);
    let pages = s.range(1, 8);
    let size = 16usize << s.weighted(&[4, 4, 1, 1]);
    let mut w = scenario(s, n, pages, size, true)?;
    w.keep = true;
    let r = drive(&mut w, s, pages).and_then(|_| dropped(&mut w, s, pages));
    ctx.nontrivial = w.refused >= 3;
    let t = std::mem::take(&mut w.trace);
    ctx.case(move || format!("{} buffers of {} bytes, {} pages: {}", n, size, pages, t));
    r?;
    ManuallyDrop::into_inner(w).close();
    Ok(())
}

/// several handles are held and then dropped
fn dropped(w: &mut World, s: &mut Src, pages: usize) -> Res {
    for i in 0..w.spent.len() {
        w.release_again(i)?;
    }
    w.forget_spent()?;
    for _ in 0..s.range(1, 4) {
        let page = s.upto(pages as u64 - 1) as usize;
        w.issue(page, *s.pick(&[Kind::Ro, Kind::Rw, Kind::Init]));
        w.complete(s)?;
    }
    while !w.held.is_empty() {
        let i = s.upto(w.held.len() as u64 - 1) as usize;
        w.forget(i)?;
    }
    Ok(())
}

fn history(s: &mut Src, ctx: &mut Ctx, grants: bool) -> Res {
    let n = s.range(1, 5);
    let pages = s.range(1, 8);
    let size = 16usize << s.weighted(&[4, 4, 1, 1, 1, 1]);
    let mut w = scenario(s, n, pages, size, grants)?;
    let r = drive(&mut w, s, pages);
    ctx.label(["", "1 buffer", "2 buffers", "3 buffers", "4 buffers", "5 buffers"][n]);
    let distinct: std::collections::BTreeSet<usize> = w.disk.gates.lock().unwrap().log.iter().copied().collect();
    if distinct.len() > n {
        ctx.label("more pages than buffers");
    }
    if w.waited {
        ctx.label("a request waited");
    }
    if w.shared {
        ctx.label("overlapping requests of one page");
    }
    if w.dirty.iter().any(|d| *d) {
        ctx.label("pages modified");
    }
    ctx.nontrivial = w.shared || distinct.len() > n;
    let t = std::mem::take(&mut w.trace);
    ctx.case(move || format!("{} buffers of {} bytes, {} pages: {}", n, size, pages, t));
    r?;
    ManuallyDrop::into_inner(w).close();
    Ok(())
}

fn drive(w: &mut World, s: &mut Src, pages: usize) -> Res {
    let steps = 3 + s.len(70);
    let most = s.range(1, 9);
    // how eagerly things happen in this history
    let wr = [s.range(1, 6) as u32, s.range(1, 8) as u32, s.range(1, 6) as u32, s.range(0, 3) as u32, s.range(0, 2) as u32];
    let kinds = [s.range(1, 4) as u32, s.range(0, 4) as u32, s.range(0, 2) as u32];
    let hot = s.coin();
    for _ in 0..steps {
        match s.weighted(&[wr[0], wr[1], wr[2], wr[3], wr[4], if w.keep { 3 } else { 1 }, 1]) {
            0 => {
                if w.pending.len() + w.held.len() < most {
                    let page = if hot { s.len(pages - 1) } else { s.upto(pages as u64 - 1) as usize };
                    let kind = [Kind::Ro, Kind::Rw, Kind::Init][s.weighted(&kinds)];
                    w.issue(page, kind);
                    if s.chance(2, 3) {
                        let i = w.pending.len() - 1;
                        w.poll((false, i))?;
                    }
                }
            }
            1 => {
                let v = w.woken();
                if !v.is_empty() {
                    let k = s.upto(v.len() as u64 - 1) as usize;
                    w.poll(v[k])?;
                }
            }
            2 => {
                if !w.held.is_empty() {
                    let i = s.upto(w.held.len() as u64 - 1) as usize;
                    w.release(i);
                    if s.chance(2, 3) {
                        let i = w.releasing.len() - 1;
                        w.poll((true, i))?;
                    }
                }
            }
            3 => {
                let v: Vec<usize> = (0..w.held.len()).filter(|i| w.held[*i].kind != Kind::Ro).collect();
                if !v.is_empty() {
                    let i = *s.pick(&v);
                    let (a, b) = if s.coin() {
                        (0, w.size)
                    } else {
                        let a = s.upto(w.size as u64 - 1) as usize;
                        (a, s.range(a + 1, w.size))
                    };
                    w.write(i, a, b);
                }
            }
            4 => w.open_gates(),
            5 if w.keep && s.chance(3, 4) => {
                if !w.spent.is_empty() {
                    let i = s.upto(w.spent.len() as u64 - 1) as usize;
                    w.release_again(i)?;
                    if s.coin() {
                        w.settle(s)?;
                    }
                    if s.chance(1, 4) {
                        w.forget_spent()?;
                    }
                }
            }
            5 => {
                // a poll nobody asked for
                let total = w.pending.len() + w.releasing.len();
                if total > 0 {
                    let k = s.upto(total as u64 - 1) as usize;
                    let t = if k < w.pending.len() { (false, k) } else { (true, k - w.pending.len()) };
                    w.poll(t)?;
                }
            }
            _ => w.settle(s)?,
        }
        w.verify()?;
    }
    w.settle(s)?;
    w.finish(s, pages)
}

/// many buffers, many pages at once, many requests of one page
fn large(s: &mut Src, ctx: &mut Ctx, grants: bool) -> Res {
    let size = 16usize << s.weighted(&[4, 2, 1, 1, 1, 1, 1, 1, 1, 1]);
    let n = match s.weighted(&[2, 2, 1]) {
        0 => s.range(2, 40),
        1 => s.range(100, 300),
        _ => (1usize << s.range(4, 9)) + s.upto(2) as usize - 1,
    }
    .min((1 << 20) / size);
    let pages = s.range(1, n + n / 2 + 2);
    let mut w = scenario(s, n, pages, size, grants)?;
    let mut most = 0;
    let r = large_drive(&mut w, s, n, pages, &mut most);
    ctx.nontrivial = most > 16;
    if n >= 128 {
        ctx.label("128 buffers or more");
    }
    if most >= 256 {
        ctx.label("256 accesses at once or more");
    }
    let t = std::mem::take(&mut w.trace);
    ctx.case(move || format!("{} buffers of {} bytes, {} pages, at most {} accesses at once: {}", n, size, pages, most, t.chars().take(300).collect::<String>()));
    r?;
    ManuallyDrop::into_inner(w).close();
    Ok(())
}

fn large_drive(w: &mut World, s: &mut Src, n: usize, pages: usize, most: &mut usize) -> Res {
    for _ in 0..1 + s.upto(5) {
        match s.weighted(&[3, 2, 2, 2, 1]) {
            0 => {
                // a run of pages
                let from = s.upto(pages as u64 - 1) as usize;
                let count = s.range(1, n);
                let kinds = [s.range(1, 8) as u32, s.range(0, 2) as u32, s.range(0, 1) as u32];
                for k in 0..count {
                    w.issue((from + k) % pages, [Kind::Ro, Kind::Rw, Kind::Init][s.weighted(&kinds)]);
                    let i = w.pending.len() - 1;
                    w.poll((false, i))?;
                }
            }
            1 => {
                // a crowd
                let page = s.upto(pages as u64 - 1) as usize;
                let count = if s.coin() { s.range(1, 40) } else { s.range(200, 600) };
                let writers = s.chance(1, 3);
                for _ in 0..count {
                    w.issue(page, if writers && s.chance(1, 20) { Kind::Rw } else { Kind::Ro });
                    let i = w.pending.len() - 1;
                    w.poll((false, i))?;
                }
            }
            2 => {
                for i in 0..w.held.len() {
                    if w.held[i].kind != Kind::Ro && s.coin() {
                        let size = w.size;
                        w.write(i, 0, size);
                    }
                }
            }
            3 => {
                // some or all of them, in any order
                let keep = if s.coin() { 0 } else { s.upto(w.held.len() as u64) as usize };
                while w.held.len() > keep {
                    let i = s.upto(w.held.len() as u64 - 1) as usize;
                    w.release(i);
                    let i = w.releasing.len() - 1;
                    w.poll_releasing(i)?;
                }
            }
            _ => w.open_gates(),
        }
        w.verify()?;
        w.settle(s)?;
        *most = (*most).max(w.held.len());
    }
    w.finish(s, pages)
}

const SMALL_STEPS: u64 = 11;
pub const SMALL: u64 = 3 * SMALL_STEPS * SMALL_STEPS * SMALL_STEPS * SMALL_STEPS * SMALL_STEPS;

/// every history of five steps over three pages and one to three buffers
fn small(s: &mut Src, ctx: &mut Ctx, grants: bool) -> Res {
    let mut i = s.upto(u64::MAX);
    let n = 1 + (i % 3) as usize;
    i /= 3;
    let mut none = Src::replay(vec![]);
    let mut w = scenario(&mut none, n, 3, 16, grants)?;
    let r = small_drive(&mut w, i, &mut none);
    ctx.nontrivial = w.shared || w.disk.gates.lock().unwrap().log.len() > n;
    let t = std::mem::take(&mut w.trace);
    ctx.case(move || format!("{} buffers: {}", n, t));
    r?;
    ManuallyDrop::into_inner(w).close();
    Ok(())
}

fn small_drive(w: &mut World, mut i: u64, none: &mut Src) -> Res {
    for _ in 0..5 {
        let a = (i % SMALL_STEPS) as usize;
        i /= SMALL_STEPS;
        match a {
            0..=8 => w.issue(a / 3, [Kind::Ro, Kind::Rw, Kind::Init][a % 3]),
            9 if !w.held.is_empty() => w.release(0),
            10 if !w.held.is_empty() => w.release(w.held.len() - 1),
            _ => {}
        }
        w.settle(none)?;
        for k in 0..w.held.len() {
            if w.held[k].kind != Kind::Ro && w.held[k].snap[0] & 1 == 1 | (w.held[k].snap[0] == 0) as u8 {
                let size = w.size;
                w.write(k, 0, size);
            }
        }
        w.verify()?;
    }
    w.finish(none, 3)
}

// ---------------------------------------------------------------- threads

struct Parker(std::thread::Thread);

impl Wake for Parker {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}

fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(Parker(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(x) => return x,
            Poll::Pending => std::thread::park(),
        }
    }
}

fn counter(b: &[u8]) -> Option<u64> {
    let l = b.len();
    let x = u64::from_le_bytes(b[..8].try_into().unwrap());
    let y = u64::from_le_bytes(b[l - 8..].try_into().unwrap());
    if x == y {
        Some(x)
    } else {
        None
    }
}

/// real threads: counters on modified pages, unmodified pages in between
fn threads(s: &mut Src, ctx: &mut Ctx, grants: bool) -> Res {
    let tasks = s.range(2, 4);
    let counters = s.range(1, 3);
    let fixed = s.range(0, 4);
    let n = counters + 1 + s.upto(2) as usize;
    let size = 64;
    let rounds = 150;
    let mut w = scenario(s, n, counters + fixed, size, grants)?;
    w.disk = {
        let d = Arc::new(Disk { places: w.disk.places.clone(), size, plan: vec![(0, false), (1, false)], gates: Default::default() });
        hook::set_disk(Some(d.clone()));
        d
    };
    ctx.nontrivial = true;
    let places = w.disk.places.clone();
    let seeds: Vec<u64> = (0..tasks).map(|_| s.upto(u64::MAX)).collect();
    ctx.case(|| format!("{} threads, {} counters, {} other pages, {} buffers, seeds {:?}", tasks, counters, fixed, n, seeds));
    // every counter starts at zero
    for c in 0..counters {
        let (v, o) = places[c];
        let pool = w.pool;
        block_on(async move {
            let mut h = pool.read_write(v, o).await;
            h.bytes_mut().fill(0);
            h.release().await;
        });
    }
    let progress = Arc::new(AtomicU64::new(0));
    let mut joins = vec![];
    for seed in seeds {
        let (pool, places, progress) = (w.pool, places.clone(), progress.clone());
        joins.push(std::thread::spawn(move || -> Result<Vec<u64>, String> {
            guarded(move || {
                let mut r = Rng::new(seed);
                let mut done = vec![0u64; counters];
                let mut seen = vec![0u64; counters];
                let mut bad = None;
                for _ in 0..rounds {
                    let p = r.upto((counters + fixed) as u64 - 1) as usize;
                    let (v, o) = places[p];
                    let write = p < counters && r.upto(2) > 0;
                    let spin = r.upto(3);
                    if write {
                        block_on(async {
                            let mut h = pool.read_write(v, o).await;
                            match counter(h.bytes()) {
                                Some(x) if x >= seen[p] => {
                                    h.bytes_mut()[..8].copy_from_slice(&(x + 1).to_le_bytes());
                                    if spin == 0 {
                                        std::thread::yield_now();
                                    }
                                    h.bytes_mut()[size - 8..].copy_from_slice(&(x + 1).to_le_bytes());
                                    seen[p] = x + 1;
                                    done[p] += 1;
                                }
                                x => bad = Some(format!("counter page {} reads {:?} after {}", p, x, seen[p])),
                            }
                            h.release().await;
                        });
                    } else {
                        block_on(async {
                            let h = pool.read_only(v, o).await;
                            if p < counters {
                                match counter(h.bytes()) {
                                    Some(x) if x >= seen[p] => seen[p] = x,
                                    x => bad = Some(format!("counter page {} reads {:?} after {}", p, x, seen[p])),
                                }
                            } else {
                                let a = h.bytes().to_vec();
                                if spin == 0 {
                                    std::thread::yield_now();
                                }
                                if a != stored(p, size) || h.bytes() != &a[..] {
                                    bad = Some(format!("unmodified page {} reads {}", p, clip(&a)));
                                }
                            }
                            h.release().await;
                        });
                    }
                    progress.fetch_add(1, SeqCst);
                    if let Some(b) = bad {
                        return Err(b);
                    }
                }
                Ok(done)
            })
            .unwrap_or_else(|m| Err(format!("panic: {}", m)))
        }));
    }
    let (mut last, mut since) = (0, Instant::now());
    while !joins.iter().all(|j| j.is_finished()) {
        std::thread::sleep(Duration::from_micros(200));
        let p = progress.load(SeqCst);
        if p != last {
            last = p;
            since = Instant::now();
        } else if since.elapsed() > Duration::from_secs(25) {
            if !grants {
                return Ok(());
            }
            return fail("stuck", format!("{} threads make no progress after {} accesses, {} buffers for {} modified pages", tasks, p, n, counters));
        }
    }
    let mut total = vec![0u64; counters];
    for j in joins {
        match j.join() {
            Ok(Ok(d)) => d.iter().enumerate().for_each(|(i, x)| total[i] += x),
            Ok(Err(m)) => return fail("threads", m),
            Err(_) => return fail("threads", "a thread panicked".into()),
        }
    }
    for (p, want) in total.iter().enumerate() {
        let (v, o) = places[p];
        let pool = w.pool;
        let got = block_on(async move {
            let h = pool.read_only(v, o).await;
            let c = counter(h.bytes());
            h.release().await;
            c
        });
        ensure!(got == Some(*want), "lost", "counter page {} was incremented {} times but reads {:?}", p, want, got);
    }
    ManuallyDrop::into_inner(w).close();
    Ok(())
}

/// stores a mark in three places of a page and leaves the rest as it is
struct Marks(usize);

fn mark(volume: u8, page: u64, generation: u64) -> [u8; 8] {
    (fnv(&[volume, page as u8, (page >> 8) as u8, (page >> 16) as u8, generation as u8]) | 1).to_le_bytes()
}

fn put_mark(b: &mut [u8], m: [u8; 8]) {
    for at in [0, b.len() / 2, b.len() - 8] {
        b[at..at + 8].copy_from_slice(&m);
    }
}

fn check_mark(b: &[u8], size: usize, m: [u8; 8], when: &str) -> Res {
    ensure!(b.len() == size, "size", "a page of {} bytes instead of {}", b.len(), size);
    for at in [0, size / 2, size - 8] {
        ensure!(b[at..at + 8] == m, "content", "{}: bytes {}.. of the page are {:02x?}, not {:02x?}", when, at, &b[at..at + 8], m);
    }
    Ok(())
}

impl hook::Disk for Marks {
    fn fetch<'a>(&'a self, volume: u8, offset: u64, buffer: &'a mut [u8]) -> Pin<Box<dyn Future<Output = std::io::Result<()>> + Send + 'a>> {
        let m = mark(volume, offset / self.0 as u64, 0);
        Box::pin(async move {
            put_mark(buffer, m);
            Ok(())
        })
    }
}

/// raises the limit of the address space for a while
struct Room(libc::rlimit);

impl Room {
    fn new(bytes: u64) -> Room {
        unsafe {
            let mut r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::getrlimit(libc::RLIMIT_AS, &mut r);
            libc::setrlimit(libc::RLIMIT_AS, &libc::rlimit { rlim_cur: bytes.min(r.rlim_max), rlim_max: r.rlim_max });
            Room(r)
        }
    }
}

impl Drop for Room {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_AS, &self.0);
        }
    }
}

/// pools of more than 4 GiB (of which little is touched), pages at large offsets
fn c30_giant(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (log, n, base) = [(28, 18, 1 << 20), (31, 3, 0), (32, 2, 1 << 23), (12, 70_000, 1 << 43), (9, 70_000, 1 << 40)][(s.upto(u64::MAX) % 5) as usize];
    let size = 1usize << log;
    ctx.case(|| format!("{} buffers of {} bytes, pages from {}", n, size, base));
    hook::set_disk(Some(Arc::new(Marks(size))));
    let _room = Room::new(20 << 30);
    let pool = match no_panic("BufferPool::new", || hook::Pool::new(size, n))? {
        Ok(p) => p,
        Err(_) if size * n > 1 << 31 => {
            ctx.label("no room");
            return Ok(());
        }
        Err(e) => return fail("new", format!("no pool of {} buffers of {} bytes: {}", n, size, e)),
    };
    ctx.nontrivial = true;
    ensure!(pool.total_size() == size * n, "total", "pool of {} buffers of {} bytes says it has {} bytes", n, size, pool.total_size());
    let place = |k: usize| ((k % 3 * 100) as u8, base + (k / 3) as u64);
    no_panic("access", || {
        block_on(async {
            // twice as many pages as buffers are read, then all buffers are held at once and modified
            for k in 0..2 * n.min(200) {
                let (v, p) = place(n + k);
                let h = pool.read_only(v, p * size as u64).await;
                let r = check_mark(h.bytes(), size, mark(v, p, 0), "read");
                h.release().await;
                r?;
            }
            let mut held = vec![];
            for k in 0..n {
                let (v, p) = place(k);
                let mut h = pool.read_write(v, p * size as u64).await;
                let r = check_mark(h.bytes(), size, mark(v, p, 0), "read to modify");
                put_mark(h.bytes_mut(), mark(v, p, 1));
                held.push(h);
                if r.is_err() {
                    std::mem::forget(held);
                    return r;
                }
            }
            let mut r = Ok(());
            for (k, h) in held.iter().enumerate() {
                let (v, p) = place(k);
                r = r.and_then(|_| check_mark(h.bytes(), size, mark(v, p, 1), "modified"));
            }
            for h in held {
                h.release().await;
            }
            r?;
            for k in 0..n {
                let (v, p) = place(k);
                let h = pool.read_only(v, p * size as u64).await;
                let r = check_mark(h.bytes(), size, mark(v, p, 1), "read after the modification");
                h.release().await;
                r?;
            }
            Ok(())
        })
    })?
}

fn c30_history(s: &mut Src, ctx: &mut Ctx) -> Res {
    history(s, ctx, false)
}
fn c31_history(s: &mut Src, ctx: &mut Ctx) -> Res {
    history(s, ctx, true)
}
fn c30_large(s: &mut Src, ctx: &mut Ctx) -> Res {
    large(s, ctx, false)
}
fn c31_large(s: &mut Src, ctx: &mut Ctx) -> Res {
    large(s, ctx, true)
}
fn c30_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    small(s, ctx, false)
}
fn c31_small(s: &mut Src, ctx: &mut Ctx) -> Res {
    small(s, ctx, true)
}
fn c30_threads(s: &mut Src, ctx: &mut Ctx) -> Res {
    threads(s, ctx, false)
}
fn c31_threads(s: &mut Src, ctx: &mut Ctx) -> Res {
    threads(s, ctx, true)
}

const ARM: fn(&'static str, u64, u64, CaseFn) -> Arm = |name, quick, thorough, f| Arm { name, quick, thorough, exhaustive: false, f };
const ALL: fn(&'static str, u64, CaseFn) -> Arm = |name, n, f| Arm { name, quick: n, thorough: n, exhaustive: true, f };

pub fn properties() -> Vec<Property> {
    let assumptions: &'static [&'static str] = &[
        "pages are read through the hook's test disk, since fetching and storing are not implemented; modified pages therefore stay in the pool",
        "a request is not abandoned while it waits",
    ];
    vec![
        Property {
            id: "C30",
            rule: "random histories of requests (read, modify, initialise), grants, partial writes and releases over up to 8 pages and 1..5 buffers, polled in random order by a deterministic executor with slow page loads; all five-step histories over 3 pages; pools of up to 512 buffers with hundreds of pages accessed at once and crowds of up to 600 requests of one page; five pools of up to 70000 buffers or 8 GiB; real threads incrementing counters. Every access must show the model's contents from grant to release. Non-trivial: two requests of one page overlap, more pages than buffers are loaded or more than 16 accesses are held at once",
            assumptions,
            arms: vec![ARM("history", 200_000, 6_000_000, c30_history), ARM("large", 600, 20_000, c30_large), ALL("small", SMALL, c30_small), ALL("giant", 5, c30_giant), ARM("threads", 400, 10_000, c30_threads)],
        },
        Property {
            id: "C31",
            rule: "the histories of C30; whenever nothing can run any more each waiting request must be one that nobody could grant, and after everything is released as many further pages as there are buffers without modified data must be accessible at once. Non-trivial: two requests of one page overlap, more pages than buffers are loaded or more than 16 accesses are held at once",
            assumptions,
            arms: vec![ARM("history", 200_000, 6_000_000, c31_history), ARM("large", 600, 20_000, c31_large), ALL("small", SMALL, c31_small), ARM("threads", 400, 10_000, c31_threads)],
        },
        Property {
            id: "C37",
            rule: "the random histories of C31 (up to 8 pages, 1..5 buffers) in which handles that were released are kept and released again at later points, and in which handles are dropped in the end. Pools of every size up to 300 and around powers of two up to 2^20, with 0 to 3 or 2^32 buffers, and of random sizes and multiples of powers of two. Every such misuse must panic at once, and everything C30 and C31 require must hold before and after it. Pools without buffers, of too many, or of a size that is no power of two must be refused, all others work. Non-trivial: at least three misuses",
            assumptions,
            arms: vec![ARM("history", 100_000, 3_000_000, c37_history), ARM("sizes", 20_000, 200_000, c37_sizes), ALL("pools", 6 * (301 + 3 * 12), c37_pools)],
        },
    ]
}
