//! A memory manager that records every block it gives out and gets back.
//!
//! It works over a manager of the implementation. A binary that installs `Hook` as its global
//! allocator also sees what the manager itself takes from the system. Memory that was given back is
//! filled with a pattern and kept until `finish`, so that a late access is seen and does no harm.
use nanvm_lib::mem::{
    global::{Global, GLOBAL},
    local::Local,
    manager::{Dealloc, Manager},
};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::BTreeMap,
    fmt::Debug,
    marker::PhantomData,
};

const POISON: u8 = 0xDD;

#[derive(Clone, Copy)]
pub struct Block {
    pub ptr: usize,
    pub layout: Layout,
    pub live: bool,
}

#[derive(Clone)]
pub struct Event {
    /// "a": a block is given out, "f": a block is given back
    pub k: &'static str,
    /// number of the block, 0 if there is no such block
    pub n: usize,
    pub size: usize,
    pub align: usize,
    /// `Local::size` after the event
    pub total: usize,
}

#[derive(Default)]
pub struct Log {
    pub blocks: Vec<Block>,
    at: BTreeMap<usize, usize>,
    raw: Vec<Block>,
    pub events: Vec<Event>,
    pub raw_events: Vec<Event>,
    pub local: Option<&'static Local>,
}

thread_local! {
    static HOOKED: Cell<bool> = const { Cell::new(false) };
    pub static LOG: RefCell<Log> = RefCell::new(Log::default());
}

fn find(blocks: &[Block], ptr: usize) -> usize {
    blocks.iter().rposition(|b| b.ptr == ptr).map_or(0, |i| i + 1)
}

impl Log {
    fn total(&self) -> usize {
        self.local.map_or(0, |l| l.size())
    }
    fn event(&self, k: &'static str, n: usize, l: Layout) -> Event {
        Event {
            k,
            n,
            size: l.size(),
            align: l.align(),
            total: self.total(),
        }
    }
    /// The number of the live block that an address belongs to, 0 if there is none.
    pub fn live_at(&self, addr: usize) -> usize {
        match self.at.range(..=addr).next_back() {
            Some((&p, &n)) if self.blocks[n - 1].live && addr <= p + self.blocks[n - 1].layout.size() => n,
            _ => 0,
        }
    }
}

/// The global allocator of a binary.
pub struct Hook;

unsafe impl GlobalAlloc for Hook {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if HOOKED.try_with(|h| h.replace(false)).unwrap_or(false) {
            LOG.with(|log| {
                let mut log = log.borrow_mut();
                log.raw.push(Block {
                    ptr: p as usize,
                    layout: l,
                    live: true,
                });
                let n = log.raw.len();
                let e = log.event("a", n, l);
                log.raw_events.push(e);
            });
            HOOKED.with(|h| h.set(true));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if HOOKED.try_with(|h| h.replace(false)).unwrap_or(false) {
            LOG.with(|log| {
                let mut log = log.borrow_mut();
                let n = find(&log.raw, p as usize);
                let e = log.event("f", n, l);
                log.raw_events.push(e);
                if n > 0 {
                    let b = &mut log.raw[n - 1];
                    b.live = false;
                    // the memory is kept: other layouts than the real one would do harm
                    for i in 0..b.layout.size() {
                        (b.ptr as *mut u8).add(i).write(POISON);
                    }
                }
            });
            HOOKED.with(|h| h.set(true));
            return;
        }
        System.dealloc(p, l)
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Rec<M: Manager>(pub M);

#[derive(Debug)]
pub struct RecDealloc<D: Dealloc>(PhantomData<D>);

fn hooked<R>(f: impl FnOnce() -> R) -> R {
    HOOKED.with(|h| h.set(true));
    let r = f();
    HOOKED.with(|h| h.set(false));
    r
}

impl<D: Dealloc> Dealloc for RecDealloc<D> {
    type BlockHeader = D::BlockHeader;
    unsafe fn dealloc(p: *mut u8, l: Layout) {
        let n = LOG.with(|log| find(&log.borrow().blocks, p as usize));
        let good = LOG.with(|log| n > 0 && log.borrow().blocks[n - 1].live && log.borrow().blocks[n - 1].layout == l);
        if good {
            LOG.with(|log| {
                let mut log = log.borrow_mut();
                log.blocks[n - 1].live = false;
                for i in 0..l.size() {
                    p.add(i).write(POISON);
                }
            });
            hooked(|| D::dealloc(p, l));
        }
        LOG.with(|log| {
            let e = log.borrow().event("f", n, l);
            log.borrow_mut().events.push(e);
        });
    }
}

impl<M: Manager> Manager for Rec<M> {
    type Dealloc = RecDealloc<M::Dealloc>;
    unsafe fn alloc(self, l: Layout) -> *mut u8 {
        let p = hooked(|| self.0.alloc(l));
        LOG.with(|log| {
            let mut log = log.borrow_mut();
            log.blocks.push(Block {
                ptr: p as usize,
                layout: l,
                live: true,
            });
            let n = log.blocks.len();
            log.at.insert(p as usize, n);
            // what the block was before must not matter
            for i in 0..l.size() {
                p.add(i).write(0xA5);
            }
            let e = log.event("a", n, l);
            log.events.push(e);
        });
        p
    }
}

/// Number of bytes of blocks given back that were written afterwards; gives the memory back.
fn finish(log: &mut Log) -> usize {
    let mut touched = 0;
    for b in &log.raw {
        if !b.live {
            for i in 0..b.layout.size() {
                touched += unsafe { (b.ptr as *const u8).add(i).read() != POISON } as usize;
            }
            unsafe { System.dealloc(b.ptr as *mut u8, b.layout) };
        }
    }
    touched
}

fn events(v: &[Event]) -> String {
    let v: Vec<String> = v
        .iter()
        .map(|e| format!("[{},{},{},{},{}]", (e.k == "a") as u8, e.n, e.size, e.align, e.total))
        .collect();
    format!("[{}]", v.join(","))
}

/// What the manager `m` is.
pub trait Kind: Manager + 'static {
    const ACCOUNTS: bool;
    fn make() -> Self;
    fn local(self) -> Option<&'static Local>;
}

impl Kind for Global {
    const ACCOUNTS: bool = false;
    fn make() -> Self {
        GLOBAL
    }
    fn local(self) -> Option<&'static Local> {
        None
    }
}

impl Kind for &'static Local {
    const ACCOUNTS: bool = true;
    fn make() -> Self {
        Box::leak(Box::new(Local::default()))
    }
    fn local(self) -> Option<&'static Local> {
        Some(self)
    }
}

/// Runs `f` with a new recording manager; returns its result, and the events as JSON fields.
pub fn recorded<M: Kind, R>(f: impl FnOnce(Rec<M>) -> R) -> (R, String) {
    HOOKED.with(|h| h.set(false));
    let m = M::make();
    LOG.with(|log| {
        *log.borrow_mut() = Log {
            local: m.local(),
            ..Log::default()
        }
    });
    let r = f(Rec(m));
    let log = LOG.with(|log| std::mem::take(&mut *log.borrow_mut()));
    let mut log = log;
    let touched = finish(&mut log);
    let s = format!(
        r#""local":{},"touched":{touched},"ev":{},"raw":{}"#,
        M::ACCOUNTS,
        events(&log.events),
        events(&log.raw_events)
    );
    (r, s)
}
