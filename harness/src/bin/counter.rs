//! Records what threads see that share the handles of an object (C23).
use conform::{json, *};
use nanvm_lib::{
    js::{any::Any, js_string::JsStringRef, new::New},
    mem::{
        block_header::BlockHeader,
        flexible_array::FlexibleArray,
        manager::{Dealloc, Manager},
        ref_::Ref,
    },
};
use std::{
    alloc::Layout,
    cell::Cell,
    collections::BTreeSet,
    fmt::{Debug, Formatter},
    marker::PhantomData,
    sync::atomic::{AtomicIsize, AtomicUsize, Ordering},
    thread,
};

#[derive(Clone, Copy)]
enum Op {
    Add,
    Release,
    Read,
}

struct Case {
    any: bool,
    cell: bool,
    threads: Vec<(usize, Vec<Op>)>,
    rounds: usize,
    /// A long run of so many threads, and how often each copies.
    long: usize,
    pairs: usize,
    /// A run with up to about two to the power of this handles.
    many: u32,
}

fn name(o: Op) -> &'static str {
    match o {
        Op::Add => "add",
        Op::Release => "release",
        Op::Read => "read",
    }
}

fn input(c: &Case) -> String {
    let t: Vec<_> = c
        .threads
        .iter()
        .map(|(h, ops)| {
            let ops: Vec<_> = ops.iter().map(|&o| format!("\"{}\"", name(o))).collect();
            format!(r#"{{"h":{h},"ops":[{}]}}"#, ops.join(","))
        })
        .collect();
    format!(
        r#""handle":"{}","header":"{}","many":{},"long":{},"pairs":{},"rounds":{},"threads":[{}]"#,
        if c.any { "any" } else { "ref" },
        if c.cell { "cell" } else { "atomic" },
        c.many,
        c.long,
        c.pairs,
        c.rounds,
        t.join(",")
    )
}

// --- the object ---

type Slot = [u64; 8];

/// Gives out one slot. It stays, so that a late access does no harm.
struct Own<H>(*mut Slot, PhantomData<H>);
impl<H> Clone for Own<H> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<H> Copy for Own<H> {}
impl<H> Debug for Own<H> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("Own")
    }
}

thread_local! {
    static FREED: Cell<i64> = const { Cell::new(0) };
    static DROPPED: Cell<i64> = const { Cell::new(0) };
}

impl<H: BlockHeader> Dealloc for Own<H> {
    type BlockHeader = H;
    unsafe fn dealloc(_: *mut u8, _: Layout) {
        FREED.set(FREED.get() + 1);
    }
}
impl<H: BlockHeader> Manager for Own<H> {
    type Dealloc = Own<H>;
    unsafe fn alloc(self, l: Layout) -> *mut u8 {
        assert!(l.size() <= std::mem::size_of::<Slot>() && l.align() <= std::mem::align_of::<Slot>());
        self.0 as *mut u8
    }
}

struct Elem(#[allow(dead_code)] u64);
impl Drop for Elem {
    fn drop(&mut self) {
        DROPPED.set(DROPPED.get() + 1);
    }
}

trait Handle: Clone {
    type H: BlockHeader;
    /// Elements that are dropped with the object.
    const ELEMS: i64;
    fn make(m: Own<Self::H>) -> Self;
    /// Asks for the object and gives it back.
    fn sole(self) -> (bool, Self);
}

impl<H: BlockHeader> Handle for Ref<FlexibleArray<Elem, usize>, Own<H>> {
    type H = H;
    const ELEMS: i64 = 2;
    fn make(m: Own<H>) -> Self {
        m.flexible_array_new([Elem(1), Elem(2)]).to_ref()
    }
    fn sole(self) -> (bool, Self) {
        match self.try_to_mut_ref() {
            Ok(m) => (true, m.to_ref()),
            Err(r) => (false, r),
        }
    }
}

impl<H: BlockHeader> Handle for Any<Own<H>> {
    type H = H;
    const ELEMS: i64 = 0;
    fn make(m: Own<H>) -> Self {
        m.new_js_string([1, 2, 3])
    }
    fn sole(self) -> (bool, Self) {
        match self.try_move::<JsStringRef<Own<H>>>().unwrap().try_to_mut_ref() {
            Ok(m) => (true, Any::move_from(m.to_ref())),
            Err(r) => (false, Any::move_from(r)),
        }
    }
}

/// The handles are not `Send`, but their counter is made for threads when it is atomic.
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}

/// 1: the object was destroyed by this, 0: not, others: something else was.
fn release<T: Handle>(h: T) -> i64 {
    let (f, d) = (FREED.get(), DROPPED.get());
    drop(h);
    let (f, d) = (FREED.get() - f, DROPPED.get() - d);
    if d == f * T::ELEMS { f } else { 100 + d }
}

fn apply<T: Handle>(hs: &mut Vec<T>, o: Op) -> i64 {
    match o {
        Op::Add => {
            let h = hs[0].clone();
            hs.push(h);
            0
        }
        Op::Release => release(hs.pop().unwrap()),
        Op::Read => {
            let (sole, h) = hs.pop().unwrap().sole();
            hs.push(h);
            sole as i64
        }
    }
}

fn first<T: Handle>(slot: &mut Slot, handles: usize) -> Vec<T> {
    let mut hs = vec![T::make(Own(slot, PhantomData))];
    while hs.len() < handles {
        let h = hs[0].clone();
        hs.push(h);
    }
    hs
}

/// Waits for the others.
fn meet(at: &AtomicUsize, n: usize) {
    at.fetch_add(1, Ordering::SeqCst);
    let mut spins = 0;
    while at.load(Ordering::SeqCst) < n {
        spins += 1;
        if spins % 500 == 0 {
            thread::yield_now();
        } else {
            std::hint::spin_loop();
        }
    }
}

/// What each thread sees, and what the releases at the end.
type Answers = (Vec<Vec<i64>>, Vec<i64>);

fn handles(c: &Case) -> usize {
    c.threads.iter().map(|t| t.0).sum()
}

/// The turns of the threads, taken by one thread in a different order in each round.
fn turns<T: Handle>(c: &Case, round: usize) -> Answers {
    let mut slot = Slot::default();
    let mut all: Vec<T> = first(&mut slot, handles(c));
    let mut hs: Vec<Vec<T>> = c.threads.iter().map(|t| all.split_off(all.len() - t.0)).collect();
    let mut res = vec![vec![]; c.threads.len()];
    let mut k = round;
    loop {
        let can: Vec<usize> = (0..res.len()).filter(|&i| res[i].len() < c.threads[i].1.len()).collect();
        if can.is_empty() {
            break;
        }
        let i = can[k % can.len()];
        k = k / can.len() + 7 * (k % can.len());
        let a = apply(&mut hs[i], c.threads[i].1[res[i].len()]);
        res[i].push(a);
    }
    (res, hs.into_iter().flatten().map(release).collect())
}

/// All rounds by threads. In each, the threads meet and then run freely.
fn race<T: Handle>(c: &Case) -> Vec<Answers> {
    let n = c.threads.len();
    let mut slots = vec![Slot::default(); c.rounds];
    let mut given: Vec<Vec<Vec<T>>> = vec![vec![]; n];
    for slot in &mut slots {
        let mut all = first(slot, handles(c));
        for (i, t) in c.threads.iter().enumerate() {
            given[i].push(all.split_off(all.len() - t.0));
        }
    }
    let meets: Vec<AtomicUsize> = (0..c.rounds).map(|_| AtomicUsize::new(0)).collect();
    let mut ends: Vec<Vec<(Vec<i64>, Vec<T>)>> = thread::scope(|s| {
        let all: Vec<_> = given
            .into_iter()
            .enumerate()
            .map(|(i, given)| {
                let (meets, ops, given) = (&meets, &c.threads[i].1, Shared(given));
                s.spawn(move || {
                    let Shared(given) = { given };
                    let mut out = Vec::with_capacity(given.len());
                    for (r, mut hs) in given.into_iter().enumerate() {
                        hs.reserve(ops.len());
                        let mut a = Vec::with_capacity(ops.len());
                        meet(&meets[r], n);
                        // not always in the same step
                        for _ in 0..(r / (1 + 5 * i)) % 5 {
                            std::hint::spin_loop();
                        }
                        for &o in ops {
                            a.push(apply(&mut hs, o));
                        }
                        out.push((a, hs));
                    }
                    Shared(out)
                })
            })
            .collect();
        all.into_iter().map(|t| t.join().unwrap().0).collect()
    });
    (0..c.rounds)
        .map(|r| {
            let (res, left): (Vec<_>, Vec<_>) = ends.iter_mut().map(|t| std::mem::take(&mut t[r])).unzip();
            (res, left.into_iter().flatten().map(release).collect())
        })
        .collect()
}

fn long<T: Handle>(c: &Case) -> String {
    let mut slot = Slot::default();
    let at = AtomicUsize::new(0);
    let all: Vec<[i64; 3]> = thread::scope(|s| {
        let all: Vec<_> = first::<T>(&mut slot, c.long)
            .into_iter()
            .map(|h| {
                let (h, at) = (Shared(h), &at);
                s.spawn(move || {
                    let Shared(h) = { h };
                    let mut r = [0; 3];
                    meet(at, c.long);
                    for _ in 0..c.pairs {
                        let (sole, copy) = h.clone().sole();
                        r[1] += sole as i64;
                        r[0] += release(copy);
                    }
                    r[2] = release(h);
                    r
                })
            })
            .collect();
        all.into_iter().map(|t| t.join().unwrap()).collect()
    });
    let sum = |k: usize| all.iter().map(|a| a[k]).sum::<i64>();
    format!(r#""copy":{},"sole":{},"last":{},"runs":[]"#, sum(0), sum(1), sum(2))
}

fn run<T: Handle>(c: &Case) -> String {
    if c.many > 0 {
        return many::<T>(c);
    }
    if c.long > 0 {
        return long::<T>(c);
    }
    let all: BTreeSet<Answers> =
        if c.cell { (0..c.rounds).map(|r| turns::<T>(c, r)).collect() } else { race::<T>(c).into_iter().collect() };
    let list = |a: &Vec<i64>| format!("[{}]", a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let runs: Vec<_> = all
        .iter()
        .map(|(res, rest)| {
            let t: Vec<_> = res.iter().map(list).collect();
            format!(r#"{{"res":[{}],"rest":{}}}"#, t.join(","), list(rest))
        })
        .collect();
    format!(r#""runs":[{}],"copy":0,"sole":0,"last":0"#, runs.join(","))
}

/// One thread and very many handles. What is seen with 2^`p` + `d` handles, for all `p` from 1 to `many`.
fn many<T: Handle>(c: &Case) -> String {
    let mut slot = Slot::default();
    let mut h = T::make(Own(&mut slot, PhantomData));
    let mut n = 1u64;
    let mut at = vec![];
    'all: for p in 1..=c.many {
        for d in [-1i64, 0, 1, 2] {
            let want = (1u64 << p).wrapping_add_signed(d);
            if want <= n {
                continue;
            }
            // a handle that is forgotten is a handle
            while n < want {
                std::mem::forget(h.clone());
                n += 1;
            }
            let sole;
            (sole, h) = h.sole();
            let freed = release(h.clone());
            at.push(format!(r#"{{"p":{p},"d":{d},"sole":{},"freed":{freed}}}"#, sole as i64));
            // the object is there no more
            if freed != 0 {
                break 'all;
            }
        }
    }
    std::mem::forget(h);
    format!(r#""at":[{}]"#, at.join(","))
}

type Array<H> = Ref<FlexibleArray<Elem, usize>, Own<H>>;

fn exec(c: &Case) -> String {
    match (c.any, c.cell) {
        (false, false) => run::<Array<AtomicIsize>>(c),
        (false, true) => run::<Array<Cell<isize>>>(c),
        (true, false) => run::<Any<Own<AtomicIsize>>>(c),
        (true, true) => run::<Any<Own<Cell<isize>>>>(c),
    }
}

fn cases(a: &Args) -> Vec<Case> {
    let rounds: usize = std::env::var("ROUNDS").ok().and_then(|s| s.parse().ok()).unwrap_or(1000);
    let mut v = vec![];
    for l in read_lines(&a.input) {
        let j = json::parse(&l);
        for (any, cell) in [(false, false), (false, true), (true, false), (true, true)] {
            let threads: Vec<_> = j
                .get("threads")
                .arr()
                .iter()
                .map(|t| {
                    let ops = t
                        .get("ops")
                        .arr()
                        .iter()
                        .map(|o| match o.str() {
                            "add" => Op::Add,
                            "release" => Op::Release,
                            _ => Op::Read,
                        })
                        .collect();
                    (t.get("h").int() as usize, ops)
                })
                .collect();
            // nothing differs between the rounds of one thread
            let rounds = if threads.len() == 1 { 2 } else if cell { 200 } else { rounds };
            v.push(Case { any, cell, threads, rounds, long: 0, pairs: 0, many: 0 });
        }
    }
    for long in [2, 3, 4, 8] {
        for pairs in [100, 10 * rounds, 100 * rounds] {
            for any in [false, true] {
                v.push(Case { any, cell: false, threads: vec![], rounds: 1, long, pairs, many: 0 });
            }
        }
    }
    v
}

fn very_many() -> Vec<Case> {
    let many = std::env::var("MANY").ok().and_then(|s| s.parse().ok()).unwrap_or(32);
    [(false, false), (false, true), (true, false), (true, true)]
        .map(|(any, cell)| Case { any, cell, threads: vec![], rounds: 1, long: 0, pairs: 0, many })
        .into()
}

fn main() {
    let a = args();
    let c = match a.mode.as_str() {
        "many" => very_many(),
        _ => cases(&a),
    };
    drive(&a, c, input, exec);
}
