//! Records layouts of blocks (C21).
use conform::{
    rec::{recorded, Hook, Kind, Rec, LOG},
    *,
};
use nanvm_lib::mem::{
    flexible_array::{constructor::FlexibleArrayConstructor, header::FlexibleArrayHeader, FlexibleArray},
    global::Global,
    local::Local,
    manager::{Dealloc, Manager},
    mut_ref::MutRef,
    object::Object,
    ref_::Ref,
};
use std::{
    cell::RefCell,
    mem::{align_of, size_of},
};

#[global_allocator]
static HOOK: Hook = Hook;

thread_local! {
    static DROPS: RefCell<Vec<i64>> = const { RefCell::new(vec![]) };
}

fn dropped(id: i64) {
    DROPS.with(|d| d.borrow_mut().push(id));
}

/// Something that is filled with a pattern.
trait Fill: Sized + 'static {
    fn fill(b: u8) -> Self;
    fn is(&self, b: u8) -> bool;
}

macro_rules! plain {
    ($($t:ty),*) => {$(
        impl Fill for $t {
            fn fill(b: u8) -> Self {
                let mut v = std::mem::MaybeUninit::<$t>::uninit();
                unsafe {
                    std::ptr::write_bytes(v.as_mut_ptr() as *mut u8, b, size_of::<$t>());
                    v.assume_init()
                }
            }
            fn is(&self, b: u8) -> bool {
                let p = self as *const $t as *const u8;
                (0..size_of::<$t>()).all(|i| unsafe { p.add(i).read() } == b)
            }
        }
    )*};
}

#[repr(align(32))]
struct A32(#[allow(dead_code)] [u8; 32]);
#[repr(align(64))]
struct A64(#[allow(dead_code)] [u8; 64]);
#[repr(align(128))]
struct A128(#[allow(dead_code)] [u8; 128]);
#[repr(align(256))]
struct A256(#[allow(dead_code)] [u8; 256]);
#[repr(align(4096))]
struct A4096(#[allow(dead_code)] [u8; 4096]);
#[repr(align(65536))]
struct Z65536;
#[repr(align(512))]
struct Z512;
#[repr(align(2))]
struct B2(#[allow(dead_code)] [u8; 6]);
/// Only alignment.
#[repr(align(8))]
struct Z8;
#[repr(align(16))]
struct Z16;

plain!((), u8, u16, u32, u64, u128, [u8; 3], [u8; 7], [u8; 17], [u16; 3], [u32; 3], [u64; 5], A32, A64, A128, A256, A4096, Z512, Z65536, B2, Z8, Z16, [u8; 255], [u16; 129], [u8; 4095], [u64; 1025], [u32; 16385]);

/// A header that owns something; dropping it is recorded as 1000 + its length. A dropped header has
/// no length any more.
#[repr(C)]
struct Head<P> {
    pad: P,
    len: u8,
}

impl<P> FlexibleArrayHeader for Head<P> {
    fn len(&self) -> usize {
        self.len as usize
    }
}

impl<P> Drop for Head<P> {
    fn drop(&mut self) {
        dropped(1000 + self.len as i64);
        unsafe { std::ptr::write_volatile(&mut self.len, 0) };
    }
}

/// A header with the length first.
#[repr(C)]
struct Tail<P> {
    len: u16,
    pad: P,
}

impl<P> FlexibleArrayHeader for Tail<P> {
    fn len(&self) -> usize {
        self.len as usize
    }
}

impl<P> Drop for Tail<P> {
    fn drop(&mut self) {
        dropped(1000 + self.len as i64);
        unsafe { std::ptr::write_volatile(&mut self.len, 0) };
    }
}

trait Header: FlexibleArrayHeader + 'static {
    fn make(n: usize) -> Self;
    fn good(&self, n: usize) -> bool;
}

impl<P: Fill> Header for Head<P> {
    fn make(n: usize) -> Self {
        Head {
            pad: P::fill(0xC3),
            len: n as u8,
        }
    }
    fn good(&self, n: usize) -> bool {
        self.pad.is(0xC3) && self.len as usize == n
    }
}

impl<P: Fill> Header for Tail<P> {
    fn make(n: usize) -> Self {
        Tail {
            pad: P::fill(0x3C),
            len: n as u16,
        }
    }
    fn good(&self, n: usize) -> bool {
        self.pad.is(0x3C) && self.len as usize == n
    }
}

impl Header for usize {
    fn make(n: usize) -> Self {
        n
    }
    fn good(&self, n: usize) -> bool {
        *self == n
    }
}

/// An element; dropping it is recorded.
#[repr(C)]
struct Elem<P: Fill> {
    pad: P,
    id: u8,
}

impl<P: Fill> Drop for Elem<P> {
    fn drop(&mut self) {
        dropped(if self.pad.is(self.id) { self.id as i64 } else { -1 })
    }
}

trait Item: 'static {
    const DROPS: bool;
    /// All elements of the type look the same.
    const SAME: bool;
    fn make(id: u8) -> Self;
    fn id(&self) -> i64;
}

impl<P: Fill> Item for Elem<P> {
    const DROPS: bool = true;
    const SAME: bool = false;
    fn make(id: u8) -> Self {
        Elem { pad: P::fill(id), id }
    }
    fn id(&self) -> i64 {
        if self.pad.is(self.id) {
            self.id as i64
        } else {
            -1
        }
    }
}

/// An element without size, but with a destructor.
struct Unit;

impl Drop for Unit {
    fn drop(&mut self) {
        dropped(7)
    }
}

impl Item for Unit {
    const DROPS: bool = true;
    const SAME: bool = true;
    fn make(_: u8) -> Self {
        Unit
    }
    fn id(&self) -> i64 {
        7
    }
}

#[repr(align(16))]
struct Unit16;

impl Item for Unit16 {
    const DROPS: bool = false;
    const SAME: bool = true;
    fn make(_: u8) -> Self {
        Unit16
    }
    fn id(&self) -> i64 {
        7
    }
}

macro_rules! item {
    ($($t:ty),*) => {$(
        impl Item for $t {
            const DROPS: bool = false;
            const SAME: bool = false;
            fn make(id: u8) -> Self {
                Fill::fill(id)
            }
            fn id(&self) -> i64 {
                let b = unsafe { *(self as *const $t as *const u8) };
                if self.is(b) { b as i64 } else { -1 }
            }
        }
    )*};
}

item!(u8, u16, u32, u64, u128, [u8; 3], [u8; 17], A32, A128);

struct Out {
    b: Base,
    counter: (usize, usize, usize),
    h: (usize, usize, usize),
    x: (usize, usize, usize),
    at: Vec<usize>,
    len: usize,
    osize: usize,
    /// all elements look the same; the header and the elements have destructors; the block came back
    flags: [bool; 4],
    early: usize,
    kept: usize,
    head: [bool; 3],
    first: String,
    after: Vec<String>,
    w: Vec<usize>,
    shared: String,
    last: String,
    writes: Vec<i64>,
    drops: Vec<i64>,
}

fn part(b: &Base, p: (usize, usize, usize)) -> String {
    format!(r#"{{"at":{},"s":{},"a":{}}}"#, p.0 as i64 - b.ptr as i64, p.1, p.2)
}

#[inline(never)]
fn out(o: Out) -> String {
    format!(
        r#""base":{},"size":{},"align":{},"c":{},"h":{},"x":{},"at":{},"len":{},"osize":{},"same":{},"hdrops":{},"xdrops":{},"early":{},"kept":{},"head":[{},{},{}],"back":{},"first":{},"after":[{}],"w":{},"shared":{},"last":{},"writes":{},"drops":{}"#,
        o.b.ptr % (1 << 20),
        o.b.size,
        o.b.align,
        part(&o.b, o.counter),
        part(&o.b, o.h),
        part(&o.b, o.x),
        arr(o.at.iter().map(|&a| a as i64 - o.b.ptr as i64)),
        o.len,
        o.osize,
        o.flags[0],
        o.flags[1],
        o.flags[2],
        o.early,
        o.kept,
        o.head[0],
        o.head[1],
        o.head[2],
        o.flags[3],
        o.first,
        o.after.join(","),
        arr(o.w),
        o.shared,
        o.last,
        arr(o.writes),
        arr(o.drops)
    )
}

#[inline(never)]
fn take_drops() -> Vec<i64> {
    DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()))
}

#[inline(never)]
fn count_drops() -> usize {
    DROPS.with(|d| d.borrow().len())
}

fn addr<T>(r: &T) -> usize {
    r as *const T as usize
}

struct Base {
    ptr: usize,
    size: usize,
    align: usize,
}

fn base() -> Base {
    LOG.with(|l| {
        let l = l.borrow();
        let b = l.blocks[l.blocks.len() - 1];
        Base {
            ptr: b.ptr,
            size: b.layout.size(),
            align: b.layout.align(),
        }
    })
}

fn counter<T: Object, D: Dealloc>(r: &Ref<T, D>) -> (usize, usize, usize) {
    let h = unsafe { &(*r.internal()).header };
    (addr(h), size_of::<D::BlockHeader>(), align_of::<D::BlockHeader>())
}

fn id_of(id: usize) -> u8 {
    (1 + id % 250) as u8
}

#[inline(never)]
fn ids<I: Item>(items: &[I]) -> String {
    arr(items.iter().map(|i| i.id()))
}

#[inline(never)]
fn flexible<H: Header, I: Item, M: Kind>(m: Rec<M>, n: usize) -> String {
    take_drops();
    let items = (0..n).map(|i| I::make(id_of(i)));
    let mut o: MutRef<FlexibleArray<I, H>, _> = m.new(FlexibleArrayConstructor::new(H::make(n), items));
    let b = base();
    let early = count_drops();
    let first = ids(o.items());
    let head0 = o.header.good(n);
    let at: Vec<usize> = o.items().iter().map(addr).collect();
    let start = o.items().as_ptr() as usize;
    let len = o.items().len();
    let head_at = addr(&o.header);
    // write to some of them
    let w = if n > 0 { vec![n / 2, n - 1, 0] } else { vec![] };
    let mut after = vec![];
    for &i in &w {
        o.items_mut()[i] = I::make(id_of(100 + i));
        after.push(ids(o.items()));
    }
    let writes = take_drops();
    let head1 = o.header.good(n);
    let osize = o.object_size();
    let r = o.to_ref();
    let s = r.clone();
    let counter = counter(&r);
    let shared = ids(s.items());
    drop(r);
    let head2 = s.header.good(n);
    let o = s.try_to_mut_ref();
    let back = o.is_ok();
    let last = match &o {
        Ok(o) => ids(o.items()),
        Err(o) => ids(o.items()),
    };
    let kept = count_drops();
    drop(o);
    out(Out {
        b,
        counter,
        h: (head_at, size_of::<H>(), align_of::<H>()),
        x: (start, size_of::<I>(), align_of::<I>()),
        at,
        len,
        osize,
        flags: [I::SAME, std::mem::needs_drop::<H>(), I::DROPS, back],
        early,
        kept,
        head: [head0, head1, head2],
        first,
        after,
        w,
        shared,
        last,
        writes,
        drops: take_drops(),
    })
}

/// A block with one value: `n` is 1 and there is no header.
#[inline(never)]
fn fixed<I: Item, M: Kind>(m: Rec<M>, _: usize) -> String {
    take_drops();
    let mut o = m.fixed_new(I::make(id_of(0)));
    let b = base();
    let early = count_drops();
    let first = arr([o.0.id()]);
    let at = addr(&o.0);
    o.0 = I::make(id_of(100));
    let after = vec![arr([o.0.id()])];
    let writes = take_drops();
    let osize = o.object_size();
    let r = o.to_ref();
    let s = r.clone();
    let counter = counter(&r);
    let shared = arr([s.0.id()]);
    drop(r);
    let o = s.try_to_mut_ref();
    let back = o.is_ok();
    let last = match &o {
        Ok(o) => arr([o.0.id()]),
        Err(o) => arr([o.0.id()]),
    };
    let kept = count_drops();
    drop(o);
    out(Out {
        b,
        counter,
        h: (at, 0, 1),
        x: (at, size_of::<I>(), align_of::<I>()),
        at: vec![at],
        len: 1,
        osize,
        flags: [I::SAME, false, I::DROPS, back],
        early,
        kept,
        head: [true; 3],
        first,
        after,
        w: vec![0],
        shared,
        last,
        writes,
        drops: take_drops(),
    })
}

#[derive(Clone)]
struct Case {
    what: String,
    n: usize,
    local: bool,
    global_run: fn(Rec<Global>, usize) -> String,
    local_run: fn(Rec<&'static Local>, usize) -> String,
}

fn exec(c: &Case) -> String {
    let (s, e) = if c.local {
        recorded::<&'static Local, _>(|m| (c.local_run)(m, c.n))
    } else {
        recorded::<Global, _>(|m| (c.global_run)(m, c.n))
    };
    format!("{s},{e}")
}

fn lens(a: &Args) -> Vec<usize> {
    let mut v: Vec<usize> = (0..if a.thorough { 40 } else { 10 }).collect();
    v.extend([17, 31, 64, 127, 200, 255, 256, 300]);
    v
}

#[inline(never)]
fn push(
    v: &mut Vec<Case>,
    lens: Vec<usize>,
    what: &str,
    global_run: fn(Rec<Global>, usize) -> String,
    local_run: fn(Rec<&'static Local>, usize) -> String,
) {
    for n in lens {
        if n > 255 && what.starts_with("Head") {
            continue;
        }
        for local in [false, true] {
            v.push(Case {
                what: what.to_string(),
                n,
                local,
                global_run,
                local_run,
            });
        }
    }
}

fn cases(a: &Args) -> Vec<Case> {
    let mut v = vec![];
    macro_rules! header {
        ($h:ty, $($i:ty),*) => {$(
            push(
                &mut v,
                lens(a),
                concat!(stringify!($h), "/", stringify!($i)),
                flexible::<$h, $i, Global>,
                flexible::<$h, $i, &'static Local>,
            );
        )*};
    }
    macro_rules! items {
        ($($h:ty),*) => {$(
            header!($h, u8, u16, u64, u128, [u8; 3], A32, Unit, Unit16, Elem<()>, Elem<[u8; 3]>, Elem<u64>, Elem<u128>, Elem<A64>);
        )*};
    }
    items!(
        usize, Head<()>, Head<u16>, Head<u128>, Head<[u8; 7]>, Head<A64>, Head<Z16>, Tail<[u8; 17]>, Tail<[u64; 5]>
    );
    // big ones, and ones with a wide alignment
    macro_rules! big {
        ($(($h:ty, $($i:ty),*)),*) => {$($(
            push(
                &mut v,
                if a.thorough { vec![0, 1, 2, 3, 4, 5, 15, 16, 17, 33] } else { vec![0, 1, 2, 3, 17] },
                concat!(stringify!($h), "/", stringify!($i)),
                flexible::<$h, $i, Global>,
                flexible::<$h, $i, &'static Local>,
            );
        )*)*};
    }
    big!(
        (usize, A128, Elem<A256>, Elem<A4096>, Elem<Z512>, Elem<Z65536>, Elem<[u8; 255]>, Elem<[u64; 1025]>),
        (Head<A128>, u8, u64, A128, Elem<A256>, Elem<[u16; 129]>),
        (Head<Z512>, u8, u16, A128, Elem<A256>, Elem<A4096>),
        (Tail<A4096>, u8, u64, A128, Unit16, Elem<A256>),
        (Tail<Z65536>, u8, u128, Elem<A4096>, Elem<Z65536>),
        (Tail<[u8; 255]>, u8, u16, u64, A128, Elem<u128>),
        (Head<[u8; 4095]>, u8, u16, u64, A128, Elem<A4096>),
        (Tail<[u32; 16385]>, u8, u64, u128, Elem<A256>)
    );
    // long ones
    macro_rules! long {
        ($h:ty, $($i:ty),*) => {$(
            push(
                &mut v,
                if a.thorough { vec![32767, 32768, 65535, 65536, 65537, 70000] } else { vec![65536, 65541] },
                concat!(stringify!($h), "/", stringify!($i)),
                flexible::<$h, $i, Global>,
                flexible::<$h, $i, &'static Local>,
            );
        )*};
    }
    long!(usize, u8, u64, Elem<()>);
    macro_rules! one {
        ($($i:ty),*) => {$(
            push(
                &mut v,
                vec![1],
                concat!("fixed/", stringify!($i)),
                fixed::<$i, Global>,
                fixed::<$i, &'static Local>,
            );
        )*};
    }
    one!(u8, u16, u32, u64, u128, [u8; 3], [u8; 17], A32, Unit, Unit16, Elem<()>, Elem<u16>, Elem<[u8; 3]>, Elem<[u32; 3]>,
        Elem<u64>, Elem<u128>, Elem<A64>, Elem<B2>, Elem<Z8>, Elem<[u8; 7]>, Elem<[u64; 5]>, Elem<Z16>, A128, Elem<A128>, Elem<A256>, Elem<A4096>, Elem<Z512>, Elem<Z65536>, Elem<[u8; 255]>, Elem<[u8; 4095]>, Elem<[u32; 16385]>);
    v
}

fn main() {
    let a = args();
    let c = cases(&a);
    drive(&a, c, |c| format!(r#""what":"{}","n":{}"#, c.what, c.n), exec);
}
