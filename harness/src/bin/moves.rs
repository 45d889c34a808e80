//! Records calls that fail in the middle (C22): each one is a process of its own, which reports its events line by
//! line, so that nothing is lost when it ends.
use conform::{json, *};
use nanvm_lib::{
    common::ref_mut::RefMut,
    mem::{
        flexible_array::FlexibleArray,
        global::{Global, GLOBAL},
        local::Local,
        manager::{Dealloc, Manager},
        mut_ref::MutRef,
    },
};
use std::{
    alloc::Layout,
    os::unix::process::ExitStatusExt,
    panic::{catch_unwind, AssertUnwindSafe},
    process::{Command, Stdio},
    sync::atomic::{AtomicU32, Ordering},
    time::{Duration, Instant},
};

#[derive(Clone)]
struct Case {
    build: bool,
    claim: i64,
    have: u32,
    stop: u32,
    bad: u32,
    fs: Vec<String>,
    mgr: &'static str,
    elem: &'static str,
    /// What the block is released by.
    handle: &'static str,
    /// The number of elements that cannot be allocated: 2^p - d.
    huge: (u32, u32),
    exe: usize,
}

const PROFILES: [&str; 2] = ["checked", "unchecked"];

fn log2_size(elem: &str) -> u32 {
    match elem {
        "e8" => 3,
        "e16" => 4,
        _ => 6,
    }
}

fn input(c: &Case) -> String {
    let call = if c.build {
        format!(r#"{{"kind":"build","claim":{},"have":{},"stop":{},"bad":{}}}"#, c.claim, c.have, c.stop, c.bad)
    } else {
        let fs: Vec<_> = c.fs.iter().map(|f| format!("\"{f}\"")).collect();
        format!(r#"{{"kind":"modify","fs":[{}]}}"#, fs.join(","))
    };
    format!(
        r#""call":{call},"mgr":"{}","elem":"{}","handle":"{}","log2":{},"huge":[{},{}],"profile":"{}""#,
        c.mgr,
        c.elem,
        c.handle,
        log2_size(c.elem),
        c.huge.0,
        c.huge.1,
        PROFILES[c.exe]
    )
}

fn exec(c: &Case) -> String {
    let exe = if c.exe == 0 { std::env::current_exe().unwrap().into_os_string() } else { std::env::var_os("MOVES").unwrap() };
    let mut child = Command::new(exe)
        .arg("one")
        .arg(if c.build { "build" } else { "modify" })
        .args([c.claim.to_string(), c.have.to_string(), c.stop.to_string(), c.bad.to_string()])
        .args([c.mgr.to_string(), c.elem.to_string(), c.huge.0.to_string(), c.huge.1.to_string(), c.handle.to_string()])
        .args(&c.fs)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    // it says little
    let mut err = child.stderr.take().unwrap();
    let t = Instant::now();
    let status = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s,
            None if t.elapsed() > Duration::from_secs(60) => {
                let _ = child.kill();
                let _ = child.wait();
                panic!("hang");
            }
            None => std::thread::sleep(Duration::from_micros(200)),
        }
    };
    let mut said = vec![];
    let _ = std::io::Read::read_to_end(&mut err, &mut said);
    let said = String::from_utf8_lossy(&said).to_string();
    let values = if c.build { c.have as usize } else { 1 + c.fs.len() };
    let mut drops = vec![0; values];
    let mut junk = 0;
    let mut asked = false;
    let mut read = String::new();
    let mut out = "";
    for l in said.lines() {
        let Some((k, rest)) = l.strip_prefix('@').and_then(|l| l.split_once(' ')) else {
            continue;
        };
        match k {
            "drop" => match rest.parse::<usize>() {
                Ok(v) if 1 <= v && v <= values => drops[v - 1] += 1,
                _ => junk += 1,
            },
            "asked" => asked = true,
            "read" => read = rest.to_string(),
            "end" => out = if rest == "ok" { "ok" } else { "panic" },
            _ => (),
        }
    }
    if status.signal() == Some(6) {
        out = "abort";
    } else if status.code() != Some(0) {
        out = "crash";
    }
    let drops: Vec<_> = drops.iter().map(|d| d.to_string()).collect();
    format!(r#""out":"{out}","drops":[{}],"read":[{read}],"junk":{junk},"asked":{asked}"#, drops.join(","))
}

fn cases(a: &Args) -> Vec<Case> {
    let mut v = vec![];
    for l in read_lines(&a.input) {
        let j = json::parse(&l);
        for exe in 0..PROFILES.len() {
            if j.get("kind").str() == "modify" {
                let fs = j.get("fs").arr().iter().map(|f| f.str().to_string()).collect();
                v.push(Case { build: false, claim: 0, have: 0, stop: 0, bad: 0, fs, mgr: "none", elem: "e8", handle: "none", huge: (0, 0), exe });
                continue;
            }
            let n = |k: &str| j.get(k).int();
            let small = [(0, 0)];
            let large = [(64, 1), (63, 0), (62, 0), (61, 0), (61, 1), (60, 0), (60, 1), (59, 0), (58, 0), (57, 0), (50, 0)];
            for mgr in ["global", "local", "own"] {
                for elem in ["e8", "e16", "e64"] {
                    for (i, &huge) in if n("claim") < 0 { &large[..] } else { &small[..] }.iter().enumerate() {
                        // all four where the release can fail
                        let all = ["mut", "ref", "clones", "back"];
                        let some = if n("bad") > 0 { &all[..] } else { &all[(i + v.len()) % 4..][..1] };
                        for &handle in some {
                            v.push(Case {
                            handle,
                            build: true,
                            claim: n("claim"),
                            have: n("have") as u32,
                            stop: n("stop") as u32,
                            bad: n("bad") as u32,
                            fs: vec![],
                            mgr,
                            elem,
                            huge,
                            exe,
                            });
                        }
                    }
                }
            }
        }
    }
    v
}

// --- the call ---

const MAGIC: u32 = 0x5EED_CAFE;
static BAD: AtomicU32 = AtomicU32::new(0);

trait Elem {
    fn make(id: u32) -> Self;
    fn id(&self) -> u32;
}

macro_rules! elem {
    ($name:ident, $pad:literal, $align:literal) => {
        #[repr(C, align($align))]
        struct $name {
            magic: u32,
            id: u32,
            _pad: [u8; $pad],
        }
        impl Elem for $name {
            fn make(id: u32) -> Self {
                $name { magic: MAGIC, id, _pad: [0x77; $pad] }
            }
            fn id(&self) -> u32 {
                if self.magic == MAGIC { self.id } else { 0 }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                eprintln!("@drop {}", self.id());
                if self.id == BAD.load(Ordering::Relaxed) {
                    panic!("drop");
                }
            }
        }
    };
}
elem!(E8, 0, 4);
elem!(E16, 8, 8);
elem!(E64, 56, 64);

struct Items<T> {
    claim: usize,
    calls: u32,
    stop: u32,
    items: std::vec::IntoIter<T>,
}

impl<T> Iterator for Items<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.calls += 1;
        if self.calls == self.stop {
            panic!("next");
        }
        self.items.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.claim, Some(self.claim))
    }
}

impl<T> ExactSizeIterator for Items<T> {
    fn len(&self) -> usize {
        self.claim
    }
}

/// Says what it is asked for.
#[derive(Debug, Clone, Copy)]
struct Own;
impl Dealloc for Own {
    type BlockHeader = <Global as Dealloc>::BlockHeader;
    unsafe fn dealloc(p: *mut u8, l: Layout) {
        std::alloc::dealloc(p, l)
    }
}
impl Manager for Own {
    type Dealloc = Own;
    unsafe fn alloc(self, l: Layout) -> *mut u8 {
        eprintln!("@asked {}", l.size());
        let p = std::alloc::alloc(l);
        if p.is_null() {
            std::alloc::handle_alloc_error(l);
        }
        p
    }
}

fn build<M: Manager, T: Elem>(m: M, handle: &str, claim: usize, have: u32, stop: u32) {
    let items = Items { claim, calls: 0, stop, items: (1..=have).map(T::make).collect::<Vec<_>>().into_iter() };
    let r: MutRef<FlexibleArray<T, usize>, M::Dealloc> = m.flexible_array_new(items);
    let read: Vec<_> = r.items().iter().map(|e| e.id().to_string()).collect();
    eprintln!("@read {}", read.join(","));
    match handle {
        "mut" => drop(r),
        "ref" => drop(r.to_ref()),
        "clones" => {
            let a = r.to_ref();
            let b = a.clone();
            drop(a);
            let _c = b.clone();
            drop(b);
        }
        _ => match r.to_ref().try_to_mut_ref() {
            Ok(r) => drop(r),
            Err(_) => eprintln!("@drop shared"),
        },
    }
}

fn modify(fs: &[String]) {
    let mut slot = E8::make(1);
    for (k, f) in fs.iter().enumerate() {
        let id = k as u32 + 2;
        slot.modify(|old| match f.as_str() {
            "keep" => old,
            "new" => E8::make(id),
            "stop" => panic!("function"),
            _ => {
                let _new = E8::make(id);
                panic!("function")
            }
        });
    }
    eprintln!("@read {}", slot.id());
    drop(slot);
}

fn one(a: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let n = |k: usize| a[k].parse::<i64>().unwrap();
    let claim = match n(1) {
        -1 => ((1u128 << n(7)) - n(8) as u128) as usize,
        c => c as usize,
    };
    BAD.store(n(4) as u32, Ordering::Relaxed);
    let (have, stop) = (n(2) as u32, n(3) as u32);
    let r = catch_unwind(AssertUnwindSafe(|| {
        // what is behind a manager outlives a panic
        let local = std::mem::ManuallyDrop::new(Local::default());
        let local: &Local = &local;
        match (a[0].as_str(), a[5].as_str(), a[6].as_str()) {
            ("modify", _, _) => modify(&a[10..]),
            (_, "global", "e8") => build::<_, E8>(GLOBAL, &a[9], claim, have, stop),
            (_, "global", "e16") => build::<_, E16>(GLOBAL, &a[9], claim, have, stop),
            (_, "global", _) => build::<_, E64>(GLOBAL, &a[9], claim, have, stop),
            (_, "local", "e8") => build::<_, E8>(local, &a[9], claim, have, stop),
            (_, "local", "e16") => build::<_, E16>(local, &a[9], claim, have, stop),
            (_, "local", _) => build::<_, E64>(local, &a[9], claim, have, stop),
            (_, _, "e8") => build::<_, E8>(Own, &a[9], claim, have, stop),
            (_, _, "e16") => build::<_, E16>(Own, &a[9], claim, have, stop),
            _ => build::<_, E64>(Own, &a[9], claim, have, stop),
        }
    }));
    eprintln!("@end {}", if r.is_ok() { "ok" } else { "panic" });
    // no destructor of a payload
    std::mem::forget(r);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "one" {
        return one(&a[2..]);
    }
    let a = args();
    let c = cases(&a);
    drive(&a, c, input, exec);
}
