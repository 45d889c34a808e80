//! Runs cases against the code under test and records one JSON line per case.
//!
//! A panic, a hang or a crash of the code under test is data: it is recorded as the outcome of the
//! case. Nothing here depends on the code under test.

pub mod graph;
pub mod json;
pub mod mock;
pub mod rec;
pub mod value;

use std::{
    fmt::Display,
    fs::File,
    io::{BufWriter, Write},
    os::unix::fs::FileExt,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        mpsc, Arc,
    },
    thread,
    time::{Duration, Instant},
};

pub struct Args {
    pub seed: u64,
    pub thorough: bool,
    pub out: String,
    pub from: usize,
    pub mode: String,
    pub input: Option<String>,
}

/// `<bin> <mode> <out file> [from] [input file]`, VERIF_SEED and VERIF_TIER from the environment.
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    Args {
        seed: std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        mode: a[1].clone(),
        out: a[2].clone(),
        from: a.get(3).and_then(|s| s.parse().ok()).unwrap_or(0),
        input: a.get(4).cloned(),
    }
}

pub fn read_lines(path: &Option<String>) -> Vec<String> {
    let p = path.as_ref().expect("input file");
    std::fs::read_to_string(p)
        .expect("input file")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| l.to_string())
        .collect()
}

/// Numbers of a JSON array of numbers (cases that TLC generated).
pub fn parse_ints(s: &str) -> Vec<i64> {
    let mut r = vec![];
    let mut cur = String::new();
    for c in s.chars().chain([' ']) {
        if c.is_ascii_digit() || c == '-' {
            cur.push(c);
        } else if !cur.is_empty() {
            r.push(cur.parse().unwrap());
            cur.clear();
        }
    }
    r
}

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as usize) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn one_of<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// A digit that is likely to be at an edge.
    pub fn limb(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << 63,
            4 => u64::MAX - self.below(3) as u64,
            5 => (1 << 63) - 1 + self.below(3) as u64,
            6 => 1 << self.below(64),
            7 => (1u64 << self.below(64)).wrapping_sub(1),
            8 => u64::MAX << self.below(64),
            9 => self.below(20) as u64,
            _ => self.next(),
        }
    }
    /// A number of at most `max` digits, normalized.
    pub fn limbs(&mut self, max: usize) -> Vec<u64> {
        let n = self.below(max + 1);
        let mut v: Vec<u64> = (0..n).map(|_| self.limb()).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
}

// --- JSON ---

pub fn arr<T: Display>(i: impl IntoIterator<Item = T>) -> String {
    let v: Vec<String> = i.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

/// Base 2^12 digits of a number given by base 2^64 digits, with the leading zeros of the latter.
pub fn dig(limbs: &[u64]) -> String {
    let mut out: Vec<u32> = vec![];
    let (mut acc, mut bits) = (0u128, 0u32);
    for &l in limbs {
        acc |= (l as u128) << bits;
        bits += 64;
        while bits >= 12 {
            out.push((acc & 0xFFF) as u32);
            acc >>= 12;
            bits -= 12;
        }
    }
    if bits > 0 {
        out.push(acc as u32);
    }
    while out.last() == Some(&0) {
        out.pop();
    }
    arr(out)
}

pub fn f64_json(f: f64) -> String {
    let b = f.to_bits();
    format!(
        r#"{{"s":{},"e":{},"m":{}}}"#,
        b >> 63,
        (b >> 52) & 0x7FF,
        dig(&[b & ((1 << 52) - 1)])
    )
}

/// A string as its code points.
pub fn text(s: &str) -> String {
    arr(s.chars().map(|c| c as u32))
}

pub fn bool_json(b: bool) -> &'static str {
    if b {
        "true"
    } else {
        "false"
    }
}

// --- running ---

/// The result of a call that may panic.
pub fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// A case hangs when it has used this much time of the processor. (The code under test never waits, but
/// the machine can be busy.)
const CPU_LIMIT: u64 = 25;
/// ... or when so much time went by.
const WALL_LIMIT: u64 = 200;
/// Cases that need more have another limit.
fn limits() -> (u64, u64) {
    match std::env::var("CPU_LIMIT").ok().and_then(|s| s.parse().ok()) {
        Some(n) => (n, 4 * n),
        None => (CPU_LIMIT, WALL_LIMIT),
    }
}

/// Processor seconds used by a thread of this process. `None` when the system does not tell.
fn cpu_seconds(task: &str) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{task}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    // utime and stime, in hundredths of a second
    Some((f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?) / 100)
}

/// Runs `exec` for every case and writes `{"i":..,<input>,"o":"ok",<fields>}` lines. `exec` returns
/// the fields. A panic is recorded as `"o":"panic"`, a case that takes too long as `"o":"hang"`.
/// The number of the running case is kept in `<out>.at`, so that the caller can attribute a crash.
pub fn drive<C: Send + Sync + 'static>(
    a: &Args,
    cases: Vec<C>,
    input: impl Fn(&C) -> String,
    exec: impl Fn(&C) -> String + Send + Sync + Copy + 'static,
) {
    std::panic::set_hook(Box::new(|_| {}));
    let cases = Arc::new(cases);
    let mut out = BufWriter::with_capacity(1 << 20, 
        std::fs::OpenOptions::new()
            .create(true)
            .append(true)
            .open(&a.out)
            .unwrap(),
    );
    let at = Arc::new(File::create(format!("{}.at", a.out)).unwrap());
    let next = Arc::new(AtomicUsize::new(a.from));
    let mut pos = a.from;
    let mut hangs = 0;
    let crashed: Vec<usize> = std::env::var("VERIF_CRASHED")
        .unwrap_or_default()
        .split(',')
        .filter_map(|s| s.parse().ok())
        .collect();
    // `VERIF_SHARD=k/n` runs the cases whose number is k modulo n
    let (shard, shards) = std::env::var("VERIF_SHARD")
        .ok()
        .and_then(|s| {
            let (k, n) = s.split_once('/')?;
            Some((k.parse::<usize>().ok()?, n.parse::<usize>().ok()?))
        })
        .unwrap_or((0, 1));
    let mine = move |i: usize| i % shards == shard;
    while pos < cases.len() {
        if !mine(pos) {
            pos += 1;
            continue;
        }
        let (tx, rx) = mpsc::sync_channel::<(usize, Option<String>)>(64);
        let worker_cases = cases.clone();
        let worker_next = next.clone();
        let worker_at = at.clone();
        let (task_tx, task_rx) = mpsc::sync_channel::<Option<String>>(1);
        let start = pos;
        if crashed.contains(&start) {
            let inp = input(&cases[start]);
            writeln!(out, r#"{{"i":{start},{inp},"o":"crash"}}"#).unwrap();
            // the next case can crash, too
            out.flush().unwrap();
            pos += 1;
            continue;
        }
        let end = crashed.iter().copied().filter(|&i| i > start).min().unwrap_or(cases.len());
        thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || {
                let task = std::fs::read_link("/proc/thread-self").ok();
                let _ = task_tx.send(task.map(|p| p.to_string_lossy().into_owned()));
                for i in (start..end).filter(|&i| mine(i)) {
                    worker_next.store(i, Ordering::SeqCst);
                    let _ = worker_at.write_at(format!("{i:>10}").as_bytes(), 0);
                    let r = caught(|| exec(&worker_cases[i]));
                    if tx.send((i, r)).is_err() {
                        return;
                    }
                }
            })
            .unwrap();
        let task = task_rx.recv().unwrap_or(None);
        let (cpu_limit, wall_limit) = limits();
        let cpu = || task.as_ref().and_then(|t| cpu_seconds(t));
        // the last answer, and the processor time at the first silence after it
        let mut since = (Instant::now(), None);
        loop {
            while pos < end && !mine(pos) {
                pos += 1;
            }
            if pos >= end {
                break;
            }
            match rx.recv_timeout(Duration::from_secs(5)) {
                Ok((i, r)) => {
                    since = (Instant::now(), None);
                    let inp = input(&cases[i]);
                    match r {
                        Some(s) => writeln!(out, r#"{{"i":{i},{inp},"o":"ok",{s}}}"#),
                        None => writeln!(out, r#"{{"i":{i},{inp},"o":"panic"}}"#),
                    }
                    .unwrap();
                    if i / shards % 16 == 0 {
                        out.flush().unwrap();
                    }
                    pos = i + 1;
                }
                Err(mpsc::RecvTimeoutError::Timeout) if !{
                    let (wall, now) = (since.0.elapsed().as_secs(), cpu());
                    since.1 = since.1.or(now);
                    match (since.1, now) {
                        (Some(a), Some(b)) => b - a >= cpu_limit || wall >= wall_limit,
                        _ => wall >= 2 * cpu_limit,
                    }
                } => {}
                Err(_) => {
                    let inp = input(&cases[pos]);
                    writeln!(out, r#"{{"i":{pos},{inp},"o":"hang"}}"#).unwrap();
                    out.flush().unwrap();
                    pos += 1;
                    hangs += 1;
                    break;
                }
            }
        }
        if hangs >= 3 {
            break;
        }
    }
    out.flush().unwrap();
    let _ = at.write_at(b"      done", 0);
    // hung threads must not keep the process alive
    std::process::exit(0);
}

// --- naturals, for making operands only ---

pub fn norm(mut v: Vec<u64>) -> Vec<u64> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

pub fn mul_limbs(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = vec![0u64; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate() {
        let mut c = 0u128;
        for (j, &y) in b.iter().enumerate() {
            let t = x as u128 * y as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
        r[i + b.len()] = c as u64;
    }
    norm(r)
}

pub fn add_limbs(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut r = vec![];
    let mut c = 0u128;
    for i in 0..a.len().max(b.len()) {
        let t = *a.get(i).unwrap_or(&0) as u128 + *b.get(i).unwrap_or(&0) as u128 + c;
        r.push(t as u64);
        c = t >> 64;
    }
    r.push(c as u64);
    norm(r)
}

/// a - 1 for a > 0
pub fn dec_limbs(a: &[u64]) -> Vec<u64> {
    let mut r = a.to_vec();
    for x in r.iter_mut() {
        if *x == 0 {
            *x = u64::MAX;
        } else {
            *x -= 1;
            break;
        }
    }
    norm(r)
}

/// A signed number: is it negative?, digits.
pub type Num = (bool, Vec<u64>);

pub fn num_json(neg: bool, limbs: &[u64]) -> String {
    format!(r#"{{"s":{},"d":{},"n":{}}}"#, neg as u8, dig(limbs), limbs.len())
}

/// Numbers in which every digit is one of few patterns, and their neighbours.
pub fn edge_nums() -> Vec<Vec<u64>> {
    let d = [0u64, 1, 2, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1];
    let mut v: Vec<Vec<u64>> = vec![vec![]];
    for &a in &d {
        v.push(vec![a]);
        for &b in &d {
            v.push(vec![b, a]);
        }
    }
    for &a in &[0u64, 1, u64::MAX, 1 << 63] {
        for &b in &[0u64, u64::MAX] {
            for &c in &[1u64, u64::MAX, 1 << 63] {
                v.push(vec![a, b, c]);
            }
        }
    }
    let mut v: Vec<Vec<u64>> = v.into_iter().map(norm).collect();
    v.sort();
    v.dedup();
    v
}

/// A part of the cases, with a choice of the manager for each (C10).
pub fn for_memory<C>(a: &Args, cases: Vec<C>, max: usize) -> Vec<(bool, C)> {
    let max = if a.thorough { max * 12 } else { max };
    let every = 1 + cases.len() / max;
    let first = a.seed as usize % every;
    cases
        .into_iter()
        .skip(first)
        .step_by(every)
        .enumerate()
        .map(|(i, c)| (i % 2 == 0, c))
        .collect()
}
