//! Records runs of the converter (C20), in process and as a process of its own.
use conform::{
    graph::{parse_result, Graph},
    json,
    mock::MockIo,
    *,
};
use nanvm_lib::{
    app::run,
    mem::global::{Global, GLOBAL},
    parser::{
        parser::{parse, Context},
        shared::ModuleCache,
    },
};
use std::{
    ffi::OsString,
    fs,
    os::unix::{ffi::OsStringExt, fs::symlink},
    path::Path,
    process::{Command, Stdio},
    time::{Duration, Instant},
};

#[derive(Clone)]
enum Content {
    Text(String),
    /// Not UTF-8.
    Bad,
    /// A directory, which cannot be read.
    Dir,
}

/// What is at the output path.
#[derive(Clone, Copy, PartialEq)]
enum Out {
    Plain,
    CannotCreate,
    /// It takes that many bytes and then fails.
    Limit(usize),
}

#[derive(Clone)]
struct Case {
    args: Vec<Vec<u8>>,
    files: Vec<(String, Content)>,
    fault: usize,
    out: Out,
    short: Option<usize>,
    real: bool,
    /// Runs that come before this one, in the same directory.
    earlier: Vec<[String; 2]>,
    /// Should it succeed?
    want: &'static str,
}

impl Case {
    fn arg(&self, i: usize) -> Option<String> {
        self.args.get(i).map(|a| String::from_utf8_lossy(a).to_string())
    }
    fn valid(&self) -> bool {
        self.args.iter().take(2).all(|a| std::str::from_utf8(a).is_ok())
    }
}

fn files(c: &Case) -> String {
    let files: Vec<String> = c
        .files
        .iter()
        .map(|(p, t)| match t {
            Content::Text(t) => format!(r#"{{"p":{},"ok":true,"t":{}}}"#, text(p), text(t)),
            _ => format!(r#"{{"p":{},"ok":false}}"#, text(p)),
        })
        .collect();
    format!(r#""files":[{}]"#, files.join(","))
}

fn input(c: &Case) -> String {
    let earlier: Vec<_> = c.earlier.iter().map(|[i, o]| format!("[{},{}]", text(i), text(o))).collect();
    format!(
        r#""args":[{}],"valid":{},"earlier":[{}],"want":"{}",{},"fault":{},"cfail":{},"real":{}"#,
        (0..c.args.len()).map(|i| text(&c.arg(i).unwrap())).collect::<Vec<_>>().join(","),
        c.valid(),
        earlier.join(","),
        c.want,
        // what the earlier runs leave is not known yet
        if c.earlier.is_empty() { files(c) } else { r#""chain":true"#.to_string() },
        c.fault,
        c.out == Out::CannotCreate,
        c.real
    )
}

fn bytes(c: &Content) -> Vec<u8> {
    match c {
        Content::Text(t) => t.as_bytes().to_vec(),
        _ => vec![b'1', 0xFF, 0xC0],
    }
}

fn mock(c: &Case) -> MockIo {
    let io = MockIo::default();
    {
        let mut fs = io.0.borrow_mut();
        for (p, t) in &c.files {
            fs.files.insert(p.clone(), bytes(t));
        }
        fs.args = vec!["nanvm".to_string()];
        fs.args.extend((0..c.args.len()).map(|i| c.arg(i).unwrap()));
        fs.fail_read = c.fault;
    }
    io
}

fn content(b: Option<&Vec<u8>>) -> String {
    match b.map(|b| std::str::from_utf8(b)) {
        None => r#"{"k":"none"}"#.to_string(),
        Some(Ok(t)) => format!(r#"{{"k":"text","t":{}}}"#, text(t)),
        Some(Err(_)) => r#"{"k":"bytes"}"#.to_string(),
    }
}

/// What the input module is.
fn loaded(c: &Case) -> String {
    let mut g = Graph::<Global>::default();
    let res = match c.arg(0) {
        None => r#"{"k":"none"}"#.to_string(),
        Some(root) => {
            let io = mock(c);
            let mut cache = ModuleCache::default();
            let r = parse(&mut Context::new(GLOBAL, &io, root, &mut cache));
            parse_result(&mut g, r)
        }
    };
    format!(r#""res":{res},"nodes":{}"#, g.nodes())
}

/// A path that names the same file, for the few paths that are used here.
fn plain(p: &str) -> String {
    p.replace("sub/../", "").replace("/./", "/").trim_start_matches("./").to_string()
}

struct Seen {
    ok: bool,
    msg: bool,
    creates: i64,
    wfail: bool,
    other: bool,
    before: Vec<(String, Vec<u8>)>,
    after: Vec<(String, Vec<u8>)>,
}

/// What the earlier runs leave.
fn after(c: &Case) -> Case {
    let mut c = c.clone();
    for args in std::mem::take(&mut c.earlier) {
        let io = mock(&c);
        io.0.borrow_mut().args = [&["nanvm".to_string()][..], &args[..]].concat();
        let _ = run(&io);
        let fs = io.0.borrow();
        c.files = fs
            .files
            .iter()
            .map(|(p, b)| (p.clone(), String::from_utf8(b.clone()).map_or(Content::Bad, Content::Text)))
            .collect();
    }
    c
}

fn exec(c: &Case) -> String {
    if !c.earlier.is_empty() {
        let c = after(c);
        return format!("{},{}", files(&c), exec(&c));
    }
    let s = if c.real { in_process_of_its_own(c) } else { in_process(c) };
    let output = c.arg(1).map(|o| plain(&o));
    let at = |v: &Vec<(String, Vec<u8>)>| content(v.iter().find(|(p, _)| Some(plain(p)) == output).map(|x| &x.1));
    // files other than the output
    let others = |v: &Vec<(String, Vec<u8>)>| v.iter().filter(|(p, _)| Some(plain(p)) != output).cloned().collect::<Vec<_>>();
    format!(
        r#""ok":{},"msg":{},"creates":{},"wfail":{},"other":{},"kept":{},"was":{},"now":{},{}"#,
        s.ok,
        s.msg,
        s.creates,
        s.wfail,
        s.other,
        others(&s.before) == others(&s.after),
        at(&s.before),
        at(&s.after),
        loaded(c)
    )
}

fn in_process(c: &Case) -> Seen {
    let io = mock(c);
    let all = |io: &MockIo| io.0.borrow().files.iter().map(|(p, b)| (p.clone(), b.clone())).collect::<Vec<_>>();
    {
        let mut fs = io.0.borrow_mut();
        fs.short = c.short;
        match c.out {
            Out::Plain => (),
            Out::CannotCreate => fs.fail_create = true,
            Out::Limit(n) => fs.limit = Some(n),
        }
    }
    let before = all(&io);
    let r = run(&io);
    let log = io.0.borrow().log.clone();
    let output = c.arg(1).unwrap_or_default();
    Seen {
        ok: r.is_ok(),
        msg: match r {
            Ok(()) => true,
            Err(e) => !e.to_string().is_empty(),
        },
        creates: log.iter().filter(|l| l.0 == "create" && l.2).count() as i64,
        wfail: log.iter().any(|l| l.0 == "write" && !l.2),
        other: log.iter().any(|l| l.0 == "other" || (l.0 != "read" && l.1 != output)),
        before,
        after: all(&io),
    }
}

fn tree(d: &Path, at: &str, out: &mut Vec<(String, Vec<u8>)>) {
    let mut v: Vec<_> = fs::read_dir(d).unwrap().map(|e| e.unwrap()).collect();
    v.sort_by_key(|e| e.file_name());
    for e in v {
        let p = format!("{at}{}", e.file_name().to_string_lossy());
        let t = e.file_type().unwrap();
        if t.is_dir() {
            out.push((format!("{p}/"), vec![]));
            tree(&e.path(), &format!("{p}/"), out);
        } else if t.is_symlink() {
            out.push((format!("{p}@"), vec![]));
        } else {
            out.push((p, fs::read(e.path()).unwrap()));
        }
    }
}

/// In a directory that is made for it and removed.
fn in_process_of_its_own(c: &Case) -> Seen {
    let dir = format!("{}/scratch-{}", std::env::var("VERIF_OUT").unwrap(), std::process::id());
    let dir = Path::new(&dir);
    let _ = fs::remove_dir_all(dir);
    fs::create_dir_all(dir.join("sub")).unwrap();
    for (p, t) in &c.files {
        let p = dir.join(p);
        match t {
            Content::Dir => fs::create_dir_all(p).unwrap(),
            t => {
                fs::create_dir_all(p.parent().unwrap()).unwrap();
                fs::write(p, bytes(t)).unwrap()
            }
        }
    }
    if let Out::Limit(_) = c.out {
        let p = dir.join(c.arg(1).unwrap());
        let _ = fs::remove_file(&p);
        symlink("/dev/full", p).unwrap();
    }
    let mut before = vec![];
    tree(dir, "", &mut before);
    let mut child = Command::new(std::env::var("NANVM").unwrap())
        .args(c.args.iter().map(|a| OsString::from_vec(a.clone())))
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let t = Instant::now();
    let status = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s,
            None if t.elapsed() > Duration::from_secs(60) => {
                let _ = child.kill();
                let _ = child.wait();
                panic!("hang");
            }
            None => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    let mut err = String::new();
    let _ = std::io::Read::read_to_string(&mut child.stderr.take().unwrap(), &mut err);
    let mut after = vec![];
    tree(dir, "", &mut after);
    fs::remove_dir_all(dir).unwrap();
    Seen {
        // ended by a signal is no exit code
        ok: status.code().expect("exit code") == 0,
        msg: !err.trim().is_empty(),
        creates: -1,
        wfail: matches!(c.out, Out::Limit(_)),
        other: false,
        before,
        after,
    }
}

// --- cases ---

const GOOD: &[&str] = &[
    "0",
    "null",
    "true",
    "\"\"",
    "[]",
    "{}",
    "{\"key\":[true,false,null]}",
    "[1,-0,2.5e-7,1e21,123456789.25,1e308]",
    "\"\\u0000\\n\\\"\\\\\\u001f\\u007fé😀\\u2028\"",
    "{\"b\":{\"a\":[]},\"a\":{},\"\":[[],[[]]]}",
    "[\"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\",\"b\"]",
    "[1e999,-1e999]",
    "export default [1,{a:2}]",
    "module.exports = {x:\"y\",z:[null]}",
];
const SHARED: &[&str] = &[
    "const a = [1]\nmodule.exports = [a,a]",
    "const a = {x:1}\nconst b = [a,a]\nexport default {p:b,q:b,r:a}",
    "const a = [1]\nexport default a",
    "const s = \"text\"\nmodule.exports = [s,s,[s]]",
];
const BIG: &[&str] = &["1n", "[-5n]", "module.exports = {a:[0n]}", "const a = 18446744073709551616n\nexport default [a,a]"];
const BAD: &[&str] = &["", "{", "[1", "01", "\"\\x\"", "[1,]]", "const a = 1", "export default b", "module.export = 1", "/* ", "'a'", "{\"a\" 1}"];
const LIBS: &[&str] = &[
    "const a = require(\"LIB\")\nmodule.exports = [a,a,1]",
    "import a from \"LIB\"\nexport default {x:a}",
    "import a from \"./LIB\"\nimport b from \"LIB\"\nexport default [a,b]",
    "const a = require(\"./LIB\")\nmodule.exports = a",
];

fn module(r: &mut Rng, kind: &str) -> Option<Content> {
    let t = |s: &str| Some(Content::Text(s.to_string()));
    match kind {
        "good" => t(*r.one_of(GOOD)),
        "shared" => t(*r.one_of(SHARED)),
        "big" => t(*r.one_of(BIG)),
        "bad" => t(*r.one_of(BAD)),
        "unreadable" => Some(if r.bool() { Content::Bad } else { Content::Dir }),
        _ => None,
    }
}

const OLD: &str = "old old old old old old old old old old old old old old old old old old old old old old";

fn build(r: &mut Rng, args: &[String], main: &str, lib: &str, fail: usize, cfail: bool, wfail: bool, real: bool) -> Option<Case> {
    let mut args = args.to_vec();
    let mut files: Vec<(String, Content)> = vec![];
    let input = args.first().cloned().unwrap_or("in.json".to_string());
    let (dir, name) = match input.rfind('/') {
        Some(i) => input.split_at(i + 1),
        None => ("", input.as_str()),
    };
    let dir = plain(dir);
    let name = name.to_string();
    let lib_name = *r.one_of(&["lib.json", "lib.d.cjs", "lib.d.mjs", "d/lib"]);
    let c = match main {
        "imports" => Some(Content::Text(r.one_of(LIBS).replace("LIB", lib_name))),
        "self" => Some(Content::Text(r.one_of(LIBS).replace("LIB", &name))),
        k => module(r, k),
    };
    if let Some(c) = c {
        files.push((input.clone(), c));
    }
    if main == "imports" {
        if let Some(c) = module(r, lib) {
            files.push((format!("{dir}{lib_name}"), c));
        }
    }
    let mut out = Out::Plain;
    if let Some(o) = args.get(1).cloned() {
        let taken = files.iter().any(|f| f.0 == o);
        if cfail {
            if real {
                if taken {
                    return None;
                }
                if r.bool() {
                    args[1] = format!("no/{o}");
                } else {
                    files.push((o, Content::Dir));
                }
            } else if !taken && r.bool() {
                files.push((o, Content::Text(OLD.to_string())));
            }
            out = Out::CannotCreate;
        } else if wfail {
            if real && taken {
                return None;
            }
            if !taken && r.bool() {
                files.push((o, Content::Text(OLD.to_string())));
            }
            out = Out::Limit(if real { 0 } else { *r.one_of(&[0, 0, 1, 2, 5, 20]) });
        } else if !taken && r.bool() {
            files.push((o, Content::Text(OLD.to_string())));
        }
    }
    if real && fail != 0 {
        return None;
    }
    if !real {
        for f in &mut files {
            if let Content::Dir = f.1 {
                f.1 = Content::Bad;
            }
        }
    }
    Some(Case {
        args: args.into_iter().map(|a| a.into_bytes()).collect(),
        files,
        fault: fail,
        out,
        short: if real { None } else { *r.one_of(&[None, None, Some(1), Some(3), Some(7)]) },
        real,
        earlier: vec![],
        want: "any",
    })
}

/// The behaviours that TLC generated.
fn behaviours(a: &Args, real: bool) -> Vec<Case> {
    let mut r = Rng::new(a.seed ^ 20);
    let mut v = vec![];
    for l in read_lines(&a.input) {
        let j = json::parse(&l);
        let args: Vec<String> = j.get("args").arr().iter().map(|x| x.str().to_string()).collect();
        let n = match (real, a.thorough) {
            (true, false) => 1,
            (true, true) => 6,
            (false, false) => 4,
            (false, true) => 40,
        };
        for _ in 0..n {
            v.extend(build(
                &mut r,
                &args,
                j.get("main").str(),
                j.get("lib").str(),
                j.get("fail").int() as usize,
                j.get("cfail").bool(),
                j.get("wfail").bool(),
                real,
            ));
        }
    }
    v
}

const INS: &[&str] = &[
    "in.json", "in", "in.d.cjs", "sub/in.d.mjs", "./in.json", "sub/../in.json", "sub/./x.json", "in.txt", "a b.json", "é.json", "-", "--help", "o.json", "",
];
const OUTS: &[&str] = &[
    "o.json", "o.d.cjs", "o.d.mjs", ".json", ".d.cjs", ".d.mjs", "sub/o.json", "sub/.d.mjs", "./o.d.cjs", "o.json.json", "o.d.cjs.json", "o.json.d.mjs",
    "é😀.json", "a b.d.cjs", "-.json", "--x.d.mjs",
    // invalid
    "", "o", "json", "d.cjs", "d.mjs", "o.cjs", "o.mjs", "o.js", "o.d.js", "o.JSON", "o.D.CJS", "o.json ", "o.json.", "o.d.cjs.txt", "o.jso", "ojson", "od.cjs",
    "o.d.cj", "o.dcjs", "o.d-cjs", "o.json5", "o.d.mjs/", "o.d.mjs\n", "json.txt", "o.ｊson",
];

fn random(a: &Args, real: bool) -> Vec<Case> {
    let mut r = Rng::new(a.seed ^ 21);
    let mut v = vec![];
    let n = match (real, a.thorough) {
        (true, false) => 1500,
        (true, true) => 20_000,
        (false, false) => 4000,
        (false, true) => 60_000,
    };
    for i in 0..n {
        let main = *r.one_of(&["good", "good", "shared", "shared", "big", "bad", "imports", "imports", "self", "missing", "unreadable"]);
        let lib = *r.one_of(&["good", "good", "shared", "big", "bad", "missing", "unreadable"]);
        let input = if real && r.below(3) > 0 { "in.json" } else { *r.one_of(INS) };
        // every output name
        let output = OUTS[i % OUTS.len()];
        let mut args = vec![input.to_string(), output.to_string()];
        match r.below(20) {
            0 => args.truncate(1),
            1 => args.push("third.json".to_string()),
            2 => args.extend(["a.json".to_string(), "b.d.cjs".to_string()]),
            _ => (),
        }
        let bad_path = |s: &str| s.is_empty() || s.ends_with('/');
        if real && args.iter().take(2).any(|s| bad_path(s)) {
            // no such file can be made
            if let Some(mut c) = build(&mut r, &["in.json".to_string(), "o.json".to_string()], main, lib, 0, false, false, real) {
                if !args[0].is_empty() {
                    args[0] = "in.json".to_string();
                }
                c.args = args.into_iter().map(|a| a.into_bytes()).collect();
                c.files.retain(|f| f.0 != "o.json");
                v.push(c);
            }
            continue;
        }
        let fault = if r.below(6) == 0 { 1 + r.below(3) } else { 0 };
        let (cf, wf) = (r.below(10) == 0, r.below(8) == 0);
        if let Some(mut c) = build(&mut r, &args, main, lib, fault, cf, wf, real) {
            if real && r.below(15) == 0 {
                let k = r.below(c.args.len().min(2));
                c.args[k].insert(0, 0xFF);
                // it is not reached, and there is no such place
                c.out = Out::Plain;
            }
            v.push(c);
        }
    }
    v
}

// --- several runs, one after another ---

const TEXTS: &[&str] = &["", "a", "é", "😀", "\\n", "\\u0000", "\\\"\\\\", "_0", "const", "\\u2028", "//", "/**/", "0", "export default"];
const NUMBERS: &[&str] = &["0", "-0", "1", "-1.5", "1e21", "1e-7", "5e-324", "1.7976931348623157e308", "0.1", "123456789012345680000", "1e999", "-1e999"];
const BIGS: &[&str] = &["0n", "-1n", "18446744073709551616n", "-340282366920938463463374607431768211455n"];

fn leaf(r: &mut Rng, big: bool) -> String {
    match r.below(if big { 6 } else { 5 }) {
        0 => r.one_of(&["null", "true", "false"]).to_string(),
        1 | 2 => format!("\"{}\"", r.one_of(TEXTS)),
        3 | 4 => r.one_of(NUMBERS).to_string(),
        _ => r.one_of(BIGS).to_string(),
    }
}

/// `n` constants; a value may use all before it.
fn compound(r: &mut Rng, n: usize, depth: usize, big: bool) -> String {
    if depth == 0 || r.below(4) == 0 {
        return if n > 0 && r.bool() { format!("_{}", r.below(n)) } else { leaf(r, big) };
    }
    let k = r.below(4);
    let mut items: Vec<String> = (0..k).map(|_| compound(r, n, depth - 1, big)).collect();
    if r.bool() {
        return format!("[{}]", items.join(","));
    }
    for i in &mut items {
        *i = format!("\"{}\":{i}", r.one_of(TEXTS));
    }
    format!("{{{}}}", items.join(","))
}

fn written_by_hand(r: &mut Rng, head: &str, imports: usize, big: bool, end: &str) -> String {
    let mut t = head.to_string();
    let n = imports + r.below(5);
    for i in imports..n {
        let v = compound(r, i, 2, big);
        t += &format!("const _{i} = {v}\n");
    }
    // everything is used
    let all: Vec<String> = (0..n).map(|i| format!("_{i}")).collect();
    let mut v = compound(r, n, 2, big);
    if big {
        v += ",1n";
    }
    t + end + &format!("[{}]", [all.as_slice(), &[v]].concat().join(","))
}

fn chain(a: &Args) -> Vec<Case> {
    let mut r = Rng::new(a.seed ^ 22);
    let mut v = vec![];
    let name = |s: &str| {
        match s {
            "plain" => "plain.mjs",
            "big" => "sub/big.cjs",
            "pair" => "pair.mjs",
            "mixed" => "sub/mixed.cjs",
            s => s,
        }
        .to_string()
    };
    let hand = |r: &mut Rng| {
        [
            ("plain", written_by_hand(r, "", 0, false, "export default ")),
            ("big", written_by_hand(r, "", 0, true, "module.exports = ")),
            ("pair", {
                let head = "import _0 from \"./y.d.cjs\"\nimport _1 from \"z.d.mjs\"\nimport _2 from \"sub/../y.d.cjs\"\n";
                written_by_hand(r, head, 3, false, "export default ")
            }),
            ("mixed", {
                let head = "const _0 = require(\"../x.json\")\nconst _1 = require(\"../y.d.cjs\")\nconst _2 = require(\"../sub/../x.json\")\n";
                written_by_hand(r, head, 3, false, "module.exports = ")
            }),
        ]
        .into_iter()
        .map(|(p, t)| (name(p), Content::Text(t)))
        .collect::<Vec<_>>()
    };
    let mut add = |files: &Vec<(String, Content)>, steps: &[[String; 2]], want, short| {
        let (last, earlier) = steps.split_last().unwrap();
        v.push(Case {
            args: last.iter().map(|a| a.clone().into_bytes()).collect(),
            files: files.clone(),
            fault: 0,
            out: Out::Plain,
            short,
            real: false,
            earlier: earlier.to_vec(),
            want,
        });
    };
    for l in read_lines(&a.input) {
        let j = json::parse(&l);
        let steps: Vec<_> = j
            .get("steps")
            .arr()
            .iter()
            .map(|s| [name(s.arr()[0].str()), name(s.arr()[1].str())])
            .collect();
        for _ in 0..if a.thorough { 8 } else { 1 } {
            let files = hand(&mut r);
            add(&files, &steps, if j.get("ok").bool() { "ok" } else { "err" }, *r.one_of(&[None, Some(5)]));
        }
    }
    // longer ones
    for _ in 0..if a.thorough { 3000 } else { 250 } {
        let files = hand(&mut r);
        let mut steps = vec![["plain.mjs".to_string(), name(*r.one_of(&["x.json", "y.d.cjs"]))]];
        // each of these makes what there is several times as large
        let mut left = 3;
        for _ in 0..2 + r.below(6) {
            let mut i = *r.one_of(&["x.json", "y.d.cjs", "z.d.mjs", "plain", "big", "pair", "mixed"]);
            if i == "pair" || i == "mixed" {
                if left == 0 {
                    i = "big";
                } else {
                    left -= 1;
                }
            }
            let i = name(i);
            steps.push([i, name(*r.one_of(&["x.json", "y.d.cjs", "y.d.cjs", "z.d.mjs", "z.d.mjs"]))]);
        }
        add(&files, &steps, "any", None);
    }
    v
}

fn main() {
    let a = args();
    let c = match a.mode.as_str() {
        "mock" => behaviours(&a, false),
        "real" => behaviours(&a, true),
        "randmock" => random(&a, false),
        "randreal" => random(&a, true),
        "chain" => chain(&a),
        m => panic!("mode {m}"),
    };
    drive(&a, c, input, exec);
}
