//! Records loads of modules (C04, C05, C06).
use conform::{graph::{parse_result, Graph}, json, mock::MockIo, value::NAMES, *};
use nanvm_lib::{
    js::js_bigint::from_u64,
    js::js_bigint::Sign,
    mem::{
        global::{Global, GLOBAL},
        manager::Manager,
    },
    parser::{
        parser::{parse, parse_with_tokens, Context},
        shared::{ModuleCache, ParseError, ParseResult},
    },
    tokenizer::{ErrorType, JsonToken},
};

#[derive(Clone)]
enum Content {
    Text(String),
    Bad,
}

#[derive(Clone)]
struct Load {
    root: String,
    fault: usize,
    toks: Option<Vec<Tok>>,
    /// are the tokens pushed one by one into the state of the parser?
    push: bool,
    /// files that change before this load (`None`: are removed)
    upd: Vec<(String, Option<Content>)>,
}

#[derive(Clone)]
struct Case {
    files: Vec<(String, Content)>,
    loads: Vec<Load>,
}

/// A token that is given to the parser directly.
#[derive(Clone, Copy)]
enum Tok {
    P(char),
    Id(&'static str),
    Str(&'static str),
    Num(u8),
    Big(u8),
    Nl,
    Err(usize),
}

const ERRS: [&str; 6] = [
    "UnexpectedCharacter",
    "InvalidToken",
    "InvalidNumber",
    "InvalidHex",
    "MissingQuotes",
    "CommentClosingExpected",
];

impl Tok {
    fn json(&self) -> String {
        match self {
            Tok::P(c) => format!(r#"{{"k":"p","c":{}}}"#, *c as u32),
            Tok::Id(s) => format!(r#"{{"k":"id","s":{}}}"#, text(s)),
            Tok::Str(s) => format!(r#"{{"k":"str","s":{}}}"#, text(s)),
            Tok::Num(n) => format!(r#"{{"k":"num","neg":false,"ds":[{n}],"fe":0,"eneg":false,"e":[]}}"#),
            Tok::Big(n) => format!(r#"{{"k":"big","neg":false,"ds":[{n}]}}"#),
            Tok::Nl => r#"{"k":"nl"}"#.to_string(),
            Tok::Err(i) => format!(r#"{{"k":"err","e":"{}"}}"#, ERRS[*i]),
        }
    }
    fn token<M: Manager>(&self, m: M) -> JsonToken<M::Dealloc> {
        match self {
            Tok::P(c) => match c {
                '{' => JsonToken::ObjectBegin,
                '}' => JsonToken::ObjectEnd,
                '[' => JsonToken::ArrayBegin,
                ']' => JsonToken::ArrayEnd,
                ':' => JsonToken::Colon,
                ',' => JsonToken::Comma,
                '=' => JsonToken::Equals,
                '.' => JsonToken::Dot,
                ';' => JsonToken::Semicolon,
                '(' => JsonToken::OpeningParenthesis,
                ')' => JsonToken::ClosingParenthesis,
                _ => unreachable!(),
            },
            Tok::Id(s) => JsonToken::Id(s.to_string()),
            Tok::Str(s) => JsonToken::String(s.to_string()),
            Tok::Num(n) => JsonToken::Number(*n as f64),
            Tok::Big(n) => JsonToken::BigInt(from_u64(m, Sign::Positive, *n as u64)),
            Tok::Nl => JsonToken::NewLine,
            Tok::Err(i) => JsonToken::ErrorToken(match i {
                0 => ErrorType::UnexpectedCharacter,
                1 => ErrorType::InvalidToken,
                2 => ErrorType::InvalidNumber,
                3 => ErrorType::InvalidHex,
                4 => ErrorType::MissingQuotes,
                _ => ErrorType::CommentClosingExpected,
            }),
        }
    }
}

fn input(c: &Case) -> String {
    let file = |p: &str, t: Option<&Content>| match t {
        Some(Content::Text(t)) => format!(r#"{{"p":{},"ok":true,"t":{}}}"#, text(p), text(t)),
        Some(Content::Bad) => format!(r#"{{"p":{},"ok":false}}"#, text(p)),
        None => format!(r#"{{"p":{},"gone":true}}"#, text(p)),
    };
    let files: Vec<String> = c.files.iter().map(|(p, t)| file(p, Some(t))).collect();
    let loads: Vec<String> = c
        .loads
        .iter()
        .map(|l| {
            let toks = match &l.toks {
                None => String::new(),
                Some(t) => format!(r#","toks":[{}]"#, t.iter().map(|t| t.json()).collect::<Vec<_>>().join(",")),
            };
            let upd = match l.upd.is_empty() {
                true => String::new(),
                false => format!(r#","upd":[{}]"#, l.upd.iter().map(|(p, t)| file(p, t.as_ref())).collect::<Vec<_>>().join(",")),
            };
            format!(r#"{{"root":{},"fault":{}{toks}{upd}}}"#, text(&l.root), l.fault)
        })
        .collect();
    format!(r#""files":[{}],"loads":[{}]"#, files.join(","), loads.join(","))
}

#[global_allocator]
static HOOK: conform::rec::Hook = conform::rec::Hook;

fn exec_memory(c: &(bool, Case)) -> String {
    use conform::rec::recorded;
    if c.0 {
        recorded::<&'static nanvm_lib::mem::local::Local, _>(|m| memory(m, &c.1)).1
    } else {
        recorded::<nanvm_lib::mem::global::Global, _>(|m| memory(m, &c.1)).1
    }
}

/// The loads, with the results kept to the end.
fn memory<M: conform::rec::Kind>(m: conform::rec::Rec<M>, c: &Case) {
    let io = files(c);
    let mut cache = ModuleCache::default();
    let mut results = vec![];
    for l in &c.loads {
        {
            let mut fs = io.0.borrow_mut();
            fs.reads = 0;
            fs.fail_read = l.fault;
        }
        update(&io, l);
        let mut context = Context::new(m, &io, l.root.clone(), &mut cache);
        results.push(match &l.toks {
            None => parse(&mut context),
            Some(t) if l.push => push(m, t),
            Some(t) => parse_with_tokens(&mut context, t.iter().map(|t| t.token(m))),
        });
    }
    // what was loaded outlives the cache, or the other way round
    if c.loads.len() % 2 == 0 {
        drop(cache);
        drop(results);
    } else {
        drop(results);
        drop(cache);
    }
}

/// The same without a loader; it is for tokens that load nothing. It builds a state of the parser from its parts,
/// so it is a feature: `check.py` goes on without it should the parts have changed.
#[cfg(not(feature = "push"))]
fn push<M: Manager + 'static>(m: M, tokens: &[Tok]) -> Result<ParseResult<M::Dealloc>, ParseError> {
    let io = MockIo::default();
    let mut cache = ModuleCache::default();
    parse_with_tokens(&mut Context::new(m, &io, "m.js".to_string(), &mut cache), tokens.iter().map(|t| t.token(m)))
}
#[cfg(feature = "push")]
fn push<M: Manager + 'static>(m: M, tokens: &[Tok]) -> Result<ParseResult<M::Dealloc>, ParseError> {
    use nanvm_lib::parser::{
        json_state::JsonState,
        root_state::{RootState, RootStatus},
    };
    let mut state = JsonState::ParseRoot(RootState {
        status: RootStatus::Initial,
        state: Default::default(),
        new_line: true,
    });
    for t in tokens {
        let import;
        (state, import) = state.push(m, t.token(m));
        assert!(import.is_none());
    }
    state.end()
}

fn bytes(t: &Content) -> Vec<u8> {
    match t {
        Content::Text(t) => t.as_bytes().to_vec(),
        Content::Bad => vec![b'1', 0xFF, 0xC0],
    }
}

fn files(c: &Case) -> MockIo {
    let io = MockIo::default();
    for (p, t) in &c.files {
        io.0.borrow_mut().files.insert(p.clone(), bytes(t));
    }
    io
}

fn update(io: &MockIo, l: &Load) {
    let mut fs = io.0.borrow_mut();
    for (p, t) in &l.upd {
        match t {
            Some(t) => fs.files.insert(p.clone(), bytes(t)),
            None => fs.files.remove(p),
        };
    }
}

fn exec(c: &Case) -> String {
    let io = files(c);
    let mut cache: ModuleCache<Global> = ModuleCache::default();
    let mut g = Graph::default();
    let mut out = vec![];
    for l in &c.loads {
        {
            let mut fs = io.0.borrow_mut();
            fs.reads = 0;
            fs.fail_read = l.fault;
            fs.log.clear();
        }
        update(&io, l);
        let r = {
            let mut context = Context::new(GLOBAL, &io, l.root.clone(), &mut cache);
            match &l.toks {
                None => parse(&mut context),
                Some(t) if l.push => push(GLOBAL, t),
                Some(t) => parse_with_tokens(&mut context, t.iter().map(|t| t.token(GLOBAL))),
            }
        };
        let res = parse_result(&mut g, r);
        let reads: Vec<String> = io
            .reads()
            .iter()
            .map(|(p, ok)| format!(r#"{{"p":{},"ok":{}}}"#, text(p), bool_json(*ok)))
            .collect();
        let cached: Vec<String> = cache
            .complete
            .iter()
            .map(|(p, v)| format!(r#"{{"p":{},"v":{}}}"#, text(p), g.value(v)))
            .collect();
        out.push(format!(
            r#"{{"res":{res},"reads":[{}],"cache":[{}],"progress":[{}]}}"#,
            reads.join(","),
            cached.join(","),
            cache.progress.iter().map(|p| text(p)).collect::<Vec<_>>().join(",")
        ));
    }
    format!(r#""r":[{}],"nodes":{}"#, out.join(","), g.nodes())
}

// --- cases ---

fn load(root: &str) -> Load {
    Load {
        root: root.to_string(),
        fault: 0,
        toks: None,
        push: false,
            upd: vec![],
    }
}

/// A module with a few other modules at hand.
fn single(t: String) -> Case {
    let f = |s: &str| Content::Text(s.to_string());
    let mut files = vec![("m.js".to_string(), Content::Text(t.clone()))];
    if t.contains("import") || t.contains("require") {
        files.push(("b".to_string(), f("[\"b\"]")));
        files.push(("x".to_string(), f("const a = {x:[]}\nmodule.exports = [a, a]")));
        files.push(("\"".to_string(), f("0")));
    }
    Case {
        files,
        loads: vec![load("m.js")],
    }
}

fn statements(t: &str) -> bool {
    ["const", "import", "export", "module", "require"].iter().any(|w| t.contains(w))
}

const WORDS: &[&str] = &[
    "{", "}", "[", "]", ":", ",", "=", ";", "(", ")", ".", "const", "export", "default", "module", "exports", "import", "from",
    "require", "null", "true", "false", "a", "b", "$c", "7", "-0", "1.5", "1e400", "-2n", "0n", "\"b\"", "\"x\"", "\"\"", "\"é😀\"", "#", "\n", "\n\n", "//c\n", "/*\n*/",
];

/// The texts that TLC generated for the steps of the machine, each followed by other words.
fn generated(a: &Args, with: bool) -> Vec<Case> {
    let mut r = Rng::new(a.seed ^ 4);
    let mut v = vec![];
    for l in read_lines(&a.input) {
        let t: String = parse_ints(&l).iter().map(|&c| char::from_u32(c as u32).unwrap()).collect();
        if statements(&t) != with {
            continue;
        }
        let n = if a.thorough { 4 } else { 1 };
        for _ in 0..n {
            if r.below(if with { 6 } else { 2 }) == 0 || a.thorough {
                v.push(single(format!("{t} {} {}", r.one_of(WORDS), r.one_of(WORDS))));
            }
        }
        v.push(single(t));
    }
    v
}

struct Writer<'a> {
    r: &'a mut Rng,
    words: Vec<String>,
    consts: Vec<&'static str>,
    ids: bool,
    require: bool,
}

impl Writer<'_> {
    fn w(&mut self, s: &str) {
        self.words.push(s.to_string());
    }
    fn nl(&mut self) {
        if self.r.below(8) == 0 {
            let s = *self.r.one_of(&["\n", "\n\n", "//c\n", "/*\n*/", "/* */"]);
            self.w(s);
        }
    }
    fn value(&mut self, depth: usize) {
        self.nl();
        let r = self.r.below(if depth == 0 { 6 } else { 11 });
        match r {
            0 => {
                let s = *self.r.one_of(&["null", "true", "false"]);
                self.w(s)
            }
            1 => {
                let s = *self.r.one_of(&["0", "-0", "1", "2.5", "-7e2", "1e400", "123456789012345678901", "0.1", "-1e-400"]);
                self.w(s)
            }
            2 => {
                let s = *self.r.one_of(&["\"\"", "\"a\"", "\"b c\"", "\"\\n\\u0041\"", "\"é\"", "\"😀\"", "\"\\uD83D\\uDE00\"", "\"null\"", "\"{\""]);
                self.w(s)
            }
            3 => {
                let s = *self.r.one_of(&["0n", "1n", "-1n", "18446744073709551616n", "-340282366920938463463374607431768211455n"]);
                self.w(s)
            }
            4 | 5 if !self.consts.is_empty() => {
                let c = *self.r.one_of(&self.consts.clone());
                self.w(c)
            }
            4 => self.w("null"),
            5 | 6 if self.require && self.r.bool() => {
                self.w("require");
                self.w("(");
                let s = *self.r.one_of(&["\"b\"", "\"x\"", "\"x\"", "\"./x\"", "\"none\""]);
                self.w(s);
                self.w(")");
            }
            7 | 8 => {
                self.w("{");
                let n = self.r.below(5);
                for i in 0..n {
                    self.nl();
                    let named = self.r.below(6) == 0;
                    let k = match self.ids && self.r.bool() {
                        true if named => self.r.one_of(NAMES).to_string(),
                        false if named => format!("\"{}\"", self.r.one_of(NAMES)),
                        true => self.r.one_of(&["a", "b", "$c", "null", "const", "require", "z9", "_"]).to_string(),
                        false => self.r.one_of(&["\"a\"", "\"b\"", "\"\"", "\"A\"", "\"ab\"", "\"é\"", "\"😀\"", "\"\u{FFFF}\"", "\"null\"", "\"0\"", "\"10\""]).to_string(),
                    };
                    self.w(&k);
                    self.w(":");
                    self.value(depth - 1);
                    self.nl();
                    if i + 1 < n || self.r.below(4) == 0 {
                        self.w(",");
                    }
                }
                self.w("}");
            }
            _ => {
                self.w("[");
                let n = self.r.below(5);
                for i in 0..n {
                    self.value(depth.saturating_sub(1));
                    self.nl();
                    if i + 1 < n || self.r.below(4) == 0 {
                        self.w(",");
                    }
                }
                self.w("]");
            }
        }
    }
    fn end(&mut self) {
        let s = *self.r.one_of(&["\n", "\n", "\n", ";", ";\n", "\n;", "//c\n", ""]);
        self.w(s);
    }
    fn module(&mut self) {
        let esm = self.r.bool();
        self.require = !esm || self.r.below(8) == 0;
        if self.r.below(4) == 0 {
            self.w("\n");
        }
        for _ in 0..self.r.below(5) {
            let name = *self.r.one_of(&[
                "a", "b", "$c", "_d", "a", "b", "$c", "_d", "exports", "from", "default", "null", "true", "false", "const", "import", "export",
                "module", "require",
            ]);
            let name = if self.r.below(6) == 0 { *self.r.one_of(NAMES) } else { name };
            if esm && self.r.below(3) == 0 {
                let m = *self.r.one_of(&["\"b\"", "\"x\"", "\"x\"", "\"none\""]);
                for s in ["import", name, "from", m] {
                    self.w(s);
                }
            } else {
                for s in ["const", name, "="] {
                    self.w(s);
                }
                self.ids = true;
                self.value(2);
            }
            self.end();
            self.consts.push(name);
        }
        match self.r.below(4) {
            0 => {}
            _ if esm => {
                self.w("export");
                self.w("default");
            }
            _ => {
                for s in ["module", ".", "exports", "="] {
                    self.w(s);
                }
            }
        }
        self.ids = true;
        self.value(3);
        if self.r.below(4) == 0 {
            let s = *self.r.one_of(&["\n", " ", "//c", "/**/\n", ";"]);
            self.w(s);
        }
    }
    fn mutate(&mut self) {
        let n = self.words.len();
        if n == 0 {
            return;
        }
        let i = self.r.below(n);
        match self.r.below(6) {
            0 => {
                self.words.remove(i);
            }
            1 if self.r.below(4) == 0 => {
                let w = self.r.one_of(NAMES).to_string();
                self.words.insert(i, w);
            }
            1 => {
                let w = self.r.one_of(WORDS).to_string();
                self.words.insert(i, w);
            }
            2 => {
                self.words[i] = self.r.one_of(WORDS).to_string();
            }
            3 => {
                let j = self.r.below(n);
                self.words.swap(i, j);
            }
            4 => self.words.truncate(i),
            _ => {
                let w = self.words[i].clone();
                self.words.insert(i, w);
            }
        }
    }
    fn text(&mut self) -> String {
        let mut s = String::new();
        for w in &self.words {
            // words that would melt
            let sep = match (s.chars().last(), w.chars().next()) {
                (Some(a), Some(b)) => (a.is_alphanumeric() || "_$".contains(a)) && (b.is_alphanumeric() || "_$\".-".contains(b)) || "/".contains(a),
                _ => false,
            };
            if sep || self.r.below(3) == 0 {
                s.push(' ');
            }
            s.push_str(w);
        }
        s
    }
}

fn random(a: &Args, module: bool) -> Vec<Case> {
    let mut r = Rng::new(a.seed ^ if module { 5 } else { 6 });
    let n = if a.thorough { 60_000 } else { 5_000 };
    let mut v = names(module);
    for _ in 0..n {
        let mut w = Writer {
            r: &mut r,
            words: vec![],
            consts: vec![],
            ids: false,
            require: false,
        };
        if module {
            w.module();
        } else {
            let d = 1 + w.r.below(4);
            w.value(d);
        }
        for _ in 0..[0, 0, 1, 1, 2][w.r.below(5)] {
            w.mutate();
        }
        let t = w.text();
        v.push(single(t));
    }
    // deep and long ones: around the powers of two, where a small counter ends
    for d in [10usize, 60, 200, 255, 256, 257, 300, 600, 1025].into_iter().chain(if a.thorough { vec![2049, 4097] } else { vec![] }) {
        v.push(single(format!("{}{}", "[".repeat(d), "]".repeat(d))));
        v.push(single(format!("{}{}", "[".repeat(d), "]".repeat(d - 1))));
        v.push(single(format!("{}1{}", "{\"a\":".repeat(d), "}".repeat(d))));
        v.push(single(format!("{}1{}", "[{\"a\":[".repeat(d / 3), "]}]".repeat(d / 3))));
        v.push(single(format!("[{}]", "1,".repeat(d))));
        v.push(single(format!("{{{}}}", (0..d).map(|i| format!("\"k{}\":{i},", i * 7 % d)).collect::<String>())));
        if module {
            let t: String = (1..d).map(|i| format!("const a{i} = [a{},a{}]\n", i - 1, i / 2)).collect();
            v.push(single(format!("const a0 = {{}}\n{t}[a{}]", d - 1)));
        }
    }
    v
}

/// Each name in each place where a name, a word or a text can stand.
fn names(with: bool) -> Vec<Case> {
    let places = [
        "N", " N ", "[N]", "[N,N]", "{N:N}", "{N:1}", "{\"N\":1}", "{\"N\":{\"N\":[]},\"a\":2}", "{\"a\":1,\"N\":2,\"N\":3}", "\"N\"", "[\"N\",\"a\"]", "-N", "N 1", "N\"x\"",
        "{\"a\":N}", "1N", "N()", "N.a", "N=1", "N:1", "{\"n\":\"N\"}",
        "const N = 1\nN", "const N = [1]\n[N,N]", "const N = {N:1}\nexport default N", "const a = 1;const N = \"N\";[a,N]", "const N = N\nN", "const N = 1\n{N:N}",
        "const N = null\nconst N = true\n[N]", "const a = {N:[]}\nconst b = {a:a,N:a}\nmodule.exports = [b.a,N]", "const a = {N:[]}\nconst b = {a:a,N:a}\nmodule.exports = [b,a]",
        "import N from \"b\"\nexport default N", "import N from \"b\"\nexport default [N,{N:N}]", "import N from \"N\"\nexport default {\"N\":N}", "const a = require(\"N\")\nmodule.exports = [a,require(\"N\")]",
        "module.exports = {N:require(\"x\"),a:N}", "const N = require(\"x\")\nmodule.exports = {N:N}", "require(\"N\")", "export N", "export N 1", "export default N", "module.N = 1", "module.exports = N",
        "N default 1", "N.exports = 1", "import N", "import a N \"b\"\nexport default a", "N a = 1\na", "N a from \"b\"\nexport default a", "const N = 1 N", "const N", "{N}", "{N N:1}", "[N N]",
    ];
    let mut v = vec![];
    for n in NAMES {
        for p in places {
            let t = p.replace('N', n);
            if statements(&t) != with {
                continue;
            }
            let mut c = single(t);
            if p.contains("\"N\"") && with && !c.files.iter().any(|f| f.0 == *n) {
                c.files.push((n.to_string(), Content::Text(format!("[\"{n}\",7]"))));
            }
            if with && p.starts_with("import") {
                c.loads.push(load("m.js"));
            }
            v.push(c);
        }
    }
    v
}

const TOKS: &[Tok] = &[
    Tok::P('{'), Tok::P('}'), Tok::P('['), Tok::P(']'), Tok::P(':'), Tok::P(','), Tok::P('='), Tok::P(';'), Tok::P('('), Tok::P(')'), Tok::P('.'),
    Tok::Id("const"), Tok::Id("export"), Tok::Id("default"), Tok::Id("module"), Tok::Id("exports"), Tok::Id("import"), Tok::Id("from"),
    Tok::Id("require"), Tok::Id("null"), Tok::Id("true"), Tok::Id("a"), Tok::Id("b"), Tok::Id(""), Tok::Id("é"), Tok::Str("b"), Tok::Str("x"), Tok::Str(""),
    Tok::Num(7), Tok::Big(3), Tok::Nl, Tok::Err(0), Tok::Err(1), Tok::Err(2), Tok::Err(3), Tok::Err(4), Tok::Err(5),
];

/// Token sequences that no text gives: all short ones, and random ones after sensible beginnings.
fn tokens(a: &Args) -> Vec<Case> {
    let base = single("require".to_string()).files;
    let case = |t: Vec<Tok>| {
        let load = |push| Load {
            root: "m.js".to_string(),
            fault: 0,
            toks: Some(t.clone()),
            push,
            upd: vec![],
        };
        let loads_modules = t.iter().any(|x| matches!(x, Tok::Id("import" | "require")));
        Case {
            files: base[1..].to_vec(),
            loads: [false, true][..if loads_modules { 1 } else { 2 }].iter().map(|p| load(*p)).collect(),
        }
    };
    let mut v = vec![case(vec![])];
    for &x in TOKS {
        v.push(case(vec![x]));
        for &y in TOKS {
            v.push(case(vec![x, y]));
        }
    }
    let begins: &[&[Tok]] = &[
        &[],
        &[Tok::P('[')],
        &[Tok::P('['), Tok::P('{'), Tok::Str("a"), Tok::P(':')],
        &[Tok::Id("const"), Tok::Id("a"), Tok::P('='), Tok::P('['), Tok::P(']'), Tok::Nl],
        &[Tok::Id("const"), Tok::Id("a"), Tok::P('=')],
        &[Tok::Id("const"), Tok::Id(""), Tok::P('='), Tok::Num(1), Tok::P(';'), Tok::P('[')],
        &[Tok::Id("import"), Tok::Id("a"), Tok::Id("from"), Tok::Str("x"), Tok::Nl],
        &[Tok::Id("module"), Tok::P('.'), Tok::Id("exports"), Tok::P('=')],
        &[Tok::Id("const"), Tok::Id("a"), Tok::P('='), Tok::P('{'), Tok::Id("a"), Tok::P(':'), Tok::P('['), Tok::Num(1), Tok::P(',')],
        &[Tok::Id("const"), Tok::Id("a"), Tok::P('='), Tok::P('['), Tok::P(']'), Tok::Nl, Tok::P('['), Tok::Id("a"), Tok::P(',')],
        &[Tok::Id("export"), Tok::Id("default")],
        &[Tok::P('['), Tok::Id("require"), Tok::P('('), Tok::Str("x")],
    ];
    let mut r = Rng::new(a.seed ^ 7);
    for _ in 0..if a.thorough { 40_000 } else { 3_000 } {
        let mut t = r.one_of(begins).to_vec();
        for _ in 0..1 + r.below(6) {
            t.push(*r.one_of(TOKS));
        }
        v.push(case(t));
    }
    v
}

fn behaviours(a: &Args) -> Vec<Case> {
    let file = |f: &json::J| {
        let c = match (f.find("gone").is_some(), f.find("t").is_some()) {
            (true, _) => None,
            (_, true) => Some(Content::Text(f.get("t").text())),
            _ => Some(Content::Bad),
        };
        (f.get("p").text(), c)
    };
    read_lines(&a.input)
        .iter()
        .map(|l| {
            let j = json::parse(l);
            Case {
                files: j.get("files").arr().iter().map(file).filter_map(|(p, c)| c.map(|c| (p, c))).collect(),
                loads: j
                    .get("loads")
                    .arr()
                    .iter()
                    .map(|l| Load {
                        root: l.get("root").text(),
                        fault: l.get("fault").int() as usize,
                        toks: None,
                        push: false,
                        upd: l.get("upd").arr().iter().map(file).collect(),
                    })
                    .collect(),
            }
        })
        .collect()
}

/// Random file systems with directories.
fn systems(a: &Args) -> Vec<Case> {
    let mut r = Rng::new(a.seed ^ 8);
    let plain: &[&str] = &["a.js", "b.js", "d/a.js", "d/c.js", "d/e/f.js", "../u.js", "/r/s.js", "d/b"];
    // names that are near to each other, or that mean something elsewhere
    let odd: &[&[&str]] = &[
        &["a.js", "a", "A.js", "a.JS", "a.json", "a.cjs", "a.mjs", "a.js.js", "a/index.js", "index.js", "a.djs"],
        &["a", " a", "a ", " ", "a\t", "d/ a", "d /a", "d/a", "d/", "\u{A0}a", "a\u{3000}"],
        &["C:/a", "C:a", "a:b", "http:/a/b", "node:fs", "file:/a", "/C:/a", "a", "~", "~/a", "$a/b"],
        &["a?b", "a#b", "a", "a%20b", "a b", "%2e%2e/a", "a&b", "d/a?x=/b", "d/a;b", "a*"],
        &["é", "e\u{301}", "É", "😀/a", "d/😀", "\u{FEFF}a", "a", "\u{FFFF}", "К/к", "ｂ"],
        &["node_modules/a", "a", "d/node_modules/a", "d/a", "d/e/a", "package.json", "d/package.json", "@s/a", "#a"],
        &["...", "../...", "a...", ".a", "d/.a", "d/..a", "d./a", "d../a", "..d/a", "-", "--a"],
        &["d/a", "d-a", "d.a", "d", "da", "d/a/b", "dd/a", "d/d/a", "a/d", "d0/a"],
    ];
    let mut v = vec![];
    for _ in 0..if a.thorough { 30_000 } else { 2_500 } {
        let mut names = plain.to_vec();
        if r.below(4) == 0 {
            let mut rest = r.one_of(odd).to_vec();
            names.clear();
            while names.len() < 8 && !rest.is_empty() {
                names.push(rest.swap_remove(r.below(rest.len())));
            }
        }
        let n = 2 + r.below(names.len() - 1);
        let mut files = vec![];
        // references mostly forward, so that many systems load
        let forward = r.below(3) > 0;
        for i in 0..n {
            if r.below(14) == 0 {
                if r.bool() {
                    files.push((names[i].to_string(), Content::Bad));
                }
                continue;
            }
            let dir: Vec<&str> = names[i].split('/').collect();
            let up = dir.len() - 1;
            let refs: Vec<String> = (0..r.below(4))
                .map(|_| {
                    let j = match forward && i + 1 < n && r.below(12) > 0 {
                        true => i + 1 + r.below(n - i - 1),
                        false => r.below(names.len()),
                    };
                    let target = names[j];
                    // a way from the directory of module i to the target
                    let rel = match (names[i].starts_with('/'), target.starts_with('/')) {
                        (true, true) => target.rsplit('/').next().unwrap().to_string(),
                        (_, false) if names[i].starts_with("../") => format!("w/{target}"),
                        _ => format!("{}{target}", "../".repeat(up)),
                    };
                    match r.below(6) {
                        0 => format!("./{rel}"),
                        1 => format!("x/../{rel}"),
                        2 => rel.replace('/', "//"),
                        _ => rel,
                    }
                })
                .collect();
            // names, perhaps the same again, so that the last import counts
            let pool = ["p", "q", "r", "true", "default", "require"];
            let ids: Vec<&str> = (0..3).map(|_| if r.below(3) == 0 { *r.one_of(&pool) } else { *r.one_of(&pool[..3]) }).collect();
            let fresh = r.bool();
            let id = |k: usize| if fresh { pool[k] } else { ids[k] };
            let end = ["", " }", "\n"][if r.below(14) == 0 { 1 } else { 0 }];
            let t = match r.below(3) {
                0 => {
                    let imports: String = refs.iter().enumerate().map(|(k, x)| format!("import {} from \"{x}\"\n", id(k))).collect();
                    let items: Vec<&str> = (0..refs.len()).map(id).collect();
                    format!("{imports}export default [{}, {i}]{end}", items.join(","))
                }
                1 => {
                    let consts: String = refs.iter().enumerate().map(|(k, x)| format!("const {} = require(\"{x}\");", id(k))).collect();
                    let items: Vec<String> = (0..refs.len()).map(|k| format!("{}:{}", id(k), id(k))).collect();
                    format!("{consts}module.exports = {{{}}}{end}", items.join(","))
                }
                _ => {
                    let items: Vec<String> = refs
                        .iter()
                        .map(|x| {
                            let mut s = format!("require(\"{x}\")");
                            for _ in 0..r.below(5) {
                                s = match r.below(6) {
                                    0 => format!("[{s}]"),
                                    1 => format!("{{\"a\":{s}}}"),
                                    2 => format!("[1,{s}]"),
                                    3 => format!("{{\"b\":[],\"a\":{s},}}"),
                                    4 => format!("[{{}},{s},[]]"),
                                    _ => format!("{{\"a\":{s},\"c\":{{}}}}"),
                                };
                            }
                            s
                        })
                        .collect();
                    match items.len() {
                        1 if r.bool() => format!("{}{end}", items[0]),
                        _ => format!("[{}]{end}", items.join(",")),
                    }
                }
            };
            files.push((names[i].to_string(), Content::Text(t)));
        }
        // files change between the loads
        let changes = r.below(3) == 0;
        let mut loads: Vec<Load> = (0..1 + r.below(4) + if changes { 2 } else { 0 })
            .map(|_| {
                let root = names[r.below(n)];
                Load {
                    root: match r.below(10) {
                        0 => format!("./{root}"),
                        _ => root.to_string(),
                    },
                    fault: if r.below(4) == 0 { 1 + r.below(4) } else { 0 },
                    toks: None,
                    push: false,
            upd: vec![],
                }
            })
            .collect();
        if changes {
            for (k, l) in loads.iter_mut().enumerate().skip(1) {
                for _ in 0..r.below(3) {
                    let c = match r.below(8) {
                        0 => None,
                        1 => Some(Content::Bad),
                        2 => Some(Content::Text("[{]".to_string())),
                        3 | 4 => Some(Content::Text(format!("[\"new\", {k}]"))),
                        5 => Some(Content::Text(format!("[require(\"{}\"), {k}]", r.one_of(&names)))),
                        6 => Some(Content::Text(format!("import p from \"./{}\"\nexport default [p, {k}]", r.one_of(&names)))),
                        _ if files.is_empty() => None,
                        _ => Some(r.one_of(&files).1.clone()),
                    };
                    l.upd.push((r.one_of(&names).to_string(), c));
                }
            }
        }
        v.push(Case { files, loads });
    }
    v
}

/// Long chains of modules, and modules with many references.
fn chains(a: &Args) -> Vec<Case> {
    let mut v = vec![];
    let load = |root: &str| Load {
        root: root.to_string(),
        fault: 0,
        toks: None,
        push: false,
            upd: vec![],
    };
    for n in [9usize, 17, 33, 70].into_iter().chain(if a.thorough { vec![130, 300] } else { vec![] }) {
        // the last one: nothing, missing, malformed, the first one, the one before
        for last in 0..5 {
            for esm in [false, true] {
                let files: Vec<(String, Content)> = (0..n)
                    .filter(|&i| !(last == 1 && i + 1 == n))
                    .map(|i| {
                        let to = match (i + 1 == n, last) {
                            (false, _) => format!("m{}", i + 1),
                            (_, 3) => "m0".to_string(),
                            (_, 4) => format!("m{}", n - 2),
                            _ => "".to_string(),
                        };
                        let t = match (to.as_str(), esm) {
                            ("", _) => ["[]", "", "["][last].to_string(),
                            (to, true) => format!("import a from \"./{to}\"\nexport default [{i},a]"),
                            (to, false) => format!("const a = require(\"{to}\")\nmodule.exports = {{a:a,b:require(\"x/../{to}\")}}"),
                        };
                        (format!("m{i}"), Content::Text(t))
                    })
                    .collect();
                let loads = vec![load("m0"), load(&format!("m{}", n / 2)), load("m0")];
                if last == 0 || last == 2 {
                    // the last one is repaired, or the middle one breaks
                    let mut loads = loads.clone();
                    loads[1].upd.push((format!("m{}", n - 1), Some(Content::Text("[true]".to_string()))));
                    loads[2].upd.push((format!("m{}", n / 2), Some(Content::Bad)));
                    loads.push(load(&format!("m{}", n / 2 + 1)));
                    let files = files.clone();
                    v.push(Case { files, loads });
                }
                v.push(Case { files, loads });
            }
        }
        // one module that refers to all others
        for esm in [false, true] {
            let mut files: Vec<(String, Content)> = (0..n).map(|i| (format!("d/m{i}"), Content::Text(format!("[{i}]")))).collect();
            let t = match esm {
                true => {
                    let s: String = (0..n).map(|i| format!("import a{i} from \"d/m{i}\"\n")).collect();
                    format!("{s}export default [{}]", (0..n).map(|i| format!("a{}", i * 5 % n)).collect::<Vec<_>>().join(","))
                }
                false => format!("[{}]", (0..2 * n).map(|i| format!("require(\"d/m{}\")", i * 5 % n)).collect::<Vec<_>>().join(",")),
            };
            files.push(("r".to_string(), Content::Text(t)));
            v.push(Case {
                files,
                loads: vec![load("r"), load("d/m1"), load("r")],
            });
        }
    }
    v
}

fn main() {
    let a = args();
    if a.mode == "memory" {
        let mut c: Vec<Case> = vec![];
        for v in [random(&a, false), random(&a, true), systems(&a), tokens(&a)] {
            c.extend(v);
        }
        let c = for_memory(&a, c, 2000);
        return drive(&a, c, |c| input(&c.1), exec_memory);
    }
    let cases = match a.mode.as_str() {
        "values" => generated(&a, false),
        "modules" => generated(&a, true),
        "randvalues" => random(&a, false),
        "randmodules" => random(&a, true),
        "tokens" => tokens(&a),
        "behaviours" => behaviours(&a),
        "systems" => {
            let mut v = chains(&a);
            v.extend(systems(&a));
            v
        }
        _ => panic!(),
    };
    drive(&a, cases, input, exec);
}
