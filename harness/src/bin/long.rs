//! Records runs on long texts, which are told as runs of pieces (C01, C03, C07, C08).
use conform::{mock::MockIo, *};
use nanvm_lib::{
    js::{
        any::Any,
        js_array::{new_array, JsArrayRef},
        js_object::{new_object, JsObjectRef},
        js_string::{new_string, JsStringRef},
    },
    mem::global::{Global, GLOBAL},
    parser::{
        parser::{parse, Context},
        shared::ModuleCache,
    },
    serializer::{to_djs::to_djs, to_json::to_json},
    tokenizer::{tokenize, JsonToken},
};

#[path = "../tok.rs"]
mod tok;
use tok::token;

/// A piece of text, the size of what it denotes, and a class: pieces of a class begin alike.
type Piece = (&'static str, usize, u8);

const STR: &[Piece] = &[
    ("a", 1, 0),
    ("b", 1, 1),
    ("\n", 1, 2),
    ("\\n", 1, 2),
    (" ", 1, 3),
    ("\u{80}", 1, 4),
    ("é", 1, 5),
    ("€", 1, 6),
    ("\u{FFFF}", 1, 7),
    ("😀", 1, 8),
    ("\\ud83d\\ude00", 1, 8),
    ("\\\"", 1, 9),
    ("\\\\", 1, 10),
    ("\\/", 1, 11),
    ("\\u0041", 1, 12),
];
const ID: &[Piece] = &[("a", 1, 0), ("Z", 1, 1), ("_", 1, 2), ("$", 1, 3), ("0", 1, 4), ("9b", 2, 5)];
const MIX: &[Piece] = &[
    ("[", 1, 0),
    ("{", 1, 1),
    (",", 1, 2),
    (";", 1, 3),
    ("#", 1, 4),
    ("@.", 2, 4),
    (" ", 0, 5),
    ("\t", 0, 6),
    ("1 ", 1, 7),
    ("-0 ", 1, 8),
    ("2n ", 1, 9),
    ("\"\"", 1, 10),
    ("\"a\"", 1, 11),
    ("x ", 1, 12),
    ("/*x*/", 0, 13),
    ("/**/", 0, 14),
    ("12x ", 2, 15),
];
const NOTE: &[Piece] = &[("a", 0, 0), ("/", 0, 1), ("\n", 0, 2), ("\"", 0, 3), ("*a", 0, 4), ("é", 0, 5)];
/// Pieces of values: strings of UTF-16 units.
const VAL: &[Piece] = &[
    ("a", 1, 0),
    ("\"", 1, 1),
    ("\\", 1, 2),
    ("\n", 1, 3),
    ("\u{1}", 1, 4),
    ("\u{7F}", 1, 5),
    ("\u{80}", 1, 6),
    ("é", 1, 7),
    ("\u{FFFF}", 1, 8),
    ("😀", 2, 9),
    ("/", 1, 10),
    ("\u{2028}", 1, 11),
];

struct Case {
    f: &'static str,
    t: Vec<(Piece, usize)>,
    json: bool,
}

/// The runs of blocks of the given sizes. Nothing is lost: a run ends at the first block that differs, and what
/// remains is a run, too.
fn runs<T: PartialEq>(data: &[T], sizes: &[usize], show: impl Fn(&[T]) -> String, name: &str) -> String {
    let mut v = vec![];
    let mut rest = data;
    for &b in sizes.iter().filter(|&&b| b > 0) {
        if rest.len() < b {
            break;
        }
        let block = &rest[..b];
        let n = rest.chunks_exact(b).take_while(|c| *c == block).count();
        v.push(format!(r#"{{"{name}":{},"n":{n}}}"#, show(block)));
        rest = &rest[n * b..];
    }
    if !rest.is_empty() {
        v.push(format!(r#"{{"{name}":{},"n":-{}}}"#, show(&rest[..1]), rest.len()));
    }
    arr(v)
}

fn cps(s: &str, sizes: &[usize]) -> String {
    let v: Vec<u32> = s.chars().map(|c| c as u32).collect();
    runs(&v, sizes, |b| arr(b), "s")
}

fn units(s: &JsStringRef<Global>, sizes: &[usize]) -> String {
    runs(s.items(), sizes, |b| arr(b), "s")
}

fn loaded(t: String) -> Option<Any<Global>> {
    let io = MockIo::new(&[("a".to_string(), t)]);
    let mut mc = ModuleCache::default();
    parse(&mut Context::new(GLOBAL, &io, "a".to_string(), &mut mc)).ok().map(|r| r.any)
}

fn string(a: Any<Global>) -> Option<JsStringRef<Global>> {
    a.try_move().ok()
}

fn value(c: &Case) -> Any<Global> {
    let s = new_string(GLOBAL, expand(c).encode_utf16().collect::<Vec<_>>()).to_ref();
    if c.f == "key" {
        Any::move_from(new_object(GLOBAL, vec![(s, Any::move_from(1.0))]).to_ref())
    } else {
        Any::move_from(new_array(GLOBAL, vec![Any::move_from(s)]).to_ref())
    }
}

/// The string of a value made by `value`.
fn content(f: &str, a: Any<Global>) -> Option<JsStringRef<Global>> {
    if f == "key" {
        let o = a.try_move::<JsObjectRef<Global>>().ok()?;
        (o.items().len() == 1).then(|| o.items()[0].0.clone())
    } else {
        let v = a.try_move::<JsArrayRef<Global>>().ok()?;
        if v.items().len() != 1 {
            return None;
        }
        string(v.items()[0].clone())
    }
}

fn expand(c: &Case) -> String {
    c.t.iter().map(|(p, n)| p.0.repeat(*n)).collect()
}

fn exec(c: &Case) -> String {
    let sizes: Vec<usize> = c.t.iter().map(|(p, _)| p.1).collect();
    // the sizes of the values of strings in UTF-16
    let wide: Vec<usize> = c.t.iter().map(|(p, _)| if p.2 == 8 { 2 } else { 1 }).collect();
    let text = expand(c);
    let other = |n: usize| format!(r#"[{{"s":[],"n":-{n}}}]"#);
    match c.f {
        "str" => {
            let text = format!("\"{text}\"");
            let k = tokenize(GLOBAL, text.clone());
            let r = match &k[..] {
                [JsonToken::String(s)] => cps(s, &sizes),
                _ => other(k.len()),
            };
            let v = match loaded(text).and_then(string) {
                Some(s) => units(&s, &wide),
                None => other(0),
            };
            format!(r#""r":{r},"v":{v}"#)
        }
        "id" => {
            let k = tokenize(GLOBAL, text);
            let r = match &k[..] {
                [JsonToken::Id(s)] => cps(s, &sizes),
                _ => other(k.len()),
            };
            format!(r#""r":{r}"#)
        }
        "mix" => format!(
            r#""r":{}"#,
            runs(&tokenize(GLOBAL, text), &sizes, |b| arr(b.iter().map(token)), "k")
        ),
        "note" => format!(
            r#""r":{}"#,
            runs(&tokenize(GLOBAL, format!("/*{text}*/")), &[], |b| arr(b.iter().map(token)), "k")
        ),
        _ => {
            let a = value(c);
            let texts = match c.json {
                true => vec![to_json(a.clone())],
                false => vec![to_djs(a.clone(), false), to_djs(a.clone(), true)],
            };
            let outs = texts.into_iter().map(|t| match t {
                Ok(t) => {
                    let len = t.len();
                    match loaded(t).and_then(|a| content(c.f, a)) {
                        Some(s) => format!(r#"{{"v":{},"len":{len}}}"#, units(&s, &sizes)),
                        None => format!(r#"{{"v":{},"len":{len}}}"#, other(0)),
                    }
                }
                Err(_) => format!(r#"{{"v":{},"len":0}}"#, other(1)),
            });
            let n: usize = c.t.iter().map(|(p, n)| p.1 * n).sum();
            let outs = arr(outs);
            let same = content(c.f, a).is_some_and(|s| s.items().iter().copied().eq(text.encode_utf16()));
            format!(r#""outs":{outs},"units":{n},"same":{}"#, bool_json(same))
        }
    }
}

fn main() {
    let a = args();
    let json = a.mode == "json";
    let mut r = Rng::new(a.seed ^ 83);
    let families: &[(&str, &[Piece])] = match a.mode.as_str() {
        "lex" => &[("id", ID), ("mix", MIX), ("note", NOTE)],
        "str" => &[("str", STR)],
        _ => &[("val", VAL), ("key", VAL)],
    };
    let mut edges = vec![127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 100_000];
    if a.thorough {
        edges.extend([131_071, 131_072, 131_073, 400_000, 1 << 20]);
    }
    let mut c = vec![];
    for &(f, pieces) in families {
        // a piece that may begin an identifier
        let first = |p: &Piece| f != "id" || p.2 < 4;
        for p in pieces.iter().filter(|p| first(p)) {
            for &n in &edges {
                if a.thorough || n < 65_000 || p.0.len() == 1 || n == 65_536 {
                    c.push(Case { f, t: vec![(*p, n)], json });
                }
            }
        }
        // several runs; the total length is at an edge, or not
        for _ in 0..if a.thorough { 600 } else { 150 } {
            let mut t: Vec<(Piece, usize)> = vec![];
            let mut left = *r.one_of(&edges);
            for _ in 0..2 + r.below(4) {
                let p = *r.one_of(pieces);
                if t.iter().any(|(q, _)| q.2 == p.2) || (t.is_empty() && !first(&p)) {
                    continue;
                }
                let n = match r.below(3) {
                    0 => 1 + r.below(3),
                    1 => left,
                    _ => 1 + r.below(left.max(1)),
                };
                if n > 0 && n <= left {
                    t.push((p, n));
                    left -= n;
                }
            }
            if !t.is_empty() {
                c.push(Case { f, t, json });
            }
        }
    }
    drive(
        &a,
        c,
        |c| {
            format!(
                r#""f":"{}","t":{}"#,
                c.f,
                arr(c.t.iter().map(|(p, n)| format!(
                    r#"{{"s":{},"n":{n}}}"#,
                    text(p.0)
                )))
            )
        },
        exec,
    )
}
