//! Records runs of the tokenizer (C01, C02, C03).
use conform::*;
use conform::mock::MockIo;
use nanvm_lib::{
    js::{any::Any, js_bigint::Sign, js_string::JsStringRef},
    mem::global::{Global, GLOBAL},
    parser::{
        parser::{parse, Context},
        shared::ModuleCache,
    },
    tokenizer::{
        create_transition_maps, tokenize, JsonToken, TokenizerState, TransitionMaps,
        TokenizerStateIterator,
    },
};

#[path = "../tok.rs"]
mod tok;
use tok::token;

/// The value of the text when it is loaded as a module.
fn value(t: &str) -> String {
    let io = MockIo::new(&[("a.json".to_string(), t.to_string())]);
    let mut mc = ModuleCache::default();
    match parse(&mut Context::new(GLOBAL, &io, "a.json".to_string(), &mut mc)) {
        Err(_) => r#"{"k":"none"}"#.to_string(),
        Ok(r) => any(r.any),
    }
}

fn any(a: Any<Global>) -> String {
    if let Ok(f) = a.clone().try_move::<f64>() {
        return format!(r#"{{"k":"num","f":{}}}"#, f64_json(f));
    }
    if let Ok(s) = a.clone().try_move::<JsStringRef<Global>>() {
        return format!(r#"{{"k":"str","s":{}}}"#, arr(s.items().iter()));
    }
    if let Ok(b) = a.clone().try_move::<nanvm_lib::js::js_bigint::JsBigintRef<Global>>() {
        return format!(
            r#"{{"k":"big","v":{{"s":{},"d":{}}}}}"#,
            (b.sign() == Sign::Negative) as u8,
            dig(b.items())
        );
    }
    r#"{"k":"other"}"#.to_string()
}

fn exec(t: &(String, bool)) -> String {
    let raw = tokenize(GLOBAL, t.0.clone());
    let tokens: Vec<String> = raw.iter().map(token).collect();
    // one character at a time
    thread_local! {
        static MAPS: std::rc::Rc<TransitionMaps<Global>> = std::rc::Rc::new(create_transition_maps());
    }
    let maps = MAPS.with(|m| m.clone());
    let mut state = TokenizerState::default();
    let mut inc: Vec<String> = vec![];
    for c in t.0.chars() {
        inc.extend(state.push_mut(GLOBAL, c, &maps).iter().map(token));
    }
    let inc_ok = inc.len() <= tokens.len() && inc[..] == tokens[..inc.len()] && tokens.len() - inc.len() <= 1;
    // the lazy iterator, asked once more after its end
    let mut it = TokenizerStateIterator::new(GLOBAL, t.0.chars());
    let mut lazy: Vec<String> = vec![];
    let mut again = vec![];
    for x in it.by_ref() {
        lazy.push(token(&x));
        again.push(x);
    }
    // which tokens are equal: for each one the first that equals it
    let eq = if (1..=6).contains(&raw.len()) && raw.len() == again.len() {
        let first = |i: usize| match (0..raw.len()).find(|&j| raw[j] == again[i]) {
            Some(j) if again[i] == raw[j] && raw[i] == raw[j] && (raw[i] != raw[j]) == false => j as i64 + 1,
            _ => 0,
        };
        format!(r#","eq":{}"#, arr((0..raw.len()).map(first)))
    } else {
        String::new()
    };
    let it_ok = lazy == tokens && it.next().is_none();
    let v = if t.1 {
        format!(r#","v":{}"#, value(&t.0))
    } else {
        String::new()
    };
    format!(
        r#""k":[{}],"incOk":{},"itOk":{}{eq}{}"#,
        tokens.join(","),
        bool_json(inc_ok),
        bool_json(it_ok),
        v
    )
}


/// What follows the access string and the character in a sweep.
const SWEEP_TAIL: &str = " 0n\"/*/\n}\u{20}";

struct Sweep {
    s: String,
    val: bool,
    lo: u32,
    hi: u32,
    step: u32,
}

fn sweeps(a: &Args) -> Vec<Sweep> {
    let mut v = vec![];
    let mut add = |s: &str, val: bool, step: u32, astral: u32| {
        let mut f = |lo, hi, step: u32| {
            v.push(Sweep { s: s.to_string(), val, lo, hi, step });
        };
        f(0x80, 0x2FFF, 1);
        f(0x3000, 0xD7FF, step);
        f(0xE000, 0xFFFF, 1);
        let k = if astral > 1 { a.seed as u32 % astral } else { 0 };
        for p in 1..=16 {
            f(p << 16, p << 16 | 0xFF, 1);
            f((p << 16 | 0x100) + k, p << 16 | 0xFFFF, astral);
        }
    };
    add("\"", true, if a.thorough { 1 } else { 5 }, if a.thorough { 1 } else { 97 });
    for l in read_lines(&a.input) {
        let s: String = parse_ints(&l).iter().map(|&c| char::from_u32(c as u32).unwrap()).collect();
        add(&s, false, 1, if a.thorough { 1 } else { 97 });
    }
    v
}

/// Characters from U+0080 after an access string: ranges of characters with the same tokens, in
/// which the character itself is written as -1.
fn sweep(a: &Sweep) -> String {
    let maps: TransitionMaps<Global> = create_transition_maps();
    let mut groups: Vec<(u32, u32, String)> = vec![];
    for c in (a.lo..=a.hi).step_by(a.step as usize).map(|c| char::from_u32(c).unwrap()) {
        let mut k: Vec<String> = vec![];
        let mut state = TokenizerState::default();
        for x in a.s.chars().chain([c]).chain(SWEEP_TAIL.chars()) {
            for t in state.push_mut(GLOBAL, x, &maps) {
                k.push(match &t {
                    JsonToken::String(v) | JsonToken::Id(v) if v.contains(c) => {
                        let v: Vec<String> = v.chars().map(|x| if x == c { "-1".to_string() } else { (x as u32).to_string() }).collect();
                        let kind = if matches!(t, JsonToken::Id(_)) { "id" } else { "str" };
                        format!(r#"{{"k":"{kind}","s":[{}]}}"#, v.join(","))
                    }
                    _ => token(&t),
                });
            }
        }
        if a.val {
            // the value of the string, whose units are written as -1 when they are those of the character
            let v = value(&format!("{}{c}\"", a.s));
            let own = arr(c.encode_utf16(&mut [0; 2]).iter());
            k.push(v.replacen(&own, "[-1]", 1));
        }
        let k = k.join(",");
        match groups.last_mut() {
            Some(g) if g.2 == k => g.1 = c as u32,
            _ => groups.push((c as u32, c as u32, k)),
        }
        if groups.len() > 40 {
            break;
        }
    }
    let g: Vec<String> = groups.iter().map(|(a, b, k)| format!(r#"{{"lo":{a},"hi":{b},"k":[{k}]}}"#)).collect();
    format!(r#""tail":{},"g":[{}]"#, text(SWEEP_TAIL), g.join(","))
}

#[global_allocator]
static HOOK: conform::rec::Hook = conform::rec::Hook;

fn exec_memory(c: &(bool, (String, bool))) -> String {
    use conform::rec::recorded;
    if c.0 {
        recorded::<&'static nanvm_lib::mem::local::Local, _>(|m| memory(m, &c.1)).1
    } else {
        recorded::<nanvm_lib::mem::global::Global, _>(|m| memory(m, &c.1)).1
    }
}

/// Tokens that are kept, tokens that are not, and a tokenizer that is left in the middle.
fn memory<M: conform::rec::Kind>(m: conform::rec::Rec<M>, t: &(String, bool)) {
    let tokens = tokenize(m, t.0.clone());
    let some: Vec<_> = TokenizerStateIterator::new(m, t.0.chars()).take(2).collect();
    drop(tokens);
    drop(some);
    let maps = create_transition_maps();
    let mut state = TokenizerState::default();
    let half = t.0.chars().count() / 2;
    for c in t.0.chars().take(half) {
        state.push_mut(m, c, &maps);
    }
}

const ALPHABET: &str = "{}[]:,=;(). \n\t\r\"\\/*-+0129eEnabfrtuADFxz_$'#\u{1}\u{7f}é\u{2028}😀";

/// Texts from the access strings of all control states: each followed by one and by two characters,
/// then by the end or by a text that tells states apart.
fn suite(a: &Args) -> Vec<(String, bool)> {
    let access: Vec<String> = read_lines(&a.input)
        .iter()
        .map(|l| parse_ints(l).iter().map(|&c| char::from_u32(c as u32).unwrap()).collect())
        .collect();
    let alpha: Vec<char> = ALPHABET.chars().collect();
    let all: Vec<char> = (0..128u32)
        .chain([0x80, 0xA0, 0xFF, 0x100, 0x3A9, 0x2028, 0x2029, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF])
        .filter_map(char::from_u32)
        .collect();
    let tails = ["", "1\"2\n3*/4"];
    let mut v = vec![];
    for s in &access {
        v.push((s.clone(), true));
        for &c in &all {
            for t in ["", "0n\"/*/\n}"] {
                v.push((format!("{s}{c}{t}"), false));
            }
        }
        for (i, &c) in alpha.iter().enumerate() {
            for (j, &d) in alpha.iter().enumerate() {
                let t = tails[(i + j) % 2];
                v.push((format!("{s}{c}{d}{t}"), false));
                if a.thorough {
                    v.push((format!("{s}{c}{d}{}", tails[(i + j + 1) % 2]), false));
                    for &e in &alpha {
                        v.push((format!("{s}{c}{d}{e}"), false));
                    }
                }
            }
        }
    }
    // all characters, in chunks, at the start of a token and inside of a string
    let step = if a.thorough { 1 } else { 61 };
    let cs: Vec<char> = (a.seed as u32 % step..0x110000).step_by(step as usize).filter_map(char::from_u32).collect();
    for k in cs.chunks(400) {
        let s: String = k.iter().collect();
        v.push((s.clone(), false));
        v.push((format!("\"{}\"", s.replace(['"', '\\'], "")), true));
        v.push((format!("/*{s}*/ //{}\n0", s.replace(['\n', '\r'], "")), false));
    }
    v
}

const CHUNKS: &[&str] = &[
    "{", "}", "[", "]", ":", ",", "=", ";", "(", ")", ".", " ", "\n", "\t", "\r", "\r\n", "\n \n", "\"", "\"abc\"", "\"\\n\"",
    "\\", "\"\\u00e9\"", "\"\\uD83D\\uDE00\"", "\"\\uD83D\"", "\"\\uD83Dx", "\"\\uD83D\\n\"", "\\u12", "/", "//", "// c\n", "/*", "*/", "/**/",
    "/* x **/", "-", "0", "-0", "1", "12", "-7", "0.5", "1.", ".5", "1e5", "1E-3", "2e+2", "3e", "4e+", "0n", "12n", "-5n", "0x1", "01",
    "e", "n", "null", "true", "false", "const", "import", "export", "default", "from", "module", "exports", "require", "a", "$", "_b1",
    "é", "😀", "#", "'", "@", "+", "*", "\u{0}", "\u{b}", "1e400", "1e-400", "123456789012345678901234567890", "9007199254740993",
];

/// Long tokens.
fn long(v: &mut Vec<(String, bool)>) {
    for n in [15usize, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 1025, 5000] {
        let w: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        let e = n % 2 == 0;
        v.push((format!("{w} 1"), e));
        v.push((format!("\"{w}\\n{w}\"{w}"), e));
        v.push((format!("\"{}\"", "\\u00e9é\\\\".repeat(n / 3)), !e));
        v.push((format!("/*{w}*/1 //{w}\n2"), e));
        v.push((format!("/*{}/1", "*".repeat(n)), e));
        v.push((format!("1{}2{}3", " ".repeat(n), "\n".repeat(n)), e));
        v.push((format!("{}{}", "[".repeat(n), "]".repeat(n)), false));
        v.push(("1,".repeat(n), false));
        v.push((format!("{}1", "#".repeat(n)), false));
        v.push((format!("\"{w}"), false));
        v.push((format!("/*{w}"), false));
        if n < 2000 {
            v.push((format!("{}1.{}e{}1 a", "1".repeat(n), "0".repeat(n), "0".repeat(n)), false));
            v.push((format!("{}n", "7".repeat(n)), false));
        }
    }
}

/// Names, and what can stand before and after them.
fn names(v: &mut Vec<(String, bool)>) {
    for n in conform::value::NAMES {
        for p in ["N", "N N", "\"N\"", "-N", "1N", "N1", "N:", "{N", "0.N", "0eN", "N\"", "N/**/N", "\\N", "\"\\N\"", "NN", "$N", "N$", "N_", "1.5N", "(N)", "N\n", "/*N*/", "//N\nN", "1e5N", "-0N"] {
            v.push((p.replace('N', n), false));
        }
        v.push((n.to_uppercase(), true));
        v.push((n.to_lowercase(), true));
        v.push((n[..n.len() - 1].to_string(), true));
    }
}

fn random(a: &Args) -> Vec<(String, bool)> {
    let mut r = Rng::new(a.seed);
    let n = if a.thorough { 150_000 } else { 12_000 };
    let mut v = vec![];
    long(&mut v);
    names(&mut v);
    v.extend(
    (0..n)
        .map(|_| {
            let max = if r.below(20) == 0 { 60 } else { 9 };
            let len = 1 + r.below(max);
            let s: String = (0..len).map(|_| *r.one_of(CHUNKS)).collect();
            (s, false)
        }));
    v
}

fn decimal(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    let style = r.below(4);
    let mut s: String = (0..n)
        .map(|i| match style {
            0 => (b'0' + r.below(10) as u8) as char,
            1 => if r.below(4) == 0 { '9' } else { '0' },
            2 => '9',
            _ => if i == 0 { '1' } else if i == n - 1 { (b'0' + r.below(3) as u8) as char } else { '0' },
        })
        .collect();
    while s.len() > 1 && s.starts_with('0') {
        s.remove(0);
    }
    s
}

/// The exact decimal form of the number halfway between a double and the next one, its neighbours,
/// and the double itself.
fn around(bits: u64, half: bool) -> (String, i32) {
    // value = m * 2^q, exactly as a decimal integer times 10^e
    let e = (bits >> 52) & 0x7FF;
    let f = bits & ((1 << 52) - 1);
    let (mut m, mut q) = if e == 0 { (f, -1074i32) } else { (f | 1 << 52, e as i32 - 1075) };
    if half {
        m = 2 * m + 1;
        q -= 1;
    }
    // decimal digits, little-endian
    let mut d: Vec<u8> = vec![];
    while m > 0 {
        d.push((m % 10) as u8);
        m /= 10;
    }
    let mul = |d: &mut Vec<u8>, k: u32| {
        let mut c = 0u32;
        for x in d.iter_mut() {
            let t = *x as u32 * k + c;
            *x = (t % 10) as u8;
            c = t / 10;
        }
        while c > 0 {
            d.push((c % 10) as u8);
            c /= 10;
        }
    };
    let mut exp = 0;
    if q >= 0 {
        for _ in 0..q {
            mul(&mut d, 2);
        }
    } else {
        for _ in 0..-q {
            mul(&mut d, 5);
        }
        exp = q;
    }
    while d.len() > 1 && d[0] == 0 {
        d.remove(0);
        exp += 1;
    }
    let s: String = d.iter().rev().map(|x| (b'0' + x) as char).collect();
    (if s.is_empty() { "0".to_string() } else { s }, exp)
}

/// Ways to write digits * 10^exp.
fn write(r: &mut Rng, digits: &str, exp: i32) -> String {
    let neg = if r.below(4) == 0 { "-" } else { "" };
    let e = *r.one_of(&["e", "E"]);
    let p = |x: i32, r: &mut Rng| match x < 0 {
        true => format!("{x}"),
        false => format!("{}{x}", *r.one_of(&["", "+", "0", "+00"])),
    };
    match r.below(5) {
        0 if exp == 0 => format!("{neg}{digits}"),
        1 if (-400..0).contains(&exp) => {
            // plain fraction
            let k = -exp as usize;
            let z = "0".repeat((k + 1).saturating_sub(digits.len()));
            let s = format!("{z}{digits}");
            let (i, f) = s.split_at(s.len() - k);
            format!("{neg}{i}.{f}")
        }
        2 if digits.len() > 1 => {
            let k = 1 + r.below(digits.len() - 1);
            let (i, f) = digits.split_at(k);
            let x = p(exp + f.len() as i32, r);
            format!("{neg}{i}.{f}{e}{x}")
        }
        3 => {
            let z = r.below(30);
            let x = p(exp - z as i32, r);
            format!("{neg}{digits}{}{e}{x}", "0".repeat(z))
        }
        4 => {
            let z = r.below(20);
            let x = p(exp + (z + digits.len()) as i32, r);
            format!("{neg}0.{}{digits}{}{e}{x}", "0".repeat(z), "0".repeat(r.below(5)))
        }
        _ => {
            let x = p(exp, r);
            format!("{neg}{digits}{e}{x}")
        }
    }
}

fn numbers(a: &Args) -> Vec<(String, bool)> {
    let mut r = Rng::new(a.seed ^ 2);
    let mut v: Vec<String> = vec![];
    for s in [
        "0", "-0", "0.0", "-0.0", "0e5", "-0e-5", "0.000e999999999999999999999", "-0E+99999999999999999999", "1", "-1", "10", "0.1", "0.2", "0.3",
        "1e0", "1e22", "1e23", "1e-7", "123456789", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740994",
        "9007199254740995", "9007199254740993.0000000000000000000000000000000000000000000000000000001", "1e308", "1.7976931348623157e308",
        "1.7976931348623158e308", "1.7976931348623159e308", "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880",
        "1e309", "-1e309", "1e310", "1e999", "-1e1000", "1e400", "1e100000", "1e2147483647", "1e2147483648", "1e4294967296", "1e9223372036854775807",
        "1e9223372036854775808", "1e18446744073709551616", "1e99999999999999999999999999", "-1e99999999999999999999999999", "1e-400", "-1e-400",
        "1e-2147483648", "1e-9223372036854775808", "1e-9223372036854775809", "1e-18446744073709551617", "1e-99999999999999999999999999",
        "5e-324", "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "2.47e-324", "2.5e-324", "3e-324", "-3e-324", "7.4e-324", "7.5e-324",
        "2.2250738585072014e-308", "2.2250738585072011e-308", "2.225073858507201e-308", "2.2250738585072009e-308", "1e-323", "1.5e-323",
        "0n", "-0n", "1n", "-1n", "18446744073709551615n", "18446744073709551616n", "-18446744073709551616n", "340282366920938463463374607431768211456n",
        "100000000000000000000000000000000000000000n", "10n", "1e00000000000000000000000000000000000000000000001", "1e-00000000000000000000000000000000000000000000001",
        "1.0", "1.50", "100e-2", "0.00001e5", "123e-2", "1.25e2", "4.35", "0.5e1", "1E5", "1E+5", "1e05",
    ] {
        v.push(s.to_string());
    }
    // shifted decimal points: the value does not change
    for k in [1usize, 5, 19, 20, 21, 50, 300, 700] {
        v.push(format!("1{}e-{k}", "0".repeat(k)));
        v.push(format!("0.{}1e{}", "0".repeat(k), k + 1));
        v.push(format!("{}e-{}", "9".repeat(k), k));
        v.push(format!("0.{}", "9".repeat(k)));
        v.push(format!("0.{}e{}", "3".repeat(k), r.range(-400, 400)));
        v.push(format!("{}n", "9".repeat(k.min(400))));
        v.push(format!("-1{}n", "0".repeat(k.min(400))));
    }
    for k in [129usize, 257, 32767, 32769, 65537] {
        v.push(format!("0.{}1e{}", "0".repeat(k), k + 1));
        v.push(format!("0.{}17", "0".repeat(k)));
        v.push(format!("-0.{}25e{}", "0".repeat(k), k as i64 - 300));
    }
    // a huge exponent and as many zeros cancel out
    for k in [330usize, 400, 1000] {
        v.push(format!("0.{}1e{}", "0".repeat(k), k + 3));
        v.push(format!("7{}e-{}", "0".repeat(k), k + 300));
    }
    // exponents that begin with many zeros, and ends that are zeros only
    for k in [1usize, 2, 7, 8, 9, 18, 19, 20, 21, 38, 39, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400, 1000] {
        let z = "0".repeat(k);
        for s in ["", "+", "-"] {
            for e in ["", "1", "5", "22", "308", "324"] {
                v.push(format!("{}e{s}{z}{e}", ["1", "-25", "0.5", "0", "1.25", "123"][(k + e.len()) % 6]));
            }
        }
        v.push(format!("1.{z}"));
        v.push(format!("25.5{z}"));
        v.push(format!("-0.{z}"));
        v.push(format!("4{z}.{z}e-{k}"));
        v.push(format!("9007199254740993.{z}"));
        v.push(format!("9007199254740993.{z}1"));
        v.push(format!("5{z}n"));
    }
    // midpoints and their neighbours
    let n = if a.thorough { 1500 } else { 90 };
    let mut edge: Vec<u64> = vec![
        0, 1, 2, 3, 0xF_FFFF_FFFF_FFFF, 0xF_FFFF_FFFF_FFFE, 0x10_0000_0000_0000, 0x10_0000_0000_0001, 0x1F_FFFF_FFFF_FFFF, 0x20_0000_0000_0000,
        0x7FEF_FFFF_FFFF_FFFF, 0x7FEF_FFFF_FFFF_FFFE, 0x7FE0_0000_0000_0000, 0x7FDF_FFFF_FFFF_FFFF, 0x3FF0_0000_0000_0000, 0x3FEF_FFFF_FFFF_FFFF,
        0x4340_0000_0000_0000, 0x433F_FFFF_FFFF_FFFF, 0x8_0000_0000_0000, 0x7_FFFF_FFFF_FFFF,
    ];
    for _ in 0..n {
        let e = match r.below(8) {
            0 => 0,
            1 => r.below(4) as u64,
            2 => 2040 + r.below(7) as u64,
            3 | 4 => 1000 + r.below(80) as u64,
            _ => r.below(2047) as u64,
        };
        let f = r.limb() & ((1 << 52) - 1);
        let f = if e == 0 { f >> r.below(52) } else { f };
        edge.push(e << 52 | f);
    }
    for b in edge {
        for half in [true, false] {
            let (d, e) = around(b, half);
            v.push(write(&mut r, &d, e));
            if half {
                // a little more, a little less
                let tail = "0".repeat(r.below(40));
                v.push(write(&mut r, &format!("{d}{tail}1"), e - tail.len() as i32 - 1));
                let mut x: Vec<u8> = d.bytes().collect();
                let mut i = x.len();
                while i > 0 {
                    i -= 1;
                    if x[i] > b'0' {
                        x[i] -= 1;
                        break;
                    }
                    x[i] = b'9';
                }
                let s = String::from_utf8(x).unwrap();
                let s = s.trim_start_matches('0');
                let s = if s.is_empty() { "0" } else { s };
                let nines = r.below(40);
                v.push(write(&mut r, &format!("{s}{}", "9".repeat(nines)), e - nines as i32));
            }
        }
        // the shortest form of the double
        let f = f64::from_bits(b);
        v.push(format!("{f:e}"));
        v.push(format!("{f:.16e}"));
    }
    // random digits and exponents
    let n = if a.thorough { 20_000 } else { 900 };
    for _ in 0..n {
        let max = match r.below(10) {
            0 => 60,
            1 => 30,
            _ => 20,
        };
        let d = decimal(&mut r, max);
        let e = match r.below(6) {
            0 => 0,
            1 => r.range(-30, 30),
            2 => r.range(-345, -300),
            3 => r.range(280, 312),
            4 => -(d.len() as i64),
            _ => r.range(-400, 400),
        };
        v.push(write(&mut r, &d, e as i32));
        if r.below(3) == 0 {
            let neg = if r.bool() { "-" } else { "" };
            v.push(format!("{neg}{d}n"));
        }
    }
    if a.thorough {
        for _ in 0..150 {
            let d = decimal(&mut r, 900);
            let e = r.range(-1200, 300);
            v.push(write(&mut r, &d, e as i32));
        }
    }
    v.into_iter().map(|s| (s, true)).collect()
}

fn strings(a: &Args) -> Vec<(String, bool)> {
    let mut r = Rng::new(a.seed ^ 3);
    let mut v: Vec<String> = vec![];
    // each unit on its own is tried, in both cases of the digits; pairs are drawn
    let hex = |u: u32, r: &mut Rng| {
        let s = match r.below(3) {
            0 => format!("{u:04x}"),
            1 => format!("{u:04X}"),
            _ => format!("{u:04x}")
                .chars()
                .map(|c| if r.bool() { c.to_ascii_uppercase() } else { c })
                .collect(),
        };
        format!("\\u{s}")
    };
    let units: Vec<u32> = (0..0x10000u32).filter(|u| !(0xD800..0xE000).contains(u)).collect();
    for k in units.chunks(128) {
        let s: String = k.iter().map(|&u| hex(u, &mut r)).collect();
        v.push(format!("\"{s}\""));
    }
    let step = if a.thorough { 1 } else { 16 };
    for u in (0xD800..0xE000u32).step_by(step) {
        let u = u + r.below(step) as u32;
        // alone, at the end, before a character, an escape, a non-surrogate, before another one
        v.push(format!("\"{}\"", hex(u, &mut r)));
        v.push(format!("\"{}x\"", hex(u, &mut r)));
        let w = 0xD800 + r.below(0x800) as u32;
        v.push(format!("\"a{}{}b\"", hex(u, &mut r), hex(w, &mut r)));
        v.push(format!("\"a{}{}b\"", hex(u, &mut r), hex(0xDC00 + r.below(0x400) as u32, &mut r)));
        let esc = *r.one_of(&["\\n", "\\\\", "\\\"", "\\u", "\\u0041", "\\uD7FF", "\\uE000", "\\u00", "\\q", "\\", "u", "", "\\uDC0", "\\uDBFF\\uDC00"]);
        v.push(format!("\"{}{esc}\"", hex(u, &mut r)));
    }
    // pairs
    let n = if a.thorough { 1024 * 16 } else { 1024 };
    let mut pairs = vec![];
    for i in 0..n {
        let h = 0xD800 + (i % 1024) as u32;
        let l = match r.below(4) {
            0 => 0xDC00,
            1 => 0xDFFF,
            _ => 0xDC00 + r.below(1024) as u32,
        };
        pairs.push(format!("{}{}", hex(h, &mut r), hex(l, &mut r)));
    }
    for k in pairs.chunks(32) {
        v.push(format!("\"{}\"", k.concat()));
    }
    // raw characters and one-letter escapes
    for c in 0..128u32 {
        let c = char::from_u32(c).unwrap();
        v.push(format!("\"{c}\""));
        v.push(format!("\"a\\{c}b\""));
        v.push(format!("\"\\u004{c}1\""));
        v.push(format!("\"\\u{c}041 \""));
        v.push(format!("\"\\u00{c}1z\""));
        v.push(format!("\"\\u004{c}\""));
        v.push(format!("\"\\uD83D{c}uDE00\""));
        v.push(format!("\"\\uD83D\\{c}DE00\""));
        v.push(format!("\"\\uD83D\\uDE0{c}\""));
        v.push(format!("\"\\uD83D\\u{c}E00\""));
    }
    for s in ["\"\"", "\"\\u\"", "\"\\u0\"", "\"\\u00\"", "\"\\u000\"", "\"\\u0000\"", "\"\\", "\"\\u12", "\"\\uD83D\\", "\"\\uD83D\\u", "\"a", "\""] {
        v.push(s.to_string());
    }
    // mixtures
    let parts = [
        "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\uD83D\\uDE00", "\\ud83d\\ude00", "😀", "é", "a", "/", "\n", "\t",
        "\\uFFFF", "\\u0000", "\u{0}", "\u{7f}", "\u{10FFFF}", "\\uDBFF\\uDFFF", "\\uD800\\uDC00", "n", "u", "bf",
    ];
    for _ in 0..if a.thorough { 6000 } else { 600 } {
        let k = r.below(12);
        let s: String = (0..k).map(|_| *r.one_of(&parts)).collect();
        v.push(format!("\"{s}\""));
    }
    v.into_iter().map(|s| (s, true)).collect()
}

fn main() {
    let a = args();
    if a.mode == "memory" {
        let mut c = numbers(&a);
        c.retain(|c| c.0.len() < 60);
        c.truncate(12_000);
        let mut d = random(&a);
        d.extend(c);
        d.extend(strings(&a).into_iter().filter(|c| c.0.len() < 40).take(300));
        let c = for_memory(&a, d, 1200);
        return drive(&a, c, |c| format!(r#""t":{}"#, text(&c.1 .0)), exec_memory);
    }
    if a.mode == "sweep" {
        let input = |c: &Sweep| format!(r#""s":{},"val":{},"lo":{},"hi":{},"step":{}"#, text(&c.s), bool_json(c.val), c.lo, c.hi, c.step);
        return drive(&a, sweeps(&a), input, sweep);
    }
    let cases = match a.mode.as_str() {
        "suite" => suite(&a),
        "random" => random(&a),
        "numbers" => numbers(&a),
        "strings" => strings(&a),
        _ => panic!(),
    };
    drive(&a, cases, |c| format!(r#""t":{}"#, text(&c.0)), exec);
}
