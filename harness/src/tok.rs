//! Tokens in records.
use conform::*;
use nanvm_lib::{
    js::js_bigint::Sign,
    mem::global::Global,
    tokenizer::{ErrorType, JsonToken},
};

pub fn token(t: &JsonToken<Global>) -> String {
    let p = |c: char| format!(r#"{{"k":"p","c":{}}}"#, c as u32);
    match t {
        JsonToken::String(s) => format!(r#"{{"k":"str","s":{}}}"#, text(s)),
        JsonToken::Id(s) => format!(r#"{{"k":"id","s":{}}}"#, text(s)),
        JsonToken::Number(n) => format!(r#"{{"k":"num","f":{}}}"#, f64_json(*n)),
        JsonToken::BigInt(b) => format!(
            r#"{{"k":"big","v":{{"s":{},"d":{}}}}}"#,
            (b.sign() == Sign::Negative) as u8,
            dig(b.items())
        ),
        JsonToken::ObjectBegin => p('{'),
        JsonToken::ObjectEnd => p('}'),
        JsonToken::ArrayBegin => p('['),
        JsonToken::ArrayEnd => p(']'),
        JsonToken::Colon => p(':'),
        JsonToken::Comma => p(','),
        JsonToken::Equals => p('='),
        JsonToken::Dot => p('.'),
        JsonToken::Semicolon => p(';'),
        JsonToken::OpeningParenthesis => p('('),
        JsonToken::ClosingParenthesis => p(')'),
        JsonToken::NewLine => r#"{"k":"nl"}"#.to_string(),
        JsonToken::ErrorToken(e) => format!(
            r#"{{"k":"err","e":"{}"}}"#,
            match e {
                ErrorType::UnexpectedCharacter => "UnexpectedCharacter",
                ErrorType::InvalidToken => "InvalidToken",
                ErrorType::InvalidNumber => "InvalidNumber",
                ErrorType::InvalidHex => "InvalidHex",
                ErrorType::MissingQuotes => "MissingQuotes",
                ErrorType::CommentClosingExpected => "CommentClosingExpected",
            }
        ),
    }
}
