//! The graph of a value: nodes are arrays and objects, numbered in the order they are met.
use crate::{arr, bool_json, dig, f64_json};
use nanvm_lib::{
    js::{
        any::Any,
        js_array::JsArrayRef,
        js_bigint::{JsBigintRef, Sign},
        js_object::JsObjectRef,
        js_string::JsStringRef,
        type_::Type,
    },
    mem::{global::Global, manager::Dealloc},
    parser::shared::{DataType, ParseError, ParseResult},
};
use std::collections::HashMap;

pub struct Graph<D: Dealloc> {
    ids: HashMap<usize, usize>,
    nodes: Vec<String>,
    /// Keeps all nodes alive, so that an address is one node.
    alive: Vec<Any<D>>,
}

impl<D: Dealloc> Default for Graph<D> {
    fn default() -> Self {
        Self {
            ids: HashMap::new(),
            nodes: vec![],
            alive: vec![],
        }
    }
}

pub fn string_json<D: Dealloc>(s: &JsStringRef<D>) -> String {
    arr(s.items().iter())
}

impl<D: Dealloc> Graph<D> {
    pub fn value(&mut self, a: &Any<D>) -> String {
        match a.get_type() {
            Type::Null => r#"{"k":"null"}"#.to_string(),
            Type::Bool => format!(
                r#"{{"k":"bool","b":{}}}"#,
                bool_json(a.clone().try_move::<bool>().unwrap())
            ),
            Type::Number => format!(
                r#"{{"k":"num","f":{}}}"#,
                f64_json(a.clone().try_move::<f64>().unwrap())
            ),
            Type::String => format!(
                r#"{{"k":"str","s":{}}}"#,
                string_json(&a.clone().try_move::<JsStringRef<D>>().unwrap())
            ),
            Type::Bigint => {
                let b = a.clone().try_move::<JsBigintRef<D>>().unwrap();
                format!(
                    r#"{{"k":"big","v":{{"s":{},"d":{}}}}}"#,
                    (b.sign() == Sign::Negative) as u8,
                    dig(b.items())
                )
            }
            Type::Array => {
                let r = a.clone().try_move::<JsArrayRef<D>>().unwrap();
                let at = r.items().as_ptr() as usize;
                if let Some(id) = self.ids.get(&at) {
                    return format!(r#"{{"k":"ref","n":{id}}}"#);
                }
                let id = self.enter(at, a);
                let items: Vec<String> = r.items().iter().map(|v| self.value(v)).collect();
                self.nodes[id - 1] = format!(r#"{{"k":"arr","items":[{}]}}"#, items.join(","));
                format!(r#"{{"k":"ref","n":{id}}}"#)
            }
            Type::Object => {
                let r = a.clone().try_move::<JsObjectRef<D>>().unwrap();
                let at = r.items().as_ptr() as usize;
                if let Some(id) = self.ids.get(&at) {
                    return format!(r#"{{"k":"ref","n":{id}}}"#);
                }
                let id = self.enter(at, a);
                let items: Vec<String> = r
                    .items()
                    .iter()
                    .map(|(k, v)| format!("[{},{}]", string_json(k), self.value(v)))
                    .collect();
                self.nodes[id - 1] = format!(r#"{{"k":"obj","props":[{}]}}"#, items.join(","));
                format!(r#"{{"k":"ref","n":{id}}}"#)
            }
        }
    }
    fn enter(&mut self, at: usize, a: &Any<D>) -> usize {
        self.alive.push(a.clone());
        self.nodes.push(String::new());
        self.ids.insert(at, self.nodes.len());
        self.nodes.len()
    }
    pub fn nodes(&self) -> String {
        format!("[{}]", self.nodes.join(","))
    }
}

/// The result of a load.
pub fn parse_result(g: &mut Graph<Global>, r: Result<ParseResult<Global>, ParseError>) -> String {
    match r {
        Ok(r) => format!(
            r#"{{"k":"ok","dt":"{}","v":{}}}"#,
            match r.data_type {
                DataType::Json => "json",
                DataType::Djs => "djs",
                DataType::Cjs => "cjs",
                DataType::Mjs => "mjs",
            },
            g.value(&r.any)
        ),
        Err(e) => format!(
            r#"{{"k":"err","e":"{}"}}"#,
            match e {
                ParseError::UnexpectedToken => "UnexpectedToken",
                ParseError::UnexpectedEnd => "UnexpectedEnd",
                ParseError::WrongExportStatement => "WrongExportStatement",
                ParseError::WrongConstStatement => "WrongConstStatement",
                ParseError::WrongRequireStatement => "WrongRequireStatement",
                ParseError::WrongImportStatement => "WrongImportStatement",
                ParseError::CannotReadFile => "CannotReadFile",
                ParseError::CircularDependency => "CircularDependency",
                ParseError::NewLineExpected => "NewLineExpected",
            }
        ),
    }
}
