//! A small reader of JSON, for the behaviours that TLC prints.
#[derive(Debug, Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        self.find(k).unwrap_or_else(|| panic!("no field {k} in {self:?}"))
    }
    pub fn find(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            // an empty function of TLC
            J::Obj(v) if v.is_empty() => &[],
            _ => panic!("not an array: {self:?}"),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            _ => panic!("not a number: {self:?}"),
        }
    }
    pub fn bool(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => panic!("not a string: {self:?}"),
        }
    }
    /// A string that is written as an array of code points.
    pub fn text(&self) -> String {
        self.arr().iter().map(|c| char::from_u32(c.int() as u32).unwrap()).collect()
    }
}

pub fn parse(s: &str) -> J {
    let b = s.as_bytes();
    let mut i = 0;
    let r = value(b, &mut i);
    ws(b, &mut i);
    assert!(i == b.len(), "rest of JSON: {}", &s[i..]);
    r
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn value(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' | b'[' => {
            let obj = b[*i] == b'{';
            *i += 1;
            let (mut a, mut o) = (vec![], vec![]);
            loop {
                ws(b, i);
                match b[*i] {
                    b'}' | b']' => {
                        *i += 1;
                        return if obj { J::Obj(o) } else { J::Arr(a) };
                    }
                    b',' => *i += 1,
                    _ if obj => {
                        let k = match value(b, i) {
                            J::Str(s) => s,
                            x => panic!("key {x:?}"),
                        };
                        ws(b, i);
                        assert!(b[*i] == b':');
                        *i += 1;
                        o.push((k, value(b, i)));
                    }
                    _ => a.push(value(b, i)),
                }
            }
        }
        b'"' => {
            let start = *i + 1;
            *i = start;
            while b[*i] != b'"' {
                assert!(b[*i] != b'\\', "escapes are not read");
                *i += 1;
            }
            *i += 1;
            J::Str(String::from_utf8(b[start..*i - 1].to_vec()).unwrap())
        }
        b'-' | b'0'..=b'9' => {
            let start = *i;
            *i += 1;
            while *i < b.len() && b[*i].is_ascii_digit() {
                *i += 1;
            }
            J::Num(std::str::from_utf8(&b[start..*i]).unwrap().parse().unwrap())
        }
        _ => {
            for (w, v) in [("true", J::Bool(true)), ("false", J::Bool(false)), ("null", J::Null)] {
                if b[*i..].starts_with(w.as_bytes()) {
                    *i += w.len();
                    return v;
                }
            }
            panic!("JSON at {i}")
        }
    }
}
