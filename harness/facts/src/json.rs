//! Minimal JSON.
#[derive(Debug, Clone)]
pub enum J {
    N(i64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl J {
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        val(b, &mut i)
    }
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::O(v) => &v.iter().find(|x| x.0 == k).unwrap_or_else(|| panic!("no key {}", k)).1,
            _ => panic!("not object"),
        }
    }
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn n(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("not number {:?}", self),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("not string {:?}", self),
        }
    }
    pub fn b(&self) -> bool {
        matches!(self, J::B(true))
    }
    pub fn a(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("not array {:?}", self),
        }
    }
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}
fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::O(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let k = val(b, i);
                ws(b, i);
                *i += 1; // :
                let x = val(b, i);
                v.push((k.s().to_string(), x));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::A(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                v.push(val(b, i));
            }
        }
        b'"' => {
            *i += 1;
            let mut s = vec![];
            while b[*i] != b'"' {
                if b[*i] == b'\\' {
                    *i += 1;
                }
                s.push(b[*i]);
                *i += 1;
            }
            *i += 1;
            J::S(String::from_utf8(s).unwrap())
        }
        b't' => {
            *i += 4;
            J::B(true)
        }
        b'f' => {
            *i += 5;
            J::B(false)
        }
        _ => {
            let s = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::N(std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap())
        }
    }
}
