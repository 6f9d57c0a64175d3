//! A small JSON writer and reader, independent of serde_json.
pub fn quote(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '\u{8}' => o.push_str("\\b"),
            '\u{c}' => o.push_str("\\f"),
            c if c < ' ' => { o.push_str("\\u00"); for d in [c as u8 >> 4, c as u8 & 15] { o.push((if d < 10 { b'0' + d } else { b'a' + d - 10 }) as char) } }
            c => o.push(c),
        }
    }
    o.push('"')
}
#[derive(Clone, Debug)]
pub enum Value { Null, Bool(bool), Num(f64), Str(String), Arr(Vec<Value>), Obj(Vec<(String, Value)>) }
impl Value {
    pub fn get(&self, k: &str) -> Option<&Value> { match self { Value::Obj(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1), _ => None } }
    pub fn get_mut(&mut self, k: &str) -> Option<&mut Value> { match self { Value::Obj(v) => v.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1), _ => None } }
}
/// Equal as JSON values: the order of object members does not matter.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(x), Value::Bool(y)) => x == y,
        (Value::Num(x), Value::Num(y)) => x == y,
        (Value::Str(x), Value::Str(y)) => x == y,
        (Value::Arr(x), Value::Arr(y)) => x.len() == y.len() && (0..x.len()).all(|i| same(&x[i], &y[i])),
        (Value::Obj(x), Value::Obj(y)) => x.len() == y.len() && x.iter().all(|m| y.iter().any(|n| m.0 == n.0 && same(&m.1, &n.1))),
        _ => false,
    }
}
struct P<'a> { s: &'a str, i: usize }
impl<'a> P<'a> {
    fn peek(&self) -> u8 { *self.s.as_bytes().get(self.i).unwrap_or(&0) }
    fn ws(&mut self) { while matches!(self.peek(), b' ' | b'\n' | b'\r' | b'\t') { self.i += 1 } }
    fn lit(&mut self, l: &str) -> Option<()> { if self.s[self.i..].starts_with(l) { self.i += l.len(); Some(()) } else { None } }
    fn str(&mut self) -> Option<String> {
        self.lit("\"")?;
        let mut o = String::new();
        loop {
            let c = self.s[self.i..].chars().next()?;
            self.i += c.len_utf8();
            match c {
                '"' => return Some(o),
                '\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'"' => o.push('"'), b'\\' => o.push('\\'), b'/' => o.push('/'), b'n' => o.push('\n'), b'r' => o.push('\r'), b't' => o.push('\t'), b'b' => o.push('\u{8}'), b'f' => o.push('\u{c}'),
                        b'u' => { let mut v = 0; for _ in 0..4 { v = v * 16 + (self.peek() as char).to_digit(16)?; self.i += 1 } o.push(char::from_u32(v)?) } // no surrogate pairs needed
                        _ => return None,
                    }
                }
                c if c < ' ' => return None,
                c => o.push(c),
            }
        }
    }
    fn value(&mut self) -> Option<Value> {
        self.ws();
        match self.peek() {
            b'"' => Some(Value::Str(self.str()?)),
            b'{' => {
                self.i += 1;
                let mut v: Vec<(String, Value)> = Vec::new();
                self.ws();
                if self.lit("}").is_some() { return Some(Value::Obj(v)) }
                loop {
                    self.ws();
                    let k = self.str()?;
                    if v.iter().any(|x| x.0 == k) { return None } // a repeated key loses a member
                    self.ws();
                    self.lit(":")?;
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    if self.lit("}").is_some() { return Some(Value::Obj(v)) }
                    self.lit(",")?
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.lit("]").is_some() { return Some(Value::Arr(v)) }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    if self.lit("]").is_some() { return Some(Value::Arr(v)) }
                    self.lit(",")?
                }
            }
            b't' => { self.lit("true")?; Some(Value::Bool(true)) }
            b'f' => { self.lit("false")?; Some(Value::Bool(false)) }
            b'n' => { self.lit("null")?; Some(Value::Null) }
            _ => {
                let a = self.i;
                while matches!(self.peek(), b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') { self.i += 1 }
                self.s[a..self.i].parse().ok().map(Value::Num)
            }
        }
    }
}
/// None: not JSON, or an object with a repeated key.
pub fn parse(s: &str) -> Option<Value> {
    let mut p = P { s, i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i == s.len() { Some(v) } else { None }
}
