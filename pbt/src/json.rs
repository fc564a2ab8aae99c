//! Minimal JSON writer and parser.

use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Json {
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}

impl Json {
    pub fn get(&self, key: &str) -> Option<&Json> {
        match self {
            Json::Obj(items) => items.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }

    pub fn str(&self) -> Option<&str> {
        match self {
            Json::Str(s) => Some(s),
            _ => None,
        }
    }

    pub fn arr(&self) -> Option<&[Json]> {
        match self {
            Json::Arr(a) => Some(a),
            _ => None,
        }
    }

    pub fn parse(text: &str) -> Option<Json> {
        let chars: Vec<char> = text.chars().collect();
        let mut p = 0;
        let v = value(&chars, &mut p)?;
        Some(v)
    }
}

fn skip(c: &[char], p: &mut usize) {
    while *p < c.len() && c[*p].is_whitespace() {
        *p += 1;
    }
}

fn value(c: &[char], p: &mut usize) -> Option<Json> {
    skip(c, p);
    match *c.get(*p)? {
        '{' => {
            *p += 1;
            let mut items = Vec::new();
            loop {
                skip(c, p);
                if *c.get(*p)? == '}' {
                    *p += 1;
                    return Some(Json::Obj(items));
                }
                if *c.get(*p)? == ',' {
                    *p += 1;
                    continue;
                }
                let k = match value(c, p)? {
                    Json::Str(s) => s,
                    _ => return None,
                };
                skip(c, p);
                if *c.get(*p)? != ':' {
                    return None;
                }
                *p += 1;
                items.push((k, value(c, p)?));
            }
        }
        '[' => {
            *p += 1;
            let mut items = Vec::new();
            loop {
                skip(c, p);
                match *c.get(*p)? {
                    ']' => {
                        *p += 1;
                        return Some(Json::Arr(items));
                    }
                    ',' => *p += 1,
                    _ => items.push(value(c, p)?),
                }
            }
        }
        '"' => {
            *p += 1;
            let mut s = String::new();
            loop {
                match *c.get(*p)? {
                    '"' => {
                        *p += 1;
                        return Some(Json::Str(s));
                    }
                    '\\' => {
                        *p += 1;
                        match *c.get(*p)? {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            'u' => {
                                let h: String = c.get(*p + 1..*p + 5)?.iter().collect();
                                s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                                *p += 4;
                            }
                            other => s.push(other),
                        }
                        *p += 1;
                    }
                    other => {
                        s.push(other);
                        *p += 1;
                    }
                }
            }
        }
        't' => {
            *p += 4;
            Some(Json::Bool(true))
        }
        'f' => {
            *p += 5;
            Some(Json::Bool(false))
        }
        'n' => {
            *p += 4;
            Some(Json::Null)
        }
        _ => {
            let start = *p;
            while *p < c.len() && "+-0123456789.eE".contains(c[*p]) {
                *p += 1;
            }
            let s: String = c[start..*p].iter().collect();
            s.parse().ok().map(Json::Num)
        }
    }
}

impl fmt::Display for Json {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Json::Null => write!(f, "null"),
            Json::Bool(b) => write!(f, "{}", b),
            Json::Num(n) => {
                if n.fract() == 0.0 && n.abs() < 9e15 {
                    write!(f, "{}", *n as i64)
                } else {
                    write!(f, "{}", n)
                }
            }
            Json::Str(s) => {
                write!(f, "\"")?;
                for ch in s.chars() {
                    match ch {
                        '"' => write!(f, "\\\"")?,
                        '\\' => write!(f, "\\\\")?,
                        '\n' => write!(f, "\\n")?,
                        '\t' => write!(f, "\\t")?,
                        '\r' => write!(f, "\\r")?,
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                            write!(f, "\\u{:04x}", c as u32)?
                        }
                        c => write!(f, "{}", c)?,
                    }
                }
                write!(f, "\"")
            }
            Json::Arr(a) => {
                write!(f, "[")?;
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{}", v)?;
                }
                write!(f, "]")
            }
            Json::Obj(o) => {
                write!(f, "{{")?;
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        write!(f, ", ")?;
                    }
                    write!(f, "{}: {}", Json::Str(k.clone()), v)?;
                }
                write!(f, "}}")
            }
        }
    }
}
