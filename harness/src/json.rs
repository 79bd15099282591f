//! An independent strict JSON reader/writer (RFC 8259 / json.org), used as oracle and for the
//! harness's own files. Numbers keep their spelling.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn s(s: &str) -> J {
        J::Str(s.to_string())
    }
    pub fn n(n: u64) -> J {
        J::Num(n.to_string())
    }
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|(a, _)| a == k).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn str(&self, k: &str) -> Option<&str> {
        match self.get(k) {
            Some(J::Str(s)) => Some(s),
            _ => None,
        }
    }
    pub fn u64(&self) -> Option<u64> {
        match self {
            J::Num(n) => n.parse().ok(),
            _ => None,
        }
    }
}

fn esc(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f || ((c as u32) >= 0x80 && (c as u32) < 0xa0) => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

impl std::fmt::Display for J {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut o = String::new();
        wr(&mut o, self);
        f.write_str(&o)
    }
}

fn wr(o: &mut String, j: &J) {
    match j {
        J::Null => o.push_str("null"),
        J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        J::Num(n) => o.push_str(n),
        J::Str(s) => esc(o, s),
        J::Arr(a) => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                wr(o, x);
            }
            o.push(']');
        }
        J::Obj(a) => {
            o.push('{');
            for (i, (k, x)) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                esc(o, k);
                o.push(':');
                wr(o, x);
            }
            o.push('}');
        }
    }
}

/// Lexical tokens of JSON, as an oracle for the tokenizer under test.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Null,
    True,
    False,
    Str(String),
    Num(String),
    Punct(char),
}

/// Position-based reference lexer: returns the token starting at `pos` (after JSON whitespace)
/// and the position after it; Ok(None) at the end of the input.
pub fn lex(s: &[char], mut pos: usize) -> Result<Option<(Tok, usize)>, String> {
    while pos < s.len() && matches!(s[pos], ' ' | '\t' | '\n' | '\r') {
        pos += 1;
    }
    if pos == s.len() {
        return Ok(None);
    }
    let c = s[pos];
    if matches!(c, '[' | ']' | '{' | '}' | ',' | ':') {
        return Ok(Some((Tok::Punct(c), pos + 1)));
    }
    for (w, t) in [("null", Tok::Null), ("true", Tok::True), ("false", Tok::False)] {
        let n = w.len();
        if pos + n <= s.len() && s[pos..pos + n].iter().copied().eq(w.chars()) {
            // a literal name does not run on into a letter or digit
            if pos + n < s.len() && s[pos + n].is_alphanumeric() {
                return Err("bad literal".into());
            }
            return Ok(Some((t, pos + n)));
        }
    }
    if c == '"' {
        let mut out = String::new();
        let mut i = pos + 1;
        let hex4 = |i: usize| -> Result<u32, String> {
            if i + 4 > s.len() {
                return Err("truncated \\u".into());
            }
            let mut v = 0;
            for k in 0..4 {
                let d = match s[i + k] {
                    c @ '0'..='9' => c as u32 - '0' as u32,
                    c @ 'a'..='f' => c as u32 - 'a' as u32 + 10,
                    c @ 'A'..='F' => c as u32 - 'A' as u32 + 10,
                    _ => return Err("bad hex digit".into()),
                };
                v = v * 16 + d;
            }
            Ok(v)
        };
        loop {
            if i >= s.len() {
                return Err("unterminated string".into());
            }
            match s[i] {
                '"' => return Ok(Some((Tok::Str(out), i + 1))),
                '\\' => {
                    i += 1;
                    if i >= s.len() {
                        return Err("truncated escape".into());
                    }
                    match s[i] {
                        '"' => out.push('"'),
                        '\\' => out.push('\\'),
                        '/' => out.push('/'),
                        'b' => out.push('\u{8}'),
                        'f' => out.push('\u{c}'),
                        'n' => out.push('\n'),
                        'r' => out.push('\r'),
                        't' => out.push('\t'),
                        'u' => {
                            let a = hex4(i + 1)?;
                            i += 4;
                            if (0xd800..0xdc00).contains(&a) {
                                if i + 2 < s.len() && s[i + 1] == '\\' && s[i + 2] == 'u' {
                                    let b = hex4(i + 3)?;
                                    if !(0xdc00..0xe000).contains(&b) {
                                        return Err("lone surrogate".into());
                                    }
                                    i += 6;
                                    out.push(char::from_u32(0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)).unwrap());
                                } else {
                                    return Err("lone surrogate".into());
                                }
                            } else if (0xdc00..0xe000).contains(&a) {
                                return Err("lone surrogate".into());
                            } else {
                                out.push(char::from_u32(a).unwrap());
                            }
                        }
                        _ => return Err("bad escape".into()),
                    }
                    i += 1;
                }
                c if (c as u32) < 0x20 => return Err("control character in string".into()),
                c => {
                    out.push(c);
                    i += 1;
                }
            }
        }
    }
    if c == '-' || c.is_ascii_digit() {
        let mut i = pos;
        let digit = |i: usize| i < s.len() && s[i].is_ascii_digit();
        if s[i] == '-' {
            i += 1;
        }
        if !digit(i) {
            return Err("bad number".into());
        }
        if s[i] == '0' {
            i += 1;
        } else {
            while digit(i) {
                i += 1;
            }
        }
        if i < s.len() && s[i] == '.' {
            i += 1;
            if !digit(i) {
                return Err("fraction without digits".into());
            }
            while digit(i) {
                i += 1;
            }
        }
        if i < s.len() && (s[i] == 'e' || s[i] == 'E') {
            i += 1;
            if i < s.len() && (s[i] == '+' || s[i] == '-') {
                i += 1;
            }
            if !digit(i) {
                return Err("exponent without digits".into());
            }
            while digit(i) {
                i += 1;
            }
        }
        return Ok(Some((Tok::Num(s[pos..i].iter().collect()), i)));
    }
    Err(format!("unexpected character {:?}", c))
}

/// All tokens up to the end or the first error.
pub fn lex_all(input: &str) -> (Vec<Tok>, Option<String>) {
    let s: Vec<char> = input.chars().collect();
    let mut pos = 0;
    let mut out = vec![];
    loop {
        match lex(&s, pos) {
            Ok(None) => return (out, None),
            Ok(Some((t, p))) => {
                out.push(t);
                pos = p;
            }
            Err(e) => return (out, Some(e)),
        }
    }
}

pub fn parse(input: &str) -> Result<J, String> {
    let (toks, err) = lex_all(input);
    if let Some(e) = err {
        return Err(e);
    }
    let mut pos = 0;
    let j = value(&toks, &mut pos, 0)?;
    if pos != toks.len() {
        return Err("content after the value".into());
    }
    Ok(j)
}

fn value(t: &[Tok], pos: &mut usize, depth: usize) -> Result<J, String> {
    if depth > 2000 {
        return Err("too deep".into());
    }
    let tok = t.get(*pos).ok_or("unexpected end")?.clone();
    *pos += 1;
    Ok(match tok {
        Tok::Null => J::Null,
        Tok::True => J::Bool(true),
        Tok::False => J::Bool(false),
        Tok::Str(s) => J::Str(s),
        Tok::Num(n) => J::Num(n),
        Tok::Punct('[') => {
            let mut a = vec![];
            if t.get(*pos) == Some(&Tok::Punct(']')) {
                *pos += 1;
                return Ok(J::Arr(a));
            }
            loop {
                a.push(value(t, pos, depth + 1)?);
                match t.get(*pos) {
                    Some(Tok::Punct(',')) => *pos += 1,
                    Some(Tok::Punct(']')) => {
                        *pos += 1;
                        return Ok(J::Arr(a));
                    }
                    _ => return Err("expected , or ]".into()),
                }
            }
        }
        Tok::Punct('{') => {
            let mut a = vec![];
            if t.get(*pos) == Some(&Tok::Punct('}')) {
                *pos += 1;
                return Ok(J::Obj(a));
            }
            loop {
                let k = match t.get(*pos) {
                    Some(Tok::Str(s)) => s.clone(),
                    _ => return Err("expected a member name".into()),
                };
                *pos += 1;
                if t.get(*pos) != Some(&Tok::Punct(':')) {
                    return Err("expected :".into());
                }
                *pos += 1;
                a.push((k, value(t, pos, depth + 1)?));
                match t.get(*pos) {
                    Some(Tok::Punct(',')) => *pos += 1,
                    Some(Tok::Punct('}')) => {
                        *pos += 1;
                        return Ok(J::Obj(a));
                    }
                    _ => return Err("expected , or }".into()),
                }
            }
        }
        Tok::Punct(c) => return Err(format!("unexpected {}", c)),
    })
}
