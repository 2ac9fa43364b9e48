//! Just enough JSON, so that the harness needs no crate beyond what seam itself pulls in.
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum J { Null, Bool(bool), Num(i64), Str(String), Arr(Vec<J>), Obj(BTreeMap<String, J>) }

impl J {
    pub fn get(&self, k: &str) -> Option<&J> { if let J::Obj(m) = self { m.get(k) } else { None } }
    pub fn str(&self) -> &str { if let J::Str(s) = self { s } else { "" } }
    pub fn arr(&self) -> &[J] { if let J::Arr(a) = self { a } else { &[] } }
    pub fn gets(&self, k: &str) -> &str { self.get(k).map_or("", |j| j.str()) }
    pub fn geta(&self, k: &str) -> &[J] { self.get(k).map_or(&[], |j| j.arr()) }
    pub fn geti(&self, k: &str, d: i64) -> i64 { if let Some(J::Num(n)) = self.get(k) { *n } else { d } }
}

pub fn parse(s: &str) -> J { let b = s.as_bytes(); let mut i = 0; value(b, &mut i) }

fn ws(b: &[u8], i: &mut usize) { while *i < b.len() && (b[*i] as char).is_whitespace() { *i += 1; } }

fn value(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1; let mut m = BTreeMap::new();
            loop {
                ws(b, i);
                if b[*i] == b'}' { *i += 1; return J::Obj(m); }
                if b[*i] == b',' { *i += 1; continue; }
                let k = string(b, i); ws(b, i); assert_eq!(b[*i], b':'); *i += 1;
                let v = value(b, i); m.insert(k, v);
            }
        },
        b'[' => {
            *i += 1; let mut a = vec![];
            loop {
                ws(b, i);
                if b[*i] == b']' { *i += 1; return J::Arr(a); }
                if b[*i] == b',' { *i += 1; continue; }
                a.push(value(b, i));
            }
        },
        b'"' => J::Str(string(b, i)),
        b't' => { *i += 4; J::Bool(true) },
        b'f' => { *i += 5; J::Bool(false) },
        b'n' => { *i += 4; J::Null },
        _ => {
            let s = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) { *i += 1; }
            J::Num(std::str::from_utf8(&b[s..*i]).unwrap().parse().unwrap())
        }
    }
}

fn hex4(b: &[u8], i: usize) -> u32 { u32::from_str_radix(std::str::from_utf8(&b[i..i+4]).unwrap(), 16).unwrap() }

fn string(b: &[u8], i: &mut usize) -> String {
    assert_eq!(b[*i], b'"'); *i += 1;
    let mut out: Vec<u8> = vec![];
    loop {
        match b[*i] {
            b'"' => { *i += 1; return String::from_utf8(out).unwrap(); },
            b'\\' => {
                *i += 1;
                let c = b[*i]; *i += 1;
                match c {
                    b'n' => out.push(b'\n'), b't' => out.push(b'\t'), b'r' => out.push(b'\r'),
                    b'b' => out.push(8), b'f' => out.push(12),
                    b'u' => {
                        let mut cp = hex4(b, *i); *i += 4;
                        if (0xD800..0xDC00).contains(&cp) {
                            let lo = hex4(b, *i + 2); *i += 6;
                            cp = 0x10000 + ((cp - 0xD800) << 10) + (lo - 0xDC00);
                        }
                        let mut buf = [0; 4];
                        out.extend(char::from_u32(cp).unwrap().encode_utf8(&mut buf).bytes());
                    },
                    c => out.push(c),
                }
            },
            c => { out.push(c); *i += 1; }
        }
    }
}

pub fn esc(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
