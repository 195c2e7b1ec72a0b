//! Independent reference codec for the RESP subset the server speaks.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    Simple(Vec<u8>),
    Err(Vec<u8>),
    Int(i128),
    Bulk(Vec<u8>),
    Null,
    Array(Vec<V>),
    Map(Vec<(V, V)>),
}

fn line(b: &[u8], p: usize) -> Option<usize> {
    (p..b.len().saturating_sub(1)).find(|&i| b[i] == b'\r' && b[i + 1] == b'\n')
}
fn num(b: &[u8]) -> Result<i128, String> {
    let (neg, d) = match b.first() {
        Some(b'-') => (true, &b[1..]),
        _ => (false, b),
    };
    if d.is_empty() || d.len() > 20 || !d.iter().all(u8::is_ascii_digit) {
        return Err(format!("bad number {:?}", lossy(b)));
    }
    let v: i128 = std::str::from_utf8(d).unwrap().parse().unwrap();
    Ok(if neg { -v } else { v })
}
/// Decode one value: Ok(None) = incomplete.
pub fn decode(b: &[u8], p: usize) -> Result<Option<(V, usize)>, String> {
    if p >= b.len() {
        return Ok(None);
    }
    let Some(e) = line(b, p) else { return Ok(None) };
    let body = &b[p + 1..e];
    let n = e + 2;
    match b[p] {
        b'+' | b'-' => {
            if body.iter().any(|c| *c == b'\r' || *c == b'\n') {
                return Err(format!("line break inside a line reply {:?}", lossy(body)));
            }
            if std::str::from_utf8(body).is_err() {
                return Err("line reply is not text".into());
            }
            Ok(Some((if b[p] == b'+' { V::Simple(body.to_vec()) } else { V::Err(body.to_vec()) }, n)))
        }
        b':' => Ok(Some((V::Int(num(body)?), n))),
        b'$' => {
            let l = num(body)?;
            if l == -1 {
                return Ok(Some((V::Null, n)));
            }
            if l < 0 {
                return Err("negative bulk length".into());
            }
            let l = l as usize;
            if b.len() < n + l + 2 {
                return Ok(None);
            }
            if &b[n + l..n + l + 2] != b"\r\n" {
                return Err("bulk not terminated by CRLF".into());
            }
            Ok(Some((V::Bulk(b[n..n + l].to_vec()), n + l + 2)))
        }
        b'*' | b'%' => {
            let l = num(body)?;
            if l < 0 {
                return Err("negative aggregate length".into());
            }
            let mut q = n;
            if b[p] == b'*' {
                let mut v = Vec::new();
                for _ in 0..l {
                    match decode(b, q)? {
                        Some((x, r)) => {
                            v.push(x);
                            q = r;
                        }
                        None => return Ok(None),
                    }
                }
                Ok(Some((V::Array(v), q)))
            } else {
                let mut v = Vec::new();
                for _ in 0..l {
                    let Some((k, r)) = decode(b, q)? else { return Ok(None) };
                    let Some((x, r2)) = decode(b, r)? else { return Ok(None) };
                    q = r2;
                    v.push((k, x));
                }
                Ok(Some((V::Map(v), q)))
            }
        }
        c => Err(format!("reply starts with byte {c:#x}")),
    }
}
/// All replies in a stream; Err when malformed, `rest` = trailing incomplete bytes.
pub fn decode_all(b: &[u8]) -> Result<(Vec<V>, usize), String> {
    let mut p = 0;
    let mut out = Vec::new();
    while let Some((v, n)) = decode(b, p).map_err(|e| format!("reply #{}: {}", out.len(), e))? {
        out.push(v);
        p = n;
    }
    Ok((out, b.len() - p))
}
pub fn lossy(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(200) {
        if (0x20..0x7f).contains(&c) && c != b'\\' {
            s.push(c as char)
        } else {
            s.push_str(&format!("\\x{c:02x}"))
        }
    }
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
pub fn show(v: &V) -> String {
    match v {
        V::Simple(b) => format!("+{}", lossy(b)),
        V::Err(b) => format!("-{}", lossy(b)),
        V::Int(i) => format!(":{i}"),
        V::Bulk(b) => format!("${:?}", lossy(b)),
        V::Null => "nil".into(),
        V::Array(a) => format!("[{}]", a.iter().map(show).collect::<Vec<_>>().join(", ")),
        V::Map(a) => format!("{{{}}}", a.iter().map(|(k, v)| format!("{}={}", show(k), show(v))).collect::<Vec<_>>().join(", ")),
    }
}
pub fn bulk(b: &[u8]) -> Vec<u8> {
    let mut o = format!("${}\r\n", b.len()).into_bytes();
    o.extend_from_slice(b);
    o.extend_from_slice(b"\r\n");
    o
}
/// A command as an array of bulk strings.
pub fn cmd(parts: &[&[u8]]) -> Vec<u8> {
    let mut o = format!("*{}\r\n", parts.len()).into_bytes();
    for p in parts {
        o.extend(bulk(p));
    }
    o
}
pub fn cmds(s: &str) -> Vec<u8> {
    let p: Vec<&[u8]> = s.split(' ').map(|x| x.as_bytes()).collect();
    cmd(&p)
}
