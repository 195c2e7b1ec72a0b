//! Reference grammar of request frames (unsigned numbers, RESP type bytes).
use crate::resp::V;

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    /// one complete well-formed frame of that many bytes
    Complete(V, usize),
    /// proper prefix of a well-formed frame
    Prefix,
    /// no continuation is well formed, but the offending line is unfinished
    Open,
    /// malformed
    Bad,
    /// complete by shape (that many bytes); may be accepted or refused
    Loose(usize),
}
/// nesting every implementation must accept
pub const DEPTH_MUST: usize = 16;

enum R {
    Ok(V, usize, bool),
    Prefix,
    Open,
    Bad,
}
fn find(b: &[u8], p: usize) -> Option<usize> {
    let mut i = p;
    while i + 1 < b.len() {
        if b[i] == b'\r' && b[i + 1] == b'\n' {
            return Some(i);
        }
        i += 1;
    }
    None
}
/// (value, next, loose)
fn number(b: &[u8], p: usize) -> Result<(u64, usize, bool), R> {
    match find(b, p) {
        None => {
            let s = &b[p..];
            let (d, cr) = match s.last() {
                Some(b'\r') => (&s[..s.len() - 1], true),
                _ => (s, false),
            };
            if !d.iter().all(u8::is_ascii_digit) || (cr && d.is_empty()) {
                return Err(R::Open);
            }
            let t: Vec<u8> = d.iter().copied().skip_while(|c| *c == b'0').collect();
            if t.len() > 20 || (t.len() == 20 && &t[..] > b"18446744073709551615".as_slice()) {
                return Err(R::Open);
            }
            Err(R::Prefix)
        }
        Some(e) => {
            let d = &b[p..e];
            if d.is_empty() || !d.iter().all(u8::is_ascii_digit) {
                return Err(R::Bad);
            }
            let t: Vec<u8> = d.iter().copied().skip_while(|c| *c == b'0').collect();
            if t.len() > 20 || (t.len() == 20 && &t[..] > b"18446744073709551615".as_slice()) {
                return Err(R::Bad);
            }
            let n = t.iter().fold(0u64, |a, c| a * 10 + (c - b'0') as u64);
            // superfluous leading zeros may be refused when very long
            Ok((n, e + 2, d.len() > 16))
        }
    }
}
fn parse(b: &[u8], p: usize, depth: usize) -> R {
    if p >= b.len() {
        return R::Prefix;
    }
    if depth > 2000 {
        return R::Ok(V::Null, b.len(), true);
    }
    let mut loose = depth >= DEPTH_MUST;
    match b[p] {
        b'+' | b'-' => match find(b, p + 1) {
            None => R::Prefix,
            Some(e) => {
                let l = b[p + 1..e].to_vec();
                // text lines: other bytes than UTF-8 text may be refused
                loose |= std::str::from_utf8(&l).is_err() || l.iter().any(|c| *c == b'\r' || *c == b'\n');
                R::Ok(if b[p] == b'+' { V::Simple(l) } else { V::Err(l) }, e + 2, loose)
            }
        },
        b':' => match number(b, p + 1) {
            Ok((n, q, l)) => R::Ok(V::Int(n as i128), q, loose | l && n.to_string().len() != q - p - 3),
            Err(r) => r,
        },
        b'$' => {
            if b.get(p + 1) == Some(&b'-') {
                let want = b"-1\r\n";
                let have = &b[p + 1..];
                let n = have.len().min(4);
                if have[..n] != want[..n] {
                    return if find(b, p + 1).is_some() { R::Bad } else { R::Open };
                }
                return if n == 4 { R::Ok(V::Null, p + 5, loose) } else { R::Prefix };
            }
            match number(b, p + 1) {
                Err(r) => r,
                Ok((n, q, l)) => {
                    loose |= l && n.to_string().len() != q - p - 3;
                    // longer than any string the protocol allows: may be refused early
                    let big = n > (512 << 20);
                    let rest = &b[q..];
                    let n = n as u128;
                    if (rest.len() as u128) < n + 2 {
                        if rest.len() as u128 == n + 1 && rest[n as usize] != b'\r' {
                            return R::Open;
                        }
                        return if big { R::Open } else { R::Prefix };
                    }
                    let n = n as usize;
                    if &rest[n..n + 2] != b"\r\n" {
                        return R::Bad;
                    }
                    R::Ok(V::Bulk(rest[..n].to_vec()), q + n + 2, loose)
                }
            }
        }
        t @ (b'*' | b'%') => match number(b, p + 1) {
            Err(r) => r,
            Ok((n, mut q, l)) => {
                loose |= l && n.to_string().len() != q - p - 3;
                let big = n > (1 << 20);
                let (mut a, mut m) = (vec![], vec![]);
                let total = if t == b'*' { n as u128 } else { 2 * n as u128 };
                let mut key = None;
                let mut i = 0u128;
                while i < total {
                    match parse(b, q, depth + 1) {
                        R::Ok(v, r, lo) => {
                            loose |= lo;
                            q = r;
                            if t == b'*' {
                                a.push(v);
                            } else if key.is_none() {
                                key = Some(v);
                            } else {
                                m.push((key.take().unwrap(), v));
                            }
                        }
                        R::Prefix if big || loose => return R::Open,
                        r => return r,
                    }
                    i += 1;
                }
                R::Ok(if t == b'*' { V::Array(a) } else { V::Map(m) }, q, loose)
            }
        },
        _ => R::Bad,
    }
}
pub fn classify(b: &[u8]) -> Class {
    if b.is_empty() {
        return Class::Prefix;
    }
    match parse(b, 0, 0) {
        R::Ok(v, n, false) => Class::Complete(v, n),
        R::Ok(_, n, true) => Class::Loose(n),
        R::Prefix => Class::Prefix,
        R::Open => Class::Open,
        R::Bad => Class::Bad,
    }
}
