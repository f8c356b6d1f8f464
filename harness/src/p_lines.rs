//! P21: byte string comparisons and lookups. P22: numbers in messages.
//! P28: odd request and status lines, HTTP/0.9.
use crate::drive::*;
use crate::engine::*;
use crate::gen::unwanted;
use crate::p_traffic::method_number;
use crate::traffic::*;
use htp::bstr::Bstr;
use htp::config::*;
use htp::connection::ConnectionFlags;
use htp::connection_parser::{HtpStreamState as S};
use htp::log::HtpLogCode as C;
use htp::table::Table;
use htp::transaction::*;
use htp::util::HtpFlags as F;
use std::cmp::Ordering;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P21",
        rule: "random byte strings over small alphabets with case changes, zeros and white space; non-trivial when a lookup or search found something",
        run: p21,
        quick: 4_000_000,
    },
    Prop {
        id: "P22",
        rule: "numbers written in every way at and around their bounds inside messages; non-trivial when the number is at least three characters long",
        run: p22,
        quick: 1_500_000,
    },
    Prop {
        id: "P28",
        rule: "request and status lines with odd white space, missing parts, spaces in targets and odd versions; non-trivial when the line is not of the standard form",
        run: p28,
        quick: 1_500_000,
    },
];

fn bs(b: &Option<Bstr>) -> String {
    b.as_ref().map(|x| esc(x)).unwrap_or("-".into())
}

// ---- P21 ----------------------------------------------------------------------
fn small(s: &mut Src, hi: usize) -> Vec<u8> {
    let hi = if s.chance(1, 500) { 700 } else { hi };
    s.bytes_from(b"aAbBzZ-\0 \t0", 0, hi)
}
fn low(b: &[u8]) -> Vec<u8> {
    b.iter().map(|c| if (b'A'..=b'Z').contains(c) { c + 32 } else { *c }).collect()
}
fn nozero(b: &[u8]) -> Vec<u8> {
    b.iter().copied().filter(|c| *c != 0).collect()
}
fn strip(b: &[u8]) -> &[u8] {
    let ws = |c: &u8| matches!(c, b' ' | b'\t' | b'\r' | b'\n' | 0x0c);
    let a = b.iter().position(|c| !ws(c)).unwrap_or(b.len());
    let z = b.iter().rposition(|c| !ws(c)).map(|x| x + 1).unwrap_or(a);
    &b[a..z]
}
/// First place where `n` starts in `h` with zeros of `h` taken as absent.
fn search(h: &[u8], n: &[u8], skip0: bool) -> Option<usize> {
    if n.is_empty() {
        return None;
    }
    for i in 0..h.len() {
        if skip0 && h[i] == 0 {
            continue;
        }
        let rest: Vec<u8> = if skip0 { nozero(&h[i..]) } else { h[i..].to_vec() };
        if low(&rest).starts_with(&low(n)) {
            return Some(i);
        }
    }
    None
}
fn twist(s: &mut Src, b: &[u8]) -> Vec<u8> {
    // the same up to case, zeros and white space, most of the time
    let mut v = vec![];
    for c in b {
        if s.chance(1, 12) {
            v.push(0);
        }
        let c = if s.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        v.push(c);
    }
    match s.below(6) {
        0 => v.insert(0, b' '),
        1 => v.push(b'\t'),
        2 if !v.is_empty() => {
            let i = s.u(v.len());
            v[i] = s.byte();
        }
        3 => v.push(b'b'),
        _ => {}
    }
    v
}
fn p21(s: &mut Src, case: &mut Case) -> Result<(), String> {
    if s.chance(1, 3) {
        return p21_tables(s, case);
    }
    let a = if s.chance(1, 8) { s.bytes_from(&(0..=255).collect::<Vec<u8>>(), 0, 12) } else { small(s, 14) };
    let b = match s.below(4) {
        0 => small(s, 5),
        1 => twist(s, &a),
        2 => {
            let i = s.u(a.len() + 1);
            let j = s.range(i, a.len());
            twist(s, &a[i..j])
        }
        _ => nozero(&a),
    };
    case.describe(|| format!("{} and {}", esc(&a), esc(&b)));
    let x = Bstr::from(a.as_slice());
    ensure_eq!(case, x.cmp_slice(&b), a.cmp(&b), "cmp_slice");
    ensure_eq!(case, x.eq_slice(&b), a == b, "eq_slice");
    ensure_eq!(case, x.cmp_nocase(&b), low(&a).cmp(&low(&b)), "cmp_nocase");
    ensure_eq!(case, x.eq_nocase(&b), low(&a) == low(&b), "eq_nocase");
    ensure_eq!(case, x.cmp_nocase_nozero(&b), low(&nozero(&a)).cmp(&low(&b)), "cmp_nocase_nozero");
    ensure_eq!(case, x.eq_nocase_nozero(&b), low(&nozero(&a)) == low(&b), "eq_nocase_nozero");
    let edge = |v: &[u8]| v.iter().any(|c| *c >= 0x80 || *c == 0x0b);
    if !edge(&a) {
        ensure_eq!(case, x.cmp_nocase_trimmed(&b), low(strip(&a)).cmp(&low(&b)), "cmp_nocase_trimmed");
        ensure_eq!(case, x.cmp_nocase_nozero_trimmed(&b), low(&nozero(strip(&a))).cmp(&low(&b)), "cmp_nocase_nozero_trimmed");
    }
    ensure_eq!(case, x.starts_with(&b), a.starts_with(&b), "starts_with");
    ensure_eq!(case, x.starts_with_nocase(&b), low(&a).starts_with(&low(&b)), "starts_with_nocase");
    let find = if b.is_empty() { Some(0) } else { a.windows(b.len()).position(|w| w == b) };
    ensure_eq!(case, x.index_of(&b), find, "index_of");
    ensure_eq!(case, x.index_of_nocase(&b), search(&a, &b, false), "index_of_nocase");
    let z = search(&a, &b, true);
    ensure_eq!(case, x.index_of_nocase_nozero(&b), z, "index_of_nocase_nozero");
    let mut y = x.clone();
    y.add(&b);
    ensure_eq!(case, esc(&y), esc(&[a.clone(), b.clone()].concat()), "add");
    let cap = s.range(0, 20);
    let mut y = Bstr::with_capacity(cap);
    let room = y.capacity();
    y.add_noex(&a);
    y.add_noex(&b);
    let mut w = [a.clone(), b.clone()].concat();
    w.truncate(room);
    ensure_eq!(case, esc(&y), esc(&w), "add_noex in {}", room);
    ensure_eq!(case, y.capacity(), room, "capacity after add_noex");
    if !b.is_empty() {
        let got: Vec<String> = x.split_str_collect(&b).iter().map(|p| esc(p)).collect();
        let mut want = vec![];
        let (mut p, mut i) = (0, 0);
        while i + b.len() <= a.len() {
            if a[i..].starts_with(&b) {
                want.push(esc(&a[p..i]));
                i += b.len();
                p = i;
            } else {
                i += 1;
            }
        }
        want.push(esc(&a[p..]));
        ensure_eq!(case, got, want, "split_str_collect");
    }
    case.nontrivial = z.is_some() && b.len() > 1;
    Ok(())
}

fn p21_tables(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let n = if s.chance(1, 300) { s.range(8, 400) } else { s.range(0, 8) };
    let names: Vec<Vec<u8>> = (0..n).map(|_| small(s, 4)).collect();
    let key = if n > 0 && s.chance(3, 4) {
        let i = s.u(n);
        let k = low(&nozero(strip(&names[i])));
        twist(s, &k)
    } else {
        small(s, 4)
    };
    case.describe(|| format!("key {} in {:?}", esc(&key), names.iter().map(|x| esc(x)).collect::<Vec<_>>()));
    let mut t: Table<usize> = Table::with_capacity(2);
    let mut h = Headers::with_capacity(2);
    for (i, k) in names.iter().enumerate() {
        t.add(Bstr::from(k.as_slice()), i);
        h.elements.push(Header::new(Bstr::from(k.as_slice()), Bstr::from(i.to_string().as_str())));
    }
    let plain = names.iter().position(|k| low(strip(k)) == low(&key));
    let zero = names.iter().position(|k| low(&nozero(strip(k))) == low(&key));
    ensure_eq!(case, t.size(), n, "table size");
    ensure_eq!(case, t.get_nocase(&key).map(|x| x.1), plain, "table lookup");
    let num = |h: Option<&Header>| h.map(|h| esc(&h.value).parse::<usize>().unwrap());
    ensure_eq!(case, h.size(), n, "headers size");
    ensure_eq!(case, num(h.get_nocase(&key)), plain, "header lookup");
    ensure_eq!(case, num(h.get_nocase_nozero(&key)), zero, "header lookup without zeros");
    ensure_eq!(case, num(h.get_nocase_mut(&key).map(|x| &*x)), plain, "mutable header lookup");
    ensure_eq!(case, num(h.get_nocase_nozero_mut(&key).map(|x| &*x)), zero, "mutable header lookup without zeros");
    for i in 0..n + 1 {
        ensure_eq!(case, t.get(i).map(|x| x.1), (i < n).then_some(i), "table index {}", i);
    }
    let order: Vec<usize> = (&t).into_iter().map(|x| x.1).collect();
    ensure_eq!(case, order, (0..n).collect::<Vec<_>>(), "order of the table");
    let order: Vec<usize> = (&h).into_iter().map(|x| num(Some(x)).unwrap()).collect();
    ensure_eq!(case, order, (0..n).collect::<Vec<_>>(), "order of the headers");
    case.nontrivial = zero.is_some();
    case.label(if plain.is_some() { "found" } else if zero.is_some() { "found without zeros" } else { "not found" });
    Ok(())
}

// ---- P22 ----------------------------------------------------------------------
fn p22(s: &mut Src, case: &mut Case) -> Result<(), String> {
    match s.below(5) {
        0 => status_texts(s, case),
        1 => versions(s, case),
        2 | 3 => lengths(s, case),
        _ => chunk_lengths(s, case),
    }
}
fn feed(s: &mut Src, c: &mut Conn, req: bool, b: &[u8]) -> S {
    let mut st = S::DATA;
    if b.is_empty() {
        return st;
    }
    let cuts = gen_cuts(s, b.len(), &[]);
    let mut p = 0;
    for k in cuts.into_iter().chain([b.len()]) {
        if k > p {
            st = if req { c.feed_req(&b[p..k]) } else { c.feed_res(&b[p..k]) };
            p = k;
        }
    }
    st
}
pub fn status_number(t: &[u8]) -> HtpResponseNumber {
    if t.is_empty() || !t.iter().all(|c| c.is_ascii_digit()) {
        return HtpResponseNumber::INVALID;
    }
    // leading zeros do not count
    let z = t.iter().position(|c| *c != b'0').unwrap_or(t.len());
    let d = &t[z..];
    if d.len() != 3 {
        return HtpResponseNumber::INVALID;
    }
    HtpResponseNumber::VALID(d.iter().fold(0u16, |a, c| a * 10 + (c - b'0') as u16))
}
fn status_text(s: &mut Src) -> Vec<u8> {
    match s.below(6) {
        0 => s.bytes_from(b"0123456789", 1, 7),
        1 => s.bytes_from(b"0123456789+-.xX\0:", 1, 5),
        2 => [vec![b'0'; s.range(1, 4)], s.range(0, 1100).to_string().into_bytes()].concat(),
        3 => (*s.pick(&["65636", "65536", "65735", "100", "999", "99", "1000", "0", "099", "000200", "4294967496", "18446744073709551816"])).as_bytes().to_vec(),
        _ => s.range(0, 1100).to_string().into_bytes(),
    }
}
fn status_texts(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let t = status_text(s);
    let proto = *s.pick(&[b"HTTP/1.1" as &[u8], b"HTTP/1.0", b"http/1.1", b"HTTP/1.2"]);
    let b = [proto, b" ", &t, b" R e\r\nX: y\r\n"].concat();
    case.describe(|| esc(&b));
    let mut c = Conn::new(base_config());
    c.feed_req(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    feed(s, &mut c, false, &b);
    let tx = c.connp.tx(0).unwrap();
    let want = status_number(&t);
    ensure_eq!(case, bs(&tx.response_status), esc(&t), "status text");
    ensure_eq!(case, tx.response_status_number, want, "status number");
    ensure_eq!(case, bs(&tx.response_message), esc(b"R e"), "reason");
    let bad = want == HtpResponseNumber::INVALID || version(proto) == HtpProtocol::INVALID;
    ensure_eq!(case, tx.flags & F::STATUS_LINE_INVALID != 0, bad, "mark of the status line");
    case.nontrivial = t.len() > 2;
    case.label(if want == HtpResponseNumber::INVALID { "invalid status" } else { "valid status" });
    Ok(())
}
use htp::transaction::HtpProtocol;
/// HTTP/ version with leading zeros, white space around the slash and around it all.
pub fn version(t: &[u8]) -> HtpProtocol {
    let ws = |c: u8| matches!(c, b' ' | b'\t' | b'\r' | b'\n' | 0x0c);
    let mut v = t.to_vec();
    while v.first().is_some_and(|c| ws(*c)) {
        v.remove(0);
    }
    while v.last().is_some_and(|c| ws(*c)) {
        v.pop();
    }
    if v.len() < 4 || !v[..4].eq_ignore_ascii_case(b"http") {
        return HtpProtocol::INVALID;
    }
    v.drain(..4);
    while v.first().is_some_and(|c| ws(*c)) {
        v.remove(0);
    }
    if v.first() != Some(&b'/') {
        return HtpProtocol::INVALID;
    }
    v.remove(0);
    while v.first().is_some_and(|c| ws(*c) || *c == b'0') {
        v.remove(0);
    }
    match v.as_slice() {
        b".9" => HtpProtocol::V0_9,
        b"1.0" => HtpProtocol::V1_0,
        b"1.1" => HtpProtocol::V1_1,
        _ => HtpProtocol::INVALID,
    }
}
fn version_text(s: &mut Src) -> Vec<u8> {
    match s.below(5) {
        0 => {
            let k = s.bytes_from(b"0123.9", 1, 5);
            [b"HTTP/" as &[u8], &k].concat()
        }
        1 => s.bytes_from(b"HTPhtp/10.9", 1, 9),
        2 => {
            let mut v = (*s.pick(&[b"HTTP/1.1" as &[u8], b"HTTP/1.0", b"HTTP/0.9", b"http/01.1"])).to_vec();
            let i = s.u(v.len());
            match s.below(3) {
                0 => v[i] ^= 0x20,
                1 => { v.remove(i); }
                _ => v.insert(i, *s.pick(b"0H/1.")),
            }
            v
        }
        _ => (*s.pick(&[b"HTTP/1.1" as &[u8], b"HTTP/1.0", b"HTTP/0.9", b"HTTP/.9", b"HTTP/2", b"HTTP/2.0", b"HTTP/1.2", b"HTTP/1.10", b"HTTP/11.1", b"HTTP/001.0", b"hTtP/1.1", b"HTTP/1.1x", b"HTTP", b"HTTP/", b"HTTPS/1.1"])).to_vec(),
    }
}
fn versions(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let t = version_text(s);
    let mut c = Conn::new(base_config());
    let b = [b"GET /x ", t.as_slice(), b"\r\nHost: a\r\n\r\n"].concat();
    case.describe(|| esc(&b));
    feed(s, &mut c, true, &b);
    let tx = c.connp.tx(0).unwrap();
    ensure_eq!(case, bs(&tx.request_protocol), esc(&t), "protocol text of the request");
    ensure_eq!(case, tx.request_protocol_number, version(&t), "protocol number of the request");
    ensure_eq!(case, tx.request_progress, HtpRequestProgress::COMPLETE, "progress of the request");
    ensure!(case, !tx.is_protocol_0_9, "a request with a version is not a short HTTP/0.9 one");
    case.nontrivial = t.len() > 2;
    let mut r = t.clone();
    if !(r.len() >= 4 && r[..4].eq_ignore_ascii_case(b"http")) {
        // anything else is not taken for a status line
        r = [b"HTTP/" as &[u8], &r].concat();
    }
    let b = [r.as_slice(), b" 200 OK\r\nContent-Length: 1\r\n\r\nx"].concat();
    case.describe(|| esc(&b));
    feed(s, &mut c, false, &b);
    let tx = c.connp.tx(0).unwrap();
    ensure_eq!(case, bs(&tx.response_protocol), esc(&r), "protocol text of the response");
    ensure_eq!(case, tx.response_protocol_number, version(&r), "protocol number of the response");
    ensure_eq!(case, tx.flags & F::STATUS_LINE_INVALID != 0, version(&r) == HtpProtocol::INVALID, "mark of the status line");
    ensure_eq!(case, tx.response_progress, HtpResponseProgress::COMPLETE, "progress of the response");
    Ok(())
}

pub fn big(s: &mut Src) -> u64 {
    let base = *s.pick(&[1u64 << 31, 1 << 32, 1 << 63, u64::MAX, 1 << 16, 1 << 53, 10_000_000_000_000_000_000]);
    match s.below(3) {
        0 => base.wrapping_add(s.below(5)).max(40),
        1 => base.saturating_sub(s.below(5)),
        _ => 40 + s.below(u64::MAX - 40),
    }
}
/// Content-Length values at the edges; most of the body is missing bytes.
fn lengths(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let req = s.bool();
    if s.chance(1, 4) {
        // too large to be a number
        let mut t = *s.pick(&["18446744073709551616", "99999999999999999999", "18446744073709551615000", "340282366920938463463374607431768211456"]);
        let z = "0".repeat(s.range(0, 3));
        let text = format!("{}{}", z, t);
        t = &text;
        let mut c = Conn::new(base_config());
        let h = format!("POST / HTTP/1.1\r\nHost: a\r\nContent-Length: {}\r\n\r\n", if req { t } else { "0" });
        case.describe(|| esc(h.as_bytes()));
        feed(s, &mut c, true, h.as_bytes());
        if req {
            let tx = c.connp.tx(0).unwrap();
            ensure_eq!(case, tx.request_content_length, None, "length {}", t);
            ensure!(case, tx.flags & F::REQUEST_INVALID_C_L != 0, "length {} is not marked as invalid", t);
        } else {
            let h = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\nbody", t);
            case.describe(|| esc(h.as_bytes()));
            feed(s, &mut c, false, h.as_bytes());
            ensure_eq!(case, c.connp.tx(0).unwrap().response_content_length, None, "length {}", t);
        }
        case.nontrivial = true;
        case.label("beyond 64 bits");
        return Ok(());
    }
    let n = if s.chance(1, 4) { s.below(50) } else { big(s) };
    let text = format!("{}{}", "0".repeat(if s.chance(1, 4) { s.range(1, 30) } else { 0 }), n);
    let ws = *s.pick(&["", " ", "\t", "  "]);
    let head = if req {
        format!("POST / HTTP/1.1\r\nHost: a\r\nContent-Length: {}{}\r\n\r\n", text, ws)
    } else {
        format!("HTTP/1.1 200 OK\r\nContent-Length:{}{}\r\n\r\n", ws, text)
    };
    let mut c = Conn::new(base_config());
    if !req {
        c.feed_req(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    }
    case.describe(|| esc(head.as_bytes()));
    feed(s, &mut c, req, head.as_bytes());
    // some bytes, a long gap or two, some bytes
    let a = s.below(20).min(n);
    let z = s.below(20).min(n - a);
    let mid = n - a - z;
    let b1 = s.bytes_from(b"abc\r\n", a as usize, a as usize);
    let b2 = s.bytes_from(b"xyz\r\n", z as usize, z as usize);
    let g1 = if s.bool() { mid } else { mid / 3 };
    case.describe(|| format!("body: {} gap {} gap {} {}", esc(&b1), g1, mid - g1, esc(&b2)));
    feed(s, &mut c, req, &b1);
    let field = |c: &Conn| {
        let tx = c.connp.tx(0).unwrap();
        if req { (tx.request_content_length, tx.request_message_len, tx.request_progress == HtpRequestProgress::COMPLETE) }
        else { (tx.response_content_length, tx.response_message_len, tx.response_progress == HtpResponseProgress::COMPLETE) }
    };
    if a == n && req {
        // complete, the transaction is final
    }
    ensure_eq!(case, field(&c), (Some(n), a, a == n), "length, bytes seen, complete after the first piece");
    for g in [g1, mid - g1] {
        if g > 0 {
            let st = c.op(&if req { Op::ReqGap(g as usize) } else { Op::ResGap(g as usize) });
            ensure_eq!(case, st, Some(S::DATA), "answer to a gap of {}", g);
        }
    }
    ensure_eq!(case, field(&c), (Some(n), n - z, z == 0), "length, bytes seen, complete before the last piece");
    feed(s, &mut c, req, &b2);
    ensure_eq!(case, field(&c), (Some(n), n, true), "length, bytes seen, complete at the end");
    // what follows is a message of its own
    if req {
        c.feed_req(b"GET /next HTTP/1.1\r\nHost: a\r\n\r\n");
        let tx = c.connp.tx(1);
        ensure!(case, tx.is_some_and(|t| bs(&t.request_uri) == "/next"), "the request after a body of {}", n);
    } else {
        c.feed_req(b"GET /next HTTP/1.1\r\nHost: a\r\n\r\n");
        c.feed_res(b"HTTP/1.1 404 No\r\nContent-Length: 0\r\n\r\n");
        let tx = c.connp.tx(1);
        ensure!(case, tx.is_some_and(|t| t.response_status_number == HtpResponseNumber::VALID(404)), "the response after a body of {}", n);
    }
    case.nontrivial = n > 99;
    case.label(if n > u32::MAX as u64 { "length beyond 32 bits" } else { "length" });
    Ok(())
}

fn chunk_lengths(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let req = s.bool();
    // (text, value): None when it is not a usable length
    let zeros = "0".repeat(if s.chance(1, 3) { s.range(1, 20) } else { 0 });
    let (mut text, val): (Vec<u8>, Option<u64>) = match s.below(6) {
        0 => {
            let v = *s.pick(&[0x7fff_ffffu64, 0x7fff_fffe, 0xffff, 0x10000, 0x1000_0000, 0x0fff_ffff]);
            (format!("{}{:x}", zeros, v).into_bytes(), Some(v))
        }
        1 if req => {
            let t = *s.pick(&["80000000", "ffffffff", "100000000", "7fffffffffffffff", "ffffffffffffffff", "10000000000000000", "fffffffffffffffff"]);
            (format!("{}{}", zeros, t).into_bytes(), None)
        }
        1 => {
            let t = *s.pick(&["10000000000000000", "fffffffffffffffff", "123456789abcdef01"]);
            (t.as_bytes().to_vec(), None)
        }
        2 => {
            let mut v = s.bytes_from(b"ghxyz-+_=.#", 1, 3);
            v.extend(s.bytes_from(b"0123ab", 0, 3));
            (v, None)
        }
        _ => {
            let v = 1 + s.below(30);
            let t = if s.bool() { format!("{}{:x}", zeros, v) } else { format!("{}{:X}", zeros, v) };
            (t.into_bytes(), Some(v))
        }
    };
    if val.is_some() {
        if s.chance(1, 4) {
            let lead = *s.pick(&[b" " as &[u8], b"\t", b"  "]);
            text = [lead, &text].concat();
        }
        if s.chance(1, 4) {
            let e = *s.pick(&[b" " as &[u8], b"; a=b", b";", b" ;x", b" junk", b"\t", b"g"]);
            text.extend_from_slice(e);
        }
    }
    let line = [&text[..], b"\r\n"].concat();
    let head: &[u8] = if req { b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n" } else { b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" };
    case.describe(|| format!("{} chunk length line {}", if req { "request" } else { "response" }, esc(&line)));
    let mut c = Conn::new(base_config());
    if !req {
        c.feed_req(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    }
    let body_k = if req { K::ReqBody } else { K::ResBody };
    let all = [head, &line].concat();
    let st = feed(s, &mut c, req, &all);
    match val {
        Some(v) => {
            ensure_eq!(case, st, S::DATA, "answer to the length line");
            let n = v.min(40) as usize;
            let b = s.bytes_from(b"ab\r\n0", n, n);
            feed(s, &mut c, req, &b);
            ensure_eq!(case, esc(&data_of(&c.events(), body_k, 0)), esc(&b), "body data for a chunk of {}", v);
            if v <= 40 {
                feed(s, &mut c, req, b"\r\n0\r\n\r\n");
                let tx = c.connp.tx(0).unwrap();
                let (done, len) = if req { (tx.request_progress == HtpRequestProgress::COMPLETE, tx.request_message_len) } else { (tx.response_progress == HtpResponseProgress::COMPLETE, tx.response_message_len) };
                ensure!(case, done, "the message is not complete after its last chunk");
                // framing counts, but not the empty line behind the last chunk
                ensure_eq!(case, len, (line.len() + n + 2 + 3) as u64, "message length");
                ensure_eq!(case, esc(&data_of(&c.events(), body_k, 0)), esc(&b), "body data after the end");
            } else {
                let tx = c.connp.tx(0).unwrap();
                let left = if req { tx.request_progress == HtpRequestProgress::BODY } else { tx.response_progress == HtpResponseProgress::BODY };
                ensure!(case, left, "a chunk of {} ends early", v);
            }
            case.label("usable length");
        }
        None if req => {
            ensure_eq!(case, st, S::ERROR, "answer to an unusable length");
            ensure!(case, data_of(&c.events(), body_k, 0).is_empty(), "body data after an unusable length");
            case.label("unusable length in a request");
        }
        None => {
            // everything from the line on is the body, up to the end of the connection
            let rest = s.bytes_from(b"ab\r\n0", 0, 20);
            feed(s, &mut c, false, &rest);
            c.op(&Op::Close);
            let tx = c.connp.tx(0).unwrap();
            ensure_eq!(case, esc(&data_of(&c.events(), body_k, 0)), esc(&[&line[..], &rest].concat()), "body after an unusable length");
            ensure_eq!(case, tx.response_transfer_coding, HtpTransferCoding::IDENTITY, "transfer coding");
            ensure_eq!(case, tx.response_progress, HtpResponseProgress::COMPLETE, "progress");
            case.label("unusable length in a response");
        }
    }
    case.nontrivial = text.len() > 2;
    Ok(())
}

// ---- P28 ----------------------------------------------------------------------
fn sp(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\r' | b'\n' | 0x0b | 0x0c)
}
fn trim(b: &[u8]) -> &[u8] {
    let a = b.iter().position(|c| !sp(*c)).unwrap_or(b.len());
    let z = b.iter().rposition(|c| !sp(*c)).map(|x| x + 1).unwrap_or(a);
    &b[a..z]
}
struct Line {
    method: Vec<u8>,
    uri: Option<Vec<u8>>,
    proto: Option<Vec<u8>>,
    lead: bool,
    odd_method_end: bool,
    odd_uri_end: bool,
}
/// How a request line is documented to be read.
fn read_line(line: &[u8], nul_ends: bool, spaces: bool, keep_lead: bool) -> Line {
    let l = if nul_ends { line.split(|c| *c == 0).next().unwrap() } else { line };
    let a = l.iter().position(|c| !sp(*c)).unwrap_or(l.len());
    let b = l[a..].iter().position(|c| sp(*c)).map_or(l.len(), |x| x + a);
    let r = l[b..].iter().position(|c| !sp(*c)).map_or(l.len(), |x| x + b);
    let mut out = Line {
        method: l[if keep_lead { 0 } else { a }..b].to_vec(),
        uri: None,
        proto: None,
        lead: a > 0,
        odd_method_end: l[b..r].iter().any(|c| *c != b' '),
        odd_uri_end: false,
    };
    if r == l.len() {
        return out;
    }
    let rest = trim(&l[r..]);
    let cut = |f: &dyn Fn(u8) -> bool| {
        if spaces { rest.iter().rposition(|c| f(*c)) } else { rest.iter().position(|c| f(*c)) }
    };
    let mut at = cut(&|c| c == b' ');
    if at.is_none() {
        at = cut(&sp);
        out.odd_uri_end = at.is_some();
    }
    match at {
        None => out.uri = Some(rest.to_vec()),
        Some(p) => {
            out.uri = Some(trim(&rest[..p]).to_vec());
            out.proto = Some(trim(&rest[p..]).to_vec());
        }
    }
    out
}

fn p28(s: &mut Src, case: &mut Case) -> Result<(), String> {
    match s.below(8) {
        0 | 1 => status_line(s, case),
        2 if s.chance(1, 2) => junk_lines(s, case),
        2 => short_requests(s, case),
        _ => request_line(s, case),
    }
}
fn ws(s: &mut Src, min: usize) -> Vec<u8> {
    if s.chance(2, 3) {
        return vec![b' '; min];
    }
    s.bytes_from(b" \t\x0b\x0c  ", min, 3)
}
fn gen_line(s: &mut Src) -> Vec<u8> {
    let mut l = vec![];
    l.extend(ws(s, 0));
    if s.chance(1, 30) {
        l.push(0);
    }
    l.extend_from_slice(match s.below(8) {
        0 => b"get",
        1 => b"BREW",
        2 => b"X-\0",
        _ => s.pick(&METHODS).as_bytes(),
    });
    if s.chance(1, 20) {
        return l;
    }
    l.extend(ws(s, 1));
    for i in 0..s.range(1, 3) {
        if i > 0 {
            l.extend(ws(s, 1));
        }
        l.extend_from_slice(*s.pick(&[b"/" as &[u8], b"/a", b"/index.html?q=1", b"b", b"/a\0b", b"*", b"http://h.example/p"]));
        if s.chance(1, 500) {
            l.extend(crate::traffic::filler(s, 5000));
        }
    }
    if s.chance(7, 8) {
        l.extend(ws(s, 1));
        l.extend(match s.below(4) {
            0 => version_text(s),
            1 => s.pick(&["HTTP/ 1.1", "HTTP /1.0", "HTTP/\t1.1", "HTTP/1.1\0", " HTTP/1.1 x"]).as_bytes().to_vec(),
            _ => b"HTTP/1.1".to_vec(),
        });
    }
    if s.chance(1, 4) {
        l.extend(ws(s, 0));
    }
    l
}
fn request_line(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = base_config();
    let p = *s.pick(&crate::gen::PERSONALITIES);
    if s.chance(1, 2) {
        let _ = cfg.set_server_personality(p);
    }
    let spaces = s.chance(1, 2);
    cfg.set_allow_space_uri(spaces);
    let un = unwanted(s);
    cfg.set_requestline_leading_whitespace_unwanted(un);
    let nul_ends = cfg.server_personality == HtpServerPersonality::APACHE_2;
    // the decoders do not speak about the expected status here
    let d = &mut cfg.decoder_cfg;
    for u in [&mut d.nul_raw_unwanted, &mut d.nul_encoded_unwanted, &mut d.control_chars_unwanted, &mut d.u_encoding_unwanted, &mut d.url_encoding_invalid_unwanted, &mut d.path_separators_encoded_unwanted] {
        *u = HtpUnwanted::IGNORE;
    }
    let line = gen_line(s);
    let empty = if s.chance(1, 500) { s.range(3, 700) } else { s.range(0, 2) };
    let eol: &[u8] = *s.pick(&[b"\r\n" as &[u8], b"\n"]);
    let mut b = vec![];
    for _ in 0..empty {
        b.extend_from_slice(eol);
    }
    b.extend_from_slice(&line);
    b.extend_from_slice(eol);
    let line_end = b.len();
    b.extend_from_slice(b"Host: h.example");
    b.extend_from_slice(eol);
    b.extend_from_slice(b"X-F: v");
    b.extend_from_slice(eol);
    b.extend_from_slice(eol);
    let want = read_line(&line, nul_ends, spaces, un != HtpUnwanted::IGNORE);
    case.describe(|| format!("personality {:?} spaces {} leading whitespace {:?}\n{}", cfg.server_personality, spaces, un, esc(&b)));
    // without a version the request is a short one when nothing follows in the packet
    let mut cuts = gen_cuts(s, b.len(), &[]);
    if want.proto.is_none() {
        cuts.retain(|c| *c != line_end);
    }
    let mut c = Conn::new(cfg);
    let mut p0 = 0;
    for k in cuts.into_iter().chain([b.len()]) {
        c.feed_req(&b[p0..k]);
        p0 = k;
    }
    let tx = c.connp.tx(0).unwrap();
    let number = method_number(&want.method);
    if number == "CONNECT" && want.uri.is_none() {
        // nothing to connect to
        ensure_eq!(case, c.worst(true), Some(S::ERROR), "CONNECT without a target");
        return Ok(());
    }
    ensure_eq!(case, bs(&tx.request_line), esc(&line), "request line");
    ensure_eq!(case, bs(&tx.request_method), esc(&want.method), "method");
    ensure_eq!(case, format!("{:?}", tx.request_method_number), number, "method number");
    ensure_eq!(case, bs(&tx.request_uri), want.uri.as_ref().map(|x| esc(x)).unwrap_or("-".into()), "target");
    ensure_eq!(case, bs(&tx.request_protocol), want.proto.as_ref().map(|x| esc(x)).unwrap_or("-".into()), "protocol");
    let v = want.proto.as_ref().map(|x| version(x)).unwrap_or(HtpProtocol::V0_9);
    ensure_eq!(case, tx.request_protocol_number, v, "protocol number");
    ensure!(case, !tx.is_protocol_0_9, "taken for a short request although more follows");
    ensure_eq!(case, tx.request_ignored_lines as usize, empty, "ignored lines");
    ensure_eq!(case, tx.response_status_expected_number, if want.lead { un } else { HtpUnwanted::IGNORE }, "expected status");
    ensure_eq!(case, tx.request_headers.get_nocase("x-f").map(|h| esc(&h.value)), Some("v".to_string()), "field behind the line");
    ensure_eq!(case, tx.request_headers.size(), 2, "fields");
    let logs: Vec<C> = c.connp.conn.get_logs().iter().map(|l| l.msg.code).collect();
    for (code, on) in [
        (C::REQUEST_LINE_LEADING_WHITESPACE, want.lead),
        (C::METHOD_DELIM_NON_COMPLIANT, want.odd_method_end),
        (C::URI_DELIM_NON_COMPLIANT, want.odd_uri_end),
        (C::REQUEST_LINE_NO_PROTOCOL, want.proto.is_none()),
        (C::REQUEST_LINE_UNKNOWN_METHOD, number == "UNKNOWN" && want.uri.is_none()),
        (C::REQUEST_LINE_UNKNOWN_METHOD_NO_PROTOCOL, number == "UNKNOWN" && want.uri.is_some() && want.proto.is_none()),
        (C::REQUEST_LINE_UNKNOWN_METHOD_INVALID_PROTOCOL, number == "UNKNOWN" && want.proto.is_some() && v == HtpProtocol::INVALID),
    ] {
        ensure_eq!(case, logs.iter().filter(|x| **x == code).count(), on as usize, "messages {:?}", code);
    }
    case.nontrivial = want.lead || want.odd_method_end || want.odd_uri_end || v == HtpProtocol::INVALID || want.proto.is_none() || want.uri.as_ref().is_some_and(|u| u.iter().any(|c| sp(*c) || *c == 0)) || number == "UNKNOWN";
    if want.lead { case.label("leading white space"); }
    if want.proto.is_none() { case.label("no version"); }
    if want.uri.as_ref().is_some_and(|u| u.contains(&b' ')) { case.label("space in the target"); }
    if nul_ends && line.contains(&0) { case.label("ended by a NUL"); }
    Ok(())
}

fn status_line(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let n = if s.chance(1, 4) { 3 } else { 0 };
    let lead = s.bytes_from(b" \t\0", 0, n);
    let mut proto = version_text(s);
    if !(proto.len() >= 4 && proto[..4].eq_ignore_ascii_case(b"http")) {
        proto = [b"HTTP" as &[u8], &proto].concat();
    }
    let mut line = [&lead[..], &proto].concat();
    let mut status = None;
    let mut reason = None;
    if s.chance(9, 10) {
        line.extend(ws(s, 1));
        if s.chance(9, 10) {
            let t = status_text(s);
            line.extend_from_slice(&t);
            status = Some(t);
            if s.chance(5, 6) {
                let w = if s.chance(2, 3) { b" ".to_vec() } else { s.bytes_from(b" \t\x0c", 1, 3) };
                line.extend(w);
                let r = *s.pick(&[b"OK" as &[u8], b"", b"Not Found", b"a\tb", b"\xff\x00z", b"x y "]);
                line.extend_from_slice(r);
                reason = Some(r.to_vec());
            }
        }
    }
    let empty = s.range(0, 2);
    let mut b = vec![];
    for _ in 0..empty {
        b.extend_from_slice(b"\r\n");
    }
    b.extend_from_slice(&line);
    b.extend_from_slice(b"\r\nX-F: v\r\n");
    case.describe(|| esc(&b));
    let mut c = Conn::new(base_config());
    c.feed_req(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    feed(s, &mut c, false, &b);
    let tx = c.connp.tx(0).unwrap();
    let o = |x: &Option<Vec<u8>>| x.as_ref().map(|x| esc(x)).unwrap_or("-".into());
    // the line is reported with its end; a status without a reason has an empty one
    ensure_eq!(case, bs(&tx.response_line), esc(&[&line[..], b"\r\n"].concat()), "status line");
    if status.is_some() && reason.is_none() {
        reason = Some(vec![]);
    }
    ensure_eq!(case, bs(&tx.response_protocol), esc(&proto), "protocol");
    ensure_eq!(case, tx.response_protocol_number, version(&proto), "protocol number");
    ensure_eq!(case, bs(&tx.response_status), o(&status), "status");
    let n = status.as_ref().map(|x| status_number(x)).unwrap_or(HtpResponseNumber::INVALID);
    ensure_eq!(case, tx.response_status_number, n, "status number");
    ensure_eq!(case, bs(&tx.response_message), o(&reason), "reason");
    ensure_eq!(case, tx.response_ignored_lines as usize, empty, "ignored lines");
    ensure_eq!(case, tx.flags & F::STATUS_LINE_INVALID != 0, n == HtpResponseNumber::INVALID || version(&proto) == HtpProtocol::INVALID, "mark of the line");
    case.nontrivial = !lead.is_empty() || status.is_none() || n == HtpResponseNumber::INVALID || version(&proto) != HtpProtocol::V1_1;
    case.label("status line");
    let _ = Ordering::Equal;
    Ok(())
}

/// Lines in front of a status line, all in one packet: skipped when HTTP follows closely, otherwise body.
fn junk_lines(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let eol: &[u8] = *s.pick(&[b"\r\n" as &[u8], b"\n"]);
    let lines: Vec<Vec<u8>> = (0..s.range(1, 4))
        .map(|_| {
            let n = s.range(0, 13);
            let mut l = [b"x" as &[u8], &s.bytes_from(b"ab:HTP/1. \t\xff", 0, n)].concat();
            if s.chance(1, 3) {
                l.extend_from_slice(*s.pick(&[b"HTTP" as &[u8], b"HTTP/1.1 200 OK", b"HTT", b"http"]));
            }
            if s.chance(1, 6) { vec![] } else { l }
        })
        .collect();
    let lead = s.bytes_from(b" \t\0", 0, 2);
    let body = s.bytes_from(b"HTP/1.ok", 2, 2);
    let mut b = vec![];
    for l in &lines {
        b.extend_from_slice(l);
        b.extend_from_slice(eol);
    }
    b.extend_from_slice(&lead);
    b.extend_from_slice(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n");
    b.extend_from_slice(&body);
    case.describe(|| esc(&b));
    let mut want = vec![];
    let mut skipped = 0;
    let mut at = 0;
    for l in &lines {
        at += l.len() + eol.len();
        // the four letters may start within the next twelve bytes
        let near = b[at..].windows(4).take(12).any(|w| w == b"HTTP");
        if l.is_empty() || near {
            skipped += 1;
        } else {
            want.extend_from_slice(l);
            want.extend_from_slice(eol);
        }
    }
    let junk = want.len();
    want.extend_from_slice(&body);
    let mut c = Conn::new(base_config());
    c.feed_req(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    let st = c.feed_res(&b);
    ensure_eq!(case, st, S::DATA, "answer");
    ensure_eq!(case, c.connp.tx_size(), 1, "transactions");
    let ev = c.events();
    case.describe(|| show_events(&ev));
    ensure_eq!(case, esc(&data_of(&ev, K::ResBody, 0)), esc(&want), "body");
    let tx = c.connp.tx(0).unwrap();
    ensure_eq!(case, tx.response_ignored_lines as usize, skipped, "ignored lines");
    ensure_eq!(case, bs(&tx.response_line), esc(&[&lead[..], b"HTTP/1.1 200 OK\r\n"].concat()), "status line");
    ensure_eq!(case, tx.response_status_number, HtpResponseNumber::VALID(200), "status");
    ensure_eq!(case, tx.response_message_len as usize, want.len(), "message length");
    ensure!(case, tx.is_complete(), "not complete");
    case.nontrivial = junk > 0 || skipped > 0;
    case.label(if junk > 0 { "junk as body" } else { "junk skipped" });
    Ok(())
}

/// A request line without a version and white space behind it in the same packet.
fn short_or_not(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let line = *s.pick(&[b"GET /\n" as &[u8], b"POST /a?b=c\r\n", b"FOO\r\n"]);
    let n = s.range(0, 24);
    let mut tail: Vec<u8> = (0..n).map(|_| *s.pick(b"   \t\t\r\n\x0b\x0c")).collect();
    let mut short = n <= 16;
    if s.chance(1, 4) {
        tail.push(*s.pick(b"x:1\0\xff"));
        short = false;
    }
    let cut = s.range(0, line.len() - 1);
    case.describe(|| format!(">>> {} | {}{}", esc(&line[..cut]), esc(&line[cut..]), esc(&tail)));
    let mut c = Conn::new(base_config());
    if cut > 0 {
        c.op(&Op::Req(line[..cut].to_vec()));
    }
    c.op(&Op::Req([&line[cut..], &tail[..]].concat()));
    let told = c.connp.conn.get_logs().iter().filter(|m| m.msg.code == htp::log::HtpLogCode::REQUEST_LINE_NO_PROTOCOL).count();
    let tx = c.connp.tx(0).unwrap();
    ensure_eq!(case, tx.is_protocol_0_9, short, "taken for a short request");
    ensure_eq!(case, tx.request_protocol_number, HtpProtocol::V0_9, "protocol number");
    ensure_eq!(case, told, usize::from(!short), "messages about the missing protocol");
    case.nontrivial = n > 0;
    case.label(if short { "short with white space" } else { "not short" });
    Ok(())
}

/// HTTP/0.9: a request line without a version and nothing behind it.
fn short_requests(s: &mut Src, case: &mut Case) -> Result<(), String> {
    if s.chance(1, 4) {
        return short_or_not(s, case);
    }
    let method = *s.pick(&[b"GET" as &[u8], b"POST", b"HEAD", b"FOO"]);
    let target = *s.pick(&[b"/" as &[u8], b"/a?b=c", b"x"]);
    let eol: &[u8] = *s.pick(&[b"\r\n" as &[u8], b"\n"]);
    let w = ws(s, 1);
    let line = if s.chance(1, 12) { method.to_vec() } else { [method, &w, target].concat() };
    let b = [&line[..], eol].concat();
    let extra = if s.bool() { s.bytes_from(b"GET /b HTP1.\r\n", 1, 30) } else { vec![] };
    let gap = s.chance(1, 8);
    let body = s.bytes_from(b"HTP/1. 20OK\r\nab\xff", 0, 60);
    case.describe(|| format!(">>> {}\nlater {} gap {gap}\n<<< {}", esc(&b), esc(&extra), esc(&body)));
    let mut c = Conn::new(base_config());
    // other requests in front of it, answered before or after it
    let n = if s.chance(1, 3) { s.range(1, 3) } else { 0 };
    let answered = s.range(0, n);
    for i in 0..n {
        c.feed_req(b"GET /front HTTP/1.1\r\nHost: h\r\n\r\n");
        if i < answered {
            c.feed_res(b"HTTP/1.1 204 No\r\n\r\n");
        }
    }
    // the packet ends with the line
    feed(s, &mut c, true, &b);
    for _ in answered..n {
        c.feed_res(b"HTTP/1.1 204 No\r\n\r\n");
    }
    let before = s.bool();
    if before && !extra.is_empty() {
        let st = feed(s, &mut c, true, &extra);
        ensure_eq!(case, st, S::DATA, "answer to what follows a short request");
    }
    feed(s, &mut c, false, &body);
    if !before && !extra.is_empty() {
        feed(s, &mut c, true, &extra);
    }
    if gap {
        let len = s.range(1, 100);
        let st = c.op(&Op::ReqGap(len));
        ensure_eq!(case, st, Some(S::DATA), "answer to a gap behind a short request");
    }
    c.op(&Op::Close);
    let ev = c.events();
    case.describe(|| show_events(&ev));
    ensure_eq!(case, c.connp.tx_size(), n + 1, "transactions");
    let tx = c.connp.tx(n).unwrap();
    ensure!(case, tx.is_protocol_0_9, "not taken for a short request");
    if !body.is_empty() {
        ensure_eq!(case, tx.response_transfer_coding, htp::transaction::HtpTransferCoding::IDENTITY, "transfer coding of the response to a short request");
    }
    ensure_eq!(case, tx.request_protocol_number, HtpProtocol::V0_9, "protocol number");
    ensure_eq!(case, bs(&tx.request_line), esc(&line), "request line");
    ensure_eq!(case, bs(&tx.request_method), esc(method), "method");
    ensure_eq!(case, bs(&tx.request_uri), if line.len() == method.len() { "-".to_string() } else { esc(target) }, "target");
    ensure_eq!(case, tx.request_progress, HtpRequestProgress::COMPLETE, "request progress");
    ensure_eq!(case, ev.iter().filter(|e| e.k == K::ReqComplete && e.tx == n).count(), 1, "request completions");
    ensure_eq!(case, esc(&data_of(&ev, K::ResBody, n)), esc(&body), "response body");
    ensure_eq!(case, tx.response_headers.size(), 0, "response fields");
    ensure!(case, tx.response_line.is_none(), "a status line is reported for a short request");
    if !body.is_empty() {
        ensure!(case, tx.is_complete(), "not complete after the connection closed");
        ensure_eq!(case, ev.iter().filter(|e| e.k == K::TxComplete && e.tx == n).count(), 1, "completions");
    }
    ensure_eq!(case, c.connp.conn.flags & ConnectionFlags::HTTP_0_9_EXTRA != 0, !extra.is_empty() || gap, "mark of extra data");
    ensure_eq!(case, c.connp.conn.flags & ConnectionFlags::PIPELINED != 0, answered < n, "pipelining mark");
    case.nontrivial = !body.is_empty();
    case.label("short request");
    Ok(())
}
