//! P15, P16: what the request header fields mean: framing conflicts, host, credentials, content type.
use crate::drive::*;
use crate::engine::*;
use crate::gen::*;
use crate::p_uri::{self, port_of, valid_host};
use crate::traffic::recase;
use htp::transaction::{HtpAuthType, HtpProtocol, HtpTransferCoding, Transaction};
use htp::util::HtpFlags as F;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P15",
        rule: "messages with generated Transfer-Encoding and Content-Length combinations, or with malformed header lines mixed with good ones; non-trivial when two framing fields or one malformed line are present",
        run: p15,
        quick: 1_000_000,
    },
    Prop {
        id: "P16",
        rule: "requests with generated targets, Host, Authorization and Content-Type fields, and responses with generated Content-Type fields and framing; non-trivial when at least two of host in the target, Host field, Authorization field and Content-Type field are present, or that of a response is",
        run: p16,
        quick: 2_000_000,
    },
];

fn b(o: &Option<htp::bstr::Bstr>) -> Option<Vec<u8>> {
    o.as_ref().map(|x| x.as_slice().to_vec())
}
fn show(o: &Option<Vec<u8>>) -> String {
    match o { None => "nothing".into(), Some(v) => format!("\"{}\"", esc(v)) }
}
macro_rules! same {
    ($case:expr, $got:expr, $want:expr, $what:expr) => {{
        let (g, w) = ($got, $want);
        ensure!($case, g == w, "{}: {} instead of {}", $what, show(&g), show(&w));
    }};
}
const LWS: &[&[u8]] = &[b"", b" ", b" ", b" ", b"\t", b"  ", b" \t "];

fn base64(v: &[u8]) -> Vec<u8> {
    let t = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = vec![];
    for c in v.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            o.push(if k > c.len() { b'=' } else { t[(n >> (18 - 6 * k) & 63) as usize] });
        }
    }
    o
}

#[derive(Default)]
struct Auth {
    typ: Option<HtpAuthType>,
    user: Option<Vec<u8>>,
    pass: Option<Vec<u8>>,
    token: Option<Vec<u8>>,
    invalid: bool,
}
/// Printable text without white space at the ends.
fn word(s: &mut Src, not: &[u8], lo: usize, hi: usize) -> Vec<u8> {
    let n = if s.chance(1, 500) { s.range(hi, 2000) } else { s.range(lo, hi) };
    let mut v: Vec<u8> = (0..n)
        .map(|_| {
            let c = match s.below(6) { 0 => s.range(0x21, 0x7e) as u8, 1 => s.range(0x80, 0xff) as u8, _ => *s.pick(b"abcXYZ0129 -_.") };
            if not.contains(&c) { b'x' } else { c }
        })
        .collect();
    for i in [0, n.saturating_sub(1)] {
        if v.get(i) == Some(&b' ') {
            v[i] = b'y';
        }
    }
    v
}
/// An Authorization value and what it says.
fn gen_auth(s: &mut Src) -> (Vec<u8>, Auth) {
    let mut a = Auth::default();
    let ws: &[u8] = *s.pick(&[b" " as &[u8], b" ", b" ", b"\t", b"   ", b" \t"]);
    match s.below(8) {
        0..=2 => {
            a.typ = Some(HtpAuthType::BASIC);
            let mut v = recase(s, "Basic");
            v.extend_from_slice(ws);
            let mut user: Vec<u8> = if s.bool() { word(s, b":", 0, 8) } else { (0..s.range(0, 8)).map(|_| s.byte()).collect() };
            user.retain(|c| *c != b':');
            let pass: Vec<u8> = if s.bool() { word(s, b"", 0, 8) } else { (0..s.range(0, 8)).map(|_| s.byte()).collect() };
            match s.below(6) {
                0 => {
                    // no colon
                    v.extend(base64(&user));
                    a.invalid = true;
                }
                1 => {
                    let mut t = user.clone();
                    t.push(b':');
                    t.extend_from_slice(&pass);
                    let mut e = base64(&t);
                    let k = s.below(e.len() as u64) as usize;
                    e[k] = *s.pick(b"!*$.,:;\"@%");
                    v.extend(e);
                    a.invalid = true;
                }
                _ => {
                    let mut t = user.clone();
                    t.push(b':');
                    t.extend_from_slice(&pass);
                    v.extend(base64(&t));
                    a.user = Some(user);
                    a.pass = Some(pass);
                }
            }
            (v, a)
        }
        3..=4 => {
            a.typ = Some(HtpAuthType::DIGEST);
            let mut v = recase(s, "Digest");
            v.extend_from_slice(ws);
            if s.bool() {
                v.extend_from_slice(b"realm=\"a b\", ");
            }
            let user = if s.bool() { word(s, b"\\", 0, 8) } else { s.bytes_from(b"\"\",;=:a b\xe9/", 0, 6) };
            match s.below(6) {
                0 => { a.invalid = true; v.extend_from_slice(b"nonce=\"x\""); }
                1 => { a.invalid = true; v.extend_from_slice(b"username=bob"); }
                2 => { a.invalid = true; v.extend_from_slice(b"username=\"bob"); }
                _ => {
                    v.extend_from_slice(b"username=");
                    v.extend_from_slice(*s.pick(&[b"" as &[u8], b"", b" ", b"\t"]));
                    v.push(b'"');
                    for c in &user {
                        if *c == b'"' {
                            v.push(b'\\');
                        }
                        v.push(*c);
                    }
                    v.push(b'"');
                    if s.bool() {
                        v.extend_from_slice(b", uri=\"/x\", qop=auth");
                    }
                    a.user = Some(user);
                }
            }
            (v, a)
        }
        5 => {
            a.typ = Some(HtpAuthType::BEARER);
            let mut v = recase(s, "Bearer");
            let t = word(s, b"", 1, 12);
            v.extend_from_slice(ws);
            v.extend_from_slice(&t);
            a.token = Some(t);
            (v, a)
        }
        _ => {
            a.typ = Some(HtpAuthType::UNRECOGNIZED);
            let v = match s.below(6) {
                0 => vec![],
                1 => b"Basi dTpw".to_vec(),
                2 => b"NTLM TlRMTVNTUAABAAAA".to_vec(),
                3 => b"xBasic dTpw".to_vec(),
                4 => b"Negotiate Basic".to_vec(),
                _ => { let mut w = word(s, b"", 0, 6); w.insert(0, b'z'); w }
            };
            (v, a)
        }
    }
}

/// The content type of a response.
fn p16_response(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let kinds: [&[u8]; 9] = [b"application/vnd.openxmlformats-officedocument.wordprocessingml.document", b"text/html", b"application/octet-stream", b"multipart/byteranges", b"multipart/byterange", b"x-multipart/byteranges-y", b"T", b"", b"a/b,c/d"];
    let mut v = s.pick(&kinds).to_vec();
    for c in v.iter_mut() {
        if s.chance(1, 3) {
            *c = c.to_ascii_uppercase();
        }
    }
    let media = v.to_ascii_lowercase();
    let tail: &[u8] = if media.is_empty() { b"" } else { *s.pick(&[b"" as &[u8], b"", b";charset=X", b"; q=\"multipart/byteranges\"", b" x", b"\tx", b"\x0bx", b"\x0cy;z", b";", b";;a b"]) };
    v.extend_from_slice(tail);
    let present = !s.chance(1, 8);
    let framing = s.below(4);
    let status = *s.pick(&["200", "206", "404", "204", "304"]);
    let mut lines: Vec<Vec<u8>> = vec![];
    if present {
        let mut l = recase(s, "Content-Type");
        l.push(b':');
        l.extend_from_slice(*s.pick(LWS));
        l.extend_from_slice(&v);
        lines.push(l);
    }
    match framing {
        0 => lines.push(b"Content-Length: 3".to_vec()),
        1 => lines.push(b"Transfer-Encoding: chunked".to_vec()),
        2 => lines.push(b"Content-Length: 0".to_vec()),
        _ => {}
    }
    if s.bool() {
        lines.reverse();
    }
    let mut wire = format!("HTTP/1.1 {} OK\r\n", status).into_bytes();
    for l in &lines {
        wire.extend_from_slice(l);
        wire.extend_from_slice(b"\r\n");
    }
    wire.extend_from_slice(b"\r\n");
    // 204 and 304 have a body when one is announced
    let body = framing != 3 || !matches!(status, "204" | "304");
    let refused = present && body && framing == 3 && media.windows(20).any(|w| w == b"multipart/byteranges");
    if body {
        wire.extend_from_slice(match framing { 0 | 3 => b"abc" as &[u8], 1 => b"3\r\nabc\r\n0\r\n\r\n", _ => b"" });
    }
    let mut ops = vec![Op::Req(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n".to_vec())];
    if s.bool() {
        ops.push(Op::Res(b"HTTP/1.1 100 Continue\r\nContent-Type: Some/Other\r\n\r\n".to_vec()));
    }
    ops.extend(cut_anywhere(s, &wire).into_iter().map(Op::Res));
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    c.run(&ops);
    let tx = c.connp.tx(0).ok_or("no transaction")?;
    let want = if present && body { Some(media.clone()) } else { None };
    same!(case, b(&tx.response_content_type), want, "content type of the response");
    ensure_eq!(case, c.worst(false).is_some(), refused, "stream error for a body without any usable framing");
    if !refused {
        let got = data_of(&c.events(), K::ResBody, 0);
        let want: &[u8] = if body && framing != 2 { b"abc" } else { b"" };
        ensure_eq!(case, esc(&got), esc(want), "body of the response");
    }
    case.nontrivial = present;
    case.label("content type of a response");
    Ok(())
}

fn p16(s: &mut Src, case: &mut Case) -> Result<(), String> {
    if s.chance(1, 10) {
        return p16_response(s, case);
    }
    let mut cfg = base_config();
    if s.chance(1, 3) {
        let p = *s.pick(&PERSONALITIES);
        let _ = cfg.set_server_personality(p);
    }
    let auth_on = !s.chance(1, 8);
    cfg.parse_request_auth = auth_on;
    let proto: (&[u8], HtpProtocol) = *s.pick(&[
        (b"HTTP/1.1" as &[u8], HtpProtocol::V1_1), (b"HTTP/1.1", HtpProtocol::V1_1), (b"HTTP/1.1", HtpProtocol::V1_1), (b"HTTP/1.0", HtpProtocol::V1_0), (b"HTTP/2.7", HtpProtocol::INVALID),
    ]);
    // the target
    let mut uri_host: Option<Vec<u8>> = None;
    let mut uri_port: Option<u16> = None;
    let mut line: Vec<u8>;
    let gen_host = |s: &mut Src| -> Vec<u8> {
        let mut h = p_uri::host(s);
        h.retain(|c| !b"%+".contains(c));
        if h.is_empty() { b"h".to_vec() } else { h }
    };
    let gen_port = |s: &mut Src| -> Option<Vec<u8>> {
        if s.bool() { Some(if s.bool() { s.pick(&[b"80" as &[u8], b"8080", b"443"]).to_vec() } else { p_uri::port(s) }) } else { None }
    };
    let mut raw_host = None;
    if s.bool() {
        line = b"GET http://".to_vec();
        let h = gen_host(s);
        line.extend_from_slice(&h);
        if let Some(p) = gen_port(s) {
            line.push(b':');
            line.extend_from_slice(&p);
            uri_port = port_of(&p);
        }
        line.extend_from_slice(b"/p");
        let mut n = h.to_ascii_lowercase();
        while n.last() == Some(&b'.') {
            n.pop();
        }
        uri_host = Some(n);
        raw_host = Some(h);
    } else {
        line = b"GET /p".to_vec();
    }
    line.push(b' ');
    line.extend_from_slice(proto.0);
    let mut lines: Vec<Vec<u8>> = vec![];
    let mut field = |s: &mut Src, name: &str, v: &[u8]| {
        let mut l = recase(s, name);
        l.push(b':');
        l.extend_from_slice(*s.pick(LWS));
        l.extend_from_slice(v);
        l.extend_from_slice(*s.pick(&[b"" as &[u8], b"", b"", b" ", b"\t "]));
        lines.push(l);
    };
    // Host
    // None: no field; Some(None): nothing that can be taken for a host
    let mut hf: Option<Option<(Vec<u8>, Option<Vec<u8>>, bool)>> = None;
    let mut repeated_host = false;
    match s.below(12) {
        0 | 1 => {}
        2 => {
            let v = s.pick(&[b"" as &[u8], b"", b"/x", b":80", b"?", b"#a", b":"]).to_vec();
            field(s, "Host", &v);
            hf = Some(None);
        }
        k => {
            let h = match &raw_host {
                Some(r) if s.bool() => r.iter().map(|c| if c.is_ascii_alphabetic() && s.bool() { c ^ 0x20 } else { *c }).collect(),
                _ => gen_host(s),
            };
            let p = if uri_port.is_some() && s.chance(1, 3) { Some(uri_port.unwrap().to_string().into_bytes()) } else { gen_port(s) };
            let mut v = h.clone();
            let junk = h[0] == b'[' && h.last() == Some(&b']') && s.chance(1, 4);
            if junk {
                v.push(b'x');
            } else if let Some(p) = &p {
                if h[0] != b'[' && s.chance(1, 6) { v.push(b' '); }
                v.push(b':');
                if s.chance(1, 6) { v.push(b' '); }
                v.extend_from_slice(p);
            }
            field(s, "Host", &v);
            if k == 11 && !junk {
                // a second one
                field(s, "Host", &v);
                repeated_host = true;
            }
            hf = Some(Some((h, if junk { None } else { p }, junk)));
        }
    }
    let auth = if s.chance(1, 2) { Some(gen_auth(s)) } else { None };
    if let Some((v, _)) = &auth {
        field(s, "Authorization", v);
    }
    let mut ct = None;
    if s.chance(1, 2) {
        let t = if s.chance(1, 6) { vec![] } else {
            let mut t: Vec<u8> = word(s, b";, ", 1, 10);
            if s.bool() { t = if s.chance(1, 4) { recase(s, "application/vnd.openxmlformats-officedocument.wordprocessingml.document") } else { recase(s, "multipart/Form-Data") }; }
            t
        };
        let mut v = t.clone();
        if s.bool() || t.is_empty() && s.bool() {
            v.extend_from_slice(*s.pick(&[b";charset=x" as &[u8], b"; a=b", b", text/html", b",", b";"]));
            if s.chance(1, 8) && !t.is_empty() { v = t.clone(); v.extend_from_slice(b" more"); }
        }
        field(s, "Content-Type", &v);
        ct = Some(t.to_ascii_lowercase());
    }
    let mut wire = line;
    let mut rest = lines;
    // any order
    for i in (1..rest.len()).rev() {
        let k = s.below(i as u64 + 1) as usize;
        rest.swap(i, k);
    }
    for l in &rest {
        wire.extend_from_slice(b"\r\n");
        wire.extend_from_slice(l);
    }
    wire.extend_from_slice(b"\r\n\r\n");
    let second = b"GET /second HTTP/1.0\r\n\r\n";
    wire.extend_from_slice(second);
    let ops: Vec<Op> = if s.chance(1, 4) {
        let k = s.range(1, wire.len() - 1);
        vec![Op::Req(wire[..k].to_vec()), Op::Req(wire[k..].to_vec())]
    } else {
        vec![Op::Req(wire)]
    };
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(cfg);
    c.run(&ops);
    let tx: &Transaction = c.connp.tx(0).ok_or("no transaction")?;

    // host
    let set = |f: u64| tx.flags & f != 0;
    let mut want_host = uri_host.clone();
    let mut want_port = uri_port;
    let mut ambiguous = false;
    let (mut hosth, mut judge_hosth) = (false, true);
    if let Some(f) = &hf {
        match f {
            None => ambiguous = uri_host.is_some(),
            Some((h, p, junk)) => {
                let pn = p.as_ref().and_then(|p| port_of(p));
                let empty_port = p.as_ref().map(|p| p.is_empty()).unwrap_or(false);
                hosth = repeated_host || *junk || !valid_host(h) || p.is_some() && !empty_port && pn.is_none();
                judge_hosth = !empty_port || hosth;
                match &uri_host {
                    None => {
                        want_host = Some(h.to_ascii_lowercase());
                        want_port = pn;
                    }
                    Some(u) => {
                        ambiguous = *u != h.to_ascii_lowercase();
                        if uri_port.is_some() && p.is_some() && !empty_port && pn != uri_port {
                            ambiguous = true;
                        }
                    }
                }
            }
        }
    }
    if !repeated_host {
        same!(case, b(&tx.request_hostname), want_host, "host name of the request");
        ensure_eq!(case, tx.request_port_number, want_port, "port of the request");
        ensure_eq!(case, set(F::HOST_AMBIGUOUS), ambiguous, "ambiguous host mark");
    }
    if judge_hosth {
        ensure_eq!(case, set(F::HOSTH_INVALID), hosth, "invalid Host field mark");
    }
    ensure_eq!(case, set(F::HOST_MISSING), hf.is_none() && proto.1 == HtpProtocol::V1_1, "missing Host mark");
    // credentials
    let none = Auth { typ: Some(if auth_on { HtpAuthType::NONE } else { HtpAuthType::UNKNOWN }), ..Default::default() };
    let a = match &auth { Some((_, a)) if auth_on => a, _ => &none };
    ensure_eq!(case, Some(tx.request_auth_type as u32), a.typ.map(|x| x as u32), "authentication type");
    same!(case, b(&tx.request_auth_username), a.user.clone(), "user name");
    same!(case, b(&tx.request_auth_password), a.pass.clone(), "password");
    same!(case, b(&tx.request_auth_token), a.token.clone(), "token");
    ensure_eq!(case, set(F::AUTH_INVALID), a.invalid, "invalid credentials mark");
    // content type
    same!(case, b(&tx.request_content_type), ct.clone(), "content type");
    // none of this stops the stream
    ensure!(case, c.connp.tx(1).is_some() && c.worst(true).is_none(), "the following request was not seen");
    same!(case, b(&c.connp.tx(1).unwrap().request_uri), Some(b"/second".to_vec()), "target of the following request");
    ensure!(case, tx.request_transfer_coding == HtpTransferCoding::NO_BODY, "a body appeared");
    let n = [uri_host.is_some(), hf.is_some(), auth.is_some(), ct.is_some()].iter().filter(|x| **x).count();
    case.nontrivial = n >= 2;
    if ambiguous { case.label("ambiguous host"); }
    if hosth { case.label("invalid Host"); }
    if a.invalid { case.label("invalid credentials"); }
    if a.user.is_some() { case.label("user name"); }
    Ok(())
}

/// The number a Content-Length value announces: its first run of digits.
pub fn cl_model(v: &[u8]) -> Option<u64> {
    let d: Vec<u8> = v.iter().copied().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    if d.is_empty() {
        return None;
    }
    let mut n: u64 = 0;
    for c in d {
        n = n.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(n)
}
fn cl_text(s: &mut Src, n: u64) -> Vec<u8> {
    match s.below(16) {
        0 => s.pick(&[b"" as &[u8], b"x", b"-", b"18446744073709551616", b"99999999999999999999999", b"five", b"0x", b"--", b";"]).to_vec(),
        1 => format!("+{}", n).into_bytes(),
        2 => format!("{};q", n).into_bytes(),
        3 => format!("000{}", n).into_bytes(),
        4 => format!("x {} y 7", n).into_bytes(),
        5 => format!("{}, {}", n, n + 1).into_bytes(),
        6 => format!("{}.5", n).into_bytes(),
        7 => {
            // anything in front of the digits is passed over
            let mut v: Vec<u8> = (0..s.range(1, 3)).map(|_| loop {
                let c = s.range(33, 255) as u8;
                if !c.is_ascii_digit() && c != b':' { break c }
            }).collect();
            v.extend_from_slice(n.to_string().as_bytes());
            v
        }
        _ => n.to_string().into_bytes(),
    }
}
fn te_text(s: &mut Src) -> Vec<u8> {
    match s.below(12) {
        0 => s.pick(&[b"" as &[u8], b"identity", b"gzip", b"chunke", b"hunked", b"c hunked", b"chunk ed", b"chchunke", b"chun-ked", b"deflate, gzip"]).to_vec(),
        1 => s.pick(&[b"gzip, chunked" as &[u8], b"chunked, gzip", b"xchunked", b"chunkedx", b"chchunked", b"cchunked", b"chunchunked", b"identity, Chunked", b"chunked chunked", b"chunked;q=1"]).to_vec(),
        2 => b"chu\0nked".to_vec(),
        _ => recase(s, "chunked"),
    }
}
fn is_chunked(v: &[u8]) -> bool {
    let l: Vec<u8> = v.iter().filter(|c| **c != 0).map(|c| c.to_ascii_lowercase()).collect();
    l.windows(7).any(|w| w == b"chunked")
}

fn p15(s: &mut Src, case: &mut Case) -> Result<(), String> {
    if s.chance(2, 5) {
        return p15_lines(s, case);
    }
    let req = s.chance(3, 5);
    let proto: (&[u8], bool) = *s.pick(&[(b"HTTP/1.1" as &[u8], true), (b"HTTP/1.1", true), (b"HTTP/1.0", false), (b"HTTP/9.9", false)]);
    let n = s.range(0, 12) as u64;
    let te = if s.chance(1, 2) { Some(te_text(s)) } else { None };
    let ncl = *s.pick(&[0, 1, 1, 1, 2, 2, 3]);
    let mut lines: Vec<Vec<u8>> = vec![];
    let mut cls: Vec<(Vec<u8>, bool)> = vec![];
    for _ in 0..ncl {
        let m = if s.chance(1, 3) { n + 1 } else { n };
        let v = cl_text(s, m);
        let folded = s.chance(1, 6) && !v.is_empty();
        let mut l = recase(s, "Content-Length");
        if ncl == 1 && s.chance(1, 10) {
            // NULs in names are looked through
            let k = s.range(1, l.len() - 1);
            l.insert(k, 0);
        }
        l.extend_from_slice(b":");
        l.extend_from_slice(if folded { *s.pick(&[b"\r\n " as &[u8], b"\n\t"]) } else { *s.pick(LWS) });
        l.extend_from_slice(&v);
        lines.push(l);
        cls.push((v, folded));
    }
    if let Some(te) = &te {
        let mut l = recase(s, "Transfer-Encoding");
        if s.chance(1, 10) {
            let k = s.range(1, l.len() - 1);
            l.insert(k, 0);
        }
        l.extend_from_slice(b": ");
        l.extend_from_slice(te);
        let k = s.below(lines.len() as u64 + 1) as usize;
        lines.insert(k, l);
    }
    let k = s.below(lines.len() as u64 + 1) as usize;
    lines.insert(k, b"X-Y: z".to_vec());
    // what should be made of it
    let chunked = te.as_ref().map(|t| is_chunked(t)).unwrap_or(false);
    let cl = cls.first().map(|(v, _)| cl_model(v));
    let mut fl = 0u64;
    let mut bad = false;
    let coding;
    let mut length = None;
    if req && te.is_some() && !chunked {
        coding = HtpTransferCoding::INVALID;
        fl |= F::REQUEST_INVALID_T_E | F::REQUEST_INVALID;
        bad = true;
    } else if chunked {
        coding = HtpTransferCoding::CHUNKED;
        if req && !proto.1 {
            fl |= F::REQUEST_INVALID_T_E | F::REQUEST_SMUGGLING;
        }
        if !cls.is_empty() {
            fl |= F::REQUEST_SMUGGLING;
        }
    } else if let Some(v) = cl {
        if cls.len() > 1 || req && cls[0].1 {
            fl |= F::REQUEST_SMUGGLING;
        }
        coding = if v.is_none() && req { HtpTransferCoding::INVALID } else { HtpTransferCoding::IDENTITY };
        if v.is_none() {
            bad = true;
            if req {
                fl |= F::REQUEST_INVALID_C_L | F::REQUEST_INVALID;
            }
        }
        length = v;
    } else {
        coding = if req { HtpTransferCoding::NO_BODY } else { HtpTransferCoding::IDENTITY };
    }
    let body: Vec<u8> = (0..length.unwrap_or(n).min(40)).map(|i| b'A' + (i % 26) as u8).collect();
    let mut wire = vec![];
    if req {
        wire.extend_from_slice(*s.pick(&[b"POST" as &[u8], b"POST", b"GET", b"PUT", b"DELETE", b"OPTIONS", b"PATCH", b"HEAD", b"PROPFIND"]));
        wire.extend_from_slice(b" /x ");
    } else if s.chance(1, 4) {
        // nothing of what came before counts
        for _ in 0..s.range(1, 3) {
            wire.extend_from_slice(b"HTTP/1.1 100 Continue\r\n");
            wire.extend_from_slice(*s.pick(&[b"" as &[u8], b"", b"Content-Length: 0\r\n", b"X-Y: q\r\n"]));
            wire.extend_from_slice(b"\r\n");
        }
    }
    wire.extend_from_slice(proto.0);
    if !req {
        wire.extend_from_slice(*s.pick(&[b" 200 OK" as &[u8], b" 200 OK", b" 404 Not", b" 500 Err", b" 206 Part", b" 302 There", b" 201 Made"]));
    }
    for l in &lines {
        wire.extend_from_slice(b"\r\n");
        wire.extend_from_slice(l);
    }
    if req && proto.1 {
        wire.extend_from_slice(b"\r\nHost: h");
    }
    wire.extend_from_slice(b"\r\n\r\n");
    let mut want_body = vec![];
    if bad {
    } else if chunked {
        if !body.is_empty() {
            wire.extend_from_slice(format!("{:x}\r\n", body.len()).as_bytes());
            wire.extend_from_slice(&body);
            wire.extend_from_slice(b"\r\n");
        }
        wire.extend_from_slice(b"0\r\n\r\n");
        want_body = body.clone();
    } else if length.is_some() {
        wire.extend_from_slice(&body);
        want_body = body.clone();
    }
    // a length that stays within what is sent
    let complete = chunked || length == Some(body.len() as u64) || coding == HtpTransferCoding::NO_BODY;
    let next: &[u8] = if req { b"GET /second HTTP/1.0\r\n\r\n" } else { b"HTTP/1.0 204 Second\r\n\r\n" };
    if complete && !bad {
        wire.extend_from_slice(next);
    }
    let mut ops: Vec<Op> = vec![];
    let before = if s.chance(1, 4) { s.range(1, 4) } else { 0 };
    for _ in 0..before {
        ops.push(Op::Req(b"GET /before HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()));
        ops.push(Op::Res(s.pick(&[b"HTTP/1.1 204 Before\r\n\r\n" as &[u8], b"HTTP/1.1 200 Before\r\nContent-Length: 2\r\n\r\nab", b"HTTP/1.1 200 Before\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n"]).to_vec()));
    }
    if !req {
        ops.push(Op::Req(b"GET /x HTTP/1.0\r\n\r\nGET /second HTTP/1.0\r\n\r\n".to_vec()));
    }
    let mut parts = vec![];
    if s.chance(1, 3) {
        let k = s.range(1, wire.len() - 1);
        parts.push(wire[..k].to_vec());
        parts.push(wire[k..].to_vec());
    } else {
        parts.push(wire);
    }
    ops.extend(parts.into_iter().map(|p| if req { Op::Req(p) } else { Op::Res(p) }));
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    c.run(&ops);
    let tx: &Transaction = c.connp.tx(before).ok_or("no transaction")?;
    let mask = F::REQUEST_SMUGGLING | F::REQUEST_INVALID_T_E | F::REQUEST_INVALID_C_L | F::REQUEST_INVALID;
    ensure_eq!(case, format!("{:x}", tx.flags & mask), format!("{:x}", fl), "framing marks");
    let (got_coding, got_len) = if req { (tx.request_transfer_coding, tx.request_content_length) } else { (tx.response_transfer_coding, tx.response_content_length) };
    ensure_eq!(case, got_coding as u32, coding as u32, "transfer coding");
    ensure_eq!(case, c.worst(req).is_some(), bad, "stream error");
    if !bad {
        ensure_eq!(case, got_len, length, "content length");
        let d = data_of(&c.events(), if req { K::ReqBody } else { K::ResBody }, before);
        if complete || req {
            ensure!(case, d == want_body, "body {} instead of {}", esc(&d), esc(&want_body));
        }
        if complete {
            let t1 = c.connp.tx(before + 1).ok_or("the following message was not seen")?;
            if req {
                same!(case, b(&t1.request_uri), Some(b"/second".to_vec()), "target of the following request");
            } else {
                same!(case, b(&t1.response_message), Some(b"Second".to_vec()), "reason of the following response");
            }
        }
    }
    case.nontrivial = cls.len() + te.is_some() as usize >= 2;
    if fl & F::REQUEST_SMUGGLING != 0 { case.label("smuggling mark"); }
    if bad { case.label("undetermined framing"); }
    case.label(if req { "request framing" } else { "response framing" });
    Ok(())
}

fn p15_lines(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let req = s.bool();
    let n = s.range(1, 6);
    let eol: &[u8] = *s.pick(&[b"\r\n" as &[u8], b"\r\n", b"\n"]);
    let mut wire = if req { b"GET /x HTTP/1.0".to_vec() } else { b"HTTP/1.1 204 OK".to_vec() };
    wire.extend_from_slice(eol);
    let mut want: Vec<(Vec<u8>, Vec<u8>, u64)> = vec![];
    let mut fl = 0u64;
    let mut odd = 0;
    for i in 0..n {
        let name = match s.below(6) {
            0 | 1 => s.pick(&[b"A" as &[u8], b"a", b"B-b", b"X"]).to_vec(),
            // every character a token may have
            2 => [format!("T{}", i).as_bytes(), &[*s.pick(b"!#$%&'*+-.^_`|~09AZaz")]].concat(),
            _ => format!("H{}", i).into_bytes(),
        };
        let value = word(s, b":", 0, 8);
        let kind = if i == 0 { s.below(9) } else { s.below(8) };
        let mut line = vec![];
        let (mut f, mut t) = (0u64, 0u64);
        let mut may_fold = true;
        let (mut wn, mut wv) = (name.clone(), value.clone());
        match kind {
            0 => {
                line.extend_from_slice(&name);
                line.extend_from_slice(*s.pick(&[b" " as &[u8], b"\t", b"  "]));
                line.extend_from_slice(b": ");
                line.extend_from_slice(&value);
                f = F::FIELD_INVALID;
                t = f;
            }
            1 => {
                let mut m = name.clone();
                let c = *s.pick(b"()<>@,;\\\"/[]?={}\x01\x7f\x80\xff ");
                let k = if c == b' ' { 1 } else { s.below(m.len() as u64 + 1) as usize };
                m.insert(k, c);
                if c == b' ' { m.push(b'q'); }
                line.extend_from_slice(&m);
                if s.chance(1, 4) {
                    line.extend_from_slice(*s.pick(&[b" " as &[u8], b"\t", b"  "]));
                }
                line.extend_from_slice(b": ");
                line.extend_from_slice(&value);
                wn = m;
                f = F::FIELD_INVALID;
                t = f;
            }
            2 => {
                line.extend_from_slice(b":");
                line.extend_from_slice(*s.pick(LWS));
                line.extend_from_slice(&value);
                wn = vec![];
                f = F::FIELD_INVALID;
                t = f;
            }
            3 => {
                let mut v = value.clone();
                if v.is_empty() || !v[0].is_ascii_alphanumeric() { v.insert(0, b'w'); }
                line.extend_from_slice(&v);
                wn = vec![];
                wv = v;
                may_fold = false;
                t = F::FIELD_UNPARSEABLE;
                f = t | if req { 0 } else { F::FIELD_INVALID };
            }
            8 => {
                line.extend_from_slice(*s.pick(&[b" " as &[u8], b"\t", b" \t"]));
                line.extend_from_slice(&name);
                line.extend_from_slice(b": ");
                line.extend_from_slice(&value);
                t = F::INVALID_FOLDING;
                f = t | if req { 0 } else { F::FIELD_INVALID };
            }
            _ => {
                line.extend_from_slice(&name);
                line.extend_from_slice(b":");
                line.extend_from_slice(*s.pick(LWS));
                line.extend_from_slice(&value);
                if s.chance(1, 4) && !value.is_empty() {
                    may_fold = false;
                    line.extend_from_slice(*s.pick(&[b" " as &[u8], b"\t", b" \t ", b"\x0b", b"\x0c", b"\x0c \x0b"]));
                }
            }
        }
        if may_fold && s.chance(1, 5) {
            // the value goes on in the next line
            let fold = *s.pick(&[b" " as &[u8], b"\t", b"   "]);
            let piece = s.bytes_from(b"abcXYZ019", 1, 5);
            line.extend_from_slice(eol);
            line.extend_from_slice(fold);
            line.extend_from_slice(&piece);
            if !wv.is_empty() { wv.extend_from_slice(fold); }
            wv.extend_from_slice(&piece);
            f |= F::FIELD_FOLDED;
        }
        odd += (f != 0) as usize;
        fl |= t;
        wire.extend_from_slice(&line);
        wire.extend_from_slice(eol);
        match want.iter_mut().find(|x| x.0.eq_ignore_ascii_case(&wn)) {
            Some(x) => {
                x.2 |= F::FIELD_REPEATED;
                x.1.extend_from_slice(b", ");
                x.1.extend_from_slice(&wv);
            }
            None => want.push((wn, wv, f)),
        }
    }
    wire.extend_from_slice(eol);
    let mut ops: Vec<Op> = vec![];
    if !req {
        ops.push(Op::Req(b"GET /x HTTP/1.0\r\n\r\n".to_vec()));
    }
    let k = s.range(0, wire.len() - 1);
    for p in [&wire[..k], &wire[k..]] {
        if !p.is_empty() {
            ops.push(if req { Op::Req(p.to_vec()) } else { Op::Res(p.to_vec()) });
        }
    }
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    c.run(&ops);
    let tx: &Transaction = c.connp.tx(0).ok_or("no transaction")?;
    let mask = F::FIELD_INVALID | F::FIELD_UNPARSEABLE | F::INVALID_FOLDING;
    ensure_eq!(case, format!("{:x}", tx.flags & mask), format!("{:x}", fl), "marks of the transaction");
    let h = if req { &tx.request_headers } else { &tx.response_headers };
    let got: Vec<(Vec<u8>, Vec<u8>, u64)> = h.into_iter().map(|h| (h.name.as_slice().to_vec(), h.value.as_slice().to_vec(), h.flags & (mask | F::FIELD_REPEATED | F::FIELD_FOLDED))).collect();
    let text = |v: &[(Vec<u8>, Vec<u8>, u64)]| v.iter().map(|x| format!("[{}|{}|{:x}]", esc(&x.0), esc(&x.1), x.2)).collect::<String>();
    ensure!(case, got == want, "fields {} instead of {}", text(&got), text(&want));
    case.nontrivial = odd > 0;
    case.label("malformed lines");
    Ok(())
}
