//! P02: what an observer is told does not depend on how the bytes were cut into
//! packets or how the two directions were interleaved.
use crate::drive::*;
use crate::engine::*;
use crate::gen::*;
use crate::snap::*;
use crate::traffic::*;
use std::io::Write;

pub static PROPS: &[Prop] = &[Prop {
    id: "P02",
    rule: "conversation (or an odd message alone) delivered whole and then again in a random segmentation and interleaving; non-trivial when the second run cuts at least one message into 2 or more pieces",
    run: p02,
    quick: 300_000,
},
];

pub fn gz(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(6));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
pub fn zlib(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(6));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
pub fn deflate(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(6));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

const ODD: &[&[u8]] = &[
    b"NoColonHere", b"X-Lws : v", b": empty", b"X-E:", b"X-Nul: a\0b", b"X@Y: v", b"X-T:\tv\t", b" fold", b"\tfold: v",
    b"Authorization: Basic YTpi", b"Authorization: Digest username=\"joe\", realm=x", b"Authorization: Bearer tok", b"Authorization: Foo bar",
    b"Content-Type: Text/HTML; charset=x", b"Cookie: a=b; c=d", b"Host: Other.Example:8080", b"Host: [::1]", b"X-Hi: \xe9\xff", b"X A: v",
    b"Content-Encoding: identity", b"X-A: 1", b"X-A: 2", b"Set-Cookie: a=b", b"Upgrade: h2c", b"Expect: 100-continue",
];
const ODD_REQ_LINES: &[&[u8]] = &[
    b"GET  /a%20b?x=y  HTTP/1.1", b"get / HTTP/1.1", b"GET\t/\tHTTP/1.1", b"GET / HTTP/1.2", b"GET / HTTP/ 1.1", b"FOO /x HTTP/1.1", b"GET http://u:p@H.example:99/p/../q?z#f HTTP/1.1",
    b"GET /%u0041%zz/%00 HTTP/1.1", b"GET //a/./b\\c HTTP/1.1", b"POST /?a=b&c=%41+d HTTP/1.0", b"GET /\xff\xe3\x80\x80 HTTP/1.1",
];
const ODD_RES_LINES: &[&[u8]] = &[
    b"HTTP/1.1 200", b"HTTP/1.1  200  OK", b"HTTP/1.1 2x0 OK", b"HTTP/1.0 999 Odd", b"HTTP/1.1\t200\tOK", b"HTTP/2 200 OK", b"HTTP/1.1 0200 OK", b"HTTP/1.1 200 ",
];

/// Make an exchange stranger, keeping its framing known.
pub fn strange(s: &mut Src, x: &mut [Exchange]) {
    let last = x.len() - 1;
    for (i, e) in x.iter_mut().enumerate() {
        // compressed bodies
        if e.res.body.kind != Kind::None && !e.res.body.data.is_empty() && s.chance(1, 4) {
            let which = s.u(3);
            let d = match which {
                0 => gz(&e.res.body.data),
                1 => zlib(&e.res.body.data),
                _ => deflate(&e.res.body.data),
            };
            let name: &[u8] = if which == 0 { b"gzip" } else { b"deflate" };
            // LF CR is an accepted line ending in responses (see traffic.rs)
            if e.res.eol == b"\r\n" || d[0] != b'\r' {
                set_body(s, &mut e.res.headers, &mut e.res.body, d);
                e.res.headers.push(Hdr::new(b"Content-Encoding", name));
            }
        }
        if e.req.body.kind != Kind::None && !e.req.body.data.is_empty() {
            match s.below(6) {
                0 => {
                    let d = gz(&e.req.body.data);
                    set_body(s, &mut e.req.headers, &mut e.req.body, d);
                    e.req.headers.push(Hdr::new(b"Content-Encoding", b"gzip"));
                }
                1 => {
                    let d = s.bytes_from(b"ab=&%4+1;", 1, 40);
                    set_body(s, &mut e.req.headers, &mut e.req.body, d);
                    e.req.headers.push(Hdr::new(b"Content-Type", b"application/x-www-form-urlencoded"));
                }
                _ => {}
            }
        }
        for _ in 0..s.range(0, 2) {
            let h = raw_line(s, true);
            let at = s.range(0, e.req.headers.len());
            e.req.headers.insert(at, h);
        }
        for _ in 0..s.range(0, 2) {
            let h = raw_line(s, false);
            let at = s.range(0, e.res.headers.len());
            e.res.headers.insert(at, h);
        }
        e.req.serialize();
        e.res.serialize();
        // odd lines replace the generated ones
        if s.chance(1, 6) && e.req.method != b"HEAD" {
            let l = *s.pick(ODD_REQ_LINES);
            // an unknown method would be taken for a body of the request before it
            if !(i > 0 && (l.starts_with(b"FOO") || l.starts_with(b"get"))) {
                replace_line(&mut e.req.wire, l, &e.req.eol, 0);
            }
        }
        if s.chance(1, 6) && e.req.method != b"HEAD" {
            let l = *s.pick(ODD_RES_LINES);
            let at = e.res.interim_len;
            replace_line(&mut e.res.wire, l, &e.res.eol, at);
        }
        if i == 0 && s.chance(1, 10) {
            let n = s.range(1, 2);
            prefix(&mut e.req.wire, &b"\r\n".repeat(n));
        }
        let _ = last;
    }
}
fn raw_line(s: &mut Src, req: bool) -> Hdr {
    // a bare CR can end a line of a response
    let tail: &[u8] = if req { b"ab:\r \t\0=\xe9;," } else { b"ab: \t\0=\xe9;,-" };
    let l = if s.bool() { s.pick(ODD).to_vec() } else { [s.bytes_from(b"ab:\xe9=; ", 1, 1), s.bytes_from(b"ab:", 1, 1), s.bytes_from(tail, 0, 8)].concat() };
    // a header whose serialization is the raw line
    Hdr { name: vec![], pieces: vec![l], pre: vec![], post: vec![], folds: vec![vec![]] }
}
fn set_body(s: &mut Src, hs: &mut [Hdr], b: &mut Body, d: Vec<u8>) {
    if b.kind == Kind::Chunked {
        let t = std::mem::take(&mut b.trailers);
        let st = Style::default();
        let mut n = chunked_body(s, &Style { trailers: false, ..st }, d, true);
        n.trailers = t;
        *b = n;
    } else {
        for h in hs.iter_mut() {
            if h.name.eq_ignore_ascii_case(b"content-length") {
                h.pieces = vec![d.len().to_string().into_bytes()];
            }
        }
        b.data = d;
    }
}
fn replace_line(w: &mut Wire, l: &[u8], eol: &[u8], at: usize) {
    let end = at + w.bytes[at..].iter().position(|c| *c == b'\n').unwrap() + 1;
    let mut n = l.to_vec();
    n.extend_from_slice(eol);
    let (old, new) = (end - at, n.len());
    w.bytes.splice(at..end, n);
    for m in w.marks.iter_mut() {
        if *m >= end {
            *m = *m + new - old;
        } else if *m > at {
            *m = at + new - eol.len();
        }
    }
    w.head = w.head + new - old;
}
fn prefix(w: &mut Wire, p: &[u8]) {
    w.bytes.splice(0..0, p.iter().copied());
    for m in w.marks.iter_mut() {
        *m += p.len();
    }
    w.head += p.len();
}

pub struct View {
    pub txs: Vec<Vec<(&'static str, String)>>,
    pub req: Vec<(K, usize, Payload)>,
    pub res: Vec<(K, usize, Payload)>,
    pub done: Vec<usize>,
    pub fate: (Option<String>, Option<String>),
    pub logs: Vec<String>,
}

pub fn view(c: &Conn) -> View {
    let ev = c.events();
    let mut logs: Vec<String> = c.connp.conn.get_logs().iter().map(|l| format!("{:?}", l.msg.code)).collect();
    // told for every further call on a failed stream
    logs.retain(|l| l != "PARSER_STATE_ERROR");
    logs.sort();
    View {
        txs: (0..c.connp.tx_size())
            .map(|i| c.connp.tx(i).map(snapshot).unwrap_or_default())
            .collect(),
        req: merge(&ev, |k| k.is_req()),
        res: merge(&ev, |k| k.is_res()),
        done: ev.iter().filter(|e| e.k == K::TxComplete).map(|e| e.tx).collect(),
        fate: (
            c.worst(true).map(|s| format!("{:?}", s)),
            c.worst(false).map(|s| format!("{:?}", s)),
        ),
        logs,
    }
}

fn show_stream(v: &[(K, usize, Payload)]) -> String {
    v.iter()
        .map(|(k, t, p)| {
            format!("{:?}#{}{}", k, t, match p {
                Payload::Bytes(b) => format!("({})", esc(b)),
                Payload::Gap(n) => format!("(gap {})", n),
                Payload::End => "(end)".into(),
                Payload::None => "".into(),
            })
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn compare(case: &mut Case, a: &View, b: &View) -> Result<(), String> {
    ensure_eq!(case, b.fate, a.fate, "whether a stream fails");
    ensure_eq!(case, b.txs.len(), a.txs.len(), "number of transactions");
    for (i, (x, y)) in a.txs.iter().zip(&b.txs).enumerate() {
        if let Some(d) = diff(x, y) {
            return Err(format!("transaction {} depends on the segmentation: {}", i, d));
        }
        case.asserts += x.len() as u64;
    }
    ensure_eq!(case, show_stream(&b.req), show_stream(&a.req), "request callbacks");
    ensure_eq!(case, show_stream(&b.res), show_stream(&a.res), "response callbacks");
    ensure_eq!(case, b.req == a.req && b.res == a.res, true, "callback data");
    ensure_eq!(case, b.done, a.done, "transaction completions");
    ensure_eq!(case, b.logs, a.logs, "log messages");
    Ok(())
}

fn p02(s: &mut Src, case: &mut Case) -> Result<(), String> {
    match s.below(8) {
        0 => odd_head(s, case),
        1 => odd_chunks(s, case),
        2 => odd_line(s, case),
        _ => conversation(s, case),
    }
}

/// A message in one direction, alone, delivered whole. None when it is left to heuristics that go by packet:
/// unexpected data behind a message, junk in front of a status line, short requests, LF CR behind a response head.
struct Alone {
    res: bool,
    one: Vec<Op>,
    two: Vec<Op>,
    pers: Option<htp::config::HtpServerPersonality>,
}
impl Alone {
    fn new(s: &mut Src, case: &mut Case, res: bool, bytes: Vec<u8>) -> Self {
        let b = &bytes;
        let pers = if s.chance(1, 4) { Some(*s.pick(&PERSONALITIES)) } else { None };
        let marks: Vec<usize> = (1..b.len()).filter(|i| b"\r\n :\t".contains(&b[*i]) || b"\r\n :\t".contains(&b[*i - 1])).collect();
        let cuts = gen_cuts(s, b.len(), &marks);
        let (mut one, mut two) = (vec![], vec![]);
        let mk = |v: &[u8]| if res { Op::Res(v.to_vec()) } else { Op::Req(v.to_vec()) };
        if res {
            one.push(Op::Req(b"GET / HTTP/1.1\r\n\r\n".to_vec()));
            two.push(one[0].clone());
        }
        one.push(mk(b));
        let mut p = 0;
        for c in cuts.iter().copied().chain([b.len()]) {
            if c > p {
                two.push(mk(&b[p..c]));
                p = c;
            }
        }
        one.push(Op::Close);
        two.push(Op::Close);
        case.describe(|| format!("{:?}\nfirst:\n{}\nsecond:\n{}", pers, show_ops(&one), show_ops(&two)));
        Alone { res, one, two, pers }
    }
    fn run(&self, ops: &[Op]) -> Conn {
        let mut cfg = base_config();
        // lines may become messages of their own, more than the usual maximum
        cfg.max_tx = 1 << 20;
        if let Some(p) = self.pers {
            let _ = cfg.set_server_personality(p);
        }
        let mut c = Conn::new(cfg);
        c.run(ops);
        c
    }
    fn whole(&self) -> Conn {
        self.run(&self.one)
    }
    fn compare(&self, case: &mut Case, whole: &View) -> Result<(), String> {
        let b = view(&self.run(&self.two));
        case.nontrivial = self.two.len() > self.one.len();
        case.label(if self.res { "odd response alone" } else { "odd request alone" });
        compare(case, whole, &b)
    }
}
fn twist(s: &mut Src, t: &mut Vec<u8>, from: &[u8]) {
    match s.below(3) {
        0 => mutate(s, t, 1),
        1 => {
            let at = s.range(0, t.len());
            let ins = s.bytes_from(from, 1, 4);
            t.splice(at..at, ins);
        }
        _ => {
            let at = s.u(t.len().max(1));
            if at < t.len() {
                t.remove(at);
            }
        }
    }
}
fn odd_head(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { big: false, max_exchanges: 1, bodies: false, interim: false, ..Default::default() };
    let mut x = gen_conversation(s, &st);
    if s.bool() {
        strange(s, &mut x);
    }
    let t = streams(&x);
    let res = s.bool();
    let line: &[u8] = if res { b"HTTP/1.1 200 OK\r\n" } else { b"GET / HTTP/1.1\r\n" };
    let src = if res { &t.res } else { &t.req };
    let k = src.iter().position(|c| *c == b'\n').unwrap() + 1;
    let mut tail = src[k..].to_vec();
    for _ in 0..s.range(1, 4) {
        twist(s, &mut tail, b"\r\n \t:a\0\r\n");
    }
    let alone = Alone::new(s, case, res, [line, &tail[..]].concat());
    let c = alone.whole();
    let raw = data_of(&c.events(), if res { K::ResHeaderData } else { K::ReqHeaderData }, 0);
    if raw != tail || (res && tail.ends_with(b"\n\r")) {
        return Ok(());
    }
    let a = view(&c);
    drop(c);
    alone.compare(case, &a)
}
fn odd_chunks(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let res = s.bool();
    let head: &[u8] = if res { b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" } else { b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n" };
    let mut t = vec![];
    for _ in 0..s.range(0, 3) {
        let d = s.bytes_from(b"ab\r\n0 ", 1, 8);
        t.extend(format!("{:x}", d.len()).into_bytes());
        if s.chance(1, 3) {
            t.extend(s.bytes_from(b" ;a=\t\r", 0, 4));
        }
        t.extend(b"\r\n");
        t.extend(d);
        t.extend(b"\r\n");
    }
    t.extend(b"0\r\n");
    for _ in 0..s.range(0, 2) {
        t.extend(b"X: y\r\n");
    }
    t.extend(b"\r\n");
    for _ in 0..s.range(1, 3) {
        twist(s, &mut t, b"\r\n \t:a0;\r\n");
    }
    let alone = Alone::new(s, case, res, [head, &t[..]].concat());
    let c = alone.whole();
    let a = view(&c);
    let ev = c.events();
    let (bk, tk) = if res { (K::ResBody, K::ResTrailerData) } else { (K::ReqBody, K::ReqTrailerData) };
    let raw = data_of(&ev, tk, 0);
    let tx = c.connp.tx(0).ok_or("no transaction")?;
    let n = if res { tx.response_message_len } else { tx.request_message_len };
    let after = ev.iter().rposition(|e| e.k == tk).map(|l| ev[l..].iter().any(|e| e.k == bk && matches!(e.data, Payload::Bytes(_)))).unwrap_or(false);
    if !raw.is_empty() && (after || n as usize + raw.len() != t.len() || c.connp.tx_size() > 1) || res && raw.ends_with(b"\n\r") {
        return Ok(());
    }
    drop(c);
    alone.compare(case, &a)
}
fn odd_line(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let res = s.bool();
    let mut line = if res { s.pick(ODD_RES_LINES).to_vec() } else { s.pick(ODD_REQ_LINES).to_vec() };
    line.extend_from_slice(b"\r\n");
    for _ in 0..s.range(1, 3) {
        twist(s, &mut line, b"\r\n \t:a0/\0\r");
    }
    if res {
        line.retain(|c| !b"\r\n".contains(c));
        if !line.starts_with(b"HTTP/") {
            line.splice(0..0, b"HTTP/".iter().copied());
        }
        line.extend_from_slice(b"\r\n");
    }
    let t: &[u8] = if res { b"Content-Length: 0\r\n\r\n" } else { b"Host: a\r\n\r\n" };
    let alone = Alone::new(s, case, res, [&line[..], t].concat());
    let c = alone.whole();
    let a = view(&c);
    let raw = data_of(&c.events(), if res { K::ResHeaderData } else { K::ReqHeaderData }, 0);
    let tx = c.connp.tx(0).ok_or("no transaction")?;
    if raw != t || c.connp.tx_size() != 1 || a.logs.iter().any(|l| l.contains("NO_PROTOCOL")) || tx.is_protocol_0_9 {
        return Ok(());
    }
    drop(c);
    alone.compare(case, &a)
}

fn conversation(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { big: s.chance(1, 8), max_exchanges: 3, ..Default::default() };
    let mut x = gen_conversation(s, &st);
    let odd = s.chance(2, 3);
    if odd {
        strange(s, &mut x);
    }
    let pers = s.below(4);
    let p = *s.pick(&PERSONALITIES);
    let flags = s.below(16);
    let mk = || {
        let mut c = base_config();
        c.max_tx = 1 << 20;
        if pers == 3 {
            let _ = c.set_server_personality(p);
        }
        c.set_parse_urlencoded(flags & 1 == 0);
        c.set_request_decompression(flags & 2 == 0);
        c.parse_request_auth = flags & 4 == 0;
        c.set_allow_space_uri(flags & 8 != 0);
        c
    };
    let t = streams(&x);
    // whole messages, each response right after its request
    let whole = {
        let rc: Vec<usize> = t.req_end[..t.req_end.len() - 1].to_vec();
        let sc: Vec<usize> = t.res_end[..t.res_end.len() - 1].to_vec();
        let mut o = schedule(s, &t, &rc, &sc, Order::Eager, false);
        o.push(Op::Close);
        o
    };
    let ops = gen_schedule(s, &t, false);
    case.describe(|| format!("first:\n{}\nsecond:\n{}", show_ops(&whole), show_ops(&ops)));
    let mut c = Conn::new(mk());
    c.run(&whole);
    let a = view(&c);
    drop(c);
    let mut c = Conn::new(mk());
    c.run(&ops);
    let b = view(&c);
    case.nontrivial = ops.len() > 2 * x.len() + 1;
    if a.fate != (None, None) {
        case.label("a stream fails");
    }
    if odd {
        case.label("odd messages");
    }
    compare(case, &a, &b)?;
    Ok(())
}
