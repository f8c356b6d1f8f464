//! P13, P14: CONNECT and protocol upgrades; interim responses and refused bodies.
use crate::drive::*;
use crate::engine::*;
use crate::p_traffic::bs;
use crate::traffic::*;
use htp::log::HtpLogCode;
use htp::connection_parser::HtpStreamState as S;
use htp::transaction::HtpResponseNumber;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P13",
        rule: "conversations with a CONNECT (accepted with opaque or plain HTTP data, refused) or an upgrade at a random place; non-trivial when data follows the CONNECT or upgrade in either direction",
        run: p13,
        quick: 400_000,
    },
    Prop {
        id: "P14",
        rule: "interim responses at random places, requests with Expect that are refused or not, unexpected data behind a message; non-trivial when one of them is present",
        run: p14,
        quick: 400_000,
    },
];

fn connect_req(s: &mut Src) -> Req {
    let host: &[u8] = *s.pick(&[b"a.example" as &[u8], b"10.0.0.1", b"[::1]", b"h"]);
    let mut uri = host.to_vec();
    if s.chance(4, 5) {
        uri.extend_from_slice(format!(":{}", s.range(1, 65535)).as_bytes());
    }
    let st = Style { folds: false, ..Default::default() };
    let mut headers = vec![Hdr::new(b"Host", &uri)];
    for _ in 0..s.below(3) {
        headers.push(extra_header(s, &st));
    }
    let mut r = Req { method: b"CONNECT".to_vec(), uri, proto: b"HTTP/1.1".to_vec(), headers, body: Body::none(), eol: b"\r\n".to_vec(), wire: Wire::default() };
    r.serialize();
    r
}

/// Bytes no HTTP request starts with, with a line feed or NUL somewhere.
fn opaque(s: &mut Src) -> Vec<u8> {
    let mut v = match s.below(6) {
        0 => b"\x16\x03\x01\x00\xa5\x01".to_vec(),
        1 => b"SSH-2.0-x\r\n".to_vec(),
        2 => vec![0],
        3 => b"\r\n".to_vec(),
        4 => {
            let mut v = b"xget ".to_vec();
            v.extend(uri(s));
            v.extend_from_slice(b" HTTP/1.1\r\n\r\n");
            v
        }
        _ => {
            let mut v: Vec<u8> = (0..s.range(1, 20)).map(|_| s.range(0x80, 0xff) as u8).collect();
            v.push(*s.pick(b"\n\0"));
            v
        }
    };
    let n = s.below(30);
    v.extend((0..n).map(|_| s.byte()));
    v
}

fn more(s: &mut Src) -> Vec<u8> {
    match s.below(3) {
        0 => b"GET /not/http HTTP/1.1\r\n\r\n".to_vec(),
        1 => b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc".to_vec(),
        _ => { let n = s.range(1, 20); (0..n).map(|_| s.byte()).collect() }
    }
}

fn pieces_of(s: &mut Src, v: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut rest = v;
    while !rest.is_empty() {
        let k = if s.chance(1, 3) { rest.len() } else { s.range(1, rest.len()) };
        out.push(rest[..k].to_vec());
        rest = &rest[k..];
    }
    out
}

fn check_exchange(case: &mut Case, c: &Conn, ev: &[Event], i: usize, e: &Exchange) -> Result<(), String> {
    let tx = c.connp.tx(i).ok_or_else(|| format!("transaction {} is missing", i))?;
    ensure_eq!(case, bs(&tx.request_method), Some(esc(&e.req.method)), "method of transaction {}", i);
    ensure_eq!(case, bs(&tx.request_uri), Some(esc(&e.req.uri)), "target of transaction {}", i);
    ensure_eq!(case, tx.response_status_number, HtpResponseNumber::VALID(e.res.code), "status of transaction {}", i);
    ensure!(case, data_of(ev, K::ReqBody, i) == e.req.body.data, "request body of transaction {}: {}", i, esc(&data_of(ev, K::ReqBody, i)));
    ensure!(case, data_of(ev, K::ResBody, i) == e.res.body.data, "response body of transaction {}: {}", i, esc(&data_of(ev, K::ResBody, i)));
    Ok(())
}

fn p13(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { max_exchanges: 2, big: false, close_delimited: false, ..Default::default() };
    let mut x: Vec<Exchange> = if s.chance(1, 3) { gen_conversation(s, &st) } else { vec![] };
    let k = x.len();
    match s.below(5) {
        // a tunnel for something else
        0 | 1 => tunnel(s, case, x, k),
        // an upgrade
        2 => upgrade(s, case, x, k),
        // HTTP goes on, in a tunnel or after a refusal
        m => {
            // a CONNECT, or several, each one inside of the tunnel of the one before or behind its refusal
            let n = if s.chance(1, 3) { s.range(2, 3) } else { 1 };
            let mut accepted = m == 3;
            for i in 0..n {
                if i > 0 {
                    accepted = s.bool();
                }
                let mut res = gen_res(s, &st, false, false);
                res.interims.clear();
                if accepted {
                    res.code = *s.pick(&[200, 200, 201, 204, 226, 250, 299]);
                    res.body = Body::none();
                    res.headers.retain(|h| !h.name.eq_ignore_ascii_case(b"content-length") && !h.name.eq_ignore_ascii_case(b"transfer-encoding"));
                } else {
                    res.code = *s.pick(&[407, 407, 403, 502, 302, 400, 300, 199 + 300]);
                    if res.body.kind == Kind::None {
                        res.headers.retain(|h| !h.name.eq_ignore_ascii_case(b"content-length") && !h.name.eq_ignore_ascii_case(b"transfer-encoding"));
                        res.headers.push(Hdr::new(b"Content-Length", b"0"));
                    }
                }
                res.serialize();
                x.push(Exchange { req: connect_req(s), res });
            }
            let st = Style { max_exchanges: 3, big: false, close_delimited: true, ..Default::default() };
            let mut tail = gen_conversation(s, &st);
            if crate::p_traffic::method_number(&tail[0].req.method) == "UNKNOWN" {
                // a line that does not start with a known method is not taken for a request here
                tail[0].req.method = b"POST".to_vec();
                tail[0].req.serialize();
            }
            x.extend(tail);
            if s.chance(1, 6) {
                // white space in front of the method, which some servers allow
                let i = s.range(k + 1, k + n);
                let w = &mut x[i].req.wire;
                w.bytes.insert(0, *s.pick(b" \t"));
                w.head += 1;
                w.marks.iter_mut().for_each(|p| *p += 1);
                case.label("white space in front of a method");
            }
            if n > 1 {
                case.label("several CONNECT requests");
            }
            let t = streams(&x);
            let ops = gen_schedule(s, &t, false);
            case.describe(|| show_ops(&ops));
            let mut c = Conn::new(base_config());
            // a caller offers what was held back again before it closes
            let (close, data) = ops.split_last().unwrap();
            c.run(data);
            c.settle();
            c.op(close);
            let ev = c.events();
            case.describe(|| show_events(&ev));
            for (req, name) in [(true, "request"), (false, "response")] {
                if let Some(st) = c.worst(req) {
                    return Err(format!("{} stream answered {:?}", name, st));
                }
            }
            ensure_eq!(case, c.connp.tx_size(), x.len(), "number of transactions");
            for (i, e) in x.iter().enumerate() {
                check_exchange(case, &c, &ev, i, e)?;
                ensure!(case, c.connp.tx(i).unwrap().is_complete(), "transaction {} is not complete", i);
            }
            case.nontrivial = true;
            case.label(if accepted { "plain HTTP in a tunnel" } else { "refused CONNECT" });
            Ok(())
        }
    }
}

fn prelude(s: &mut Src, c: &mut Conn, x: &[Exchange], log: &mut Vec<Op>) {
    if !x.is_empty() {
        let t = streams(x);
        let mut ops = gen_schedule(s, &t, false);
        ops.pop();
        c.run(&ops);
        log.extend(ops);
    }
}

/// After the switch: every call answers TUNNEL and nothing is reported.
fn opaque_phase(s: &mut Src, case: &mut Case, c: &mut Conn, log: &mut Vec<Op>) -> Result<(), String> {
    let before = c.events().len();
    let size = c.connp.tx_size();
    let n = s.range(1, 4);
    for _ in 0..n {
        let m = more(s);
        let op = if s.bool() { Op::Req(m) } else { Op::Res(m) };
        log.push(op);
        let st = c.op(log.last().unwrap());
        case.describe(|| show_ops(log));
        ensure_eq!(case, st, Some(S::TUNNEL), "answer in a tunnel");
        ensure!(case, c.events().len() == before, "a callback ran on tunnelled data: {}", show_events(&c.events()[before..]));
    }
    ensure_eq!(case, c.connp.tx_size(), size, "number of transactions after tunnelled data");
    Ok(())
}

fn tunnel(s: &mut Src, case: &mut Case, x: Vec<Exchange>, k: usize) -> Result<(), String> {
    let mut c = Conn::new(base_config());
    let mut log = vec![];
    prelude(s, &mut c, &x, &mut log);
    let r = connect_req(s);
    let mut head = r.wire.bytes.clone();
    let data = opaque(s);
    // the client may speak before it hears from the proxy
    let early = if s.chance(1, 3) { s.range(1, data.len()) } else { 0 };
    let n = head.len();
    let mut late = vec![];
    if early > 0 {
        if s.bool() { head.extend_from_slice(&data[..early]); } else { late = data[..early].to_vec(); }
    }
    let mut sent = 0;
    for p in pieces_of(s, &head) {
        log.push(Op::Req(p.clone()));
        c.op(log.last().unwrap());
        sent += p.len();
        let call = c.calls.last().unwrap();
        if sent >= n {
            // held back when there is more
            case.describe(|| show_ops(&log));
            let want = if sent > n { S::DATA_OTHER } else { S::DATA };
            ensure_eq!(case, call.st, want, "answer to the end of a CONNECT request");
            if sent == n {
                ensure_eq!(case, call.consumed, call.len, "bytes taken of a CONNECT request");
            }
        }
    }
    if !late.is_empty() {
        log.push(Op::Req(late));
        let st = c.op(log.last().unwrap());
        ensure_eq!(case, st, Some(S::DATA_OTHER), "answer to data while CONNECT waits");
        ensure_eq!(case, c.calls.last().unwrap().consumed, 0, "bytes taken while CONNECT waits");
    }
    case.describe(|| show_ops(&log));
    let ev = c.events();
    ensure!(case, !ev.iter().any(|e| e.k.is_req() && e.tx > k), "the data behind a CONNECT request was parsed");
    // the answer
    let code = *s.pick(&[200u16, 200, 200, 201, 250, 299]);
    let mut res = format!("HTTP/1.{} {} Connection established\r\n", s.below(2), code).into_bytes();
    for _ in 0..s.below(3) {
        res.extend_from_slice(*s.pick(&[b"Content-Length: 5\r\n" as &[u8], b"Transfer-Encoding: chunked\r\n", b"X: y\r\n", b"Via: p\r\n", b"Content-Type: text/html\r\n"]));
    }
    res.extend_from_slice(b"\r\n");
    for p in pieces_of(s, &res) {
        log.push(Op::Res(p));
        c.op(log.last().unwrap());
    }
    for p in pieces_of(s, &data[early..]) {
        log.push(Op::Req(p));
        c.op(log.last().unwrap());
    }
    case.describe(|| show_ops(&log));
    let tx = c.connp.tx(k).ok_or("the CONNECT transaction is missing")?;
    ensure_eq!(case, bs(&tx.request_uri), Some(esc(&r.uri)), "target of CONNECT");
    ensure_eq!(case, tx.response_status_number, HtpResponseNumber::VALID(code), "status of CONNECT");
    let ev = c.events();
    ensure!(case, !ev.iter().any(|e| e.tx > k && e.k != K::TxComplete), "a transaction was made up from tunnelled data");
    ensure!(case, data_of(&ev, K::ReqBody, k).is_empty() && data_of(&ev, K::ResBody, k).is_empty(), "tunnelled data delivered as a body");
    ensure_eq!(case, c.connp.tx_size(), k + 1, "number of transactions");
    opaque_phase(s, case, &mut c, &mut log)?;
    case.nontrivial = true;
    case.label(if early > 0 { "client speaks first" } else { "opaque tunnel" });
    Ok(())
}

fn upgrade(s: &mut Src, case: &mut Case, x: Vec<Exchange>, k: usize) -> Result<(), String> {
    let mut c = Conn::new(base_config());
    let mut log = vec![];
    prelude(s, &mut c, &x, &mut log);
    let to: (&[u8], bool) = *s.pick(&[(b"websocket" as &[u8], false), (b"h2c", true), (b"H2C", true), (b"x, h2c", true), (b"h2", false), (b"hh2c", true), (b"h2-c", false)]);
    let (m, body): (&[u8], &[u8]) = *s.pick(&[
        (b"GET" as &[u8], b"" as &[u8]), (b"GET", b""), (b"GET", b""), (b"OPTIONS", b""), (b"POST", b"Content-Length: 3\r\n\r\nabc"), (b"PUT", b"Content-Length: 2\r\n\r\nab"),
        (b"POST", b"Transfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\n\r\n"), (b"PUT", b""), (b"PROPFIND", b""), (b"DELETE", b""),
    ]);
    let mut rq = m.to_vec();
    rq.extend_from_slice(b" /chat HTTP/1.1\r\nHost: h\r\nUpgrade: ");
    rq.extend_from_slice(to.0);
    rq.extend_from_slice(b"\r\nConnection: Upgrade\r\n");
    rq.extend_from_slice(if body.is_empty() { b"\r\n" } else { body });
    for p in pieces_of(s, &rq) {
        log.push(Op::Req(p));
        c.op(log.last().unwrap());
    }
    let mut rs = vec![];
    if s.chance(1, 5) {
        rs.extend_from_slice(b"HTTP/1.1 100 Continue\r\n\r\n");
    }
    rs.extend_from_slice(b"HTTP/1.1 101 Switching Protocols\r\n");
    let named = s.chance(4, 5);
    if named {
        rs.extend(recase(s, "Upgrade"));
        rs.extend_from_slice(b": ");
        rs.extend_from_slice(to.0);
        rs.extend_from_slice(b"\r\n");
    }
    if s.chance(1, 4) {
        // with a body there is no switch: it is a response like any other
        let body = s.bytes_from(b"HTP/1. 20OK\r\nab\xff", 0, 30);
        if s.bool() {
            rs.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            rs.extend_from_slice(&body);
        } else {
            rs.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            if !body.is_empty() {
                rs.extend_from_slice(format!("{:x}\r\n", body.len()).as_bytes());
                rs.extend_from_slice(&body);
                rs.extend_from_slice(b"\r\n");
            }
            rs.extend_from_slice(b"0\r\n\r\n");
        }
        let rq2 = b"GET /next HTTP/1.1\r\nHost: h\r\n\r\n";
        let rs2 = b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok";
        let first = s.bool();
        let n = log.len();
        if first {
            log.extend(pieces_of(s, rq2).into_iter().map(Op::Req));
        }
        if first && s.bool() {
            rs.extend_from_slice(rs2);
            log.extend(pieces_of(s, &rs).into_iter().map(Op::Res));
        } else {
            log.extend(pieces_of(s, &rs).into_iter().map(Op::Res));
            if !first {
                log.extend(pieces_of(s, rq2).into_iter().map(Op::Req));
            }
            log.extend(pieces_of(s, rs2).into_iter().map(Op::Res));
        }
        for o in &log[n..] {
            let st = c.op(o);
            ensure!(case, matches!(st, Some(S::DATA)), "answered {:?} although there is no tunnel", st);
        }
        case.describe(|| show_ops(&log));
        let ev = c.events();
        ensure_eq!(case, c.connp.tx_size(), k + 2, "number of transactions");
        ensure_eq!(case, esc(&data_of(&ev, K::ResBody, k)), esc(&body), "body of the 101 response");
        ensure_eq!(case, esc(&data_of(&ev, K::ResBody, k + 1)), "ok", "body of the response behind it");
        for i in [k, k + 1] {
            ensure!(case, c.connp.tx(i).is_some_and(|t| t.is_complete()), "transaction {} is not complete", i);
        }
        ensure_eq!(case, bs(&c.connp.tx(k + 1).unwrap().request_uri), Some("/next".into()), "target behind it");
        ensure_eq!(case, c.connp.tx(k).unwrap().is_http_2_upgrade, named && to.1, "upgrade to HTTP/2 mark");
        case.nontrivial = true;
        case.label("101 with a body");
        return Ok(());
    }
    rs.extend_from_slice(b"\r\n");
    let head = rs.len();
    // the server may go on at once
    if s.bool() {
        rs.extend(more(s));
    }
    let mut sent = 0;
    for p in pieces_of(s, &rs) {
        sent += p.len();
        log.push(Op::Res(p));
        let st = c.op(log.last().unwrap());
        if sent >= head {
            ensure_eq!(case, st, Some(S::TUNNEL), "answer after a 101 response");
        }
    }
    case.describe(|| show_ops(&log));
    let ev = c.events();
    ensure!(case, data_of(&ev, K::ResBody, k).is_empty(), "data after a 101 response delivered as its body");
    ensure!(case, ev.iter().any(|e| e.k == K::ResHeaders && e.tx == k), "the header fields of the 101 response were not reported");
    ensure_eq!(case, c.connp.tx_size(), k + 1, "number of transactions");
    let tx = c.connp.tx(k).ok_or("the transaction is missing")?;
    ensure_eq!(case, tx.response_status_number, HtpResponseNumber::VALID(101), "status");
    ensure_eq!(case, tx.is_http_2_upgrade, named && to.1, "upgrade to HTTP/2 mark");
    opaque_phase(s, case, &mut c, &mut log)?;
    case.nontrivial = true;
    case.label("upgrade");
    Ok(())
}

/// A request that announces a body and waits for leave to send it.
fn expecting(s: &mut Src, st: &Style) -> Req {
    loop {
        let mut r = gen_req(s, st, false);
        if r.body.kind != Kind::Cl || r.body.data.is_empty() {
            r.headers.retain(|h| !h.name.eq_ignore_ascii_case(b"transfer-encoding") && !h.name.eq_ignore_ascii_case(b"content-length"));
            let n = s.range(1, 40);
            let data: Vec<u8> = (0..n).map(|_| s.byte()).collect();
            r.headers.push(Hdr::new(b"Content-Length", n.to_string().as_bytes()));
            r.body = Body { kind: Kind::Cl, data, ..Body::none() };
            r.proto = b"HTTP/1.1".to_vec();
        }
        r.headers.retain(|h| !h.name.eq_ignore_ascii_case(b"expect"));
        let n = recase(s, "Expect");
        let k = s.below(r.headers.len() as u64 + 1) as usize;
        r.headers.insert(k, Hdr::new(&n, b"100-continue"));
        if r.method == b"HEAD" {
            r.method = b"PUT".to_vec();
        }
        r.serialize();
        return r;
    }
}
fn interims(s: &mut Src, st: &Style) -> Vec<Interim> {
    let n = s.range(0, 3);
    (0..n)
        .map(|_| {
            let mut headers: Vec<Hdr> = (0..s.below(3)).map(|_| extra_header(s, st)).collect();
            if s.chance(1, 4) {
                headers.push(Hdr::new(b"Content-Length", b"0"));
            }
            Interim { headers, reason: reason(s) }
        })
        .collect()
}
fn finish(case: &mut Case, c: &Conn, x: &[Exchange], unsent: Option<usize>) -> Result<(), String> {
    let ev = c.events();
    case.describe(|| show_events(&ev));
    for (req, name) in [(true, "request"), (false, "response")] {
        if let Some(st) = c.worst(req) {
            return Err(format!("{} stream answered {:?}", name, st));
        }
    }
    ensure_eq!(case, c.connp.tx_size(), x.len(), "number of transactions");
    for (i, e) in x.iter().enumerate() {
        let tx = c.connp.tx(i).ok_or("a transaction is missing")?;
        crate::p_traffic::check_req(case, tx, &e.req)?;
        crate::p_traffic::check_res(case, tx, &e.res, e.req.method == b"HEAD")?;
        let body: &[u8] = if unsent == Some(i) { b"" } else { &e.req.body.data };
        ensure!(case, data_of(&ev, K::ReqBody, i) == body, "body of request {}: {}", i, esc(&data_of(&ev, K::ReqBody, i)));
        ensure!(case, data_of(&ev, K::ResBody, i) == e.res.body.data, "body of response {}: {}", i, esc(&data_of(&ev, K::ResBody, i)));
        ensure_eq!(case, tx.request_message_len, if unsent == Some(i) { 0 } else { e.req.wire.body_wire as u64 }, "message length of request {}", i);
        for k in [K::ReqComplete, K::ResComplete, K::TxComplete, K::ReqHeaders, K::ResHeaders] {
            ensure_eq!(case, ev.iter().filter(|v| v.k == k && v.tx == i).count(), 1, "{:?} callbacks of transaction {}", k, i);
        }
    }
    Ok(())
}

fn p14(s: &mut Src, case: &mut Case) -> Result<(), String> {
    match s.below(6) {
        0 | 1 => p14_early(s, case),
        2 | 3 => p14_refused(s, case),
        _ => if s.chance(1, 4) { p14_unexpected_coded(s, case) } else { p14_unexpected(s, case) },
    }
}

/// Interim and final responses while the request is still being sent.
fn p14_early(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { max_exchanges: 4, big: false, ..Default::default() };
    let mut x = gen_conversation(s, &st);
    let early = s.chance(2, 3);
    let mut n = 0;
    for e in x.iter_mut() {
        if s.bool() {
            let m = e.req.method.clone();
            let r = expecting(s, &st);
            if m != b"HEAD" {
                e.req = r;
                if (400..500).contains(&e.res.code) && early {
                    e.res.code = 200;
                } else if !early && e.res.code == 200 && s.bool() {
                    // refused only when everything was sent: that ends nothing
                    e.res.code = *s.pick(&[400, 417, 499]);
                }
            }
        }
        e.res.interims = interims(s, &st);
        n += e.res.interims.len();
        e.res.serialize();
    }
    let t = streams(&x);
    let ops = gen_schedule(s, &t, early);
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    c.run(&ops);
    finish(case, &c, &x, None)?;
    case.nontrivial = n > 0;
    if n > 1 { case.label("several interim responses"); }
    if early { case.label("early responses"); }
    Ok(())
}

/// A refused body is not waited for; one that is not refused is.
fn p14_refused(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { max_exchanges: 2, big: false, close_delimited: false, ..Default::default() };
    let mut x: Vec<Exchange> = if s.chance(1, 3) { gen_conversation(s, &st) } else { vec![] };
    let k = x.len();
    let mut req = expecting(s, &st);
    let mut res = gen_res(s, &st, false, false);
    if res.code == 204 || res.code == 304 || s.chance(2, 3) {
        res.code = if s.bool() { 417 } else { s.range(400, 499) as u16 };
        if res.body.kind == Kind::None {
            res.headers.retain(|h| !h.name.eq_ignore_ascii_case(b"content-length") && !h.name.eq_ignore_ascii_case(b"transfer-encoding"));
            res.headers.push(Hdr::new(b"Content-Length", b"0"));
            res.body = Body { kind: Kind::Cl, ..Body::none() };
        }
    }
    res.interims = if s.chance(1, 4) { interims(s, &st) } else { vec![] };
    res.serialize();
    // without Expect nobody waits
    let expect = s.chance(3, 4);
    if !expect {
        req.headers.retain(|h| !h.name.eq_ignore_ascii_case(b"expect"));
        req.serialize();
    }
    // part of the body may already be on its way
    let begun = if s.chance(1, 4) { s.range(1, req.body.data.len()) } else { 0 };
    let refused = expect && begun == 0 && (400..500).contains(&res.code);
    x.push(Exchange { req, res });
    let st = Style { max_exchanges: 2, big: false, ..Default::default() };
    let mut tail = gen_conversation(s, &st);
    if crate::p_traffic::method_number(&tail[0].req.method) == "UNKNOWN" {
        tail[0].req.method = b"POST".to_vec();
        tail[0].req.serialize();
    }
    // the request so far, everything before it answered
    let mut ops = vec![];
    if k > 0 {
        let t = streams(&x[..k]);
        ops = gen_schedule(s, &t, false);
        ops.pop();
    }
    let e = &x[k];
    let sent = e.req.wire.head + begun;
    for p in pieces_of(s, &e.req.wire.bytes[..sent]) {
        ops.push(Op::Req(p));
    }
    // the head of the answer at least
    let head = e.res.wire.head;
    let m = s.range(head.min(e.res.wire.bytes.len()), e.res.wire.bytes.len());
    for p in pieces_of(s, &e.res.wire.bytes[..m]) {
        ops.push(Op::Res(p));
    }
    let mut t = streams(&tail);
    let left = &e.res.wire.bytes[m..];
    for v in [&mut t.res_marks, &mut t.res_end] {
        v.iter_mut().for_each(|p| *p += left.len());
    }
    t.res_end.insert(0, left.len());
    t.res.splice(0..0, left.iter().copied());
    let rest: &[u8] = if refused { b"" } else { &e.req.wire.bytes[sent..] };
    for v in [&mut t.req_marks, &mut t.req_end, &mut t.req_head_end] {
        v.iter_mut().for_each(|p| *p += rest.len());
    }
    t.req_end.insert(0, 0);
    t.req_head_end.insert(0, 0);
    t.req.splice(0..0, rest.iter().copied());
    ops.extend(gen_schedule(s, &t, false));
    x.extend(tail);
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    c.run(&ops);
    finish(case, &c, &x, refused.then_some(k))?;
    case.nontrivial = true;
    case.label(if refused { "refused body" } else { "body not refused" });
    Ok(())
}

/// Data behind a complete message, in the same packet, that starts no message.
fn p14_unexpected(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let req = s.bool();
    let st = Style { big: false, close_delimited: false, interim: false, ..Default::default() };
    let mut e = Exchange { req: gen_req(s, &st, false), res: gen_res(s, &st, false, false) };
    if e.req.method == b"HEAD" {
        e.req.method = b"GET".to_vec();
        e.req.serialize();
    }
    let mut junk = vec![];
    let mut cut = None;
    let split = s.bool();
    let n = s.range(1, 4);
    for i in 0..n {
        let l: Vec<u8> = if !req && !split && e.res.body.kind != Kind::Chunked && i + 1 < n && s.chance(1, 6) {
            // an empty line
            junk.push(b'\n');
            continue;
        } else if req {
            let mut l: Vec<u8> = s.pick(&[b"" as &[u8], b"", b" ", b"\t"]).to_vec();
            match s.below(4) {
                // only white space
                0 => {}
                1 => l.extend_from_slice(*s.pick(&[b"get / HTTP/1.1" as &[u8], b"GETX / HTTP/1.1", b"HTTP/1.1 200 OK", b"GE T", b"Host: h", b"=1&b=2"])),
                _ => { l.push(b'z'); let n = s.below(12); l.extend((0..n).map(|_| s.byte()).filter(|c| *c != b'\n')); }
            }
            l
        } else {
            let mut l: Vec<u8> = s.pick(&[b"" as &[u8], b"", b" ", b"\t", b"\0"]).to_vec();
            match s.below(4) {
                0 => l.extend_from_slice(*s.pick(&[b"GET / HTTP/1.1" as &[u8], b"HTT P/1.1 200 OK", b"xHTTP/1.1 200 OK", b"HT", b"Host: h", b"<html>"])),
                _ => { l.push(b'<'); let n = s.below(12); l.extend((0..n).map(|_| s.byte()).filter(|c| *c != b'\n')); }
            }
            l
        };
        if split && !l.is_empty() && s.chance(1, 3) {
            // at least one byte of the line in each packet
            cut = Some(junk.len() + s.range(1, l.len()));
        }
        junk.extend_from_slice(&l);
        junk.extend_from_slice(if req && l.is_empty() { b"\n" } else { *s.pick(&[b"\r\n" as &[u8], b"\n"]) });
    }
    let next: Vec<u8> = if req {
        let mut v = s.pick(&METHODS).as_bytes().to_vec();
        v.extend_from_slice(b" /next HTTP/1.0\r\n\r\n");
        v
    } else {
        b"HTTP/1.0 204 Next\r\n\r\n".to_vec()
    };
    let mut wire = if req { e.req.wire.bytes.clone() } else { e.res.wire.bytes.clone() };
    let at = wire.len();
    wire.extend_from_slice(&junk);
    wire.extend_from_slice(&next);
    let ops: Vec<Op> = {
        let mut v = vec![];
        if !req {
            let mut r = e.req.wire.bytes.clone();
            r.extend_from_slice(b"GET /next HTTP/1.0\r\n\r\n");
            v.push(Op::Req(r));
        }
        let mut parts = vec![];
        match cut {
            Some(k) => { parts.push(wire[..at + k].to_vec()); parts.push(wire[at + k..].to_vec()); }
            None => parts.push(wire),
        }
        v.extend(parts.into_iter().map(|p| if req { Op::Req(p) } else { Op::Res(p) }));
        if req {
            v.push(Op::Res(e.res.wire.bytes.clone()));
            v.push(Op::Res(b"HTTP/1.0 204 Next\r\n\r\n".to_vec()));
        }
        v.push(Op::Close);
        v
    };
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    c.run(&ops);
    let ev = c.events();
    case.describe(|| show_events(&ev));
    let mut want = if req { e.req.body.data.clone() } else { e.res.body.data.clone() };
    want.extend_from_slice(&junk);
    let got = data_of(&ev, if req { K::ReqBody } else { K::ResBody }, 0);
    ensure!(case, got == want, "body {} instead of {}", esc(&got), esc(&want));
    ensure_eq!(case, c.connp.tx_size(), 2, "number of transactions");
    let t = c.connp.tx(1).unwrap();
    ensure_eq!(case, bs(&t.request_uri), Some("/next".to_string()), "target of the next request");
    ensure_eq!(case, t.response_status_number, HtpResponseNumber::VALID(204), "status of the next response");
    ensure!(case, data_of(&ev, K::ReqBody, 1).is_empty() && data_of(&ev, K::ResBody, 1).is_empty(), "the next message has a body");
    ensure!(case, c.worst(true).is_none() && c.worst(false).is_none(), "a stream ended in error");
    for i in 0..2 {
        ensure!(case, c.connp.tx(i).unwrap().is_complete(), "transaction {} is not complete", i);
    }
    // each line that is not blank is told
    let told = c.connp.conn.get_logs().iter().filter(|l| l.msg.code == if req { HtpLogCode::REQUEST_BODY_UNEXPECTED } else { HtpLogCode::RESPONSE_BODY_UNEXPECTED }).count();
    let blank = junk.split(|x| *x == b'\n').all(|l| l.iter().all(|x| matches!(x, b' ' | b'\t' | b'\r')));
    if req {
        ensure_eq!(case, told > 0, !blank, "{} messages about unexpected data", told);
    } else {
        ensure!(case, told > 0, "no message about unexpected data");
    }
    case.nontrivial = true;
    case.label("unexpected body");
    Ok(())
}

/// Data behind a complete request whose body was compressed: not delivered, and nothing goes wrong.
fn p14_unexpected_coded(s: &mut Src, case: &mut Case) -> Result<(), String> {
    use crate::p_compress::{encode, Enc};
    // behind a response it is an error by design (the repository's tests say so)
    let req = true;
    let (enc, name) = *s.pick(&[(Enc::Gzip, "gzip"), (Enc::Gzip, "x-gzip"), (Enc::Deflate, "deflate"), (Enc::Zlib, "deflate"), (Enc::Lzma, "lzma"), (Enc::Gzip, "gzip, none")]);
    let n = s.size(0, 200);
    let plain = s.bytes_from(b"abc\r\n <>", 1, n.max(2));
    let coded = encode(s, enc, &plain);
    let mut junk = vec![];
    for _ in 0..s.range(1, 3) {
        let l: &[u8] = if req {
            *s.pick(&[b"" as &[u8], b" ", b"zz", b"=1&b=2", b"get / HTTP/1.1", b"Host: h"])
        } else {
            *s.pick(&[b"<html>" as &[u8], b"zz", b"GET / HTTP/1.1", b" <", b"xHTTP/1.1 200 OK"])
        };
        junk.extend_from_slice(l);
        junk.extend_from_slice(*s.pick(&[b"\r\n" as &[u8], b"\n"]));
    }
    let head = format!("Content-Encoding: {}\r\nContent-Length: {}\r\n\r\n", name, coded.len());
    let mut wire = if req { format!("POST /first HTTP/1.1\r\nHost: h\r\n{}", head) } else { format!("HTTP/1.1 200 OK\r\n{}", head) }.into_bytes();
    wire.extend_from_slice(&coded);
    let at = wire.len();
    wire.extend_from_slice(&junk);
    wire.extend_from_slice(if req { b"GET /next HTTP/1.0\r\n\r\n" as &[u8] } else { b"HTTP/1.0 204 Next\r\n\r\n" });
    // the end of the message and what is behind it are in one packet
    let mut ops = vec![];
    if !req {
        ops.push(Op::Req(b"GET /first HTTP/1.1\r\nHost: h\r\n\r\nGET /next HTTP/1.0\r\n\r\n".to_vec()));
    }
    let a = if s.bool() { s.range(1, at - 1) } else { 0 };
    for p in [&wire[..a], &wire[a..]] {
        if !p.is_empty() {
            ops.push(if req { Op::Req(p.to_vec()) } else { Op::Res(p.to_vec()) });
        }
    }
    if req {
        ops.push(Op::Res(b"HTTP/1.0 200 OK\r\nContent-Length: 0\r\n\r\n".to_vec()));
        ops.push(Op::Res(b"HTTP/1.0 204 Next\r\n\r\n".to_vec()));
    }
    ops.push(Op::Close);
    case.describe(|| show_ops(&ops));
    let mut cfg = base_config();
    cfg.request_decompression_enabled = true;
    let mut c = Conn::new(cfg);
    c.run(&ops);
    let ev = c.events();
    case.describe(|| show_events(&ev));
    ensure!(case, c.worst(true).is_none() && c.worst(false).is_none(), "a stream ended in error");
    let got = data_of(&ev, if req { K::ReqBody } else { K::ResBody }, 0);
    ensure!(case, got == plain, "body {} instead of {}", esc(&got), esc(&plain));
    ensure_eq!(case, c.connp.tx_size(), 2, "number of transactions");
    let t = c.connp.tx(1).unwrap();
    ensure_eq!(case, bs(&t.request_uri), Some("/next".to_string()), "target of the next request");
    ensure_eq!(case, t.response_status_number, HtpResponseNumber::VALID(204), "status of the next response");
    ensure!(case, data_of(&ev, K::ReqBody, 1).is_empty() && data_of(&ev, K::ResBody, 1).is_empty(), "the next message has a body");
    for i in 0..2 {
        ensure!(case, c.connp.tx(i).unwrap().is_complete(), "transaction {} is not complete", i);
    }
    case.nontrivial = true;
    case.label("unexpected data behind a coded body");
    Ok(())
}
