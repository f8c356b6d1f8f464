//! P02-P07: what an observer is told about well-formed conversations.
use crate::drive::*;
use crate::engine::*;
use crate::traffic::*;
use htp::transaction::*;
use htp::util::HtpFlags;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P03",
        rule: "well-formed conversation; non-trivial when a request has at least 2 header fields or a body",
        run: p03,
        quick: 400_000,
    },
    Prop {
        id: "P04",
        rule: "well-formed conversation; non-trivial when a response has at least 2 header fields or a body",
        run: p04,
        quick: 400_000,
    },
    Prop {
        id: "P05",
        rule: "well-formed conversation; non-trivial when at least one message has a non-empty body",
        run: p05,
        quick: 400_000,
    },
    Prop {
        id: "P06",
        rule: "well-formed conversation of 2 or more exchanges",
        run: p06,
        quick: 400_000,
    },
    Prop {
        id: "P07",
        rule: "well-formed conversation with more than one exchange or a body, or arbitrary traffic with a transaction of more than 6 callbacks",
        run: p07,
        quick: 400_000,
    },
];

pub fn method_number(m: &[u8]) -> String {
    let s = String::from_utf8_lossy(m).to_string();
    if METHODS.contains(&s.as_str()) || s == "CONNECT" || s == "INVALID" {
        s.replace('-', "_")
    } else {
        "UNKNOWN".into()
    }
}

pub fn proto_number(p: &[u8]) -> HtpProtocol {
    match p {
        b"HTTP/0.9" => HtpProtocol::V0_9,
        b"HTTP/1.0" => HtpProtocol::V1_0,
        b"HTTP/1.1" => HtpProtocol::V1_1,
        _ => HtpProtocol::INVALID,
    }
}

/// (name, value, repeated, first occurrence folded)
pub fn expected_headers(fields: &[&Hdr]) -> Vec<(Vec<u8>, Vec<u8>, bool, bool)> {
    let mut v: Vec<(Vec<u8>, Vec<u8>, bool, bool)> = vec![];
    for h in fields {
        if let Some(e) = v.iter_mut().find(|e| e.0.eq_ignore_ascii_case(&h.name)) {
            e.2 = true;
            if !h.name.eq_ignore_ascii_case(b"content-length") {
                e.1.extend_from_slice(b", ");
                e.1.extend_from_slice(&h.value());
            }
        } else {
            v.push((h.name.clone(), h.value(), false, h.folded()));
        }
    }
    v
}

fn collapse(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in b {
        if matches!(c, b' ' | b'\t') {
            if o.last() != Some(&b' ') {
                o.push(b' ');
            }
        } else {
            o.push(*c);
        }
    }
    o
}

pub fn check_headers(case: &mut Case, what: &str, got: &Headers, fields: &[&Hdr]) -> Result<(), String> {
    let exp = expected_headers(fields);
    let g: Vec<(String, String)> = got.elements.iter().map(|h| (esc(&h.name), esc(&h.value))).collect();
    ensure_eq!(case, got.size(), exp.len(), "{}: number of header fields in {:?}", what, g);
    for (h, e) in got.elements.iter().zip(&exp) {
        ensure_eq!(case, esc(&h.name), esc(&e.0), "{}: field name", what);
        ensure_eq!(case, esc(&h.value), esc(&e.1), "{}: value of field {}", what, esc(&e.0));
        ensure_eq!(case, h.flags & HtpFlags::FIELD_FOLDED != 0, e.3, "{}: folded mark of field {}", what, esc(&e.0));
        ensure_eq!(case, h.flags & HtpFlags::FIELD_REPEATED != 0, e.2, "{}: repeated mark of field {}", what, esc(&e.0));
        ensure_eq!(case, h.flags & (HtpFlags::FIELD_INVALID | HtpFlags::FIELD_UNPARSEABLE), 0, "{}: field {} marked invalid", what, esc(&e.0));
        // lookups ignore case
        let up = e.0.to_ascii_uppercase();
        ensure_eq!(case, got.get_nocase(up.as_slice()).map(|x| esc(&x.value)), Some(esc(&h.value)), "{}: case-insensitive lookup of {}", what, esc(&e.0));
    }
    Ok(())
}

pub fn bs(b: &Option<htp::bstr::Bstr>) -> Option<String> {
    b.as_ref().map(|x| esc(x))
}

pub fn req_fields(r: &Req) -> Vec<&Hdr> {
    r.headers.iter().chain(r.body.trailers.iter()).collect()
}
pub fn res_fields(r: &Res) -> Vec<&Hdr> {
    r.headers.iter().chain(r.body.trailers.iter()).collect()
}

const ANOMALY: u64 = HtpFlags::FIELD_UNPARSEABLE
    | HtpFlags::FIELD_INVALID
    | HtpFlags::FIELD_RAW_NUL
    | HtpFlags::REQUEST_SMUGGLING
    | HtpFlags::INVALID_FOLDING
    | HtpFlags::REQUEST_INVALID_T_E
    | HtpFlags::STATUS_LINE_INVALID
    | HtpFlags::REQUEST_INVALID
    | HtpFlags::REQUEST_INVALID_C_L
    | HtpFlags::REQUEST_MISSING_BYTES
    | HtpFlags::RESPONSE_MISSING_BYTES;

/// The request side of a completed transaction is exactly what was sent.
pub fn check_req(case: &mut Case, tx: &Transaction, r: &Req) -> Result<(), String> {
    let w = format!("request {}", tx.index);
    ensure_eq!(case, bs(&tx.request_line), Some(esc(&r.line())), "{}: request line", w);
    ensure_eq!(case, bs(&tx.request_method), Some(esc(&r.method)), "{}: method", w);
    ensure_eq!(case, format!("{:?}", tx.request_method_number), method_number(&r.method), "{}: method number", w);
    ensure_eq!(case, bs(&tx.request_uri), Some(esc(&r.uri)), "{}: uri", w);
    ensure_eq!(case, bs(&tx.request_protocol), Some(esc(&r.proto)), "{}: protocol", w);
    ensure_eq!(case, tx.request_protocol_number, proto_number(&r.proto), "{}: protocol number", w);
    ensure_eq!(case, tx.is_protocol_0_9, false, "{}: short-style request", w);
    ensure_eq!(case, tx.request_ignored_lines, 0, "{}: ignored lines", w);
    check_headers(case, &w, &tx.request_headers, &req_fields(r))?;
    let tc = match r.body.kind {
        Kind::None => HtpTransferCoding::NO_BODY,
        Kind::Chunked => HtpTransferCoding::CHUNKED,
        _ => HtpTransferCoding::IDENTITY,
    };
    ensure_eq!(case, tx.request_transfer_coding, tc, "{}: transfer coding", w);
    ensure_eq!(case, tx.request_progress, HtpRequestProgress::COMPLETE, "{}: progress", w);
    ensure_eq!(case, tx.flags & ANOMALY, 0, "{}: anomaly flags", w);
    let cl = (r.body.kind == Kind::Cl).then_some(r.body.data.len() as u64);
    ensure_eq!(case, tx.request_content_length, cl, "{}: content length", w);
    Ok(())
}

pub fn check_res(case: &mut Case, tx: &Transaction, r: &Res, head: bool) -> Result<(), String> {
    let w = format!("response {}", tx.index);
    let mut line = r.line();
    line.extend_from_slice(&r.eol);
    ensure_eq!(case, bs(&tx.response_protocol), Some(esc(&r.proto)), "{}: protocol", w);
    ensure_eq!(case, tx.response_protocol_number, proto_number(&r.proto), "{}: protocol number", w);
    ensure_eq!(case, bs(&tx.response_status), Some(r.code.to_string()), "{}: status", w);
    ensure_eq!(case, tx.response_status_number, HtpResponseNumber::VALID(r.code), "{}: status number", w);
    ensure_eq!(case, bs(&tx.response_message), Some(esc(&r.reason)), "{}: message", w);
    // the line is kept with or without its terminator
    let l = tx.response_line.as_ref().map(|l| l.as_slice().to_vec()).unwrap_or_default();
    let t: &[u8] = {
        let mut t = l.as_slice();
        while matches!(t.last(), Some(b'\r') | Some(b'\n')) {
            t = &t[..t.len() - 1];
        }
        t
    };
    ensure_eq!(case, esc(t), esc(&r.line()), "{}: response line", w);
    ensure_eq!(case, tx.response_ignored_lines, 0, "{}: ignored lines", w);
    check_headers(case, &w, &tx.response_headers, &res_fields(r))?;
    let bodyless = head || r.body.kind == Kind::None;
    let tc = if bodyless {
        HtpTransferCoding::NO_BODY
    } else if r.body.kind == Kind::Chunked {
        HtpTransferCoding::CHUNKED
    } else {
        HtpTransferCoding::IDENTITY
    };
    ensure_eq!(case, tx.response_transfer_coding, tc, "{}: transfer coding", w);
    ensure_eq!(case, tx.response_progress, HtpResponseProgress::COMPLETE, "{}: progress", w);
    ensure_eq!(case, tx.flags & ANOMALY, 0, "{}: anomaly flags", w);
    ensure_eq!(case, tx.seen_100continue, !r.interims.is_empty(), "{}: seen 100-continue", w);
    let cl = (r.body.kind == Kind::Cl).then_some(r.body.data.len() as u64);
    ensure_eq!(case, tx.response_content_length, cl, "{}: content length", w);
    Ok(())
}

fn style(s: &mut Src) -> Style {
    let _ = s;
    Style::default()
}

struct Run {
    x: Vec<Exchange>,
    c: Conn,
    ev: Vec<Event>,
}

fn converse(s: &mut Src, case: &mut Case) -> Result<Run, String> {
    let st = style(s);
    let x = gen_conversation(s, &st);
    let t = streams(&x);
    let ops = gen_schedule(s, &t, false);
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(base_config());
    c.run(&ops);
    for (req, name) in [(true, "request"), (false, "response")] {
        if let Some(st) = c.worst(req) {
            return Err(format!("{} stream answered {:?} on a well-formed conversation", name, st));
        }
    }
    let ev = c.events();
    case.describe(|| show_events(&ev));
    Ok(Run { x, c, ev })
}

fn p03(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let r = converse(s, case)?;
    ensure_eq!(case, r.c.connp.tx_size(), r.x.len(), "number of transactions");
    for (i, e) in r.x.iter().enumerate() {
        let tx = r.c.connp.tx(i).ok_or("missing transaction")?;
        check_req(case, tx, &e.req)?;
        if e.req.headers.len() > 1 || !e.req.body.data.is_empty() {
            case.nontrivial = true;
        }
    }
    Ok(())
}

fn p04(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let r = converse(s, case)?;
    ensure_eq!(case, r.c.connp.tx_size(), r.x.len(), "number of transactions");
    for (i, e) in r.x.iter().enumerate() {
        let tx = r.c.connp.tx(i).ok_or("missing transaction")?;
        check_res(case, tx, &e.res, e.req.method == b"HEAD")?;
        if e.res.headers.len() > 1 || !e.res.body.data.is_empty() {
            case.nontrivial = true;
        }
    }
    Ok(())
}

fn p05(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let r = converse(s, case)?;
    ensure_eq!(case, r.c.connp.tx_size(), r.x.len(), "number of transactions");
    for (i, e) in r.x.iter().enumerate() {
        let tx = r.c.connp.tx(i).ok_or("missing transaction")?;
        ensure_eq!(case, esc(&data_of(&r.ev, K::ReqBody, i)), esc(&e.req.body.data), "request {}: body", i);
        ensure_eq!(case, data_of(&r.ev, K::ReqBody, i) == e.req.body.data, true, "request {}: body", i);
        ensure_eq!(case, esc(&data_of(&r.ev, K::ResBody, i)), esc(&e.res.body.data), "response {}: body", i);
        ensure_eq!(case, data_of(&r.ev, K::ResBody, i) == e.res.body.data, true, "response {}: body", i);
        ensure_eq!(case, tx.request_entity_len, e.req.body.data.len() as u64, "request {}: entity length", i);
        ensure_eq!(case, tx.response_entity_len, e.res.body.data.len() as u64, "response {}: entity length", i);
        ensure_eq!(case, tx.request_message_len, e.req.wire.body_wire as u64, "request {}: message length", i);
        ensure_eq!(case, tx.response_message_len, e.res.wire.body_wire as u64, "response {}: message length", i);
        if !e.req.body.data.is_empty() || !e.res.body.data.is_empty() {
            case.nontrivial = true;
        }
    }
    Ok(())
}


/// P06: request i and response i end up in transaction i.
fn p06(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let st = Style { max_exchanges: 6, big: false, ..Default::default() };
    let mut x = gen_conversation(s, &st);
    // every message carries its number
    for (i, e) in x.iter_mut().enumerate() {
        e.req.headers.push(Hdr::new(b"X-Number", format!("q{}", i).as_bytes()));
        e.res.headers.push(Hdr::new(b"X-Number", format!("s{}", i).as_bytes()));
        e.req.serialize();
        e.res.serialize();
    }
    // responses nobody asked for, between exchanges or after all of them
    let close_delimited = x.last().unwrap().res.body.kind == Kind::Close;
    let early = s.chance(1, 3);
    let mut ordered = true;
    let mut ops = vec![];
    // what each transaction is: an exchange or a response without a request
    let mut plan: Vec<Result<usize, Res>> = vec![];
    let mut at = 0;
    while at < x.len() {
        if s.chance(1, 8) && x[at].res.body.kind != Kind::Close && x[at].req.wire.head < x[at].req.wire.bytes.len() {
            // answered before it was sent in full, with more responses right behind
            let (q, r) = (&x[at].req.wire, &x[at].res.wire);
            let cut = s.range(q.head, q.bytes.len() - 1);
            ops.push(Op::Req(q.bytes[..cut].to_vec()));
            ops.push(Op::Res(r.bytes.clone()));
            plan.push(Ok(at));
            for _ in 0..s.range(1, 3) {
                let st = Style { close_delimited: false, interim: false, big: false, ..Default::default() };
                let mut r = gen_res(s, &st, false, false);
                if r.code == 407 { r.code = 200; }
                r.serialize();
                ops.push(Op::Res(r.wire.bytes.clone()));
                plan.push(Err(r));
            }
            ops.push(Op::Req(q.bytes[cut..].to_vec()));
            ordered = false;
            at += 1;
            continue;
        }
        let k = if s.chance(3, 4) { x.len() } else { s.range(at + 1, x.len()) };
        let mut unasked = vec![];
        if s.chance(1, 4) {
            for _ in 0..s.range(1, 2) {
                let st = Style { close_delimited: false, interim: false, big: false, ..Default::default() };
                let mut r = gen_res(s, &st, false, false);
                if r.code == 407 { r.code = 200; }
                r.serialize();
                unasked.push(r);
            }
        }
        let before = s.bool();
        if k == x.len() && close_delimited && !before {
            unasked.clear();
        }
        let t = streams(&x[at..k]);
        let mut part = gen_schedule(s, &t, early);
        part.pop();
        let o: Vec<Op> = unasked.iter().map(|r| Op::Res(r.wire.bytes.clone())).collect();
        if before {
            ops.extend(o);
            plan.extend(unasked.into_iter().map(Err));
            ops.extend(part);
            plan.extend((at..k).map(Ok));
        } else {
            ops.extend(part);
            plan.extend((at..k).map(Ok));
            ops.extend(o);
            plan.extend(unasked.into_iter().map(Err));
        }
        at = k;
    }
    ops.push(Op::Close);
    case.describe(|| show_ops(&ops));
    let mut cfg = base_config();
    cfg.set_flush_incomplete(s.bool());
    let mut c = Conn::new(cfg);
    c.run(&ops);
    for (req, name) in [(true, "request"), (false, "response")] {
        if let Some(st) = c.worst(req) {
            return Err(format!("{} stream answered {:?} on a well-formed conversation", name, st));
        }
    }
    let ev = c.events();
    case.describe(|| show_events(&ev));
    let n = plan.len();
    ensure_eq!(case, c.connp.tx_size(), n, "number of transactions");
    for (i, p) in plan.iter().enumerate() {
        let tx = c.connp.tx(i).ok_or("missing transaction")?;
        ensure_eq!(case, tx.index, i, "index");
        match p {
            Ok(j) => {
                let e = &x[*j];
                ensure_eq!(case, bs(&tx.request_method), Some(esc(&e.req.method)), "method of transaction {}", i);
                ensure_eq!(case, bs(&tx.request_uri), Some(esc(&e.req.uri)), "uri of transaction {}", i);
                ensure_eq!(case, tx.request_headers.get_nocase("x-number").map(|h| esc(&h.value)), Some(format!("q{}", j)), "request in transaction {}", i);
                ensure_eq!(case, tx.response_headers.get_nocase("x-number").map(|h| esc(&h.value)), Some(format!("s{}", j)), "response in transaction {}", i);
                ensure_eq!(case, tx.response_status_number, HtpResponseNumber::VALID(e.res.code), "status of transaction {}", i);
                ensure!(case, data_of(&ev, K::ReqBody, i) == e.req.body.data, "request body of transaction {}", i);
                ensure!(case, data_of(&ev, K::ResBody, i) == e.res.body.data, "response body of transaction {}", i);
            }
            Err(o) => {
                ensure_eq!(case, tx.request_method.is_none(), true, "a response without a request gets a transaction without a method");
                ensure_eq!(case, tx.request_headers.size(), 0, "a response without a request has no request fields");
                ensure_eq!(case, bs(&tx.request_uri), Some("/libhtp::request_uri_not_seen".to_string()), "target of a response without a request");
                ensure_eq!(case, tx.response_status_number, HtpResponseNumber::VALID(o.code), "status of a response without a request");
                ensure!(case, data_of(&ev, K::ReqBody, i).is_empty(), "request body of a response without a request");
                ensure!(case, data_of(&ev, K::ResBody, i) == o.body.data, "body of a response without a request");
                case.label("response without a request");
            }
        }
        ensure!(case, tx.is_complete(), "transaction {} is complete", i);
    }
    let mut done: Vec<usize> = ev.iter().filter(|e| e.k == K::TxComplete).map(|e| e.tx).collect();
    if !ordered {
        // a response nobody asked for is complete before the request that is still being sent
        done.sort();
        case.label("response without a request during a request");
    }
    ensure_eq!(case, done, (0..n).collect::<Vec<_>>(), "transactions completed");
    // callbacks of one direction never go back to an earlier transaction
    for dir in [true, false] {
        let v: Vec<usize> = ev.iter().filter(|e| if dir { e.k.is_req() } else { e.k.is_res() }).map(|e| e.tx).collect();
        ensure!(case, v.windows(2).all(|w| w[0] <= w[1]), "callbacks in message order: {:?}", v);
    }
    // a request that completes while an earlier response is still outstanding is pipelined
    let (mut answered, mut piped) = (0, false);
    for e in &ev {
        match e.k {
            K::ResComplete => answered = e.tx + 1,
            K::ReqComplete if e.tx > answered => piped = true,
            _ => {}
        }
    }
    let flag = c.connp.conn.flags & htp::connection::ConnectionFlags::PIPELINED != 0;
    ensure_eq!(case, flag, piped, "pipelining mark");
    if piped { case.label("pipelined"); }
    if early { case.label("early responses"); }
    case.nontrivial = x.len() >= 2;
    Ok(())
}

thread_local! {
    static SEEN: std::cell::RefCell<Vec<(K, usize, Vec<(&'static str, String)>)>> = const { std::cell::RefCell::new(vec![]) };
}
fn note(k: K, tx: &mut Transaction) {
    let v = match k {
        K::ReqLine | K::ReqHeaders | K::ReqComplete => crate::snap::req_snapshot(tx),
        K::ResLine | K::ResHeaders | K::ResComplete => crate::snap::res_snapshot(tx),
        K::TxComplete => crate::snap::snapshot(tx),
        _ => return,
    };
    SEEN.with(|s| s.borrow_mut().push((k, tx.index, v)));
}
fn field(v: &[(&'static str, String)], name: &str) -> String {
    v.iter().find(|x| x.0 == name).map(|x| x.1.clone()).unwrap_or_default()
}

/// Order of callbacks of one transaction and what it knows at each.
pub fn expected_events(e: &Exchange) -> (Vec<K>, Vec<K>) {
    let mut q = vec![K::ReqStart, K::ReqUri, K::ReqLine, K::ReqHeaderData, K::ReqHeaders];
    if !e.req.body.data.is_empty() {
        q.push(K::ReqBody);
    }
    if e.req.body.kind == Kind::Chunked {
        q.push(K::ReqTrailerData);
        q.push(K::ReqTrailer);
    }
    q.push(K::ReqComplete);
    let mut p = vec![K::ResStart];
    for i in &e.res.interims {
        let _ = i;
        p.push(K::ResLine);
        p.push(K::ResHeaderData);
    }
    p.push(K::ResLine);
    p.push(K::ResHeaderData);
    p.push(K::ResHeaders);
    if !e.res.body.data.is_empty() {
        p.push(K::ResBody);
    }
    if e.res.body.kind == Kind::Chunked {
        p.push(K::ResTrailerData);
        p.push(K::ResTrailer);
    }
    p.push(K::ResComplete);
    (q, p)
}

fn p07(s: &mut Src, case: &mut Case) -> Result<(), String> {
    if s.chance(1, 3) {
        return p07_any(s, case);
    }
    let st = Style { max_exchanges: 4, big: false, ..Default::default() };
    let x = gen_conversation(s, &st);
    let t = streams(&x);
    let early = s.chance(1, 4);
    let ops = gen_schedule(s, &t, early);
    case.describe(|| show_ops(&ops));
    SEEN.with(|s| s.borrow_mut().clear());
    let mut c = Conn::with_policy(base_config(), vec![], Some(note));
    c.run(&ops);
    let ev = c.events();
    case.describe(|| show_events(&ev));
    let seen = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    for (i, e) in x.iter().enumerate() {
        let (q, p) = expected_events(e);
        let mut gq: Vec<K> = vec![];
        let mut gp: Vec<K> = vec![];
        for v in ev.iter().filter(|v| v.tx == i && v.data != Payload::End) {
            let l = if v.k.is_req() { &mut gq } else if v.k.is_res() { &mut gp } else { continue };
            if !(v.k.is_data() && l.last() == Some(&v.k)) {
                l.push(v.k);
            }
        }
        ensure_eq!(case, gq, q, "request callbacks of transaction {}", i);
        ensure_eq!(case, gp, p, "response callbacks of transaction {}", i);
        // end of a request body is signalled once, after all body data and before completion
        let ends: Vec<usize> = ev.iter().enumerate().filter(|(_, v)| v.tx == i && v.k == K::ReqBody && v.data == Payload::End).map(|x| x.0).collect();
        ensure!(case, ends.len() <= 2, "request {}: {} end-of-body signals", i, ends.len());
        if let Some(first) = ends.first() {
            ensure!(case, e.req.body.kind != Kind::None, "request {} has no body but signals its end", i);
            let late = ev[*first..].iter().any(|v| v.tx == i && v.k == K::ReqBody && v.data != Payload::End);
            ensure!(case, !late, "request {}: body data after the end-of-body signal", i);
        } else {
            ensure!(case, e.req.body.kind == Kind::None, "request {} has a body but its end is not signalled", i);
        }
        // the whole transaction completes last, once
        let done: Vec<usize> = ev.iter().enumerate().filter(|(_, v)| v.tx == i && v.k == K::TxComplete).map(|x| x.0).collect();
        ensure_eq!(case, done.len(), 1, "completions of transaction {}", i);
        let last = ev.iter().rposition(|v| v.tx == i).unwrap();
        ensure_eq!(case, done[0], last, "completion is the last callback of transaction {}", i);
        // what is known at a callback is final
        let tx = c.connp.tx(i).ok_or("missing transaction")?;
        let fin = crate::snap::snapshot(tx);
        for (k, _, v) in seen.iter().filter(|v| v.1 == i) {
            let names: &[&str] = match k {
                K::ReqLine => &["request_line", "request_method", "request_method_number", "request_uri", "request_protocol", "request_protocol_number", "parsed_uri", "parsed_uri_raw"],
                K::ReqHeaders => &["request_line", "request_transfer_coding", "request_content_length", "request_hostname", "request_port_number", "request_auth_type", "request_content_type"],
                K::ReqComplete => &["request_headers", "request_entity_len", "request_message_len", "request_progress"],
                K::ResHeaders => &["response_line", "response_status_number", "response_transfer_coding", "response_content_length", "response_content_encoding"],
                K::ResComplete => &["response_headers", "response_entity_len", "response_message_len", "response_progress"],
                K::TxComplete => &["request_headers", "response_headers", "request_progress", "response_progress", "request_entity_len", "response_entity_len", "flags"],
                _ => &[],
            };
            for n in names {
                ensure_eq!(case, field(v, n), field(&fin, n), "{} at {:?} of transaction {}", n, k, i);
            }
            // header fields known at the headers callback: all but the trailer
            if *k == K::ReqHeaders && e.req.body.trailers.is_empty() {
                ensure_eq!(case, field(v, "request_headers"), field(&fin, "request_headers"), "fields at {:?} of transaction {}", k, i);
            }
            if *k == K::ResHeaders && e.res.body.trailers.is_empty() {
                ensure_eq!(case, field(v, "response_headers"), field(&fin, "response_headers"), "fields at {:?} of transaction {}", k, i);
            }
        }
        if e.res.interims.is_empty() {
            let (_, _, v) = seen.iter().find(|v| v.1 == i && v.0 == K::ResLine).ok_or("no response line callback")?;
            for n in ["response_line", "response_protocol", "response_status", "response_status_number", "response_message"] {
                ensure_eq!(case, field(v, n), field(&fin, n), "{} at the response line of transaction {}", n, i);
            }
        }
        // progress told at each callback
        for v in ev.iter().filter(|v| v.tx == i) {
            let rq = match v.k {
                K::ReqStart | K::ReqUri | K::ReqLine => Some(HtpRequestProgress::LINE),
                K::ReqHeaderData | K::ReqHeaders => Some(HtpRequestProgress::HEADERS),
                K::ReqTrailerData | K::ReqTrailer => Some(HtpRequestProgress::TRAILER),
                K::ReqBody if v.data != Payload::End => Some(HtpRequestProgress::BODY),
                K::ReqComplete | K::TxComplete => Some(HtpRequestProgress::COMPLETE),
                _ => None,
            };
            if let Some(r) = rq {
                ensure_eq!(case, v.req_progress, r, "request progress at {:?} of transaction {}", v.k, i);
            }
            let rs = match v.k {
                K::ResStart | K::ResLine => Some(HtpResponseProgress::LINE),
                K::ResHeaderData | K::ResHeaders if e.res.interims.is_empty() => None,
                K::ResTrailerData | K::ResTrailer => Some(HtpResponseProgress::TRAILER),
                K::ResComplete | K::TxComplete => Some(HtpResponseProgress::COMPLETE),
                _ => None,
            };
            if let Some(r) = rs {
                ensure_eq!(case, v.res_progress, r, "response progress at {:?} of transaction {}", v.k, i);
            }
        }
    }
    case.nontrivial = x.len() >= 2 || !x[0].req.body.data.is_empty() || !x[0].res.body.data.is_empty();
    case.label("well-formed");
    Ok(())
}

/// Whatever the traffic, the callbacks of a transaction come in order.
fn p07_any(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = crate::gen::random_config(s);
    cfg.set_flush_incomplete(s.bool());
    let flush = cfg.flush_incomplete;
    let mut ops = crate::gen::wild_ops(s);
    // nothing follows a close
    if let Some(i) = ops.iter().position(|o| *o == Op::Close) {
        ops.truncate(i + 1);
    }
    case.describe(|| show_ops(&ops));
    case.describe(|| crate::gen::show_config(&cfg));
    let mut c = Conn::new(cfg);
    c.run(&ops);
    let ev = c.events();
    case.describe(|| show_events(&ev));
    let n = ev.iter().map(|e| e.tx + 1).max().unwrap_or(0);
    for i in 0..n {
        let v: Vec<&Event> = ev.iter().filter(|e| e.tx == i).collect();
        let q: Vec<K> = v.iter().filter(|e| e.k.is_req()).map(|e| e.k).collect();
        let p: Vec<K> = v.iter().filter(|e| e.k.is_res()).map(|e| e.k).collect();
        for k in ALL_K {
            let once = !(k.is_data() || k == K::ResLine || k == K::ResHeaders);
            let cnt = v.iter().filter(|e| e.k == k).count();
            ensure!(case, !once || cnt <= 1, "{:?} told {} times for transaction {}", k, cnt, i);
        }
        // the order of stages
        let stage = |k: K| match k {
            K::ReqStart | K::ResStart => 0,
            K::ReqUri => 1,
            K::ReqLine | K::ResLine => 2,
            K::ReqHeaderData | K::ResHeaderData => 3,
            K::ReqHeaders | K::ResHeaders => 4,
            K::ReqBody | K::ResBody => 5,
            K::ReqTrailerData | K::ResTrailerData => 6,
            K::ReqTrailer | K::ResTrailer => 7,
            _ => 8,
        };
        ensure!(case, q.windows(2).all(|w| stage(w[0]) <= stage(w[1]) || (w[1] == K::ReqBody && stage(w[0]) < 8)), "request callbacks of transaction {} out of order: {:?}", i, q);
        ensure!(case, p.windows(2).all(|w| stage(w[0]) <= stage(w[1]) || (w[1] == K::ResLine && stage(w[0]) <= 5) || (w[1] == K::ResBody && stage(w[0]) < 8)),
            "response callbacks of transaction {} out of order: {:?}", i, p);
        // junk before a status line is told as body; nothing else precedes the line
        if let Some(h) = p.iter().position(|k| *k == K::ResHeaders) {
            ensure!(case, !p[h..].contains(&K::ResLine), "response line after the headers of transaction {}: {:?}", i, p);
        }
        if let Some(f) = q.first() {
            ensure!(case, *f == K::ReqStart, "request of transaction {} starts with {:?}", i, f);
        }
        if let Some(f) = p.first() {
            ensure!(case, *f == K::ResStart, "response of transaction {} starts with {:?}", i, f);
        }
        if let Some(d) = v.iter().position(|e| e.k == K::TxComplete) {
            ensure_eq!(case, d, v.len() - 1, "completion is the last callback of transaction {}", i);
            if !flush {
                ensure_eq!(case, v[d].req_progress, HtpRequestProgress::COMPLETE, "request of completed transaction {}", i);
                ensure_eq!(case, v[d].res_progress, HtpResponseProgress::COMPLETE, "response of completed transaction {}", i);
            }
        }
        if v.len() > 6 {
            case.nontrivial = true;
        }
    }
    case.label("arbitrary traffic");
    Ok(())
}
