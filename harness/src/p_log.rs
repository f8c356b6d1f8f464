//! P30: every anomaly is logged under its own code, exactly when it is there.
use crate::drive::*;
use crate::engine::*;
use crate::traffic::*;
use htp::log::HtpLogCode as C;
use htp::log::HtpLogLevel;
use std::collections::HashMap;

pub static PROPS: &[Prop] = &[Prop {
    id: "P30",
    rule: "conversations of 1 to 3 exchanges with random anomalies in heads, framing, chunks and calls; non-trivial when at least one message is expected",
    run: p30,
    quick: 1_000_000,
}];

/// What a transaction has been warned about already.
#[derive(Default, Clone)]
struct Once {
    invalid: bool,
    unparseable: bool,
    folding: bool,
}

struct Msg<'a> {
    req: bool,
    wire: Vec<u8>,
    names: HashMap<Vec<u8>, usize>,
    once: &'a mut Once,
    want: &'a mut Vec<C>,
    first: bool,
}

impl Msg<'_> {
    fn code(&mut self, req: C, res: C) {
        let c = if self.req { req } else { res };
        self.want.push(c);
    }
    fn raw(&mut self, name: &[u8], line: &[u8]) {
        self.wire.extend_from_slice(line);
        self.wire.extend_from_slice(b"\r\n");
        self.first = false;
        let n = self.names.entry(name.to_ascii_lowercase()).or_insert(0);
        *n += 1;
        if *n == 2 {
            self.code(C::REQUEST_HEADER_REPETITION, C::RESPONSE_HEADER_REPETITION);
        }
    }
    fn field(&mut self, name: &[u8], value: &[u8]) {
        let l = [name, b": ", value].concat();
        self.raw(name, &l);
    }
    fn invalid(&mut self, req: C, res: C) {
        if !self.once.invalid {
            self.once.invalid = true;
            self.code(req, res);
        }
    }
    /// One field line, odd or not.
    fn any_field(&mut self, s: &mut Src, i: usize) {
        let name = if s.chance(1, 3) { s.pick(&[b"A" as &[u8], b"a", b"B-b"]).to_vec() } else { format!("F{}-{}", i, self.wire.len()).into_bytes() };
        let value = s.bytes_from(b"abc;=1,", 0, 6);
        match s.below(14) {
            0 => {
                self.invalid(C::REQUEST_INVALID_LWS_AFTER_NAME, C::RESPONSE_INVALID_LWS_AFTER_NAME);
                let l = [&name, *s.pick(&[b" " as &[u8], b"\t", b"  "]), b":", &value].concat();
                self.raw(&name, &l);
            }
            1 => {
                self.invalid(C::REQUEST_HEADER_INVALID, C::RESPONSE_HEADER_NAME_NOT_TOKEN);
                let n = [&name, *s.pick(&[b"(" as &[u8], b"@", b"\"x", b"\xff", b"{q"])].concat();
                self.field(&n, &value);
            }
            2 => {
                self.invalid(C::REQUEST_INVALID_EMPTY_NAME, C::RESPONSE_INVALID_EMPTY_NAME);
                self.raw(b"", &[b":" as &[u8], *s.pick(&[b"" as &[u8], b" ", b"\t"]), &value].concat());
            }
            3 => {
                if !self.once.unparseable {
                    self.once.unparseable = true;
                    self.code(C::REQUEST_FIELD_MISSING_COLON, C::RESPONSE_FIELD_MISSING_COLON);
                }
                self.raw(b"", &[b"w" as &[u8], &value].concat());
            }
            4 if self.first => {
                if !self.once.folding {
                    self.once.folding = true;
                    self.code(C::INVALID_REQUEST_FIELD_FOLDING, C::INVALID_RESPONSE_FIELD_FOLDING);
                }
                let l = [*s.pick(&[b" " as &[u8], b"\t"]), &name, b": ", &value].concat();
                self.raw(&name, &l);
            }
            5 => {
                // folding is nothing to speak of
                let l = [&name[..], b": v\r\n ", b"w"].concat();
                self.raw(&name, &l);
            }
            _ => self.field(&name, &value),
        }
    }
    /// Content-Length fields for a body of n bytes; the messages of the one that counts are given when it is used.
    fn lengths(&mut self, s: &mut Src, n: usize, used: bool) {
        for i in 0..*s.pick(&[1, 1, 1, 2, 3]) {
            let (mut pre, mut post): (&[u8], &[u8]) = (b"", b"");
            if s.chance(1, 6) {
                pre = *s.pick(&[b"+" as &[u8], b"x", b"n= "]);
            }
            if s.chance(1, 6) {
                post = *s.pick(&[b"," as &[u8], b" x", b".5", b" 9"]);
            }
            let other = i > 0 && s.chance(1, 2);
            let bad = i > 0 && !other && s.chance(1, 4);
            let v = if bad { b"none".to_vec() } else { [pre, format!("{}{}", *s.pick(&["", "0", "00"]), n + other as usize).as_bytes(), post].concat() };
            if i == 0 && used {
                if !pre.is_empty() {
                    self.want.push(C::CONTENT_LENGTH_EXTRA_DATA_START);
                }
                if !post.is_empty() {
                    self.want.push(C::CONTENT_LENGTH_EXTRA_DATA_END);
                }
            }
            if other || bad {
                self.code(C::DUPLICATE_CONTENT_LENGTH_FIELD_IN_REQUEST, C::DUPLICATE_CONTENT_LENGTH_FIELD_IN_RESPONSE);
            }
            let name = recase(s, "Content-Length");
            self.field(&name, &v);
        }
    }
    /// A chunked body; false when it ends in a line that is no chunk length.
    fn chunks(&mut self, s: &mut Src, may_fail: bool) -> bool {
        for _ in 0..s.below(4) {
            let d = s.bytes_from(b"abc\r\n", 1, 6);
            self.chunk_line(s, d.len());
            self.wire.extend_from_slice(&d);
            self.wire.extend_from_slice(b"\r\n");
        }
        if may_fail && s.chance(1, 8) {
            self.code(C::INVALID_REQUEST_CHUNK_LEN, C::INVALID_RESPONSE_CHUNK_LEN);
            self.wire.extend_from_slice(*s.pick(&[b"zz\r\n" as &[u8], b"-1\r\n", b"GET\r\n", b"=\r\n"]));
            return false;
        }
        self.chunk_line(s, 0);
        for i in 0..s.below(3) {
            self.any_field(s, i as usize);
        }
        self.wire.extend_from_slice(b"\r\n");
        true
    }
    fn chunk_line(&mut self, s: &mut Src, n: usize) {
        let mut l = format!("{:x}", n);
        if s.chance(1, 4) {
            l.push_str(*s.pick(&[";", ";a", ";a=b;c", " ;x", "q;y", " x=;", "\t;;"]));
            self.code(C::REQUEST_CHUNK_EXTENSION, C::RESPONSE_CHUNK_EXTENSION);
        } else if s.chance(1, 8) {
            l.push_str(*s.pick(&[" ", "\t", " x", "z", " =a"]));
        }
        self.wire.extend_from_slice(l.as_bytes());
        self.wire.extend_from_slice(b"\r\n");
    }
}

/// Errors; everything else in this domain is a warning.
fn level_of(c: C) -> HtpLogLevel {
    match c {
        C::CONNECTION_ALREADY_OPEN
        | C::INVALID_REQUEST_CHUNK_LEN
        | C::INVALID_RESPONSE_CHUNK_LEN
        | C::CONTINUE_ALREADY_SEEN
        | C::INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE
        | C::RESPONSE_MULTIPART_BYTERANGES
        | C::UNABLE_TO_MATCH_RESPONSE_TO_REQUEST => HtpLogLevel::ERROR,
        _ => HtpLogLevel::WARNING,
    }
}

fn feed(s: &mut Src, log: &mut Vec<Op>, req: bool, b: &[u8]) {
    let mut p = 0;
    for k in gen_cuts(s, b.len(), &[]).into_iter().chain([b.len()]) {
        if k > p {
            log.push(if req { Op::Req(b[p..k].to_vec()) } else { Op::Res(b[p..k].to_vec()) });
            p = k;
        }
    }
}

fn p30(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = base_config();
    let level = if s.chance(1, 3) { *s.pick(&[HtpLogLevel::NONE, HtpLogLevel::ERROR, HtpLogLevel::WARNING, HtpLogLevel::NOTICE, HtpLogLevel::INFO]) } else { HtpLogLevel::DEBUG2 };
    cfg.log_level = level;
    let double = s.chance(1, 4);
    cfg.set_double_decode_normalized_path(double);
    cfg.set_double_decode_normalized_query(double);
    cfg.set_request_decompression(s.bool());
    let mut want: Vec<C> = vec![];
    let mut reqs: Vec<Vec<u8>> = vec![];
    let mut ress: Vec<Vec<u8>> = vec![];
    let mut broken = false;
    let mut n = s.range(1, 3);
    let mut i = 0;
    let mut res_over = false;
    while i < n {
        i += 1;
        let mut once = Once::default();
        let head = s.chance(1, 8);
        // the request
        {
            let mut w = vec![];
            let mut m = Msg { req: true, wire: vec![], names: HashMap::new(), once: &mut once, want: &mut w, first: true };
            let twice: &[u8] = *s.pick(&[b"" as &[u8], b"", b"%2541", b"?a=%2541", b"/%2525?q=%252525", b"?x%41"]);
            if double && twice.starts_with(b"%25") || double && twice.starts_with(b"?a") {
                m.want.push(C::DOUBLE_ENCODED_URI);
            } else if double && twice.starts_with(b"/%25") {
                m.want.push(C::DOUBLE_ENCODED_URI);
                m.want.push(C::DOUBLE_ENCODED_URI);
            }
            let proto: &[u8] = *s.pick(&[b"HTTP/1.1" as &[u8], b"HTTP/1.1", b"HTTP/1.1", b"HTTP/1.0", b"HTTP/01.1", b"HTTP/7.7"]);
            if proto == b"HTTP/01.1" {
                m.want.push(C::PROTOCOL_CONTAINS_EXTRA_DATA);
            }
            let framing = if head { 0 } else { s.below(4) };
            m.wire = [if head { b"HEAD" as &[u8] } else { b"POST" }, b" /", twice, b" ", proto, b"\r\n"].concat();
            for k in 0..s.range(0, 4) {
                m.any_field(s, k);
            }
            m.field(b"Host", b"h.example");
            let len = s.range(0, 5);
            if framing == 2 || framing == 3 && s.chance(1, 3) {
                m.lengths(s, len, framing == 2);
            }
            if framing == 3 {
                let te: &[u8] = *s.pick(&[b"chunked" as &[u8], b"Chunked", b"gzip, chunked"]);
                m.field(b"Transfer-Encoding", te);
            }
            for k in 0..s.range(0, 2) {
                m.any_field(s, 10 + k);
            }
            m.wire.extend_from_slice(b"\r\n");
            if framing == 2 {
                m.wire.extend((0..len).map(|k| b'a' + k as u8));
            } else if framing == 3 && !m.chunks(s, true) {
                broken = true;
                n = i;
            }
            reqs.push(std::mem::take(&mut m.wire));
            drop(m);
            want.append(&mut w);
        }
        // its response
        let mut out = vec![];
        let mut w = vec![];
        let interim = if s.chance(1, 4) { s.range(1, 4) } else { 0 };
        for k in 0..interim {
            out.extend_from_slice(b"HTTP/1.1 100 Continue\r\n");
            if s.bool() {
                out.extend_from_slice(b"X: y\r\n");
            }
            out.extend_from_slice(b"\r\n");
            if k > 0 {
                w.push(C::CONTINUE_ALREADY_SEEN);
            }
        }
        let mut m = Msg { req: false, wire: vec![], names: HashMap::new(), once: &mut once, want: &mut w, first: true };
        let proto: &[u8] = *s.pick(&[b"HTTP/1.1" as &[u8], b"HTTP/1.1", b"HTTP/1.1", b"HTTP/1.0", b"HTTP/01.1", b"HTTP/3.7"]);
        let status: &[u8] = *s.pick(&[b"200" as &[u8], b"200", b"404", b"204", b"304", b"101", b"102", b"abc", b"99", b"1000", b"20x"]);
        if proto == b"HTTP/01.1" {
            m.want.push(C::PROTOCOL_CONTAINS_EXTRA_DATA);
        }
        if proto == b"HTTP/3.7" {
            m.want.push(C::RESPONSE_LINE_INVALID_PROTOCOL);
        }
        if [b"abc" as &[u8], b"99", b"1000", b"20x"].contains(&status) {
            m.want.push(C::RESPONSE_LINE_INVALID_RESPONSE_STATUS);
        }
        let nobody = [b"204" as &[u8], b"304", b"102", b"101"].contains(&status);
        m.wire = [&out, proto, b" ", status, b" why\r\n"].concat();
        let framing = if status == b"101" || s.chance(1, 2) { 2 } else { s.below(4) };
        for k in 0..s.range(0, 4) {
            m.any_field(s, k);
        }
        let len = s.range(0, 5);
        let has_te = framing == 3;
        let has_cl = framing == 2 || framing == 3 && s.chance(1, 3);
        if status == b"101" {
            m.want.push(C::SWITCHING_PROTO_WITH_CONTENT_LENGTH);
        }
        if nobody && !head && (has_te || has_cl) {
            m.want.push(C::RESPONSE_BODY_UNEXPECTED);
        }
        if has_cl {
            m.lengths(s, len, framing == 2 && !head);
        }
        if has_te {
            let te: &[u8] = *s.pick(&[b"chunked" as &[u8], b"Chunked", b"gzip, chunked", b"chunked;q=1"]);
            if !head {
                if !te.eq_ignore_ascii_case(b"chunked") {
                    m.want.push(C::RESPONSE_ABNORMAL_TRANSFER_ENCODING);
                }
                if proto == b"HTTP/1.0" || proto == b"HTTP/3.7" {
                    m.want.push(C::RESPONSE_CHUNKED_OLD_PROTO);
                }
            }
            m.field(b"Transfer-Encoding", te);
        }
        // how the body ends
        let mut over = false;
        if framing < 2 && !head && !nobody {
            over = true;
            let ranges = s.chance(1, 4);
            if ranges {
                m.field(b"Content-Type", b"multipart/byteranges; boundary=x");
                m.want.push(C::RESPONSE_MULTIPART_BYTERANGES);
            } else if s.chance(1, 4) {
                m.field(b"Content-Length", b"many");
                m.want.push(C::INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE);
            }
        }
        for k in 0..s.range(0, 2) {
            m.any_field(s, 10 + k);
        }
        m.wire.extend_from_slice(b"\r\n");
        if head {
        } else if framing == 2 {
            m.wire.extend((0..len).map(|k| b'a' + k as u8));
        } else if has_te && !m.chunks(s, true) {
            over = true;
        }
        out = std::mem::take(&mut m.wire);
        drop(m);
        if s.chance(5, 6) || i < n {
            want.append(&mut w);
            ress.push(out);
            if over {
                n = i;
                res_over = true;
            }
        }
    }
    // how it is delivered
    let mut ops = vec![];
    let late = s.bool();
    for (k, r) in reqs.iter().enumerate() {
        feed(s, &mut ops, true, r);
        if !late && k < ress.len() {
            feed(s, &mut ops, false, &ress[k]);
        }
    }
    if late {
        for r in &ress {
            feed(s, &mut ops, false, r);
        }
    }
    if broken {
        for _ in 0..s.below(3) {
            ops.push(Op::Req(b"GET / HTTP/1.1\r\n\r\n".to_vec()));
        }
    } else if ress.len() == reqs.len() && !res_over && s.chance(1, 4) {
        if s.bool() {
            // a response while the request line is still coming
            feed(s, &mut ops, true, b"GET /unfinis");
            feed(s, &mut ops, false, b"HTTP/1.1 408 Timeout\r\nContent-Length: 0\r\n\r\n");
            want.push(C::REQUEST_LINE_INCOMPLETE);
        } else {
            for _ in 0..s.range(1, 2) {
                feed(s, &mut ops, false, b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok");
                want.push(C::UNABLE_TO_MATCH_RESPONSE_TO_REQUEST);
            }
        }
    }
    let open_again = s.chance(1, 8);
    case.describe(|| show_ops(&ops));
    let mut c = Conn::new(cfg);
    let at = s.range(0, ops.len());
    for (k, o) in ops.iter().enumerate() {
        if k == at && open_again {
            c.connp.open(None, None, None, None, None);
            want.push(C::CONNECTION_ALREADY_OPEN);
        }
        c.op(o);
    }
    let text = |v: &mut Vec<C>| {
        let mut t: Vec<String> = v.iter().map(|c| format!("{:?}", c)).collect();
        t.sort();
        t
    };
    // a broken stream says so at every later call
    let logs = c.connp.conn.get_logs();
    for l in &logs {
        if l.msg.code != C::PARSER_STATE_ERROR {
            ensure_eq!(case, l.msg.level, level_of(l.msg.code), "level of {:?}", l.msg.code);
        }
        ensure!(case, l.client_addr == Some("127.0.0.1".parse().unwrap()) && l.server_addr == l.client_addr, "addresses of {:?}", l.msg.code);
        ensure!(case, l.client_port == Some(10000) && l.server_port == Some(80), "ports of {:?}", l.msg.code);
    }
    want.retain(|c| level_of(*c) <= level);
    let mut got: Vec<C> = logs.iter().map(|l| l.msg.code).filter(|c| *c != C::PARSER_STATE_ERROR).collect();
    let (g, w) = (text(&mut got), text(&mut want));
    ensure!(case, g == w, "messages {:?}\ninstead of {:?}", g, w);
    case.nontrivial = !w.is_empty();
    for c in &w {
        case.label(c);
    }
    if w.is_empty() {
        case.label("nothing to say");
    }
    Ok(())
}
