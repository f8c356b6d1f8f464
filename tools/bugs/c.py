BUGS = [
dict(id="b20-search-skips", property="P21",
 edits=[("src/bstr.rs", """            for cmp_byte in needle.as_ref().as_bytes() {
                equal = Some(*cmp_byte) == test.next();
                if !equal {
                    break;
                }
            }
            if equal {
                return Some(haystack.index());
            }""", """            let mut seen = 0;
            for cmp_byte in needle.as_ref().as_bytes() {
                equal = Some(*cmp_byte) == test.next();
                if !equal {
                    break;
                }
                seen += 1;
            }
            if equal {
                return Some(haystack.index());
            }
            // What was compared needs no second look.
            for _ in 2..seen {
                haystack.next();
            }""")],
 demo=r'''
fn main() {
    let b = htp::bstr::Bstr::from("chunchunked");
    assert_eq!(b.index_of_nocase("chunked"), Some(4));
    let b = htp::bstr::Bstr::from("xxxxy");
    assert_eq!(b.index_of_nocase_nozero("xxxy"), Some(1));
}
''', needs="a search whose needle starts again inside a failed partial match", breaks="the occurrence is not found"),
dict(id="b21-chunk-length-limit", property="P22",
 edits=[("src/parsers.rs", """    if chunked_len > std::i32::MAX as u64 {""", """    if chunked_len >= std::i32::MAX as u64 {""")],
 demo=r"""
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n7fffffff\r\nabc");
    assert_eq!(text(&body('s', 0)), "abc");
}
""", needs="a chunk announced with exactly the largest accepted length", breaks="the length is not accepted and the chunk's data is not delivered"),
dict(id="b22-c-unknown-status", property="P25",
 edits=[("src/c_api/transaction.rs", """            HtpResponseNumber::UNKNOWN => 0,
            HtpResponseNumber::INVALID => -1,""", """            HtpResponseNumber::UNKNOWN | HtpResponseNumber::INVALID => -1,""")],
 demo=r'''
extern "C" { fn htp_tx_response_status_number(tx: *const Transaction) -> i32; }
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    let _ = htp::c_api::config::htp_config_create as *const u8;
    assert_eq!(unsafe { htp_tx_response_status_number(p.tx(0).unwrap()) }, 0);
}
''', needs="a transaction whose response was not seen yet, read through C", breaks="a status not seen yet is told as an invalid one"),
dict(id="b23-warn-once-per-process", property="P27",
 edits=[("src/response.rs", """                    if response_tx.seen_100continue {
                        htp_error!(""", """                    static TOLD: std::sync::atomic::AtomicBool =
                        std::sync::atomic::AtomicBool::new(false);
                    if response_tx.seen_100continue
                        && !TOLD.swap(true, std::sync::atomic::Ordering::Relaxed)
                    {
                        htp_error!(""")],
 demo=r'''
fn main() {
    let mut n = vec![];
    for _ in 0..2 {
        let mut p = open(config());
        req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
        res(&mut p, b"HTTP/1.1 100 C\r\n\r\nHTTP/1.1 100 C\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
        n.push(p.conn.get_logs().iter().filter(|l| l.msg.code == htp::log::HtpLogCode::CONTINUE_ALREADY_SEEN).count());
    }
    assert_eq!(n[0], n[1]);
}
''', needs="two connections with a repeated interim response", breaks="the message is logged for the first connection of the process only"),
dict(id="b24-uri-tab-space", property="P28",
 edits=[("src/request.rs", """            if uri.len() == remaining.len() && uri.iter().any(|&c| is_space(c)) {""", """            if protocol.is_empty() && uri.iter().any(|&c| c == b'\\t') {""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET /a\x0bHTTP/1.1\r\nHost: a\r\n\r\n");
    let t = p.tx(0).unwrap();
    assert_eq!(text(t.request_uri.as_ref().unwrap()), "/a");
    assert_eq!(text(t.request_protocol.as_ref().unwrap()), "HTTP/1.1");
}
''', needs="a request line with a vertical tab or form feed between target and version", breaks="the version is taken as part of the target"),
dict(id="b25-raw-lone-lf", property="P09",
 edits=[("src/response.rs", """        if let Some(hook) = &self.response_data_receiver_hook {
            hook.run_all""", """        if data.as_slice() == b"\\n" {
            // Only the second half of a line ending.
            return Ok(());
        }
        if let Some(hook) = &self.response_data_receiver_hook {
            hook.run_all""")],
 demo=r"""
fn raw(_: &mut Transaction, d: &ParserData) -> Result<(), htp::HtpStatus> { note(text(d.as_slice())); Ok(()) }
fn main() {
    let mut c = config();
    c.register_response_header_data(raw);
    let mut p = open(c);
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r");
    res(&mut p, b"\n");
    assert_eq!(logged().concat(), "Content-Length: 0\r\n\r\n");
}
""", needs="a packet border between the CR and the LF of the last line of a header block, with nothing behind the LF in it", breaks="the raw header data lacks the LF"),
dict(id="b26-line-progress", property="P07",
 edits=[("src/response.rs", """        self.parse_response_line(line)?;
        self.state_response_line()?;
        // Move on to the next phase.
        self.response_state = State::HEADERS;
        self.response_mut().unwrap().response_progress = HtpResponseProgress::HEADERS;
        Ok(())""", """        self.parse_response_line(line)?;
        // Move on to the next phase.
        self.response_state = State::HEADERS;
        if self.response_mut().unwrap().seen_100continue {
            // the progress of an interim response was made before
            self.response_mut().unwrap().response_progress = HtpResponseProgress::HEADERS;
        }
        self.state_response_line()?;
        self.response_mut().unwrap().response_progress = HtpResponseProgress::HEADERS;
        Ok(())""")],
 demo=r'''
fn line(tx: &mut Transaction) -> Result<(), htp::HtpStatus> { note(format!("{:?}", tx.response_progress)); Ok(()) }
fn main() {
    let mut c = config();
    c.register_response_line(line);
    let mut p = open(c);
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 100 C\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
    assert_eq!(logged(), vec!["LINE", "LINE"]);
}
''', needs="a response behind an interim response, looked at in its line callback", breaks="the progress told at the line callback is already that of the headers"),
dict(id="b27-fold-tab", property="P04",
 edits=[("src/headers.rs", """                        if !ofold.is_empty() {
                            value.push(ofold[0]);
                        } else {
                            value.push(b' ');
                        }""", """                        if !ofold.is_empty() && !value.ends_with(&ofold[..1]) {
                            value.push(ofold[0]);
                        } else if ofold.is_empty() {
                            value.push(b' ');
                        }""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\nX: a \r\n b\r\n\r\n");
    let v = text(&p.tx(0).unwrap().response_headers.get_nocase("x").unwrap().value);
    assert_eq!(v, "a  b");
}
''', needs="a folded field whose first line ends in the white space that its continuation starts with", breaks="one white space byte of the unfolded value is lost"),
dict(id="b28-junk-then-three", property="P01",
 edits=[("src/response.rs", """            if input.len() >= 4 {
                let next""", """            if input.len() >= 3 {
                let next""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"junk\r\nabc");
    p.close(None);
}
''', needs="a response that does not start with a status line, with exactly three bytes behind its first line in the packet", breaks="the parser panics"),
dict(id="b29-pipelined-mark", property="P06",
 edits=[("src/connection_parser.rs", """        if self.transactions.request_index() > self.transactions.response_index() {
            self.conn.flags.set(ConnectionFlags::PIPELINED)
        }""", """        let answering = self
            .response()
            .map(|resp| resp.response_progress != HtpResponseProgress::NOT_STARTED)
            .unwrap_or(false);
        if self.transactions.request_index() > self.transactions.response_index() && !answering {
            self.conn.flags.set(ConnectionFlags::PIPELINED)
        }""")],
 demo=r"""
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET /1 HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Le");
    req(&mut p, b"GET /2 HTTP/1.1\r\nHost: a\r\n\r\nGET /3 HTTP/1.1\r\nHost: a\r\n\r\n");
    assert!(format!("{:?}", p.conn.flags).len() > 0 && p.conn.flags & 0x01 != 0);
}
""", needs="requests sent on while the response to an earlier one is under way, and no others", breaks="the connection is not marked as pipelined"),
dict(id="b30-header-cut-cr", property="P02",
 edits=[("src/request.rs", """            let remaining = Bstr::from(remaining);
            self.request_header.replace(remaining);""", """            let remaining = Bstr::from(remaining.strip_suffix(b"\\r").unwrap_or(remaining));
            self.request_header.replace(remaining);""")],
 demo=r"""
fn main() {
    let head = b"GET / HTTP/1.1\r\nHost: a\r\nX: b\rc\r\n\r\n";
    let mut vals = vec![];
    for cut in 0..head.len() {
        let mut p = open(config());
        if cut > 0 { req(&mut p, &head[..cut]); }
        req(&mut p, &head[cut..]);
        let t = p.tx(0).unwrap();
        vals.push(t.request_headers.elements.iter().map(|h| (text(&h.name), text(&h.value))).collect::<Vec<_>>());
    }
    for v in &vals { assert_eq!(v, &vals[0]); }
}
""", needs="a request field with a carriage return in its value, cut directly behind it", breaks="the carriage return is lost from the reported value, depending on the cut"),
]
