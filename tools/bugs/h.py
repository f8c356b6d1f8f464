BUGS=[
dict(id="b51-close-time-error", property="P33",
 edits=[("src/connection_parser.rs", """        // Close the underlying connection.
        self.conn.close(timestamp);
""", """        // Close the underlying connection.
        if self.request_status != HtpStreamState::ERROR {
            self.conn.close(timestamp);
        }
""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n");
    let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1000);
    p.close(Some(t.into()));
    assert_eq!(p.conn.close_timestamp.unix_timestamp(), 1000);
}
''', needs="a close after the request stream ended in error", breaks="the time of the close is not kept"),
dict(id="b52-late-open", property="P33",
 edits=[("src/connection_parser.rs", """        if self.request_status != HtpStreamState::NEW || self.response_status != HtpStreamState::NEW
""", """        if self.request_status != HtpStreamState::NEW && self.response_status != HtpStreamState::NEW
""")],
 demo=r'''
fn main() {
    let mut p = ConnectionParser::new(config());
    p.request_data(ParserData::from(&b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"[..]), None);
    p.open(None, Some(1234), None, Some(80), None);
    assert_eq!(p.conn.client_port, None);
    assert_eq!(p.conn.get_logs().len(), 1);
}
''', needs="an open after data of only one direction", breaks="the connection in use is opened again, without a message"),
dict(id="b53-several-packets", property="P33",
 edits=[("src/connection_parser.rs", """            if self.request_chunk_count != self.request_chunk_request_index {
""", """            if self.request_chunk_count > self.request_chunk_request_index.wrapping_add(1)
                || req.index == 0
                    && self.request_chunk_count != self.request_chunk_request_index
            {
""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    req(&mut p, b"GET /2 HTTP/1.1\r\nHo");
    req(&mut p, b"st: a\r\n\r\n");
    assert!(p.tx(1).unwrap().flags & htp::util::HtpFlags::MULTI_PACKET_HEAD != 0);
}
''', needs="a later request whose head comes in exactly two packets", breaks="it is not marked as in several packets"),
dict(id="b54-place-after-unread", property="P33",
 edits=[("src/connection_parser.rs", """        input.unconsume(unconsume);
        self.request_bytes_consumed = input.consumed_len();
""", """        self.request_bytes_consumed = input.consumed_len();
        input.unconsume(unconsume);
"""),("src/request.rs", """                // We have a line ending, so consume the input
                // and grab any buffered data
                let mut data = take(&mut self.request_buf);
                data.add(line);
                self.request_data_consume(input, line.len());
""", """                // We have a line ending, so consume the input
                // and grab any buffered data
                let mut data = take(&mut self.request_buf);
                data.add(line);
                input.consume(line.len());
                self.request_bytes_consumed =
                    self.request_bytes_consumed.wrapping_add(data.len());
""")],
 demo=r'''
thread_local! { static AT: std::cell::RefCell<Vec<usize>> = std::cell::RefCell::new(vec![]); }
unsafe extern "C" fn line(p: *const ConnectionParser, _t: *mut htp::transaction::Transaction) -> htp::HtpStatus {
    AT.with(|v| v.borrow_mut().push((*p).request_data_consumed()));
    htp::HtpStatus::OK
}
fn main() {
    let mut cfg = config();
    cfg.hook_request_line.register_extern(line);
    let mut p = open(cfg);
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\nGET /2 HTTP/1.1\r\nHost: a\r\n\r\n");
    assert_eq!(AT.with(|v| v.borrow().clone()), vec![16, 44]);
}
''', needs="a request behind another in the same packet", breaks="the place told during its request line callback is wrong"),
dict(id="b55-upgrade-put", property="P13",
 edits=[("src/response.rs", """            if te_opt.is_none() && cl_opt.is_none() {
                self.response_state = State::FINALIZE;
                if""", """            if te_opt.is_none()
                && cl_opt.is_none()
                && response_tx.request_method_number != HtpMethod::PUT
            {
                self.response_state = State::FINALIZE;
                if""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"PUT / HTTP/1.1\r\nHost: a\r\nUpgrade: x\r\nContent-Length: 1\r\n\r\na");
    res(&mut p, b"HTTP/1.1 101 Switching Protocols\r\nUpgrade: x\r\n\r\n");
    assert_eq!(p.request_data(ParserData::from(&b"opaque"[..]), None), htp::connection_parser::HtpStreamState::TUNNEL);
}
''', needs="an upgrade asked for by a PUT request", breaks="no tunnel is made of it"),
dict(id="b56-smuggling-after-interim", property="P15",
 edits=[("src/response.rs", """                if cl_opt.is_some() {
                    // This is a violation of the RFC""", """                if cl_opt.is_some() && !response_tx.seen_100continue {
                    // This is a violation of the RFC""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 5\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n");
    assert!(p.tx(0).unwrap().flags & htp::util::HtpFlags::REQUEST_SMUGGLING != 0);
}
''', needs="an interim response before a response with both a length and chunks", breaks="the conflict is not marked"),
]
