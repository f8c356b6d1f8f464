BUGS = [
dict(id="b31-duplicate-length-words", property="P30",
 edits=[("src/request.rs", """                if existing_cl.is_none() || new_cl.is_none() || existing_cl != new_cl {""",
"""                if existing_cl.is_none() || (new_cl.is_some() && existing_cl != new_cl) {""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 2\r\nContent-Length: none\r\n\r\nab");
    let n = p.conn.get_logs().iter().filter(|l| l.msg.code == htp::log::HtpLogCode::DUPLICATE_CONTENT_LENGTH_FIELD_IN_REQUEST).count();
    assert_eq!(n, 1);
}
''', needs="a request whose second Content-Length has no number in it", breaks="the ambiguous length is not reported in the log"),
dict(id="b32-last-field-lf", property="P31",
 edits=[("src/request.rs", """            if let Some(request_header) = self.request_header.take() {
                self.parse_request_headers(request_header.as_slice())?;
            }""", """            if let Some(request_header) = self.request_header.take() {
                if request_header.ends_with(b"\\r\\n") {
                    self.parse_request_headers(request_header.as_slice())?;
                }
            }""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\nHost: a\nX-Last: b\n");
    p.close(None);
    let t = p.tx(0).unwrap();
    let names: Vec<String> = t.request_headers.elements.iter().map(|h| text(&h.name)).collect();
    assert_eq!(names, ["Host", "X-Last"]);
}
''', needs="a connection closed behind a field of a request whose lines end in LF alone, or behind the CR of its empty line", breaks="the last field that arrived is not reported"),
dict(id="b33-short-body-close", property="P31",
 edits=[("src/response.rs", """        if self.response_status == HtpStreamState::CLOSED {
            self.response_state = State::FINALIZE;
            // Sends close signal to decompressors
            return self.response_body_data(data.data());
        }
        let left""", """        if self.response_status == HtpStreamState::CLOSED
            && self.response_body_data_left < self.response_content_length
        {
            self.response_state = State::FINALIZE;
            // Sends close signal to decompressors
            return self.response_body_data(data.data());
        }
        let left""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\n");
    p.close(None);
    assert!(p.tx(0).unwrap().is_complete());
}
''', needs="a response of known length, closed right behind its header block", breaks="the transaction never becomes complete"),
]
