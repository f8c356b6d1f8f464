BUGS=[
dict(id="b46-gap-past-end", property="P23",
 edits=[("src/response.rs", """                && self.response_state != State::BODY_IDENTITY_STREAM_CLOSE
                && self.response_state != State::FINALIZE
""", """                && self.response_state != State::BODY_IDENTITY_STREAM_CLOSE
""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nab");
    p.response_data(ParserData::from((std::ptr::null(), 20)), None);
    assert!(p.tx(0).unwrap().is_complete());
}
''', needs="a gap that runs past the end of a response of known length", breaks="the response does not become complete"),
dict(id="b47-gap-32-bits", property="P23",
 edits=[("src/connection_parser.rs", """                gap_len - self.position.get()
""", """                (gap_len - self.position.get()) as u32 as usize
""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"PUT / HTTP/1.1\r\nHost: a\r\nContent-Length: 4294967302\r\n\r\n");
    p.request_data(ParserData::from((std::ptr::null(), 4294967300)), None);
    assert_eq!(p.tx(0).unwrap().request_message_len, 4294967300);
}
''', needs="a gap of more than 32 bits of length", breaks="only the low 32 bits of it are counted"),
dict(id="b48-params-cap", property="P20",
 edits=[("src/urlencoded.rs", """                self.params.add(name, value);
""", """                if self.params.size() < 1000 {
                    self.params.add(name, value);
                }
""")],
 demo=r'''
fn main() {
    let mut p = htp::urlencoded::Parser::default();
    let q: Vec<String> = (0..1200).map(|i| format!("p{}={}", i, i)).collect();
    p.parse_complete(q.join("&").as_bytes());
    assert_eq!(p.params.size(), 1200);
}
''', needs="a query string with more than 1000 parameters", breaks="the ones behind the first 1000 are lost"),
dict(id="b49-long-pipeline", property="P06",
 edits=[("src/transactions.rs", """        self.response = self.response.wrapping_add(1);
        self.check_free();""", """        self.response = self.response.wrapping_add(1);
        if self.request > self.response + u8::MAX as usize {
            self.response = self.request;
        }
        self.check_free();""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    for i in 0..300 { req(&mut p, format!("GET /{} HTTP/1.1\r\nHost: a\r\n\r\n", i).as_bytes()); }
    for i in 0..300 { res(&mut p, format!("HTTP/1.1 200 OK\r\nContent-Length: 0\r\nN: {}\r\n\r\n", i).as_bytes()); }
    for i in 0..300 {
        assert_eq!(text(&p.tx(i).unwrap().response_headers.get_nocase("n").unwrap().value), i.to_string());
    }
}
''', needs="more than 256 pipelined requests waiting for their responses", breaks="the responses are paired with later requests"),
dict(id="b50-extra-field-length", property="P10",
 edits=[("src/decompressors.rs", """                                self.xlen = xlen;
""", """                                self.xlen = xlen & 0x7fff;
""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    // gzip of "hello" with an extra field of 40000 bytes, stored block
    let mut w = vec![0x1f, 0x8b, 8, 4, 0, 0, 0, 0, 0, 3];
    w.extend_from_slice(&40000u16.to_le_bytes());
    w.extend(std::iter::repeat(b'x').take(40000));
    w.extend_from_slice(&[1, 5, 0, 0xfa, 0xff]);
    w.extend_from_slice(b"hello");
    w.extend_from_slice(&[0x86, 0xa6, 0x10, 0x36, 5, 0, 0, 0]);
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, format!("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", w.len()).as_bytes());
    res(&mut p, &w);
    assert_eq!(text(&body('s', 0)), "hello");
}
''', needs="a gzip header with an extra field of 32768 bytes or more", breaks="the body is not decompressed"),
]
