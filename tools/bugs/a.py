BUGS = [
dict(id="b01-chunk-end-split-length", property="P05",
 edits=[("src/request.rs", """            // Advance to end. Dont need to buffer
            req.request_message_len = req.request_message_len.wrapping_add(input.len() as u64);
            self.request_data_consume""", """            // Advance to end. Dont need to buffer
            self.request_data_consume""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r");
    req(&mut p, b"\n0\r\n\r\n");
    let tx = p.tx(0).unwrap();
    assert_eq!(tx.request_entity_len, 3);
    assert_eq!(tx.request_message_len, 11);
}
''', needs="a chunked request cut between the CR and the LF that end a chunk's data", breaks="the reported wire length of the request misses the bytes of the first piece of the chunk end"),
dict(id="b02-empty-first-repeat", property="P03",
 edits=[("src/request.rs", """                // Add to the existing header.
                h_existing.value.extend_from_slice(b", ");
                h_existing.value.extend_from_slice(header.value.as_slice());""", """                // Add to the existing header.
                if !h_existing.value.is_empty() {
                    h_existing.value.extend_from_slice(b", ");
                }
                h_existing.value.extend_from_slice(header.value.as_slice());""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\nX-A:\r\nX-A: b\r\n\r\n");
    let tx = p.tx(0).unwrap();
    assert_eq!(text(&tx.request_headers.get_nocase("x-a").unwrap().value), ", b");
}
''', needs="a repeated request header whose first occurrence has an empty value", breaks="the joined value of the repeated field is not what was sent"),
dict(id="b03-lost-request-start", property="P06",
 edits=[("src/connection_parser.rs", """            // Clear the data receivers hook if any
            self.response_receiver_finalize_clear(input)?;""", """            // Clear the data receivers hook if any
            self.response_receiver_finalize_clear(input)?;
            // Nothing of this exchange is left to read
            if self.request_index() == response_index + 1 {
                self.request_buf.clear();
            }""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET /1 HTTP/1.1\r\nHost: a\r\n\r\n");
    req(&mut p, b"GET /sec");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
    req(&mut p, b"ond HTTP/1.1\r\nHost: a\r\n\r\n");
    let tx = p.tx(1).unwrap();
    assert_eq!(text(tx.request_uri.as_ref().unwrap()), "/second");
}
''', needs="a pipelined request cut inside its line, with the previous response arriving between the two pieces", breaks="the start of the pipelined request is lost when the earlier response completes"),
]
