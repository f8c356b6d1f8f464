BUGS = [
dict(id="b43-long-values-uncounted", property="P12",
 edits=[("src/request.rs", """            } else if reps < 64 {
                update_reps = true;""", """            } else if reps < 64 || header.value.len() > 64 {
                update_reps = header.value.len() <= 64;""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    let mut w = b"GET / HTTP/1.1\r\nHost: a\r\n".to_vec();
    let v = "v".repeat(70);
    for _ in 0..100 { w.extend_from_slice(format!("X: {}\r\n", v).as_bytes()); }
    w.extend_from_slice(b"\r\n");
    req(&mut p, &w);
    let n = p.tx(0).unwrap().request_headers.get_nocase("x").unwrap().value.split(|c| *c == b',').count();
    assert_eq!(n, 66);
}
''', needs="a request field repeated more than 66 times with values longer than 64 bytes", breaks="such repetitions are joined without end"),
dict(id="b44-unexpected-untold", property="P14",
 edits=[("src/request.rs", """                if self.request_body_data_left.unwrap_or(0) == 0 {""", """                if self.request_body_data_left.is_none() {""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 2\r\n\r\nhizz\r\n");
    assert_eq!(text(&body('q', 0)), "hizz\r\n");
    assert!(p.conn.get_logs().iter().any(|l| l.msg.code == htp::log::HtpLogCode::REQUEST_BODY_UNEXPECTED));
}
''', needs="unexpected data behind a request whose body was framed by its length", breaks="it is not told"),
dict(id="b45-leading-nul", property="P28",
 edits=[("src/request.rs", """                data = before_null
""", """                if !before_null.is_empty() {
                    data = before_null
                }
""")],
 demo=r'''
fn main() {
    let mut c = config();
    c.set_server_personality(htp::config::HtpServerPersonality::APACHE_2).unwrap();
    let mut p = open(c);
    req(&mut p, b"\0GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    assert!(p.tx(0).unwrap().request_uri.is_none());
}
''', needs="a request line that starts with a NUL, with the Apache personality", breaks="the NUL does not end the line"),
]
