BUGS = [
dict(id="b34-nested-connect", property="P13",
 edits=[("src/request.rs", """            if HtpMethod::new(method) == HtpMethod::UNKNOWN {
                self.request_status = HtpStreamState::TUNNEL;""",
"""            if matches!(
                HtpMethod::new(method),
                HtpMethod::UNKNOWN | HtpMethod::CONNECT
            ) {
                self.request_status = HtpStreamState::TUNNEL;""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"CONNECT a:1 HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\n\r\n");
    req(&mut p, b"CONNECT b:2 HTTP/1.1\r\nHost: b\r\n\r\n");
    assert_eq!(p.tx_size(), 2);
    assert_eq!(p.tx(1).unwrap().request_port_number, Some(2));
}
''', needs="a CONNECT through a proxy that is itself reached by an accepted CONNECT", breaks="the inner CONNECT is passed over as tunnel data and its transaction never appears"),
dict(id="b35-gap-after-09", property="P28",
 edits=[("src/request.rs", """                && self.request_state != State::IGNORE_DATA_AFTER_HTTP_0_9
                && self.request_state != State::FINALIZE""",
"""                && self.request_state != State::FINALIZE""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    assert_eq!(req(&mut p, b"GET /\r\n"), HtpStreamState::DATA);
    assert_eq!(req(&mut p, b"more"), HtpStreamState::DATA);
    assert_eq!(p.request_data(ParserData::from(10usize), None), HtpStreamState::DATA);
    assert_eq!(req(&mut p, b"more"), HtpStreamState::DATA);
}
''', needs="an HTTP/0.9 request followed by ignored data of which a part is missing", breaks="data that is to be ignored ends the request stream in error"),
dict(id="b36-continue-with-chunks", property="P14",
 edits=[("src/response.rs", """response_tx.response_status_number.eq_num(100) && te_opt.is_none()""", """response_tx.response_status_number.eq_num(100)""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 100 Continue\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n");
    assert_eq!(text(&body('s', 0)), "abc");
    assert!(p.tx(0).unwrap().is_complete());
}
''', needs="a 100 response that announces a chunked body", breaks="the response is taken for an interim one and its body for the next status line"),
dict(id="b37-chunk-extension-behind-space", property="P30",
 edits=[("src/parsers.rs", """    let has_ext = trailing_data.contains(&b';');""", """    let has_ext = trailing_data.first() == Some(&b';');""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n3x ;a=b\r\nabc\r\n0\r\n\r\n");
    let n = p.conn.get_logs().iter().filter(|l| l.msg.code == htp::log::HtpLogCode::REQUEST_CHUNK_EXTENSION).count();
    assert_eq!(n, 1);
}
''', needs="a chunk line with something between the length and the extension", breaks="the chunk extension is not reported in the log"),
dict(id="b38-bracket-with-fragment", property="P17",
 edits=[("src/parsers.rs", """is_not("/?#]")""", """is_not("/?]")""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET http://[::1#frag HTTP/1.1\r\nHost: a\r\n\r\n");
    let u = p.tx(0).unwrap().parsed_uri.as_ref().unwrap();
    assert_eq!(u.fragment.as_ref().map(|f| text(f)), Some("frag".to_string()));
}
''', needs="an absolute target whose address in brackets is never closed and is followed by a fragment", breaks="the fragment becomes part of the host"),
dict(id="b39-gzip-name-kept", property="P32",
 edits=[("src/decompressors.rs", """                GzState::Filename => {
                    if self.flags & FNAME != 0 {
                        match tuple((
                            take_until::<&[u8], &[u8], nom::error::Error<&[u8]>>(b"\\0" as &[u8]),
                            tag(b"\\0"),
                        ))(parse)
                        {
                            Ok((rest, _)) => {
                                parse = rest;
                            }
                            Err(nom::Err::Incomplete(_)) => {
                                return Ok(data.len());""", """                GzState::Filename => {
                    if self.flags & FNAME != 0 {
                        match tuple((
                            take_until::<&[u8], &[u8], nom::error::Error<&[u8]>>(b"\\0" as &[u8]),
                            tag(b"\\0"),
                        ))(parse)
                        {
                            Ok((rest, _)) => {
                                parse = rest;
                            }
                            Err(nom::Err::Incomplete(_)) => {
                                self.buffer.extend_from_slice(parse);
                                return Ok(data.len());""")],
 demo=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let mut p = open(Config::default());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 100000000\r\n\r\n\x1f\x8b\x08\x08\0\0\0\0\0\0name");
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..200 { assert_eq!(res(&mut p, &[b'n'; 1000]), HtpStreamState::DATA); }
    let grown = LIVE.load(Ordering::SeqCst) - before;
    assert!(grown < 20_000, "{} bytes are kept of a file name", grown);
}
''', needs="a gzip body whose header has a file name that goes on and on", breaks="the name is kept, without limit, until its end arrives"),
dict(id="b40-log-free", property="P32",
 edits=[("src/c_api/log.rs", """        drop(Box::from_raw(log));""", """        std::ptr::drop_in_place(log);""")],
 demo=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn once() -> usize {
    let mut p = open(Config::default());
    let mut n = 0;
    for _ in 0..20 { req(&mut p, b"GET / HTTP/1.1\r\nbad line\r\n\r\n"); }
    unsafe {
        loop {
            let l = htp::c_api::connection::htp_conn_next_log(&p.conn);
            if l.is_null() { break }
            htp::c_api::log::htp_log_free(l);
            n += 1;
        }
    }
    n
}
fn main() {
    once();
    let before = LIVE.load(Ordering::SeqCst);
    assert!(once() > 0);
    assert_eq!(LIVE.load(Ordering::SeqCst) - before, 0);
}
''', needs="log messages read and freed through the C interface", breaks="the messages themselves are not given back"),
dict(id="b41-response-media-type-tab", property="P16",
 edits=[("src/response.rs", """(|c| c == b';' || is_space(c))(""", """(|c| c == b';' || c == b' ')(""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Type: Text/Html\tcharset=x\r\nContent-Length: 0\r\n\r\n");
    assert_eq!(text(p.tx(0).unwrap().response_content_type.as_ref().unwrap()), "text/html");
}
''', needs="a response whose media type is separated from its parameters by a tab", breaks="the parameters become part of the content type"),
dict(id="b42-length-behind-comma", property="P15",
 edits=[("src/util.rs", """                take_till(|c: u8| c.is_ascii_digit()),
                digit1,""", """                take_till(|c: u8| c.is_ascii_digit() || c == b','),
                digit1,""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    assert_eq!(req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: ,3\r\n\r\nabc"), HtpStreamState::DATA);
    assert_eq!(text(&body('q', 0)), "abc");
}
''', needs="a Content-Length with a comma in front of its digits", breaks="the length counts as unreadable and the stream ends in error"),
]
