BUGS = [
dict(id="b04-tunnel-probe-split", property="P13",
 edits=[("src/request.rs", """        let res = tuple((take_is_space, take_not_is_space))(buffered.as_slice());
        if let Ok((_, (_, method))) = res {
            if HtpMethod::new(method) == HtpMethod::UNKNOWN {
                self.request_status""", """        let res = tuple((take_is_space, take_not_is_space))(data);
        if let Ok((_, (_, method))) = res {
            if HtpMethod::new(method) == HtpMethod::UNKNOWN {
                self.request_status""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"CONNECT a:80 HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\n\r\n");
    req(&mut p, b"GET /ins");
    let r = req(&mut p, b"ide HTTP/1.1\r\nHost: a\r\n\r\n");
    assert_ne!(r, HtpStreamState::TUNNEL);
    assert_eq!(text(p.tx(1).unwrap().request_uri.as_ref().unwrap()), "/inside");
}
''', needs="an accepted CONNECT whose client speaks HTTP inside, with the first inner request line cut after its method", breaks="the inner request is taken for tunnelled data and never reported"),
dict(id="b05-second-interim-fields", property="P14",
 edits=[("src/response.rs", """                    // Ignore any response headers seen so far.
                    response_tx.response_headers.elements.clear();""", """                    // Ignore any response headers seen so far.
                    if !response_tx.seen_100continue {
                        response_tx.response_headers.elements.clear();
                    }""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 1\r\n\r\nx");
    res(&mut p, b"HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 100 Continue\r\nX-I: 1\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n");
    assert!(p.tx(0).unwrap().response_headers.get_nocase("x-i").is_none());
}
''', needs="two interim 100 responses before a final one, the second with a header field", breaks="fields of the second interim response are reported as fields of the final response"),
dict(id="b06-gap-past-end-length", property="P23",
 edits=[("src/response.rs", """            resp.response_message_len = resp.response_message_len.wrapping_add(bytes_to_consume);
            // Create a new gap""", """            resp.response_message_len = resp.response_message_len.wrapping_add(data.len() as u64);
            // Create a new gap""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 10\r\n\r\nabcd");
    p.response_data(htp::connection_parser::ParserData::from(20usize), None);
    assert_eq!(p.tx(0).unwrap().response_message_len, 10);
}
''', needs="a gap in a response body of known length that runs past the end of the body", breaks="the message length counts bytes that are not of the message"),
dict(id="b07-response-smuggling-odd-te", property="P15",
 edits=[("src/response.rs", """                // We are still going to check for the presence of C-L
                if cl_opt.is_some() {""", """                // We are still going to check for the presence of C-L
                if cl_opt.is_some() && te.value.cmp_nocase("chunked") == Ordering::Equal {""")],
 demo=r'''
use htp::util::{FlagOperations, HtpFlags};
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, b"HTTP/1.1 200 OK\r\nContent-Length: 10\r\nTransfer-Encoding: gzip, chunked\r\n\r\n0\r\n\r\n");
    assert!(p.tx(0).unwrap().flags.is_set(HtpFlags::REQUEST_SMUGGLING));
}
''', needs="a response with a Content-Length and a Transfer-Encoding that contains chunked among other codings", breaks="the conflicting framing is not marked"),
dict(id="b08-response-repetitions", property="P12",
 edits=[("src/response.rs", """            resp.response_header_repetitions = resp.response_header_repetitions.wrapping_add(1)
        }""", """            resp.response_header_repetitions = resp.response_header_repetitions.wrapping_add(1)
        } else if repeated {
            // Count the repetitions of this header from here.
            resp.response_header_repetitions = 0
        }""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    let mut h = b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n".to_vec();
    for _ in 0..50 { h.extend(b"A: 1\r\n"); }
    for _ in 0..50 { h.extend(b"B: 1\r\n"); }
    h.extend(b"\r\n");
    res(&mut p, &h);
    let t = p.tx(0).unwrap();
    let n = |x: &str| text(&t.response_headers.get_nocase(x).unwrap().value).matches('1').count();
    assert_eq!(n("a") + n("b"), 2 + 2 + 64);
}
''', needs="a response with two different repeated fields, more than 64 further repetitions together", breaks="the limit on joined repetitions counts each field anew, so far more than 64 are joined"),
dict(id="b09-tx-hook-stop", property="P08",
 edits=[("src/request.rs", """        req.hook_request_body_data.clone().run_all(self, d)?;""", """        let rc = req.hook_request_body_data.clone().run_all(self, d);
        if rc == Err(HtpStatus::ERROR) {
            return rc;
        }""")],
 demo=r'''
fn stop(_: &mut Transaction, _: &ParserData) -> Result<(), htp::HtpStatus> { Err(htp::HtpStatus::STOP) }
fn add(tx: &mut Transaction) -> Result<(), htp::HtpStatus> { tx.register_request_body_data(stop); Ok(()) }
fn main() {
    let mut c = config();
    c.register_request_headers(add);
    let mut p = open(c);
    let r = req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\n\r\nabc");
    assert_eq!(r, HtpStreamState::STOP);
    assert!(body('q', 0).is_empty());
}
''', needs="a body data callback registered on the transaction that answers stop", breaks="the stop is ignored and the callbacks of the configuration still get the data"),
dict(id="b10-overlong-u-separator", property="P18",
 edits=[("src/urlencoded.rs", """    if c1 == 0 {
        flags.set(HtpFlags::PATH_OVERLONG_U)
    } else {
        // Check for fullwidth form evasion
        if c1 == 0xff {
            flags.set(HtpFlags::PATH_HALF_FULL_RANGE)
        }
        expected_status_code = cfg.u_encoding_unwanted;
        // Use best-fit mapping
        r = cfg.bestfit_map.get(bestfit_key!(c1, c2));
    }
    // Check for encoded path separators
    if r""", """    if c1 == 0 {
        flags.set(HtpFlags::PATH_OVERLONG_U)
    } else {
        // Check for fullwidth form evasion
        if c1 == 0xff {
            flags.set(HtpFlags::PATH_HALF_FULL_RANGE)
        }
        expected_status_code = cfg.u_encoding_unwanted;
        // Use best-fit mapping
        r = cfg.bestfit_map.get(bestfit_key!(c1, c2));
    }
    // Check for encoded path separators
    if c2 == r && r""")],
 demo=r'''
use htp::util::{FlagOperations, HtpFlags};
fn main() {
    let mut c = config();
    c.set_u_encoding_decode(true);
    let mut p = open(c);
    req(&mut p, b"GET /a%u2215b HTTP/1.1\r\nHost: a\r\n\r\n");
    let t = p.tx(0).unwrap();
    assert_eq!(text(t.parsed_uri.as_ref().unwrap().path.as_ref().unwrap()), "/a/b");
    assert!(t.flags.is_set(HtpFlags::PATH_ENCODED_SEPARATOR));
}
''', needs="a path with a %u encoding whose best-fit character is a separator", breaks="the encoded separator is decoded but not marked"),
dict(id="b11-query-empty-value-piece", property="P20",
 edits=[("src/urlencoded.rs", """        self.field.clear();
        self.field.add(remaining);""", """        self.field.clear();
        if remaining != b"=" {
            self.field.add(remaining);
        }""")],
 demo=r'''
fn main() {
    let mut u = htp::urlencoded::Parser::default();
    u.parse_partial(b"a=1&=");
    u.parse_partial(b"x");
    u.finalize();
    let v: Vec<_> = u.params.elements.iter().map(|(a, b)| (text(a), text(b))).collect();
    assert_eq!(v, vec![("a".into(), "1".into()), ("".into(), "x".into())] as Vec<(String, String)>);
}
''', needs="a query string given in pieces with a cut right after the '=' of a parameter with an empty name", breaks="the value is reported as a name"),
dict(id="b12-gzip-extra-cut", property="P10",
 edits=[("src/decompressors.rs", """                        if parse.len() < self.xlen as usize {
                            self.xlen -= parse.len() as u16;
                            return Ok(data.len());
                        }
                        parse = &parse[self.xlen as usize..];""", """                        if parse.len() < self.xlen as usize {
                            return Ok(data.len());
                        }
                        parse = &parse[self.xlen as usize..];""")],
 demo=r'''
fn main() {
    let mut z = vec![0x1f, 0x8b, 8, 4, 0, 0, 0, 0, 0, 3, 4, 0, b'w', b'x', b'y', b'z'];
    let cut = z.len() - 2;
    z.extend([0x4b, 0x4c, 0x4a, 0x06, 0x00]); // "abc", raw deflate
    z.extend([0xc2, 0x41, 0x24, 0x35, 3, 0, 0, 0]);
    let mut p = open(config());
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\n\r\n");
    res(&mut p, format!("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: {}\r\n\r\n", z.len()).as_bytes());
    res(&mut p, &z[..cut]);
    res(&mut p, &z[cut..]);
    assert_eq!(text(&body('s', 0)), "abc");
}
''', needs="a gzip body with an extra field in its header, cut inside that field", breaks="bytes behind the extra field are skipped, the rest is taken for compressed data and the body is not decompressed"),
dict(id="b13-request-bomb-ratio", property="P11",
 edits=[("src/request.rs", """        let exceeds_ratio = if let Some(ratio) = req.request_message_len.checked_mul(ratio) {""", """        let exceeds_ratio = if let Some(ratio) = req
            .request_message_len
            .max(req.request_content_length.unwrap_or(0))
            .checked_mul(ratio)
        {""")],
 demo=r'''
fn main() {
    // 64 KiB of zeros in stored form would be long: use a small raw deflate bomb, announced as a huge body
    let z: Vec<u8> = std::iter::once(0x1f).chain([0x8b, 8, 0, 0, 0, 0, 0, 0, 3]).chain(bomb()).collect();
    let mut c = config();
    c.set_request_decompression(true);
    c.compression_options.set_bomb_limit(1000);
    c.compression_options.set_bomb_ratio(2);
    let mut p = open(c);
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Encoding: gzip\r\nContent-Length: 100000000\r\n\r\n");
    let r = req(&mut p, &z);
    assert_eq!(r, HtpStreamState::ERROR);
}
/// fixed Huffman block: literal 'a', then matches of length 258 and distance 1
fn bomb() -> Vec<u8> {
    let mut bits: Vec<bool> = vec![true, true, false];
    let code = |v: u32, n: u32, b: &mut Vec<bool>| for i in (0..n).rev() { b.push(v >> i & 1 == 1) };
    code(0x30 + b'a' as u32, 8, &mut bits);
    for _ in 0..200 { code(0xc0 + 285 - 280, 8, &mut bits); code(0, 5, &mut bits); }
    code(0, 7, &mut bits);
    bits.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()).collect()
}
''', needs="a compressed request body that announces a length far larger than the bytes sent so far", breaks="the ratio is applied to the announced length, so much more than the ratio allows is delivered"),
dict(id="b14-digest-auth-escape", property="P16",
 edits=[("src/parsers.rs", """        if result.last() == Some(&(b'\\\\')) {""", """        if auth_header.last() == Some(&(b'\\\\')) && !remaining_input.starts_with(b",") {""")],
 demo=r'''
fn main() {
    let mut c = config();
    let mut p = open(c);
    req(&mut p, b"GET / HTTP/1.1\r\nHost: a\r\nAuthorization: Digest username=\"a\\\",b\", realm=\"x\"\r\n\r\n");
    assert_eq!(text(p.tx(0).unwrap().request_auth_username.as_ref().unwrap()), "a\",b");
}
''', needs="a digest user name with an escaped quote directly followed by a comma", breaks="the user name is cut at the escaped quote"),
dict(id="b15-port-leading-zeros", property="P17",
 edits=[("src/uri.rs", """            let normalized_port = convert_port(port.as_slice());""", """            let normalized_port = convert_port(port.as_slice()).filter(|_| port.len() <= 5);""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET http://a:000080/ HTTP/1.1\r\nHost: a\r\n\r\n");
    assert_eq!(p.tx(0).unwrap().parsed_uri.as_ref().unwrap().port_number, Some(80));
}
''', needs="an absolute target whose port has leading zeros to more than five digits", breaks="the port number is not reported and the host is marked invalid"),
dict(id="b16-utf8-restart-last", property="P19",
 edits=[("src/utf8_decoder.rs", """                if self.seq != 1 {
                    self.seq = 0;
                    self.decode_byte(encoded_byte, is_last_byte);""", """                if self.seq != 1 {
                    let valid = self.seen_valid;
                    self.seq = 0;
                    self.decode_byte(encoded_byte, is_last_byte);
                    if !is_last_byte && encoded_byte < 0x80 && !valid {
                        // nothing valid so far
                        self.flags.unset(HtpFlags::PATH_UTF8_INVALID);
                    }""")],
 demo=r'''
use htp::util::{FlagOperations, HtpFlags};
fn main() {
    let mut p = open(config());
    req(&mut p, b"GET /\xf1.\xe2\x82\xac HTTP/1.1\r\nHost: a\r\n\r\n");
    let t = p.tx(0).unwrap();
    assert!(t.flags.is_set(HtpFlags::PATH_UTF8_INVALID));
    assert!(!t.flags.is_set(HtpFlags::PATH_UTF8_VALID));
}
''', needs="a path whose first non-ASCII sequence is cut off by an ASCII byte and that is otherwise valid", breaks="the path is marked as valid UTF-8"),
dict(id="b17-log-drain", property="P26",
 edits=[("src/connection.rs", """        let mut logs = Vec::with_capacity(8);
        while let Ok(message)""", """        let mut logs = Vec::with_capacity(8);
        // A parser that fails in a loop must not exhaust the memory.
        while logs.len() < 64 {
            let message = match self.log_channel.1.try_recv() {
                Ok(message) => message,
                Err(_) => return logs,
            };
            logs.push(Log::new(self, message))
        }
        while let Ok(message)"""),
        ("src/connection.rs", """            logs.push(Log::new(self, message))
        }
        logs
    }

    /// Returns the next""", """            logs.pop();
            logs.push(Log::new(self, message))
        }
        logs
    }

    /// Returns the next""")],
 demo=r'''
fn main() {
    let mut p = open(config());
    let _ = p.conn.get_logs();
    let mut h = b"GET / HTTP/1.1\r\nHost: a\r\n".to_vec();
    for i in 0..100 { h.extend(format!("a{}: 1\r\na{}: 2\r\n", i, i).bytes()); }
    h.extend(b"\r\n");
    req(&mut p, &h);
    assert_eq!(p.conn.get_logs().len(), 100);
}
''', needs="more than 64 messages between two reads of the log", breaks="messages are lost"),
dict(id="b18-flush-order", property="P24",
 edits=[("src/connection_parser.rs", """                to_remove.push(tx.index);
            }
        }
        for index""", """                let answered = tx.response_progress == HtpResponseProgress::COMPLETE;
                to_remove.extend(Some(tx.index).filter(|_| {
                    tx.request_progress == HtpRequestProgress::COMPLETE || !answered
                }));
            }
        }
        for index""")],
 demo=r'''
fn done(tx: &mut Transaction) -> Result<(), htp::HtpStatus> { note(format!("{}", tx.index)); Ok(()) }
fn main() {
    let mut c = config();
    c.set_flush_incomplete(true);
    c.register_transaction_complete(done);
    let mut p = open(c);
    req(&mut p, b"POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 10\r\n\r\nabc");
    res(&mut p, b"HTTP/1.1 413 No\r\nContent-Length: 0\r\n\r\n");
    p.close(None);
    assert_eq!(logged(), vec!["0".to_string()]);
}
''', needs="a connection closed while a request body is unfinished although its response is complete, with flush_incomplete", breaks="the incomplete transaction is never told complete"),
dict(id="b19-iis5-control-chars", property="P29",
 edits=[("src/config.rs", """                self.set_u_encoding_decode(false);
                self.set_url_encoding_invalid_handling(HtpUrlEncodingHandling::PRESERVE_PERCENT);
                self.set_control_chars_unwanted(HtpUnwanted::IGNORE);
                self.set_requestline_leading_whitespace_unwanted(HtpUnwanted::IGNORE);""", """                self.set_u_encoding_decode(false);
                self.set_url_encoding_invalid_handling(HtpUrlEncodingHandling::PRESERVE_PERCENT);
                self.set_requestline_leading_whitespace_unwanted(HtpUnwanted::IGNORE);""")],
 demo=r'''
use htp::config::{HtpServerPersonality, HtpUnwanted};
fn main() {
    let mut c = config();
    c.set_server_personality(HtpServerPersonality::IIS_6_0).unwrap();
    c.set_server_personality(HtpServerPersonality::IIS_5_1).unwrap();
    assert!(c.decoder_cfg.control_chars_unwanted == HtpUnwanted::IGNORE);
}
''', needs="a configuration changed from a stricter personality to IIS 5.1", breaks="a setting of the former personality survives"),
dict(id="b20-index-of-nozero", property="P21",
 edits=[("src/bstr.rs", """                if needle_pos == needle.len() {
                    return Some(start);
                }""", """                if needle_pos == needle.len() && (i + 1 < haystack.len() || skipped == 0) {
                    return Some(start);
                }""")] if False else [],
 demo="", needs="", breaks=""),
]
BUGS = [b for b in BUGS if b['edits']]
