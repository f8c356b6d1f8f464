//! Shared generators: configurations, mutated traffic, token soup.
use crate::drive::*;
use crate::engine::*;
use crate::traffic::*;
use htp::config::*;

pub const PERSONALITIES: [HtpServerPersonality; 7] = [
    HtpServerPersonality::MINIMAL,
    HtpServerPersonality::GENERIC,
    HtpServerPersonality::IDS,
    HtpServerPersonality::APACHE_2,
    HtpServerPersonality::IIS_5_1,
    HtpServerPersonality::IIS_6_0,
    HtpServerPersonality::IIS_7_0,
];

pub fn unwanted(s: &mut Src) -> HtpUnwanted {
    *s.pick(&[HtpUnwanted::IGNORE, HtpUnwanted::CODE_400, HtpUnwanted::CODE_404])
}

/// Randomize the URL decoder part of a configuration.
pub fn random_decoder(s: &mut Src, c: &mut DecoderConfig) {
    c.double_decode_normalized_path = s.bool();
    c.double_decode_normalized_query = s.bool();
    c.backslash_convert_slashes = s.bool();
    c.convert_lowercase = s.bool();
    c.path_separators_compress = s.bool();
    c.path_separators_decode = s.bool();
    c.plusspace_decode = s.bool();
    c.path_separators_encoded_unwanted = unwanted(s);
    c.nul_raw_terminates = s.bool();
    c.nul_raw_unwanted = unwanted(s);
    c.control_chars_unwanted = unwanted(s);
    c.u_encoding_decode = s.bool();
    c.u_encoding_unwanted = unwanted(s);
    c.url_encoding_invalid_handling = *s.pick(&[
        HtpUrlEncodingHandling::PRESERVE_PERCENT,
        HtpUrlEncodingHandling::REMOVE_PERCENT,
        HtpUrlEncodingHandling::PROCESS_INVALID,
    ]);
    c.url_encoding_invalid_unwanted = unwanted(s);
    c.nul_encoded_terminates = s.bool();
    c.nul_encoded_unwanted = unwanted(s);
    c.normalized_uri_include_all = s.bool();
}

/// Every configuration knob, at random.
pub fn random_config(s: &mut Src) -> Config {
    let mut c = base_config();
    if s.bool() {
        let p = *s.pick(&PERSONALITIES);
        let _ = c.set_server_personality(p);
    }
    if s.chance(1, 3) {
        random_decoder(s, &mut c.decoder_cfg);
        c.set_utf8_convert_bestfit(s.bool());
    }
    c.set_allow_space_uri(s.chance(1, 4));
    if s.chance(1, 4) {
        c.set_field_limit(s.size(64, 20000));
    }
    c.set_tx_auto_destroy(s.chance(1, 3));
    c.set_flush_incomplete(s.chance(1, 3));
    c.set_parse_urlencoded(s.chance(1, 2));
    c.parse_request_auth = s.chance(3, 4);
    c.set_request_decompression(s.chance(1, 2));
    c.response_decompression_enabled = s.chance(3, 4);
    if s.chance(1, 5) {
        c.max_tx = s.range(0, 4) as u32;
    }
    if s.chance(1, 4) {
        let l = s.range(0, 4) as u32;
        c.set_decompression_layer_limit(if l == 0 { None } else { Some(l) });
        let l = s.range(0, 3) as u32;
        c.compression_options.set_lzma_layers(if l == 0 { None } else { Some(l) });
        c.compression_options.set_bomb_limit(s.range(0, 5000) as u64);
        c.compression_options.set_bomb_ratio(*s.pick(&[0u64, 1, 10, 2048, u64::MAX]));
        c.compression_options.set_time_test_freq(s.range(1, 300) as u32);
        c.compression_options
            .set_lzma_memlimit(*s.pick(&[0usize, 1, 4096, 1_048_576]));
    }
    c.set_requestline_leading_whitespace_unwanted(unwanted(s));
    c
}

const TOKENS: &[&[u8]] = &[
    b"GET ", b"POST / HTTP/1.1\r\n", b"GET / HTTP/1.0\r\n\r\n", b"HTTP/1.1 200 OK\r\n", b"HTTP/1.1 100 Continue\r\n\r\n",
    b"HTTP/1.1 101 Switching Protocols\r\n\r\n", b"HTTP/1.1 204 X\r\n\r\n", b"HTTP/1.0 304 \r\n",
    b"Content-Length: 5\r\n", b"Content-Length: 0\r\n", b"Content-Length: 99999999999999999999\r\n", b"content-length:\r\n",
    b"Content-Length: 18446744073709551615\r\n", b"Content-Length: 9223372036854775807\r\n",
    b"Transfer-Encoding: chunked\r\n", b"Transfer-Encoding: gzip, chunked\r\n", b"Transfer-Encoding: identity\r\n",
    b"Content-Encoding: gzip\r\n", b"Content-Encoding: deflate, gzip\r\n", b"Content-Encoding: lzma\r\n",
    b"Content-Encoding: gzip, gzip, gzip, lzma\r\n", b"Host: a:80\r\n", b"Host: [::1]:x\r\n", b"Host:\r\n",
    b"Authorization: Basic YTpi\r\n", b"Authorization: Digest username=\"a\\\"b\"\r\n", b"Authorization: Bearer x\r\n",
    b"Authorization: \r\n", b"Authorization: Basic %%%\r\n", b"Expect: 100-continue\r\n", b"Upgrade: h2c\r\n",
    b"Content-Type: application/x-www-form-urlencoded\r\n", b"Content-Type: multipart/byteranges\r\n", b"Cookie: a=b; c=d\r\n",
    b"CONNECT a:443 HTTP/1.1\r\n\r\n", b"CONNECT ", b"HEAD / HTTP/1.1\r\n\r\n", b"\r\n", b"\n", b"\r", b"\r\n\r\n", b"\n\n", b"\n\r", b"\n\r\r\n",
    b"\r\n ", b"\r\n\t", b" ", b"\t", b"\0", b":", b"%", b"%u", b"%00", b"%2f", b"%u2215", b"\\", b"//", b"/../", b"/./", b"?", b"#", b"@", b"&", b"=", b"+", b";",
    b"0\r\n\r\n", b"5\r\nhello\r\n", b"ffffffffffffffff\r\n", b"7fffffff\r\n", b"1;ext\r\n", b"0000000000000000000000001\r\n", b"x\r\n", b"-1\r\n", b"g",
    b"hello", b"\xff\xfe\xc0\x80", b"\xe3\x80\x80", b"http://u:p@h:99999/p?q#f", b"HTTP/1.1", b"HTTP/", b"http", b"a:b\r\n", b"A", b"\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03",
    b"\x1f\x8b\x08\x1e\x00\x00\x00\x00\x00\x03\x04\x00ABCDname\0comment\0\x00\x00", b"\x78\x9c", b"\x5d\x00\x00\x80\x00\xff\xff\xff\xff\xff\xff\xff\xff\x00",
];

pub fn soup(s: &mut Src, lo: usize, hi: usize) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..s.range(lo, hi) {
        match s.below(10) {
            0 => v.push(s.byte()),
            1 => {
                let n = s.range(1, 40);
                let b = s.byte();
                v.extend(std::iter::repeat(b).take(n));
            }
            _ => {
                let t = *s.pick(TOKENS);
                v.extend_from_slice(t)
            }
        }
    }
    v
}

/// A few random edits of a byte string.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        let len = b.len();
        if len == 0 {
            let t = *s.pick(TOKENS);
            b.extend_from_slice(t);
            continue;
        }
        match s.below(8) {
            0 => {
                let i = s.u(len);
                b[i] = s.byte();
            }
            1 => {
                let i = s.u(len);
                let k = s.range(1, 8).min(len - i);
                b.drain(i..i + k);
            }
            2 | 3 => {
                let i = s.u(len + 1);
                let t = *s.pick(TOKENS);
                b.splice(i..i, t.iter().copied());
            }
            4 => {
                let i = s.u(len);
                let k = s.range(1, 30).min(len - i);
                let c: Vec<u8> = b[i..i + k].to_vec();
                let j = s.u(len + 1);
                b.splice(j..j, c);
            }
            5 => {
                let i = s.u(len);
                b.truncate(i);
            }
            6 => {
                let i = s.u(len);
                b[i] ^= 1 << s.below(8);
            }
            _ => {
                let i = s.u(len);
                b.insert(i, *s.pick(b"\r\n \t\0:%/0"));
            }
        }
    }
}

/// Arbitrary traffic for both directions, not necessarily well-formed.
pub fn wild_streams(s: &mut Src) -> (Vec<u8>, Vec<u8>) {
    match s.below(4) {
        0 => (soup(s, 1, 14), soup(s, 1, 14)),
        _ => {
            let st = Style { max_exchanges: 3, big: false, ..Default::default() };
            let x = gen_conversation(s, &st);
            let t = streams(&x);
            let (mut a, mut b) = (t.req, t.res);
            let n = s.range(0, 3);
            mutate(s, &mut a, n);
            let n = s.range(0, 3);
            mutate(s, &mut b, n);
            if s.chance(1, 4) {
                let k = soup(s, 1, 6);
                let at = s.u(a.len() + 1);
                a.splice(at..at, k);
            }
            if s.chance(1, 4) {
                let k = soup(s, 1, 6);
                let at = s.u(b.len() + 1);
                b.splice(at..at, k);
            }
            (a, b)
        }
    }
}

pub fn cut_anywhere(s: &mut Src, b: &[u8]) -> Vec<Vec<u8>> {
    if b.is_empty() {
        return vec![];
    }
    let mut cuts: Vec<usize> = match s.below(4) {
        0 => vec![],
        1 if b.len() < 600 => (1..b.len()).collect(),
        2 => {
            // cut right after or inside line ends
            let d = s.u(2);
            b.iter()
                .enumerate()
                .filter(|(_, c)| **c == b'\n' || **c == b'\r')
                .map(|(i, _)| i + d)
                .filter(|i| *i > 0 && *i < b.len())
                .collect()
        }
        _ => (0..s.range(1, 6)).map(|_| s.u(b.len())).filter(|x| *x > 0).collect(),
    };
    cuts.sort();
    cuts.dedup();
    let mut v = vec![];
    let mut p = 0;
    for c in cuts.into_iter().chain([b.len()]) {
        v.push(b[p..c].to_vec());
        p = c;
    }
    v
}

/// Arbitrary operation history: data on both sides in any order, gaps, empty
/// chunks, closes, and calls after a close.
pub fn wild_ops(s: &mut Src) -> Vec<Op> {
    let (a, b) = wild_streams(s);
    let mut rq: std::collections::VecDeque<Vec<u8>> = cut_anywhere(s, &a).into();
    let mut rs: std::collections::VecDeque<Vec<u8>> = cut_anywhere(s, &b).into();
    let gaps = s.chance(1, 4);
    let closes = s.chance(1, 8);
    let bias = s.below(4);
    let mut ops = vec![];
    while !rq.is_empty() || !rs.is_empty() {
        if gaps && s.chance(1, 12) {
            let n = match s.below(4) {
                0 => s.range(0, 3),
                1 => s.range(0, 100),
                2 => s.range(0, 100_000),
                _ => *s.pick(&[1usize << 31, 1 << 32, usize::MAX, usize::MAX / 2]),
            };
            ops.push(if s.bool() { Op::ReqGap(n) } else { Op::ResGap(n) });
            // the gap stands for lost bytes
            continue;
        }
        if closes && s.chance(1, 12) {
            ops.push(if s.bool() { Op::ReqClose } else { Op::Close });
            continue;
        }
        let req = if rs.is_empty() {
            true
        } else if rq.is_empty() {
            false
        } else {
            match bias {
                0 => true,
                1 => s.chance(1, 4),
                _ => s.bool(),
            }
        };
        if req {
            ops.push(Op::Req(rq.pop_front().unwrap()));
        } else {
            ops.push(Op::Res(rs.pop_front().unwrap()));
        }
    }
    if s.chance(7, 8) {
        ops.push(Op::Close);
    }
    if s.chance(1, 10) {
        ops.push(Op::Res(b"HTTP/1.1 200 OK\r\n\r\n".to_vec()));
        ops.push(Op::Req(b"GET / HTTP/1.0\r\n\r\n".to_vec()));
        ops.push(Op::Close);
    }
    ops
}

pub fn show_config(c: &Config) -> String {
    let d = &c.decoder_cfg;
    format!(
        "config: personality {:?} field_limit {} auto_destroy {} flush_incomplete {} max_tx {} urlenc {} auth {} req_decomp {} res_decomp {} layers {:?} lzma_layers {:?} lzma_mem {} bomb {}/{} allow_space {} decoder [dd {} {} bs {} low {} compress {} sepdec {} plus {} sepunw {:?} nulraw {} {:?} ctl {:?} u {} {:?} inv {:?} {:?} nulenc {} {:?} all {}]",
        c.server_personality, c.field_limit, c.tx_auto_destroy, c.flush_incomplete, c.max_tx, c.parse_urlencoded,
        c.parse_request_auth, c.request_decompression_enabled, c.response_decompression_enabled,
        c.compression_options.get_layer_limit(), c.compression_options.get_lzma_layers(), c.compression_options.get_lzma_memlimit(),
        c.compression_options.get_bomb_limit(), c.compression_options.get_bomb_ratio(), d.allow_space_uri,
        d.double_decode_normalized_path, d.double_decode_normalized_query, d.backslash_convert_slashes, d.convert_lowercase,
        d.path_separators_compress, d.path_separators_decode, d.plusspace_decode, d.path_separators_encoded_unwanted,
        d.nul_raw_terminates, d.nul_raw_unwanted, d.control_chars_unwanted, d.u_encoding_decode, d.u_encoding_unwanted,
        d.url_encoding_invalid_handling, d.url_encoding_invalid_unwanted, d.nul_encoded_terminates, d.nul_encoded_unwanted,
        d.normalized_uri_include_all,
    )
}
