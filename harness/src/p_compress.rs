//! P10: compressed bodies are delivered decompressed. P11: limits of decompression.
use crate::drive::*;
use crate::engine::*;
use crate::traffic::*;
use htp::connection_parser::HtpStreamState as S;
use htp::decompressors::HtpContentEncoding as E;
use std::io::Write;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P10",
        rule: "a body compressed by independent encoders in 1 to 3 layers, sent in either direction with random framing and cuts; non-trivial when the plain body has 2 or more bytes and is cut into 2 or more pieces",
        run: p10,
        quick: 250_000,
    },
    Prop {
        id: "P11",
        rule: "bodies around the configured bomb limit and ratio, or with more layers than allowed, with random limits and cuts; non-trivial when a limit is exceeded or met within a factor of 2",
        run: p11,
        quick: 120_000,
    },
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    Gzip,
    Deflate,
    /// zlib wrapped data announced as deflate
    Zlib,
    Lzma,
}

fn deflate_stream(s: &mut Src, b: &[u8]) -> Vec<u8> {
    let level = s.below(10) as u32;
    let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(level));
    write_pieces(s, &mut e, b);
    e.finish().unwrap()
}
/// Writes with occasional flushes, so that the stream has several blocks.
fn write_pieces<W: Write>(s: &mut Src, e: &mut W, b: &[u8]) {
    let n = if s.chance(1, 3) { s.range(1, 4) } else { 1 };
    let step = b.len() / n + 1;
    for (i, c) in b.chunks(step).enumerate() {
        if i > 0 {
            e.flush().unwrap();
        }
        e.write_all(c).unwrap();
    }
}
pub fn gzip_wrapped(s: &mut Src, b: &[u8]) -> Vec<u8> {
    gzip_with(s, b, true)
}
/// `long`: the optional header fields may be long.
pub fn gzip_with(s: &mut Src, b: &[u8], long: bool) -> Vec<u8> {
    let raw = deflate_stream(s, b);
    let mut v = vec![0x1f, 0x8b, 8];
    let flags = if s.bool() { 0 } else { (s.below(32) as u8) & 0x1f };
    v.push(flags);
    for _ in 0..4 {
        v.push(s.byte());
    }
    v.push(*s.pick(&[0, 2, 4]));
    v.push(*s.pick(&[3, 0, 255]));
    if flags & 4 != 0 {
        let n = if s.chance(1, 8) { if long && s.chance(1, 8) { s.range(400, 65535) } else { s.range(0, 400) } } else { s.range(0, 6) };
        v.extend_from_slice(&(n as u16).to_le_bytes());
        for i in 0..n {
            v.push(if i % 3 == 0 { 0 } else { i as u8 });
        }
    }
    if flags & 8 != 0 {
        v.extend(s.bytes_from(b"file.txt-_\xff", 0, 12));
        if long && s.chance(1, 60) {
            v.extend(crate::traffic::filler(s, 20_000));
        }
        v.push(0);
    }
    if flags & 16 != 0 {
        v.extend(s.bytes_from(b"a comment\x1f\x8b", 0, 12));
        if long && s.chance(1, 60) {
            v.extend(crate::traffic::filler(s, 20_000));
        }
        v.push(0);
    }
    if flags & 2 != 0 {
        v.push(s.byte());
        v.push(s.byte());
    }
    v.extend(raw);
    let mut crc = flate2::Crc::new();
    crc.update(b);
    v.extend_from_slice(&crc.sum().to_le_bytes());
    v.extend_from_slice(&(b.len() as u32).to_le_bytes());
    v
}
pub fn encode(s: &mut Src, e: Enc, b: &[u8]) -> Vec<u8> {
    match e {
        Enc::Gzip => gzip_wrapped(s, b),
        Enc::Deflate => deflate_stream(s, b),
        Enc::Zlib => {
            let level = s.below(10) as u32;
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
            write_pieces(s, &mut e, b);
            e.finish().unwrap()
        }
        Enc::Lzma => {
            let mut o = vec![];
            let unpacked_size = if s.bool() {
                lzma_rs::compress::UnpackedSize::WriteToHeader(None)
            } else {
                lzma_rs::compress::UnpackedSize::WriteToHeader(Some(b.len() as u64))
            };
            let opts = lzma_rs::compress::Options { unpacked_size };
            lzma_rs::lzma_compress_with_options(&mut std::io::Cursor::new(b), &mut o, &opts).unwrap();
            // the encoder only writes literals: any dictionary size is right
            let dict = *s.pick(&[1u32 << 23, 4096, 8192, 10_000, 1 << 16]);
            o[1..5].copy_from_slice(&dict.to_le_bytes());
            o
        }
    }
}
/// names: exact spelling only where several encodings are listed
fn name(s: &mut Src, e: Enc, alone: bool) -> Vec<u8> {
    let n = match e {
        Enc::Gzip => *s.pick(&["gzip", "gzip", "x-gzip"]),
        Enc::Deflate | Enc::Zlib => *s.pick(&["deflate", "deflate", "x-deflate"]),
        Enc::Lzma => "lzma",
    };
    if e == Enc::Lzma && !alone {
        return n.as_bytes().to_vec();
    }
    recase(s, n)
}

fn plain(s: &mut Src) -> Vec<u8> {
    let n = match s.below(8) {
        0..=3 => s.range(0, 60),
        4 | 5 => s.range(0, 2000),
        6 => s.range(8180, 8210) + 8192 * s.u(3),
        _ => s.range(0, 60_000),
    };
    match s.below(4) {
        0 => {
            // incompressible
            let mut r = Rng(s.below(1 << 40));
            (0..n).map(|_| r.next() as u8).collect()
        }
        1 => vec![s.byte(); n],
        _ => {
            let w = s.bytes_from(b"abcdefgh <>/0123456789\r\n", 1, 30);
            let mut r = Rng(s.below(1 << 40));
            (0..n).map(|i| if r.next() % 50 == 0 { b'~' } else { w[i % w.len()] }).collect()
        }
    }
}

pub struct Sent {
    pub c: Conn,
    pub got: Vec<u8>,
    pub st: Option<S>,
    pub wire: usize,
    pub pieces: usize,
}

/// Sends one exchange whose request or response has the given coded body, in random pieces.
fn send(s: &mut Src, case: &mut Case, cfg: htp::config::Config, req: bool, ce: &[Hdr], coded: &[u8]) -> Result<Sent, String> {
    let st = Style { big: false, trailers: false, ..Default::default() };
    let chunked = s.bool();
    let mut r = gen_req(s, &st, false);
    let mut p = gen_res(s, &Style { bodies: false, interim: false, ..st }, false, false);
    let set = |s: &mut Src, hs: &mut Vec<Hdr>, b: &mut Body, response: bool, eol: &mut Vec<u8>| {
        *eol = b"\r\n".to_vec();
        hs.retain(|h| !["content-length", "transfer-encoding", "content-encoding"].iter().any(|n| h.name.eq_ignore_ascii_case(n.as_bytes())));
        for h in ce {
            let at = s.range(0, hs.len());
            // several fields keep their order
            hs.insert(if ce.len() > 1 { hs.len() } else { at }, h.clone());
        }
        if chunked {
            *b = chunked_body(s, &st, coded.to_vec(), response);
            hs.push(Hdr::new(b"Transfer-Encoding", b"chunked"));
        } else if response && s.chance(1, 4) {
            *b = Body { kind: Kind::Close, data: coded.to_vec(), ..Body::none() };
        } else {
            *b = Body { kind: Kind::Cl, data: coded.to_vec(), ..Body::none() };
            hs.push(Hdr::new(b"Content-Length", coded.len().to_string().as_bytes()));
        }
    };
    if req {
        r.method = b"POST".to_vec();
        r.proto = b"HTTP/1.1".to_vec();
        set(s, &mut r.headers, &mut r.body, false, &mut r.eol);
    } else {
        r.method = b"GET".to_vec();
        p.code = 200;
        p.proto = b"HTTP/1.1".to_vec();
        set(s, &mut p.headers, &mut p.body, true, &mut p.eol);
    }
    r.serialize();
    p.serialize();
    let x = vec![Exchange { req: r, res: p }];
    let t = streams(&x);
    let ops = gen_schedule(s, &t, false);
    case.describe(|| show_ops(&ops));
    let pieces = ops.iter().filter(|o| if req { matches!(o, Op::Req(_)) } else { matches!(o, Op::Res(_)) }).count();
    let mut c = Conn::new(cfg);
    c.run(&ops);
    let ev = c.take_events();
    let got = data_of(&ev, if req { K::ReqBody } else { K::ResBody }, 0);
    let st = c.worst(req);
    let wire = if req { x[0].req.wire.body_wire } else { x[0].res.wire.body_wire };
    // the other direction is not disturbed
    if let Some(o) = c.worst(!req) {
        return Err(format!("the other direction answered {:?}", o));
    }
    Ok(Sent { c, got, st, wire, pieces })
}

fn short(b: &[u8]) -> String {
    if b.len() <= 80 { esc(b) } else { format!("{}... ({} bytes)", esc(&b[..60]), b.len()) }
}

fn p10(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let req = s.chance(1, 3);
    let body = plain(s);
    let n = *s.pick(&[1, 1, 1, 1, 2, 2, 3]);
    let encs: Vec<Enc> = (0..n)
        .map(|_| match s.below(if body.len() > 20_000 { 7 } else { 8 }) {
            0..=2 => Enc::Gzip,
            3 | 4 => Enc::Deflate,
            5 | 6 => Enc::Zlib,
            _ => Enc::Lzma,
        })
        .collect();
    let mut coded = body.clone();
    for e in &encs {
        coded = encode(s, *e, &coded);
    }
    // the kinds of deflate streams are told apart whichever is announced
    let told: Vec<Enc> = encs.iter().map(|e| if *e != Enc::Lzma && s.chance(1, 8) { *s.pick(&[Enc::Gzip, Enc::Deflate]) } else { *e }).collect();
    if told.iter().zip(&encs).any(|(t, e)| (*t == Enc::Gzip) != (*e == Enc::Gzip)) {
        case.label("announced as another");
    }
    let names: Vec<Vec<u8>> = told.iter().map(|e| name(s, *e, n == 1)).collect();
    // one field with a list, or one field per encoding
    let mut ce = vec![];
    let mut listed = n > 1;
    if n > 1 && s.chance(1, 4) {
        for x in &names {
            ce.push(Hdr::new(b"Content-Encoding", x));
        }
    } else {
        let sep: &[u8] = *s.pick(&[b", " as &[u8], b",", b" ", b" , ", b",,"]);
        let mut v = names.join(sep);
        if s.chance(1, 12) {
            // a no-op encoding in the list
            v.extend_from_slice(sep);
            v.extend_from_slice(*s.pick(&[b"none" as &[u8], b"inflate", b"identity"]));
            listed = true;
        }
        ce.push(Hdr::new(&recase(s, "Content-Encoding"), &v));
    }
    if encs.contains(&Enc::Lzma) && listed {
        // several encodings listed: spelled exactly
        for h in ce.iter_mut() {
            for p in h.pieces.iter_mut() {
                p.make_ascii_lowercase();
            }
        }
    }
    let mut cfg = base_config();
    let on = s.chance(7, 8);
    if req {
        cfg.set_request_decompression(on);
    } else {
        cfg.response_decompression_enabled = on;
    }
    cfg.compression_options.set_layer_limit(if s.bool() { None } else { Some(8) });
    cfg.compression_options.set_lzma_layers(if s.bool() { None } else { Some(3) });
    cfg.compression_options.set_lzma_memlimit(1 << 24);
    cfg.compression_options.set_bomb_limit(1 << 40);
    case.describe(|| format!("{} {:?} enabled={} plain {}", if req { "request" } else { "response" }, encs, on, short(&body)));
    // variations of a single layer
    let variation = if n == 1 && on { s.below(6) } else { 0 };
    let mut data = coded.clone();
    let mut whole = true;
    match variation {
        4 if data.len() > 1 => {
            // the stream ends early
            let k = s.range(0, data.len() - 1);
            data.truncate(k);
            whole = false;
            case.label("truncated");
        }
        5 if encs[0] == Enc::Gzip => {
            // bytes after the end are not part of the body
            data.extend(s.bytes_from(b"trailing garbage", 1, 20));
            case.label("bytes after the end");
        }
        _ => {}
    }
    let mut uncoded = false;
    if variation == 3 && told[0] != Enc::Lzma && encs[0] != Enc::Lzma && body.len() >= 20 && s.chance(1, 3) {
        // not coded at all, and cannot be taken for it
        data = body.clone();
        data[0] = *s.pick(b"\x06\x07fgnovw\xff\xfe");
        uncoded = true;
        case.label("announced and not coded");
    }
    let sent = send(s, case, cfg, req, &ce, &data)?;
    ensure_eq!(case, sent.st, None, "stream failed on a compressed body");
    let tx = sent.c.connp.tx(0).ok_or("missing transaction")?;
    let (entity, message, enc) = if req {
        (tx.request_entity_len, tx.request_message_len, tx.request_content_encoding)
    } else {
        (tx.response_entity_len, tx.response_message_len, tx.response_content_encoding)
    };
    let want: &[u8] = if on && !uncoded { &body } else { &data };
    if whole {
        ensure!(case, sent.got == want, "delivered {} instead of {}", short(&sent.got), short(want));
    } else {
        // all that can be decoded from what is there
        // (a few bytes do not tell what kind of stream it is)
        let sure = data.len() >= 8 || (told[0] == Enc::Gzip) == (encs[0] == Enc::Gzip) && encs[0] != Enc::Zlib;
        let can = if sure { decodable(encs[0], &data) } else { vec![] };
        ensure!(case, can.is_empty() || sent.got.len() >= can.len() && body.starts_with(&sent.got), "delivered {} of the {} bytes that can be decoded", sent.got.len(), can.len());
        // a decoder may not get past a cut header
        ensure!(case, body.starts_with(&sent.got) || data.starts_with(&sent.got), "delivered {} which is not a prefix of {}", short(&sent.got), short(&body));
    }
    ensure_eq!(case, entity, sent.got.len() as u64, "entity length");
    ensure_eq!(case, message, sent.wire as u64, "message length");
    if n == 1 && !listed {
        let e = match told[0] { Enc::Gzip => E::GZIP, Enc::Deflate | Enc::Zlib => E::DEFLATE, Enc::Lzma => E::LZMA };
        ensure_eq!(case, enc, e, "reported content encoding");
    }
    if on {
        // known names, as they are registered, are not odd
        let all: Vec<u8> = ce.iter().flat_map(|h| h.pieces.concat().into_iter().chain(*b",")).collect();
        let mut tokens = all.split(|c| *c == b',' || *c == b' ').filter(|t| !t.is_empty());
        let odd = tokens.any(|t| ![b"gzip" as &[u8], b"x-gzip", b"deflate", b"x-deflate", b"lzma", b"inflate", b"none"].contains(&t));
        let told = sent.c.connp.conn.get_logs().iter().any(|l| l.msg.code == htp::log::HtpLogCode::ABNORMAL_CE_HEADER);
        if !odd {
            ensure!(case, !told, "a content coding was called abnormal");
        } else if listed {
            ensure!(case, told, "no message about an odd content coding");
        }
    }
    case.nontrivial = body.len() >= 2 && sent.pieces >= 2;
    for e in &encs { case.label(&format!("{:?}", e)); }
    if n > 1 { case.label("several layers"); }
    if body.len() > 8192 { case.label("more than one output buffer"); }
    if !on { case.label("disabled"); }
    Ok(())
}

/// What the beginning of a coded stream decodes to.
fn decodable(e: Enc, b: &[u8]) -> Vec<u8> {
    let mut r: Box<dyn std::io::Read> = match e {
        Enc::Gzip => Box::new(flate2::read::GzDecoder::new(b)),
        Enc::Deflate => Box::new(flate2::read::DeflateDecoder::new(b)),
        Enc::Zlib => Box::new(flate2::read::ZlibDecoder::new(b)),
        Enc::Lzma => return vec![],
    };
    let mut out = vec![];
    let mut buf = [0; 64];
    while let Ok(n) = r.read(&mut buf) {
        if n == 0 {
            break;
        }
        out.extend_from_slice(&buf[..n]);
    }
    out
}

fn p11(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let req = s.chance(1, 3);
    let mut cfg = base_config();
    cfg.set_request_decompression(true);
    let (mut got_limit, kind) = (false, s.below(4));
    match kind {
        3 => {
            // bodies that go on: the limits hold after every piece, whatever length is announced
            let limit = match s.below(3) { 0 => s.range(0, 1000), 1 => s.range(0, 20_000), _ => s.range(0, 100_000) };
            let ratio = *s.pick(&[1u64, 2, 5, 20, 100, 1000]);
            cfg.compression_options.set_bomb_limit(limit as u64);
            cfg.compression_options.set_bomb_ratio(ratio);
            let len = s.range(0, 3 * limit + 60_000);
            let body = vec![b'a'; len];
            let e = *s.pick(&[Enc::Gzip, Enc::Deflate, Enc::Zlib]);
            let coded = encode(s, e, &body);
            let n = name(s, e, true);
            let extra = match s.below(4) { 0 => 0, 1 => s.range(1, 100), 2 => s.range(1, 1_000_000), _ => 1 << 40 };
            let open = !req && s.chance(1, 3);
            let announced = coded.len() + extra;
            let cl = if open { String::new() } else { format!("Content-Length: {}\r\n", announced) };
            case.describe(|| format!("{} {:?} plain {} coded {} {} limit {} ratio {}", if req { "request" } else { "response" }, e, len, coded.len(), if open { "to the end of the stream".into() } else { format!("announced as {}", announced) }, limit, ratio));
            let mut head = if req { b"POST / HTTP/1.1\r\nHost: a\r\nContent-Encoding: ".to_vec() } else { b"HTTP/1.1 200 OK\r\nContent-Encoding: ".to_vec() };
            head.extend_from_slice(&n);
            head.extend_from_slice(format!("\r\n{}\r\n", cl).as_bytes());
            let mut c = Conn::new(cfg);
            if !req { c.feed_req(b"GET / HTTP/1.1\r\nHost: a\r\n\r\n"); }
            if req { c.feed_req(&head); } else { c.feed_res(&head); }
            let mut at = 0;
            let step = s.range(1, coded.len().max(1));
            while at < coded.len() {
                let k = s.range(1, step).min(coded.len() - at);
                let piece = &coded[at..at + k];
                let st = if req { c.feed_req(piece) } else { c.feed_res(piece) };
                at += k;
                let tx = c.connp.tx(0).ok_or("missing transaction")?;
                let (entity, wire) = if req { (tx.request_entity_len, tx.request_message_len) } else { (tx.response_entity_len, tx.response_message_len) };
                ensure_eq!(case, wire, at as u64, "wire bytes counted");
                let allowed = (limit as u64).max(ratio * at as u64) + 8192;
                ensure!(case, entity <= allowed, "{} bytes delivered after {} wire bytes where {} are allowed", entity, at, allowed);
                if st == S::ERROR {
                    ensure!(case, entity > limit as u64 && entity > ratio * at as u64, "error after {} bytes delivered from {} although limit {} and ratio {} allow them", entity, at, limit, ratio);
                    got_limit = true;
                    case.label("bomb in an unfinished body");
                    break;
                }
            }
            let got = data_of(&c.events(), if req { K::ReqBody } else { K::ResBody }, 0);
            ensure!(case, body.starts_with(&got), "delivered data is not a prefix of the body");
            case.nontrivial = got_limit || len * 2 > limit;
        }
        0 | 1 => {
            // bomb limits
            let limit = match s.below(3) { 0 => s.range(0, 1000), 1 => s.range(0, 70_000), _ => s.range(0, 300_000) };
            let ratio = *s.pick(&[1u64, 2, 5, 20, 100, 1000]);
            let near = s.range(0, 2 * limit + 20_000);
            let len = if s.chance(1, 4) { s.range(0, 600_000) } else { near };
            let body = if s.chance(1, 4) { let mut r = Rng(s.below(1 << 40)); (0..len).map(|_| (r.next() % 17) as u8).collect() } else { vec![b'a'; len] };
            let e = *s.pick(&[Enc::Gzip, Enc::Deflate, Enc::Zlib]);
            let two = s.chance(1, 5);
            let mut coded = encode(s, e, &body);
            let (mut body, mut e) = (body, e);
            // what lzma keeps of its output until the end of the body
            let mut window = 0;
            if s.chance(1, 5) {
                // 4 MB are for the measuring of memory
                let bombs = crate::lzma_bombs::BOMBS;
                let k = s.range(0, bombs.len() - 3);
                let (n, b) = bombs[k];
                window = if k % 2 == 0 { 4096 } else { 65536 };
                body = vec![b'a'; n];
                coded = b.to_vec();
                e = Enc::Lzma;
                cfg.compression_options.set_lzma_layers(None);
            }
            let mut n = name(s, e, !two);
            if two {
                coded = encode(s, Enc::Gzip, &coded);
                n.extend_from_slice(b", gzip");
            }
            cfg.compression_options.set_bomb_limit(limit as u64);
            cfg.compression_options.set_bomb_ratio(ratio);
            case.describe(|| format!("{:?} plain {} coded {} limit {} ratio {}", e, body.len(), coded.len(), limit, ratio));
            let sent = send(s, case, cfg, req, &[Hdr::new(b"Content-Encoding", &n)], &coded)?;
            let tx = sent.c.connp.tx(0).ok_or("missing transaction")?;
            let entity = if req { tx.request_entity_len } else { tx.response_entity_len };
            ensure_eq!(case, entity, sent.got.len() as u64, "entity length");
            ensure!(case, body.starts_with(&sent.got), "delivered data is not a prefix of the body: {}", esc(&sent.got[..sent.got.len().min(300)]));
            // never much more than the limits allow (one output buffer of slack)
            let allowed = (limit as u64).max(ratio * sent.wire as u64) + 8192;
            ensure!(case, entity <= allowed, "{} bytes delivered where {} are allowed", entity, allowed);
            if body.len() as u64 <= limit as u64 {
                ensure_eq!(case, sent.st, None, "stream answer for a body within the limit");
                ensure!(case, sent.got == body, "a body within the limit is delivered: {} of {} bytes", sent.got.len(), body.len());
                case.label("within the limit");
            } else if body.len() as u64 > allowed && (body.len() as u64) <= allowed + window {
                // beyond the limits only at the end, where errors are ignored
                case.label("bomb at the end");
                got_limit = true;
            } else if body.len() as u64 > allowed {
                ensure_eq!(case, sent.st, Some(S::ERROR), "stream answer for a bomb");
                case.label("bomb");
                got_limit = true;
            } else if sent.st.is_none() && window == 0 {
                ensure!(case, sent.got == body, "no error but {} of {} bytes delivered", sent.got.len(), body.len());
            }
            case.nontrivial = got_limit || body.len() * 2 > limit;
        }
        _ => {
            // layers
            let body = body_of(s);
            let n = s.range(2, 5);
            let lzma = s.chance(1, 4);
            let e = if lzma { Enc::Lzma } else { Enc::Gzip };
            let mut layers = vec![body.clone()];
            for _ in 0..n {
                let c = encode(s, e, layers.last().unwrap());
                layers.push(c);
            }
            let limit = if s.chance(1, 5) { None } else { Some(s.range(1, 5) as u32) };
            let lz = if s.chance(1, 5) { None } else { Some(s.range(0, 4) as u32) };
            cfg.compression_options.set_layer_limit(limit);
            cfg.compression_options.set_lzma_layers(lz);
            let off = lzma && s.chance(1, 6);
            cfg.compression_options.set_lzma_memlimit(if off { 0 } else { 1 << 24 });
            let mut undone = n.min(limit.map(|x| x as usize).unwrap_or(n));
            if lzma {
                undone = undone.min(lz.map(|x| x as usize).unwrap_or(n));
                if off { undone = 0; }
            }
            let word: &[u8] = if lzma { b"lzma" } else { b"gzip" };
            let v = vec![word; n].join(&b", "[..]);
            case.describe(|| format!("{} x {:?}, layer limit {:?}, lzma layers {:?}, lzma off {}", n, e, limit, lz, off));
            let coded = layers.last().unwrap().clone();
            let sent = send(s, case, cfg, req, &[Hdr::new(b"Content-Encoding", &v)], &coded)?;
            ensure_eq!(case, sent.st, None, "stream answer");
            let want = &layers[n - undone];
            ensure!(case, &sent.got == want, "{} of {} layers should be undone: delivered {} instead of {}", undone, n, short(&sent.got), short(want));
            case.nontrivial = true;
            case.label(if undone < n { "more layers than allowed" } else { "all layers undone" });
        }
    }
    Ok(())
}
fn body_of(s: &mut Src) -> Vec<u8> {
    let n = s.range(1, 300);
    s.bytes_from(b"abcdef ", n, n)
}
