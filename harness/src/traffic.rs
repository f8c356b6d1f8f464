//! Generator of well-formed HTTP/1.x conversations that keeps the ground truth
//! of what was put on the wire, plus segmentation and interleaving of the two
//! directions.
use crate::drive::Op;
use crate::engine::*;

pub const METHODS: [&str; 26] = [
    "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "TRACE", "PATCH", "PROPFIND", "PROPPATCH",
    "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK", "VERSION-CONTROL", "CHECKOUT", "UNCHECKOUT",
    "CHECKIN", "UPDATE", "LABEL", "REPORT", "MKWORKSPACE", "MKACTIVITY", "BASELINE-CONTROL",
    "MERGE",
];
pub const TOKEN: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_!#$%&'*+.^`|~";
pub const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    None,
    Cl,
    Chunked,
    Close,
}

/// A header field as sent.
#[derive(Clone, Debug)]
pub struct Hdr {
    pub name: Vec<u8>,
    /// value pieces; more than one piece means the field is folded
    pub pieces: Vec<Vec<u8>>,
    pub pre: Vec<u8>,
    pub post: Vec<u8>,
    pub folds: Vec<Vec<u8>>,
}
impl Hdr {
    pub fn new(name: &[u8], value: &[u8]) -> Self {
        Hdr {
            name: name.to_vec(),
            pieces: vec![value.to_vec()],
            pre: b" ".to_vec(),
            post: vec![],
            folds: vec![],
        }
    }
    pub fn folded(&self) -> bool {
        self.pieces.len() > 1
    }
    /// Value with the line endings of its folds taken out.
    pub fn value(&self) -> Vec<u8> {
        let mut v = self.pieces[0].clone();
        for (p, f) in self.pieces[1..].iter().zip(&self.folds) {
            if !v.is_empty() { v.extend_from_slice(f); }
            v.extend_from_slice(p);
        }
        v
    }
    pub fn write(&self, out: &mut Vec<u8>, eol: &[u8]) {
        // a raw line has no name and carries its own text
        if !(self.name.is_empty() && self.folds.len() == 1 && self.pieces.len() == 1) {
            out.extend_from_slice(&self.name);
            out.push(b':');
        }
        out.extend_from_slice(&self.pre);
        for (i, p) in self.pieces.iter().enumerate() {
            if i > 0 {
                out.extend_from_slice(eol);
                out.extend_from_slice(&self.folds[i - 1]);
            }
            out.extend_from_slice(p);
        }
        out.extend_from_slice(&self.post);
        out.extend_from_slice(eol);
    }
}

/// One message as serialized.
#[derive(Clone, Debug, Default)]
pub struct Wire {
    pub bytes: Vec<u8>,
    /// positions where something interesting starts or ends
    pub marks: Vec<usize>,
    /// length of line + header section
    pub head: usize,
    /// header section bytes (after the line), including the blank line
    pub raw_headers: Vec<u8>,
    pub raw_trailer: Vec<u8>,
    /// bytes between the end of the header section and the end of the message,
    /// without the trailer section
    pub body_wire: usize,
}

#[derive(Clone, Debug)]
pub struct Body {
    pub kind: Kind,
    pub data: Vec<u8>,
    /// chunk sizes (sum = data.len())
    pub chunks: Vec<usize>,
    /// text of each chunk-size line (w/o eol), including the last one
    pub size_lines: Vec<Vec<u8>>,
    pub trailers: Vec<Hdr>,
}
impl Body {
    pub fn none() -> Self {
        Body { kind: Kind::None, data: vec![], chunks: vec![], size_lines: vec![], trailers: vec![] }
    }
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: Vec<u8>,
    pub uri: Vec<u8>,
    pub proto: Vec<u8>,
    pub headers: Vec<Hdr>,
    pub body: Body,
    pub eol: Vec<u8>,
    pub wire: Wire,
}

#[derive(Clone, Debug)]
pub struct Interim {
    pub headers: Vec<Hdr>,
    pub reason: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Res {
    pub interims: Vec<Interim>,
    pub proto: Vec<u8>,
    pub code: u16,
    pub reason: Vec<u8>,
    pub headers: Vec<Hdr>,
    pub body: Body,
    pub eol: Vec<u8>,
    pub wire: Wire,
    /// length of all interim responses on the wire
    pub interim_len: usize,
}

#[derive(Clone, Debug)]
pub struct Exchange {
    pub req: Req,
    pub res: Res,
}

#[derive(Clone, Copy)]
pub struct Style {
    pub max_exchanges: usize,
    /// allow LF-only line endings
    pub lf: bool,
    pub folds: bool,
    pub chunk_ext: bool,
    pub trailers: bool,
    pub interim: bool,
    pub big: bool,
    pub bodies: bool,
    pub close_delimited: bool,
}
impl Default for Style {
    fn default() -> Self {
        Style {
            max_exchanges: 4,
            lf: true,
            folds: true,
            chunk_ext: true,
            trailers: true,
            interim: true,
            big: true,
            bodies: true,
            close_delimited: true,
        }
    }
}

pub fn token(s: &mut Src, lo: usize, hi: usize) -> Vec<u8> {
    s.bytes_from(TOKEN, lo, hi)
}

fn value_piece(s: &mut Src, colon: bool) -> Vec<u8> {
    // visible characters, inner blanks, some high bytes
    let n = s.size(12, 60);
    if s.chance(1, 300) {
        // a long one
        let n = s.range(100, 6000);
        let mut r = Rng(s.below(1 << 32));
        return (0..n).map(|_| ALNUM[(r.next() % ALNUM.len() as u64) as usize]).collect();
    }
    let mut v: Vec<u8> = (0..n)
        .map(|_| match s.below(16) {
            0..=9 => *s.pick(ALNUM),
            10 => b' ',
            11 => *s.pick(b"\"(),/;<=>?@[]{}\\"),
            12 if colon => b':',
            13 => *s.pick(b"\t\x80\xa0\xe9\xff"),
            _ => *s.pick(TOKEN),
        })
        .collect();
    while matches!(v.first(), Some(b' ') | Some(b'\t')) {
        v.remove(0);
    }
    while matches!(v.last(), Some(b' ') | Some(b'\t')) {
        v.pop();
    }
    v
}

/// Many letters and digits from few choices.
pub fn filler(s: &mut Src, most: usize) -> Vec<u8> {
    let n = s.range(1, most);
    let mut r = Rng(s.below(1 << 32));
    (0..n).map(|_| ALNUM[(r.next() % ALNUM.len() as u64) as usize]).collect()
}

const EXTRA_NAMES: [&str; 8] = ["X-A", "Accept", "User-Agent", "Server", "Date", "Cookie", "x-a", "Via"];

pub fn extra_header(s: &mut Src, st: &Style) -> Hdr {
    let name = if s.chance(1, 3) {
        let mut n = b"X-".to_vec();
        n.extend(token(s, 1, 10));
        if s.chance(1, 300) {
            n.extend(filler(s, 3000));
        }
        n
    } else {
        s.pick(&EXTRA_NAMES).as_bytes().to_vec()
    };
    let mut h = Hdr::new(&name, b"");
    h.pieces = vec![value_piece(s, true)];
    if s.chance(1, 3) {
        h.pre = s.bytes_from(b" \t", 0, 3);
    }
    if s.chance(1, 5) {
        h.post = s.bytes_from(b" \t", 1, 3);
    }
    if st.folds && s.chance(1, 6) {
        // every piece of a folded field is non-empty and has no colon, so that a
        // continuation line can only be read as a continuation
        let k = s.range(2, 4);
        h.pieces = (0..k)
            .map(|i| {
                let mut p = value_piece(s, false);
                if i == 0 && s.chance(1, 8) {
                    // the value starts on the next line
                    return vec![];
                }
                if p.is_empty() {
                    p = b"v".to_vec();
                }
                if i + 1 < k && s.chance(1, 4) {
                    // white space in front of a fold stays
                    p.extend(s.bytes_from(b" \t", 1, 2));
                }
                p
            })
            .collect();
        h.folds = (1..k).map(|_| s.bytes_from(b" \t", 1, 3)).collect();
    }
    h
}

/// Randomize the case of a header name.
pub fn recase(s: &mut Src, n: &str) -> Vec<u8> {
    match s.below(4) {
        0 | 1 => n.as_bytes().to_vec(),
        2 => n.to_ascii_lowercase().into_bytes(),
        _ => n
            .bytes()
            .map(|b| if s.bool() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() })
            .collect(),
    }
}

pub fn body_bytes(s: &mut Src, st: &Style) -> Vec<u8> {
    let n = match s.below(12) {
        0..=8 => s.range(0, 40),
        9 | 10 => s.range(0, 300),
        _ => {
            if st.big && s.chance(1, 30) {
                s.range(0, 200_000)
            } else if st.big {
                s.range(0, 9000)
            } else {
                s.range(0, 300)
            }
        }
    };
    // bodies often look like protocol text, so that a framing mistake shows
    match s.below(4) {
        0 => (0..n).map(|i| b'a' + (i % 26) as u8).collect(),
        1 => {
            let t: &[u8] = *s.pick(&[
                &b"GET /evil HTTP/1.1\r\nHost: evil\r\n\r\n"[..],
                b"HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc",
                b"0\r\n\r\n",
                b"5\r\nhello\r\n",
                b"\r\n\r\n",
            ]);
            t.iter().cycle().take(n).copied().collect()
        }
        2 => {
            let mut r = Rng(s.below(1 << 32));
            (0..n).map(|_| r.next() as u8).collect()
        }
        _ => {
            let mut r = Rng(s.below(1 << 32));
            let a = b"\r\n 0a;:-\x00";
            (0..n).map(|_| a[(r.next() % a.len() as u64) as usize]).collect()
        }
    }
}

fn chunk_line(s: &mut Src, st: &Style, n: usize, response: bool) -> Vec<u8> {
    let mut l = if s.bool() { format!("{:x}", n) } else { format!("{:X}", n) }.into_bytes();
    if s.chance(1, 5) {
        let z = s.range(1, 3);
        let mut p = vec![b'0'; z];
        p.extend(l);
        l = p;
    }
    if st.chunk_ext && s.chance(1, 6) {
        l.extend_from_slice(b";");
        l.extend(s.bytes_from(ALNUM, 1, 5));
        if s.bool() {
            l.push(b'=');
            l.extend(s.bytes_from(ALNUM, 1, 5));
        }
    }
    let _ = response;
    l
}

pub fn chunked_body(s: &mut Src, st: &Style, data: Vec<u8>, response: bool) -> Body {
    let mut chunks = vec![];
    let mut left = data.len();
    let most = if s.chance(1, 50) { if s.chance(1, 10) { 3000 } else { 150 } } else { 8 };
    while left > 0 {
        let c = match s.below(4) {
            0 => left,
            1 => 1.min(left),
            _ => s.range(1, left.min(40)),
        };
        // keep the number of chunks small
        let c = if chunks.len() >= most { left } else { c };
        chunks.push(c);
        left -= c;
    }
    let mut size_lines: Vec<Vec<u8>> = chunks.iter().map(|c| chunk_line(s, st, *c, response)).collect();
    size_lines.push(chunk_line(s, st, 0, response));
    let trailers = if st.trailers && s.chance(1, 3) {
        (0..s.range(1, 2))
            .map(|_| {
                let mut h = extra_header(s, st);
                let mut n = b"T-".to_vec();
                n.extend_from_slice(&h.name);
                h.name = n;
                h
            })
            .collect()
    } else {
        vec![]
    };
    Body { kind: Kind::Chunked, data, chunks, size_lines, trailers }
}

fn write_message(line: &[u8], headers: &[Hdr], body: &Body, eol: &[u8]) -> Wire {
    let mut w = Wire::default();
    w.bytes.extend_from_slice(line);
    w.marks.push(w.bytes.len());
    w.bytes.extend_from_slice(eol);
    let hs = w.bytes.len();
    w.marks.push(hs);
    for h in headers {
        h.write(&mut w.bytes, eol);
        w.marks.push(w.bytes.len());
    }
    w.bytes.extend_from_slice(eol);
    w.head = w.bytes.len();
    w.marks.push(w.head);
    w.raw_headers = w.bytes[hs..].to_vec();
    match body.kind {
        Kind::None => {}
        Kind::Cl | Kind::Close => {
            w.bytes.extend_from_slice(&body.data);
            w.marks.push(w.bytes.len());
        }
        Kind::Chunked => {
            let mut pos = 0;
            for (i, c) in body.chunks.iter().enumerate() {
                w.bytes.extend_from_slice(&body.size_lines[i]);
                w.marks.push(w.bytes.len());
                w.bytes.extend_from_slice(eol);
                w.marks.push(w.bytes.len());
                w.bytes.extend_from_slice(&body.data[pos..pos + c]);
                pos += c;
                w.marks.push(w.bytes.len());
                w.bytes.extend_from_slice(eol);
                w.marks.push(w.bytes.len());
            }
            w.bytes.extend_from_slice(body.size_lines.last().unwrap());
            w.marks.push(w.bytes.len());
            w.bytes.extend_from_slice(eol);
            w.marks.push(w.bytes.len());
        }
    }
    w.body_wire = w.bytes.len() - w.head;
    if body.kind == Kind::Chunked {
        let ts = w.bytes.len();
        for h in &body.trailers {
            h.write(&mut w.bytes, eol);
            w.marks.push(w.bytes.len());
        }
        w.bytes.extend_from_slice(eol);
        w.marks.push(w.bytes.len());
        w.raw_trailer = w.bytes[ts..].to_vec();
    }
    w
}

impl Req {
    pub fn line(&self) -> Vec<u8> {
        let mut l = self.method.clone();
        l.push(b' ');
        l.extend_from_slice(&self.uri);
        l.push(b' ');
        l.extend_from_slice(&self.proto);
        l
    }
    pub fn serialize(&mut self) {
        self.wire = write_message(&self.line(), &self.headers, &self.body, &self.eol);
    }
}
impl Res {
    pub fn line(&self) -> Vec<u8> {
        let mut l = self.proto.clone();
        l.extend_from_slice(format!(" {}", self.code).as_bytes());
        l.push(b' ');
        l.extend_from_slice(&self.reason);
        l
    }
    pub fn serialize(&mut self) {
        let mut pre = vec![];
        let mut marks = vec![];
        for i in &self.interims {
            let mut l = b"HTTP/1.1 100 ".to_vec();
            l.extend_from_slice(&i.reason);
            let w = write_message(&l, &i.headers, &Body::none(), &self.eol);
            for m in &w.marks {
                marks.push(pre.len() + m);
            }
            pre.extend(w.bytes);
        }
        let mut w = write_message(&self.line(), &self.headers, &self.body, &self.eol);
        self.interim_len = pre.len();
        for m in w.marks.iter_mut() {
            *m += pre.len();
        }
        w.head += pre.len();
        let mut all = pre;
        all.extend(w.bytes);
        w.bytes = all;
        marks.extend(w.marks);
        w.marks = marks;
        self.wire = w;
    }
}

pub fn uri(s: &mut Src) -> Vec<u8> {
    const PC: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789-._~!$&'()*+,;=:@ABCXYZ";
    let mut u = vec![];
    if s.chance(1, 8) {
        u.extend_from_slice(b"http://");
        u.extend(s.bytes_from(b"abcdefghijklmnopqrstuvwxyz0123456789", 1, 10));
        u.extend_from_slice(b".example");
        if s.bool() {
            u.extend(format!(":{}", s.range(1, 65535)).into_bytes());
        }
    } else if s.chance(1, 30) {
        return b"*".to_vec();
    }
    for _ in 0..s.range(1, 3) {
        u.push(b'/');
        u.extend(s.bytes_from(PC, 0, 8));
        if s.chance(1, 6) {
            u.extend(format!("%{:02x}", s.below(256)).into_bytes());
        }
    }
    if s.chance(1, 400) {
        u.push(b'/');
        u.extend(filler(s, 5000));
    }
    if s.chance(1, 3) {
        u.push(b'?');
        if s.chance(1, 100) {
            u.extend(filler(s, 3000));
        }
        for i in 0..s.range(0, 3) {
            if i > 0 {
                u.push(b'&');
            }
            u.extend(s.bytes_from(ALNUM, 1, 5));
            u.push(b'=');
            u.extend(s.bytes_from(PC, 0, 8));
        }
    }
    u
}

pub fn eol(s: &mut Src, st: &Style) -> Vec<u8> {
    if st.lf && s.chance(1, 6) {
        b"\n".to_vec()
    } else {
        b"\r\n".to_vec()
    }
}

fn sprinkle(s: &mut Src, st: &Style, fixed: Vec<Hdr>, max_extra: usize) -> Vec<Hdr> {
    let mut v = fixed;
    if s.chance(1, 200) {
        // many fields, each name once
        let n = if s.chance(1, 10) { s.range(120, 1500) } else { s.range(8, 120) };
        v.extend((0..n).map(|i| Hdr::new(format!("N-{}", i).as_bytes(), format!("{}", i * i).as_bytes())));
    }
    for _ in 0..s.range(0, max_extra) {
        let h = extra_header(s, st);
        let at = s.range(0, v.len());
        v.insert(at, h);
    }
    v
}

pub fn gen_req(s: &mut Src, st: &Style, first: bool) -> Req {
    let method = if first && s.chance(1, 12) {
        let mut m = token(s, 1, 8);
        // a connection method would open a tunnel: not part of this domain
        if m == b"CONNECT" {
            m = b"X".to_vec();
        }
        m
    } else {
        match s.below(4) {
            0 => b"GET".to_vec(),
            1 => b"POST".to_vec(),
            _ => s.pick(&METHODS).as_bytes().to_vec(),
        }
    };
    let eol = eol(s, st);
    let kind = if !st.bodies {
        Kind::None
    } else {
        *s.pick(&[Kind::None, Kind::Cl, Kind::Chunked])
    };
    let mut proto = b"HTTP/1.1".to_vec();
    let mut body = Body::none();
    let mut fixed = vec![];
    if s.chance(9, 10) {
        let n = recase(s, "Host");
        fixed.push(Hdr::new(&n, b"www.example.com"));
    }
    match kind {
        Kind::Cl => {
            let data = body_bytes(s, st);
            let n = recase(s, "Content-Length");
            fixed.push(Hdr::new(&n, data.len().to_string().as_bytes()));
            body = Body { kind: Kind::Cl, data, ..Body::none() };
        }
        Kind::Chunked => {
            let data = body_bytes(s, st);
            body = chunked_body(s, st, data, false);
            let n = recase(s, "Transfer-Encoding");
            let v = recase(s, "chunked");
            fixed.push(Hdr::new(&n, &v));
        }
        _ => {
            if s.chance(1, 8) {
                proto = b"HTTP/1.0".to_vec();
            }
        }
    }
    let headers = sprinkle(s, st, fixed, 4);
    let mut r = Req { method, uri: uri(s), proto, headers, body, eol, wire: Wire::default() };
    r.serialize();
    r
}

const CODES: [u16; 14] = [200, 200, 200, 201, 204, 206, 301, 302, 304, 400, 404, 407, 500, 599];

pub fn reason(s: &mut Src) -> Vec<u8> {
    match s.below(4) {
        0 => b"OK".to_vec(),
        1 => b"Not Modified or so".to_vec(),
        _ => {
            let mut v = s.bytes_from(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ '-.", 1, 12);
            while matches!(v.first(), Some(b' ')) {
                v.remove(0);
            }
            while matches!(v.last(), Some(b' ')) {
                v.pop();
            }
            if v.is_empty() {
                v.push(b'R');
            }
            v
        }
    }
}

pub fn gen_res(s: &mut Src, st: &Style, head_request: bool, last: bool) -> Res {
    let eol = eol(s, st);
    let mut interims = vec![];
    if st.interim && s.chance(1, 6) {
        let hs = sprinkle(s, st, vec![], 2);
        interims.push(Interim { headers: hs, reason: b"Continue".to_vec() });
    }
    let code = if s.chance(1, 4) { s.range(200, 599) as u16 } else { *s.pick(&CODES) };
    let mut body = Body::none();
    let mut fixed = vec![];
    let bodyless = head_request || code == 204 || code == 304;
    if bodyless {
        // a response to HEAD may announce a length it does not send
        if head_request && s.bool() {
            if s.bool() {
                let v = s.range(0, 5000).to_string();
                fixed.push(Hdr::new(b"Content-Length", v.as_bytes()));
            } else {
                fixed.push(Hdr::new(b"Transfer-Encoding", b"chunked"));
            }
        }
    } else {
        let kinds: &[Kind] = if last && st.close_delimited {
            &[Kind::Cl, Kind::Chunked, Kind::Close]
        } else {
            &[Kind::Cl, Kind::Chunked]
        };
        let kind = if st.bodies { *s.pick(kinds) } else { Kind::Cl };
        let mut data = if st.bodies { body_bytes(s, st) } else { vec![] };
        // LF CR is an accepted line ending in responses, so a body starting with
        // CR after a bare LF would be ambiguous
        if eol == b"\n" && data.first() == Some(&b'\r') {
            data[0] = b'r';
        }
        match kind {
            Kind::Cl => {
                let n = recase(s, "Content-Length");
                fixed.push(Hdr::new(&n, data.len().to_string().as_bytes()));
                body = Body { kind, data, ..Body::none() };
            }
            Kind::Chunked => {
                body = chunked_body(s, st, data, true);
                let n = recase(s, "Transfer-Encoding");
                let v = recase(s, "chunked");
                fixed.push(Hdr::new(&n, &v));
            }
            _ => {
                body = Body { kind: Kind::Close, data, ..Body::none() };
            }
        }
    }
    // browsers read what a server announces and sends, even where the status says there is no body;
    // an answer 100 that announces a body is not an interim one
    let announced = body.kind == Kind::Chunked || (body.kind == Kind::Cl && !body.data.is_empty());
    let code = if announced && s.chance(1, 16) { *s.pick(&[204u16, 304, 100, 101, 102, 103, 150, 199]) } else { code };
    let proto = if body.kind != Kind::Chunked && s.chance(1, 8) {
        b"HTTP/1.0".to_vec()
    } else {
        b"HTTP/1.1".to_vec()
    };
    let headers = sprinkle(s, st, fixed, 4);
    let mut r = Res {
        interims,
        proto,
        code,
        reason: reason(s),
        headers,
        body,
        eol,
        wire: Wire::default(),
        interim_len: 0,
    };
    r.serialize();
    r
}

pub fn gen_conversation(s: &mut Src, st: &Style) -> Vec<Exchange> {
    let n = if st.max_exchanges > 2 && s.chance(1, 150) {
        if s.chance(1, 40) { s.range(24, 400) } else { s.range(1, 24) }
    } else {
        s.range(1, st.max_exchanges)
    };
    let small = Style { big: false, ..st.clone() };
    let st = if n > 24 { &small } else { st };
    (0..n)
        .map(|i| {
            let req = gen_req(s, st, i == 0);
            let head = req.method == b"HEAD";
            let res = gen_res(s, st, head, i + 1 == n);
            Exchange { req, res }
        })
        .collect()
}

/// Cut points for a stream: strictly increasing, within (0, len).
pub fn gen_cuts(s: &mut Src, len: usize, marks: &[usize]) -> Vec<usize> {
    if len <= 1 {
        return vec![];
    }
    let middle = [len / 2];
    let marks = if marks.is_empty() { &middle } else { marks };
    let mut v: Vec<usize> = match s.below(8) {
        0 => vec![],
        1 if len <= 4000 => (1..len).collect(),
        2 | 3 => {
            // near interesting places
            (0..s.range(1, 6))
                .filter_map(|_| {
                    let m = *s.pick(marks) as i64 + s.below(5) as i64 - 2;
                    Some(m.clamp(1, len as i64 - 1) as usize)
                })
                .collect()
        }
        4 => marks.iter().copied().filter(|m| *m > 0 && *m < len).collect(),
        5 => {
            // fixed-size segments
            let k = s.range(1, 64);
            if len / k > 4000 {
                vec![]
            } else {
                (1..).map(|i| i * k).take_while(|x| *x < len).collect()
            }
        }
        6 => {
            // one byte before / after every line end
            let d = s.below(2) as usize;
            marks
                .iter()
                .filter_map(|m| {
                    let x = if d == 0 { m.checked_sub(1)? } else { m + 1 };
                    (x > 0 && x < len).then_some(x)
                })
                .collect()
        }
        _ => (0..s.range(1, 8)).map(|_| s.range(1, len - 1)).collect(),
    };
    v.sort();
    v.dedup();
    v
}

pub struct Streams {
    pub req: Vec<u8>,
    pub res: Vec<u8>,
    pub req_marks: Vec<usize>,
    pub res_marks: Vec<usize>,
    /// end offset of each request / response
    pub req_end: Vec<usize>,
    pub req_head_end: Vec<usize>,
    pub res_end: Vec<usize>,
}

pub fn streams(x: &[Exchange]) -> Streams {
    let mut st = Streams {
        req: vec![],
        res: vec![],
        req_marks: vec![],
        res_marks: vec![],
        req_end: vec![],
        req_head_end: vec![],
        res_end: vec![],
    };
    for e in x {
        let b = st.req.len();
        st.req_marks.extend(e.req.wire.marks.iter().map(|m| m + b));
        st.req.extend_from_slice(&e.req.wire.bytes);
        st.req_end.push(st.req.len());
        st.req_head_end.push(b + e.req.wire.head);
        let b = st.res.len();
        st.res_marks.extend(e.res.wire.marks.iter().map(|m| m + b));
        st.res.extend_from_slice(&e.res.wire.bytes);
        st.res_end.push(st.res.len());
    }
    st
}

fn pieces(b: &[u8], cuts: &[usize]) -> Vec<(usize, Vec<u8>)> {
    let mut v = vec![];
    let mut p = 0;
    for c in cuts.iter().copied().chain([b.len()]) {
        if c > p {
            v.push((c, b[p..c].to_vec()));
            p = c;
        }
    }
    v
}

/// How the two directions are interleaved.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    /// all requests first
    ReqFirst,
    /// strictly alternating: response as soon as its request is complete
    Eager,
    /// random, respecting causality
    Random,
}

/// Interleave so that no byte of response i is delivered before request i was
/// delivered completely (or, with `early`, before its head was delivered).
pub fn schedule(
    s: &mut Src,
    st: &Streams,
    req_cuts: &[usize],
    res_cuts: &[usize],
    order: Order,
    early: bool,
) -> Vec<Op> {
    let rq = pieces(&st.req, req_cuts);
    let rs = pieces(&st.res, res_cuts);
    let ends = if early { &st.req_head_end } else { &st.req_end };
    let mut ops = vec![];
    let (mut i, mut j) = (0, 0);
    let mut sent = 0;
    while i < rq.len() || j < rs.len() {
        let res_ok = j < rs.len() && {
            // exchange of the last byte of this piece
            let last = rs[j].0 - 1;
            let ex = st.res_end.iter().position(|e| last < *e).unwrap();
            sent >= ends[ex]
        };
        let take_res = if i >= rq.len() {
            true
        } else if !res_ok {
            false
        } else {
            match order {
                Order::ReqFirst => false,
                Order::Eager => true,
                Order::Random => s.bool(),
            }
        };
        if take_res {
            ops.push(Op::Res(rs[j].1.clone()));
            j += 1;
        } else {
            sent = rq[i].0;
            ops.push(Op::Req(rq[i].1.clone()));
            i += 1;
        }
    }
    ops
}

/// Fully segmented, interleaved conversation ending in a close.
pub fn gen_schedule(s: &mut Src, st: &Streams, early: bool) -> Vec<Op> {
    let rc = gen_cuts(s, st.req.len(), &st.req_marks);
    let sc = gen_cuts(s, st.res.len(), &st.res_marks);
    let order = *s.pick(&[Order::Eager, Order::ReqFirst, Order::Random]);
    let mut ops = schedule(s, st, &rc, &sc, order, early);
    ops.push(Op::Close);
    ops
}
