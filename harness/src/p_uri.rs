//! P17-P20: request targets, path decoding and normalisation, UTF-8, query parameters.
use crate::bestfit::BESTFIT;
use crate::drive::*;
use crate::engine::*;
use crate::gen::*;
use crate::traffic::recase;
use htp::config::{Config, DecoderConfig, HtpServerPersonality, HtpUnwanted, HtpUrlEncodingHandling as Inv};
use htp::transaction::{Param, Transaction};
use htp::util::HtpFlags as F;
use std::cell::RefCell;

pub static PROPS: &[Prop] = &[
    Prop {
        id: "P17",
        rule: "requests with generated targets (origin and absolute form, CONNECT authorities); non-trivial when the target has an authority or a query or fragment",
        run: p17,
        quick: 3_000_000,
    },
    Prop {
        id: "P18",
        rule: "requests with generated encoded paths under random decoder settings; non-trivial when the path has an encoding, backslash, control byte, double separator or dot segment",
        run: p18,
        quick: 4_000_000,
    },
    Prop {
        id: "P19",
        rule: "requests whose path has bytes above 0x7f (valid, overlong, truncated and broken UTF-8, raw or percent-encoded) under random settings; non-trivial when such a byte is present",
        run: p19,
        quick: 4_000_000,
    },
    Prop {
        id: "P20",
        rule: "query strings of generated parameters through a request and through the parser in pieces; non-trivial when 2 or more parameters are present",
        run: p20,
        quick: 3_000_000,
    },
];

type St = HtpUnwanted;
const IGN: St = HtpUnwanted::IGNORE;

fn bestfit(cfg: &DecoderConfig, cp: u32) -> u8 {
    match BESTFIT.binary_search_by_key(&cp, |x| x.0) {
        Ok(i) => BESTFIT[i].1,
        Err(_) => cfg.bestfit_map.replacement_byte,
    }
}
/// What "%xx" means when the two characters need not be hexadecimal digits.
fn x2c(a: u8, b: u8) -> u8 {
    let d = |c: u8| if c >= b'A' { (c & 0xdf).wrapping_sub(b'A').wrapping_add(10) } else { c.wrapping_sub(b'0') };
    d(a).wrapping_mul(16).wrapping_add(d(b))
}
fn hex(b: &[u8], n: usize) -> bool {
    b.len() >= n && b[..n].iter().all(|c| c.is_ascii_hexdigit())
}
fn upd(st: &mut St, x: St) {
    if x != IGN {
        *st = x;
    }
}

/// Reference decoder of paths.
pub fn path_model(p: &[u8], c: &DecoderConfig) -> (Vec<u8>, u64, St) {
    let (mut out, mut fl, mut st) = (vec![], 0u64, IGN);
    let mut i = 0;
    while i < p.len() {
        let (mut b, mut adv, mut put) = (p[i], 1, true);
        if b == b'%' {
            let r = &p[i + 1..];
            let invalid = |fl: &mut u64, st: &mut St| {
                *fl |= F::PATH_INVALID_ENCODING;
                upd(st, c.url_encoding_invalid_unwanted);
            };
            if !r.is_empty() && (r[0] | 0x20) == b'u' {
                if c.u_encoding_decode {
                    let whole = r.len() >= 5;
                    let good = whole && hex(&r[1..], 4);
                    if !good {
                        invalid(&mut fl, &mut st);
                        put = c.url_encoding_invalid_handling != Inv::REMOVE_PERCENT;
                    }
                    if good || whole && c.url_encoding_invalid_handling == Inv::PROCESS_INVALID {
                        let (c1, c2) = (x2c(r[1], r[2]), x2c(r[3], r[4]));
                        adv = 6;
                        if c1 == 0 {
                            b = c2;
                            fl |= F::PATH_OVERLONG_U;
                        } else {
                            if c1 == 0xff {
                                fl |= F::PATH_HALF_FULL_RANGE;
                            }
                            b = bestfit(c, (c1 as u32) << 8 | c2 as u32);
                            upd(&mut st, c.u_encoding_unwanted);
                        }
                        if good {
                            upd(&mut st, c.u_encoding_unwanted);
                        }
                        if b == b'/' || c.backslash_convert_slashes && b == b'\\' {
                            fl |= F::PATH_ENCODED_SEPARATOR;
                        }
                        if good && b == 0 {
                            fl |= F::PATH_ENCODED_NUL;
                            upd(&mut st, c.nul_encoded_unwanted);
                            if c.nul_encoded_terminates {
                                break;
                            }
                        }
                    }
                }
            } else if hex(r, 2) {
                b = x2c(r[0], r[1]);
                adv = 3;
                if b == 0 {
                    fl |= F::PATH_ENCODED_NUL;
                    upd(&mut st, c.nul_encoded_unwanted);
                    if c.nul_encoded_terminates {
                        break;
                    }
                }
                if b == b'/' || c.backslash_convert_slashes && b == b'\\' {
                    fl |= F::PATH_ENCODED_SEPARATOR;
                    if !c.path_separators_decode {
                        b = b'%';
                        adv = 1;
                    }
                }
            } else {
                invalid(&mut fl, &mut st);
                put = c.url_encoding_invalid_handling != Inv::REMOVE_PERCENT;
                if r.len() >= 2 && c.url_encoding_invalid_handling == Inv::PROCESS_INVALID {
                    b = x2c(r[0], r[1]);
                    adv = 3;
                }
            }
        } else if b == 0 {
            upd(&mut st, c.nul_raw_unwanted);
            if c.nul_raw_terminates {
                break;
            }
        }
        i += adv;
        if !put {
            continue;
        }
        if b < 0x20 {
            upd(&mut st, c.control_chars_unwanted);
        }
        if b == b'\\' && c.backslash_convert_slashes {
            b = b'/';
        }
        if c.convert_lowercase {
            b = b.to_ascii_lowercase();
        }
        if b == b'/' && c.path_separators_compress && out.last() == Some(&b'/') {
            continue;
        }
        out.push(b);
    }
    (out, fl, st)
}

/// Reference UTF-8 conversion.
pub fn utf8_model(p: &[u8], c: &DecoderConfig) -> (Vec<u8>, u64) {
    let rep = c.bestfit_map.replacement_byte;
    let (mut out, mut fl, mut good) = (vec![], 0u64, false);
    let mut i = 0;
    'next: while i < p.len() {
        let b = p[i];
        let n = match b {
            0..=0x7f => 1,
            0xc0..=0xdf => 2,
            0xe0..=0xef => 3,
            0xf0..=0xf4 => 4,
            _ => 0,
        };
        if n == 1 {
            out.push(b);
            i += 1;
            continue;
        }
        if n == 0 {
            fl |= F::PATH_UTF8_INVALID;
            out.push(rep);
            i += 1;
            continue;
        }
        let mut cp = (b as u32) & (0x7f >> n);
        for k in 1..n {
            if i + k >= p.len() {
                // cut short by the end
                for _ in 1..k {
                    out.push(rep);
                }
                break 'next;
            }
            let d = p[i + k];
            let top = match (b, k) {
                (0xed, 1) => 0x9f,
                (0xf4, 1) => 0x8f,
                _ => 0xbf,
            };
            if !(0x80..=top).contains(&d) {
                fl |= F::PATH_UTF8_INVALID;
                out.push(rep);
                i += k;
                continue 'next;
            }
            cp = cp << 6 | (d as u32 & 0x3f);
        }
        i += n;
        good = true;
        if cp < [0, 0, 0x80, 0x800, 0x10000][n] {
            fl |= F::PATH_UTF8_OVERLONG;
        }
        if (0xff00..=0xffef).contains(&cp) {
            fl |= F::PATH_HALF_FULL_RANGE;
        }
        out.push(if cp < 0x100 { cp as u8 } else { bestfit(c, cp) });
    }
    if good && fl & F::PATH_UTF8_INVALID == 0 {
        fl |= F::PATH_UTF8_VALID;
    }
    (out, fl)
}

/// Reference dot segment removal.
pub fn dots_model(p: &[u8]) -> Vec<u8> {
    let mut st: Vec<&[u8]> = vec![];
    for seg in p.split(|c| *c == b'/') {
        if seg == b"." {
        } else if seg == b".." {
            // never above the root
            if !(st.len() == 1 && st[0].is_empty()) {
                st.pop();
            }
        } else {
            st.push(seg);
        }
    }
    st.join(&b'/')
}

/// Reference decoder of everything but paths. URLEN flags.
pub fn param_model(p: &[u8], c: &DecoderConfig) -> (Vec<u8>, u64, St) {
    let (mut out, mut fl, mut st) = (vec![], 0u64, IGN);
    let mut i = 0;
    while i < p.len() {
        let (mut b, mut adv, mut put) = (p[i], 1, true);
        if b == b'%' {
            let r = &p[i + 1..];
            let h = c.url_encoding_invalid_handling;
            if !r.is_empty() && (r[0] | 0x20) == b'u' {
                if c.u_encoding_decode {
                    let whole = r.len() >= 5;
                    let good = whole && hex(&r[1..], 4);
                    if !good {
                        fl |= F::URLEN_INVALID_ENCODING;
                        if whole && c.url_encoding_invalid_unwanted == IGN {
                            upd(&mut st, c.u_encoding_unwanted);
                        }
                        upd(&mut st, c.url_encoding_invalid_unwanted);
                        put = h != Inv::REMOVE_PERCENT;
                    } else {
                        upd(&mut st, c.u_encoding_unwanted);
                    }
                    if good || whole && h == Inv::PROCESS_INVALID {
                        let (c1, c2) = (x2c(r[1], r[2]), x2c(r[3], r[4]));
                        adv = 6;
                        if c1 == 0 {
                            b = c2;
                            fl |= F::URLEN_OVERLONG_U;
                        } else {
                            if c1 == 0xff && c2 <= 0xef {
                                fl |= F::URLEN_HALF_FULL_RANGE;
                            }
                            b = bestfit(c, (c1 as u32) << 8 | c2 as u32);
                        }
                    }
                }
            } else if hex(r, 2) {
                b = x2c(r[0], r[1]);
                adv = 3;
            } else {
                fl |= F::URLEN_INVALID_ENCODING;
                upd(&mut st, c.url_encoding_invalid_unwanted);
                put = h != Inv::REMOVE_PERCENT;
                if r.len() >= 2 && h == Inv::PROCESS_INVALID {
                    b = x2c(r[0], r[1]);
                    adv = 3;
                }
            }
            if b == 0 {
                fl |= F::URLEN_ENCODED_NUL;
                upd(&mut st, c.nul_encoded_unwanted);
                if c.nul_encoded_terminates {
                    break;
                }
            }
        } else if b == b'+' {
            if c.plusspace_decode {
                b = b' ';
            }
        } else if b == 0 {
            fl |= F::URLEN_RAW_NUL;
            upd(&mut st, c.nul_raw_unwanted);
            if c.nul_raw_terminates {
                break;
            }
        }
        i += adv;
        if put {
            out.push(b);
        }
    }
    (out, fl, st)
}
/// The same with the flags of the path.
fn part_model(p: &[u8], c: &DecoderConfig, fl: &mut u64) -> Vec<u8> {
    let (o, f, _) = param_model(p, c);
    if f & F::URLEN_INVALID_ENCODING != 0 {
        *fl |= F::PATH_INVALID_ENCODING;
    }
    if f & F::URLEN_ENCODED_NUL != 0 {
        *fl |= F::PATH_ENCODED_NUL;
    }
    if f & F::URLEN_RAW_NUL != 0 {
        *fl |= F::PATH_RAW_NUL;
    }
    o
}

pub fn valid_host(h: &[u8]) -> bool {
    if h.is_empty() || h.len() > 255 {
        return false;
    }
    if h[0] == b'[' {
        return h.len() > 2
            && h[h.len() - 1] == b']'
            && std::str::from_utf8(&h[1..h.len() - 1]).map(|a| a.parse::<std::net::Ipv6Addr>().is_ok()).unwrap_or(false);
    }
    let labels: Vec<&[u8]> = h.split(|c| *c == b'.').collect();
    let n = labels.len();
    labels.iter().enumerate().all(|(i, l)| {
        // one dot at the end is fine
        (!l.is_empty() || i == n - 1 && n > 1) && l.len() <= 63 && l.iter().all(|c| c.is_ascii_alphanumeric() || b"_-".contains(c))
    })
}
pub fn port_of(p: &[u8]) -> Option<u16> {
    if p.is_empty() || !p.iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v: u64 = 0;
    for c in p {
        v = (v * 10 + (*c - b'0') as u64).min(1 << 40);
    }
    if v >= 1 && v <= 65535 { Some(v as u16) } else { None }
}

const PATH_FLAGS: u64 = F::PATH_ENCODED_NUL
    | F::PATH_RAW_NUL
    | F::PATH_INVALID_ENCODING
    | F::PATH_INVALID
    | F::PATH_OVERLONG_U
    | F::PATH_ENCODED_SEPARATOR
    | F::PATH_UTF8_VALID
    | F::PATH_UTF8_INVALID
    | F::PATH_UTF8_OVERLONG
    | F::PATH_HALF_FULL_RANGE;

#[derive(Default, Clone, Debug)]
struct Target {
    scheme: Option<Vec<u8>>,
    user: Option<Vec<u8>>,
    pass: Option<Vec<u8>>,
    host: Option<Vec<u8>>,
    /// as sent, possibly empty
    port: Option<Vec<u8>>,
    path: Option<Vec<u8>>,
    query: Option<Vec<u8>>,
    frag: Option<Vec<u8>>,
}
impl Target {
    fn bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        if let Some(s) = &self.scheme {
            v.extend_from_slice(s);
            v.extend_from_slice(b"://");
            if let Some(u) = &self.user {
                v.extend_from_slice(u);
                if let Some(p) = &self.pass {
                    v.push(b':');
                    v.extend_from_slice(p);
                }
                v.push(b'@');
            }
            if let Some(h) = &self.host {
                v.extend_from_slice(h);
            }
            if let Some(p) = &self.port {
                v.push(b':');
                v.extend_from_slice(p);
            }
        }
        if let Some(p) = &self.path {
            v.extend_from_slice(p);
        }
        if let Some(q) = &self.query {
            v.push(b'?');
            v.extend_from_slice(q);
        }
        if let Some(f) = &self.frag {
            v.push(b'#');
            v.extend_from_slice(f);
        }
        v
    }
}

/// Bytes that can stand inside a request target without ending it.
fn text(s: &mut Src, not: &[u8], lo: usize, hi: usize) -> Vec<u8> {
    let n = if hi >= 8 && s.chance(1, 500) { s.range(hi, 2500) } else { s.range(lo, hi) };
    (0..n)
        .map(|_| {
            let b = match s.below(12) {
                0 => s.byte(),
                1 => *s.pick(b"%+&=;@:?#[]/\\.~!$'()*,"),
                _ => *s.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789-_."),
            };
            if b == b' ' || (9..=13).contains(&b) || b == 0 || not.contains(&b) { b'x' } else { b }
        })
        .collect()
}
fn enc(s: &mut Src, c: u8) -> Vec<u8> {
    if s.bool() { format!("%{:02x}", c).into_bytes() } else { format!("%{:02X}", c).into_bytes() }
}

pub fn host(s: &mut Src) -> Vec<u8> {
    match s.below(10) {
        0..=3 => {
            let n = s.range(1, 3);
            let v: Vec<Vec<u8>> = (0..n).map(|_| s.bytes_from(b"abcXYZ019-_", 1, 6)).collect();
            v.join(&b'.')
        }
        4 => s.pick(&[b"[::1]" as &[u8], b"[2001:db8::A]", b"[::ffff:1.2.3.4]", b"[x]", b"[1:2]", b"[::g]", b"[1:2:3:4:5:6:7:8]", b"[1:2:3:4:5:6:7:8:9]", b"[fe80::1%25eth0]"]).to_vec(),
        5 => s.pick(&[b"127.0.0.1" as &[u8], b"localhost", b"EXAMPLE.com", b"a..b", b".a", b"a.", b"a...", b"-", b"_x", b"a b".get(0..1).unwrap(), b"999.999.1.1", b"x!", b"a,b", b"%61b.c", b"h%2ec", b"h%", b"h\xe9", b"\xb5", b"a%00b"]).to_vec(),
        6 => {
            let n = *s.pick(&[62usize, 63, 64, 65]);
            let mut v = vec![b'a'; n];
            if s.bool() {
                v.extend_from_slice(b".com");
            }
            v
        }
        7 => {
            // around the length limit
            let n = s.range(250, 260);
            let mut v = vec![];
            while v.len() < n {
                v.extend(vec![b'a'; 50.min(n - v.len())]);
                if v.len() < n { v.push(b'.'); }
            }
            v.truncate(n);
            v
        }
        _ => text(s, b"/?#:@[", 1, 12),
    }
}
pub fn port(s: &mut Src) -> Vec<u8> {
    match s.below(8) {
        0..=2 => s.range(1, 65535).to_string().into_bytes(),
        3 => s.pick(&[b"0" as &[u8], b"1", b"65535", b"65536", b"00080", b"99999", b"0000000000000000000080", b"18446744073709551617", b"4294967376", b"000"]).to_vec(),
        4 => s.pick(&[b"+80" as &[u8], b"-1", b"8a", b"x", b"80:90", b"8.0", b"0x50", b"\xb2", b"8_0"]).to_vec(),
        5 => vec![],
        _ => s.bytes_from(b"0123456789", 1, 6),
    }
}

fn gen_target(s: &mut Src) -> Target {
    let mut t = Target::default();
    if s.chance(3, 5) {
        t.scheme = Some(match s.below(5) { 0 => text(s, b":/", 1, 6), 1 => recase(s, "https"), _ => recase(s, "http") });
        if s.chance(1, 3) {
            let u = text(s, b"/?#:@", 0, 8);
            if s.bool() {
                t.pass = Some(text(s, b"/?#@", 0, 8));
            }
            t.user = Some(u);
        }
        t.host = Some(host(s));
        if s.chance(1, 16) {
            // a bracket that is never closed reaches up to the end of the authority
            t.host = Some([b"[" as &[u8], &s.bytes_from(b"0123456789abcdef:::.%", 1, 8)].concat());
            t.user = None;
            t.pass = None;
        } else if s.chance(2, 5) {
            t.port = Some(port(s));
        }
        if s.chance(4, 5) {
            let mut p = text(s, b"?#", 0, 12);
            p.insert(0, b'/');
            t.path = Some(p);
        }
    } else {
        let mut p = text(s, b"?#", 0, 16);
        p.insert(0, b'/');
        t.path = Some(p);
    }
    if s.chance(2, 5) {
        t.query = Some(text(s, b"#", 0, 14));
    }
    if s.chance(1, 4) {
        t.frag = Some(text(s, b"", 0, 10));
    }
    t
}

fn config(s: &mut Src) -> Config {
    let mut cfg = base_config();
    match s.below(4) {
        0 => {}
        1 => {
            let p = *s.pick(&PERSONALITIES);
            let _ = cfg.set_server_personality(p);
        }
        _ => {
            random_decoder(s, &mut cfg.decoder_cfg);
            cfg.set_utf8_convert_bestfit(s.bool());
        }
    }
    cfg.decoder_cfg.utf8_invalid_unwanted = if s.bool() { unwanted(s) } else { IGN };
    if s.chance(1, 4) {
        cfg.set_bestfit_replacement_byte(*s.pick(b"?x/\\%."));
    }
    if s.chance(1, 3) {
        cfg.set_allow_space_uri(true);
    }
    cfg
}

/// Sends one request with this target.
fn request(s: &mut Src, case: &mut Case, cfg: Config, method: &[u8], target: &[u8]) -> Conn {
    let mut v = method.to_vec();
    v.push(b' ');
    v.extend_from_slice(target);
    v.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n\r\n");
    let mut c = Conn::new(cfg);
    let ops: Vec<Op> = if s.chance(1, 4) {
        let k = s.range(1, v.len() - 1);
        vec![Op::Req(v[..k].to_vec()), Op::Req(v[k..].to_vec())]
    } else {
        vec![Op::Req(v)]
    };
    case.describe(|| show_ops(&ops));
    c.run(&ops);
    c
}
fn b(o: &Option<htp::bstr::Bstr>) -> Option<Vec<u8>> {
    o.as_ref().map(|x| x.as_slice().to_vec())
}
fn show(o: &Option<Vec<u8>>) -> String {
    match o { None => "nothing".into(), Some(v) => format!("\"{}\"", esc(v)) }
}
macro_rules! same {
    ($case:expr, $got:expr, $want:expr, $what:expr) => {{
        let (g, w) = ($got, $want);
        ensure!($case, g == w, "{}: {} instead of {}", $what, show(&g), show(&w));
    }};
}

fn tx0(c: &Conn) -> Result<&Transaction, String> {
    c.connp.tx(0).ok_or_else(|| "no transaction".to_string())
}

/// Everything reported about a path.
fn check_path(case: &mut Case, tx: &Transaction, cfg: &DecoderConfig, path: &[u8], other_flags: u64) -> Result<Vec<u8>, String> {
    let (p, mut fl, mut st) = path_model(path, cfg);
    let (u, f2) = utf8_model(&p, cfg);
    fl |= f2 | other_flags;
    if fl & F::PATH_UTF8_INVALID != 0 {
        upd(&mut st, cfg.utf8_invalid_unwanted);
    }
    let norm = dots_model(if cfg.utf8_convert_bestfit { &u } else { &p });
    let uri = tx.parsed_uri.as_ref().ok_or("no parsed URI")?;
    same!(case, b(&uri.path), Some(norm.clone()), "normalised path");
    ensure_eq!(case, format!("{:x}", tx.flags & PATH_FLAGS), format!("{:x}", fl & PATH_FLAGS), "path flags");
    ensure_eq!(case, tx.response_status_expected_number, st, "expected response status");
    Ok(norm)
}

/// The assembled normalised URI, from the reported normalised parts.
fn check_assembled(case: &mut Case, tx: &Transaction, cfg: &DecoderConfig) -> Result<(), String> {
    let u = tx.parsed_uri.as_ref().ok_or("no parsed URI")?;
    let mut part = vec![];
    let dec = |x: &[u8]| param_model(x, cfg).0;
    if let Some(p) = &u.path {
        part.extend(if cfg.double_decode_normalized_path { dec(p) } else { p.to_vec() });
    }
    if let Some(q) = &u.query {
        let mut q = dec(q);
        if cfg.double_decode_normalized_query {
            q = dec(&q);
        }
        part.push(b'?');
        part.extend(q);
    }
    if let Some(f) = &u.fragment {
        part.push(b'#');
        part.extend_from_slice(f);
    }
    let mut full = vec![];
    if let Some(x) = &u.scheme {
        full.extend_from_slice(x);
        full.extend_from_slice(b"://");
    }
    if u.username.is_some() || u.password.is_some() {
        full.extend_from_slice(u.username.as_ref().map(|x| x.as_slice()).unwrap_or(b""));
        full.push(b':');
        full.extend_from_slice(u.password.as_ref().map(|x| x.as_slice()).unwrap_or(b""));
        full.push(b'@');
    }
    if let Some(h) = &u.hostname {
        full.extend_from_slice(h);
    }
    if let Some(p) = &u.port {
        full.push(b':');
        full.extend_from_slice(p);
    }
    full.extend_from_slice(&part);
    let opt = |v: Vec<u8>| if v.is_empty() { None } else { Some(v) };
    same!(case, b(&tx.partial_normalized_uri), opt(part), "partial normalised URI");
    same!(case, b(&tx.complete_normalized_uri), opt(full), "complete normalised URI");
    Ok(())
}

fn p17(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = config(s);
    let d = cfg.decoder_cfg;
    if s.chance(1, 6) {
        return p17_connect(s, case, cfg);
    }
    let t = gen_target(s);
    let m = s.pick(&[b"GET" as &[u8], b"POST", b"OPTIONS", b"FOO"]).to_vec();
    let target = t.bytes();
    case.describe(|| format!("{:?}", t.bytes().len()));
    let c = request(s, case, cfg, &m, &target);
    let tx = tx0(&c)?;
    same!(case, b(&tx.request_uri), Some(target.clone()), "request target");
    let r = tx.parsed_uri_raw.as_ref().ok_or("no raw URI")?;
    same!(case, b(&r.scheme), t.scheme.clone(), "scheme");
    same!(case, b(&r.username), t.user.clone(), "user name");
    same!(case, b(&r.password), t.pass.clone(), "password");
    same!(case, b(&r.hostname), t.host.clone(), "host name");
    let some = |x: &Option<Vec<u8>>| x.clone().filter(|x| !x.is_empty());
    same!(case, b(&r.port), some(&t.port), "port");
    same!(case, b(&r.path), t.path.clone(), "path");
    same!(case, b(&r.query), some(&t.query), "query");
    same!(case, b(&r.fragment), t.frag.clone(), "fragment");
    // normalised parts
    let u = tx.parsed_uri.as_ref().ok_or("no parsed URI")?;
    let mut fl = 0;
    same!(case, b(&u.scheme), t.scheme.as_ref().map(|x| x.to_ascii_lowercase()), "normalised scheme");
    same!(case, b(&u.username), t.user.as_ref().map(|x| part_model(x, &d, &mut fl)), "normalised user name");
    same!(case, b(&u.password), t.pass.as_ref().map(|x| part_model(x, &d, &mut fl)), "normalised password");
    let h = t.host.as_ref().map(|x| {
        let mut h = part_model(x, &d, &mut fl).to_ascii_lowercase();
        while h.last() == Some(&b'.') {
            h.pop();
        }
        h
    });
    same!(case, b(&u.hostname), h.clone(), "normalised host name");
    let pn = some(&t.port).and_then(|p| port_of(&p));
    ensure_eq!(case, u.port_number, pn, "port number");
    same!(case, b(&u.query), some(&t.query), "query");
    same!(case, b(&u.fragment), t.frag.as_ref().map(|x| part_model(x, &d, &mut fl)), "normalised fragment");
    let bad = some(&t.port).is_some() && pn.is_none() || h.as_ref().map(|h| !valid_host(h)).unwrap_or(false);
    ensure_eq!(case, tx.flags & F::HOSTU_INVALID != 0, bad, "host of the target marked invalid");
    if let Some(p) = &t.path {
        check_path(case, tx, &d, p, fl)?;
    } else {
        ensure!(case, u.path.is_none(), "a path appeared");
        ensure_eq!(case, format!("{:x}", tx.flags & PATH_FLAGS), format!("{:x}", fl), "path flags");
    }
    check_assembled(case, tx, &d)?;
    case.nontrivial = t.scheme.is_some() || t.query.is_some() || t.frag.is_some();
    if t.scheme.is_some() { case.label("absolute form"); }
    if t.user.is_some() { case.label("credentials"); }
    if t.port.is_some() { case.label("port"); }
    if bad { case.label("invalid host or port"); }
    Ok(())
}

fn p17_connect(s: &mut Src, case: &mut Case, cfg: Config) -> Result<(), String> {
    let h = host(s);
    let p = if s.chance(3, 4) { Some(port(s)) } else { None };
    let mut t = h.clone();
    if let Some(p) = &p {
        t.push(b':');
        t.extend_from_slice(p);
    }
    let c = request(s, case, cfg, b"CONNECT", &t);
    let tx = tx0(&c)?;
    let r = tx.parsed_uri_raw.as_ref().ok_or("no raw URI")?;
    let hl = h.to_ascii_lowercase();
    same!(case, b(&r.hostname), Some(hl.clone()), "host name of CONNECT");
    let pp = p.clone().filter(|p| !p.is_empty());
    same!(case, b(&r.port), pp.clone(), "port of CONNECT");
    ensure_eq!(case, r.port_number, pp.as_ref().and_then(|p| port_of(p)), "port number of CONNECT");
    ensure!(case, r.scheme.is_none() && r.path.is_none() && r.query.is_none() && r.fragment.is_none() && r.username.is_none(), "CONNECT target has other parts");
    let bad = !valid_host(&h) || p.as_ref().map(|p| port_of(p).is_none()).unwrap_or(false);
    ensure_eq!(case, tx.flags & F::HOSTU_INVALID != 0, bad, "CONNECT target marked invalid");
    case.nontrivial = p.is_some();
    case.label("CONNECT");
    Ok(())
}

fn path_piece(s: &mut Src, apache: bool) -> Vec<u8> {
    let hexd = b"0123456789abcdefABCDEF";
    match s.below(22) {
        0 | 1 => b"/".to_vec(),
        2 => s.pick(&[b"//" as &[u8], b"/./", b"/../", b"/..", b"/.", b"./", b"../", b"...", b"/..a", b"/a..", b"/.../"]).to_vec(),
        3 => b"\\".to_vec(),
        4 => s.pick(&[b"%2f" as &[u8], b"%2F", b"%5c", b"%5C", b"%2e", b"%2E%2e", b"%25", b"%252f", b"%41", b"%7e"]).to_vec(),
        5 => s.pick(&[b"%00" as &[u8], b"%01", b"%1f", b"%0a", b"%0D", b"%20", b"%7f", b"%09"]).to_vec(),
        6 => {
            let mut v = b"%".to_vec();
            v.push(*s.pick(hexd));
            v.push(*s.pick(hexd));
            v
        }
        7 => {
            let mut v = b"%".to_vec();
            v.push(*s.pick(b"uU"));
            for _ in 0..4 {
                v.push(*s.pick(hexd));
            }
            v
        }
        8 => {
            let k = s.pick(BESTFIT).0;
            format!("%u{:04x}", k).into_bytes()
        }
        9 => s.pick(&[b"%u002f" as &[u8], b"%u0000", b"%u005c", b"%u2215", b"%uff0f", b"%uFF21", b"%u0041", b"%u00e9", b"%uffef", b"%uff5c", b"%u2216", b"%u0001", b"%uFFFF", b"%u002e"]).to_vec(),
        10 => s.pick(&[b"%" as &[u8], b"%u", b"%U", b"%a", b"%u12", b"%u123", b"%ug000", b"%u00g0", b"%xx", b"%g1", b"%1g", b"%%", b"%%41", b"%/a", b"%u/../", b"%.."]).to_vec(),
        11 => {
            // anything after a percent sign
            let mut v = s.pick(&[b"%" as &[u8], b"%u"]).to_vec();
            v.extend(text(s, b"?#", 0, 5));
            v
        }
        12 => vec![*s.pick(&[1u8, 2, 0x1f, 0x1b, 0x7f, 8, 0x0e])],
        13 => if apache { b"a".to_vec() } else { vec![0] },
        14 => vec![s.range(0x80, 0xff) as u8],
        15 => { let b = *s.pick(b"AZaz.+&=;:@~"); vec![b] }
        16 => { let b = s.byte(); enc(s, b) }
        _ => s.bytes_from(b"abcdefABCXYZ0123456789-_.", 1, 5),
    }
}

fn p18(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let cfg = config(s);
    let d = cfg.decoder_cfg;
    let apache = cfg.server_personality == HtpServerPersonality::APACHE_2;
    let mut p = b"/".to_vec();
    let n = if s.chance(1, 300) { s.range(8, 400) } else { s.range(1, 8) };
    for _ in 0..n {
        p.extend(path_piece(s, apache));
    }
    let mut target = p.clone();
    let q = if s.chance(1, 5) { Some(text(s, b"#", 1, 12)) } else { None };
    if let Some(q) = &q {
        target.push(b'?');
        target.extend_from_slice(q);
    }
    case.describe(|| show_config_of(&d));
    let c = request(s, case, cfg, b"GET", &target);
    let tx = tx0(&c)?;
    same!(case, b(&tx.parsed_uri_raw.as_ref().ok_or("no raw URI")?.path), Some(p.clone()), "raw path");
    let norm = check_path(case, tx, &d, &p, 0)?;
    ensure!(case, norm.split(|c| *c == b'/').all(|x| x != b"." && x != b".."), "a dot segment survives");
    check_assembled(case, tx, &d)?;
    let odd = p.iter().any(|c| *c == b'%' || *c == b'\\' || *c < 0x20) || p.windows(2).any(|w| w == b"//" || w == b"/.");
    case.nontrivial = odd;
    if p.contains(&b'%') { case.label("percent sign"); }
    if d.u_encoding_decode && p.windows(2).any(|w| w[0] == b'%' && (w[1] | 0x20) == b'u') { case.label("%u"); }
    if tx.response_status_expected_number != IGN { case.label("status expected"); }
    Ok(())
}
fn show_config_of(d: &DecoderConfig) -> String {
    format!(
        "backslash {} lowercase {} compress {} sepdecode {} u {} invalid {:?} nulraw {} nulenc {} utf8 {} rep {}",
        d.backslash_convert_slashes, d.convert_lowercase, d.path_separators_compress, d.path_separators_decode, d.u_encoding_decode,
        d.url_encoding_invalid_handling as u32, d.nul_raw_terminates, d.nul_encoded_terminates, d.utf8_convert_bestfit, d.bestfit_map.replacement_byte
    )
}

fn utf8_piece(s: &mut Src) -> Vec<u8> {
    match s.below(10) {
        0 | 1 => s.bytes_from(b"abcXYZ/.", 1, 4),
        2 => {
            // a mapped character
            let k = s.pick(BESTFIT).0;
            char::from_u32(k).map(|c| c.to_string().into_bytes()).unwrap_or_default()
        }
        3 => {
            let cp = *s.pick(&[0x80u32, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xff00, 0xff0f, 0xffef, 0xfff0, 0xffff, 0x10000, 0x10ffff, 0xe9, 0x2215]);
            char::from_u32(cp).map(|c| c.to_string().into_bytes()).unwrap_or_default()
        }
        4 => {
            let cp = s.range(0x80, 0x10ffff) as u32;
            char::from_u32(cp).map(|c| c.to_string().into_bytes()).unwrap_or_default()
        }
        5 => {
            // overlong
            let cp = *s.pick(&[0x2fu32, 0x2e, 0x41, 0x5c, 0, 0x7f, 0xe9, 0x80, 0x7ff, 0x100, 0x20ac, 0xffff, 0xff0f]);
            match s.below(3) {
                0 if cp < 0x80 => vec![0xc0 | (cp >> 6) as u8, 0x80 | (cp & 0x3f) as u8],
                1 if cp < 0x800 => vec![0xe0 | (cp >> 12) as u8, 0x80 | (cp >> 6 & 0x3f) as u8, 0x80 | (cp & 0x3f) as u8],
                _ => vec![0xf0, 0x80 | (cp >> 12 & 0x3f) as u8, 0x80 | (cp >> 6 & 0x3f) as u8, 0x80 | (cp & 0x3f) as u8],
            }
        }
        6 => s.pick(&[b"\xed\xa0\x80" as &[u8], b"\xed\x9f\xbf", b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xfe", b"\x80", b"\xbf\xbf", b"\xc3", b"\xe2\x82", b"\xf0\x90\x8d", b"\xf0\x90", b"\xc3(", b"\xe2(\xa1", b"\xe2\x82(", b"\xf0\x90\x8c(", b"\xf0(\x8c\xbc", b"\xc2\xc2\xa9", b"\xe2\x82\xe2\x82\xac"]).to_vec(),
        7 => {
            let n = s.range(1, 4);
            (0..n).map(|_| s.range(0x80, 0xff) as u8).collect()
        }
        _ => {
            let lead = *s.pick(&[0xc0u8, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4]);
            let n = s.range(0, 3);
            let mut v = vec![lead];
            for _ in 0..n {
                v.push(*s.pick(&[0x80u8, 0x8f, 0x90, 0x9f, 0xa0, 0xbf]));
            }
            v
        }
    }
}
fn p19(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = config(s);
    if s.chance(3, 4) {
        cfg.set_utf8_convert_bestfit(true);
    }
    let d = cfg.decoder_cfg;
    let mut raw = vec![];
    let n = if s.chance(1, 300) { s.range(6, 400) } else { s.range(1, 6) };
    for _ in 0..n {
        raw.extend(utf8_piece(s));
    }
    raw.retain(|c| *c != 0);
    let encoded = s.below(3);
    let mut p = b"/".to_vec();
    for c in &raw {
        if encoded == 1 || encoded == 2 && s.bool() {
            p.extend(enc(s, *c));
        } else {
            p.push(*c);
        }
    }
    case.describe(|| show_config_of(&d));
    let c = request(s, case, cfg, b"GET", &p);
    let tx = tx0(&c)?;
    check_path(case, tx, &d, &p, 0)?;
    check_assembled(case, tx, &d)?;
    case.nontrivial = raw.iter().any(|c| *c >= 0x80);
    if std::str::from_utf8(&raw).is_ok() { case.label("valid UTF-8"); } else { case.label("invalid or overlong UTF-8"); }
    if d.utf8_convert_bestfit { case.label("converted"); }
    Ok(())
}

// ---- parameters ------------------------------------------------------------------
thread_local! {
    static PARAMS: RefCell<Vec<(Vec<u8>, Vec<u8>)>> = const { RefCell::new(vec![]) };
}
fn processor(p: &mut Param) -> Result<(), htp::HtpStatus> {
    PARAMS.with(|v| v.borrow_mut().push((p.name.as_slice().to_vec(), p.value.as_slice().to_vec())));
    Ok(())
}

/// Reference split of a query string.
fn params_model(q: &[u8], sep: u8, cfg: &DecoderConfig, decode: bool) -> (Vec<(Vec<u8>, Vec<u8>)>, u64, St) {
    let (mut v, mut fl, mut st) = (vec![], 0, IGN);
    if q.is_empty() {
        return (v, 0, IGN);
    }
    for seg in q.split(|c| *c == sep) {
        if seg.is_empty() {
            continue;
        }
        let (n, x) = match seg.iter().position(|c| *c == b'=') {
            Some(k) => (&seg[..k], &seg[k + 1..]),
            None => (seg, &seg[seg.len()..]),
        };
        let mut dec = |x: &[u8]| {
            if !decode {
                return x.to_vec();
            }
            let (o, f, s) = param_model(x, cfg);
            fl |= f;
            upd(&mut st, s);
            o
        };
        let n = dec(n);
        let x = dec(x);
        v.push((n, x));
    }
    if v.is_empty() {
        // only separators
        v.push((vec![], vec![]));
    }
    (v, fl, st)
}
fn show_params(v: &[(Vec<u8>, Vec<u8>)]) -> String {
    v.iter().map(|(a, b)| format!("[{}={}]", esc(a), esc(b))).collect::<Vec<_>>().join("")
}

fn p20(s: &mut Src, case: &mut Case) -> Result<(), String> {
    let mut cfg = config(s);
    let d = cfg.decoder_cfg;
    let apache = cfg.server_personality == HtpServerPersonality::APACHE_2;
    let direct = s.bool();
    let sep = if direct && s.chance(1, 4) { *s.pick(b";,") } else { b'&' };
    let mut q = vec![];
    let n = if s.chance(1, 600) { s.range(6, 2000) } else { s.range(0, 6) };
    for _ in 0..n {
        match s.below(8) {
            0 => q.push(sep),
            1 => q.push(b'='),
            2 => q.extend(path_piece(s, apache)),
            3 => q.push(b'+'),
            4 => {
                q.extend(s.bytes_from(b"abAB", 1, 2));
                q.push(b'=');
                q.extend(path_piece(s, apache));
                q.extend(path_piece(s, apache));
            }
            _ => {
                q.extend(s.bytes_from(b"pqrs", 1, 2));
                q.push(b'=');
                q.extend(text(s, &[b'#', sep], 0, 5));
            }
        }
        if s.chance(2, 3) {
            q.push(sep);
        }
    }
    q.retain(|c| *c != b'#' || direct);
    let want;
    let (got, flags, status, check_flags);
    if direct {
        let decode = s.chance(7, 8);
        want = params_model(&q, sep, &d, decode);
        let mut p = htp::urlencoded::Parser::new(d);
        p.argument_separator = sep;
        p.decode_url_encoding = decode;
        case.describe(|| format!("parser: {} separator {} decode {} {}", esc(&q), sep as char, decode, show_config_of(&d)));
        if s.chance(1, 3) {
            p.parse_complete(&q);
        } else {
            let mut rest = &q[..];
            while !rest.is_empty() {
                let k = s.range(0, rest.len().min(6));
                p.parse_partial(&rest[..k]);
                rest = &rest[k..];
                if k == 0 && s.bool() { continue; }
                if k == 0 { p.parse_partial(rest); break; }
            }
            p.finalize();
            case.label("parser in pieces");
        }
        got = p.params.elements.iter().map(|(a, b)| (a.as_slice().to_vec(), b.as_slice().to_vec())).collect::<Vec<_>>();
        flags = p.flags;
        status = p.response_status_expected_number;
        check_flags = true;
    } else {
        want = params_model(&q, sep, &d, true);
        let mut t = b"/p?".to_vec();
        t.extend_from_slice(&q);
        let frag = s.chance(1, 5);
        if frag {
            t.extend_from_slice(b"#x=y&z=w");
        }
        cfg.set_parse_urlencoded(true);
        cfg.parameter_processor = Some(processor);
        PARAMS.with(|v| v.borrow_mut().clear());
        case.describe(|| show_config_of(&d));
        let c = request(s, case, cfg, b"GET", &t);
        tx0(&c)?;
        got = PARAMS.with(|v| v.borrow().clone());
        flags = 0;
        status = IGN;
        check_flags = false;
        case.label("through a request");
    }
    ensure!(case, got == want.0, "parameters {} instead of {}", show_params(&got), show_params(&want.0));
    if check_flags {
        ensure_eq!(case, format!("{:x}", flags), format!("{:x}", want.1), "flags of the parameters");
        ensure_eq!(case, status, want.2, "expected response status of the parameters");
    }
    case.nontrivial = want.0.len() >= 2;
    Ok(())
}
