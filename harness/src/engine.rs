//! Generic property-based testing engine: choice-sequence generation, parallel
//! search, shrinking, replay, crash and hang containment, evidence reporting.
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    let mut r = Rng(h);
    r.next()
}

/// Source of generated choices. Every random decision a generator takes goes
/// through `below`, so a case is fully described by its list of choices.
pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub taken: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            rng: Some(Rng(seed)),
            replay: vec![],
            taken: Vec::with_capacity(256),
        }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            rng: None,
            replay: choices,
            taken: vec![],
        }
    }
    /// A value in 0..n; smaller is simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let i = self.taken.len();
        let v = match &mut self.rng {
            Some(r) => {
                // unbiased enough
                ((r.next() as u128 * n as u128) >> 64) as u64
            }
            None => {
                let c = self.replay.get(i).copied().unwrap_or(0);
                if c >= n {
                    n - 1
                } else {
                    c
                }
            }
        };
        self.taken.push(v);
        v
    }
    pub fn u(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.u(hi - lo + 1)
    }
    /// true with probability num/den; false is simpler
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // value 0 => false
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.u(xs.len())]
    }
    pub fn byte(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// A size with a bias to small values and occasional larger ones.
    pub fn size(&mut self, small: usize, large: usize) -> usize {
        match self.below(8) {
            0..=5 => self.u(small + 1),
            6 => self.u(small * 4 + 1).min(large),
            _ => self.u(large + 1),
        }
    }
    pub fn bytes_from(&mut self, alphabet: &[u8], lo: usize, hi: usize) -> Vec<u8> {
        let n = self.range(lo, hi);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
}

/// What a case reports back.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// Human-readable rendering of the generated case, produced only on demand.
    pub want_desc: bool,
    pub desc: String,
    /// Digest used for distinctness (defaults to the choices).
    pub digest: Option<u64>,
    /// number of oracle comparisons performed
    pub asserts: u64,
}
impl Case {
    pub fn label(&mut self, s: &str) {
        if self.labels.len() < 64 {
            self.labels.push(s.to_string());
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc.push_str(&f());
            self.desc.push('\n');
        }
    }
}

pub type CheckFn = fn(&mut Src, &mut Case) -> Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: CheckFn,
    /// number of generated cases in the quick tier
    pub quick: u64,
}

#[macro_export]
macro_rules! ensure {
    ($case:expr, $cond:expr, $($arg:tt)*) => {
        $case.asserts += 1;
        if !$cond { return Err(format!($($arg)*)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($case:expr, $a:expr, $b:expr, $($arg:tt)*) => {{
        $case.asserts += 1;
        let a = &$a; let b = &$b;
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b));
        }
    }};
}

pub fn esc(b: &[u8]) -> String {
    let mut s = String::new();
    let cut = b.len().min(2000);
    for c in &b[..cut] {
        for e in std::ascii::escape_default(*c) {
            s.push(e as char);
        }
    }
    if b.len() > cut {
        s.push_str(&format!("...[{} bytes]", b.len()));
    }
    s
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static IN_CASE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CASE.with(|c| c.get()) {
            let loc = info
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
        } else {
            default(info);
        }
    }));
}

/// Run one case, turning a panic into a failure.
pub fn run_case(prop: &Prop, src: &mut Src, case: &mut Case) -> Result<(), String> {
    IN_CASE.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(|| (prop.run)(src, case)));
    IN_CASE.with(|c| c.set(false));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    }
}

/// Shrink a failing choice list.
pub fn shrink(prop: &Prop, start: Vec<u64>, budget: Duration) -> (Vec<u64>, String, u64) {
    let t0 = Instant::now();
    let mut tries = 0u64;
    let attempt = |c: &[u64]| -> Option<(Vec<u64>, String)> {
        let mut src = Src::replay(c.to_vec());
        let mut case = Case::default();
        match run_case(prop, &mut src, &mut case) {
            Err(e) => Some((src.taken, e)),
            Ok(()) => None,
        }
    };
    let (mut best, mut msg) = match attempt(&start) {
        Some(x) => x,
        None => return (start, "not reproducible on replay".into(), 0),
    };
    let simpler = |a: &[u64], b: &[u64]| -> bool {
        a.len() < b.len() || (a.len() == b.len() && a.iter().lt(b.iter()))
    };
    let mut improved = true;
    while improved && t0.elapsed() < budget {
        improved = false;
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while i + size <= best.len() && t0.elapsed() < budget {
                let mut c = best.clone();
                c.drain(i..i + size);
                tries += 1;
                if let Some((t, m)) = attempt(&c) {
                    if simpler(&t, &best) {
                        best = t;
                        msg = m;
                        improved = true;
                        continue;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower one value and delete a block somewhere behind it (removes one
        // element of a counted list)
        let mut i = 0;
        while i < best.len() && i < 400 && t0.elapsed() < budget {
            if best[i] > 0 && best[i] < 64 {
                'out: for off in [1usize, 2, 3, 4, 6, 9, 14, 20] {
                    for size in [1usize, 2, 3, 4, 5, 6, 8, 10, 13, 16, 20, 26, 34] {
                        if i + off + size > best.len() {
                            continue;
                        }
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + off..i + off + size);
                        tries += 1;
                        if let Some((t, m)) = attempt(&c) {
                            if simpler(&t, &best) {
                                best = t;
                                msg = m;
                                improved = true;
                                break 'out;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        // zero blocks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i + size <= best.len() && t0.elapsed() < budget {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|x| *x = 0);
                    tries += 1;
                    if let Some((t, m)) = attempt(&c) {
                        if simpler(&t, &best) {
                            best = t;
                            msg = m;
                            improved = true;
                        }
                    }
                }
                i += size;
            }
        }
        // lower single values
        let mut i = 0;
        while i < best.len() && t0.elapsed() < budget {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo && t0.elapsed() < budget {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                tries += 1;
                match attempt(&c) {
                    Some((t, m)) if simpler(&t, &best) => {
                        best = t;
                        msg = m;
                        improved = true;
                    }
                    _ => {
                        if mid == lo {
                            lo = mid + 1;
                            if lo >= best[i] {
                                break;
                            }
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, msg, tries)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut b = Vec::new();
    b.extend_from_slice(&seed.to_le_bytes());
    b.extend_from_slice(id.as_bytes());
    b.extend_from_slice(&idx.to_le_bytes());
    hash_bytes(&b)
}

pub struct RunOpts {
    pub seed: u64,
    pub tier: String,
    pub cases: u64,
    pub wall: Duration,
    pub evidence: String,
    pub replay_dir: String,
    pub inflight: Option<String>,
    pub known: Vec<Known>,
    pub level: String,
    pub threads: usize,
}

/// A recorded genuine defect, matched on property and on failure text.
#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub needle: String,
    pub what: String,
}

pub fn load_known(path: &str) -> Vec<Known> {
    // line format: known: property=<ID> match=<<text>> <what fails>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: property=") {
                let mut it = rest.splitn(2, ' ');
                let p = it.next().unwrap_or("").to_string();
                let rest = it.next().unwrap_or("");
                if let Some(r) = rest.strip_prefix("match=<<") {
                    if let Some(e) = r.find(">>") {
                        v.push(Known {
                            property: p,
                            needle: r[..e].to_string(),
                            what: r[e + 2..].trim().to_string(),
                        });
                    }
                }
            }
        }
    }
    v
}

fn thread_cpu(clock: libc::clockid_t) -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return 0.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

struct Slot {
    active: AtomicBool,
    idx: AtomicU64,
    gen: AtomicU64,
    clock: AtomicU64,
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    evals: AtomicU64,
    nontrivial: AtomicU64,
    asserts: AtomicU64,
}

pub fn write_replay(path: &str, prop: &str, seed: u64, idx: u64, choices: &[u64], msg: &str, desc: &str) {
    let mut s = String::new();
    s.push_str(&format!("property={}\n", prop));
    s.push_str(&format!("seed={} case={}\n", seed, idx));
    s.push_str("choices=");
    s.push_str(&choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
    s.push('\n');
    s.push_str("---\n");
    s.push_str(msg);
    s.push_str("\n---\n");
    s.push_str(desc);
    let _ = std::fs::create_dir_all(std::path::Path::new(path).parent().unwrap());
    let _ = std::fs::write(path, s);
}

/// Explore; returns exit code.
pub fn explore(prop: &'static Prop, o: &RunOpts) -> i32 {
    install_panic_hook();
    let t0 = Instant::now();
    let shared = Arc::new(Shared {
        next: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        evals: AtomicU64::new(0),
        nontrivial: AtomicU64::new(0),
        asserts: AtomicU64::new(0),
    });
    let distinct = Arc::new(Mutex::new(HashSet::<u64>::new()));
    let labels = Arc::new(Mutex::new(BTreeMap::<String, u64>::new()));
    let samples = Arc::new(Mutex::new(Vec::<String>::new()));
    // (case index, choices, message)
    let failure = Arc::new(Mutex::new(Vec::<(u64, Vec<u64>, String)>::new()));
    let known_hits = Arc::new(Mutex::new(BTreeMap::<usize, u64>::new()));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..o.threads)
            .map(|_| Slot {
                active: AtomicBool::new(false),
                idx: AtomicU64::new(0),
                gen: AtomicU64::new(0),
                clock: AtomicU64::new(0),
            })
            .collect(),
    );
    let inflight = o.inflight.as_ref().map(|p| {
        Arc::new(
            std::fs::OpenOptions::new()
                .create(true)
                .write(true)
                .truncate(true)
                .open(p)
                .expect("inflight file"),
        )
    });
    let mut handles = vec![];
    for t in 0..o.threads {
        let (shared, distinct, labels, samples, failure, known_hits, slots, inflight) = (
            shared.clone(),
            distinct.clone(),
            labels.clone(),
            samples.clone(),
            failure.clone(),
            known_hits.clone(),
            slots.clone(),
            inflight.clone(),
        );
        let (seed, cases, wall) = (o.seed, o.cases, o.wall);
        let known = o.known.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    unsafe {
                        let mut clk: libc::clockid_t = 0;
                        libc::pthread_getcpuclockid(libc::pthread_self(), &mut clk);
                        slots[t].clock.store(clk as i64 as u64, Ordering::SeqCst);
                    }
                    let mut local_distinct: Vec<u64> = vec![];
                    let mut local_labels: BTreeMap<String, u64> = BTreeMap::new();
                    loop {
                        if shared.stop.load(Ordering::Relaxed) || t0.elapsed() > wall {
                            break;
                        }
                        let idx = shared.next.fetch_add(1, Ordering::Relaxed);
                        if idx >= cases {
                            break;
                        }
                        slots[t].idx.store(idx, Ordering::SeqCst);
                        slots[t].gen.fetch_add(1, Ordering::SeqCst);
                        slots[t].active.store(true, Ordering::SeqCst);
                        if let Some(f) = &inflight {
                            let mut b = [0u8; 16];
                            b[..8].copy_from_slice(&1u64.to_le_bytes());
                            b[8..].copy_from_slice(&idx.to_le_bytes());
                            let _ = f.write_all_at(&b, (t * 16) as u64);
                        }
                        let mut src = Src::random(case_seed(seed, prop.id, idx));
                        let mut case = Case::default();
                        let want = idx < 4096 && idx % 97 == 3;
                        case.want_desc = want;
                        let r = run_case(prop, &mut src, &mut case);
                        slots[t].active.store(false, Ordering::SeqCst);
                        if let Some(f) = &inflight {
                            let _ = f.write_all_at(&[0u8; 8], (t * 16) as u64);
                        }
                        shared.evals.fetch_add(1, Ordering::Relaxed);
                        shared.asserts.fetch_add(case.asserts, Ordering::Relaxed);
                        match r {
                            Ok(()) => {
                                for l in case.labels.drain(..) {
                                    *local_labels.entry(l).or_insert(0) += 1;
                                }
                                if case.nontrivial {
                                    shared.nontrivial.fetch_add(1, Ordering::Relaxed);
                                    let d = case.digest.unwrap_or_else(|| {
                                        let b: Vec<u8> = src
                                            .taken
                                            .iter()
                                            .flat_map(|c| c.to_le_bytes())
                                            .collect();
                                        hash_bytes(&b)
                                    });
                                    local_distinct.push(d);
                                    if want {
                                        let mut s = samples.lock().unwrap();
                                        if s.len() < 4 {
                                            let mut d = case.desc.clone();
                                            d.truncate(d.char_indices().nth(1500).map(|x| x.0).unwrap_or(d.len()));
                                            s.push(d);
                                        }
                                    }
                                }
                                if local_distinct.len() > 4096 {
                                    let mut d = distinct.lock().unwrap();
                                    if d.len() < 30_000_000 {
                                        d.extend(local_distinct.drain(..));
                                    } else {
                                        local_distinct.clear();
                                    }
                                }
                            }
                            Err(m) => {
                                if let Some(k) = known
                                    .iter()
                                    .position(|k| k.property == prop.id && m.contains(&k.needle))
                                {
                                    *known_hits.lock().unwrap().entry(k).or_insert(0) += 1;
                                    continue;
                                }
                                failure.lock().unwrap().push((idx, src.taken, m));
                                shared.stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                    distinct.lock().unwrap().extend(local_distinct);
                    let mut l = labels.lock().unwrap();
                    for (k, v) in local_labels {
                        *l.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap(),
        );
    }
    // hang monitor
    let done = Arc::new(AtomicBool::new(false));
    {
        let (slots, done) = (slots.clone(), done.clone());
        let (seed, rdir) = (o.seed, o.replay_dir.clone());
        std::thread::spawn(move || {
            let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); slots.len()];
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if done.load(Ordering::SeqCst) {
                    return;
                }
                for (t, s) in slots.iter().enumerate() {
                    if !s.active.load(Ordering::SeqCst) {
                        seen[t] = (0, 0.0);
                        continue;
                    }
                    let g = s.gen.load(Ordering::SeqCst);
                    let cpu = thread_cpu(s.clock.load(Ordering::SeqCst) as i64 as libc::clockid_t);
                    if seen[t].0 != g {
                        seen[t] = (g, cpu);
                    } else if cpu - seen[t].1 > 20.0 {
                        let idx = s.idx.load(Ordering::SeqCst);
                        let path = format!("{}/{}-hang-{}.txt", rdir, prop.id, idx);
                        write_replay(&path, prop.id, seed, idx, &[], "hang: one case used more than 20 s of CPU time", "");
                        println!("hang: case {} of seed {} used more than 20 s of CPU time", idx, seed);
                        println!("VIOLATION property={} replay={}", prop.id, path);
                        let _ = std::io::stdout().flush();
                        unsafe { libc::_exit(1) };
                    }
                }
            }
        });
    }
    for h in handles {
        let _ = h.join();
    }
    done.store(true, Ordering::SeqCst);

    let fails = failure.lock().unwrap().clone();
    let mut code = 0;
    let mut cex = 0;
    if let Some((idx, choices, _)) = fails.iter().min_by_key(|f| f.1.len()) {
        let (best, msg, tries) = shrink(prop, choices.clone(), Duration::from_secs(20));
        let mut src = Src::replay(best.clone());
        let mut case = Case {
            want_desc: true,
            ..Default::default()
        };
        let _ = run_case(prop, &mut src, &mut case);
        let path = format!("{}/{}-{}.txt", o.replay_dir, prop.id, o.seed);
        write_replay(&path, prop.id, o.seed, *idx, &best, &msg, &case.desc);
        println!("{}: {} (shrunk to {} choices in {} attempts)", prop.id, msg, best.len(), tries);
        println!("{}", case.desc);
        println!("VIOLATION property={} replay={}", prop.id, path);
        code = 1;
        cex = 1;
    }
    for (i, k) in o.known.iter().enumerate() {
        if k.property == prop.id {
            let n = known_hits.lock().unwrap().get(&i).copied().unwrap_or(0);
            println!("KNOWN-FINDING: property={} {} (hit {} times)", prop.id, k.what, n);
        }
    }
    let wall_s = t0.elapsed().as_secs_f64();
    let evals = shared.evals.load(Ordering::SeqCst);
    let nd = distinct.lock().unwrap().len();
    let mut e = String::new();
    e.push_str("{\n");
    e.push_str(&format!("  \"property\": {},\n", json_str(prop.id)));
    e.push_str(&format!("  \"tier\": {},\n", json_str(&o.tier)));
    e.push_str(&format!("  \"seed\": {},\n", o.seed));
    e.push_str(&format!("  \"level\": {},\n", json_str(&o.level)));
    e.push_str("  \"coverage\": {\n");
    e.push_str(&format!("    \"evaluations\": {},\n", evals));
    e.push_str(&format!("    \"distinct_nontrivial\": {},\n", nd));
    e.push_str(&format!("    \"nontrivial\": {},\n", shared.nontrivial.load(Ordering::SeqCst)));
    e.push_str(&format!("    \"oracle_comparisons\": {},\n", shared.asserts.load(Ordering::SeqCst)));
    e.push_str(&format!("    \"rule\": {},\n", json_str(prop.rule)));
    e.push_str("    \"labels\": {");
    {
        let l = labels.lock().unwrap();
        let v: Vec<String> = l.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        e.push_str(&v.join(", "));
    }
    e.push_str("},\n");
    e.push_str("    \"samples\": [");
    {
        let s = samples.lock().unwrap();
        let v: Vec<String> = s.iter().map(|x| json_str(x)).collect();
        e.push_str(&v.join(", "));
    }
    e.push_str("]\n  },\n");
    e.push_str(&format!("  \"violations\": {},\n", cex));
    e.push_str(&format!("  \"wall_s\": {:.2}\n", wall_s));
    e.push_str("}\n");
    let _ = std::fs::create_dir_all(std::path::Path::new(&o.evidence).parent().unwrap());
    let _ = std::fs::write(&o.evidence, e);
    println!(
        "{}: {} cases, {} distinct non-trivial, {} comparisons, {:.1} s, {}",
        prop.id,
        evals,
        nd,
        shared.asserts.load(Ordering::SeqCst),
        wall_s,
        if code == 0 { "held" } else { "VIOLATED" }
    );
    code
}
