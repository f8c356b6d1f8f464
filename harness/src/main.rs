//! htpcheck: generated-input checks of libhtp-rs properties.
#[macro_use]
mod engine;
mod drive;
mod gen;
mod traffic;
mod p_robust;
mod p_compress;
mod p_segment;
mod p_status;
mod p_traffic;
mod snap;
mod bestfit;
mod p_request;
mod p_tunnel;
mod p_limits;
mod p_gap;
mod p_life;
mod p_capi;
mod p_lines;
mod p_uri;
mod p_log;
mod p_trunc;
mod p_mem;
mod p_record;
mod lzma_bombs;

use engine::*;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::Duration;

fn props() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(p_robust::PROPS.iter());
    v.extend(p_traffic::PROPS.iter());
    v.extend(p_segment::PROPS.iter());
    v.extend(p_status::PROPS.iter());
    v.extend(p_compress::PROPS.iter());
    v.extend(p_uri::PROPS.iter());
    v.extend(p_tunnel::PROPS.iter());
    v.extend(p_limits::PROPS.iter());
    v.extend(p_gap::PROPS.iter());
    v.extend(p_life::PROPS.iter());
    v.extend(p_lines::PROPS.iter());
    v.extend(p_capi::PROPS.iter());
    v.extend(p_request::PROPS.iter());
    v.extend(p_log::PROPS.iter());
    v.extend(p_trunc::PROPS.iter());
    v.extend(p_mem::PROPS.iter());
    v.extend(p_record::PROPS.iter());
    v
}

fn find(id: &str) -> &'static Prop {
    match props().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2);
        }
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn root() -> String {
    std::env::var("HTPCHECK_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn tier() -> String {
    match std::env::var("HTPCHECK_TIER").or_else(|_| std::env::var("VERIF_TIER")) {
        Ok(t) if t == "thorough" => t,
        _ => "quick".into(),
    }
}

fn inflight_path(id: &str) -> String {
    format!("{}/replays/.inflight-{}-{}", root(), id, std::process::id())
}

fn opts(prop: &Prop, inflight: Option<String>) -> RunOpts {
    let t = tier();
    let thorough = t == "thorough";
    let mult = if thorough { 25 } else { 1 };
    let cases = env_u64("HTPCHECK_CASES", prop.quick * mult);
    RunOpts {
        seed: env_u64("VERIF_SEED", 1),
        tier: t,
        cases,
        wall: Duration::from_secs(env_u64("HTPCHECK_WALL", if thorough { 3000 } else { 400 })),
        evidence: format!("{}/evidence/{}.json", root(), prop.id),
        replay_dir: format!("{}/replays", root()),
        inflight,
        known: load_known(&format!("{}/known_findings.txt", root())),
        level: "exploration".into(),
        threads: env_u64("HTPCHECK_THREADS", 8) as usize,
    }
}

fn limit_memory() {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 20 << 30,
            rlim_max: 20 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        // no core files
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
}

/// Supervise a worker process so that an abort, a stack overflow or a memory
/// blow-up in the code under test is reported as a violation with a replay.
fn check(id: &str) -> i32 {
    let prop = find(id);
    let exe = std::env::current_exe().unwrap();
    let _ = std::fs::create_dir_all(format!("{}/replays", root()));
    let infl = inflight_path(id);
    let st = Command::new(&exe)
        .args(["worker", id, &infl])
        .stdin(Stdio::null())
        .status()
        .expect("spawn worker");
    if let Some(c) = st.code() {
        let _ = std::fs::remove_file(&infl);
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    println!("{}: worker ended by signal {}", id, sig);
    let b = std::fs::read(&infl).unwrap_or_default();
    let _ = std::fs::remove_file(&infl);
    let seed = env_u64("VERIF_SEED", 1);
    for s in b.chunks_exact(16) {
        let active = u64::from_le_bytes(s[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(s[8..].try_into().unwrap());
        if active == 0 {
            continue;
        }
        let out = Command::new(&exe)
            .args(["one", id, &seed.to_string(), &idx.to_string()])
            .stdin(Stdio::null())
            .output()
            .expect("spawn one");
        let dead = out.status.signal();
        if matches!(dead, Some(s) if s != libc::SIGKILL) {
            let msg = format!(
                "the process died with signal {} ({})",
                dead.unwrap(),
                String::from_utf8_lossy(&out.stderr).lines().last().unwrap_or("")
            );
            let path = format!("{}/replays/{}-crash-{}.txt", root(), id, seed);
            write_replay(&path, id, seed, idx, &[], &msg, &String::from_utf8_lossy(&out.stdout));
            println!("{}: case {} of seed {}: {}", id, idx, seed, msg);
            println!("VIOLATION property={} replay={}", prop.id, path);
            return 1;
        }
    }
    eprintln!("{}: worker died and the crash did not reproduce", id);
    3
}

fn replay(path: &str) -> i32 {
    let s = std::fs::read_to_string(path).expect("replay file");
    let mut id = String::new();
    let (mut seed, mut idx) = (1u64, 0u64);
    let mut choices: Vec<u64> = vec![];
    for l in s.lines() {
        if l == "---" {
            break;
        }
        if let Some(v) = l.strip_prefix("property=") {
            id = v.to_string();
        } else if let Some(v) = l.strip_prefix("seed=") {
            let mut it = v.split(" case=");
            seed = it.next().unwrap().parse().unwrap();
            idx = it.next().unwrap().parse().unwrap();
        } else if let Some(v) = l.strip_prefix("choices=") {
            choices = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        }
    }
    let prop = find(&id);
    install_panic_hook();
    let mut src = if choices.is_empty() {
        Src::random(case_seed(seed, prop.id, idx))
    } else {
        Src::replay(choices)
    };
    let mut case = Case { want_desc: true, ..Default::default() };
    let r = run_case(prop, &mut src, &mut case);
    println!("{}", case.desc);
    match r {
        Ok(()) => {
            println!("{}: replay passes", id);
            0
        }
        Err(m) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props() {
                println!("{} {}", p.id, p.quick);
            }
            0
        }
        Some("check") => check(&a[2]),
        Some("worker") => {
            limit_memory();
            let p = find(&a[2]);
            explore(p, &opts(p, Some(a[3].clone())))
        }
        Some("one") => {
            limit_memory();
            let p = find(&a[2]);
            install_panic_hook();
            let mut src = Src::random(case_seed(a[3].parse().unwrap(), p.id, a[4].parse().unwrap()));
            let mut case = Case { want_desc: true, ..Default::default() };
            let h = std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let r = run_case(p, &mut src, &mut case);
                    println!("{}", case.desc);
                    match r {
                        Ok(()) => 0,
                        Err(m) => {
                            println!("{}", m);
                            1
                        }
                    }
                })
                .unwrap();
            h.join().unwrap_or(1)
        }
        Some("replay") => replay(&a[2]),
        _ => {
            eprintln!("usage: htpcheck check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
