//! Starts the processes of a case and collects what they observed.
use crate::case::Case;
use crate::child;
use crate::events::{self, Ev};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Finished,
    Panicked(String),
    /// ended by a signal that the process's own doing can cause
    Killed(i32),
    /// did not end within the time limit; what the processes were doing is unknown
    TimedOut,
    /// stopped by the address sanitizer
    Sanitizer(String),
    /// takes more and more memory (kB)
    Memory(u64),
    /// the harness itself failed
    Harness(String),
}

pub struct NodeRun {
    pub events: Vec<Ev>,
    pub score_file: Option<Vec<u8>>,
    pub contribution_file: Option<Vec<u8>>,
}

pub struct Run {
    pub outcome: Outcome,
    pub nodes: Vec<NodeRun>,
    pub wall: Duration,
    /// processor time of the children while the limit ran out
    pub idle: bool,
    /// most threads that were seen alive in one process at the same time
    pub threads: u64,
    /// most memory of a process that was seen in use, in kB
    pub memory: u64,
    /// how each process ended: exit code or minus the signal; None if it did not end by itself
    pub codes: Vec<Option<i32>>,
}

pub const SIGKILL: i32 = 9;
const SIGCONT: i32 = 18;
const SIGSTOP: i32 = 19;

extern "C" {
    fn kill(pid: i32, signal: i32) -> i32;
}

/// Only for this process and its children.
pub fn signal(pid: u32, signal: i32) {
    // SAFETY: kill(2) has no memory effects
    unsafe {
        kill(pid as i32, signal);
    }
}

static COUNTER: AtomicU64 = AtomicU64::new(0);

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        let base = std::env::var("S2GPP_MONITOR_SCRATCH")
            .map(PathBuf::from)
            .unwrap_or_else(|_| std::env::temp_dir());
        let p = base.join(format!(
            "s2gpp-monitor-{}-{}",
            std::process::id(),
            COUNTER.fetch_add(1, Ordering::SeqCst)
        ));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

static PORT: AtomicUsize = AtomicUsize::new(0);

static BASE: std::sync::OnceLock<usize> = std::sync::OnceLock::new();

/// Different for checks that run at the same time, also in different containers.
fn first_port() -> usize {
    let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|t| t.as_nanos() as u64).unwrap_or(0);
    crate::case::Rng::new(t ^ (std::process::id() as u64) << 40).int(0, 19_999)
}

/// Ports outside of the range the system hands out to clients, each used once per process.
fn free_ports(n: usize) -> Vec<u16> {
    let mut out = vec![];
    while out.len() < n {
        let p = 10_000 + (*BASE.get_or_init(first_port) + PORT.fetch_add(1, Ordering::SeqCst)) % 20_000;
        if std::net::TcpListener::bind(("127.0.0.1", p as u16)).is_ok() {
            out.push(p as u16);
        }
    }
    out
}

/// Whether somebody listens on a local port, without connecting to it.
fn listening(port: u16) -> bool {
    let want = format!(":{:04X}", port);
    std::fs::read_to_string("/proc/net/tcp")
        .unwrap_or_default()
        .lines()
        .any(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            f.len() > 3 && f[1].ends_with(&want) && f[3] == "0A"
        })
}

/// No execution on the unchanged code uses a quarter of this (kB). One that does not stop taking
/// memory is ended before it takes that of everybody else.
const MEMORY_LIMIT: u64 = 1_500_000;

/// Threads and resident memory of a process
fn status(pid: u32) -> (u64, u64) {
    let s = std::fs::read_to_string(format!("/proc/{}/status", pid)).unwrap_or_default();
    let get = |key: &str| {
        s.lines()
            .find_map(|l| l.strip_prefix(key))
            .and_then(|l| l.split_whitespace().next())
            .and_then(|x| x.parse::<u64>().ok())
            .unwrap_or(0)
    };
    (get("Threads:"), get("VmRSS:"))
}

/// utime+stime of a process in clock ticks
fn cpu_ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

pub fn run(case: &Case, limit: Duration) -> Run {
    let scratch = Scratch::new();
    let dir = &scratch.0;
    let case_path = dir.join("case.json");
    std::fs::write(&case_path, serde_json::to_string(case).unwrap()).unwrap();
    if case.mode != "array" {
        child::write_csv(case, &dir.join("data.csv"));
    }
    if case.stale {
        for node in 0..case.nodes {
            let old = "0.25\n".repeat(2 * case.data.rows + 7);
            std::fs::write(dir.join(format!("score.{}", node)), &old).unwrap();
            if case.explain {
                std::fs::write(dir.join(format!("contribution.{}", node)), &old).unwrap();
            }
        }
    }
    let ports = if case.nodes > 1 { free_ports(case.nodes) } else { vec![] };
    let exe = std::env::current_exe().unwrap();
    let start = Instant::now();
    let mut children = vec![];
    for node in 0..case.nodes {
        if node > 0 {
            // a node that joins must find the ones before it
            let t = Instant::now();
            let before = if case.rush { 0 } else { node - 1 };
            while !listening(ports[before]) && t.elapsed() < Duration::from_secs(20) {
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        let log = std::fs::File::create(dir.join(format!("log.{}", node))).unwrap();
        let mut command = if case.mode == "cli" {
            let mut c = Command::new(exe.with_file_name("s2gpp"));
            c.args(child::arguments(case, dir, node, &ports));
            c
        } else {
            let mut c = Command::new(&exe);
            c.arg("child")
                .arg(&case_path)
                .arg(dir)
                .arg(node.to_string())
                .arg(ports.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(","));
            c
        };
        let c = command
            .env("OPENBLAS_NUM_THREADS", "1")
            .env("RUST_BACKTRACE", "0")
            .current_dir(dir)
            .stdin(Stdio::null())
            .stdout(log.try_clone().unwrap())
            .stderr(log)
            .spawn();
        match c {
            Ok(c) => children.push(c),
            Err(e) => {
                for mut c in children {
                    let _ = c.kill();
                    let _ = c.wait();
                }
                return Run {
                    outcome: Outcome::Harness(e.to_string()),
                    nodes: vec![],
                    wall: start.elapsed(),
                    idle: false,
                    threads: 0,
                    memory: 0,
                    codes: vec![],
                };
            }
        }
    }
    let mut codes: Vec<Option<i32>> = vec![None; children.len()];
    let mut timed_out = false;
    let mut idle = false;
    let (mut threads, mut memory) = (0, 0);
    let mut ticks = 0u64;
    // processor time does not move any more for this long: nothing is running
    let mut last_progress = Instant::now();
    let mut pauses = crate::case::Rng::new(case.pauses);
    let mut next_pause = Instant::now() + Duration::from_millis(pauses.int(0, 200) as u64);
    let mut stopped: Option<(usize, Instant)> = None;
    let mut long_pause = case.long_pause;
    loop {
        let mut running = false;
        for (i, c) in children.iter_mut().enumerate() {
            if codes[i].is_none() {
                match c.try_wait() {
                    Ok(Some(s)) => {
                        use std::os::unix::process::ExitStatusExt;
                        codes[i] = Some(s.code().unwrap_or_else(|| -s.signal().unwrap_or(1)))
                    }
                    Ok(None) => running = true,
                    Err(_) => codes[i] = Some(-2),
                }
            }
        }
        if !running || (case.crash.is_none() && case.defect.is_empty() && codes.iter().any(|c| matches!(c, Some(x) if *x != 0))) {
            break;
        }
        if let Some((node, at)) = case.crash {
            if at >= 1000 && codes[node].is_none() && start.elapsed() > Duration::from_millis(at as u64 - 1000) {
                signal(children[node].id(), SIGKILL);
            }
        }
        // a child that was not waited for keeps its id, so the signals cannot reach another process
        if case.pauses != 0 || case.long_pause != 0 {
            match stopped {
                None if Instant::now() > next_pause => {
                    let i = pauses.int(0, children.len() - 1);
                    if codes[i].is_none() {
                        signal(children[i].id(), SIGSTOP);
                        let ms = if long_pause > 0 {
                            std::mem::take(&mut long_pause) as usize
                        } else if pauses.chance(0.8) { pauses.int(5, 60) } else { pauses.int(60, 250) };
                        stopped = Some((i, Instant::now() + Duration::from_millis(ms as u64)));
                    }
                }
                Some((i, until)) if Instant::now() > until => {
                    if codes[i].is_none() {
                        signal(children[i].id(), SIGCONT);
                    }
                    stopped = None;
                    next_pause = Instant::now() + Duration::from_millis(pauses.int(0, 100) as u64);
                }
                _ => {}
            }
        }
        for (c, code) in children.iter().zip(&codes) {
            if code.is_none() {
                let (t, m) = status(c.id());
                threads = threads.max(t);
                memory = memory.max(m);
            }
        }
        if memory > MEMORY_LIMIT {
            break;
        }
        let now: u64 = children
            .iter()
            .zip(&codes)
            .filter(|(_, code)| code.is_none())
            .filter_map(|(c, _)| cpu_ticks(c.id()))
            .sum();
        // idle processes still tick occasionally (timers), so a little progress does not count
        if now > ticks + 2 {
            ticks = now;
            last_progress = Instant::now();
        }
        idle = last_progress.elapsed() > Duration::from_secs(20);
        if idle || start.elapsed() > limit {
            timed_out = true;
            break;
        }
        std::thread::sleep(Duration::from_millis(4));
    }
    for (c, code) in children.iter_mut().zip(codes.iter()) {
        if code.is_none() {
            let _ = c.kill();
        }
        let _ = c.wait();
    }
    let wall = start.elapsed();
    let mut panic_text = String::new();
    let nodes = (0..case.nodes)
        .map(|node| {
            if let Ok(p) = std::fs::read_to_string(dir.join(format!("panic.{}", node))) {
                panic_text += &format!("node {}: {}", node, p);
            }
            NodeRun {
                events: events::read_all(&dir.join(format!("events.{}", node))).unwrap_or_default(),
                score_file: std::fs::read(dir.join(format!("score.{}", node))).ok(),
                contribution_file: std::fs::read(dir.join(format!("contribution.{}", node))).ok(),
            }
        })
        .collect();
    if case.mode == "cli" {
        if let Some((i, bad)) = codes.iter().enumerate().find(|(_, c)| matches!(c, Some(x) if *x > 0)) {
            let log = std::fs::read_to_string(dir.join(format!("log.{}", i))).unwrap_or_default();
            let tail: Vec<&str> = log.lines().rev().take(4).collect();
            panic_text = format!("the program ended with {}: {}", bad.unwrap(), tail.into_iter().rev().collect::<Vec<_>>().join(" | "));
        }
    }
    let sanitizer = (0..children.len()).find_map(|i| sanitizer_report(&dir.join(format!("log.{}", i))));
    let outcome = if let Some(report) = sanitizer {
        Outcome::Sanitizer(report)
    } else if memory > MEMORY_LIMIT {
        Outcome::Memory(memory)
    } else if let Some(bad) = codes
        .iter()
        .enumerate()
        .filter(|(i, _)| case.crash.map(|c| c.0) != Some(*i))
        .filter_map(|(_, c)| c.as_ref())
        .find(|c| **c != 0)
    {
        if panic_text.contains("AddrInUse") {
            Outcome::Harness(panic_text)
        } else if panic_text.is_empty() && [-4, -6, -7, -8, -11].contains(bad) {
            Outcome::Killed(-bad)
        } else if panic_text.is_empty() {
            Outcome::Harness(format!("child ended with {}", bad))
        } else {
            Outcome::Panicked(panic_text)
        }
    } else if timed_out {
        Outcome::TimedOut
    } else {
        Outcome::Finished
    };
    Run { outcome, nodes, wall, idle, threads, memory, codes }
}

/// Whether this build, and thereby everything it starts, is watched by the address sanitizer.
pub fn sanitized() -> bool {
    std::env::var("VERIF_SANITIZER").is_ok()
}

/// What the address sanitizer reports about a process, and where it happened.
fn sanitizer_report(log: &std::path::Path) -> Option<String> {
    if !sanitized() {
        return None;
    }
    let log = String::from_utf8_lossy(&std::fs::read(log).ok()?).into_owned();
    let mut lines = log.lines().skip_while(|l| !l.contains("ERROR: AddressSanitizer"));
    let head = lines.next()?.to_string();
    let frames: Vec<&str> = lines.filter(|l| l.trim_start().starts_with('#') && l.contains("s2gpp")).take(3).map(|l| l.trim()).collect();
    Some(format!("{} {}", head, frames.join(" ")))
}

/// Does what the sanitizer must notice, to see that it does.
pub fn canary() -> i32 {
    let v: Vec<u8> = vec![1; std::hint::black_box(24)];
    let p = std::hint::black_box(v.as_ptr());
    // SAFETY: none, one byte beyond the end of the allocation
    let x = unsafe { std::ptr::read_volatile(p.wrapping_add(std::hint::black_box(24))) };
    println!("{}", x);
    0
}

/// Whether the sanitizer is at work.
pub fn canary_found() -> bool {
    Command::new(std::env::current_exe().unwrap())
        .arg("canary")
        .output()
        .map(|o| String::from_utf8_lossy(&o.stderr).contains("heap-buffer-overflow"))
        .unwrap_or(false)
}

/// Runs `f` on every item, on `width` threads, in order of the items.
pub fn parallel<T: Sync, R: Send>(
    items: &[T],
    width: usize,
    deadline: Instant,
    f: impl Fn(usize, &T) -> R + Sync,
) -> Vec<Option<R>> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<Option<R>>> = Mutex::new((0..items.len()).map(|_| None).collect());
    std::thread::scope(|s| {
        for _ in 0..width {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= items.len() || Instant::now() > deadline {
                    break;
                }
                let r = f(i, &items[i]);
                out.lock().unwrap()[i] = Some(r);
            });
        }
    });
    out.into_inner().unwrap()
}
