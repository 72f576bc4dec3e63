//! mc: bounded exhaustive exploration of radixdb. See /verif/DESIGN.md.
#![allow(clippy::type_complexity)]
mod alloc;
#[macro_use]
mod core;
mod profiles;
mod refmodel;
mod tree;
mod eng_map;
mod c_map;
mod c_join;
mod stores;
mod eng_attach;
mod c_attach;
mod codec;
mod c_format;
mod c_res;
mod c_share;
mod c_snap;
mod sysio;
#[cfg(feature = "sched")]
mod sched;
#[cfg(feature = "sched")]
mod c_conc;
mod c_durable;
mod c_paged;
mod c_blob;
mod c_bad;
mod c_fault;
mod c_lazy;
mod c_types;
mod checks;

use crate::core::*;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};
use std::sync::mpsc;
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Checked = alloc::Checked;

const MAX_WORKERS: usize = 64;
/// a counter in a cache line of its own
#[repr(align(128))]
struct Line(AtomicU64);

/// shared between the supervisor and its workers
#[repr(C)]
struct Shared {
    next: AtomicU64,
    stop: AtomicU64,
    unit: [AtomicU64; MAX_WORKERS],
    case: [Line; MAX_WORKERS],
    /// what a worker says before it aborts
    words: [[AtomicU8; WORDS]; MAX_WORKERS],
}
const WORDS: usize = 512;
static SHARED: AtomicUsize = AtomicUsize::new(0);
static SLOT: AtomicUsize = AtomicUsize::new(0);
fn shared() -> Option<&'static Shared> {
    let p = SHARED.load(SeqCst);
    if p == 0 {
        None
    } else {
        Some(unsafe { &*(p as *const Shared) })
    }
}
fn map_shared(fd: i32) {
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0)
    };
    assert!(p != libc::MAP_FAILED);
    SHARED.store(p as usize, SeqCst);
}
/// Tell the supervisor that a new case starts (watchdog, crash location).
pub fn tick() {
    if let Some(s) = shared() {
        s.case[SLOT.load(Relaxed)].0.fetch_add(1, Relaxed);
    }
}

/// End this process, with a reason that the supervisor reports.
#[allow(dead_code)]
pub fn die(why: &str) -> ! {
    if let Some(s) = shared() {
        for (a, b) in s.words[SLOT.load(SeqCst)].iter().zip(why.bytes()) {
            a.store(b, SeqCst);
        }
    }
    eprintln!("{why}");
    unsafe { libc::abort() }
}

fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{b:02x}")).collect()
}
fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(b'?')).collect();
    String::from_utf8_lossy(&b).into_owned()
}
fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

struct Args {
    id: String,
    thorough: bool,
    worker: Option<(i32, usize)>,
    only: Option<String>,
    verbose: bool,
    jobs: usize,
    list: bool,
}

fn run_unit(u: &Unit, thorough: bool) -> (Ctx, R<()>) {
    let mut ctx = Ctx { thorough, ..Default::default() };
    let r = guarded(|| "case".to_string(), || (u.run)(&mut ctx)).map_err(|v| Viol { what: v.what.trim_start_matches("case: ").to_string() });
    alloc::flush_quarantine();
    (ctx, r)
}

fn worker(check: Check, args: &Args) {
    let (fd, slot) = args.worker.unwrap();
    #[cfg(feature = "sched")]
    sched::pin(slot);
    map_shared(fd);
    SLOT.store(slot, SeqCst);
    let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    alloc::set_quarantine(check.quarantine);
    let thorough = args.thorough;
    let sh = shared().unwrap();
    let only = args.only.clone();
    // a big stack: recursion in the code under test is bounded by the depth of the trees we build
    std::thread::Builder::new()
        .stack_size(128 << 20)
        .spawn(move || loop {
            let i = if let Some(o) = &only {
                match check.units.iter().position(|u| &u.name == o) {
                    Some(i) if sh.next.fetch_add(1, SeqCst) == 0 => i,
                    _ => break,
                }
            } else {
                sh.next.fetch_add(1, SeqCst) as usize
            };
            if i >= check.units.len() || sh.stop.load(SeqCst) != 0 {
                break;
            }
            sh.unit[slot].store(i as u64, SeqCst);
            let t = Instant::now();
            let (ctx, r) = run_unit(&check.units[i], thorough);
            let mut line = format!(
                "U {i} {} {} {} {} {} {}",
                ctx.states,
                ctx.transitions,
                ctx.traces,
                ctx.evals,
                ctx.nontrivial,
                t.elapsed().as_millis()
            );
            for (k, v) in &ctx.notes {
                line += &format!(" n:{}:{v}", hex(k));
            }
            for s in &ctx.samples {
                line += &format!(" s:{}", hex(s));
            }
            if let Err(v) = r {
                line += &format!(" v:{}", hex(&v.what));
            }
            line.push('\n');
            let out = std::io::stdout();
            let mut out = out.lock();
            let _ = out.write_all(line.as_bytes());
            let _ = out.flush();
        })
        .unwrap()
        .join()
        .unwrap();
}

enum Msg {
    Line(String),
    End(usize),
}

struct Outcome {
    violations: Vec<(String, String)>,
    errors: Vec<String>,
    /// the time limit was reached
    late: bool,
    sum: Ctx,
    units_done: usize,
    slow: Vec<(u64, String)>,
}

fn spawn_worker(args: &Args, slot: usize, fd: i32, only: Option<&str>) -> Child {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg(&args.id).arg("--worker").arg(fd.to_string()).arg(slot.to_string());
    c.arg("--tier").arg(if args.thorough { "thorough" } else { "quick" });
    if let Some(o) = only {
        c.arg("--only").arg(o);
    }
    c.env("RUST_BACKTRACE", "0");
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::inherit());
    c.spawn().expect("spawn worker")
}

fn supervise(names: &[String], args: &Args, only: Option<&str>, deadline: Instant) -> Outcome {
    let fd = unsafe { libc::memfd_create(c"mc".as_ptr(), 0) };
    assert!(fd >= 0);
    assert!(unsafe { libc::ftruncate(fd, std::mem::size_of::<Shared>() as i64) } == 0);
    map_shared(fd);
    let sh = shared().unwrap();
    let n = if only.is_some() { 1 } else { args.jobs.min(names.len()).max(1) };
    let mut out = Outcome { violations: vec![], errors: vec![], late: false, sum: Ctx::default(), units_done: 0, slow: vec![] };
    let (tx, rx) = mpsc::channel();
    let mut children: Vec<Option<Child>> = vec![];
    for slot in 0..n {
        let mut ch = spawn_worker(args, slot, fd, only);
        let so = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines() {
                match l {
                    Ok(l) => drop(tx.send(Msg::Line(l))),
                    Err(_) => break,
                }
            }
            let _ = tx.send(Msg::End(slot));
        });
        children.push(Some(ch));
    }
    // no progress: so much processor time, or so much time, without a new case
    let (busy, hang) = if args.thorough { (240.0, 900) } else { (60.0, 300) };
    let mut last: Vec<(u64, Instant, f64)> = vec![(0, Instant::now(), 0.0); n];
    let mut running = n;
    while running > 0 {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(l)) => {
                let mut it = l.split(' ');
                if it.next() != Some("U") {
                    continue;
                }
                let f: Vec<&str> = it.collect();
                let i: usize = f[0].parse().unwrap();
                let num = |k: usize| f[k].parse::<u64>().unwrap();
                out.sum.states += num(1);
                out.sum.transitions += num(2);
                out.sum.traces += num(3);
                out.sum.evals += num(4);
                out.sum.nontrivial += num(5);
                out.slow.push((num(6), names[i].clone()));
                out.units_done += 1;
                for x in &f[7..] {
                    let (k, v) = x.split_at(2);
                    match k {
                        "n:" => {
                            let (k, v) = v.split_once(':').unwrap();
                            let k = unhex(k);
                            let v: u64 = v.parse().unwrap();
                            let e = out.sum.notes.entry(k.clone()).or_default();
                            *e = if k.starts_with("max_") { (*e).max(v) } else { *e + v };
                        }
                        "s:" => {
                            let s = unhex(v);
                            if out.sum.samples.len() < 6 {
                                out.sum.samples.push(format!("{}: {s}", names[i]));
                            }
                        }
                        "v:" => {
                            out.violations.push((names[i].clone(), unhex(v)));
                            sh.stop.store(1, SeqCst);
                        }
                        _ => {}
                    }
                }
            }
            Ok(Msg::End(slot)) => {
                running -= 1;
                let st = children[slot].take().unwrap().wait().unwrap();
                if !st.success() {
                    let u = sh.unit[slot].load(SeqCst) as usize;
                    let case = sh.case[slot].0.load(SeqCst);
                    let name = names.get(u).cloned().unwrap_or_default();
                    let desc = match st.signal() {
                        Some(s) => format!("killed by signal {s}"),
                        None => format!("exit status {:?}", st.code()),
                    };
                    let words: Vec<u8> = sh.words[slot].iter().map(|x| x.load(SeqCst)).take_while(|x| *x != 0).collect();
                    let words = String::from_utf8_lossy(&words);
                    let what = format!("the process under test ended abnormally ({desc}) in unit {name}, at its case number {case}{}{words}", if words.is_empty() { "" } else { ": " });
                    if st.signal() == Some(libc::SIGKILL) || st.signal().is_none() {
                        out.errors.push(what);
                    } else {
                        out.violations.push((name, what));
                        sh.stop.store(1, SeqCst);
                    }
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        let now = Instant::now();
        for slot in 0..n {
            if children[slot].is_none() {
                continue;
            }
            let c = sh.case[slot].0.load(SeqCst).wrapping_mul(31).wrapping_add(sh.unit[slot].load(SeqCst));
            let cpu = children[slot].as_ref().map_or(0.0, |c| cpu_seconds(c.id()));
            if c != last[slot].0 {
                last[slot] = (c, now, cpu);
            } else if cpu - last[slot].2 > busy || now.duration_since(last[slot].1).as_secs() > hang {
                let u = sh.unit[slot].load(SeqCst) as usize;
                let name = names.get(u).cloned().unwrap_or_default();
                let what = format!("no progress for {} s ({:.0} s of work) in unit {name}, at its case number {}", now.duration_since(last[slot].1).as_secs(), cpu - last[slot].2, sh.case[slot].0.load(SeqCst));
                out.violations.push((name, what));
                let _ = children[slot].as_mut().unwrap().kill();
                last[slot] = (c, now + Duration::from_secs(100000), f64::MAX);
                sh.stop.store(1, SeqCst);
            }
        }
        if now > deadline || (!out.violations.is_empty() && sh.stop.load(SeqCst) == 1) {
            if now > deadline {
                out.late = true;
            }
            for c in children.iter_mut().flatten() {
                let _ = c.kill();
            }
            for c in children.iter_mut().flatten() {
                let _ = c.wait();
            }
            break;
        }
    }
    out
}

/// seconds since check.sh was started
pub fn since_start() -> u64 {
    let now = std::time::SystemTime::UNIX_EPOCH.elapsed().map_or(0, |n| n.as_secs());
    std::env::var("MC_START").ok().and_then(|x| x.parse::<u64>().ok()).map_or(0, |s| now.saturating_sub(s))
}
/// processor time that a process has used
fn cpu_seconds(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<f64> = s.rsplit(')').next().unwrap_or("").split(' ').skip(12).take(2).filter_map(|x| x.parse().ok()).collect();
    f.iter().sum::<f64>() / 100.0
}

fn evidence(check: &Check, args: &Args, out: &Outcome, wall: f64) {
    let s = &out.sum;
    let complete = out.errors.is_empty() && !out.late && !s.notes.keys().any(|k| k.contains("cut")) && out.violations.is_empty();
    let mut cov: BTreeMap<&str, String> = BTreeMap::new();
    cov.insert("rule", json_str(check.rule));
    cov.insert("bounds", json_str(&check.bounds));
    cov.insert("samples", format!("[{}]", s.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",")));
    cov.insert("units", format!("{}", out.units_done));
    cov.insert("exhaustive", format!("{complete}"));
    if check.level == "model_checking" {
        cov.insert("states", s.states.to_string());
        cov.insert("transitions", s.transitions.to_string());
        cov.insert("traces_validated_against_impl", s.traces.to_string());
        cov.insert("oracle_evaluations", s.evals.to_string());
    } else {
        cov.insert("evaluations", s.evals.to_string());
        cov.insert("distinct_nontrivial", s.nontrivial.to_string());
        cov.insert("histories", s.traces.to_string());
        cov.insert("fault_points", s.transitions.to_string());
    }
    cov.insert(
        "details",
        format!("{{{}}}", s.notes.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", ")),
    );
    let txt = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json_str(check.id),
        json_str(if args.thorough { "thorough" } else { "quick" }),
        std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1),
        json_str(check.level),
        cov.iter().map(|(k, v)| format!("  {}: {v}", json_str(k))).collect::<Vec<_>>().join(",\n"),
        check.assumptions.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "),
        wall,
        out.violations.len()
    );
    let root = verif_root();
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", check.id), txt) {
        eprintln!("cannot write evidence: {e}");
    }
}
fn verif_root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn main() {
    install_panic_hook();
    let mut a: Vec<String> = std::env::args().skip(1).collect();
    let mut args = Args {
        id: String::new(),
        thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"),
        worker: None,
        only: None,
        verbose: false,
        jobs: std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 16),
        list: false,
    };
    if a.first().map(|x| x == "replay").unwrap_or(false) {
        let txt = std::fs::read_to_string(&a[1]).expect("replay file");
        let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string();
        a = vec![get("property"), "--tier".into(), get("tier"), "--only".into(), get("unit")];
    }
    let mut i = 0;
    while i < a.len() {
        match a[i].as_str() {
            "--worker" => {
                args.worker = Some((a[i + 1].parse().unwrap(), a[i + 2].parse().unwrap()));
                i += 2;
            }
            "--tier" => {
                args.thorough = a[i + 1] == "thorough";
                i += 1;
            }
            "--only" => {
                args.only = Some(a[i + 1].clone());
                i += 1;
            }
            "--jobs" => {
                args.jobs = a[i + 1].parse().unwrap();
                i += 1;
            }
            "-v" => args.verbose = true,
            "--list" => args.list = true,
            x => args.id = x.to_string(),
        }
        i += 1;
    }
    let Some(check) = checks::get(&args.id, args.thorough) else {
        eprintln!("unknown property {:?}; known: {:?}", args.id, checks::IDS);
        std::process::exit(2)
    };
    if args.list {
        for u in &check.units {
            println!("{}", u.name);
        }
        return;
    }
    if args.worker.is_some() {
        worker(check, &args);
        return;
    }
    let t0 = Instant::now();
    let names: Vec<String> = check.units.iter().map(|x| x.name.clone()).collect();
    {
        let mut s = names.clone();
        s.sort();
        s.dedup();
        assert!(s.len() == names.len(), "unit names must be unique");
    }
    // the quick tier ends in time whatever the build took
    let built = since_start();
    let deadline = t0 + Duration::from_secs(if args.thorough { 6 * 3600 } else { 840u64.saturating_sub(built).max(60) });
    let out = supervise(&names, &args, args.only.as_deref(), deadline);
    let wall = t0.elapsed().as_secs_f64();
    if args.only.is_none() {
        evidence(&check, &args, &out, wall);
    }
    println!(
        "{} {}: units={}/{} states={} transitions={} traces={} evals={} nontrivial={} wall={:.1}s",
        check.id,
        if args.thorough { "thorough" } else { "quick" },
        out.units_done,
        names.len(),
        out.sum.states,
        out.sum.transitions,
        out.sum.traces,
        out.sum.evals,
        out.sum.nontrivial,
        wall
    );
    if args.verbose {
        let mut slow = out.slow.clone();
        slow.sort();
        slow.reverse();
        for (ms, n) in slow.iter().take(12) {
            println!("  {ms} ms {n}");
        }
        println!("  cpu {} ms; notes {:?}", slow.iter().map(|x| x.0).sum::<u64>(), out.sum.notes);
        for s in &out.sum.samples {
            println!("  sample {s}");
        }
    }
    if let Some((unit, what)) = out.violations.first() {
        let dir = format!("{}/replays", verif_root());
        let _ = std::fs::create_dir_all(&dir);
        let slug: String = unit.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' }).take(80).collect();
        let path = format!("{dir}/{}-{slug}.txt", check.id);
        let _ = std::fs::write(
            &path,
            format!(
                "property: {}\ntier: {}\nunit: {unit}\nviolation: {what}\nrerun: /verif/check.sh replay {path}\n",
                check.id,
                if args.thorough { "thorough" } else { "quick" }
            ),
        );
        println!("unit {unit}: {what}");
        println!("VIOLATION property={} replay={path}", check.id);
        std::process::exit(1);
    }
    if !out.errors.is_empty() {
        for e in &out.errors {
            println!("ERROR {e}");
        }
        std::process::exit(2);
    }
    if out.late && out.units_done > 0 {
        println!("INCOMPLETE: time limit reached, {} of {} units done; nothing found in these", out.units_done, names.len());
        return;
    }
    if out.units_done != names.len() && args.only.is_none() {
        println!("ERROR not all units were run");
        std::process::exit(2);
    }
}
