//! Runs the parts of a check over generated cases, shrinks failures, writes replay files and
//! evidence. The cases run in a child process, so that crashes, hangs and memory exhaustion
//! of the code under test are reported as violations of the case that caused them.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use support::Entry;
use xmodel::schema::Family;
use xmodel::src::{hash_str, mix, shrink, Src};

pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
    pub fams: Vec<Family>,
    pub entries: Vec<&'static Entry>,
}

/// What a case reports about itself
#[derive(Default)]
pub struct Obs {
    /// index of the case in its part
    pub index: u64,
    /// identity of the case, 0 if it generated nothing
    pub key: u64,
    pub nontrivial: bool,
    /// further calls of the code under test
    pub runs: u64,
    pub sample: Option<String>,
    pub tags: BTreeMap<String, u64>,
    /// only count, do not describe
    pub quiet: bool,
}

impl Obs {
    pub fn tag(&mut self, t: &str) {
        *self.tags.entry(t.to_owned()).or_default() += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.quiet && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn key(&mut self, parts: &[&str]) {
        let v: Vec<u64> = parts.iter().map(|p| hash_str(p)).collect();
        self.key = mix(&v) | 1;
    }
}

pub type CaseFn = fn(&Cx, &mut Src, &mut Obs) -> Result<(), String>;

pub struct Part {
    pub name: &'static str,
    pub quick: u64,
    /// thorough count as a multiple
    pub factor: u64,
    pub f: CaseFn,
}

pub fn part(name: &'static str, quick: u64, f: CaseFn) -> Part {
    Part { name, quick, factor: 20, f }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
    /// probes of known findings: (name in known_findings.txt, what fails, probe); true = still fails
    pub known: Vec<(&'static str, fn() -> bool)>,
}

thread_local! {
    static PANIC: RefCell<Option<(String, bool)>> = const { RefCell::new(None) };
}

/// A failure that is the harness' own fault
const BROKEN: &str = "HARNESS ERROR: ";

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_owned(), l.line())).unwrap_or_default();
        let msg = match (info.payload().downcast_ref::<&str>(), info.payload().downcast_ref::<String>()) {
            (Some(s), _) => s.to_string(),
            (_, Some(s)) => s.clone(),
            _ => "panic".into(),
        };
        // relative paths are the crates of the harness workspace
        let own = ["xmodel/", "support/", "harness/", "types/"].iter().any(|p| loc.0.starts_with(p))
            || (loc.0.ends_with("families.rs") && msg.contains("entered unreachable code"));
        PANIC.with(|p| *p.borrow_mut() = Some((format!("panic at {}:{}: {msg}", loc.0, loc.1), own)));
    }));
}

pub fn run_case(cx: &Cx, p: &Part, index: u64, src: &mut Src, obs: &mut Obs) -> Result<(), String> {
    obs.index = index;
    match catch_unwind(AssertUnwindSafe(|| (p.f)(cx, src, obs))) {
        Ok(r) => r,
        Err(_) => {
            let (msg, own) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panic".into(), false));
            Err(if own { format!("{BROKEN}{msg}") } else { msg })
        }
    }
}

fn case_seed(cx: &Cx, check: &Check, part: &Part, index: u64) -> u64 {
    mix(&[cx.seed, types::SEED, hash_str(check.id), hash_str(part.name), index])
}

fn count(cx: &Cx, check: &Check, p: &Part) -> u64 {
    // these take longer per case
    let slow = matches!(check.id, "C11" | "C12" | "C18");
    match cx.thorough {
        true => p.quick * p.factor,
        false => p.quick * if slow { 2 } else { 4 },
    }
}

#[derive(Default)]
struct Stats {
    evals: u64,
    runs: u64,
    keys: HashSet<u64>,
    tags: BTreeMap<String, u64>,
    samples: Vec<String>,
}

struct Failure {
    part: usize,
    index: u64,
    choices: Vec<u64>,
    msg: String,
}

const THREADS: usize = 8;

fn run_part(cx: &Cx, check: &Check, pi: usize, slots: &fs::File, deadline: Instant, stats: &mut Stats) -> Result<Option<Failure>, String> {
    let p = &check.parts[pi];
    let n = count(cx, check, p);
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    let late = AtomicBool::new(false);
    let fail: Mutex<Option<Failure>> = Mutex::new(None);
    let all: Mutex<Vec<Stats>> = Mutex::new(Vec::new());
    let chunk = (n / (THREADS as u64 * 16)).clamp(1, 64);
    std::thread::scope(|sc| {
        for t in 0..THREADS {
            let (next, stop, fail, all, late) = (&next, &stop, &fail, &all, &late);
            // the size of a default thread stack
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    'outer: loop {
                        let start = next.fetch_add(chunk, Ordering::SeqCst);
                        if start >= n || start > stop.load(Ordering::SeqCst) {
                            break;
                        }
                        if Instant::now() > deadline {
                            late.store(true, Ordering::SeqCst);
                            break;
                        }
                        for index in start..(start + chunk).min(n) {
                            if index > stop.load(Ordering::SeqCst) {
                                break 'outer;
                            }
                            let mut rec = [0u8; 24];
                            rec[..8].copy_from_slice(&(pi as u64 + 1).to_le_bytes());
                            rec[8..16].copy_from_slice(&index.to_le_bytes());
                            let now = START.get().unwrap().elapsed().as_millis() as u64;
                            rec[16..].copy_from_slice(&now.to_le_bytes());
                            let _ = slots.write_at(&rec, t as u64 * 24);
                            let mut src = Src::random(case_seed(cx, check, p, index));
                            let mut obs = Obs { quiet: st.samples.len() >= 2, ..Obs::default() };
                            let r = run_case(cx, p, index, &mut src, &mut obs);
                            st.evals += 1;
                            st.runs += obs.runs;
                            for (k, v) in obs.tags {
                                *st.tags.entry(k).or_default() += v;
                            }
                            if obs.nontrivial && obs.key != 0 {
                                st.keys.insert(obs.key);
                                if let Some(s) = obs.sample {
                                    st.samples.push(s);
                                }
                            }
                            if let Err(msg) = r {
                                stop.fetch_min(index, Ordering::SeqCst);
                                let mut f = fail.lock().unwrap();
                                if f.as_ref().map_or(true, |f| index < f.index) {
                                    *f = Some(Failure { part: pi, index, choices: src.rec, msg });
                                }
                            }
                        }
                    }
                    let _ = slots.write_at(&[0u8; 24], t as u64 * 24);
                    all.lock().unwrap().push(st);
                })
                .unwrap();
        }
    });
    if late.load(Ordering::SeqCst) {
        *stats.tags.entry(format!("stopped early: {}", p.name)).or_default() += 1;
    }
    let mut per = 0;
    for st in all.into_inner().unwrap() {
        per += st.evals;
        stats.evals += st.evals;
        stats.runs += st.runs;
        stats.keys.extend(st.keys);
        for (k, v) in st.tags {
            *stats.tags.entry(k).or_default() += v;
        }
        for s in st.samples.into_iter().take(1) {
            if stats.samples.len() < 4 * (pi + 1) && stats.samples.len() < 10 {
                stats.samples.push(format!("[{}] {s}", p.name));
            }
        }
    }
    *stats.tags.entry(format!("cases: {}", p.name)).or_default() += per;
    Ok(fail.into_inner().unwrap())
}

static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn shrink_failure(cx: &Cx, check: &Check, f: Failure) -> Failure {
    let p = &check.parts[f.part];
    let until = Instant::now() + Duration::from_secs(20);
    let best = shrink(f.choices.clone(), 4000, |cand| {
        if Instant::now() > until {
            return None;
        }
        let mut src = Src::replay(cand);
        let mut obs = Obs { quiet: true, ..Obs::default() };
        match run_case(cx, p, f.index, &mut src, &mut obs) {
            Err(m) if !m.starts_with(BROKEN) => Some(src.rec),
            _ => None,
        }
    });
    let mut src = Src::replay(best.clone());
    let mut obs = Obs { quiet: true, ..Obs::default() };
    match run_case(cx, p, f.index, &mut src, &mut obs) {
        Err(msg) if !msg.starts_with(BROKEN) => Failure { msg, choices: best, ..f },
        _ => f,
    }
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn evidence_dir() -> PathBuf {
    std::env::var("XM_EVIDENCE").map(PathBuf::from).unwrap_or_else(|_| root().join("evidence"))
}

fn write_replay(check: &Check, f: &Failure) -> PathBuf {
    let dir = evidence_dir().join("replay");
    let _ = fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{:016x}.txt", check.id, mix(&[hash_str(&f.msg), f.index])));
    let choices: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
    let text = format!(
        "property: {}\npart: {}\nindex: {}\nseed: {}\ntype_seed: {}\nfamilies: {}\nthemes: {}\nchoices: {}\nrerun: python3 /verif/check.py replay {}\n\n{}\n",
        check.id,
        check.parts[f.part].name,
        f.index,
        std::env::var("VERIF_SEED").unwrap_or_default(),
        types::SEED,
        types::FAMILIES,
        types::THEMES,
        choices.join(" "),
        path.display(),
        f.msg
    );
    let _ = fs::write(&path, text);
    path
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_evidence(cx: &Cx, check: &Check, st: &Stats, violations: u64, known: &[String], wall: f64) {
    let dir = evidence_dir();
    let _ = fs::create_dir_all(&dir);
    let list = |v: &[String]| v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
    let tags: Vec<String> = st.tags.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
    let samples: Vec<String> = st.samples.iter().map(|s| s.chars().take(1500).collect()).collect();
    let text = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"calls\": {}, \"type_seed\": {}, \"families\": {}, \"types\": {}, \"counts\": {{{}}}, \"known_findings_still_failing\": [{}]}}, \"assumptions\": [{}], \"wall_s\": {wall:.3}, \"violations\": {violations}}}\n",
        json(check.id),
        json(if cx.thorough { "thorough" } else { "quick" }),
        cx.seed,
        json(check.level),
        st.evals,
        st.keys.len(),
        json(check.rule),
        list(&samples),
        st.runs + st.evals,
        types::SEED,
        cx.fams.len(),
        cx.entries.len(),
        tags.join(", "),
        list(known),
        list(&check.assumptions.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
    );
    let _ = fs::write(dir.join(format!("{}.json", check.id)), text);
}

fn slots_path() -> PathBuf {
    std::env::temp_dir().join(format!("xm-slots-{}", std::process::id()))
}

/// Where the child notes the first failure in case it does not survive shrinking
fn fail_path(slots: &Path) -> PathBuf {
    slots.with_extension("fail")
}

/// In the child: all parts. Exit 0 fine, 1 violation, 2 error
pub fn child(cx: &Cx, check: &Check, slots: &Path) -> ExitCode {
    install_hook();
    START.set(Instant::now()).unwrap();
    let slots_name = slots;
    let slots = fs::OpenOptions::new().write(true).open(slots).unwrap();
    let mut st = Stats::default();
    let limit = if cx.thorough { 1500 } else { 400 };
    let deadline = Instant::now() + Duration::from_secs(limit);
    let mut known = Vec::new();
    let listed = fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    for (name, probe) in &check.known {
        let fails = catch_unwind(AssertUnwindSafe(probe)).unwrap_or(true);
        if !fails {
            continue;
        }
        let entry = listed.lines().find(|l| {
            let mut w = l.split_whitespace();
            w.next() == Some("known:") && w.next() == Some(&format!("property={}", check.id)) && w.next() == Some(&format!("finding={name}"))
        });
        match entry {
            Some(l) => {
                let what = l.split_whitespace().skip(3).collect::<Vec<_>>().join(" ");
                println!("KNOWN-FINDING: property={} {name}: {what}", check.id);
                known.push(format!("{name}: {what}"));
            }
            None => {
                let f = Failure { part: 0, index: 0, choices: vec![], msg: format!("known-finding probe {name} fails but is not listed") };
                let path = write_replay(check, &f);
                println!("VIOLATION property={} replay={}", check.id, path.display());
                return ExitCode::from(1);
            }
        }
    }
    let mut failure = None;
    for pi in 0..check.parts.len() {
        match run_part(cx, check, pi, &slots, deadline, &mut st) {
            Ok(None) => {}
            Ok(Some(f)) => {
                failure = Some(f);
                break;
            }
            Err(e) => {
                eprintln!("{e}");
                return ExitCode::from(2);
            }
        }
    }
    let wall = START.get().unwrap().elapsed().as_secs_f64();
    match failure {
        None => {
            write_evidence(cx, check, &st, 0, &known, wall);
            println!(
                "OK property={} cases={} distinct_nontrivial={} wall={wall:.1}s",
                check.id,
                st.evals,
                st.keys.len()
            );
            ExitCode::SUCCESS
        }
        Some(f) if f.msg.starts_with(BROKEN) => {
            println!("error in part {} case {}: {}", check.parts[f.part].name, f.index, f.msg);
            ExitCode::from(2)
        }
        Some(f) => {
            // a crash while shrinking must not hide the failure
            let first = write_replay(check, &f);
            write_evidence(cx, check, &st, 1, &known, wall);
            println!("first failure: {}", first.display());
            let _ = fs::write(fail_path(slots_name), first.display().to_string());
            let _ = std::io::stdout().flush();
            let small = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(sc, || shrink_failure(cx, check, f))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            let path = write_replay(check, &small);
            println!("{}", small.msg);
            println!("VIOLATION property={} replay={}", check.id, path.display());
            ExitCode::from(1)
        }
    }
}

/// One case of one part in this process, as found in a run
pub fn single(cx: &Cx, check: &Check, pi: usize, index: u64) -> ExitCode {
    install_hook();
    START.set(Instant::now()).unwrap();
    let p = &check.parts[pi];
    let mut src = Src::random(case_seed(cx, check, p, index));
    let mut obs = Obs { quiet: true, ..Obs::default() };
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(sc, || run_case(cx, p, index, &mut src, &mut obs))
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok(()) => ExitCode::SUCCESS,
        Err(m) => {
            println!("{m}");
            ExitCode::from(1)
        }
    }
}

fn limited(args: &[String]) -> Command {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new("sh");
    // 10 GB of address space: an endless allocation ends as an abort, not as memory pressure
    c.arg("-c").arg("ulimit -v 10000000; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).args(args);
    c.stdin(Stdio::null());
    c
}

fn cpu_seconds(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = s.rsplit_once(')')?.1;
    let f: Vec<&str> = rest.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

enum End {
    Code(i32),
    Signal(i32),
    Hang,
}

/// Waits for a child; `slots` gives the cases its threads are at
fn wait(mut ch: std::process::Child, slots: Option<&fs::File>, cpu_limit: Option<f64>) -> End {
    let mut stuck: Option<([u8; 24 * THREADS], Instant, f64)> = None;
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return match (st.code(), st.signal()) {
                (Some(c), _) => End::Code(c),
                (_, Some(s)) => End::Signal(s),
                _ => End::Code(2),
            };
        }
        std::thread::sleep(Duration::from_millis(if cpu_limit.is_some() { 20 } else { 50 }));
        let cpu = cpu_seconds(ch.id()).unwrap_or(0.0);
        let hang = match (cpu_limit, slots) {
            (Some(l), _) => cpu > l,
            (None, Some(slots)) => {
                let mut now = [0u8; 24 * THREADS];
                let _ = slots.read_at(&mut now, 0);
                match &stuck {
                    // some thread is at the same case for 25 s in which the process used CPU
                    Some((before, since, cpu0)) => {
                        let same = (0..THREADS).any(|t| {
                            let r = t * 24..t * 24 + 24;
                            now[r.clone()] == before[r.clone()] && now[r].iter().any(|b| *b != 0)
                        });
                        if !same {
                            stuck = Some((now, Instant::now(), cpu));
                            false
                        } else {
                            since.elapsed() > Duration::from_secs(25) && cpu - cpu0 > 15.0
                        }
                    }
                    None => {
                        stuck = Some((now, Instant::now(), cpu));
                        false
                    }
                }
            }
            _ => false,
        };
        if hang {
            let _ = ch.kill();
            let _ = ch.wait();
            return End::Hang;
        }
    }
}

pub fn parent(check: &Check, base: &[String]) -> ExitCode {
    let path = slots_path();
    let _ = fs::write(&path, [0u8; 24 * THREADS]);
    let slots = fs::File::open(&path).unwrap();
    let mut args = vec!["child".to_owned(), check.id.to_owned(), path.display().to_string()];
    args.extend_from_slice(base);
    let ch = limited(&args).spawn().unwrap();
    let end = wait(ch, Some(&slots), None);
    let mut rec = [0u8; 24 * THREADS];
    let _ = slots.read_at(&mut rec, 0);
    let _ = fs::remove_file(&path);
    let failed = fs::read_to_string(fail_path(&path)).ok();
    let _ = fs::remove_file(fail_path(&path));
    if let (Some(f), End::Signal(_) | End::Hang) = (failed, &end) {
        println!("the child process ended while shrinking");
        println!("VIOLATION property={} replay={f}", check.id);
        return ExitCode::from(1);
    }
    let what = match end {
        End::Code(c @ 0..=2) => return ExitCode::from(c as u8),
        End::Code(c) => {
            println!("the child process ended with code {c}");
            return ExitCode::from(2);
        }
        End::Signal(9) => {
            println!("the child process was killed");
            return ExitCode::from(2);
        }
        End::Signal(s) => format!("signal {s}"),
        End::Hang => "no progress".to_owned(),
    };
    println!("the child process ended with {what}; looking for the case");
    let mut cases: Vec<(u64, u64)> = (0..THREADS)
        .map(|t| {
            let n = |o: usize| u64::from_le_bytes(rec[t * 24 + o..t * 24 + o + 8].try_into().unwrap());
            (n(0), n(8))
        })
        .filter(|(p, _)| *p != 0)
        .collect();
    cases.sort();
    for (p, index) in cases {
        let pi = p as usize - 1;
        let args = vec!["single".to_owned(), check.id.to_owned(), pi.to_string(), index.to_string()];
        let mut cmd = limited(&args);
        cmd.stdout(Stdio::null()).stderr(Stdio::null());
        let msg = match wait(cmd.spawn().unwrap(), None, Some(20.0)) {
            End::Signal(9) | End::Code(_) => continue,
            End::Signal(11) => "crash: stack overflow or memory fault (signal 11)".to_owned(),
            End::Signal(s) => format!("crash: signal {s} (6: abort, stack overflow or out of memory)"),
            End::Hang => "no result after 20 s of CPU time".to_owned(),
        };
        // the choices are a function of the seed and the index: an empty list means "as generated"
        let f = Failure { part: pi, index, choices: vec![], msg: format!("{msg}\n(replay by index: the process ends before the choices can be recorded)") };
        let path = write_replay(check, &f);
        println!("{msg} in part {} case {index}", check.parts[pi].name);
        println!("VIOLATION property={} replay={}", check.id, path.display());
        return ExitCode::from(1);
    }
    println!("no single case reproduces it");
    ExitCode::from(2)
}

pub fn replay(cx: &Cx, check: &Check, part: &str, index: u64, choices: Vec<u64>) -> ExitCode {
    install_hook();
    let Some(pi) = check.parts.iter().position(|p| p.name == part) else {
        println!("no part {part}");
        return ExitCode::from(2);
    };
    let p = &check.parts[pi];
    let mut src = match choices.is_empty() {
        true => Src::random(case_seed(cx, check, p, index)),
        false => Src::replay(choices),
    };
    let mut obs = Obs::default();
    match run_case(cx, p, index, &mut src, &mut obs) {
        Ok(()) => {
            println!("the case passes");
            if let Some(s) = obs.sample {
                println!("{s}");
            }
            ExitCode::SUCCESS
        }
        Err(m) => {
            println!("{m}");
            ExitCode::from(1)
        }
    }
}
