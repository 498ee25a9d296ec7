#![feature(alloc_error_hook)]
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
//! dsim: deterministic simulation of dumb-crypto's callers, with fault injection.
//!
//!   dsim check --prop C01 --tier quick --seed 1 --plain BIN --evidence F --replays DIR --known F --scratch DIR
//!   dsim replay FILE [--plain BIN]
//!   (worker, minimise, soak: used by check)

mod reference;
mod rt;
mod sys;
mod worlds;

use rt::{Report, EXIT_DISCARD, EXIT_HARNESS, EXIT_OK, EXIT_VIOL, FAULT_KINDS, KIND_NAMES, NCOUNT};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::Instant;

#[global_allocator]
static A: rt::Alloc = rt::Alloc;

// ------------------------------------------------------------------- one run

#[derive(Debug, Clone, PartialEq)]
enum Outcome {
    Ok,
    Discard,
    Viol { class: String, msg: String },
    /// A deviation that shows without the faults just the same: another property's matter.
    Other,
    Harness(String),
}

fn run_child(rep: *mut Report, w: &worlds::World, seed: u64, tape: Option<Vec<u32>>, logging: bool, secs: u32, control: bool) -> ! {
    sys::die_with_parent();
    unsafe { sys::alarm(secs) };
    rt::start(rep, seed, tape, logging, control);
    let x = catch_unwind(AssertUnwindSafe(w.run));
    if x.is_err() {
        rt::harness_error(&format!("the world panicked: {}", rt::panic_message()));
    }
    rt::finish(EXIT_OK)
}

fn text(b: &[u8], n: usize) -> String {
    String::from_utf8_lossy(&b[..n]).into_owned()
}

/// Forks a run and waits for its outcome.
fn run(rep: &mut Report, w: &worlds::World, seed: u64, tape: Option<&[u32]>, logging: bool) -> Outcome {
    judged(rep, w, seed, tape, logging, 20, 90)
}

/// Where the property compares a faulty history with a fault-free one, a
/// deviation counts only if the control run - same decisions, refused and
/// interrupted calls left out, or the one task running alone - does not show it.
fn judged(rep: &mut Report, w: &worlds::World, seed: u64, tape: Option<&[u32]>, logging: bool, secs: u32, again: u32) -> Outcome {
    let o = run_limited(rep, w, seed, tape, logging, secs, again, false);
    let Outcome::Viol { class, msg } = &o else { return o };
    if w.own && !class.starts_with(w.id) && class != "no-progress" {
        return Outcome::Other;
    }
    // a trace left outside is one in any environment, and what must be refused
    // must be refused in any history
    if !w.control || class == "C23/effect" || class == "C06/invalid" || msg.starts_with("the run did not finish") {
        return o;
    }
    static CTL: std::sync::atomic::AtomicPtr<Report> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
    use std::sync::atomic::Ordering::Relaxed;
    if CTL.load(Relaxed).is_null() {
        CTL.store(sys::shared(), Relaxed);
    }
    let ctl = unsafe { &mut *CTL.load(Relaxed) };
    ctl.skip = rep.skip;
    ctl.skip_n = rep.skip_n;
    ctl.focus = rep.focus;
    // after a crash the tape may end in the middle of a decision; it is all there is
    let t = rep.tape[..rep.tape_len].to_vec();
    match run_limited(ctl, w, seed, Some(&t), false, secs, again, true) {
        Outcome::Viol { class: c, msg: m } if c == *class && m == *msg => Outcome::Other,
        _ => o,
    }
}

#[allow(clippy::too_many_arguments)]
fn run_limited(rep: &mut Report, w: &worlds::World, seed: u64, tape: Option<&[u32]>, logging: bool, secs: u32, again: u32, control: bool) -> Outcome {
    let p: *mut Report = rep;
    let pid = unsafe { sys::fork() };
    if pid < 0 {
        return Outcome::Harness("fork failed".into());
    }
    if pid == 0 {
        run_child(p, w, seed, tape.map(|t| t.to_vec()), logging, secs, control);
    }
    let mut st = 0;
    while unsafe { sys::waitpid(pid, &mut st, 0) } != pid {}
    let sig = st & 0x7f;
    if sig == 14 {
        // slow machine or endless call? once more, with plenty of time
        if again > 0 {
            return run_limited(rep, w, seed, tape, logging, again, 0, control);
        }
        return Outcome::Viol { class: "no-progress".into(), msg: format!("the run did not finish within {secs} s") };
    }
    if sig == 9 {
        return Outcome::Harness("the run was killed (SIGKILL)".into());
    }
    if sig != 0 {
        return Outcome::Viol { class: format!("crash/signal-{sig}"), msg: format!("a call crashed the process with signal {sig}") };
    }
    let code = (st >> 8) & 0xff;
    if !rep.ended {
        return Outcome::Viol { class: "crash/exit".into(), msg: format!("a call ended the process with exit code {code}") };
    }
    match code {
        EXIT_OK => Outcome::Ok,
        EXIT_DISCARD => Outcome::Discard,
        EXIT_VIOL => Outcome::Viol { class: text(&rep.class, rep.class_len), msg: text(&rep.msg, rep.msg_len) },
        EXIT_HARNESS => Outcome::Harness(text(&rep.msg, rep.msg_len)),
        c => Outcome::Harness(format!("exit code {c}")),
    }
}

/// A report shared with the runs, after a first look at whether the code under
/// test starts threads of its own.
fn report() -> &'static mut Report {
    let rep: &mut Report = sys::shared();
    let p: *mut Report = rep;
    match unsafe { sys::fork() } {
        0 => {
            sys::die_with_parent();
            unsafe { sys::alarm(60) };
            rt::start(p, 0, None, false, false);
            worlds::memory::one_of_each();
            rt::finish(EXIT_OK)
        }
        pid => {
            let mut st = 0;
            while pid > 0 && unsafe { sys::waitpid(pid, &mut st, 0) } != pid {}
        }
    }
    if rep.spawned {
        rt::set_starts_threads();
    }
    rep
}

fn run_seed(seed: u64, w: &worlds::World, idx: u64) -> u64 {
    let id = w.id.bytes().fold(0u64, |h, b| h * 256 + b as u64);
    rt::mix(&[seed, id, rt::instrumented() as u64, idx])
}

fn variant() -> &'static str {
    if rt::instrumented() {
        "instrumented"
    } else {
        "plain"
    }
}

// ---------------------------------------------------------------- arguments

struct Args(BTreeMap<String, String>, Vec<String>);
impl Args {
    fn parse() -> Args {
        let mut m = BTreeMap::new();
        let mut rest = vec![];
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            } else {
                rest.push(a);
            }
        }
        Args(m, rest)
    }
    fn s(&self, k: &str) -> String {
        self.0.get(k).cloned().unwrap_or_default()
    }
    fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    fn world(&self) -> &'static worlds::World {
        worlds::by_id(&self.s("prop")).unwrap_or_else(|| fail("unknown property"))
    }
}

fn fail(msg: &str) -> ! {
    eprintln!("dsim: {msg}");
    std::process::exit(3)
}

fn main() {
    sys::fix_addresses();
    sys::no_core_dumps();
    rt::install_hooks();
    let a = Args::parse();
    match a.1.first().map(|s| s.as_str()) {
        Some("check") => check(&a),
        Some("worker") => worker(&a),
        Some("minimise") => minimise_cmd(&a),
        Some("replay") => replay(&a),
        Some("soak") => soak(&a),
        _ => fail("usage: dsim check|replay ..."),
    }
}

// -------------------------------------------------------------------- worker

/// Runs indices from, from+stride, ... and reports on stdout.
fn worker(a: &Args) {
    sys::die_with_parent();
    sys::limit_memory(6 << 30);
    let w = a.world();
    let (seed, from, stride, count) = (a.n("seed", 1), a.n("from", 0), a.n("stride", 1), a.n("count", 1));
    let samples = a.n("samples", 0);
    let secs = a.n("secs", 600);
    let known = Known::load(&a.s("known"), w.id);
    let t0 = Instant::now();
    let rep: &mut Report = report();
    let mut out = std::io::BufWriter::new(std::fs::File::create(a.s("out")).unwrap_or_else(|e| fail(&format!("{e}"))));
    let (mut runs, mut discards, mut nontrivial, mut other) = (0u64, 0u64, 0u64, 0u64);
    let (mut events, mut steps, mut time, mut switches, mut ops) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut shown = 0;
    let mut text_out = String::new();
    let mut hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = from;
    while i < count {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        let log = shown < samples;
        let s = run_seed(seed, w, i);
        let o = run(rep, w, s, None, log);
        match o {
            Outcome::Ok => {}
            Outcome::Discard => discards += 1,
            Outcome::Other => other += 1,
            Outcome::Harness(m) => {
                println!("HARNESS {} run {i}: {m}", variant());
                std::process::exit(3);
            }
            Outcome::Viol { class, msg } => {
                if let Some(k) = known.find(&class, &msg) {
                    *hits.entry(k).or_default() += 1;
                } else {
                    println!("VIOL {i} {class}\t{}", msg.replace('\n', " "));
                    break;
                }
            }
        }
        runs += 1;
        events += rep.events;
        steps += rep.steps;
        time += rep.simtime_us;
        switches += rep.switches;
        ops += rep.ops;
        let interesting = rep.faults > 0 || rep.switches > 0;
        nontrivial += interesting as u64;
        if log && interesting {
            shown += 1;
            let _ = writeln!(text_out, "SAMPLE {i}");
            for l in text(&rep.log, rep.log_len).lines().take(60) {
                let _ = writeln!(text_out, "| {l}");
            }
        }
        for x in [i, rep.ev_hash, rep.sched_hash, rep.steps, interesting as u64] {
            let _ = out.write_all(&x.to_le_bytes());
        }
        i += stride;
    }
    let _ = out.flush();
    print!("{text_out}");
    println!("STAT {runs} {discards} {nontrivial} {events} {steps} {time} {switches} {ops} {other}");
    println!("GUARDS {}", rt::guards());
    print!("COUNT");
    for c in rep.count {
        print!(" {c}");
    }
    println!();
    print!("COV");
    for (i, c) in rep.cov.iter().enumerate() {
        if *c > 0 {
            print!(" {i}");
        }
    }
    println!();
    for (k, n) in hits {
        println!("KNOWN {n} {k}");
    }
    println!("END");
}

// -------------------------------------------------------------- known findings

/// Lines `known: property=<id> class=<class> match=<text> :: <description>`.
struct Known(Vec<(String, String, String)>);
impl Known {
    fn load(path: &str, prop: &str) -> Known {
        let mut v = vec![];
        for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
            let Some(l) = l.strip_prefix("known: ") else { continue };
            let Some((head, desc)) = l.split_once(" :: ") else { continue };
            let Some(rest) = head.strip_prefix(&format!("property={prop} class=")) else { continue };
            let (class, m) = rest.split_once(" match=").unwrap_or((rest, ""));
            v.push((class.to_string(), m.to_string(), desc.to_string()));
        }
        Known(v)
    }
    fn find(&self, class: &str, msg: &str) -> Option<String> {
        self.0.iter().find(|(c, m, _)| c == class && msg.contains(m.as_str())).map(|x| x.2.clone())
    }
}

// ------------------------------------------------------------------- minimise

struct Found {
    tape: Vec<u32>,
    class: String,
    msg: String,
    log: String,
    ev: u64,
    sched: u64,
}

fn try_tape(rep: &mut Report, w: &worlds::World, tape: &[u32], class: Option<&str>, logging: bool) -> Option<Found> {
    let quick = class == Some("no-progress");
    let o = if quick { judged(rep, w, 0, Some(tape), logging, 20, 0) } else { run(rep, w, 0, Some(tape), logging) };
    match o {
        Outcome::Viol { class: c, msg } if class.map_or(true, |k| k == c) => Some(Found {
            tape: rep.tape[..rep.tape_len].to_vec(),
            class: c,
            msg,
            log: text(&rep.log, rep.log_len),
            ev: rep.ev_hash,
            sched: rep.sched_hash,
        }),
        _ => None,
    }
}

fn trim(t: &mut Vec<u32>) {
    while t.last() == Some(&0) {
        t.pop();
    }
}

/// Smaller means: fewer decisions, then fewer non-benign ones, then smaller ones.
fn weight(t: &[u32]) -> (usize, usize, u64) {
    (t.len(), t.iter().filter(|x| **x != 0).count(), t.iter().map(|x| *x as u64).sum())
}

fn shrink(rep: &mut Report, w: &worlds::World, first: Found, secs: u64) -> (Found, u64) {
    let t0 = Instant::now();
    let class = first.class.clone();
    let mut best = first;
    trim(&mut best.tape);
    let mut tries = 0;
    let mut go = |cand: Vec<u32>, best: &mut Found, rep: &mut Report| -> bool {
        let mut cand = cand;
        trim(&mut cand);
        if weight(&cand) >= weight(&best.tape) {
            return false;
        }
        tries += 1;
        if let Some(mut f) = try_tape(rep, w, &cand, Some(&class), false) {
            // the values really drawn may be smaller than those offered
            trim(&mut f.tape);
            if weight(&f.tape) > weight(&cand) {
                f.tape = cand;
            }
            *best = f;
            return true;
        }
        false
    };
    let over = |t0: &Instant| t0.elapsed().as_secs() >= secs;
    loop {
        let before = weight(&best.tape);
        // cut the tail
        let mut cut = best.tape.len() / 2;
        while cut > 0 && !over(&t0) {
            let n = best.tape.len();
            if cut <= n && go(best.tape[..n - cut].to_vec(), &mut best, rep) {
                continue;
            }
            cut /= 2;
        }
        // delete spans, then set spans to the benign value
        for zero in [false, true] {
            let mut size = (best.tape.len() / 2).max(1);
            loop {
                let mut at = 0;
                while at < best.tape.len() && !over(&t0) {
                    let end = (at + size).min(best.tape.len());
                    let mut c = best.tape.clone();
                    if zero {
                        c[at..end].fill(0);
                    } else {
                        c.drain(at..end);
                    }
                    if !go(c, &mut best, rep) || zero {
                        at += size;
                    }
                }
                if size == 1 || over(&t0) {
                    break;
                }
                size /= 2;
            }
        }
        // lower single values
        let mut at = 0;
        while at < best.tape.len() && !over(&t0) {
            let (mut lo, mut hi) = (0, best.tape[at]);
            while lo < hi && !over(&t0) {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.tape.clone();
                if at >= c.len() {
                    break;
                }
                c[at] = mid;
                if go(c, &mut best, rep) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            at += 1;
        }
        if weight(&best.tape) >= before || over(&t0) {
            break;
        }
    }
    (best, tries)
}

fn minimise_cmd(a: &Args) {
    sys::die_with_parent();
    sys::limit_memory(6 << 30);
    let w = a.world();
    let (seed, idx) = (a.n("seed", 1), a.n("run", 0));
    let rep: &mut Report = report();
    let s = run_seed(seed, w, idx);
    let o = run(rep, w, s, None, true);
    let Outcome::Viol { class, msg } = o else {
        println!("GONE {o:?}");
        return;
    };
    let orig = Found {
        tape: rep.tape[..rep.tape_len].to_vec(),
        class,
        msg,
        log: text(&rep.log, rep.log_len),
        ev: rep.ev_hash,
        sched: rep.sched_hash,
    };
    let full = orig.tape.len();
    let keep = Found { tape: orig.tape.clone(), class: orig.class.clone(), msg: orig.msg.clone(), log: orig.log.clone(), ..orig };
    let (best, tries) = shrink(rep, w, orig, a.n("secs", 20));
    // the final trace, twice: it must repeat exactly
    let one = try_tape(rep, w, &best.tape, Some(&best.class), true);
    let two = try_tape(rep, w, &best.tape, Some(&best.class), true);
    let (f, stable) = match (one, two) {
        (Some(x), Some(y)) if x.log == y.log && x.msg == y.msg && x.ev == y.ev && x.sched == y.sched => (Found { tape: best.tape, ..x }, true),
        (Some(x), _) => (Found { tape: best.tape, ..x }, false),
        _ => (keep, false),
    };
    let mut t = String::new();
    let _ = writeln!(t, "dsim-replay: 1");
    let _ = writeln!(t, "property: {}", w.id);
    let _ = writeln!(t, "variant: {}", variant());
    let _ = writeln!(t, "seed: {seed}");
    let _ = writeln!(t, "run: {idx}");
    let _ = writeln!(t, "class: {}", f.class);
    let _ = writeln!(t, "message: {}", f.msg.replace('\n', " "));
    let _ = writeln!(t, "hash: {:016x} {:016x}", f.ev, f.sched);
    let _ = writeln!(t, "minimised: {} decisions of {full}, {tries} attempts, repeats exactly: {stable}", f.tape.len());
    let _ = writeln!(t, "tape: {}", f.tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(t, "trace:");
    t += &f.log;
    if std::fs::write(a.s("out"), t).is_err() {
        fail("cannot write the replay file");
    }
    println!("FOUND {}\t{}\t{} of {full} decisions", f.class, f.msg.replace('\n', " "), f.tape.len());
}

// --------------------------------------------------------------------- replay

fn replay(a: &Args) {
    let path = a.1.get(1).cloned().unwrap_or_default();
    let body = std::fs::read_to_string(&path).unwrap_or_else(|e| fail(&format!("{path}: {e}")));
    let field = |k: &str| -> String {
        body.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string()
    };
    if field("variant") != variant() {
        let plain = a.s("plain");
        if field("variant") == "plain" && !plain.is_empty() {
            let st = Command::new(plain).args(["replay", &path]).status();
            std::process::exit(st.ok().and_then(|s| s.code()).unwrap_or(3));
        }
        fail("wrong build variant for this replay file");
    }
    if field("class") == "soak" {
        let p = field("property");
        let t: u64 = field("total").parse().unwrap_or(0);
        let s: u64 = field("seed").parse().unwrap_or(1);
        match worlds::stream::soak(p == "C02", t, s) {
            Ok(_) => println!("NOT REPRODUCED: the property held"),
            Err(e) => {
                println!("soak: {e}");
                println!("REPRODUCED EXACTLY {path}");
                println!("VIOLATION property={p} replay={path}");
                std::process::exit(1);
            }
        }
        return;
    }
    let w = worlds::by_id(&field("property")).unwrap_or_else(|| fail("unknown property"));
    let tape: Vec<u32> = field("tape").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    sys::limit_memory(6 << 30);
    let rep: &mut Report = report();
    let o = run(rep, w, 0, Some(&tape), true);
    print!("{}", text(&rep.log, rep.log_len));
    match o {
        Outcome::Viol { class, msg } => {
            println!("class: {class}\nmessage: {msg}");
            let same = class == field("class")
                && msg.replace('\n', " ") == field("message")
                && format!("{:016x} {:016x}", rep.ev_hash, rep.sched_hash) == field("hash");
            println!("{}", if same { "REPRODUCED EXACTLY" } else { "REPRODUCED, BUT DIFFERENTLY" });
            println!("VIOLATION property={} replay={path}", w.id);
            std::process::exit(1);
        }
        o => {
            println!("NOT REPRODUCED: {o:?}");
            std::process::exit(if matches!(o, Outcome::Harness(_)) { 3 } else { 0 });
        }
    }
}

// ----------------------------------------------------------------------- soak

fn soak(a: &Args) {
    sys::die_with_parent();
    for t in a.s("totals").split(',').filter_map(|t| t.parse().ok()) {
        match worlds::stream::soak(a.s("prop") == "C02", t, a.n("seed", 1)) {
            Ok(n) => println!("SOAK ok {t} bytes in {n} pieces"),
            Err(e) => {
                println!("SOAK bad {t} {e}");
                break;
            }
        }
    }
    println!("SOAK end");
}

// ---------------------------------------------------------------------- check

#[derive(Default)]
struct Sum {
    runs: u64,
    discards: u64,
    nontrivial: u64,
    events: u64,
    steps: u64,
    time: u64,
    switches: u64,
    ops: u64,
    other: u64,
    count: Vec<u64>,
    cov: HashSet<u32>,
    guards: u64,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    viol: Vec<(u64, String, String)>,
    plain_runs: u64,
    error: Option<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}

fn read_worker(sum: &mut Sum, out: std::process::ChildStdout, plain: bool) {
    let mut ended = false;
    for l in BufReader::new(out).lines().map_while(Result::ok) {
        if let Some(x) = l.strip_prefix("VIOL ") {
            let (i, r) = x.split_once(' ').unwrap_or(("0", x));
            let (c, m) = r.split_once('\t').unwrap_or((r, ""));
            sum.viol.push((i.parse().unwrap_or(0) << 1 | plain as u64, c.into(), m.into()));
        } else if let Some(x) = l.strip_prefix("HARNESS ") {
            sum.error = Some(x.to_string());
        } else if let Some(x) = l.strip_prefix("STAT ") {
            let v: Vec<u64> = x.split(' ').filter_map(|y| y.parse().ok()).collect();
            if v.len() == 9 {
                sum.other += v[8];
                sum.runs += v[0];
                sum.discards += v[1];
                sum.nontrivial += v[2];
                sum.events += v[3];
                sum.steps += v[4];
                sum.time += v[5];
                sum.switches += v[6];
                sum.ops += v[7];
                if plain {
                    sum.plain_runs += v[0];
                }
            }
        } else if let Some(x) = l.strip_prefix("COUNT ") {
            for (i, y) in x.split(' ').enumerate().take(NCOUNT) {
                sum.count[i] += y.parse::<u64>().unwrap_or(0);
            }
        } else if let Some(x) = l.strip_prefix("COV ") {
            sum.cov.extend(x.split(' ').filter_map(|y| y.parse::<u32>().ok()));
        } else if let Some(x) = l.strip_prefix("GUARDS ") {
            sum.guards = sum.guards.max(x.parse().unwrap_or(0));
        } else if let Some(x) = l.strip_prefix("SAMPLE ") {
            sum.samples.push(format!("{} run {x}", if plain { "plain" } else { "instrumented" }));
        } else if let Some(x) = l.strip_prefix("| ") {
            if let Some(s) = sum.samples.last_mut() {
                s.push('\n');
                s.push_str(x);
            }
        } else if let Some(x) = l.strip_prefix("KNOWN ") {
            let (n, d) = x.split_once(' ').unwrap_or(("0", x));
            *sum.known.entry(d.into()).or_default() += n.parse::<u64>().unwrap_or(0);
        } else if l == "END" {
            ended = true;
        }
    }
    if !ended && sum.error.is_none() {
        sum.error = Some("a worker ended early".into());
    }
}

fn entries(path: &str) -> Vec<[u64; 5]> {
    let b = std::fs::read(path).unwrap_or_default();
    b.chunks_exact(40)
        .map(|c| {
            let mut v = [0; 5];
            for (k, x) in v.iter_mut().enumerate() {
                *x = u64::from_le_bytes(c[8 * k..8 * k + 8].try_into().unwrap());
            }
            v
        })
        .collect()
}

fn check(a: &Args) {
    let t0 = Instant::now();
    if let Err(e) = reference::self_test() {
        fail(&e);
    }
    if !rt::instrumented() {
        fail("check must be started from the instrumented build");
    }
    let w = a.world();
    let tier = if a.s("tier") == "thorough" { "thorough" } else { "quick" };
    let seed = a.n("seed", 1);
    let thorough = tier == "thorough";
    let total = a.n("runs", if thorough { w.thorough } else { w.quick });
    let secs = a.n("secs", if thorough { 3000 } else { 240 });
    let plain_total = total / 3;
    let inst_total = total - plain_total;
    let me = std::env::current_exe().unwrap().display().to_string();
    let plain = a.s("plain");
    let scratch = a.s("scratch");
    let _ = std::fs::create_dir_all(&scratch);
    let _ = std::fs::create_dir_all(a.s("replays"));
    let (ni, np) = (6u64, 2u64);

    let spawn = |bin: &str, from: u64, stride: u64, count: u64, samples: u64, out: &str| {
        Command::new(bin)
            .args(["worker", "--prop", w.id, "--known", &a.s("known"), "--out", out])
            .args(["--seed", &seed.to_string(), "--from", &from.to_string(), "--stride", &stride.to_string()])
            .args(["--count", &count.to_string(), "--samples", &samples.to_string(), "--secs", &secs.to_string()])
            .stdout(Stdio::piped())
            .spawn()
            .unwrap_or_else(|e| fail(&format!("{bin}: {e}")))
    };
    // long streams, beside the workers
    let soaks = match w.id {
        "C01" | "C02" => worlds::stream::soak_totals(thorough, seed),
        _ => vec![],
    };
    let soakers: Vec<_> = soaks
        .iter()
        .map(|t| {
            let t: Vec<String> = t.iter().map(|t| t.to_string()).collect();
            Command::new(&plain)
                .args(["soak", "--prop", w.id, "--totals", &t.join(","), "--seed", &seed.to_string()])
                .stdout(Stdio::piped())
                .spawn()
                .unwrap_or_else(|e| fail(&format!("{plain}: {e}")))
        })
        .collect();

    let mut files = vec![];
    let mut kids = vec![];
    for k in 0..ni {
        let f = format!("{scratch}/{}-i{k}", w.id);
        kids.push((spawn(&me, k, ni, inst_total, if k == 0 { 2 } else { 0 }, &f), false));
        files.push((f, false));
    }
    for k in 0..np {
        let f = format!("{scratch}/{}-p{k}", w.id);
        kids.push((spawn(&plain, k, np, plain_total, if k == 0 { 1 } else { 0 }, &f), true));
        files.push((f, true));
    }
    let mut sum = Sum { count: vec![0; NCOUNT], ..Default::default() };
    // a violation stops everything else
    let pids: Vec<i32> = kids.iter().map(|(k, _)| k.id() as i32).collect();
    let parts: Vec<Sum> = std::thread::scope(|sc| {
        let hs: Vec<_> = kids
            .iter_mut()
            .enumerate()
            .map(|(n, (k, p))| {
                let out = k.stdout.take().unwrap();
                let (p, pids) = (*p, &pids);
                sc.spawn(move || {
                    let mut s = Sum { count: vec![0; NCOUNT], ..Default::default() };
                    read_worker(&mut s, out, p);
                    if !s.viol.is_empty() {
                        for (m, pid) in pids.iter().enumerate() {
                            if m != n {
                                unsafe { sys::kill(*pid, 15) };
                            }
                        }
                    }
                    s
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (k, _) in kids.iter_mut() {
        let _ = k.wait();
    }
    let any_viol = parts.iter().any(|p| !p.viol.is_empty());
    for p in parts {
        sum.runs += p.runs;
        sum.discards += p.discards;
        sum.nontrivial += p.nontrivial;
        sum.events += p.events;
        sum.steps += p.steps;
        sum.time += p.time;
        sum.switches += p.switches;
        sum.ops += p.ops;
        sum.other += p.other;
        sum.plain_runs += p.plain_runs;
        for (x, y) in sum.count.iter_mut().zip(&p.count) {
            *x += y;
        }
        sum.cov.extend(p.cov);
        sum.guards = sum.guards.max(p.guards);
        sum.samples.extend(p.samples);
        for (k, n) in p.known {
            *sum.known.entry(k).or_default() += n;
        }
        sum.viol.extend(p.viol);
        if let Some(e) = p.error {
            if !(any_viol && e == "a worker ended early") {
                sum.error = Some(e);
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();

    let mut soak_text = vec![];
    let mut soak_bad = None;
    for mut k in soakers {
        if any_viol {
            let _ = k.kill();
        }
        let out = k.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        for l in out.lines() {
            if let Some((t, e)) = l.strip_prefix("SOAK bad ").and_then(|x| x.split_once(' ')) {
                soak_bad = Some((t.to_string(), e.to_string()));
            } else if let Some(x) = l.strip_prefix("SOAK ok ") {
                soak_text.push(x.to_string());
            }
        }
        if !out.ends_with("SOAK end\n") && !any_viol {
            sum.error.get_or_insert("a soak failed to finish".into());
        }
    }

    // distinct executions
    let mut logs = HashSet::new();
    let mut scheds = HashSet::new();
    let mut again: Vec<[u64; 5]> = vec![];
    for (f, p) in &files {
        for e in entries(f) {
            if e[4] == 1 {
                logs.insert((*p, e[1], e[2]));
            }
            if !*p && e[2] != 0x1234 {
                scheds.insert(e[2]);
            }
            if !*p && e[0] < 48 {
                again.push(e);
            }
        }
        let _ = std::fs::remove_file(f);
    }

    let mut replay_path = String::new();
    let mut viol_lines = vec![];
    if sum.error.is_none() || !sum.viol.is_empty() {
        if let Some((code, class, msg)) = sum.viol.iter().min().cloned() {
            let (idx, is_plain) = (code >> 1, code & 1 == 1);
            let name = format!("{}-{}-{seed}-{idx}.replay", w.id, if is_plain { "plain" } else { "inst" });
            replay_path = format!("{}/{name}", a.s("replays"));
            let out = Command::new(if is_plain { &plain } else { &me })
                .args(["minimise", "--prop", w.id, "--seed", &seed.to_string(), "--run", &idx.to_string(), "--out", &replay_path])
                .args(["--secs", &a.n("shrink", 20).to_string()])
                .output();
            let out = out.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
            viol_lines.push(format!("seed {seed}, {} run {idx}: {class}: {msg}", if is_plain { "plain" } else { "instrumented" }));
            if let Some(f) = out.lines().find_map(|l| l.strip_prefix("FOUND ")) {
                let v: Vec<&str> = f.split('\t').collect();
                viol_lines.push(format!("minimised to {}: {}: {}", v.get(2).unwrap_or(&""), v[0], v.get(1).unwrap_or(&"")));
                // a fresh process must reproduce it exactly
                let r = Command::new(&me).args(["replay", &replay_path, "--plain", &plain]).output();
                let r = r.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
                let exact = r.lines().any(|l| l == "REPRODUCED EXACTLY");
                viol_lines.push(format!("replayed in a fresh process: {}", if exact { "exactly" } else { "NOT exactly" }));
            } else {
                viol_lines.push("the run did not repeat when it was to be minimised".into());
                let _ = std::fs::write(&replay_path, format!("dsim-replay: 1\nproperty: {}\nvariant: {}\nseed: {seed}\nrun: {idx}\nclass: {class}\nmessage: {msg}\ntape: \n", w.id, if is_plain { "plain" } else { "instrumented" }));
            }
        } else if let Some((t, e)) = &soak_bad {
            replay_path = format!("{}/{}-soak-{seed}.replay", a.s("replays"), w.id);
            let _ = std::fs::write(&replay_path, format!("dsim-replay: 1\nproperty: {}\nvariant: plain\nseed: {seed}\nclass: soak\ntotal: {t}\nmessage: {e}\n", w.id));
            viol_lines.push(format!("soak: {e}"));
        }
    }

    // the same seeds again, in a fresh process: the executions must be identical
    let mut pairs = 0;
    if replay_path.is_empty() && sum.error.is_none() {
        let f = format!("{scratch}/{}-again", w.id);
        let mut k = spawn(&me, 0, 1, 48.min(inst_total), 0, &f);
        let mut s = Sum { count: vec![0; NCOUNT], ..Default::default() };
        read_worker(&mut s, k.stdout.take().unwrap(), false);
        let _ = k.wait();
        let fresh: BTreeMap<u64, [u64; 5]> = entries(&f).into_iter().map(|e| (e[0], e)).collect();
        let _ = std::fs::remove_file(&f);
        for e in &again {
            match fresh.get(&e[0]) {
                Some(x) if x == e => pairs += 1,
                _ => sum.error = Some(format!("run {} did not repeat exactly in another process", e[0])),
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let mut j = String::new();
    let names = |r: std::ops::Range<usize>| -> String {
        let v: Vec<String> = r.filter(|i| KIND_NAMES[*i] != "-" && sum.count[*i] > 0).map(|i| format!("{}: {}", esc(KIND_NAMES[i].trim_start_matches("probe: ")), sum.count[i])).collect();
        format!("{{{}}}", v.join(", "))
    };
    let _ = write!(
        j,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\n",
        esc(w.id),
        esc(tier)
    );
    let _ = writeln!(j, "  \"evaluations\": {},", sum.runs);
    let _ = writeln!(j, "  \"distinct_nontrivial\": {},", logs.len());
    let _ = writeln!(j, "  \"rule\": {},", esc("One evaluation is one simulated run, a pure function of (seed, property, build variant, run index): that seed draws the world's size, contents, every scheduling decision and every fault. A run is non-trivial if at least one fault was injected or one thread switch taken in it; two runs are distinct if their event log or their sequence of thread switches (step number and target) differ."));
    let _ = writeln!(j, "  \"samples\": [{}],", sum.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(j, "  \"runs_instrumented_build\": {}, \"runs_plain_release_build\": {}, \"runs_discarded\": {}, \"deviations_that_are_another_propertys\": {},", sum.runs - sum.plain_runs, sum.plain_runs, sum.discards, sum.other);
    let _ = writeln!(j, "  \"runs_per_hour\": {}, \"seeds_per_hour\": {},", (sum.runs as f64 / search_s * 3600.0) as u64, (sum.runs as f64 / search_s * 3600.0) as u64);
    let _ = writeln!(j, "  \"simulated_seconds\": {}, \"real_calls\": {}, \"steps_in_real_code\": {}, \"events\": {},", sum.time / 1_000_000, sum.ops, sum.steps, sum.events);
    let _ = writeln!(j, "  \"thread_switches\": {}, \"distinct_interleavings\": {},", sum.switches, scheds.len());
    let _ = writeln!(j, "  \"faults_injected\": {},", names(0..FAULT_KINDS));
    let _ = writeln!(j, "  \"probes\": {},", names(FAULT_KINDS..KIND_NAMES.len()));
    let _ = writeln!(j, "  \"edges_reached_in_real_code\": {}, \"edges_in_real_code\": {},", sum.cov.len(), sum.guards);
    let _ = writeln!(j, "  \"runs_repeated_in_another_process_identically\": {pairs},");
    let _ = writeln!(j, "  \"long_streams\": [{}],", soak_text.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(j, "  \"real_components\": {}, \"simulated_components\": {},", esc(w.real), esc(w.stub));
    let _ = writeln!(j, "  \"known_findings_met\": [{}]", sum.known.iter().map(|(k, n)| esc(&format!("{k} ({n} runs)"))).collect::<Vec<_>>().join(", "));
    let _ = write!(
        j,
        " }},\n \"assumptions\": [{}, {}, {}],\n \"wall_s\": {wall:.2}, \"violations\": {}\n}}\n",
        esc("the reference implementations in sim/src/reference.rs (they pass published vectors at every start)"),
        esc("sequential consistency between the simulated threads: one runs at a time, and the baton orders all accesses"),
        esc("what was not drawn was not examined: this is a seeded search, not an enumeration"),
        !replay_path.is_empty() as u32
    );
    if std::fs::write(a.s("evidence"), &j).is_err() {
        fail("cannot write the evidence file");
    }
    for (k, n) in &sum.known {
        println!("KNOWN-FINDING: property={} {k} (met in {n} runs)", w.id);
    }
    println!(
        "{}: {} runs ({} plain), {} distinct non-trivial, {} interleavings, {} faults, {} of {} edges, {:.1} s",
        w.id,
        sum.runs,
        sum.plain_runs,
        logs.len(),
        scheds.len(),
        sum.count[..FAULT_KINDS].iter().sum::<u64>(),
        sum.cov.len(),
        sum.guards,
        wall
    );
    if !replay_path.is_empty() {
        for l in viol_lines {
            println!("{l}");
        }
        println!("VIOLATION property={} replay={replay_path}", w.id);
        std::process::exit(1);
    }
    if let Some(e) = sum.error {
        println!("ERROR of the check: {e}");
        std::process::exit(3);
    }
}
