//! A small property-based-testing engine: generators draw from a recorded
//! choice sequence, which makes shrinking and replay generic, and every case is
//! a pure function of (code, seed, property, case number).

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93));
    r.next();
    r.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h, 17)
}

/// The source of all randomness of a case.
pub struct Src {
    rng: Option<Rng>,
    input: Vec<u64>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            rng: Some(Rng::new(seed)),
            input: vec![],
            rec: vec![],
        }
    }
    pub fn replay(input: Vec<u64>) -> Self {
        Src {
            rng: None,
            input,
            rec: vec![],
        }
    }

    /// A number in `0..n`; shrinks towards zero.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                ((x as u128 * n as u128) >> 64) as u64
            }
            None => self
                .input
                .get(self.rec.len())
                .copied()
                .unwrap_or(0)
                .min(n - 1),
        };
        self.rec.push(v);
        v
    }
    /// In `lo..=hi`, shrinks towards `lo`.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as i64, hi as i64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability num/den; shrinks towards false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    /// Uniform in [0, 1).
    pub fn unit(&mut self) -> f64 {
        self.below(1 << 53) as f64 / (1u64 << 53) as f64
    }
    pub fn f64(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// Log-uniform magnitude between lo and hi.
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        (lo.ln() + (hi.ln() - lo.ln()) * self.unit()).exp()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// An index drawn with the given weights.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let tot: u64 = ws.iter().sum();
        let mut v = self.below(tot);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
}

/// Per-case context.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    /// Human-readable description of the case.
    pub desc: String,
    /// How many sub-checks (points probed, relations compared ...) were decided.
    pub probes: u64,
    pub maxima: Vec<(&'static str, f64)>,
}

impl Ctx {
    pub fn describe(&mut self, d: String) {
        if std::env::var_os("VERIF_TRACE").is_some() {
            eprintln!("{d}");
        }
        self.desc = d;
    }
    pub fn label(&mut self, s: &'static str) {
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
    pub fn max(&mut self, name: &'static str, v: f64) {
        if let Some(m) = self.maxima.iter_mut().find(|m| m.0 == name) {
            if v > m.1 || v.is_nan() {
                m.1 = v;
            }
        } else {
            self.maxima.push((name, v));
        }
    }
}

pub type Res = Result<(), String>;
pub type PropFn = fn(&mut Src, &mut Ctx) -> Res;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c { return Err(format!($($a)*)); }
    };
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// Sub-properties: (name, function, quick cases, thorough cases).
    pub parts: &'static [(&'static str, PropFn, u64, u64)],
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let msg = format!("{info}").replace('\n', " ");
            PANIC_MSG.with(|p| *p.borrow_mut() = Some(msg));
        } else {
            def(info);
        }
    }));
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| {
        PANIC_MSG.with(|p| {
            p.borrow_mut()
                .take()
                .unwrap_or_else(|| "panic".to_string())
        })
    })
}

pub fn run_case(f: PropFn, src: &mut Src, ctx: &mut Ctx) -> Res {
    match guarded(|| f(src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(format!("PANIC: {p}")),
    }
}

fn shrink(f: PropFn, start: Vec<u64>, budget: Duration, orig_kind: &str) -> (Vec<u64>, String, String, u64) {
    let t0 = Instant::now();
    let execs = std::cell::Cell::new(0u64);
    // Shrinking must not slip from one failure to an unrelated one.
    let want = kind(orig_kind);
    let try_one = |cand: &[u64]| -> Option<(Vec<u64>, String, String)> {
        execs.set(execs.get() + 1);
        let mut src = Src::replay(cand.to_vec());
        let mut ctx = Ctx::default();
        match run_case(f, &mut src, &mut ctx) {
            Err(m) if kind(&m) == want => {
                let mut rec = src.rec;
                while rec.last() == Some(&0) {
                    rec.pop();
                }
                Some((rec, m, ctx.desc))
            }
            _ => None,
        }
    };
    let (mut best, mut msg, mut desc) = match try_one(&start) {
        Some(x) => x,
        None => return (start, orig_kind.to_string(), String::new(), execs.get()),
    };
    let smaller = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    loop {
        let mut improved = false;
        // Delete spans.
        let mut span = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + span <= best.len() {
                if t0.elapsed() > budget {
                    return (best, msg, desc, execs.get());
                }
                let mut c = best.clone();
                c.drain(i..i + span);
                if let Some(x) = try_one(&c).filter(|x| smaller(&x.0, &best)) {
                    (best, msg, desc) = x;
                    improved = true;
                } else {
                    i += span.max(1);
                }
            }
            if span == 1 {
                break;
            }
            span /= 2;
        }
        // Lower individual values.
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed() > budget {
                return (best, msg, desc, execs.get());
            }
            let v = best[i];
            if v != 0 {
                let mut cands = vec![0, 1];
                // round values: keep only the top bits
                for bits in [2u32, 5, 10, 20, 30] {
                    let len = 64 - v.leading_zeros();
                    if len > bits {
                        let m = !((1u64 << (len - bits)) - 1);
                        cands.push(v & m);
                    }
                }
                cands.push(v / 2);
                cands.push(v - 1);
                for cv in cands {
                    if i < best.len() && cv < best[i] {
                        let mut c = best.clone();
                        c[i] = cv;
                        if let Some(x) = try_one(&c).filter(|x| smaller(&x.0, &best)) {
                            (best, msg, desc) = x;
                            improved = true;
                        }
                    }
                }
            }
            i += 1;
        }
        if !improved {
            return (best, msg, desc, execs.get());
        }
    }
}

pub const WATCHDOG_S: u64 = 60;
const STACK: usize = 256 << 20;

struct Shared {
    next: AtomicU64,
    nfails: AtomicUsize,
    stop: AtomicBool,
    agg: Mutex<Agg>,
    /// Per thread: case under way (index+1, or 0), when it began, thread finished?
    cur: Vec<Mutex<(u64, Instant, bool)>>,
}

#[derive(Default)]
struct Agg {
    evals: u64,
    nontrivial: u64,
    probes: u64,
    labels: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, f64>,
    distinct: HashSet<u64>,
    samples: Vec<(u64, String)>,
    fails: Vec<(u64, String, Vec<u64>)>,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> std::path::PathBuf {
    std::env::var("VERIF_DIR")
        .map(Into::into)
        .unwrap_or_else(|_| "/verif".into())
}

static BEACON: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();

/// Notes which case a thread is at, for the supervising process (see `supervise`).
fn beacon(th: usize, part: usize, case: u64) {
    use std::os::unix::fs::FileExt;
    let f = BEACON.get_or_init(|| {
        let p = std::env::var_os("VERIF_BEACON")?;
        std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).ok()
    });
    if let Some(f) = f {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&(part as u64 + 1).to_le_bytes());
        b[8..].copy_from_slice(&case.to_le_bytes());
        let _ = f.write_all_at(&b, 16 * th as u64);
    }
}

/// How much address space a check, and a single case, may use. A case that needs more than that
/// does not come to an end.
const CHECK_KB: u64 = 16_000_000;
const CASE_KB: u64 = 6_000_000;
/// How much processor time a single case may use when it is run by itself. (Cases normally take
/// milliseconds.)
const CASE_CPU_S: u64 = 60;

fn limited(kb: u64, cpu_s: Option<u64>, args: &[&str]) -> std::process::Command {
    let exe = std::env::current_exe().expect("own path");
    let cpu = cpu_s.map_or(String::new(), |s| format!("ulimit -t {s}; "));
    let mut c = std::process::Command::new("sh");
    c.arg("-c").arg(format!("ulimit -c 0; ulimit -v {kb}; {cpu}exec \"$0\" \"$@\"")).arg(exe).args(args);
    c
}

/// Runs one case in a process of its own. If that process does not survive, tells why.
fn dies(prop: &Prop, pname: &str, case: u64, seed: u64) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    let st = limited(CASE_KB, Some(CASE_CPU_S), &["case", prop.id, pname, &case.to_string()])
        .env("VERIF_SEED", seed.to_string())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .ok()?;
    match st.signal() {
        Some(24 | 9) => Some(format!("it does not come to an end ({CASE_CPU_S} s of processor time)")),
        Some(6) => Some("the process is aborted (out of memory, or a stack overflow)".into()),
        Some(n @ (4 | 7 | 8 | 11)) => Some(format!("the process is killed by signal {n}")),
        _ => None,
    }
}

fn report_death(prop: &Prop, pname: &str, case: u64, seed: u64, msg: &str) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{pname}-{case}.replay", prop.id));
    let _ = std::fs::write(
        &p,
        format!("property {}\npart {pname}\nseedcase {seed} {case}\n# failure: {msg}\n", prop.id),
    );
    println!("VIOLATION property={} replay={}", prop.id, p.display());
    println!("  part={pname} case={case}: {msg}");
    p.display().to_string()
}

/// Notes a failure that is about to be shrunk, for the supervising process (shrinking may come
/// across inputs that kill the process).
fn pending(prop: &Prop, pname: &str, case: u64, msg: &str) {
    if let Some(p) = std::env::var_os("VERIF_BEACON") {
        let mut p = p;
        p.push(".pending");
        let _ = std::fs::write(p, format!("{}\n{pname}\n{case}\n{msg}", prop.id));
    }
}

/// Runs the check in a child process, so that a case that kills the process (a stack overflow,
/// say) is still found and reported.
pub fn supervise(prop: &Prop, tier: &str, seed: u64) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let beacon = std::env::temp_dir().join(format!("lsverif-{}.beacon", std::process::id()));
    let pending = beacon.with_extension("beacon.pending");
    let st = limited(CHECK_KB, None, &["check-inner", prop.id, tier])
        .env("VERIF_BEACON", &beacon)
        .status()
        .expect("cannot start the check");
    let marks = std::fs::read(&beacon).unwrap_or_default();
    let failed = std::fs::read_to_string(&pending).unwrap_or_default();
    let _ = std::fs::remove_file(&beacon);
    let _ = std::fs::remove_file(&pending);
    if let Some(c) = st.code() {
        return c;
    }
    println!("the check was ended by signal {:?}", st.signal());
    let mut lines = failed.splitn(4, '\n');
    if let (Some(_), Some(pname), Some(case), Some(msg)) = (lines.next(), lines.next(), lines.next(), lines.next()) {
        report_death(prop, pname, case.parse().unwrap_or(0), seed, msg);
        return 1;
    }
    for m in marks.chunks_exact(16) {
        let part = u64::from_le_bytes(m[..8].try_into().unwrap());
        let case = u64::from_le_bytes(m[8..].try_into().unwrap());
        if part == 0 {
            continue;
        }
        let pname = prop.parts[part as usize - 1].0;
        if let Some(msg) = dies(prop, pname, case, seed) {
            report_death(prop, pname, case, seed, &msg);
            return 1;
        }
    }
    3
}

/// The class of a failure: the message up to the first digit.
fn kind(m: &str) -> String {
    m.chars().take_while(|c| !c.is_ascii_digit()).take(24).collect()
}

/// A recorded defect that is not repaired, identified by the input that fails and the kind of failure.
struct Finding {
    desc: String,
    kind: String,
}

/// Runs the inputs of the known findings of a property (`finding:` lines of known_findings.txt),
/// prints a line for each that still fails, and returns those.
fn known_findings(prop: &Prop) -> Vec<Finding> {
    let root = std::path::Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap();
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let head = format!("finding: property={} replay=", prop.id);
    let mut out = vec![];
    // Inputs on which the code does not come to an end have a process of their own, which is given
    // little memory and little time.
    let head_input = format!("finding: property={} input=", prop.id);
    for rest in text.lines().filter_map(|l| l.strip_prefix(&head_input)) {
        let (file, what) = rest.split_once(' ').unwrap_or((rest, ""));
        let ok = std::process::Command::new("sh")
            .args(["-c", "ulimit -c 0; ulimit -v 1500000; exec timeout 20 \"$0\" input \"$1\""])
            .arg(std::env::current_exe().unwrap())
            .arg(root.join(file))
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status()
            .is_ok_and(|s| s.success());
        if ok {
            eprintln!("the finding in {file} does not show here");
        } else {
            println!("KNOWN-FINDING: property={} {what}", prop.id);
        }
    }
    for line in text.lines() {
        let Some(rest) = line.strip_prefix(&head) else { continue };
        let (file, what) = rest.split_once(' ').unwrap_or((rest, ""));
        let Ok(text) = std::fs::read_to_string(root.join(file)) else {
            eprintln!("cannot read {file}");
            continue;
        };
        let get = |key: &str| text.lines().find_map(|l| l.strip_prefix(key)).unwrap_or("").to_string();
        let part = get("part ");
        let choices: Vec<u64> = get("choices ").split_whitespace().filter_map(|v| v.parse().ok()).collect();
        let Some((_, f, _, _)) = prop.parts.iter().find(|p| p.0 == part) else { continue };
        let f = *f;
        let (r, ctx) = on_big_stack(move || {
            let mut src = Src::replay(choices);
            let mut ctx = Ctx::default();
            let r = run_case(f, &mut src, &mut ctx);
            (r, ctx)
        });
        match r {
            Err(m) if kind(&m) == kind(&get("# failure: ")) => {
                println!("KNOWN-FINDING: property={} {what}", prop.id);
                out.push(Finding { desc: ctx.desc, kind: kind(&m) });
            }
            _ => eprintln!("the finding in {file} does not show here"),
        }
    }
    out
}

/// Runs a whole check and returns the process exit code.
pub fn run_check(prop: &Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let threads = std::env::var("VERIF_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()));
    let scale: f64 = std::env::var("VERIF_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    let only = std::env::var("VERIF_PART").ok();
    let max_fails: usize = std::env::var("VERIF_MAXFAILS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);

    let known = Arc::new(known_findings(prop));
    let mut total = Agg::default();
    let mut hung: Vec<(String, u64)> = vec![];
    let mut reports: Vec<(String, String)> = vec![];
    let mut part_json = vec![];

    for (part_no, (pname, f, qn, tn)) in prop.parts.iter().enumerate() {
        if only.as_ref().is_some_and(|o| o != pname) {
            continue;
        }
        let n = if tier == "thorough" { *tn } else { *qn };
        let n = ((n as f64 * scale) as u64).max(1);
        let part_seed = mix(seed, hash_str(&format!("{}/{}", prop.id, pname)));
        let start = std::env::var("VERIF_START").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        let watchdog = Duration::from_secs(
            std::env::var("VERIF_WATCHDOG_S")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(WATCHDOG_S),
        );
        // A quick run that gets slow (the code under test may have become slow) is cut short, but
        // every part gets its turn.
        let deadline = if tier == "thorough" {
            t0 + Duration::from_secs(1_000_000)
        } else {
            (t0 + Duration::from_secs(400)).max(Instant::now() + Duration::from_secs(20))
        };
        let sh = Arc::new(Shared {
            next: AtomicU64::new(start),
            nfails: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            agg: Mutex::new(Agg::default()),
            cur: (0..threads).map(|_| Mutex::new((0, Instant::now(), false))).collect(),
        });
        for th in 0..threads {
            let sh = sh.clone();
            let known = known.clone();
            let f = *f;
            let f_part = part_no;
            // Detached, so that a case that hangs cannot block the report.
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    loop {
                        if sh.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = sh.next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || Instant::now() > deadline {
                            break;
                        }
                        {
                            let mut c = sh.cur[th].lock().unwrap();
                            c.0 = i + 1;
                            c.1 = Instant::now();
                        }
                        beacon(th, f_part, i);
                        let mut src = Src::random(mix(part_seed, i));
                        let mut ctx = Ctx::default();
                        let r = run_case(f, &mut src, &mut ctx);
                        sh.cur[th].lock().unwrap().0 = 0;
                        let mut h = 0u64;
                        for v in &src.rec {
                            h = mix(h, *v);
                        }
                        let mut a = sh.agg.lock().unwrap();
                        a.evals += 1;
                        a.probes += ctx.probes;
                        for l in ctx.labels {
                            *a.labels.entry(l).or_default() += 1;
                        }
                        for (k, v) in ctx.maxima {
                            let e = a.maxima.entry(k).or_insert(f64::NEG_INFINITY);
                            if v > *e || v.is_nan() {
                                *e = v;
                            }
                        }
                        if ctx.nontrivial && a.distinct.insert(h) {
                            a.nontrivial += 1;
                            if i < 40 {
                                a.samples.push((i, ctx.desc.chars().take(1500).collect()));
                            }
                        }
                        let r = r.err().filter(|m| {
                            !known.iter().any(|k| k.kind == kind(m) && k.desc == ctx.desc)
                        });
                        if let Some(m) = r {
                            a.fails.push((i, m, src.rec));
                            if sh.nfails.fetch_add(1, Ordering::Relaxed) + 1 >= max_fails {
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    sh.cur[th].lock().unwrap().2 = true;
                })
                .unwrap();
        }
        // Wait for the workers; those whose case takes too long are left behind.
        let mut part_hung = vec![];
        loop {
            std::thread::sleep(Duration::from_millis(10));
            let mut waiting = false;
            part_hung.clear();
            for c in &sh.cur {
                let (i, t, done) = *c.lock().unwrap();
                if done {
                    continue;
                }
                if i > 0 && t.elapsed() > watchdog {
                    part_hung.push(i - 1);
                } else {
                    waiting = true;
                }
            }
            if !waiting {
                break;
            }
        }
        for i in &part_hung {
            eprintln!(
                "WATCHDOG property={} part={pname} case={i} did not finish in {watchdog:?}",
                prop.id
            );
            hung.push((pname.to_string(), *i));
        }
        if reports.is_empty() {
            // Judged by processor time, so that a busy machine makes no difference.
            for i in part_hung.iter().take(3) {
                if let Some(m) = dies(prop, pname, *i, seed) {
                    let p = report_death(prop, pname, *i, seed, &m);
                    reports.push((m, p));
                    break;
                }
            }
        }
        let mut a = std::mem::take(&mut *sh.agg.lock().unwrap());
        a.fails.sort_by_key(|x| x.0);
        a.samples.sort();
        eprintln!(
            "[{} {}] cases={} nontrivial={} probes={} fails={} t={:.1}s",
            prop.id,
            pname,
            a.evals,
            a.nontrivial,
            a.probes,
            a.fails.len(),
            t0.elapsed().as_secs_f64()
        );
        eprintln!("   labels {:?}", a.labels);
        eprintln!("   maxima {:?}", a.maxima);
        let labels_json: Vec<String> = a
            .labels
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), v))
            .collect();
        let maxima_json: Vec<String> = a
            .maxima
            .iter()
            .map(|(k, v)| format!("{}: {}", json_str(k), json_str(&format!("{v:e}"))))
            .collect();
        part_json.push(format!(
            "{}: {{\"cases\": {}, \"distinct_nontrivial\": {}, \"decided_probes\": {}, \"labels\": {{{}}}, \"maxima\": {{{}}}}}",
            json_str(pname),
            a.evals,
            a.nontrivial,
            a.probes,
            labels_json.join(", "),
            maxima_json.join(", ")
        ));
        total.evals += a.evals;
        total.nontrivial += a.nontrivial;
        total.probes += a.probes;
        for (_, s) in a.samples.into_iter().take(3) {
            total.samples.push((0, format!("{pname}: {s}")));
        }
        let shrink_s: u64 = std::env::var("VERIF_SHRINK_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(25);
        for (i, m, rec) in a.fails.iter().take(max_fails) {
            pending(prop, pname, *i, m);
            let (best, msg, desc, execs) = shrink_stack(*f, rec.clone(), Duration::from_secs(shrink_s), m);
            let p = write_replay(prop.id, pname, *i, &best, &msg, &desc);
            println!("VIOLATION property={} replay={}", prop.id, p);
            println!("  part={pname} case={i} shrink_execs={execs}");
            println!("  {}", msg.chars().take(600).collect::<String>());
            println!("  {}", desc.chars().take(2000).collect::<String>());
            reports.push((msg, p));
        }
        if (!reports.is_empty() && max_fails == 1) || hung.len() >= threads {
            break;
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<String> = total.samples.iter().map(|s| json_str(&s.1)).collect();
    let assumptions: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
    let ev = format!(
        "{{\n\"property\": {},\n\"tier\": {},\n\"seed\": {},\n\"level\": \"exploration\",\n\"coverage\": {{\n \"evaluations\": {},\n \"distinct_nontrivial\": {},\n \"decided_probes\": {},\n \"rule\": {},\n \"parts\": {{{}}},\n \"samples\": [{}]\n}},\n\"assumptions\": [{}],\n\"wall_s\": {:.2},\n\"violations\": {}\n}}\n",
        json_str(prop.id),
        json_str(tier),
        seed,
        total.evals,
        total.nontrivial,
        total.probes,
        json_str(prop.rule),
        part_json.join(", "),
        samples.join(", "),
        assumptions.join(", "),
        wall,
        reports.len()
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if only.is_none() {
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", prop.id)), ev) {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
    }
    if reports.is_empty() && !hung.is_empty() {
        println!(
            "NO-ANSWER property={}: {} case(s) did not finish: {:?}",
            prop.id,
            hung.len(),
            hung
        );
        3
    } else if reports.is_empty() {
        println!(
            "OK property={} tier={} seed={} evaluations={} nontrivial={} wall={:.1}s",
            prop.id, tier, seed, total.evals, total.nontrivial, wall
        );
        0
    } else {
        1
    }
}

fn shrink_stack(f: PropFn, rec: Vec<u64>, budget: Duration, m: &str) -> (Vec<u64>, String, String, u64) {
    // Shrinking runs in a thread of its own so that a candidate that hangs cannot block the report.
    let (tx, rx) = std::sync::mpsc::channel();
    let rec2 = rec.clone();
    let m2 = m.to_string();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let _ = tx.send(shrink(f, rec2, budget, &m2));
        })
        .unwrap();
    rx.recv_timeout(budget + Duration::from_secs(60))
        .unwrap_or((rec, m.to_string(), "(shrinking did not finish)".into(), 0))
}

fn write_replay(id: &str, part: &str, case: u64, rec: &[u64], msg: &str, desc: &str) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{part}-{case}.replay"));
    let nums: Vec<String> = rec.iter().map(|v| v.to_string()).collect();
    let text = format!(
        "property {id}\npart {part}\nchoices {}\n# failure: {}\n# case: {}\n",
        nums.join(" "),
        msg.replace('\n', "\n# "),
        desc.replace('\n', "\n# ")
    );
    let _ = std::fs::write(&p, text);
    p.display().to_string()
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

/// Runs one generated case by number.
pub fn one(props: &[Prop], id: &str, part: &str, seed: u64, i: u64) -> i32 {
    for p in props {
        for (n, f, _, _) in p.parts {
            if p.id == id && *n == part {
                let part_seed = mix(seed, hash_str(&format!("{}/{}", p.id, n)));
                let mut src = Src::random(mix(part_seed, i));
                let mut ctx = Ctx::default();
                let f = *f;
                let r = on_big_stack(move || {
                    let r = run_case(f, &mut src, &mut ctx);
                    (r, ctx)
                });
                let (r, ctx) = r;
                println!("{}\n{:?} {:?}\n{r:?}", ctx.desc, ctx.maxima, ctx.labels);
                return r.is_err() as i32;
            }
        }
    }
    3
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            return 3;
        }
    };
    let (mut id, mut part, mut choices) = (String::new(), String::new(), vec![]);
    for line in text.lines() {
        if let Some(x) = line.strip_prefix("property ") {
            id = x.trim().into();
        } else if let Some(x) = line.strip_prefix("part ") {
            part = x.trim().into();
        } else if let Some(x) = line.strip_prefix("seedcase ") {
            let v: Vec<u64> = x.split_whitespace().filter_map(|v| v.parse().ok()).collect();
            if let [seed, case] = v[..] {
                let Some(p) = props.iter().find(|p| p.id == id) else { return 3 };
                if let Some(m) = dies(p, &part, case, seed) {
                    println!("VIOLATION property={id} replay={path}\n  {m}");
                    return 1;
                }
                return one(props, &id, &part, seed, case);
            }
        } else if let Some(x) = line.strip_prefix("choices ") {
            choices = x.split_whitespace().filter_map(|v| v.parse().ok()).collect();
        }
    }
    for p in props {
        if p.id == id {
            for (n, f, _, _) in p.parts {
                if *n == part {
                    let f = *f;
                    let (r, ctx) = on_big_stack(move || {
                        let mut src = Src::replay(choices);
                        let mut ctx = Ctx::default();
                        let r = run_case(f, &mut src, &mut ctx);
                        (r, ctx)
                    });
                    println!("{}", ctx.desc);
                    println!("maxima {:?} labels {:?}", ctx.maxima, ctx.labels);
                    return match r {
                        Ok(()) => {
                            println!("replay: property {id} holds on this case");
                            0
                        }
                        Err(m) => {
                            println!("VIOLATION property={id} replay={path}\n  {m}");
                            1
                        }
                    };
                }
            }
        }
    }
    eprintln!("no such property/part: {id}/{part}");
    3
}
