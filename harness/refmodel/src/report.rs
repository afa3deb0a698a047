//! Runtime shared by the checks: counters, violations, known findings, evidence,
//! and a parent process that turns crashes and hangs of the code under test into verdicts.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::process::{exit, Command};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
const SLOT: usize = 16384;

pub struct Slot {
    since: AtomicU64, // ms since start, 0 = idle
    what: Mutex<String>,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub exhaustive: AtomicBool,
    samples: Mutex<Vec<String>>,
    facts: Mutex<BTreeMap<String, String>>,
    counts: Mutex<BTreeMap<String, u64>>,
    viol: Mutex<BTreeMap<String, (String, String)>>,
    nviol: AtomicUsize,
    slots: Vec<Slot>,
    /// a shared mapping of the slot file, so that the parent can read it after a crash
    slot_map: *mut u8,
    limit_s: AtomicU64,
    known: Vec<(String, String)>,
}

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn repo() -> PathBuf {
    PathBuf::from(std::env::var("REPO_DIR").unwrap_or_else(|_| "/repo".into()))
}
pub fn work(id: &str) -> PathBuf {
    verif().join("work").join(id)
}

thread_local! {
    static TIDX: RefCell<usize> = const { RefCell::new(0) };
    /// inside `catch`
    static CAUGHT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// The worker this thread belongs to.
pub fn thread() -> usize {
    TIDX.with(|t| *t.borrow())
}
pub fn set_thread(i: usize) {
    TIDX.with(|t| *t.borrow_mut() = i % 16);
}

/// Runs `f`, turning a panic into `Err("message at file:line")`.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    static HOOK: OnceLock<()> = OnceLock::new();
    HOOK.get_or_init(|| {
        std::panic::set_hook(Box::new(|i| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            if CAUGHT.with(|c| c.get()) == 0 {
                eprintln!("panic in the harness: {}{}", m, l);
            }
            PANIC.with(|p| *p.borrow_mut() = Some(format!("{}{}", m, l)));
        }));
    });
    CAUGHT.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    CAUGHT.with(|c| c.set(c.get() - 1));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

fn map(p: &std::path::Path) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = fs::File::options().read(true).write(true).create(true).truncate(true).open(p).unwrap();
    f.set_len((16 * SLOT) as u64).unwrap();
    // PROT_READ | PROT_WRITE, MAP_SHARED
    let m = unsafe { mmap(std::ptr::null_mut(), 16 * SLOT, 3, 1, f.as_raw_fd(), 0) };
    assert!(m as isize != -1, "cannot map {:?}", p);
    m
}

unsafe impl Send for Ctx {}
unsafe impl Sync for Ctx {}

impl Ctx {
    fn new(id: &str) -> Self {
        let dir = work(id);
        fs::create_dir_all(&dir).unwrap();
        let slot_map = map(&dir.join("slots"));
        let mut known = Vec::new();
        if let Ok(t) = fs::read_to_string(verif().join("known_findings.txt")) {
            for l in t.lines() {
                // KNOWN property=<id> key=<key> :: description
                if let Some(r) = l.strip_prefix(&format!("KNOWN property={} key=", id)) {
                    if let Some((k, d)) = r.split_once(" :: ") {
                        known.push((k.trim().to_string(), d.trim().to_string()));
                    }
                }
            }
        }
        Ctx {
            id: id.to_string(),
            thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            exhaustive: AtomicBool::new(true),
            samples: Mutex::default(),
            facts: Mutex::default(),
            counts: Mutex::default(),
            viol: Mutex::default(),
            nviol: AtomicUsize::new(0),
            slots: (0..16).map(|_| Slot { since: AtomicU64::new(0), what: Mutex::default() }).collect(),
            slot_map,
            limit_s: AtomicU64::new(30),
            known,
        }
    }

    pub fn ms(&self) -> u64 {
        self.start.elapsed().as_millis() as u64
    }
    pub fn limit(&self, s: u64) {
        self.limit_s.store(s, SeqCst);
    }
    pub fn state(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn transition(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn trace(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counts.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn fact(&self, k: &str, v: impl ToString) {
        self.facts.lock().unwrap().insert(k.to_string(), v.to_string());
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let t = s();
            v.push(t);
        }
    }
    /// Number of unlisted violations so far.
    pub fn bad(&self) -> usize {
        self.nviol.load(Relaxed)
    }
    pub fn enough(&self) -> bool {
        self.bad() >= 25
    }

    /// Announces the case this thread is about to run (for crash and hang attribution).
    pub fn begin(&self, what: &str) {
        let i = TIDX.with(|t| *t.borrow());
        let s = &self.slots[i];
        {
            let mut w = s.what.lock().unwrap();
            w.clear();
            w.push_str(what);
        }
        s.since.store(self.ms() + 1, SeqCst);
        let b = what.as_bytes();
        let n = b.len().min(SLOT - 4);
        // each thread writes its own slot only
        unsafe {
            let p = self.slot_map.add(i * SLOT);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(4), n);
            std::ptr::write_volatile(p as *mut u32, (n as u32).to_le());
        }
    }
    pub fn end(&self) {
        let i = TIDX.with(|t| *t.borrow());
        self.slots[i].since.store(0, SeqCst);
        unsafe { std::ptr::write_volatile(self.slot_map.add(i * SLOT) as *mut u32, 0) };
    }
    pub fn guarded<R>(&self, what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
        self.begin(what);
        let r = catch(f);
        self.end();
        r
    }

    /// Records a violation. `key` identifies the specific failing input.
    pub fn violation(&self, key: &str, what: impl ToString, replay: impl ToString) {
        if self.known.iter().any(|(k, _)| k == key) {
            self.viol.lock().unwrap().entry(format!("known {}", key)).or_insert_with(|| (what.to_string(), replay.to_string()));
            return;
        }
        let mut v = self.viol.lock().unwrap();
        if v.len() < 200 && !v.contains_key(key) {
            v.insert(key.to_string(), (what.to_string(), replay.to_string()));
            self.nviol.fetch_add(1, Relaxed);
        }
    }

    pub fn finish(&self) -> i32 {
        let v = self.viol.lock().unwrap();
        let mut code = 0;
        for (k, d) in &self.known {
            if v.contains_key(&format!("known {}", k)) {
                println!("KNOWN-FINDING: property={} {}", self.id, d);
            }
        }
        // shortest first
        let mut bad: Vec<_> = v.iter().filter(|(k, _)| !k.starts_with("known ")).collect();
        bad.sort_by_key(|(k, (w, _))| (k.len(), w.len(), k.to_string()));
        for (n, (key, (what, replay))) in bad.iter().enumerate() {
            code = 1;
            if n < 5 {
                let p = write_replay(&self.id, n, key, what, replay);
                println!("VIOLATION property={} replay={}", self.id, p.display());
                println!("  {}", first_lines(what, 12));
            }
        }
        if bad.len() > 5 {
            println!("  ... and {} more", bad.len() - 5);
        }
        self.evidence(bad.len());
        println!(
            "{} {}: states={} transitions={} traces={} violations={} wall={:.1}s",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            bad.len(),
            self.start.elapsed().as_secs_f64()
        );
        code
    }

    fn evidence(&self, nbad: usize) {
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
            json(&self.id),
            json(if self.thorough { "thorough" } else { "quick" }),
            self.seed
        );
        let _ = write!(
            s,
            "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n",
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.exhaustive.load(Relaxed)
        );
        for (k, v) in self.facts.lock().unwrap().iter() {
            let _ = writeln!(s, "  {}: {},", json(k), json(v));
        }
        for (k, v) in self.counts.lock().unwrap().iter() {
            let _ = writeln!(s, "  {}: {},", json(k), v);
        }
        let sm: Vec<String> = self.samples.lock().unwrap().iter().map(|x| json(x)).collect();
        let _ = write!(s, "  \"samples\": [{}]\n }},\n", sm.join(", "));
        let _ = write!(
            s,
            " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json("rustc, the Rust standard library, proc-macro2, quote and heck behave as documented"),
            self.start.elapsed().as_secs_f64(),
            nbad
        );
        let d = verif().join("evidence");
        fs::create_dir_all(&d).unwrap();
        fs::write(d.join(format!("{}.json", self.id)), s).unwrap();
    }
}

fn first_lines(s: &str, n: usize) -> String {
    let mut o: Vec<String> = s.lines().take(n).map(|l| l.chars().take(400).collect()).collect();
    if s.lines().count() > n {
        o.push("...".into());
    }
    o.join("\n  ")
}

fn write_replay(id: &str, n: usize, key: &str, what: &str, replay: &str) -> PathBuf {
    let d = verif().join("replays");
    fs::create_dir_all(&d).unwrap();
    let p = d.join(format!("{}-{}.txt", id, n));
    fs::write(&p, format!("property: {}\nkey: {}\n\n{}\n\n--- replay ---\n{}\n", id, key, what, replay)).unwrap();
    p
}

/// Entry point of every check binary: `bin ID` supervises `bin --child ID`.
pub fn drive(run: impl FnOnce(&'static Ctx)) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--child") {
        child(&args[2], run)
    }
    let id = &args[1];
    let max_s: u64 = std::env::var("VERIF_MAX_S").ok().and_then(|s| s.parse().ok()).unwrap_or(850);
    let dir = work(id);
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap()).arg("--child").args(&args[1..]).spawn().unwrap();
    let t0 = Instant::now();
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() {
            break st;
        }
        if t0.elapsed() > Duration::from_secs(max_s) && std::env::var("VERIF_TIER").as_deref() != Ok("thorough") {
            let _ = c.kill();
            let _ = c.wait();
            println!("{}: no answer within {} s", id, max_s);
            exit(2);
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    if let Some(code) = st.code() {
        if code == 0 || code == 1 {
            let _ = fs::remove_dir_all(&dir);
        }
        exit(code);
    }
    let sig = st.signal().unwrap_or(0);
    if sig == 9 || sig == 15 {
        println!("{}: killed by signal {}", id, sig);
        exit(2);
    }
    // The code under test took the process down: the running cases are in the slot file.
    let mut cases = Vec::new();
    if let Ok(b) = fs::read(dir.join("slots")) {
        for i in 0..16 {
            let o = i * SLOT;
            if b.len() >= o + 4 {
                let n = u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize;
                if n > 0 && b.len() >= o + 4 + n {
                    cases.push(String::from_utf8_lossy(&b[o + 4..o + 4 + n]).into_owned());
                }
            }
        }
    }
    if cases.is_empty() {
        println!("{}: died from signal {} outside the code under test", id, sig);
        exit(2);
    }
    let what = format!("the code under test crashed the process (signal {}) while running one of:\n{}", sig, cases.join("\n"));
    let p = write_replay(id, 0, "crash", &what, &cases.join("\n=====\n"));
    println!("VIOLATION property={} replay={}", id, p.display());
    println!("  {}", first_lines(&what, 12));
    exit(1)
}

fn child(id: &str, run: impl FnOnce(&'static Ctx)) -> ! {
    // a runaway allocation becomes an abort of this process, attributed to its case
    unsafe {
        let lim = [20u64 << 30, 20u64 << 30];
        setrlimit(9, lim.as_ptr());
    }
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx::new(id)));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = ctx.ms();
        let lim = ctx.limit_s.load(SeqCst) * 1000;
        for s in &ctx.slots {
            let t = s.since.load(SeqCst);
            if t != 0 && now > t + lim {
                let what = s.what.lock().unwrap().clone();
                if s.since.load(SeqCst) != t {
                    continue;
                }
                ctx.violation(&format!("hang {}", what), format!("no end after {} s: {}", lim / 1000, what), &what);
                let code = ctx.finish();
                let _ = std::io::stdout().flush();
                exit(code);
            }
        }
    });
    run(ctx);
    let code = ctx.finish();
    let _ = std::io::stdout().flush();
    exit(code)
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const u64) -> i32;
}

/// Runs `f(i)` for i in 0..n on all cores, stopping early after enough violations.
pub fn par(ctx: &'static Ctx, n: usize, chunk: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..THREADS {
            let (next, f) = (&next, &f);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    set_thread(t + 1);
                    loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= n || ctx.enough() {
                            break;
                        }
                        for i in a..(a + chunk).min(n) {
                            f(i);
                        }
                    }
                    ctx.end();
                })
                .unwrap();
        }
    });
    if ctx.enough() {
        ctx.exhaustive.store(false, SeqCst);
    }
}
