//! Checks that run compiled generated parsers: a shard is one executable holding many of them.
//! The first half runs inside the shard, the second half builds and supervises shards.
use crate::gram::{all_productive, den0, Choices, Den, G};
use crate::long::{family, texts, Chart};
use crate::pos::pos;
use crate::report::{catch, json, verif, work, Ctx, THREADS};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type P = (usize, usize);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Er {
    Continues(P),
    Branch(P, char, Vec<char>),
    Str(P, String, String),
    Eos(P),
}

impl Er {
    pub fn pos(&self) -> P {
        match self {
            Er::Continues(p) | Er::Branch(p, ..) | Er::Str(p, ..) | Er::Eos(p) => *p,
        }
    }
}

/// One run of a generated parser.
#[derive(Clone, Debug)]
pub struct Run {
    /// Displayed tree, or the error and its message.
    pub res: Result<String, (Er, String)>,
    pub debug: String,
    /// Characters drawn from the source when the run ended.
    pub pulled: usize,
    /// What the next reader gets (prefix parse only).
    pub rest: Vec<char>,
    pub pos: P,
    /// Parsing the displayed text again gives an equal tree (when compiled with comparison).
    pub again: Option<bool>,
}

pub struct Obs {
    pub parse: Result<Run, String>,
    pub take: Result<Run, String>,
    /// The same by the other entry points; the last is false if what is left cannot be seen.
    pub more: Vec<(&'static str, Result<Run, String>, Result<Run, String>, bool)>,
}

pub type ObsFn = fn(&[char]) -> Obs;

pub struct Tally {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
}

pub struct Shard {
    pub mode: String,
    pub deep: bool,
    pub tally: Tally,
    cur: *mut u8,
    idx: usize,
    bad: usize,
    base: Option<(String, Vec<String>)>,
}

impl Shard {
    pub fn note(&self, s: &str) {
        let mut tmp = [0u8; 24];
        let mut c = std::io::Cursor::new(&mut tmp[..]);
        let _ = write!(c, "{}\t", self.idx);
        let h = c.position() as usize;
        let b = &s.as_bytes()[..s.len().min(4000)];
        unsafe {
            std::ptr::copy_nonoverlapping(tmp.as_ptr(), self.cur.add(4), h);
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.cur.add(4 + h), b.len());
            std::ptr::copy_nonoverlapping(((h + b.len()) as u32).to_le_bytes().as_ptr(), self.cur, 4);
        }
    }
    pub fn bad(&mut self, key: &str, what: String) {
        self.bad += 1;
        if self.bad <= 20 {
            println!("V\t{}\t{}\t{}", self.idx, json(key), json(&what));
        }
    }
}

/// `main` of a shard: argv = cur-file first-index deep
pub fn main(mode: &str, entries: &[(&str, ObsFn)]) {
    let a: Vec<String> = std::env::args().collect();
    let sh = Shard {
        mode: mode.to_string(),
        deep: a[3] == "1",
        tally: Tally { states: 0, transitions: 0, traces: 0 },
        cur: map_file(&a[1]),
        idx: 0,
        bad: 0,
        base: None,
    };
    let first: usize = a[2].parse().unwrap();
    // parsers recurse along the text: plenty of stack
    let sh = {
        struct Send_(Shard);
        unsafe impl Send for Send_ {}
        let mut b = Send_(sh);
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, move || {
                    let w = &mut b;
                    let sh = &mut w.0;
                    for (i, (spec, f)) in entries.iter().enumerate().skip(first) {
                        sh.idx = i;
                        sh.bad = 0;
                        sh.note("");
                        check(sh, spec, *f);
                        let _ = std::io::stdout().flush();
                    }
                    b
                })
                .unwrap()
                .join()
                .unwrap()
                .0
        })
    };
    println!("S\t{}\t{}\t{}", sh.tally.states, sh.tally.transitions, sh.tally.traces);
    println!("DONE");
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// A small file mapped for writing: what is in it survives a crash of this process.
fn map_file(path: &str) -> *mut u8 {
    use std::os::fd::AsRawFd;
    let f = fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(4096).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    p
}

fn s(c: &[char]) -> String {
    c.iter().collect()
}

fn check(sh: &mut Shard, spec: &str, f: ObsFn) {
    match sh.mode.clone().as_str() {
        "C03" => crate::tree::check_tree(sh, spec, f),
        "C24" => check_replay(sh, spec, f),
        m => match spec.strip_prefix("LONG ") {
            Some(k) => check_lang(sh, m, &family(sh.deep).swap_remove(k.parse::<usize>().unwrap()).1, f, true),
            None => check_lang(sh, m, &G::de(spec), f, false),
        },
    }
}

/// C24: spec = grammar, tab, what made the parser. The first one of a grammar is recorded, the
/// others must behave the same.
fn check_replay(sh: &mut Shard, spec: &str, f: ObsFn) {
    let (ser, how) = spec.split_once('\t').unwrap();
    let (g, ins, states) = match ser.strip_prefix("LARGE ") {
        Some(k) => {
            let g = family(sh.deep).swap_remove(k.parse::<usize>().unwrap()).1;
            let ins = texts(&g, if sh.deep { 3000 } else { 300 }, &[1, 2, 40]);
            let n = ins.len() as u64;
            (g, ins, n)
        }
        None => {
            let g = G::de(ser);
            let (ins, d, _, _) = inputs(&g, sh.deep);
            let n = d.vp.len() as u64;
            (g, ins, n)
        }
    };
    let first = !matches!(&sh.base, Some((s, ..)) if s == ser) || how == "library";
    if first && how != "library" {
        // the recording is lost (the parser before this one crashed)
        return;
    }
    let mut rec = Vec::new();
    if first {
        sh.tally.states += states;
    }
    for (k, i) in ins.iter().enumerate() {
        let text = s(i);
        sh.note(&text);
        let o = f(i);
        sh.tally.traces += 1;
        sh.tally.transitions += i.len() as u64;
        let show = |r: &Result<Run, String>| match r {
            Ok(r) => format!("{:?} {} read {} left {:?} at {:?}", r.res, r.debug, r.pulled, r.rest, r.pos),
            Err(e) => format!("panic {}", e),
        };
        let now = format!("{}\n    prefix: {}", show(&o.parse), show(&o.take));
        if first {
            rec.push(now);
        } else if let Some((_, base)) = &sh.base {
            if base[k] != now {
                let what = format!("grammar {}\n  input {:?}\n  library: {}\n  {}: {}", g.program(), text, base[k], how, now);
                sh.bad(&format!("{} {} on {:?}", how, g.program(), text), what);
            }
        }
    }
    if first {
        sh.base = Some((ser.to_string(), rec));
    }
}

/// The inputs explored for a grammar: every text up to `m` characters over its letters and a
/// foreign one, and along every viable prefix up to `n` characters every next character.
pub fn inputs(g: &G, deep: bool) -> (Vec<Vec<char>>, Den, usize, Vec<char>) {
    let mut letters = BTreeSet::new();
    g.chars(&mut letters);
    let mut sigma: Vec<char> = letters.iter().copied().collect();
    if !sigma.contains(&'z') {
        sigma.push('z');
    } else {
        sigma.push('q');
    }
    let (cap_full, cap_vp) = if deep { (3000, 1500) } else { (350, 150) };
    let mut m = 1;
    let mut total = 1 + sigma.len();
    while total + sigma.len().pow(m + 1) <= cap_full && m < 8 {
        m += 1;
        total += sigma.len().pow(m);
    }
    let maxlit = {
        fn ml(g: &G) -> usize {
            match g {
                G::Lit(s) => s.chars().count(),
                G::Cat(v) => v.iter().map(ml).sum(),
                G::Alt(v) => v.iter().map(ml).max().unwrap_or(0),
                G::Fix(b) => ml(b),
                _ => 0,
            }
        }
        ml(g)
    };
    let mut n = m as usize;
    let mut d = den0(g, n + 1);
    let top = if deep { 12 } else { 9 }.max((maxlit + 2).min(40));
    while n < top {
        let next = den0(g, n + 2);
        if next.vp.len() > cap_vp {
            break;
        }
        let done = next == d;
        d = next;
        n += 1;
        if done {
            break;
        }
    }
    let mut set: BTreeSet<Vec<char>> = BTreeSet::new();
    let mut level: Vec<Vec<char>> = vec![vec![]];
    set.insert(vec![]);
    for _ in 0..m {
        let mut nl = Vec::new();
        for x in level {
            for c in &sigma {
                let mut y = x.clone();
                y.push(*c);
                set.insert(y.clone());
                nl.push(y);
            }
        }
        level = nl;
    }
    for v in &d.vp {
        let v: Vec<char> = v.chars().collect();
        if v.len() > n {
            continue;
        }
        for c in &sigma {
            let mut y = v.clone();
            y.push(*c);
            set.insert(y.clone());
            if !d.vp.contains(&s(&y)) {
                y.push(sigma[0]);
                set.insert(y);
            }
        }
        set.insert(v);
    }
    (set.into_iter().collect(), d, n, sigma)
}

/// Who says which texts are sentences and which can still become one.
enum Oracle {
    /// all sentences and viable prefixes up to a length
    Den(Den),
    /// a chart of the text read last
    Chart(Chart, Vec<char>),
}

impl Oracle {
    /// Reads as much of the text as is viable.
    fn read(&mut self, t: &[char]) -> usize {
        match self {
            Oracle::Den(d) => {
                let mut v = 0;
                while v < t.len() && d.vp.contains(&s(&t[..v + 1])) {
                    v += 1;
                }
                v
            }
            Oracle::Chart(c, old) => {
                let same = t.iter().zip(&*old).take_while(|(a, b)| a == b).count().min(c.len());
                c.back_to(same);
                *old = t.to_vec();
                while c.len() < t.len() && c.push(t[c.len()]) {}
                c.len()
            }
        }
    }
    /// Is the viable text `t` a sentence?
    fn sentence(&mut self, t: &[char]) -> bool {
        match self {
            Oracle::Den(d) => d.words.contains(&s(t)),
            _ => self.read(t) == t.len() && matches!(self, Oracle::Chart(c, _) if c.sentence()),
        }
    }
    /// Can `t` become a sentence? Past the length explored: can what is inside?
    fn viable(&mut self, t: &[char]) -> bool {
        match self {
            Oracle::Den(d) => {
                let upto = d.vp.iter().map(|x| x.chars().count()).max().unwrap_or(0);
                d.vp.contains(&s(&t[..t.len().min(upto)]))
            }
            _ => self.read(t) == t.len(),
        }
    }
}

/// C01, C02, C04, C05: the parser against the denotation.
fn check_lang(sh: &mut Shard, mode: &str, g: &G, f: ObsFn, long: bool) {
    let productive = all_productive(g);
    let choices = if mode == "C05" && productive { Choices::new(g) } else { None };
    let (ins, mut d) = if long {
        (texts(g, if sh.deep { 6000 } else { 1500 }, if sh.deep { &[1, 2, 3, 7, 40, 300, 1000] } else { &[1, 2, 7, 40, 300] }), Oracle::Chart(Chart::new(g), vec![]))
    } else {
        let (mut ins, d, n, _) = inputs(g, sh.deep);
        sh.tally.states += d.vp.len() as u64;
        // what some readers like to skip, around sentences
        let known: BTreeSet<Vec<char>> = ins.iter().cloned().collect();
        let words = d.words.iter().filter(|w| w.chars().count() < n).take(3).map(|w| w.chars().collect::<Vec<_>>());
        for w in words.chain(std::iter::once(vec![])) {
            for c in [' ', '\t', '\n', '\r', '\0', '\u{a0}', '\u{2028}', '\u{feff}', '\u{1a}'] {
                let at = [vec![c], w.clone()].concat();
                let mut t = vec![[w.clone(), vec![c]].concat()];
                if !w.is_empty() {
                    t.push(at);
                }
                ins.extend(t.into_iter().filter(|t| !known.contains(t)));
            }
        }
        (ins, Oracle::Den(d))
    };
    for i in &ins {
        let text = s(i);
        sh.note(&text);
        let o = f(i);
        sh.tally.traces += 1;
        sh.tally.transitions += i.len() as u64;
        let head = || format!("grammar {}\n  text    {}\n  input {:?}", g.to_ser(), g.program(), text);
        let key = |k: &str| format!("{} on {:?}: {}", g.program(), text, k);
        // longest viable prefix
        let v = d.read(i);
        if long {
            sh.tally.states += v as u64;
        }
        let sentence = d.sentence(&i[..v]);
        let member = v == i.len() && sentence;
        let prefix = s(&i[..v]);
        let ways = std::iter::once(("", &o.parse, &o.take, true)).chain(o.more.iter().map(|(w, p, t, b)| (*w, p, t, *b)));
        for (way, parse, take, seen) in ways {
        let head = || format!("{}{}{}", head(), if way.is_empty() { "" } else { "\n  by " }, way);
        let (parse, take) = match (parse, take) {
            (Ok(p), Ok(t)) => (p, t),
            (Err(e), _) | (_, Err(e)) => {
                sh.bad(&key("panic"), format!("{}\n  the parser panicked: {}", head(), e));
                continue;
            }
        };
        match mode {
            "C01" => {
                if parse.res.is_ok() != member {
                    sh.bad(
                        &key("accept"),
                        format!(
                            "{}\n  the parser {} it, but the text is {}in the language: {:?}",
                            head(),
                            if member { "rejects" } else { "accepts" },
                            if member { "" } else { "not " },
                            parse.res
                        ),
                    );
                }
            }
            "C02" => {
                if let Ok(t) = &parse.res {
                    if *t != text {
                        sh.bad(&key("print"), format!("{}\n  the tree prints as {:?}", head(), t));
                    }
                    if !parse.debug.is_empty() && way.is_empty() {
                        sh.bad(&key("value"), format!("{}\n  {}", head(), parse.debug));
                    }
                    if parse.again == Some(false) {
                        sh.bad(&key("reparse"), format!("{}\n  parsing the printed text {:?} gives another tree or fails", head(), t));
                    }
                }
                if let (Ok(t), true) = (&take.res, seen) {
                    let used = i.len() - take.rest.len().min(i.len());
                    let want = s(&i[..used]);
                    if *t != want {
                        sh.bad(&key("print prefix"), format!("{}\n  a prefix parse consumed {:?} but its tree prints as {:?}", head(), want, t));
                    }
                }
            }
            "C04" => {
                if !productive {
                    continue;
                }
                let ok = sentence;
                if take.res.is_ok() != ok {
                    sh.bad(
                        &key("take"),
                        format!("{}\n  longest viable prefix {:?} is {}a sentence, but the prefix parse returned {:?}", head(), prefix, if ok { "" } else { "not " }, take.res),
                    );
                } else if !seen {
                } else if take.rest != i[v..] {
                    sh.bad(
                        &key("rest"),
                        format!("{}\n  longest viable prefix {:?}, but the next reader gets {:?}", head(), prefix, s(&take.rest)),
                    );
                } else if take.pulled > v + 1 {
                    sh.bad(
                        &key("lookahead"),
                        format!("{}\n  consumed {} characters but drew {} from the source", head(), v, take.pulled),
                    );
                } else if take.pos != pos(&i[..v], i.get(v).copied()) {
                    sh.bad(&key("pos"), format!("{}\n  consumed {:?} but the position is {:?}", head(), prefix, take.pos));
                }
            }
            "C05" => {
                if !productive {
                    continue;
                }
                let here = pos(&i[..v], i.get(v).copied());
                let mut fail = |k: &str, m: String| sh.bad(&key(k), format!("{}\n  longest viable prefix {:?}\n  {}", head(), prefix, m));
                for (name, r, whole) in [("parse", parse, true), ("take", take, false)] {
                    let (er, msg) = match &r.res {
                        Err(e) => e,
                        Ok(_) => continue, // acceptance is C01's and C04's concern
                    };
                    let at = er.pos();
                    if at != here {
                        fail("where", format!("{} reports {:?}, the offence is at {:?}", name, er, here));
                        continue;
                    }
                    if !msg.starts_with(&format!("{}:{}", here.0, here.1)) {
                        fail("message", format!("{}: the message {:?} does not start with the position", name, msg));
                    }
                    // what was found and what was expected, quoted
                    let said: Vec<String> = match er {
                        Er::Branch(_, got, exp) => std::iter::once(got).chain(exp).map(|c| c.to_string()).collect(),
                        Er::Str(_, got, exp) => vec![got.clone(), exp.clone()],
                        Er::Eos(_) | Er::Continues(_) => vec![],
                    };
                    for q in said {
                        let c = q.chars().next().filter(|_| q.chars().count() == 1);
                        if !msg.contains(&format!("{:?}", q)) && !c.is_some_and(|c| msg.contains(&format!("{:?}", c))) {
                            fail("message", format!("{}: the message {:?} does not quote {:?}", name, msg, q));
                        }
                    }
                    if sentence && whole && v < i.len() {
                        // completely parsed, something follows
                        if *er != Er::Continues(here) {
                            fail("trailing", format!("{} should report trailing input, not {:?}", name, er));
                        }
                        continue;
                    }
                    match er {
                        Er::Eos(_) => {
                            if v < i.len() {
                                fail("eos", format!("{} reports the end of input, but {:?} follows", name, i[v]));
                            }
                        }
                        Er::Continues(_) => fail("continues", format!("{} reports trailing input after a text that is not a sentence", name)),
                        Er::Branch(_, got, exp) => {
                            if i.get(v) != Some(got) {
                                fail("got", format!("{} reports {:?}, but the next character is {:?}", name, got, i.get(v)));
                            }
                            for c in exp {
                                if !d.viable(&[&i[..v], &[*c][..]].concat()) {
                                    fail("expected", format!("{} claims {:?} could follow", name, c));
                                }
                            }
                            if exp.is_empty() {
                                fail("expected", format!("{} names no expected character", name));
                            }
                            if let Some((p, all)) = choices.as_ref().and_then(|c| c.gives_up(i)) {
                                if let Some(c) = all.iter().find(|c| p == v && !exp.contains(c)) {
                                    fail("expected", format!("{} names {:?}, but not {:?}, with which the choice that fails can start", name, exp, c));
                                }
                            }
                        }
                        Er::Str(_, got, exp) => {
                            let gc: Vec<char> = got.chars().collect();
                            let ec: Vec<char> = exp.chars().collect();
                            let k = gc.len().saturating_sub(1);
                            if i.get(v) != gc.last() || k > v || i[v - k..v] != gc[..k] {
                                fail("got", format!("{} reports {:?} found", name, got));
                            } else if ec.len() <= k || ec[..k] != gc[..k] {
                                fail("expected", format!("{} reports {:?} found where {:?} was expected", name, got, exp));
                            } else {
                                // the literal, from where it started, continues a viable text
                                if !d.viable(&[&i[..v - k], &ec[..]].concat()) {
                                    fail("expected", format!("{} claims {:?} could stand there", name, exp));
                                }
                            }
                        }
                    }
                }
            }
            _ => panic!("mode {}", mode),
        }
        }
    }
}

// ------------------------------------------------------------------ building

/// Driver code around the generated modules. `EQ` is filled in when trees can be compared.
const DRIVER: &str = r#"
use refmodel::shard::{Obs, Run, Er, ObsFn};
struct Probe { chars: Vec<char>, at: usize, pulled: std::rc::Rc<std::cell::Cell<usize>> }
impl Iterator for Probe {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.chars.get(self.at).copied();
        if c.is_some() { self.at += 1; self.pulled.set(self.at); }
        c
    }
}
fn lc(p: chewed::LineCol) -> (usize, usize) { (p.line, p.col) }
fn te(e: chewed::TakeError) -> Er {
    match e {
        chewed::TakeError::BadBranch(p, c, s) => Er::Branch(lc(p), c, s.to_vec()),
        chewed::TakeError::BadString(p, g, s) => Er::Str(lc(p), g, s.to_string()),
        chewed::TakeError::EndOfStream(p) => Er::Eos(lc(p)),
    }
}
fn pe(e: chewed::ParseError) -> Er {
    match e {
        chewed::ParseError::TakeError(e) => te(e),
        chewed::ParseError::InputContinues(p) => Er::Continues(lc(p)),
    }
}
fn src(i: &[char]) -> (chewed::IterWrapper<Probe>, std::rc::Rc<std::cell::Cell<usize>>) {
    let n = std::rc::Rc::new(std::cell::Cell::new(0));
    (chewed::IterWrapper::new(Probe { chars: i.to_vec(), at: 0, pulled: n.clone() }), n)
}
fn obs<T: chewed::Parse BOUNDS>(i: &[char]) -> Obs {
    use chewed::Parser;
    let parse = refmodel::report::catch(|| {
        let (w, n) = src(i);
        let r = <T as chewed::Parse>::parse(w);
        let (debug, again) = DETAIL;
        Run { pulled: n.get(), debug, again, rest: vec![], pos: (0, 0), res: match r {
            Ok(t) => Ok(t.to_string()),
            Err(e) => { let m = e.to_string(); Err((pe(e), m)) }
        } }
    });
    let take = refmodel::report::catch(|| {
        let (mut w, n) = src(i);
        let r = <T as chewed::Parse>::take(&mut w);
        let pulled = n.get();
        let pos = lc(w.pos());
        let mut rest = vec![];
        while let Some(c) = w.next() { rest.push(c); if rest.len() > 200000 { break } }
        Run { pulled, debug: String::new(), again: None, rest, pos, res: match r {
            Ok(t) => Ok(t.to_string()),
            Err(e) => { let m = e.to_string(); Err((te(e), m)) }
        } }
    });
    Obs { parse, take, more: vec![] }
}
"#;

/// What is wrong with a tree as a value: copies, and the trees of the texts before this one.
const VALUES: &str = r#"
thread_local!(static BEFORE: std::cell::RefCell<Vec<(String, Box<dyn std::any::Any>)>> = Default::default());
fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn values<T: Eq + Clone + std::hash::Hash + std::fmt::Display + 'static>(t: &T, i: &[char]) -> String {
    let text: String = i.iter().collect();
    let copy = t.clone();
    let mut bad = String::new();
    if copy != *t || hash(&copy) != hash(t) || copy.to_string() != t.to_string() {
        bad = "a copy of the tree differs from it".into();
    }
    BEFORE.with(|b| {
        let mut b = b.borrow_mut();
        if b.last().map_or(false, |x| !x.1.is::<T>()) {
            b.clear();
        }
        for (other, u) in b.iter() {
            let same = *other == text;
            if u.downcast_ref::<T>().map_or(false, |u| (u == t) != same || same && hash(u) != hash(t)) {
                bad = format!("the trees of this text and of {:?} are {}", other, if same { "different" } else { "equal" });
            }
        }
        if b.len() >= 60 {
            b.remove(0);
        }
        b.push((text, Box::new(copy)));
    });
    bad
}
"#;

/// The other ways to run a generated parser.
const MORE: &str = r#"
fn more<T: chewed::Parse BOUNDS>(i: &[char]) -> Obs {
    use chewed::Parser;
    use refmodel::report::catch;
    type Src = chewed::IterWrapper<Probe>;
    fn run(r: Result<String, (Er, String)>) -> Run {
        Run { pulled: 0, debug: String::new(), again: None, rest: vec![], pos: (0, 0), res: r }
    }
    fn whole(i: &[char], f: fn(&str, Src) -> Result<String, chewed::ParseError>) -> Result<Run, String> {
        catch(|| run(f(&i.iter().collect::<String>(), src(i).0).map_err(|e| { let m = e.to_string(); (pe(e), m) })))
    }
    fn part(i: &[char], f: fn(&str, &mut Src) -> Result<String, chewed::TakeError>) -> Result<Run, String> {
        catch(|| {
            let (mut w, n) = src(i);
            let mut r = run(f(&i.iter().collect::<String>(), &mut w).map_err(|e| { let m = e.to_string(); (te(e), m) }));
            r.pulled = n.get();
            r.pos = lc(w.pos());
            while let Some(c) = w.next() { r.rest.push(c); if r.rest.len() > 200000 { break } }
            r
        })
    }
    let mut o = obs::<T>(i);
    o.more.push(("parse_str, take_str", whole(i, |t, _| T::parse_str(t).map(|t| t.to_string())), part(i, |t, _| T::take_str(t).map(|t| t.to_string())), false));
    o.more.push(("the methods of Parser", whole(i, |_, w| w.parse::<T>().map(|t| t.to_string())), part(i, |_, w| w.take::<T>().map(|t| t.to_string())), true));
    o.more.push(("Box", whole(i, |_, w| <Box<T> as chewed::Parse>::parse(w).map(|t| t.to_string())), part(i, |_, w| <Box<T> as chewed::Parse>::take(w).map(|t| t.to_string())), true));
    o
}
"#;

#[derive(Clone)]
pub struct Entry {
    /// What the reference model needs to judge this parser.
    pub spec: String,
    /// The emitted code.
    pub code: String,
    /// Grammar text, for messages.
    pub text: String,
    /// Also convert the tree to a character.
    pub as_char: bool,
}

pub struct Builder {
    pub mode: String,
    /// Keep derives and compare trees.
    pub detail: bool,
    pub batch: usize,
    /// Path of the procedural macro, for entries whose code starts with MACRO.
    pub macro_lib: Option<PathBuf>,
    /// Report code that does not compile as a violation.
    pub must_compile: bool,
    /// Only type-check, do not run.
    pub check_only: bool,
}

pub fn rustc() -> Command {
    let mut c = Command::new("rustc");
    c.env_remove("RUSTC_WRAPPER");
    c
}

/// Compiles /repo/chewed for the shards of this check.
pub fn build_chewed(ctx: &Ctx) -> PathBuf {
    let out = work(&ctx.id).join("libchewed.rlib");
    let st = rustc()
        .args(["--edition", "2018", "--crate-type", "rlib", "--crate-name", "chewed", "-Copt-level=1", "-Cdebug-assertions=on", "--cap-lints", "allow", "-o"])
        .arg(&out)
        .arg(crate::report::repo().join("chewed/src/lib.rs"))
        .output()
        .unwrap();
    if !st.status.success() {
        panic!("chewed does not compile: {}", String::from_utf8_lossy(&st.stderr));
    }
    out
}

/// Removes `#[derive(...)]` attributes from emitted code (they only add methods we do not call).
pub fn strip_derives(code: &str) -> String {
    let mut out = String::with_capacity(code.len());
    let mut rest = code;
    while let Some(p) = rest.find("# [derive (") {
        out.push_str(&rest[..p]);
        let tail = &rest[p..];
        match tail.find(")]") {
            Some(e) => rest = &tail[e + 2..],
            None => {
                rest = tail;
                break;
            }
        }
    }
    out.push_str(rest);
    out
}

pub fn run_shards(ctx: &'static Ctx, b: &Builder, entries: &[Entry]) {
    let chewed = build_chewed(ctx);
    let next = AtomicUsize::new(0);
    let uncompilable = AtomicUsize::new(0);
    // long texts take a while: each such grammar is a shard of its own, and they come first
    let n = entries.iter().take_while(|e| e.spec.starts_with("LONG ")).count();
    let chunks: Vec<&[Entry]> = entries[..n].chunks(1).chain(entries[n..].chunks(b.batch)).collect();
    let fatal: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..THREADS {
            let (next, chunks, chewed, fatal, unc) = (&next, &chunks, &chewed, &fatal, &uncompilable);
            s.spawn(move || {
                crate::report::set_thread(t + 1);
                loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= chunks.len() || ctx.enough() || fatal.lock().unwrap().is_some() {
                        break;
                    }
                    match shard(ctx, b, k, chunks[k], chewed) {
                        Ok(u) => {
                            unc.fetch_add(u, SeqCst);
                        }
                        Err(e) => *fatal.lock().unwrap() = Some(e),
                    }
                }
            });
        }
    });
    if let Some(e) = fatal.into_inner().unwrap() {
        panic!("{}", e);
    }
    if ctx.enough() {
        ctx.exhaustive.store(false, SeqCst);
    }
    let u = uncompilable.load(SeqCst);
    if u > 0 {
        ctx.count("grammars_whose_code_does_not_compile", u as u64);
        if !b.must_compile {
            ctx.exhaustive.store(false, SeqCst);
        }
        if u == entries.len() {
            ctx.violation("nothing compiles", "no generated parser compiles", "");
        }
    }
}

fn source(b: &Builder, es: &[&Entry]) -> (String, Vec<(usize, usize)>) {
    let mut src = String::from("#![allow(warnings)]\n");
    let mut ranges = Vec::new();
    let mut line = 2;
    for (k, e) in es.iter().enumerate() {
        let code = if let Some(text) = e.code.strip_prefix("MACRO ") {
            format!("chomp_macro::nibble! {{ {} }}", text)
        } else if b.detail {
            e.code.clone()
        } else {
            strip_derives(&e.code)
        };
        let m = format!("mod g{} {{\n{}\n}}\n", k, code);
        let n = m.matches('\n').count();
        ranges.push((line, line + n - 1));
        line += n;
        src.push_str(&m);
    }
    if b.check_only {
        for k in 0..es.len() {
            let values = if b.detail { " + Clone + std::fmt::Debug + Eq + std::hash::Hash" } else { "" };
            let m = format!("const _: fn() = || {{ fn f<T: chewed::Parse + std::fmt::Display{}>() {{}} f::<g{}::Ast>() }};\n", values, k);
            // attribute errors here to the grammar as well
            src.push_str(&m);
            ranges.push((line, line));
            line += 1;
        }
        src.push_str("fn main() {}\n");
        return (src, ranges);
    }
    let (bounds, detail) = if b.mode == "C02" {
        src.push_str(VALUES);
        (
            "+ Eq + Clone + std::hash::Hash + std::fmt::Debug + 'static",
            "match &r { Ok(t) => (values(t, i), Some(match <T as chewed::Parse>::parse_str(&t.to_string()) { Ok(u) => u == *t && hash(&u) == hash(t), Err(_) => false })), Err(_) => (String::new(), None) }",
        )
    } else if b.detail {
        (
            "+ PartialEq + std::fmt::Debug",
            "match &r { Ok(t) => (format!(\"{:?}\", t), Some(match <T as chewed::Parse>::parse_str(&t.to_string()) { Ok(u) => u == *t, Err(_) => false })), Err(_) => (String::new(), None) }",
        )
    } else {
        ("", "(String::new(), None)")
    };
    src.push_str(&DRIVER.replace("BOUNDS", bounds).replace("DETAIL", detail));
    let ways = matches!(b.mode.as_str(), "C01" | "C02" | "C04" | "C05");
    if ways {
        src.push_str(&MORE.replace("BOUNDS", bounds));
    }
    if es.iter().any(|e| e.as_char) {
        src.push_str(
            "fn obs_char<T: chewed::Parse + PartialEq + std::fmt::Debug>(i: &[char]) -> Obs where char: From<T> {\n let mut o = obs::<T>(i);\n if let Ok(r) = &mut o.parse { if r.res.is_ok() { if let Ok(t) = <T as chewed::Parse>::parse_str(&i.iter().collect::<String>()) { r.debug.push('\\u{1}'); r.debug.push(char::from(t)); } } }\n o }\n",
        );
    }
    src.push_str("fn main() {\n refmodel::shard::main(");
    let _ = write!(src, "{:?}, &[\n", b.mode);
    let mut line = src.matches('\n').count() + 1;
    for (k, e) in es.iter().enumerate() {
        // attribute errors here to the grammar as well
        ranges.push((line, line));
        line += 1;
        let _ = writeln!(src, "  ({:?}, {}::<g{}::Ast> as ObsFn),", e.spec, if e.as_char { "obs_char" } else if ways && k % 8 == 0 { "more" } else { "obs" }, k);
    }
    src.push_str(" ]);\n}\n");
    (src, ranges)
}

/// Returns how many grammars had to be left out because their code does not compile.
fn shard(ctx: &'static Ctx, b: &Builder, k: usize, all: &[Entry], chewed: &Path) -> Result<usize, String> {
    let dir = work(&ctx.id);
    let mut es: Vec<&Entry> = all.iter().collect();
    let rs = dir.join(format!("s{}.rs", k));
    let exe = dir.join(format!("s{}.bin", k));
    let mut dropped = 0;
    for round in 0.. {
        if es.is_empty() {
            return Ok(dropped);
        }
        let (src, ranges) = source(b, &es);
        fs::write(&rs, &src).map_err(|e| e.to_string())?;
        let mut c = rustc();
        c.args(["--edition", "2018", "--crate-type", "bin", "--crate-name", "shard", "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=1", "--error-format=json"]);
        if b.check_only {
            // lints that are errors by default would stop a user
            c.args(["--emit=metadata"]);
        } else {
            c.args(["--cap-lints", "allow"]);
        }
        c.arg("-o").arg(&exe).arg("--extern").arg(format!("chewed={}", chewed.display()));
        if !b.check_only {
            c.arg("--extern").arg(format!("refmodel={}", verif().join("target/release/librefmodel.rlib").display()));
        }
        if let Some(m) = &b.macro_lib {
            c.arg("--extern").arg(format!("chomp_macro={}", m.display()));
        }
        let out = c.arg(&rs).output().map_err(|e| e.to_string())?;
        if out.status.success() {
            break;
        }
        let err = String::from_utf8_lossy(&out.stderr).into_owned();
        let mut lines: HashMap<usize, String> = HashMap::new();
        let mut first_err = None;
        for l in err.lines() {
            if !l.contains("\"level\":\"error\"") {
                continue;
            }
            let msg = l.split("\"rendered\":\"").nth(1).unwrap_or(l).chars().take(600).collect::<String>();
            first_err.get_or_insert(msg.clone());
            let mut r = l;
            // spans in this file only: derives also point into the standard library
            let here = format!("\"file_name\":{}", json(&rs.to_string_lossy()));
            while let Some(q) = r.find(&here) {
                r = &r[q + here.len()..];
                let p = match r.find("\"line_start\":") {
                    Some(p) => p,
                    None => break,
                };
                r = &r[p + 13..];
                let n: usize = r.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
                for (i, (a, z)) in ranges.iter().enumerate() {
                    if *a <= n && n <= *z {
                        lines.entry(i % es.len()).or_insert_with(|| msg.clone());
                    }
                }
            }
        }
        if lines.is_empty() || round > 8 {
            if out.status.code().is_none() || err.contains("internal compiler error") || es.len() > 1 {
                // cannot attribute: bisect
                if es.len() > 1 && round <= 8 {
                    let mid = all.len() / 2;
                    if mid > 0 {
                        let x = shard(ctx, b, k * 2 + 100_000, &all[..mid], chewed)?;
                        let y = shard(ctx, b, k * 2 + 100_001, &all[mid..], chewed)?;
                        return Ok(x + y);
                    }
                }
            }
            return Err(format!("a shard does not compile: {}", first_err.unwrap_or(err)));
        }
        let mut idx: Vec<usize> = lines.keys().copied().collect();
        idx.sort();
        for i in idx.iter().rev() {
            if b.must_compile {
                ctx.violation(
                    &format!("compile {}", es[*i].text),
                    format!("the code generated for this grammar does not compile\n  {}\n  {}", es[*i].text, lines[i].replace("\\n", "\n  ")),
                    format!("{}\n\n{}", es[*i].text, es[*i].code),
                );
            }
            es.remove(*i);
            dropped += 1;
        }
    }
    if b.check_only {
        ctx.trace(es.len() as u64);
        let _ = fs::remove_file(&exe);
        let _ = fs::remove_file(&rs);
        return Ok(dropped);
    }
    let mut first = 0;
    let mut crashes = 0;
    while first < es.len() && crashes < 4 {
        let cur = dir.join(format!("s{}.cur", k));
        let outp = dir.join(format!("s{}.out", k));
        let mut c = Command::new(&exe)
            .arg(&cur)
            .arg(first.to_string())
            .arg(if ctx.thorough { "1" } else { "0" })
            .stdout(Stdio::from(fs::File::create(&outp).map_err(|e| e.to_string())?))
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        // progress watchdog: the current input must change within the limit
        let mut last = (String::new(), Instant::now());
        let mut hung = false;
        let status = loop {
            if let Some(s) = c.try_wait().map_err(|e| e.to_string())? {
                break s;
            }
            std::thread::sleep(Duration::from_millis(if last.1.elapsed().as_secs() < 1 { 5 } else { 50 }));
            let now = read_cur(&cur).map(|(i, s)| format!("{} {}", i, s)).unwrap_or_default();
            if now != last.0 {
                last = (now, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(25) {
                hung = true;
                let _ = c.kill();
                break c.wait().map_err(|e| e.to_string())?;
            }
        };
        let text = fs::read_to_string(&outp).unwrap_or_default();
        let mut done = false;
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "V" => {
                    let i: usize = f[1].parse().unwrap();
                    ctx.violation(&unjson(f[2]), unjson(f[3]), format!("{}\n{}", es[i].text, unjson(f[3])));
                }
                "S" => {
                    ctx.state(f[1].parse().unwrap());
                    ctx.transition(f[2].parse().unwrap());
                    ctx.trace(f[3].parse().unwrap());
                }
                "X" => {
                    ctx.sample(|| unjson(f[1]));
                }
                "DONE" => done = true,
                _ => {}
            }
        }
        if done && status.success() {
            break;
        }
        crashes += 1;
        let sig = status.signal().unwrap_or(0);
        if (sig == 9 && !hung) || sig == 15 {
            return Err(format!("a shard was killed by signal {}", sig));
        }
        match read_cur(&cur) {
            Some((i, inp)) if i < es.len() && (hung || sig != 0) => {
                let w = if hung { "never ends".to_string() } else { format!("crashes (signal {})", sig) };
                ctx.violation(
                    &format!("crash {} on {:?}", es[i].text, inp),
                    format!("the generated parser {}\n  grammar {}\n  input {:?}", w, es[i].text, inp),
                    format!("{}\ninput {:?}", es[i].text, inp),
                );
                first = i + 1;
            }
            x => return Err(format!("a shard failed outside a parser: {:?} {:?}", status, x)),
        }
    }
    for e in ["rs", "bin", "cur", "out"] {
        let _ = fs::remove_file(dir.join(format!("s{}.{}", k, e)));
    }
    Ok(dropped)
}

fn read_cur(p: &Path) -> Option<(usize, String)> {
    let b = fs::read(p).ok()?;
    let n = u32::from_le_bytes(b.get(0..4)?.try_into().ok()?) as usize;
    let t = String::from_utf8_lossy(b.get(4..4 + n)?).into_owned();
    let (i, s) = t.split_once('\t')?;
    Some((i.parse().ok()?, s.to_string()))
}

pub fn unjson(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 1;
    while i + 1 < c.len() {
        if c[i] == '\\' {
            i += 1;
            match c[i] {
                'n' => o.push('\n'),
                'u' => {
                    let h: String = c[i + 1..i + 5].iter().collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
                    i += 4;
                }
                k => o.push(k),
            }
        } else {
            o.push(c[i]);
        }
        i += 1;
    }
    o
}

pub fn _unused() {
    let _ = catch(|| ());
}
