//! Wide and deep grammars with long texts: a chart recogniser (Earley), sentences through every
//! part of a grammar, and the families themselves.
use crate::gram::*;
use std::collections::BTreeSet;
use std::hash::{BuildHasherDefault, Hasher};

// ------------------------------------------------------------------ recogniser

/// A quick hash for small numbers.
#[derive(Default, Clone)]
struct Quick(u64);
impl Hasher for Quick {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        b.iter().for_each(|b| self.write_usize(*b as usize));
    }
    fn write_usize(&mut self, n: usize) {
        self.0 = (self.0.rotate_left(5) ^ n as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
type HashSet<T> = std::collections::HashSet<T, BuildHasherDefault<Quick>>;
type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Quick>>;

enum Node {
    Eps,
    Lit(Vec<char>),
    Cat(Vec<usize>),
    Alt(Vec<usize>),
    /// a fixed point, or a reference to one
    Same(usize),
}

type Item = (usize, usize, usize); // node, dot, origin

#[derive(Default, Clone)]
struct Set {
    seen: HashSet<Item>,
    /// items waiting for a node to be completed
    wait: HashMap<usize, Vec<Item>>,
    /// items waiting for a character
    scan: Vec<(char, Item)>,
    top: bool,
}

/// The set of sentential positions after each prefix of a text.
pub struct Chart {
    nodes: Vec<Node>,
    root: usize,
    sets: Vec<Set>,
}

impl Chart {
    pub fn new(g: &G) -> Chart {
        fn go(g: &G, nodes: &mut Vec<Node>, env: &mut Vec<usize>) -> usize {
            let n = match g {
                G::Eps => Node::Eps,
                G::Lit(s) if s.is_empty() => Node::Eps,
                G::Lit(s) => Node::Lit(s.chars().collect()),
                G::Cat(v) => Node::Cat(v.iter().map(|g| go(g, nodes, env)).collect()),
                G::Alt(v) => Node::Alt(v.iter().map(|g| go(g, nodes, env)).collect()),
                G::Fix(b) => {
                    let me = nodes.len();
                    nodes.push(Node::Eps);
                    env.push(me);
                    let b = go(b, nodes, env);
                    env.pop();
                    nodes[me] = Node::Same(b);
                    return me;
                }
                G::Ref(i) => Node::Same(env[env.len() - 1 - i]),
            };
            nodes.push(n);
            nodes.len() - 1
        }
        let mut nodes = Vec::new();
        let root = go(g, &mut nodes, &mut Vec::new());
        let mut c = Chart { nodes, root, sets: vec![] };
        let mut first = Set::default();
        c.close(&mut first, vec![], vec![(root, 0, 0)]);
        c.sets.push(first);
        c
    }

    /// Characters read so far.
    pub fn len(&self) -> usize {
        self.sets.len() - 1
    }
    pub fn back_to(&mut self, n: usize) {
        self.sets.truncate(n + 1);
    }
    /// Could the text go on with `c`?
    pub fn viable(&self, c: char) -> bool {
        self.sets.last().unwrap().scan.iter().any(|(d, _)| *d == c)
    }
    /// Is the text read so far a sentence?
    pub fn sentence(&self) -> bool {
        self.sets.last().unwrap().top
    }
    /// Characters that may follow.
    pub fn next(&self) -> BTreeSet<char> {
        self.sets.last().unwrap().scan.iter().map(|s| s.0).collect()
    }
    /// Reads a character; false (and unchanged) if the text would not be a viable prefix.
    pub fn push(&mut self, c: char) -> bool {
        let from: Vec<Item> = self.sets.last().unwrap().scan.iter().filter(|(d, _)| *d == c).map(|s| s.1).collect();
        if from.is_empty() {
            return false;
        }
        let mut s = Set::default();
        let moved = from.into_iter().map(|(n, d, o)| (n, d + 1, o)).collect();
        self.close(&mut s, moved, vec![]);
        self.sets.push(s);
        true
    }

    /// Closes a set under prediction and completion. `moved`: literal items after a scan.
    fn close(&self, s: &mut Set, moved: Vec<Item>, start: Vec<Item>) {
        let here = self.sets.len();
        let mut todo: Vec<Item> = moved;
        todo.extend(start);
        let mut empty_here: HashSet<usize> = HashSet::default();
        while let Some(it) = todo.pop() {
            if !s.seen.insert(it) {
                continue;
            }
            let (n, d, o) = it;
            // what the item waits for; `None`: it is complete
            let want = match &self.nodes[n] {
                Node::Eps => None,
                Node::Lit(l) => {
                    if d < l.len() {
                        s.scan.push((l[d], it));
                        continue;
                    }
                    None
                }
                Node::Cat(v) => v.get(d).map(|c| vec![*c]),
                Node::Alt(v) => (d == 0).then(|| v.clone()),
                Node::Same(b) => (d == 0).then(|| vec![*b]),
            };
            match want {
                Some(cs) => {
                    for c in cs {
                        s.wait.entry(c).or_default().push(it);
                        if empty_here.contains(&c) {
                            todo.push((n, d + 1, o));
                        }
                        todo.push((c, 0, here));
                    }
                }
                None => {
                    if n == self.root && o == 0 {
                        s.top = true;
                    }
                    if o == here {
                        empty_here.insert(n);
                    }
                    let ws = if o == here { s.wait.get(&n) } else { self.sets[o].wait.get(&n) };
                    for (n, d, o) in ws.into_iter().flatten() {
                        todo.push((*n, d + 1, *o));
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------- sentences

/// No longer sentences than this.
const MAX: usize = 1100;

fn len(s: &str) -> usize {
    s.chars().count()
}

/// A shortest word; `env`: shortest words of the enclosing fixed points, if known yet.
fn shortest(g: &G, env: &mut Vec<Option<String>>) -> Option<String> {
    match g {
        G::Eps => Some(String::new()),
        G::Lit(s) => Some(s.clone()),
        G::Ref(i) => env[env.len() - 1 - i].clone(),
        G::Cat(v) => v.iter().map(|g| shortest(g, env)).collect::<Option<Vec<_>>>().map(|v| v.concat()),
        G::Alt(v) => v.iter().filter_map(|g| shortest(g, env)).min_by_key(|w| len(w)),
        G::Fix(b) => {
            env.push(None);
            for _ in 0..2 {
                let w = shortest(b, env);
                *env.last_mut().unwrap() = w;
            }
            env.pop().unwrap()
        }
    }
}

/// Sentences through every part, and with every recursion gone through `pump` times.
pub fn sentences(g: &G, pumps: &[usize]) -> Vec<String> {
    struct W<'a> {
        out: BTreeSet<(usize, String)>,
        pumps: &'a [usize],
    }
    // `pre` and `post`: the text around this part
    fn go(w: &mut W, g: &G, env: &mut Vec<Option<String>>, pre: &str, post: &str) {
        match g {
            G::Eps | G::Lit(_) | G::Ref(_) => {
                if let Some(x) = shortest(g, env) {
                    let s = format!("{}{}{}", pre, x, post);
                    w.out.insert((len(&s), s));
                }
            }
            G::Alt(v) => v.iter().for_each(|g| go(w, g, env, pre, post)),
            G::Cat(v) => {
                let ws: Option<Vec<String>> = v.iter().map(|g| shortest(g, env)).collect();
                if let Some(ws) = ws {
                    for (i, g) in v.iter().enumerate() {
                        go(w, g, env, &format!("{}{}", pre, ws[..i].concat()), &format!("{}{}", ws[i + 1..].concat(), post));
                    }
                }
            }
            G::Fix(b) => {
                let me = match shortest(g, env) {
                    Some(m) => m,
                    None => return,
                };
                env.push(Some(me.clone()));
                go(w, b, env, pre, post);
                let mut ctx = Vec::new();
                around(b, 0, env, "", "", &mut ctx);
                for (i, (p, s)) in ctx.iter().enumerate().filter(|(_, (p, s))| !p.is_empty() || !s.is_empty()) {
                    // many times only through some
                    let some = ctx.len() < 5 || [0, ctx.len() / 2, ctx.len() - 1].contains(&i);
                    for k in w.pumps.iter().filter(|k| some || **k < 8) {
                        let t = format!("{}{}{}{}{}", pre, p.repeat(*k), me, s.repeat(*k), post);
                        w.out.insert((len(&t), t));
                    }
                }
                // all recursions in turn
                let (p, s) = ctx.iter().fold((String::new(), String::new()), |(a, z), (p, s)| (a + p, format!("{}{}", s, z)));
                for k in w.pumps {
                    let t = format!("{}{}{}{}{}", pre, p.repeat(*k), me, s.repeat(*k), post);
                    w.out.insert((len(&t), t));
                }
                env.pop();
            }
        }
    }
    /// Texts around every occurrence of variable `i`.
    fn around(g: &G, i: usize, env: &mut Vec<Option<String>>, pre: &str, post: &str, out: &mut Vec<(String, String)>) {
        match g {
            G::Ref(j) if *j == i => out.push((pre.into(), post.into())),
            G::Eps | G::Lit(_) | G::Ref(_) => {}
            G::Alt(v) => v.iter().for_each(|g| around(g, i, env, pre, post, out)),
            G::Cat(v) => {
                let ws: Option<Vec<String>> = v.iter().map(|g| shortest(g, env)).collect();
                if let Some(ws) = ws {
                    for (k, g) in v.iter().enumerate() {
                        around(g, i, env, &format!("{}{}", pre, ws[..k].concat()), &format!("{}{}", ws[k + 1..].concat(), post), out);
                    }
                }
            }
            G::Fix(b) => {
                let me = shortest(g, env);
                if me.is_some() {
                    env.push(me);
                    around(b, i + 1, env, pre, post, out);
                    env.pop();
                }
            }
        }
    }
    let mut w = W { out: BTreeSet::new(), pumps };
    let mut most = MAX;
    if let Some(s) = shortest(g, &mut vec![]) {
        most = most.max(len(&s));
        w.out.insert((len(&s), s));
    }
    go(&mut w, g, &mut vec![], "", "");
    if let Some(s) = longest(g, &mut vec![]) {
        w.out.insert((len(&s), s));
    }
    w.out.into_iter().filter(|p| p.0 <= most).map(|p| p.1).collect()
}

/// The word that takes the longest way everywhere without recursion.
fn longest(g: &G, env: &mut Vec<Option<String>>) -> Option<String> {
    match g {
        G::Cat(v) => v.iter().map(|g| longest(g, env)).collect::<Option<Vec<_>>>().map(|v| v.concat()),
        G::Alt(v) => v.iter().filter_map(|g| longest(g, env)).max_by_key(|w| len(w)),
        G::Fix(b) => {
            let me = shortest(g, env);
            env.push(me);
            let r = longest(b, env);
            env.pop();
            r
        }
        _ => shortest(g, env),
    }
}

/// The texts tried on a grammar: its sentences cut at every place, and with foreign characters
/// at every place, as far as the budget goes (then at the ends and at places around powers of two).
pub fn texts(g: &G, budget: usize, pumps: &[usize]) -> Vec<Vec<char>> {
    let mut letters = BTreeSet::new();
    g.chars(&mut letters);
    let ls: Vec<char> = letters.iter().copied().collect();
    let foreign = ['\u{3a9}', '\n'];
    let words = sentences(g, pumps);
    let mut out: BTreeSet<Vec<char>> = BTreeSet::new();
    let total: usize = words.iter().map(|w| len(w)).sum();
    let every = total * 4 <= budget;
    // with many sentences: only some are changed, evenly spread
    let step = if every { 1 } else { words.len().div_ceil(if total / words.len().max(1) > 50 { 8 } else { budget / 40 }) };
    for (k, w) in words.iter().enumerate() {
        let w: Vec<char> = w.chars().collect();
        out.insert(w.clone());
        if k % step != 0 && k + 1 != words.len() {
            continue;
        }
        for i in 0..=w.len() {
            let near = |x: usize| i.abs_diff(x) <= 1;
            if !(every || w.len() <= 40 || i < 3 || i + 3 > w.len() || [16, 32, 64, 128, 255, 256, 512, 1000, 32768, 65535].iter().any(|x| near(*x)) || i % 97 == 0 && w.len() < 10000) {
                continue;
            }
            out.insert(w[..i].to_vec());
            let here = w.get(i).copied();
            // a letter next to this one, one further away
            let p = here.and_then(|c| ls.iter().position(|l| *l == c)).unwrap_or(0);
            let mut cs = vec![ls[(p + 1) % ls.len()], ls[(p + ls.len() / 2) % ls.len()]];
            cs.extend(foreign);
            for c in cs {
                if Some(c) == here {
                    continue;
                }
                let mut v = w.clone();
                if i < v.len() {
                    v[i] = c;
                } else {
                    v.push(c);
                }
                out.insert(v);
            }
        }
    }
    out.into_iter().collect()
}

// -------------------------------------------------------------------- families

pub fn letter(i: usize) -> String {
    // capital and small letters, then Latin Extended, Cyrillic, CJK: all letters
    let c = match i {
        0..=25 => 'a' as u32 + i as u32,
        26..=51 => 'A' as u32 + i as u32 - 26,
        52..=150 => 0x410 + (i as u32 - 52) % 64 + if i >= 116 { 0x4e00 - 0x410 } else { 0 },
        _ => 0x4f00 + i as u32,
    };
    char::from_u32(c).unwrap().to_string()
}

/// Wide, deep and long grammars, all of them accepted.
pub fn family(deep: bool) -> Vec<(String, G)> {
    let mut out: Vec<(String, G)> = Vec::new();
    let l = |i: usize| lit(&letter(i));
    let widths: &[usize] = if deep { &[16, 17, 32, 33, 40, 64, 65, 100, 128, 130, 200, 256, 257, 300, 400] } else { &[17, 33, 65, 130, 260] };
    for &n in widths {
        out.push((format!("sequence of {}", n), cat((0..n).map(l).collect())));
        out.push((format!("alternation of {}", n), alt((0..n).map(l).collect())));
        out.push((format!("alternation of {} words", n), alt((0..n).map(|i| lit(&format!("{}{}{}", letter(i), letter((i * 7 + 3) % n), letter(0)))).collect())));
        out.push((format!("alternation of {} pairs", n), alt((0..n).map(|i| cat(vec![l(i), alt(vec![l((i + 1) % n), l((i + 2) % n)])])).collect())));
        out.push((format!("repeated alternation of {}", n), fix(alt(vec![G::Eps, cat(vec![alt((0..n).map(l).collect()), rf(0)])]))));
        out.push((format!("alternation of {} recursions", n), fix(alt((0..n).map(|i| if i == n / 2 { G::Eps } else { cat(vec![l(i), rf(0)]) }).collect()))));
        out.push((format!("the same part {} times", n), cat((0..n).map(|_| alt(vec![lit("a"), lit("b")])).collect())));
        if n <= 70 {
            out.push((format!("{} optional parts", n), cat((0..n).map(|i| if i == 0 { l(i) } else { alt(vec![G::Eps, l(i)]) }).collect())));
            out.push((format!("{} recursive parts", n), cat((0..n).map(|i| fix(cat(vec![l(i), alt(vec![rf(0), lit(";")])]))).collect())));
            let mut g = l(n);
            for i in (0..n).rev() {
                g = if i % 2 == 0 { cat(vec![l(i), g, lit(".")]) } else { alt(vec![l(i), g]) };
            }
            out.push((format!("nesting of {}", n), g));
        }
    }
    for d in if deep { vec![6, 8, 10, 12] } else { vec![6, 8] } {
        // nested fixed points, each with its own opening and a way to every outer one
        let mut g = alt((0..d).map(|i| cat(vec![l(i), rf(i)])).chain([lit("!")]).collect());
        for i in 0..d {
            g = fix(alt(vec![cat(vec![lit(&format!("{}", char::from_u32(0x2160 + i as u32).unwrap())), g, lit("/")]), lit(&letter(30 + i))]));
        }
        out.push((format!("fixed points nested {} deep", d), g));
    }
    for n in [100, 255, 256, 300] {
        let w: String = (0..n).map(|i| letter(i % 40)).collect();
        out.push((format!("literal of {}", n), cat(vec![lit("<"), lit(&w), lit(">")])));
        out.push((format!("repeated literal of {}", n), fix(alt(vec![cat(vec![lit(&w), rf(0)]), lit("!")]))));
    }
    for d in [16, 17, 18] {
        for r in [0, 1, 7, 8, 15, d - 1] {
            out.push((format!("{} nested fixed points, back to {}", d, r), crate::families::nested(d, r, 2)));
        }
    }
    // a long way along a line, and down
    out.push(("literal of 65540".into(), cat(vec![lit(&(0..65540).map(|i| letter(i % 23)).collect::<String>()), lit("<")])));
    out.push(("65540 line feeds".into(), cat(vec![lit(&"\n".repeat(65540)), lit("<")])));
    let digit = || alt("0123456789".chars().map(|c| lit(&c.to_string())).collect());
    out.push(("list".into(), fix(cat(vec![lit("a"), alt(vec![cat(vec![lit(","), rf(0)]), lit(";")])]))));
    out.push(("lines".into(), fix(alt(vec![cat(vec![alt(vec![lit("\n"), lit("x"), lit("\u{2028}")]), rf(0)]), lit(".")]))));
    out.push(("crs".into(), fix(alt(vec![cat(vec![alt(vec![lit("\r"), lit("\n")]), rf(0)]), lit("x")]))));
    out.push(("brackets".into(), fix(alt(vec![cat(vec![lit("("), rf(0), lit(")")]), cat(vec![lit("["), rf(0), lit("]")]), lit("x")]))));
    out.push(("digits".into(), fix(cat(vec![digit(), alt(vec![rf(0), G::Eps])]))));
    let number = fix(cat(vec![digit(), alt(vec![G::Eps, rf(0)])]));
    let tail = |op: &str, g: G| fix(alt(vec![G::Eps, cat(vec![lit(op), g.shift(0, 1), rf(0)])]));
    let f = alt(vec![number, cat(vec![lit("("), rf(0), lit(")")])]);
    let t = cat(vec![f.clone(), tail("*", f.clone())]);
    out.push(("arithmetic".into(), fix(cat(vec![t.clone(), tail("+", t)]))));
    // many different types
    let k = if deep { 24 } else { 18 };
    out.push(("many types".into(), alt((0..k).map(|i| cat(vec![l(i), alt((0..k).map(|j| lit(&format!("{}{}{}", letter(j), letter(i), letter((i + j) % k)))).collect())])).collect())));
    out.retain(|(_, g)| accepted(g) && all_productive(g));
    out
}
