//! C16..C20: the run-time cursor and its helpers against a reference model.
//!
//! The model state is (source, characters consumed, look-ahead buffered). Every operation
//! sequence up to a depth is executed on the real `IterWrapper` for every source up to a
//! length, and after every operation the result, the position, the number of characters
//! pulled from the source and (at the end) the rest of the stream are compared.
use chewed::{IterWrapper, LineCol, Parser, TakeError};
use refmodel::pos::pos;
use refmodel::report::{par, Ctx};
use std::cell::Cell;
use std::rc::Rc;

/// A fused source that counts how many characters were taken from it.
struct Source {
    chars: Vec<char>,
    at: usize,
    pulled: Rc<Cell<usize>>,
}

impl Iterator for Source {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.chars.get(self.at).copied();
        if c.is_some() {
            self.at += 1;
            self.pulled.set(self.at);
        }
        c
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Next,
    Peek,
    Pos,
    Lit(&'static str),
    /// skip while the character is in the set
    Skip(&'static [char]),
    /// read so many characters from the set
    Take(&'static [char], usize),
    /// strict list
    List(&'static ListSpec),
}

#[derive(Debug)]
pub struct ListSpec {
    name: &'static str,
    sep: char,
    stop: char,
    both: &'static [char],
    first: &'static [char],
    item: Item,
}

/// Item parsers for lists.
#[derive(Debug, Clone, Copy)]
enum Item {
    /// the literal
    Lit(&'static str),
    /// one character of the set
    One(&'static [char]),
    /// a character of the first set, then all following ones from the second
    Run(&'static [char], &'static [char]),
    /// one character of the set, then the error (if that character is the second component)
    Fail(&'static [char], char),
}

type Pos = (usize, usize);

/// The outcome of an operation in a form both sides can produce.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Char(Option<char>),
    Pos(Pos),
    Unit,
    Buf(Vec<char>),
    List(Vec<Result<String, E>>),
    Err(E),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum E {
    Branch(Pos, char, Vec<char>),
    Str(Pos, String, String),
    End(Pos),
}

fn lc(p: LineCol) -> Pos {
    (p.line, p.col)
}

fn err(e: TakeError) -> E {
    match e {
        TakeError::BadBranch(p, c, s) => E::Branch(lc(p), c, s.to_vec()),
        TakeError::BadString(p, g, s) => E::Str(lc(p), g, s.to_string()),
        TakeError::EndOfStream(p) => E::End(lc(p)),
    }
}

fn real_item<P: Parser + ?Sized>(p: &mut P, item: Item) -> Result<String, TakeError> {
    match item {
        Item::Lit(s) => p.consume_str(s).map(|_| s.to_string()),
        Item::One(set) => {
            let mut b = [' '];
            p.take_chars_from(set, &mut b)?;
            Ok(b.iter().collect())
        }
        Item::Run(set, rest) => {
            let mut b = [' '];
            p.take_chars_from(set, &mut b)?;
            let mut s = b[0].to_string();
            p.skip_while(|c| {
                let r = rest.contains(&c);
                if r {
                    s.push(c);
                }
                r
            });
            Ok(s)
        }
        Item::Fail(set, bad) => {
            let mut b = [' '];
            p.take_chars_from(set, &mut b)?;
            if b[0] == bad {
                return Err(TakeError::BadBranch(p.pos(), '?', &['!']));
            }
            Ok(b.iter().collect())
        }
    }
}

const LIST_CAP: usize = 1000;

fn real<P: Parser + ?Sized>(p: &mut P, op: &Op) -> Out {
    match op {
        Op::Next => Out::Char(p.next()),
        Op::Peek => Out::Char(p.peek()),
        Op::Pos => Out::Pos(lc(p.pos())),
        Op::Lit(s) => match p.consume_str(s) {
            Ok(()) => Out::Unit,
            Err(e) => Out::Err(err(e)),
        },
        Op::Skip(set) => {
            p.skip_while(|c| set.contains(&c));
            Out::Unit
        }
        Op::Take(set, n) => {
            let mut b = vec!['\u{fffd}'; *n];
            match p.take_chars_from(set, &mut b) {
                Ok(()) => Out::Buf(b),
                Err(e) => Out::Err(err(e)),
            }
        }
        Op::List(l) => {
            let item = l.item;
            let mut it = p.iter_strict(|p| real_item(p, item), l.sep, l.stop, l.both, l.first);
            let mut out = Vec::new();
            while let Some(r) = it.next() {
                let bad = r.is_err();
                out.push(r.map_err(err));
                if bad || out.len() >= LIST_CAP {
                    break;
                }
            }
            // an exhausted list stays exhausted
            if out.iter().all(|r| r.is_ok()) {
                if let Some(r) = it.next() {
                    out.push(r.map_err(err));
                }
            }
            Out::List(out)
        }
    }
}

/// The reference cursor.
pub struct Model<'a> {
    src: &'a [char],
    k: usize,
    /// position after consuming each prefix
    poss: &'a [Pos],
}

impl Model<'_> {
    fn peek(&self) -> Option<char> {
        self.src.get(self.k).copied()
    }
    fn pos(&self) -> Pos {
        self.poss[self.k]
    }
    fn take(&mut self, set: &[char]) -> Result<char, E> {
        match self.peek() {
            None => Err(E::End(self.pos())),
            Some(c) if set.contains(&c) => {
                self.k += 1;
                Ok(c)
            }
            Some(c) => Err(E::Branch(self.pos(), c, set.to_vec())),
        }
    }
    fn lit(&mut self, s: &str) -> Result<(), E> {
        let want: Vec<char> = s.chars().collect();
        let rest = &self.src[self.k..];
        let common = want.iter().zip(rest).take_while(|(a, b)| a == b).count();
        self.k += common;
        if common == want.len() {
            Ok(())
        } else {
            match self.peek() {
                None => Err(E::End(self.pos())),
                Some(c) => {
                    let mut got: String = want[..common].iter().collect();
                    got.push(c);
                    Err(E::Str(self.pos(), got, s.to_string()))
                }
            }
        }
    }
    fn item(&mut self, item: Item) -> Result<String, E> {
        match item {
            Item::Lit(s) => self.lit(s).map(|_| s.to_string()),
            Item::One(set) => self.take(set).map(|c| c.to_string()),
            Item::Run(set, rest) => {
                let mut s = self.take(set)?.to_string();
                while let Some(c) = self.peek().filter(|c| rest.contains(c)) {
                    self.k += 1;
                    s.push(c);
                }
                Ok(s)
            }
            Item::Fail(set, bad) => {
                let c = self.take(set)?;
                if c == bad {
                    return Err(E::Branch(self.pos(), '?', vec!['!']));
                }
                Ok(c.to_string())
            }
        }
    }
    fn step(&mut self, op: &Op) -> Out {
        match op {
            Op::Next => {
                let c = self.peek();
                if c.is_some() {
                    self.k += 1;
                }
                Out::Char(c)
            }
            Op::Peek => Out::Char(self.peek()),
            Op::Pos => Out::Pos(self.pos()),
            Op::Lit(s) => self.lit(s).map_or_else(Out::Err, |_| Out::Unit),
            Op::Skip(set) => {
                while self.peek().map_or(false, |c| set.contains(&c)) {
                    self.k += 1;
                }
                Out::Unit
            }
            Op::Take(set, n) => {
                let mut b = Vec::new();
                for _ in 0..*n {
                    match self.take(set) {
                        Ok(c) => b.push(c),
                        Err(e) => return Out::Err(e),
                    }
                }
                Out::Buf(b)
            }
            Op::List(l) => {
                let mut out = Vec::new();
                loop {
                    // at the start, or after a separator that is followed by an item
                    match self.peek() {
                        None => break,
                        Some(c) if c == l.stop => break,
                        _ => {}
                    }
                    let x = match self.item(l.item) {
                        Ok(x) => x,
                        Err(e) => {
                            out.push(Err(e));
                            break;
                        }
                    };
                    let next = match self.peek() {
                        None => Err(E::End(self.pos())),
                        Some(c) if c == l.sep => {
                            self.k += 1;
                            match self.peek() {
                                None => Err(E::End(self.pos())),
                                Some(c) if l.first.contains(&c) => Ok(()),
                                Some(c) => Err(E::Branch(self.pos(), c, l.first.to_vec())),
                            }
                        }
                        Some(c) if c == l.stop => Ok(()),
                        Some(c) => Err(E::Branch(self.pos(), c, l.both.to_vec())),
                    };
                    match next {
                        Ok(()) => out.push(Ok(x)),
                        Err(e) => {
                            out.push(Err(e));
                            break;
                        }
                    }
                    if out.len() >= LIST_CAP {
                        break;
                    }
                }
                Out::List(out)
            }
        }
    }
}

/// What to compare after every operation.
#[derive(Clone, Copy)]
struct Cmp {
    pos: bool,
    /// against the reference (otherwise: against the cursor's own position after
    /// consuming the same characters one by one, so that only C17 judges positions as such)
    true_pos: bool,
    pulled: bool,
    /// use the cursor through a trait object over an unsized source
    dynamic: bool,
}

fn run_one(ctx: &Ctx, src: &[char], poss: &[Pos], ops: &[Op], cmp: Cmp) {
    let pulled = Rc::new(Cell::new(0));
    let source = Source { chars: src.to_vec(), at: 0, pulled: pulled.clone() };
    let r = refmodel::report::catch(|| {
        if cmp.dynamic {
            let mut b: Box<IterWrapper<dyn Iterator<Item = char>>> = Box::new(IterWrapper::new(source));
            go(&mut *b, src, poss, ops, cmp, &pulled)
        } else {
            go(&mut IterWrapper::new(source), src, poss, ops, cmp, &pulled)
        }
    });
    let r = match r {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    };
    if let Err(e) = r {
        let text: String = src.iter().collect();
        let cut = |s: String| if s.len() > 600 { format!("{}... ({} bytes)", s.chars().take(150).collect::<String>(), s.len()) } else { s };
        ctx.violation(
            &format!("{:?} {:?}", text, ops),
            format!("source {}, operations {}: {}", cut(format!("{:?}", text)), cut(format!("{:?}", ops)), cut(e.clone())),
            format!("source: {:?}\noperations on IterWrapper::new(source): {:?}\n{}", text, ops, e),
        );
    }
}

fn go<P: Parser + ?Sized>(p: &mut P, src: &[char], poss: &[Pos], ops: &[Op], cmp: Cmp, pulled: &Cell<usize>) -> Result<(), String> {
    let mut m = Model { src, k: 0, poss };
    for (i, op) in ops.iter().enumerate() {
        if cmp.pos && !cmp.true_pos && matches!(op, Op::Next) && m.peek().is_none() {
            // positions after reading past the end are C17's subject
            return Ok(());
        }
        let before = p.pos();
        let got = real(p, op);
        let want = m.step(op);
        if got != want && !(matches!(op, Op::Pos) && !cmp.pos) {
            return Err(format!("operation {} ({:?}) gave {:?} instead of {:?}", i + 1, op, got, want));
        }
        if matches!(op, Op::Peek | Op::Pos) && p.pos() != before {
            return Err(format!("operation {} ({:?}) moved the position from {} to {}", i + 1, op, before, p.pos()));
        }
        if cmp.pos && lc(p.pos()) != m.pos() {
            return Err(format!("position after operation {} ({:?}) is {} instead of {:?}", i + 1, op, p.pos(), m.pos()));
        }
        if cmp.pulled && !(m.k..=m.k + 1).contains(&pulled.get()) {
            return Err(format!("after operation {} ({:?}) {} characters are consumed but {} were pulled from the source", i + 1, op, m.k, pulled.get()));
        }
    }
    // the rest of the stream is still there
    let mut rest = Vec::new();
    while let Some(c) = p.next() {
        rest.push(c);
        if rest.len() > src.len() {
            break;
        }
    }
    if rest != src[m.k..] {
        return Err(format!("then the rest of the stream is {:?} instead of {:?}", rest, &src[m.k..]));
    }
    if cmp.true_pos {
        let end = poss[src.len()];
        for _ in 0..2 {
            if lc(p.pos()) != end {
                return Err(format!("then the position at the end is {} instead of {:?}", p.pos(), end));
            }
            p.peek();
            p.next();
        }
    }
    Ok(())
}

/// All strings of length <= n over `alpha`.
pub fn strings(alpha: &[char], n: usize) -> Vec<Vec<char>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = Vec::new();
        for s in &last {
            for c in alpha {
                let mut t: Vec<char> = s.clone();
                t.push(*c);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// All sequences of exactly `n` operations (shorter ones are their prefixes).
fn sequences(ops: &[Op], n: usize) -> Vec<Vec<Op>> {
    let mut last: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..n {
        last = last
            .iter()
            .flat_map(|s| {
                ops.iter().map(move |o| {
                    let mut t = s.clone();
                    t.push(o.clone());
                    t
                })
            })
            .collect();
    }
    last
}

fn positions(src: &[char], by_reference: bool) -> Vec<Pos> {
    let mut p = IterWrapper::new(src.iter().copied());
    let mut out = Vec::new();
    for k in 0..=src.len() {
        out.push(if by_reference { pos(&src[..k], src.get(k).copied()) } else { lc(p.pos()) });
        if k < src.len() {
            p.next();
        }
    }
    out
}

/// `positions` by reference in one pass, for long sources.
fn long_positions(src: &[char]) -> Vec<Pos> {
    let (mut line, mut col) = (1, 0);
    let mut out = vec![(1, 0)];
    for (k, c) in src.iter().enumerate() {
        let breaks = match c {
            '\r' => src.get(k + 1) != Some(&'\n'),
            '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
            _ => false,
        };
        if breaks {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
        out.push((line, col));
    }
    out
}

/// Sources read to the end, looking ahead before every `ahead`-th character.
fn long(ctx: &'static Ctx, what: &str, srcs: &[Vec<char>], cmp: Cmp) {
    ctx.count(&format!("{}_sources", what), srcs.len() as u64);
    ctx.fact(&format!("{}_longest_source", what), format!("{}", srcs.iter().map(|s| s.len()).max().unwrap_or(0)));
    par(ctx, srcs.len(), 4, |i| {
        let src = &srcs[i];
        ctx.state(2 * (src.len() as u64 + 1));
        ctx.begin(&format!("{}: source of {} characters", what, src.len()));
        let poss = if cmp.true_pos { long_positions(src) } else { positions_by_reading(src) };
        for ahead in [0, 1, 2, 7] {
            let r = refmodel::report::catch(|| {
                let pulled = Rc::new(Cell::new(0));
                let mut p = IterWrapper::new(Source { chars: src.to_vec(), at: 0, pulled: pulled.clone() });
                for k in 0..=src.len() {
                    if cmp.pos && lc(p.pos()) != poss[k] {
                        return Err(format!("after {} characters the position is {} instead of {:?}", k, p.pos(), poss[k]));
                    }
                    if ahead > 0 && k % ahead == 0 {
                        let c = p.peek();
                        if c != src.get(k).copied() {
                            return Err(format!("after {} characters the look-ahead is {:?} instead of {:?}", k, c, src.get(k)));
                        }
                        if cmp.pos && lc(p.pos()) != poss[k] {
                            return Err(format!("after {} characters looking ahead moves the position to {}", k, p.pos()));
                        }
                    }
                    if !(k..=k + 1).contains(&pulled.get()) {
                        return Err(format!("{} characters are consumed but {} were pulled from the source", k, pulled.get()));
                    }
                    if cmp.pos && !cmp.true_pos && k == src.len() {
                        break;
                    }
                    let c = p.next();
                    if c != src.get(k).copied() {
                        return Err(format!("character {} is {:?} instead of {:?}", k, c, src.get(k)));
                    }
                }
                Ok(())
            });
            ctx.transition(src.len() as u64);
            ctx.trace(1);
            let r = r.unwrap_or_else(|p| Err(format!("panic: {}", p)));
            if let Err(e) = r {
                let text: String = src.iter().collect();
                let short = if src.len() > 80 { format!("{:?}... ({} characters)", text.chars().take(40).collect::<String>(), src.len()) } else { format!("{:?}", text) };
                ctx.violation(&format!("{:?} {}", text, ahead), format!("source {}, looking ahead before every {}th character: {}", short, ahead, e), format!("source: {:?}\n{}", text, e));
                return;
            }
        }
        ctx.end();
    });
}

fn positions_by_reading(src: &[char]) -> Vec<Pos> {
    positions(src, false)
}

/// Lines of every length up to a bound and of a few lengths around powers of two, and as many lines.
fn long_sources(t: bool) -> Vec<Vec<char>> {
    let mut lens: Vec<usize> = (0..=if t { 1100 } else { 300 }).collect();
    lens.extend([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537]);
    if t {
        lens.extend([131072, 1 << 20, (1 << 20) + 1]);
    }
    let breaks: [&str; 8] = ["\n", "\r", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{2028}", "\u{2029}"];
    let mut out = Vec::new();
    for n in &lens {
        let few = *n > 300;
        for b in &breaks[..if few { 3 } else { 8 }] {
            // a line of that length, then another one
            out.push(std::iter::repeat('a').take(*n).chain(b.chars()).chain("b\u{e9}".chars()).collect());
            // that many lines
            out.push(b.chars().cycle().take(*n * b.len()).chain("ab".chars()).collect());
        }
        out.push(std::iter::repeat('\u{1f600}').take(*n).collect());
        out.push("a\r\n\rb\n".chars().cycle().take(*n).collect());
    }
    out
}

fn explore(ctx: &'static Ctx, what: &str, srcs: &[Vec<char>], seqs: &[Vec<Op>], cmp: Cmp) {
    ctx.count(&format!("{}_sources", what), srcs.len() as u64);
    ctx.count(&format!("{}_operation_sequences", what), seqs.len() as u64);
    par(ctx, srcs.len(), 8, |i| {
        let src = &srcs[i];
        // model states of this source: consumed count x look-ahead buffered or not
        ctx.state(2 * (src.len() as u64 + 1));
        ctx.begin(&format!("{}: source {:?}", what, src));
        let mut n = 0;
        let poss = positions(src, cmp.true_pos);
        for s in seqs {
            run_one(ctx, src, &poss, s, cmp);
            n += s.len() as u64;
        }
        ctx.end();
        ctx.trace(seqs.len() as u64);
        ctx.transition(n);
    });
    if let (Some(a), Some(b)) = (srcs.last(), seqs.last()) {
        ctx.sample(|| format!("{}: source {:?}, operations {:?}", what, a.iter().collect::<String>(), b));
    }
}

fn leak(v: Vec<char>) -> &'static [char] {
    Box::leak(v.into_boxed_slice())
}
fn leak_str(v: &[char]) -> &'static str {
    Box::leak(v.iter().collect::<String>().into_boxed_str())
}

fn subsets(alpha: &[char]) -> Vec<&'static [char]> {
    (0..1u32 << alpha.len())
        .map(|m| leak(alpha.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, c)| *c).collect()))
        .collect()
}

pub fn run(ctx: &'static Ctx) {
    let t = ctx.thorough;
    let full = Cmp { pos: true, true_pos: ctx.id == "C17", pulled: true, dynamic: false };
    match ctx.id.as_str() {
        "C16" => {
            let cmp = Cmp { pos: false, ..full };
            let alpha = ['a', 'b', '\r', '\n', '\u{e9}', '\u{1f600}'];
            let srcs = strings(&alpha, if t { 6 } else { 5 });
            let ops = [Op::Next, Op::Peek, Op::Pos];
            explore(ctx, "next_peek_pos", &srcs, &sequences(&ops, if t { 8 } else { 7 }), cmp);
            explore(ctx, "next_peek_deep", &strings(&['a', '\r', '\n'], if t { 8 } else { 6 }), &sequences(&[Op::Next, Op::Peek], if t { 13 } else { 10 }), cmp);
            explore(ctx, "unsized_source", &strings(&['a', '\r', '\n'], 4), &sequences(&ops, 6), Cmp { dynamic: true, ..cmp });
            // odd characters
            let odd: Vec<Vec<char>> = strings(&['\0', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{2028}', '\u{85}', '\u{301}'], 3);
            explore(ctx, "odd_characters", &odd, &sequences(&[Op::Next, Op::Peek], 6), cmp);
            long(ctx, "long", &long_sources(t), cmp);
        }
        "C17" => {
            let breaks = ['a', '\n', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '\u{e9}'];
            let others = ['\t', '\0', ' ', '\u{7f}', '\u{84}', '\u{86}', '\u{a0}', '\u{1c}', '\u{1d}', '\u{1e}', '\u{1f}', '\u{2027}', '\u{202a}', '\u{200b}', '\u{1f600}', '\u{301}', '\\', 'n'];
            explore(ctx, "line_breaks", &strings(&breaks, if t { 6 } else { 5 }), &sequences(&[Op::Next, Op::Peek], if t { 8 } else { 7 }), full);
            explore(ctx, "cr_lf_runs", &strings(&['a', '\n', '\r'], if t { 9 } else { 8 }), &sequences(&[Op::Next, Op::Peek], if t { 12 } else { 10 }), full);
            let all: Vec<char> = breaks.iter().chain(&others).copied().collect();
            explore(ctx, "other_characters", &strings(&all, if t { 4 } else { 3 }), &sequences(&[Op::Next, Op::Peek], 5), full);
            // every character of Unicode on its own and between line breaks
            let chars: Vec<char> = (0..=0x10ffffu32).filter_map(char::from_u32).collect();
            let srcs: Vec<Vec<char>> = chars.iter().map(|c| vec!['a', *c, 'b']).collect();
            explore(ctx, "every_character", &srcs, &sequences(&[Op::Next], 4), full);
            let srcs: Vec<Vec<char>> = chars.iter().filter(|c| t || (**c as u32) < 0x3000).map(|c| vec!['\r', *c, '\n']).collect();
            explore(ctx, "every_character_after_cr", &srcs, &sequences(&[Op::Next, Op::Peek], 5), full);
            long(ctx, "long", &long_sources(t), full);
            // together with the bulk operations
            let ops = [
                Op::Next,
                Op::Peek,
                Op::Lit("a\n"),
                Op::Lit("\r\n"),
                Op::Lit("\ra"),
                Op::Skip(&['a', '\r']),
                Op::Skip(&['\n', '\r']),
                Op::Take(&['a', '\r', '\n'], 2),
                Op::Take(&['\r'], 1),
            ];
            explore(ctx, "bulk", &strings(&['a', '\n', '\r'], if t { 8 } else { 6 }), &sequences(&ops, if t { 5 } else { 4 }), full);
        }
        "C18" => {
            let alpha = ['a', 'b', '\u{e9}', '\n', '\r'];
            let lits: Vec<Op> = strings(&alpha, 4).iter().map(|s| Op::Lit(leak_str(s))).collect();
            let srcs = strings(&alpha, if t { 7 } else { 5 });
            let mut seqs = Vec::new();
            for l in &lits {
                seqs.push(vec![l.clone()]);
                seqs.push(vec![Op::Peek, l.clone()]);
                seqs.push(vec![Op::Next, l.clone()]);
                seqs.push(vec![Op::Next, Op::Peek, l.clone(), Op::Peek]);
            }
            explore(ctx, "literals", &srcs, &seqs, full);
            // widths 1 to 4 bytes, characters sharing leading bytes
            let wide = ['a', '\u{e9}', '\u{e8}', '\u{20ac}', '\u{20ad}', '\u{1f600}', '\u{1f601}'];
            let lits: Vec<Op> = strings(&wide, 3).iter().map(|s| Op::Lit(leak_str(s))).collect();
            let seqs: Vec<Vec<Op>> = lits.iter().map(|l| vec![l.clone()]).collect();
            explore(ctx, "multibyte", &strings(&wide, if t { 5 } else { 4 }), &seqs, full);
            // every character against literals of one to four bytes
            let every: Vec<char> = (0..=0x10ffffu32).filter_map(char::from_u32).collect();
            let ls: Vec<Vec<Op>> = ["a", "\u{e9}", "\u{161}", "\u{20ac}", "\u{10061}", "\u{1f600}"].map(|l| vec![Op::Lit(l), Op::Peek]).to_vec();
            explore(ctx, "every_character", &every.iter().map(|c| vec![*c]).collect::<Vec<_>>(), &ls, full);
            let ls: Vec<Vec<Op>> = ["bac", "b\u{161}", "\n\u{10061}a"].map(|l| vec![Op::Lit(l), Op::Next]).to_vec();
            explore(ctx, "every_second_character", &every.iter().flat_map(|c| [vec!['b', *c, 'c'], vec!['\n', *c, 'a']]).collect::<Vec<_>>(), &ls, full);
            // one literal after another (after a failure too)
            let small: Vec<Op> = strings(&['a', '\u{e9}'], 2).iter().map(|s| Op::Lit(leak_str(s))).collect();
            explore(ctx, "successive_literals", &strings(&['a', '\u{e9}', '\n'], if t { 9 } else { 7 }), &sequences(&small, if t { 4 } else { 3 }), full);
            explore(ctx, "unsized_source", &strings(&['a', '\u{e9}'], 4), &sequences(&small, 2), Cmp { dynamic: true, ..full });
            // long literals, equal up to one character
            let long: Vec<char> = "abcdefghijklmnopqrstuvwxyz\u{e9}0123456789".chars().collect();
            let mut srcs = vec![long.clone()];
            for i in 0..long.len() {
                srcs.push(long[..i].to_vec());
                for c in ['Z', '\u{e8}', '\n'] {
                    let mut s = long.clone();
                    s[i] = c;
                    srcs.push(s);
                    let mut s = long.clone();
                    s.insert(i, c);
                    srcs.push(s);
                }
            }
            let l = leak_str(&long);
            // literals of every length up to a bound, the source differing at every place
            let pat: Vec<char> = "ab\u{e9}c\nd\u{20ac}e\r\nf\u{1f600}g".chars().collect();
            let full_text: Vec<char> = pat.iter().copied().cycle().take(300).collect();
            let mut more = Vec::new();
            for i in 0..=full_text.len() {
                more.push(full_text[..i].to_vec());
                for c in ['Z', '\u{e8}', '\n'] {
                    let mut s = full_text.clone();
                    if i < s.len() && s[i] != c {
                        s[i] = c;
                        more.push(s);
                    }
                }
            }
            let ls: Vec<Vec<Op>> = (0..=300usize)
                .into_iter()
                .map(|n: usize| vec![Op::Lit(leak_str(&full_text[..n])), Op::Next])
                .collect();
            explore(ctx, "literals_of_300_characters", &more, &ls, full);
            // the same with characters of one width only
            for (name, alpha) in [("ascii", "abcdefg"), ("one_letter", "a"), ("line_feeds", "\n"), ("two_bytes", "\u{e9}\u{e8}\u{3b1}"), ("four_bytes", "\u{1f600}\u{1f601}\u{10ffff}")] {
                let text: Vec<char> = alpha.chars().cycle().take(140).collect();
                let mut srcs = Vec::new();
                for i in 0..=text.len() {
                    srcs.push(text[..i].to_vec());
                    for c in ['Z', '\u{e8}', '\n'] {
                        let mut s = text.clone();
                        if i < s.len() && s[i] != c {
                            s[i] = c;
                            srcs.push(s);
                        }
                    }
                }
                let ls: Vec<Vec<Op>> = (0..=140usize).map(|n| vec![Op::Lit(leak_str(&text[..n])), Op::Next]).collect();
                explore(ctx, &format!("literals_of_140_characters_{}", name), &srcs, &ls, full);
            }
            let huge: Vec<char> = pat.iter().copied().cycle().take(70000).collect();
            let mut srcs2 = vec![huge.clone()];
            for i in [0, 255, 256, 32768, 65535, 65536, 69999] {
                srcs2.push(huge[..i].to_vec());
                let mut s = huge.clone();
                s[i] = 'Z';
                srcs2.push(s);
            }
            explore(ctx, "literal_of_70000_characters", &srcs2, &[vec![Op::Lit(leak_str(&huge)), Op::Peek]], Cmp { true_pos: false, ..full });
            explore(ctx, "long_literal", &srcs, &[vec![Op::Lit(l)], vec![Op::Lit(l), Op::Lit("Z")], vec![Op::Peek, Op::Lit(l), Op::Next, Op::Lit("0")]], full);
        }
        "C19" => {
            let alpha = ['a', 'b', '\n', '\u{e9}'];
            let sets = subsets(&alpha);
            let mut ops: Vec<Op> = sets.iter().map(|s| Op::Skip(s)).collect();
            for s in &sets {
                for n in 0..=(if t { 6 } else { 4 }) {
                    ops.push(Op::Take(s, n));
                }
            }
            let mut seqs = Vec::new();
            for o in &ops {
                seqs.push(vec![o.clone()]);
                seqs.push(vec![Op::Peek, o.clone()]);
                seqs.push(vec![Op::Next, o.clone(), Op::Peek]);
            }
            explore(ctx, "helpers", &strings(&alpha, if t { 8 } else { 6 }), &seqs, full);
            let few: Vec<Op> = subsets(&['a', '\r']).into_iter().flat_map(|s| [Op::Skip(s), Op::Take(s, 1), Op::Take(s, 2)]).chain([Op::Next, Op::Lit("a\n")]).collect();
            explore(ctx, "helper_sequences", &strings(&['a', '\r', '\n'], if t { 7 } else { 6 }), &sequences(&few, if t { 5 } else { 4 }), full);
            let few: Vec<Op> = subsets(&['a', '\u{e9}']).into_iter().flat_map(|s| [Op::Skip(s), Op::Take(s, 2)]).collect();
            explore(ctx, "unsized_source", &strings(&['a', '\u{e9}', '\n'], 4), &sequences(&few, 2), Cmp { dynamic: true, ..full });
            // sets with repeated and unordered characters
            let sets: [&'static [char]; 4] = [&['b', 'a', 'a'], &['\u{1f600}', 'a', '\u{e9}'], &['z', '\0', 'a'], &['a'; 40]];
            let ops: Vec<Op> = sets.iter().flat_map(|s| [Op::Skip(s), Op::Take(s, 1), Op::Take(s, 3)]).collect();
            explore(ctx, "odd_sets", &strings(&['a', 'b', '\0', '\u{1f600}'], 4), &sequences(&ops, 2), full);
            predicates(ctx);
            // long runs, long buffers, large sets
            let lens: Vec<usize> = if t { (0..=520).collect() } else { (0..=40).chain(60..=70).chain(120..=135).chain(250..=260).chain([300]).collect() };
            let mut srcs = Vec::new();
            for n in &lens {
                for end in ["", "b", "\n", "\u{e9}a"] {
                    srcs.push(std::iter::repeat('a').take(*n).chain(end.chars()).collect::<Vec<char>>());
                }
            }
            let a: &'static [char] = &['a'];
            let an: &'static [char] = &['a', '\n'];
            let mut seqs = vec![vec![Op::Skip(a)], vec![Op::Skip(an), Op::Next], vec![Op::Peek, Op::Skip(a), Op::Peek]];
            for n in &lens {
                seqs.push(vec![Op::Take(a, *n), Op::Next]);
                seqs.push(vec![Op::Peek, Op::Take(an, *n)]);
            }
            explore(ctx, "long_runs", &srcs, &seqs, full);
            let huge: Vec<Vec<char>> = [65535, 65536, 70000].iter().map(|n| std::iter::repeat('a').take(*n).chain(['b']).collect()).collect();
            explore(ctx, "very_long_runs", &huge, &[vec![Op::Skip(a), Op::Next], vec![Op::Take(a, 65535), Op::Peek], vec![Op::Take(a, 65537), Op::Peek], vec![Op::Take(a, 70001), Op::Peek]], full);
            // a set of many characters, in different orders: each of its characters and its neighbours
            let base: Vec<char> = (0..300u32).map(|i| char::from_u32(0x100 + 2 * i).unwrap()).collect();
            let mut sets: Vec<&'static [char]> = Vec::new();
            for n in [2usize, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300] {
                let up = base[..n].to_vec();
                let down: Vec<char> = up.iter().rev().copied().collect();
                let mixed: Vec<char> = (0..n).map(|i| up[if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }]).collect();
                for v in [up, down, mixed] {
                    sets.push(leak(v));
                }
            }
            let srcs: Vec<Vec<char>> = (0x100 - 1..0x100 + 601u32).map(|c| vec![char::from_u32(c).unwrap(), 'x']).collect();
            let seqs: Vec<Vec<Op>> = sets.iter().flat_map(|s| [vec![Op::Skip(s)], vec![Op::Take(s, 1)]]).collect();
            explore(ctx, "large_sets", &srcs, &seqs, full);
        }
        "C20" => {
            static LISTS: [ListSpec; 8] = [
                ListSpec { name: "char", sep: ',', stop: ']', both: &[',', ']'], first: &['a', 'b'], item: Item::One(&['a', 'b']) },
                ListSpec { name: "run", sep: ',', stop: ']', both: &[',', ']'], first: &['a', 'b'], item: Item::Run(&['a', 'b'], &['b']) },
                ListSpec { name: "literal", sep: ',', stop: ']', both: &[']', ','], first: &['a'], item: Item::Lit("ab") },
                ListSpec { name: "failing", sep: ',', stop: ']', both: &[',', ']'], first: &['a', 'b'], item: Item::Fail(&['a', 'b'], 'b') },
                ListSpec { name: "other separators", sep: 'b', stop: ',', both: &['b', ','], first: &['a'], item: Item::One(&['a']) },
                ListSpec { name: "wide first", sep: ',', stop: ']', both: &[',', ']'], first: &['a', 'b', ','], item: Item::One(&['a']) },
                ListSpec { name: "item takes separators", sep: ',', stop: ']', both: &[',', ']'], first: &['a'], item: Item::Run(&['a'], &['b', ',']) },
                ListSpec { name: "line break separator", sep: '\n', stop: ']', both: &['\n', ']'], first: &['a', 'b'], item: Item::One(&['a', 'b']) },
            ];
            let alpha = ['a', 'b', ',', ']', '\n'];
            let srcs = strings(&alpha, if t { 10 } else { 8 });
            let mut seqs = Vec::new();
            for l in &LISTS {
                ctx.fact(&format!("list {}", l.name), format!("sep {:?} stop {:?} first {:?} item {:?}", l.sep, l.stop, l.first, l.item));
                seqs.push(vec![Op::List(l)]);
                seqs.push(vec![Op::Peek, Op::List(l), Op::Peek]);
                seqs.push(vec![Op::Next, Op::List(l), Op::Next]);
                seqs.push(vec![Op::List(l), Op::List(l)]);
            }
            explore(ctx, "lists", &srcs, &seqs, full);
            explore(ctx, "unsized_source", &strings(&alpha, 5), &LISTS.iter().map(|l| vec![Op::List(l)]).collect::<Vec<_>>(), Cmp { dynamic: true, ..full });
            // long lists, broken at every place
            let lens: Vec<usize> = if t { (1..=300).collect() } else { (1..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).collect() };
            let mut srcs = Vec::new();
            for n in &lens {
                let mut l: Vec<char> = "a,".chars().cycle().take(2 * n - 1).collect();
                l.push(']');
                l.push('a');
                srcs.push(l.clone());
                for k in (0..2 * n).filter(|k| t || *n < 21 || *k < 8 || 2 * n - k < 8 || k.count_ones() < 3) {
                    srcs.push(l[..k].to_vec());
                    for c in ['a', 'b', ',', ']', '\n'] {
                        if l[k] != c {
                            let mut m = l.clone();
                            m[k] = c;
                            srcs.push(m);
                        }
                    }
                }
            }
            explore(ctx, "long_lists", &srcs, &LISTS.iter().map(|l| vec![Op::List(l), Op::Next]).collect::<Vec<_>>(), full);
            // items that may start with many characters, given in different orders
            let base: Vec<char> = (0..300u32).map(|i| char::from_u32(0x100 + 2 * i).unwrap()).collect();
            let list = |name, sep, stop, first: &'static [char]| -> &'static ListSpec {
                Box::leak(Box::new(ListSpec { name, sep, stop, both: leak(vec![sep, stop]), first, item: Item::One(first) }))
            };
            let mut seqs = Vec::new();
            for n in [2usize, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300] {
                let up = base[..n].to_vec();
                let down: Vec<char> = up.iter().rev().copied().collect();
                let mixed: Vec<char> = (0..n).map(|i| up[if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }]).collect();
                for v in [up, down, mixed] {
                    seqs.push(vec![Op::List(list("large first", ',', ']', leak(v))), Op::Peek]);
                }
            }
            let mut srcs = Vec::new();
            for c in (0x100 - 1..0x100 + 601u32).filter_map(char::from_u32) {
                srcs.push(vec![base[0], ',', c, ']']);
                srcs.push(vec![c, ',', base[0], ',', c, ',']);
            }
            explore(ctx, "large_first_sets", &srcs, &seqs, full);
            // any two characters as separator and stop
            let odd = [',', ']', '\0', ' ', '\r', '\n', '"', '\u{e9}', '\u{2028}', '\u{d7ff}', '\u{1f600}', '\u{10ffff}'];
            for sep in odd {
                for stop in odd.into_iter().filter(|c| *c != sep) {
                    let other = odd.into_iter().find(|c| *c != sep && *c != stop).unwrap();
                    let l = list("odd characters", sep, stop, &['a', '\u{301}']);
                    explore(ctx, "odd_separators", &strings(&['a', '\u{301}', sep, stop, other], if t { 6 } else { 4 }), &[vec![Op::List(l), Op::Peek]], full);
                }
            }
            // a list inside a list: the separators of the inner one do not end the outer one
            nested(ctx);
        }
        _ => unreachable!(),
    }
}

/// Predicates that are not sets: stateful ones see each character once, in order.
fn predicates(ctx: &'static Ctx) {
    let srcs = strings(&['a', 'b', '\n'], 6);
    for src in &srcs {
        for k in 0..=7usize {
            // true for the first k calls
            let want = k.min(src.len());
            let r = refmodel::report::catch(|| {
                let mut p = IterWrapper::new(src.iter().copied());
                let mut seen = Vec::new();
                let mut left = k;
                p.skip_while(|c| {
                    seen.push(c);
                    let r = left > 0;
                    left = left.saturating_sub(1);
                    r
                });
                let here = lc(p.pos());
                let mut rest = Vec::new();
                while let Some(c) = p.next() {
                    rest.push(c);
                }
                (here, rest)
            });
            ctx.trace(1);
            ctx.transition(1);
            let exp = (positions(src, false)[want], src[want..].to_vec());
            if r != Ok(exp.clone()) {
                ctx.violation(
                    &format!("stateful {:?} {}", src, k),
                    format!("skip_while with a condition that holds {} times on {:?}: (position, rest) is {:?} instead of {:?}", k, src, r, exp),
                    format!("{:?} {}", src, k),
                );
            }
        }
    }
}

/// `[ [a,b] , [] ]` style nesting: items of the outer list are read by an inner list.
fn nested(ctx: &'static Ctx) {
    fn inner<P: Parser + ?Sized>(p: &mut P) -> Result<Vec<String>, TakeError> {
        p.consume_str("[")?;
        let mut out = Vec::new();
        for r in p.iter_strict(|p| real_item(p, Item::One(&['a'])), ',', ']', &[',', ']'], &['a']) {
            out.push(r?);
        }
        p.consume_str("]")?;
        Ok(out)
    }
    fn want_inner(m: &mut Model) -> Result<Vec<String>, E> {
        m.lit("[")?;
        let mut out = Vec::new();
        if m.peek() == Some('a') {
            loop {
                out.push(m.take(&['a'])?.to_string());
                match m.peek() {
                    Some(',') => {
                        m.k += 1;
                        match m.peek() {
                            Some('a') => {}
                            Some(c) => return Err(E::Branch(m.pos(), c, vec!['a'])),
                            None => return Err(E::End(m.pos())),
                        }
                    }
                    Some(']') => break,
                    Some(c) => return Err(E::Branch(m.pos(), c, vec![',', ']'])),
                    None => return Err(E::End(m.pos())),
                }
            }
        } else if m.peek().is_some() && m.peek() != Some(']') {
            // not a list item: the item parser's own error
            m.take(&['a'])?;
        }
        m.lit("]")?;
        Ok(out)
    }
    let srcs = strings(&['[', 'a', ',', ']', ';'], 7);
    par(ctx, srcs.len(), 64, |i| {
        let src = &srcs[i];
        let got = refmodel::report::catch(|| {
            let mut p = IterWrapper::new(src.iter().copied());
            let mut out: Vec<Result<Vec<String>, E>> = Vec::new();
            for r in p.iter_strict(inner, ',', ';', &[',', ';'], &['[']) {
                let bad = r.is_err();
                out.push(r.map_err(err));
                if bad {
                    break;
                }
            }
            (out, lc(p.pos()))
        });
        let poss = positions(src, false);
        let mut m = Model { src, k: 0, poss: &poss };
        let mut out: Vec<Result<Vec<String>, E>> = Vec::new();
        while m.peek().is_some() && m.peek() != Some(';') {
            let x = want_inner(&mut m).and_then(|x| match m.peek() {
                None => Err(E::End(m.pos())),
                Some(';') => Ok(x),
                Some(',') => {
                    m.k += 1;
                    match m.peek() {
                        None => Err(E::End(m.pos())),
                        Some('[') => Ok(x),
                        Some(c) => Err(E::Branch(m.pos(), c, vec!['['])),
                    }
                }
                Some(c) => Err(E::Branch(m.pos(), c, vec![',', ';'])),
            });
            let bad = x.is_err();
            out.push(x);
            if bad {
                break;
            }
        }
        ctx.trace(1);
        ctx.transition(1);
        let want = (out, m.pos());
        if got.as_ref() != Ok(&want) {
            let text: String = src.iter().collect();
            ctx.violation(&format!("nested {:?}", text), format!("nested lists on {:?}: {:?} instead of {:?}", text, got, want), text.clone());
        }
    });
}
