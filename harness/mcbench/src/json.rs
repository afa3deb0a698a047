//! C22: JSON.
use chewed::{IterWrapper, Parser};
use chomp_bench::json::{lalr, nibble, Value};
use refmodel::report::{par, Ctx};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, PartialEq, Debug)]
enum V {
    Null,
    Bool(bool),
    /// the bits
    Num(u64),
    Str(String),
    Arr(Vec<V>),
    Obj(BTreeMap<String, V>),
}

fn plain(v: &Value) -> V {
    match v {
        Value::Null => V::Null,
        Value::Bool(b) => V::Bool(*b),
        Value::Number(n) => V::Num(n.to_bits()),
        Value::String(s) => V::Str(s.clone()),
        Value::Array(a) => V::Arr(a.iter().map(plain).collect()),
        Value::Object(o) => V::Obj(o.iter().map(|(k, v)| (k.clone(), plain(v))).collect()),
    }
}

fn fancy(v: &V) -> Value {
    match v {
        V::Null => Value::Null,
        V::Bool(b) => Value::Bool(*b),
        V::Num(n) => Value::Number(f64::from_bits(*n)),
        V::Str(s) => Value::String(s.clone()),
        V::Arr(a) => Value::Array(a.iter().map(fancy).collect()),
        V::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), fancy(v))).collect::<HashMap<_, _>>()),
    }
}

/// A reader that follows RFC 8259.
struct R<'a> {
    s: &'a [u8],
    i: usize,
    /// a surrogate without its other half: a document without a value
    lone: bool,
}

impl R<'_> {
    fn ws(&mut self) {
        while matches!(self.s.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        let y = self.s[self.i..].starts_with(t.as_bytes());
        if y {
            self.i += t.len();
        }
        y
    }
    fn digits(&mut self) -> Option<()> {
        let a = self.i;
        while self.s.get(self.i).is_some_and(u8::is_ascii_digit) {
            self.i += 1;
        }
        (self.i > a).then_some(())
    }
    fn hex4(&mut self) -> Option<u32> {
        let h = self.s.get(self.i..self.i + 4)?;
        if !h.iter().all(u8::is_ascii_hexdigit) {
            return None;
        }
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).ok()
    }
    fn string(&mut self) -> Option<String> {
        if !self.eat("\"") {
            return None;
        }
        let mut units: Vec<u16> = Vec::new();
        loop {
            let c = *self.s.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = *self.s.get(self.i)?;
                    self.i += 1;
                    units.push(match e {
                        b'"' | b'\\' | b'/' => e as u16,
                        b'b' => 8,
                        b'f' => 12,
                        b'n' => 10,
                        b'r' => 13,
                        b't' => 9,
                        b'u' => self.hex4()? as u16,
                        _ => return None,
                    })
                }
                0x20..=0x7f => units.push(c as u16),
                _ => return None,
            }
        }
        Some(String::from_utf16(&units).unwrap_or_else(|_| {
            self.lone = true;
            String::new()
        }))
    }
    fn value(&mut self) -> Option<V> {
        self.ws();
        let v = if self.eat("null") {
            V::Null
        } else if self.eat("true") {
            V::Bool(true)
        } else if self.eat("false") {
            V::Bool(false)
        } else if self.s.get(self.i) == Some(&b'"') {
            V::Str(self.string()?)
        } else if self.eat("[") {
            let mut a = Vec::new();
            self.ws();
            if !self.eat("]") {
                loop {
                    a.push(self.value()?);
                    if self.eat("]") {
                        break;
                    }
                    if !self.eat(",") {
                        return None;
                    }
                }
            }
            V::Arr(a)
        } else if self.eat("{") {
            let mut o = BTreeMap::new();
            self.ws();
            if !self.eat("}") {
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    if !self.eat(":") {
                        return None;
                    }
                    let v = self.value()?;
                    o.insert(k, v);
                    if self.eat("}") {
                        break;
                    }
                    if !self.eat(",") {
                        return None;
                    }
                }
            }
            V::Obj(o)
        } else {
            let a = self.i;
            self.eat("-");
            if !self.eat("0") {
                self.digits()?;
            }
            if self.eat(".") {
                self.digits()?;
            }
            if self.eat("e") || self.eat("E") {
                let _ = self.eat("+") || self.eat("-");
                self.digits()?;
            }
            V::Num(std::str::from_utf8(&self.s[a..self.i]).unwrap().parse::<f64>().unwrap().to_bits())
        };
        self.ws();
        Some(v)
    }
}

enum Want {
    Reject,
    Lone,
    Value(V),
}

fn want(s: &str) -> Want {
    let mut r = R { s: s.as_bytes(), i: 0, lone: false };
    match r.value() {
        Some(_) if r.i == r.s.len() && r.lone => Want::Lone,
        Some(v) if r.i == r.s.len() => Want::Value(v),
        _ => Want::Reject,
    }
}

thread_local! {
    static LALR: lalr::ValueParser = lalr::ValueParser::new();
}

type Got = Result<Option<V>, String>;

fn generated(ctx: &Ctx, s: &str) -> Got {
    ctx.guarded(s, || IterWrapper::new(s.chars()).parse::<nibble::Ast>().ok().map(|a| plain(&a.into())))
}
fn written(ctx: &Ctx, s: &str) -> Got {
    ctx.guarded(s, || IterWrapper::new(s.chars()).parse::<Value>().ok().map(|v| plain(&v)))
}
fn lalr(ctx: &Ctx, s: &str) -> Got {
    ctx.guarded(s, || LALR.with(|l| l.parse(s).ok().map(|v| plain(&v))))
}

fn one(ctx: &Ctx, s: &str) {
    ctx.state(1);
    match want(s) {
        // printable characters and blanks only
        Want::Value(_) if s.contains('\x7f') => ctx.count("documents_with_DEL_skipped", 1),
        Want::Lone => ctx.count("documents_with_lone_surrogates_skipped", 1),
        Want::Reject => {
            ctx.trace(1);
            ctx.transition(1);
            let r = ctx.guarded(s, || IterWrapper::new(s.chars()).parse::<nibble::Ast>().is_ok());
            if r != Ok(false) {
                ctx.violation(s, format!("{:?} is not a JSON document, but the generated parser gives {:?}", s, r), s);
            }
        }
        Want::Value(w) => {
            ctx.count("documents", 1);
            for (who, f) in [("generated", generated as fn(&Ctx, &str) -> Got), ("hand-written", written), ("LALR", lalr)] {
                ctx.trace(1);
                ctx.transition(1);
                let r = f(ctx, s);
                if r.as_ref().ok() != Some(&Some(w.clone())) {
                    ctx.violation(s, format!("{:?}: the {} parser gives {:?} instead of {:?}", s, who, r, w), s);
                    return;
                }
            }
        }
    }
}

/// Displayed and read back.
fn show(ctx: &Ctx, v: &V) {
    ctx.state(1);
    let key = format!("{:?}", v);
    let s = match ctx.guarded(&key, || fancy(v).to_string()) {
        Ok(s) => s,
        Err(p) => {
            ctx.violation(&key, format!("displaying {:?} panics: {}", v, p), &key);
            return;
        }
    };
    let printable = s.chars().all(|c| c.is_ascii_graphic() || c == ' ');
    for (who, f) in [("generated", generated as fn(&Ctx, &str) -> Got), ("hand-written", written), ("LALR", lalr)] {
        if who == "generated" && !printable {
            continue;
        }
        ctx.trace(1);
        ctx.transition(1);
        let r = f(ctx, &s);
        if r.as_ref().ok() != Some(&Some(v.clone())) {
            ctx.violation(&key, format!("{:?} is displayed as {:?}, which the {} parser reads as {:?}", v, s, who, r), &s);
            return;
        }
    }
    if s.is_ascii() && !matches!(want(&s), Want::Value(w) if w == *v) {
        ctx.violation(&key, format!("{:?} is displayed as {:?}, which is not its document", v, s), &s);
    }
}

fn exhaust(ctx: &'static Ctx, name: &str, pre: &'static str, al: &[&str], post: &'static str, n: usize) {
    let a = al.len();
    let total: usize = (0..=n).map(|k| a.pow(k as u32)).sum();
    ctx.count(&format!("texts_{}", name), total as u64);
    par(ctx, total, 1024, |mut i| {
        let mut len = 0;
        while i >= a.pow(len) {
            i -= a.pow(len);
            len += 1;
        }
        let mut s = pre.to_string();
        for _ in 0..len {
            s.push_str(al[i % a]);
            i /= a;
        }
        s.push_str(post);
        one(ctx, &s);
    });
}

/// All values up to a size.
fn values(n: usize, atoms: &[V], keys: &[&str]) -> Vec<V> {
    // lists of values of total size n
    let mut vals: Vec<Vec<V>> = vec![vec![]];
    let mut lists: Vec<Vec<Vec<V>>> = vec![vec![vec![]]];
    for k in 1..=n {
        let mut vs: Vec<V> = if k == 1 { atoms.to_vec() } else { vec![] };
        for l in &lists[k - 1] {
            vs.push(V::Arr(l.clone()));
            if l.len() <= keys.len() {
                vs.push(V::Obj(keys.iter().map(|k| k.to_string()).zip(l.iter().cloned()).collect()));
            }
        }
        vals.push(vs);
        let mut ls = Vec::new();
        for i in 1..=k {
            for v in &vals[i] {
                for l in &lists[k - i] {
                    let mut x = vec![v.clone()];
                    x.extend(l.iter().cloned());
                    ls.push(x);
                }
            }
        }
        lists.push(ls);
    }
    vals.concat()
}

pub fn run(ctx: &'static Ctx) {
    let t = ctx.thorough;
    let d = |a, b| if t { b } else { a };
    // structure
    exhaust(ctx, "structure", "", &["[", "]", "{", "}", ",", ":", "\"k\"", "1", " ", "null"], "", d(7, 8));
    exhaust(ctx, "in_array", "[", &["[", "]", ",", "1", "\n", "true"], "]", d(9, 10));
    exhaust(ctx, "in_object", "{", &["\"a\"", ":", ",", "2", " ", "\"b\"", "}"], "}", d(8, 9));
    exhaust(ctx, "in_object_in_array", "[ {", &["\"a\" ", ": ", ", ", "-0.5", "\t", "\"a\"", "{", "}"], "} ]", d(7, 8));
    exhaust(ctx, "nesting", "", &["[", "]", "{", "}", "\"\":", ",", "false"], "", d(8, 9));
    exhaust(ctx, "blanks", "", &[" ", "\t", "\n", "\r", "[", "]", "{", "}"], "", d(7, 8));
    // numbers
    exhaust(ctx, "numbers", "", &["0", "1", "9", "-", "+", ".", "e", "E"], "", d(8, 9));
    exhaust(ctx, "numbers_in_array", "[1,", &["0", "12", "-", "+", ".", "e", "E3"], ",2]", d(7, 8));
    // words
    exhaust(ctx, "words", "", &["n", "u", "l", "t", "r", "e", "f", "a", "s"], "", d(6, 7));
    exhaust(ctx, "words_joined", "[", &["null", "true", "false", "nul", "tru", "fals", ",", " "], "]", d(6, 7));
    // strings
    let all: Vec<String> = (0..128u8).map(|c| (c as char).to_string()).collect();
    let all: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
    exhaust(ctx, "every_ascii_character", "", &all, "", 3);
    exhaust(ctx, "every_ascii_character_in_a_string", "\"", &all, "\"", 3);
    exhaust(ctx, "every_ascii_character_escaped", "\"\\", &all, "\"", 2);
    exhaust(ctx, "every_ascii_character_in_a_key", "{\"", &all, "\":1}", 2);
    exhaust(ctx, "every_ascii_character_in_an_array", "[", &all, "]", 3);
    exhaust(ctx, "escapes", "\"", &["\\", "u", "0", "1", "f", "A", "\"", "n"], "\"", d(7, 8));
    exhaust(ctx, "unicode_escape_digits", "\"\\u", &["0", "1", "7", "8", "9", "a", "c", "D", "F", "g"], "\"", d(6, 7));
    exhaust(
        ctx,
        "surrogates",
        "\"",
        &["\\uD800", "\\uDBFF", "\\uDC00", "\\uDFFF", "\\ud83d", "\\ude00", "\\uD7FF", "\\uE000", "x", "\\n", "\\uFFFF", "\\u0000"],
        "\"",
        d(5, 6),
    );
    let cases: Vec<String> = (0..0x10000u32).map(|c| format!("[\"\\u{:04x}\",\"\\u{:04X}\"]", c, c)).collect();
    ctx.count("every_unicode_escape", cases.len() as u64);
    par(ctx, cases.len(), 256, |i| one(ctx, &cases[i]));
    // every character outside the basic plane, as a pair
    let step = if t { 1 } else { 4 };
    let n = 0x100000 / step;
    ctx.count("surrogate_pairs", n as u64);
    par(ctx, n, 1024, |i| {
        let c = (i * step + i % step) as u32;
        one(ctx, &format!("\"\\u{:04x}\\u{:04x}\"", 0xd800 + c / 0x400, 0xdc00 + c % 0x400));
    });
    // long and deep
    let mut v: Vec<String> = Vec::new();
    for n in 1..120 {
        v.push(format!("{}{}", "[".repeat(n), "]".repeat(n)));
        v.push(format!("{}{}", "[".repeat(n), "]".repeat(n - 1)));
        v.push(format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)));
        v.push(format!("[{}]", vec!["1"; n].join(",")));
        v.push(format!("[{}]", vec!["\"\""; n].join(" ,\n")));
        v.push(format!("{{{}}}", (0..n).map(|i| format!("\"k{}\" : {}", i, i)).collect::<Vec<_>>().join(", ")));
        v.push(format!("\"{}\"", "\\\"x".repeat(n)));
        v.push("9".repeat(n));
        v.push(format!("0.{}1", "0".repeat(n)));
        v.push(format!("1e{}", n));
        v.push(format!("1e-{}", n * 3));
        v.push(format!("{}null{}", " \n\t\r".repeat(n), " ".repeat(n)));
    }
    // one element of another kind, or one thing wrong, at some place of something long
    let mut sizes = vec![3usize, 4, 5, 8, 9, 16, 17, 31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300];
    if t {
        sizes.extend([500, 511, 512, 513, 1000, 1023, 1024, 1025]);
    }
    for &n in &sizes {
        let places: Vec<usize> = (0..n).filter(|i| *i < 2 || *i + 2 >= n || *i == n / 2 || [8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256].contains(i)).collect();
        for &i in &places {
            for e in ["null", "true", "-0.5e-3", "\"\\ud83d\\ude00\"", "{\"x\":[1, {}]}", "[]", "[[2],\n3 ]", "", "01", "tru", "2 2", "\"", "]", "[", "1]", ",", "1,", "\u{b}1"] {
                v.push(format!("[{}]", (0..n).map(|k| if k == i { e.to_string() } else { k.to_string() }).collect::<Vec<_>>().join(", ")));
                v.push(format!("{{{}}}", (0..n).map(|k| if k == i { format!("\"k{}\":{}", k, e) } else { format!("\"k{}\":\"{}\"", k, k) }).collect::<Vec<_>>().join(",")));
            }
            for m in ["\"k0\":7", "\"k7\" : {}", "k:1", "\"\":1", "\"a\":", "\"a\" 1", ":1", "\"k1\":1:1", "\"k\\u0031\":9", ""] {
                v.push(format!("{{{}}}", (0..n).map(|k| if k == i { m.to_string() } else { format!("\"k{}\": {}", k, k) }).collect::<Vec<_>>().join(" ,")));
            }
            for p in ["\\n", "\\\"", "\\\\", "\\u00e9", "\\uD800\\uDC00", "\\udbff\\uDFFF", "\\u12", "\\x", "\"", "\n", "\\/", "\\u0000", "\\ud83d\\ude00\\n\\ud83d\\ude00"] {
                v.push(format!("\"{}{}{}\"", "s".repeat(i), p, "t".repeat(n - 1 - i)));
                v.push(format!("{{\"{}{}{}\":\"{}\"}}", "s".repeat(i), p, "t".repeat(n - 1 - i), "v".repeat(n)));
            }
            for c in ["0", "9", ".", "e", "-", "e-", " "] {
                v.push(format!("{}{}{}", "1".repeat(i), c, "2".repeat(n - 1 - i)));
                v.push(format!("0.{}{}{}", "0".repeat(i), c, "2".repeat(n - 1 - i)));
            }
            // brackets of the two kinds; the wrong one somewhere
            if n <= 129 {
                let open: String = (0..n).map(|k| if k == i { "{\"o\":" } else { "[" }).collect();
                for j in [i, n - 1 - i] {
                    let close: String = (0..n).rev().map(|k| if k == j { "}" } else { "]" }).collect();
                    v.push(format!("{}0{}", open, close));
                }
            }
        }
    }
    // one change away from larger documents
    for s in [
        "{\"a\" : [1, -2.5e+3, \"x\\n\\u00Ff\"], \"b\":{ } , \"\" : null}",
        "[true,false , [[],{\"k\":[{}]}],\"\\uD83D\\uDE00\" ]\n",
        " {\"k\":{\"k\":{\"l\":0.10,\"k\":-0E0}}} ",
        "[1e5,10E-2 ,0,-1,2.0]",
    ] {
        let c: Vec<char> = s.chars().collect();
        for i in 0..=c.len() {
            for x in (0u8..128).map(|b| b as char) {
                let mut e = c.clone();
                e.insert(i, x);
                v.push(e.iter().collect());
                if i < c.len() {
                    let mut e = c.clone();
                    e[i] = x;
                    v.push(e.iter().collect());
                }
            }
            for k in 1..=3 {
                if i + k <= c.len() {
                    let mut e = c.clone();
                    e.drain(i..i + k);
                    v.push(e.iter().collect());
                    let mut e = c.clone();
                    let d: Vec<char> = c[i..i + k].to_vec();
                    e.splice(i..i, d);
                    v.push(e.iter().collect());
                }
            }
            v.push(c[..i].iter().collect());
        }
    }
    ctx.count("long_texts", v.len() as u64);
    par(ctx, v.len(), 16, |i| one(ctx, &v[i]));

    // values
    let num = |x: f64| V::Num(x.to_bits());
    let atoms = [V::Null, V::Bool(true), num(-1.5), V::Str("k\"".into())];
    let vs = values(d(6, 7), &atoms, &["", "b", "\\"]);
    ctx.count("values", vs.len() as u64);
    ctx.sample(|| fancy(&vs[vs.len() / 2]).to_string());
    par(ctx, vs.len(), 64, |i| show(ctx, &vs[i]));
    let mut vs: Vec<V> = Vec::new();
    // one character strings: everything up to U+07FF, then the edges of every longer encoding
    for c in (0..0x800u32).chain([0xfff, 0x1000, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x103ff, 0x10400, 0x1f600, 0xfffff, 0x100000, 0x10ffff]) {
        let s = char::from_u32(c).unwrap().to_string();
        vs.push(V::Str(s.clone()));
        vs.push(V::Obj([(s.clone(), V::Str(format!("a{}b", s)))].into_iter().collect()));
    }
    let special = ['\0', '\x01', '\x08', '\t', '\n', '\x0b', '\x0c', '\r', '\x1f', ' ', '"', '/', '\\', 'u', '0', '\x7f', '\u{e9}', '\u{1f600}'];
    for a in special {
        for b in special {
            for c in special {
                vs.push(V::Str([a, b, c].iter().collect()));
            }
        }
    }
    // numbers: every exponent with a few mantissas
    for e in 0..0x7ffu64 {
        for m in [0u64, 1, 2, 0x5555555555555, 0x8000000000000, 0xfffffffffffff, 0x1999999999999, 0xf000000000001] {
            vs.push(V::Num(e << 52 | m));
            vs.push(V::Num(1 << 63 | e << 52 | m));
        }
    }
    for k in 0..2000i32 {
        vs.push(num(k as f64 / 10.0));
        vs.push(num(-k as f64 / 1000.0));
        vs.push(num(k as f64 * 1e15));
    }
    // long and deep values
    for n in (1..70).chain([99, 100, 127, 128, 129, 255, 256, 257, 300]) {
        vs.push(V::Arr((0..n).map(|i| num(i as f64)).collect()));
        vs.push(V::Arr((0..n).map(|i| if i % 2 == 0 { V::Arr(vec![]) } else { V::Obj(Default::default()) }).collect()));
        vs.push(V::Obj((0..n).map(|i| (format!("k{}\n", i), V::Str(format!("{}\"", i)))).collect()));
        for c in ['s', '"', '\u{1}', '\u{e9}', '\u{1f600}'] {
            vs.push(V::Str(c.to_string().repeat(n)));
            vs.push(V::Str(format!("{}{}{}", "a".repeat(n), c, "b".repeat(n))));
            vs.push(V::Obj([(c.to_string().repeat(n), V::Null)].into_iter().collect()));
        }
        let mut x = V::Null;
        for i in 0..n.min(100) {
            x = match i % 3 {
                0 => V::Arr(vec![x]),
                1 => V::Obj([("o".to_string(), x)].into_iter().collect()),
                _ => V::Arr(vec![num(0.5), x, V::Bool(false)]),
            };
        }
        vs.push(x);
    }
    ctx.count("strings_and_numbers", vs.len() as u64);
    par(ctx, vs.len(), 64, |i| show(ctx, &vs[i]));
    ctx.sample(|| "[ {\"a\" : -0.5}, \"\\ud83d\\ude00\" ]".to_string());
}
