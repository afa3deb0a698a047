//! C23: arithmetic.
use chewed::{IterWrapper, Parser};
use chomp_bench::arith::*;
use refmodel::report::{par, Ctx};

/// What the text means.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want {
    Reject,
    Value(i64),
    /// an expression with overflow or division by zero somewhere
    Undefined,
    /// no expression, with overflow or division by zero before that shows
    RejectUndefined,
}

struct R<'a> {
    s: &'a [u8],
    i: usize,
    undefined: bool,
}

impl R<'_> {
    fn blanks(&mut self) {
        while self.s.get(self.i) == Some(&b' ') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        let y = self.s.get(self.i) == Some(&c);
        if y {
            self.i += 1;
            self.blanks();
        }
        y
    }
    fn put(&mut self, v: Option<i64>) -> i64 {
        v.unwrap_or_else(|| {
            self.undefined = true;
            1
        })
    }
    fn number(&mut self) -> Option<i64> {
        let a = self.i;
        while self.s.get(self.i).is_some_and(u8::is_ascii_digit) {
            self.i += 1;
        }
        if a == self.i {
            return None;
        }
        let mut v = Some(0i64);
        for d in &self.s[a..self.i] {
            v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((d - b'0') as i64));
        }
        self.blanks();
        Some(self.put(v))
    }
    fn term(&mut self) -> Option<i64> {
        if self.eat(b'-') {
            self.number().map(|v| -v)
        } else if self.eat(b'(') {
            let v = self.sum()?;
            self.eat(b')').then_some(v)
        } else {
            self.number()
        }
    }
    fn product(&mut self) -> Option<i64> {
        let mut v = self.term()?;
        loop {
            if self.eat(b'*') {
                let w = self.term()?;
                v = self.put(v.checked_mul(w));
            } else if self.eat(b'/') {
                let w = self.term()?;
                v = self.put(v.checked_div(w));
            } else {
                return Some(v);
            }
        }
    }
    fn sum(&mut self) -> Option<i64> {
        let mut v = self.product()?;
        loop {
            if self.eat(b'+') {
                let w = self.product()?;
                v = self.put(v.checked_add(w));
            } else if self.eat(b'-') {
                let w = self.product()?;
                v = self.put(v.checked_sub(w));
            } else {
                return Some(v);
            }
        }
    }
}

fn want(s: &str) -> Want {
    let mut r = R { s: s.as_bytes(), i: 0, undefined: false };
    r.blanks();
    match r.sum() {
        Some(v) if r.i == r.s.len() => {
            if r.undefined {
                Want::Undefined
            } else {
                Want::Value(v)
            }
        }
        _ if r.undefined => Want::RejectUndefined,
        _ => Want::Reject,
    }
}

thread_local! {
    static LALR: lalr::ExpressionParser = lalr::ExpressionParser::new();
}

fn one(ctx: &Ctx, s: &str) {
    let w = want(s);
    ctx.state(1);
    let mut rs: Vec<(&str, Result<Option<i64>, String>)> = Vec::with_capacity(3);
    let ok = !matches!(w, Want::Undefined | Want::RejectUndefined);
    if ok {
        rs.push(("generated", ctx.guarded(s, || IterWrapper::new(s.chars()).parse::<nibble::Ast>().ok().map(i64::from))));
        rs.push(("hand-written", ctx.guarded(s, || parse_expr(&mut IterWrapper::new(s.chars())).ok())));
        rs.push(("LALR", ctx.guarded(s, || LALR.with(|l| l.parse(s).ok()))));
    } else {
        // only whether it is an expression
        ctx.count("overflow_or_division_by_zero", 1);
        rs.push(("generated", ctx.guarded(s, || IterWrapper::new(s.chars()).parse::<nibble::Ast>().ok().map(|_| 0))));
    }
    ctx.trace(rs.len() as u64);
    ctx.transition(rs.len() as u64);
    if let Want::Value(_) = w {
        ctx.count("expressions", 1);
    }
    for (who, r) in rs {
        let good = match (&r, w) {
            (Ok(None), Want::Reject | Want::RejectUndefined) => true,
            (Ok(Some(v)), Want::Value(w)) => *v == w,
            (Ok(Some(_)), Want::Undefined) => true,
            _ => false,
        };
        if !good {
            ctx.violation(s, format!("{:?}: the {} parser gives {:?} instead of {:?}", s, who, r, w), s);
            return;
        }
    }
}

fn exhaust(ctx: &'static Ctx, name: &str, al: &[&str], n: usize) {
    let a = al.len();
    let total: usize = (0..=n).map(|k| a.pow(k as u32)).sum();
    ctx.count(&format!("texts_{}", name), total as u64);
    par(ctx, total, 1024, |mut i| {
        let mut len = 0;
        while i >= a.pow(len) {
            i -= a.pow(len);
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(al[i % a]);
            i /= a;
        }
        one(ctx, &s);
    });
}

/// Every bracketing of `n` operators over the given numbers.
fn trees(n: usize, leaves: &[&str], ops: &[&str]) -> Vec<String> {
    let mut by: Vec<Vec<String>> = vec![leaves.iter().map(|s| s.to_string()).collect()];
    for k in 1..=n {
        let mut v = Vec::new();
        for i in 0..k {
            for a in &by[i] {
                for b in &by[k - 1 - i] {
                    for o in ops {
                        v.push(format!("({}{}{})", a, o, b));
                    }
                }
            }
        }
        by.push(v);
    }
    by.concat()
}

pub fn run(ctx: &'static Ctx) {
    let t = ctx.thorough;
    exhaust(ctx, "characters", &["0", "1", "7", " ", "(", ")", "+", "-", "*", "/"], if t { 8 } else { 7 });
    exhaust(ctx, "all_digits", &["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", " ", "(", ")", "+", "-", "*", "/"], if t { 6 } else { 5 });
    exhaust(ctx, "foreign_characters", &["1", " ", "\t", "\n", "x", ".", "\u{e9}", "+", "("].map(|x| if x == "\t" || x == "\n" { "\u{1}" } else { x }), if t { 7 } else { 6 });
    // chains of operators: precedence and associativity
    exhaust(ctx, "chains", &["7 ", "20", " -3", "+", "-", "*", "/"], if t { 10 } else { 9 });
    exhaust(ctx, "parentheses", &["5", "(", ")", "-", "/"], if t { 11 } else { 10 });
    exhaust(ctx, "blanks", &["4", "  ", "(", ")", "- ", "/ "], if t { 9 } else { 8 });
    // fully bracketed trees
    let mut v = trees(if t { 5 } else { 4 }, &["7", "-2", "03"], &["+", " - ", "*", " /"]);
    // large numbers
    let big = ["9223372036854775807", "-9223372036854775807", "4611686018427387904", "3037000499", "9223372036854775808", "00000000000000000000000001", "1000000000000", "-1"];
    for a in big {
        v.push(a.into());
        for b in big {
            for o in ["+", "-", "*", "/"] {
                v.push(format!("{} {} {}", a, o, b));
                v.push(format!("({}){}({})", a, o, b));
                for c in big {
                    for p in ["+", "-", "*", "/"] {
                        v.push(format!("{}{}{}{}{}", a, o, b, p, c));
                    }
                }
            }
        }
    }
    // long and deep
    for n in 1..200 {
        for o in ["+", "-", "*", "/", " ", "("] {
            v.push(vec!["2"; n.min(if o == "*" { 60 } else { n })].join(o));
        }
        v.push(format!("{}1{}", "(".repeat(n), ")".repeat(n)));
        v.push(format!("{}1{}", "(".repeat(n), ")".repeat(n - 1)));
        v.push(format!("{}1{}", "(1-".repeat(n), ")".repeat(n)));
        v.push(format!("{}1{}", " ".repeat(n), " ".repeat(n)));
        v.push("1".repeat(n.min(18)));
    }
    // a chain with another operator or another operand somewhere
    let mut sizes = vec![3usize, 4, 5, 8, 9, 16, 17, 31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300];
    if t {
        sizes.extend([500, 512, 513, 1000, 1025]);
    }
    for &n in &sizes {
        let places: Vec<usize> = (0..n).filter(|i| *i < 2 || *i + 2 >= n || *i == n / 2 || [8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256].contains(i)).collect();
        for o in ["+", "-", "*", "/"] {
            for &i in &places {
                for x in ["+", "-", "*", "/", "", " ", ")", "(", "- -", "+ (", "/ 0 *"] {
                    let k = if o == "*" { "1" } else { "3" };
                    let mut s = String::from("90000");
                    for j in 1..n {
                        s.push_str(if j == i { x } else { o });
                        s.push_str(if j % 3 == 0 { k } else { "1" });
                    }
                    v.push(s);
                }
                for x in ["(2-5)", "-4", "-(7)", "(8/3)", "(1+1", "1)", "", "--1", "2 2"] {
                    v.push((0..n).map(|j| if j == i { x } else { "1" }).collect::<Vec<_>>().join(o));
                    v.push((0..n).map(|j| if j == i { x } else { "1" }).collect::<Vec<_>>().join(&format!(" {} ", o)));
                }
            }
            if n <= 129 {
                v.push(format!("{}1{}", format!("2{}(", o).repeat(n.min(60)), ")".repeat(n.min(60))));
                v.push(format!("{}5{}", "(".repeat(n), format!(") {} 2", o).repeat(n).replace("* 2", "* 1")));
                v.push(format!("{}5{}", "-(".repeat(n), format!("{} 1)", o).repeat(n)));
            }
        }
        v.push("-".repeat(n) + "1");
        v.push("- ".repeat(n) + "1");
    }
    // one and two changes away from larger expressions
    for s in ["(12 + 3 * -4 ) - 20/ (7-2)*3", "-(8-3-2)*-(1) / 2/2", " 1-(2-(3-4*(5/2)))- -6 "] {
        let al = "0 9-+*/(). x\u{e9}";
        let change = |s: &str| -> Vec<String> {
            let c: Vec<char> = s.chars().collect();
            let mut out = Vec::new();
            for i in 0..=c.len() {
                for x in al.chars() {
                    let mut e = c.clone();
                    e.insert(i, x);
                    out.push(e.iter().collect::<String>());
                    if i < c.len() {
                        let mut e = c.clone();
                        e[i] = x;
                        out.push(e.iter().collect());
                    }
                }
                if i < c.len() {
                    let mut e = c.clone();
                    e.remove(i);
                    out.push(e.iter().collect());
                }
            }
            out
        };
        let one = change(s);
        for e in &one {
            v.extend(change(e));
        }
        v.extend(one);
    }
    ctx.count("composed", v.len() as u64);
    ctx.sample(|| v[v.len() / 3].clone());
    ctx.sample(|| "7 -20* -3".to_string());
    par(ctx, v.len(), 256, |i| one(ctx, &v[i]));
}
