//! Reference reader for grammar programs given as token sequences.

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Tok {
    Under,
    Id(String),
    /// source text, value
    Str(String, String),
    P(char),
}

impl Tok {
    pub fn text(&self) -> String {
        match self {
            Tok::Under => "_".into(),
            Tok::Id(s) => s.clone(),
            Tok::Str(s, _) => s.clone(),
            Tok::P(c) => c.to_string(),
        }
    }
    pub fn id(s: &str) -> Tok {
        Tok::Id(s.into())
    }
    pub fn str(s: &str) -> Tok {
        Tok::Str(crate::gram::quote(s), s.into())
    }
}

/// What a program reads as. `name` is the name a node carries.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Node {
    pub name: Option<String>,
    pub expr: Expr,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Expr {
    Eps,
    Lit(String),
    Var(String),
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Fix(Box<Node>),
    Call(Vec<Node>),
    Lam(Vec<String>, Box<Node>),
    Let(String, Box<Node>, Box<Node>),
}

/// Reject; or `None` when an underscore stands where a name is wanted (not specified).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum No {
    Reject,
    Unspecified,
}

struct R<'a> {
    t: &'a [Tok],
    i: usize,
}

fn plain(expr: Expr) -> Node {
    Node { name: None, expr }
}

impl R<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn eat(&mut self, c: char) -> Result<(), No> {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            Ok(())
        } else {
            Err(No::Reject)
        }
    }
    fn name(&mut self) -> Result<String, No> {
        match self.peek() {
            Some(Tok::Id(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            Some(Tok::Under) => Err(No::Unspecified),
            _ => Err(No::Reject),
        }
    }
    fn stmt(&mut self) -> Result<Node, No> {
        match self.peek() {
            Some(Tok::Id(s)) if s == "let" => {
                self.i += 1;
                let name = self.name()?;
                let mut args = Vec::new();
                while self.peek() != Some(&Tok::P('=')) {
                    args.push(self.name()?);
                }
                self.eat('=')?;
                let e = self.expr()?;
                self.eat(';')?;
                let body = self.stmt()?;
                let expr = if args.is_empty() { e.expr } else { Expr::Lam(args, Box::new(e)) };
                let bound = Node { name: Some(name.clone()), expr };
                Ok(plain(Expr::Let(name, Box::new(bound), Box::new(body))))
            }
            Some(Tok::Id(s)) if s == "match" => {
                self.i += 1;
                let e = self.expr()?;
                self.eat(';')?;
                Ok(Node { name: e.name.or(Some("Ast".into())), expr: e.expr })
            }
            _ => Err(No::Reject),
        }
    }
    fn expr(&mut self) -> Result<Node, No> {
        if self.eat('/').is_ok() {
            let mut args = vec![self.name()?];
            while self.eat('/').is_err() {
                args.push(self.name()?);
            }
            let b = self.alt()?;
            Ok(plain(Expr::Lam(args, Box::new(b))))
        } else {
            self.alt()
        }
    }
    fn alt(&mut self) -> Result<Node, No> {
        let mut v = vec![self.labelled()?];
        while self.eat('|').is_ok() {
            v.push(self.labelled()?);
        }
        Ok(if v.len() == 1 { v.remove(0) } else { plain(Expr::Alt(v)) })
    }
    fn labelled(&mut self) -> Result<Node, No> {
        let mut n = self.cat()?;
        if self.eat(':').is_ok() {
            n.name = Some(self.name()?);
        }
        Ok(n)
    }
    fn cat(&mut self) -> Result<Node, No> {
        let mut v = vec![self.call()?];
        while self.eat('.').is_ok() {
            v.push(self.call()?);
        }
        Ok(if v.len() == 1 { v.remove(0) } else { plain(Expr::Cat(v)) })
    }
    fn call(&mut self) -> Result<Node, No> {
        let mut v = vec![self.term()?];
        while matches!(self.peek(), Some(Tok::Under | Tok::Id(_) | Tok::Str(..) | Tok::P('!') | Tok::P('('))) {
            v.push(self.term()?);
        }
        Ok(if v.len() == 1 { v.remove(0) } else { plain(Expr::Call(v)) })
    }
    fn term(&mut self) -> Result<Node, No> {
        let t = self.peek().cloned().ok_or(No::Reject)?;
        self.i += 1;
        match t {
            Tok::Under => Ok(plain(Expr::Eps)),
            Tok::Str(_, v) => Ok(plain(Expr::Lit(v))),
            Tok::Id(s) => Ok(Node { name: Some(s.clone()), expr: Expr::Var(s) }),
            Tok::P('!') => Ok(plain(Expr::Fix(Box::new(self.term()?)))),
            Tok::P('(') => {
                let e = self.expr()?;
                self.eat(')')?;
                Ok(e)
            }
            _ => Err(No::Reject),
        }
    }
}

pub fn read(t: &[Tok]) -> Result<Node, No> {
    let mut r = R { t, i: 0 };
    let n = match r.stmt() {
        Ok(n) => n,
        // an underscore used as a name earlier or later does not matter if brackets are unbalanced
        Err(e) => return Err(if e == No::Unspecified && !balanced(t) { No::Reject } else { e }),
    };
    if r.i == t.len() {
        Ok(n)
    } else {
        Err(No::Reject)
    }
}

fn balanced(t: &[Tok]) -> bool {
    let mut d = 0;
    for x in t {
        match x {
            Tok::P('(') => d += 1,
            Tok::P(')') => d -= 1,
            _ => {}
        }
        if d < 0 {
            return false;
        }
    }
    d == 0
}

pub fn alphabet() -> Vec<Tok> {
    let mut v = vec![Tok::Under, Tok::id("x"), Tok::str("a"), Tok::id("let"), Tok::id("match")];
    v.extend("!().|:/=;".chars().map(Tok::P));
    v
}

/// Words, strings without escapes, punctuation.
pub fn lex(s: &str) -> Vec<Tok> {
    // words, strings without escapes, punctuation
    let c: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == ' ' {
            i += 1;
        } else if c[i] == '"' {
            let j = i + 1 + c[i + 1..].iter().position(|x| *x == '"').unwrap();
            out.push(Tok::str(&c[i + 1..j].iter().collect::<String>()));
            i = j + 1;
        } else if c[i] == '_' {
            out.push(Tok::Under);
            i += 1;
        } else if c[i].is_alphanumeric() {
            let mut j = i;
            while j < c.len() && c[j].is_alphanumeric() {
                j += 1;
            }
            out.push(Tok::id(&c[i..j].iter().collect::<String>()));
            i = j;
        } else {
            out.push(Tok::P(c[i]));
            i += 1;
        }
    }
    out
}

pub const PROGRAMS: [&str; 12] = [
    "match \"a\" . x y | _ : l | !(/x/ x . \"b\" : m) ;",
    "let x y z = !(/x/ y x | z : q) ; match x \"a\" (\"b\" . _) ;",
    "match (/x y/ x . y : a | y x) \"a\" ! y ;",
    "let x = /y z/ y | z ; let y = x x x ; match (((x . y) . x) : k) . (y : z) ;",
    "match ! ! x . ! (x) | (! y : a) : b ;",
    "let let match = match ; match let match ;",
    "match (x : a) : b | (x . y : a) : b | ((x)) ;",
    "let x = _ ; let x = x ; let x x = x x ; match x _ \"\" (x) ;",
    "match (/x/ (/y/ x y : a | x y z)) \"k\" . (/let/ let) x ;",
    "match x y z . x y . x | y . (z | x : y) . z : x ;",
    "let x = x : y ; match x ;",
    "match /x/ !(/y/ y | x) : z ;",
];

/// Everything one change of a token away.
pub fn edits(base: &[Tok], al: &[Tok]) -> Vec<Vec<Tok>> {
    let mut out = Vec::new();
    for i in 0..=base.len() {
        for a in al {
            let mut t = base.to_vec();
            t.insert(i, a.clone());
            out.push(t);
            if i < base.len() && base[i] != *a {
                let mut t = base.to_vec();
                t[i] = a.clone();
                out.push(t);
            }
        }
        if i < base.len() {
            let mut t = base.to_vec();
            t.remove(i);
            out.push(t);
        }
        if i + 1 < base.len() {
            let mut t = base.to_vec();
            t.swap(i, i + 1);
            out.push(t);
        }
    }
    out
}

/// Long and deep programs, right and with one thing wrong at some place. Names are those the
/// front ends are given (x, y, z, a, b), but for those called `undeclared`.
pub fn long_programs(deep: bool) -> Vec<(&'static str, Vec<Tok>)> {
    let mut out: Vec<(&'static str, Vec<Tok>)> = Vec::new();
    let mut sizes = vec![5usize, 6, 7, 8, 9, 12, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 66];
    let far = if deep { vec![100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1000] } else { vec![127, 128, 129, 255, 256, 257, 300] };
    sizes.extend(far);
    let vars = ["x", "y", "z", "a", "b"];
    let wrap = |pre: &str, mid: Vec<Tok>, post: &str| -> Vec<Tok> { lex(pre).into_iter().chain(mid).chain(lex(post)).collect() };
    let near = |n: usize| -> Vec<usize> { (0..n).filter(|i| *i < 3 || *i + 3 >= n || *i == n / 2 || [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256].contains(i)).collect() };
    for &n in &sizes {
        // n parts with one separator between them; one of them another kind of part
        for (kind, sep) in [("long_sequence", "."), ("long_alternation", "|"), ("long_call", "")] {
            let parts = |i: usize, special: &str, at_sep: Option<&str>| -> Vec<Tok> {
                let mut t = Vec::new();
                for k in 0..n {
                    if k > 0 {
                        t.extend(lex(if k == i { at_sep.unwrap_or(sep) } else { sep }));
                    }
                    t.extend(if k == i && !special.is_empty() { lex(special) } else { lex(vars[k % 5]) });
                }
                t
            };
            out.push((kind, wrap("match", parts(n, "", None), ";")));
            out.push((kind, wrap("match (", parts(n, "", None), ") . x ;")));
            out.push((kind, wrap("match ! (/q/ q | ", parts(n, "", None), ") ;")));
            out.push((kind, wrap("let q =", parts(n, "", None), "; match q | x ;")));
            if !sep.is_empty() {
                out.push((kind, wrap("match", parts(n, "", None), &format!("{} ;", sep))));
                out.push((kind, wrap(&format!("match {}", sep), parts(n, "", None), ";")));
            }
            for i in near(n) {
                for special in ["\"a\"", "_", "( x . y )", "( x | y )", "x y", "! x", "( x : k )", "x . y", "x | y", "x : k", "( )", "/ q / q", "let", ")", ";", "=", "! ! x"] {
                    out.push((kind, wrap("match", parts(i, special, None), ";")));
                }
                if i > 0 {
                    for s in [". .", ". |", "| |", ".", "|", "", ":", ". ;", "= "] {
                        if s != sep {
                            out.push((kind, wrap("match", parts(i, "", Some(s)), ";")));
                        }
                    }
                }
            }
        }
        // every part labelled
        let mut t = Vec::new();
        for k in 0..n {
            if k > 0 {
                t.push(Tok::P('|'));
            }
            t.extend(lex("x . y :"));
            t.push(Tok::id(&format!("l{}", k)));
        }
        out.push(("long_labelled", wrap("match", t, ";")));
        // parameters
        let ps: Vec<Tok> = (0..n).map(|k| Tok::id(&format!("p{}", k))).collect();
        for i in near(n) {
            let used = vec![ps[i].clone(), Tok::P('|'), ps[n - 1 - i].clone()];
            out.push(("many_parameters", wrap("match /", ps.iter().cloned().chain(vec![Tok::P('/')]).chain(used.clone()).collect(), ";")));
            out.push(("many_parameters", wrap("let x", ps.iter().cloned().chain(vec![Tok::P('=')]).chain(used.clone()).collect(), "; match x ;")));
            let mut broken = ps.clone();
            broken.insert(i, Tok::P(['.', '/', '=', '!'][i % 4]));
            out.push(("many_parameters", wrap("match /", broken.into_iter().chain(vec![Tok::P('/')]).chain(used).collect(), ";")));
        }
        // definitions
        let lets = |i: usize, bad: &str| -> Vec<Tok> {
            (0..n).flat_map(|k| lex(if k == i && !bad.is_empty() { bad } else { ["let x = y . x ;", "let y = x | \"a\" ;", "let z a = a . y ;"][k % 3] })).collect()
        };
        if n <= 300 {
            out.push(("many_definitions", wrap("", lets(n, ""), "match z x . y ;")));
            for i in near(n) {
                for bad in ["let x = y", "let x y ;", "x = y ;", "let = x ;", "match x ;", "let x = ;", "let x a b = b ;", "; let x = y ;"] {
                    out.push(("many_definitions", wrap("", lets(i, bad), "match z x . y ;")));
                }
            }
        }
        // depth
        if n <= 66 {
            let nest = |open: &str, inner: &str, close: &str, lack: usize, extra: usize| -> Vec<Tok> {
                let mut t = Vec::new();
                (0..n + extra).for_each(|_| t.extend(lex(open)));
                t.extend(lex(inner));
                (0..n - lack).for_each(|_| t.extend(lex(close)));
                t
            };
            for inner in ["x", "x . y", "x | y", "x y", "x : k", "! x", "_", "/ q / q", ""] {
                for (lack, extra) in [(0, 0), (1, 0), (0, 1)] {
                    for (open, close) in [("(", ")"), ("! (", ")"), ("( x .", ")"), ("( x |", ": k )"), ("( / q /", ")"), ("(", ". y )"), ("( x y", ") : l"), ("x (", ")"), ("(", ") x")] {
                        if open != "(" && inner.len() > 5 {
                            continue;
                        }
                        out.push(("deep", wrap("match", nest(open, inner, close, lack, extra), ";")));
                    }
                }
            }
            for inner in ["x", "( x . y )", "x . y", "x y", "", ". x"] {
                out.push(("deep", wrap("match", nest("!", inner, "", 0, 0), ";")));
                out.push(("deep", wrap("match ! ( / q /", nest("! / q /", inner, "", 0, 0), ") ;")));
                out.push(("deep", wrap("match", nest("/ q / ", inner, "", 0, 0), ";")));
            }
        }
        // long names and literals
        for c in ["w", "wV3x"] {
            let id: String = c.chars().cycle().take(n).collect();
            let lit = Tok::str(&id);
            let id = Tok::id(&id);
            let other = Tok::id(&format!("{}k", id.text()));
            for (kind, last) in [("long_names", id.clone()), ("undeclared", other)] {
                out.push((kind, vec![Tok::id("let"), id.clone(), Tok::id("x"), Tok::P('='), Tok::id("x"), Tok::P(';'), Tok::id("match"), last.clone(), Tok::id("y"), Tok::P(':'), last, Tok::P(';')]));
            }
            out.push(("long_names", vec![Tok::id("match"), Tok::P('/'), id.clone(), Tok::P('/'), id.clone(), Tok::P('.'), lit.clone(), Tok::P(';')]));
            out.push(("long_literals", vec![Tok::id("match"), lit.clone(), Tok::P('.'), lit.clone(), lit, Tok::P(';')]));
        }
        for piece in ["a", "\\n", "\\u{e9}", "\\x41", "\\\\", "\\\"", " "] {
            let v = match piece {
                "\\n" => "\n",
                "\\u{e9}" => "\u{e9}",
                "\\x41" => "A",
                "\\\\" => "\\",
                "\\\"" => "\"",
                p => p,
            };
            for n in [n, 16 * n + 1] {
                if n * piece.len() < 5000 {
                    out.push(("long_literals", vec![Tok::id("match"), Tok::Str(format!("\"{}\"", piece.repeat(n)), v.repeat(n)), Tok::P('|'), Tok::id("x"), Tok::P(';')]));
                }
            }
        }
    }
    out
}
