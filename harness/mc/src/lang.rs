//! C01, C02, C04, C05: compiled parsers against the denotation of their grammar.
use crate::{pipeline, space};
use refmodel::families::renamed;
use refmodel::gram::*;
use refmodel::report::{par, Ctx};
use refmodel::shard::{run_shards, Builder, Entry};
use std::sync::Mutex;

pub fn grammars(ctx: &Ctx) -> (Vec<G>, Vec<G>) {
    let (n_all, n_words, n_share, n_nest, n_closed) = if ctx.thorough { (8, 6, 5, 6, 5) } else { (6, 5, 2, 5, 3) };
    let mut all = space::small(n_all, 2);
    all.extend(space::words(n_words));
    let (ok, rejected): (Vec<G>, Vec<G>) = all.into_iter().partition(accepted);
    let mut v = space::shapes(ctx.thorough);
    v.extend(space::mixed(ctx.thorough));
    v.extend(space::shared_context(n_share, n_nest));
    v.extend(space::shared_closed(n_closed));
    // the enumeration takes letters in one order only: others too, and letters that are the same
    // but for their high bits
    for g in ok.iter().filter(|g| g.size() <= 7) {
        v.extend(renamed(g));
    }
    v.extend(ok);
    (space::dedup(v), space::dedup(rejected))
}

/// Wide, deep and long grammars, judged by a chart recogniser.
pub fn long_entries(ctx: &'static Ctx) -> Vec<Entry> {
    let fam = refmodel::long::family(ctx.thorough);
    let out: Mutex<Vec<(usize, Entry)>> = Mutex::default();
    par(ctx, fam.len(), 1, |i| {
        let text = fam[i].1.program();
        match ctx.guarded(&text, || pipeline::compile(&text)) {
            Err(p) => ctx.violation(&format!("panic {}", fam[i].0), format!("the compiler panics on {} ({}): {}", text, fam[i].0, p), &text),
            // acceptance is the business of C06
            Ok(Err(_)) => ctx.count("long_grammars_rejected_by_the_compiler", 1),
            Ok(Ok(code)) => out.lock().unwrap().push((i, Entry { spec: format!("LONG {}", i), code, text, as_char: false })),
        }
    });
    let mut es = out.into_inner().unwrap();
    es.sort_by_key(|e| e.0);
    ctx.count("long_grammars", es.len() as u64);
    es.into_iter().map(|e| e.1).collect()
}

pub fn run(ctx: &'static Ctx) {
    let (ok, rejected) = grammars(ctx);
    ctx.fact("bounds", "see DESIGN.md, spaces S1-S6");
    let out: Mutex<Vec<(usize, Entry)>> = Mutex::default();
    let extra: Mutex<Vec<(usize, Entry)>> = Mutex::default();
    let one = |i: usize, g: &G, to: &Mutex<Vec<(usize, Entry)>>| {
        let text = g.program();
        match ctx.guarded(&text, || pipeline::compile(&text)) {
            Err(p) => {
                if accepted(g) {
                    ctx.violation(&format!("panic {}", text), format!("the compiler panics on {}: {}", text, p), &text)
                }
            }
            Ok(Err(_)) => ctx.count("rejected_by_the_compiler", 1),
            Ok(Ok(code)) => to.lock().unwrap().push((i, Entry { spec: g.to_ser(), code, text, as_char: false })),
        }
    };
    par(ctx, ok.len(), 16, |i| one(i, &ok[i], &out));
    par(ctx, rejected.len(), 64, |i| one(i, &rejected[i], &extra));
    let mut es = out.into_inner().unwrap();
    es.sort_by_key(|e| e.0);
    let mut ex = extra.into_inner().unwrap();
    ex.sort_by_key(|e| e.0);
    ctx.count("grammars_the_rules_reject_but_the_compiler_accepts", ex.len() as u64);
    ex.truncate(600);
    let entries: Vec<Entry> = ex.into_iter().chain(es).map(|e| e.1).collect();
    ctx.count("compiled_parsers", entries.len() as u64);
    for k in [0, entries.len() / 3, entries.len() / 2, entries.len().saturating_sub(1)] {
        if let Some(e) = entries.get(k) {
            ctx.sample(|| e.text.clone());
        }
    }
    let entries: Vec<Entry> = long_entries(ctx).into_iter().chain(entries).collect();
    run_shards(
        ctx,
        &Builder {
            mode: ctx.id.clone(),
            detail: ctx.id == "C02",
            batch: 60,
            macro_lib: None,
            must_compile: true,
            check_only: false,
        },
        &entries,
    );
}
/// The two oracles against each other.
pub fn oracles(ctx: &'static Ctx) {
    let (mut ok, rejected) = grammars(ctx);
    ok.extend(rejected);
    let ok: Vec<G> = ok.into_iter().filter(all_productive).collect();
    par(ctx, ok.len(), 16, |i| {
        let g = &ok[i];
        let (ins, d, n, _) = refmodel::shard::inputs(g, false);
        for t in ins {
            let mut c = refmodel::long::Chart::new(g);
            for (k, x) in t.iter().enumerate() {
                let s: String = t[..k].iter().collect();
                if k > n { break }
                assert_eq!(c.sentence(), d.words.contains(&s), "{} {:?}", g.program(), s);
                let nx = d.vp.contains(&t[..k + 1].iter().collect::<String>());
                if k < n {
                    assert_eq!(c.viable(*x), nx, "{} {:?}", g.program(), t);
                    assert_eq!(c.push(*x), nx);
                }
                if !nx { break }
            }
            ctx.trace(1);
        }
        for w in refmodel::long::sentences(g, &[1, 2]) {
            let mut c = refmodel::long::Chart::new(g);
            assert!(w.chars().all(|x| c.push(x)) && c.sentence(), "{} {:?}", g.program(), w);
            ctx.transition(1);
        }
    });
    println!("{} grammars, the oracles agree", ok.len());
}
pub fn sizes() {
    for th in [false, true] {
        let f = |v: Vec<G>| { let n = v.len(); (n, space::dedup(v).into_iter().filter(accepted).count()) };
        println!("shapes {:?} mixed {:?} ", f(space::shapes(th)), f(space::mixed(th)));
        for n in 2..5 { for m in 2..7 { println!("ctx{} {} {:?}", n, m, f(space::shared_context(n, m))); }}
    }
}
