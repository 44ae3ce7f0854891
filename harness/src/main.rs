//! Monitors of the `dendron` crate: workloads, reference model and oracles.
//!
//! `dmon run --prop C01 --seed 1 --start 0 --stride 8 --cases 1000` runs the
//! cases 0, 8, 16, ... and prints one JSON line with what was observed.

#![allow(clippy::all, deprecated)]

mod big;
mod cloneq;
mod cost;
mod data;
mod deep;
mod hist;
mod hostile;
mod nav;
mod parity;
mod payload;
mod print;
mod rng;
mod serial;
mod trav;
mod types;
mod world;

use std::fmt::Write as _;
use std::io::{Seek, SeekFrom, Write};
use std::time::Instant;

use payload::*;
use rng::{hash2, Rng};
use world::*;

thread_local! {
    /// Digest of the last case of C21.
    static DIGEST: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

#[global_allocator]
static ALLOC: Counting = Counting;

pub struct Args {
    pub prop: u32,
    pub seed: u64,
    pub start: u64,
    pub stride: u64,
    pub cases: u64,
    pub secs: f64,
    pub only: Option<u64>,
    pub verbose: bool,
    pub thorough: bool,
    pub progress: Option<String>,
    pub table: Option<String>,
    pub bits: u32,
    /// Number of nodes and stack size (KiB) for C18.
    pub nodes: usize,
    pub stack: usize,
    /// The large cases of the property.
    pub big: bool,
    /// Hardly any systematic cases (they take long to list in an interpreter).
    pub random: bool,
    /// File for the digests of C21.
    pub digest: Option<String>,
}

fn parse() -> Args {
    let mut a = Args {
        prop: 0,
        seed: 1,
        start: 0,
        stride: 1,
        cases: u64::MAX,
        secs: 1e9,
        only: None,
        verbose: false,
        thorough: false,
        progress: None,
        table: None,
        bits: 20,
        nodes: 20_000,
        stack: 128,
        digest: None,
        big: false,
        random: false,
    };
    let mut it = std::env::args().skip(2);
    while let Some(k) = it.next() {
        let mut val = || it.next().unwrap_or_default();
        match &*k {
            "--prop" => a.prop = val().trim_start_matches('C').parse().expect("prop"),
            "--seed" => a.seed = val().parse().expect("seed"),
            "--start" => a.start = val().parse().expect("start"),
            "--stride" => a.stride = val().parse().expect("stride"),
            "--cases" => a.cases = val().parse().expect("cases"),
            "--secs" => a.secs = val().parse().expect("secs"),
            "--only" => a.only = Some(val().parse().expect("only")),
            "--verbose" => a.verbose = true,
            "--thorough" => a.thorough = true,
            "--progress" => a.progress = Some(val()),
            "--table" => a.table = Some(val()),
            "--nodes" => a.nodes = val().parse().expect("nodes"),
            "--stack" => a.stack = val().parse().expect("stack"),
            "--big" => a.big = true,
            "--random" => a.random = true,
            "--digest" => a.digest = Some(val()),
            "--bits" => a.bits = val().parse().expect("bits"),
            _ => {
                eprintln!("unknown argument {k}");
                std::process::exit(2);
            }
        }
    }
    a
}

/// Outcome of one case: the divergence, the tags which count, and the trace.
pub struct Out {
    pub r: R<()>,
    pub tags: u32,
    pub trace: Vec<String>,
}

pub struct Ctx {
    pub strings: u64,
    pub sys: Option<hist::SysList>,
    /// Shapes for the systematic part, with a sub-case number.
    pub shapes: Vec<(Vec<usize>, usize)>,
    /// Second operands of the systematic part of C15.
    pub pairs: Vec<Vec<usize>>,
    pub thorough: bool,
}

fn prepare(a: &Args) -> Ctx {
    let sys = if (1..=8).contains(&a.prop) {
        let (one, two, pair) = match (a.prop, a.thorough) {
            (7, false) => (4, 3, 3),
            (_, false) => (6, 4, 4),
            (7, true) => (5, 4, 4),
            (_, true) => (7, 5, 5),
        };
        let m = |x| if a.random { 1 } else { x };
        Some(hist::SysList::new(m(one), m(two), m(pair)))
    } else {
        None
    };
    let mut shapes = vec![];
    let (max, subs): (usize, Vec<usize>) = match (a.prop, a.thorough) {
        (9 | 10, false) => (7, vec![0]),
        (9 | 10, true) => (9, vec![0]),
        (11, false) => (5, (0..21).collect()),
        (11, true) => (7, (0..21).collect()),
        (12, false) => (7, vec![0]),
        (12, true) => (9, vec![0]),
        (17, false) => (7, vec![0]),
        (17, true) => (9, vec![0]),
        _ => (0, vec![]),
    };
    for n in 1..=(if a.random { max.min(1) } else { max }) {
        for s in hist::shapes(n) {
            for k in &subs {
                shapes.push((s.clone(), *k));
            }
        }
    }
    let mut pairs = vec![];
    match a.prop {
        14 => {
            for n in 1..=(if a.random { 1 } else if a.thorough { 7 } else { 6 }) {
                for s in hist::shapes(n) {
                    for k in 0..n * (4 * n + 2) {
                        shapes.push((s.clone(), k));
                    }
                }
            }
        }
        15 => {
            for n in 1..=(if a.random { 1 } else if a.thorough { 6 } else { 5 }) {
                pairs.extend(hist::shapes(n));
            }
            for s in &pairs {
                for k in 0..pairs.len() {
                    shapes.push((s.clone(), k));
                }
            }
        }
        _ => {}
    }
    let strings = match (a.prop, a.thorough) {
        _ if a.random => 0,
        (13, false) => serial::num_strings(6),
        (13, true) => serial::num_strings(8),
        _ => 0,
    };
    Ctx {
        strings,
        sys,
        shapes,
        pairs,
        thorough: a.thorough,
    }
}

/// Number of systematic cases, which come first.
fn systematic(ctx: &Ctx, big: bool) -> u64 {
    if big {
        return 0;
    }
    ctx.sys.as_ref().map_or(0, |s| s.list.len() as u64) + ctx.shapes.len() as u64 + ctx.strings
}

fn run_world(
    rng: Rng,
    cfg: Cfg,
    st: &mut Stats,
    keep: bool,
    f: impl FnOnce(&mut W<'_>) -> R<()>,
) -> Out {
    let tags = cfg.tags;
    let mut w = W::new(rng, cfg, st);
    let r = match catch(|| f(&mut w)) {
        Ok(r) => r,
        Err(m) => outer_panic(m),
    };
    let trace = if r.is_err() || keep {
        std::mem::take(&mut w.trace)
    } else {
        vec![]
    };
    let end = catch(move || drop(w));
    let r = match (r, end) {
        (Ok(()), Err(m)) => outer_panic(m),
        (r, _) => r,
    };
    Out { r, tags, trace }
}

/// A panic of the crate is a violation; one of the harness is not an answer.
pub fn outer_panic(m: String) -> R<()> {
    if m.contains(" at src/") {
        dv(0, format!("harness panic: {m}"))
    } else {
        dv(tag::PANIC, m)
    }
}

fn run_case(a: &Args, ctx: &Ctx, idx: u64, st: &mut Stats, keep: bool) -> Out {
    // Some cases run as a whole in a destructor while the thread unwinds.
    if a.prop != 18 && hash2(a.seed, hash2(0x756e77, idx)) % 13 == 0 {
        return match unwinding(|| run_case_now(a, ctx, idx, st, keep)) {
            Ok(o) => o,
            Err(m) => Out { r: outer_panic(m), tags: 0, trace: vec![] },
        };
    }
    run_case_now(a, ctx, idx, st, keep)
}

fn run_case_now(a: &Args, ctx: &Ctx, idx: u64, st: &mut Stats, keep: bool) -> Out {
    let mut rng = Rng::new(hash2(a.seed, hash2(a.prop as u64, idx)));
    let p = a.prop;
    if a.big {
        let mut trace = vec![];
        let r = big::run(p, idx, st, &mut rng, &mut trace);
        return Out { r, tags: 0, trace };
    }
    match p {
        1..=8 => {
            let plan = hist::plan(p, &mut rng);
            let sl = ctx.sys.as_ref().unwrap();
            if (idx as usize) < sl.list.len() {
                let s = &sl.list[idx as usize];
                if let hist::Sys::Two { .. } = s {
                    let (r, trace) = match catch(|| hist::run_two(st, &plan, sl, s, &rng)) {
                        Ok(v) => v,
                        Err(m) => (outer_panic(m), vec![]),
                    };
                    return Out {
                        r,
                        tags: plan.cfg.tags,
                        trace,
                    };
                }
                run_world(rng, plan.cfg.clone(), st, keep, |w| {
                    hist::run_sys(w, &plan, sl, s)
                })
            } else {
                run_world(rng, plan.cfg.clone(), st, keep, |w| {
                    hist::run_random(w, &plan)
                })
            }
        }
        9..=11 => {
            let mut cfg = Cfg::default();
            cfg.tags = tag::V | tag::S;
            cfg.frozen_pct = 5;
            cfg.w_foreign = 0;
            cfg.max_nodes = *rng.pick(&[4, 8, 14, 24]);
            let shape = ctx.shapes.get(idx as usize);
            run_world(rng, cfg, st, keep, |w| match shape {
                Some((s, k)) => trav::case_trav(w, p, Some(s), *k),
                None => trav::case_trav(w, p, None, 0),
            })
        }
        14 => {
            let mut cfg = Cfg::default();
            cfg.tags = tag::CL | tag::T;
            cfg.frozen_pct = 12;
            cfg.w_foreign = 0;
            cfg.max_nodes = *rng.pick(&[4, 8, 14, 24]);
            let shape = ctx.shapes.get(idx as usize);
            run_world(rng, cfg, st, keep, |w| {
                cloneq::case_c14(w, shape.map(|s| (s.0.as_slice(), s.1)))
            })
        }
        16 => {
            let mut cfg = Cfg::default();
            cfg.tags = tag::D | tag::T | tag::EOK;
            cfg.frozen_pct = 15;
            cfg.w_foreign = 1;
            cfg.max_nodes = *rng.pick(&[3, 6, 10, 14]);
            run_world(rng, cfg, st, keep, data::case_c16)
        }
        17 => {
            let mut cfg = Cfg::default();
            cfg.tags = 0;
            let shape = ctx.shapes.get(idx as usize).map(|s| s.0.as_slice());
            run_world(rng, cfg, st, keep, |w| print::case_c17(w, shape))
        }
        18 => {
            let n = a.nodes;
            let mut trace = vec![];
            let r = std::thread::scope(|s| {
                let h = std::thread::Builder::new()
                    .stack_size(a.stack * 1024)
                    .spawn_scoped(s, || deep::run(st, idx, &mut rng, n, &mut trace))
                    .expect("thread");
                match h.join() {
                    Ok(r) => r,
                    Err(_) => dv(0, "harness panic"),
                }
            });
            Out { r, tags: 0, trace }
        }
        21 => {
            let (mut trace, mut digest) = (vec![], 0);
            let r = parity::run(st, &mut rng, keep, &mut trace, &mut digest);
            DIGEST.with(|d| d.set(digest));
            Out { r, tags: 0, trace }
        }
        19 => {
            let mut trace = vec![];
            let r = hostile::run(st, &mut rng, &mut trace);
            Out { r, tags: 0, trace }
        }
        15 => {
            let mut cfg = Cfg::default();
            cfg.tags = 0;
            let pair = ctx.shapes.get(idx as usize).map(|s| {
                (s.0.as_slice(), ctx.pairs[s.1].as_slice())
            });
            run_world(rng, cfg, st, keep, |w| cloneq::case_c15(w, pair))
        }
        12 => {
            let mut cfg = Cfg::default();
            cfg.tags = tag::S | tag::M | tag::D | tag::L | tag::V | tag::CL;
            cfg.frozen_pct = 5;
            cfg.w_foreign = 0;
            cfg.max_nodes = *rng.pick(&[4, 8, 14]);
            let shape = ctx.shapes.get(idx as usize).map(|s| s.0.as_slice());
            run_world(rng, cfg, st, keep, |w| serial::case_c12(w, shape))
        }
        13 => {
            let mut cfg = Cfg::default();
            cfg.tags = 0;
            if idx < ctx.strings {
                let (v, mode) = serial::event_string(idx as usize);
                run_world(rng, cfg, st, keep, |w| serial::case_c13(w, Some(&v), mode))
            } else {
                let mode = rng.below(2);
                run_world(rng, cfg, st, keep, |w| serial::case_c13(w, None, mode))
            }
        }
        20 => {
            let mut cfg = Cfg::default();
            cfg.tags = tag::W | tag::S | tag::L | tag::D | tag::V;
            cfg.frozen_pct = 0;
            cfg.w_foreign = 0;
            cfg.max_nodes = *rng.pick(&[4, 8, 14]);
            let free = rng.bool();
            run_world(rng, cfg, st, keep, |w| {
                if free {
                    trav::case_c20_free(w)
                } else {
                    trav::case_c20_passed(w)
                }
            })
        }
        _ => {
            eprintln!("no workload for C{p:02}");
            std::process::exit(2);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list(v: &[String]) -> String {
    let s: Vec<String> = v.iter().map(|s| json_str(s)).collect();
    format!("[{}]", s.join(","))
}

fn is_violation(o: &Out) -> bool {
    match &o.r {
        Err(d) => d.tag & (o.tags | tag::PANIC | tag::X) != 0,
        Ok(()) => false,
    }
}

fn run() -> i32 {
    let a = parse();
    install_hook();
    let ctx = prepare(&a);
    let mut st = Stats::new(a.bits);
    let t0 = Instant::now();
    let mut progress = a.progress.as_ref().map(|p| {
        std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(p)
            .expect("progress file")
    });
    let (mut n, mut nsys, mut abandoned) = (0u64, 0u64, 0u64);
    let mut viol: Vec<String> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut off: Vec<String> = vec![];
    let mut digests = a.digest.as_ref().map(|_| Vec::new());
    let nsystem = systematic(&ctx, a.big);
    let mut idx = a.only.unwrap_or(a.start);
    // Warm up lazily initialised state.
    ledger_reset();
    let _ = catch(|| panic!("warm up"));
    clear_panic();
    samples.reserve(16);
    while idx < a.cases || a.only.is_some() {
        if let Some(f) = &mut progress {
            let mut b = [b' '; 21];
            let s = idx.to_string();
            b[..s.len()].copy_from_slice(s.as_bytes());
            b[20] = b'\n';
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(&b);
        }
        let keep = a.only.is_some() || (n < 400 && samples.len() < 3 && n % 97 == 3);
        ledger_reset();
        clear_panic();
        let (a0, b0) = live_allocs();
        let mut o = run_case(&a, &ctx, idx, &mut st, keep);
        if a.prop == 6 && o.r.is_ok() {
            clear_panic();
            let trace = std::mem::take(&mut o.trace);
            let text = trace.join("; ");
            drop(trace);
            let extra = (text.capacity() > 0) as isize;
            let cap = text.capacity() as isize;
            let (a1, b1) = live_allocs();
            st.inc(ct::USER3);
            if (a1 - extra, b1 - cap) != (a0, b0) {
                let t = if text.is_empty() {
                    // Once more, to get the trace.
                    ledger_reset();
                    run_case(&a, &ctx, idx, &mut st, true).trace
                } else {
                    vec![text]
                };
                o = Out {
                    r: dv(
                        tag::X,
                        format!(
                            "memory is still allocated after all handles were dropped: {} allocations, {} bytes",
                            a1 - extra - a0,
                            b1 - cap - b0
                        ),
                    ),
                    tags: o.tags,
                    trace: t,
                };
            } else if !text.is_empty() {
                o.trace.push(text);
            }
        }
        if let Some(f) = &mut digests {
            f.extend_from_slice(&idx.to_le_bytes());
            f.extend_from_slice(&DIGEST.with(|d| d.get()).to_le_bytes());
        }
        n += 1;
        if idx < nsystem {
            nsys += 1;
        }
        if a.only.is_some() {
            for t in &o.trace {
                println!("  {t}");
            }
            if let Err(d) = &o.r {
                println!("  => [{}] {}", tag::name(d.tag), d.msg);
            }
        }
        if is_violation(&o) {
            let d = o.r.as_ref().unwrap_err();
            let tail = o.trace.len().saturating_sub(200);
            viol.push(format!(
                "{{\"case\":{idx},\"kind\":{},\"msg\":{},\"trace\":{}}}",
                json_str(tag::name(d.tag)),
                json_str(&d.msg),
                json_list(&o.trace[tail..])
            ));
            if viol.len() >= 3 {
                break;
            }
        } else if let Err(d) = &o.r {
            abandoned += 1;
            if off.len() < 3 {
                off.push(format!("case {idx}: [{}] {}", tag::name(d.tag), d.msg));
            }
        } else if keep && samples.len() < 3 {
            let t: Vec<String> = o.trace.iter().take(40).cloned().collect();
            samples.push(format!("case {idx}: {}", t.join("; ")));
        }
        if a.only.is_some() {
            break;
        }
        idx += a.stride;
        if (n % 16 == 0 || a.big || a.random) && t0.elapsed().as_secs_f64() > a.secs {
            break;
        }
    }
    if let (Some(p), Some(d)) = (&a.digest, digests) {
        std::fs::write(p, d).expect("digest file");
    }
    if let Some(p) = &a.table {
        let mut bytes = Vec::with_capacity(st.filled * 8);
        for h in st.table.iter().filter(|h| **h != 0) {
            bytes.extend_from_slice(&h.to_le_bytes());
        }
        std::fs::write(p, bytes).expect("table file");
    }
    let c: Vec<String> = st.c.iter().map(|x| x.to_string()).collect();
    println!(
        "{{\"prop\":{},\"cases\":{n},\"systematic\":{nsys},\"systematic_total\":{nsystem},\"tried\":{},\"distinct\":{},\"abandoned\":{abandoned},\"unwound\":{},\"off\":{},\"counters\":[{}],\"violations\":[{}],\"samples\":{},\"secs\":{:.3}}}",
        a.prop,
        st.tried,
        st.filled,
        UNWOUND.with(|u| u.get()),
        json_list(&off),
        c.join(","),
        viol.join(","),
        json_list(&samples),
        t0.elapsed().as_secs_f64()
    );
    if viol.is_empty() {
        0
    } else {
        1
    }
}

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let code = match &*cmd {
        "run" => run(),
        "cost" => {
            cost::main();
            0
        }
        // Number of distinct hashes in some tables.
        "union" => {
            let mut v: Vec<u64> = vec![];
            for f in std::env::args().skip(2) {
                let b = std::fs::read(&f).expect("table file");
                v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            v.sort_unstable();
            v.dedup();
            println!("{}", v.len());
            0
        }
        _ => {
            eprintln!("usage: dmon run --prop C01 ...");
            2
        }
    };
    std::process::exit(code);
}
