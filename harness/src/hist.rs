//! Workloads of C01 - C08: systematic small trees and random histories.

use crate::ensure;
use crate::payload::*;
use crate::rng::{hash2, Rng};
use crate::world::*;

/// All shapes of ordered trees with `n` nodes, as pre-order parent arrays.
pub fn shapes(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![0]];
    for i in 1..n {
        let mut next = vec![];
        for s in &out {
            // The new node may be a child of any node on the rightmost path.
            let mut p = i - 1;
            loop {
                let mut t = s.clone();
                t.push(p);
                next.push(t);
                if p == 0 {
                    break;
                }
                p = s[p];
            }
        }
        out = next;
    }
    out
}

/// All edits on a tree with the node ids `a`, with possible other operands `b`.
pub fn all_edits(a: &[usize], b: &[usize]) -> Vec<Edit> {
    let mut v = vec![];
    for &x in a {
        for d in DESTS {
            v.push(Edit::Create { x, d });
        }
        v.push(Edit::IntParent { x });
        v.push(Edit::IntChild { x });
        v.push(Edit::Detach { x });
        v.push(Edit::Replace { x });
        v.push(Edit::CloneSub { x });
        for &y in b {
            for d in DESTS {
                v.push(Edit::Move { x, d, y });
                v.push(Edit::CloneInsert { x, d, y });
            }
        }
    }
    v
}

#[derive(Clone, Debug)]
pub enum Sys {
    /// One edit in one tree.
    One { shape: usize, e: Edit, fl: usize },
    /// The edit followed by each possible second edit.
    Two { shape: usize, e: Edit, fl: usize },
    /// An edit between two trees.
    Pair { a: usize, b: usize, e: Edit, fl: usize, hold: usize },
}

pub struct SysList {
    pub shapes: Vec<Vec<usize>>,
    pub list: Vec<Sys>,
}

impl SysList {
    /// `one`: largest tree for single edits, `two`: for pairs of edits,
    /// `pair`: for edits between two trees.
    pub fn new(one: usize, two: usize, pair: usize) -> Self {
        let mut sh = vec![];
        for n in 1..=one {
            sh.extend(shapes(n));
        }
        let mut list = vec![];
        for (i, s) in sh.iter().enumerate() {
            let ids: Vec<usize> = (0..s.len()).collect();
            for e in all_edits(&ids, &ids) {
                for fl in 0..8 {
                    // Flavours which do not exist are skipped.
                    let f = Fl::from_bits(fl);
                    let skip = match e {
                        Edit::IntParent { .. } | Edit::IntChild { .. } | Edit::Detach { .. } => {
                            f.panicking || f.specific
                        }
                        Edit::Replace { .. } | Edit::Move { .. } => f.specific,
                        Edit::CloneSub { .. } => f.hot || f.specific,
                        _ => false,
                    };
                    if !skip {
                        list.push(Sys::One { shape: i, e, fl });
                    }
                }
                if s.len() <= two {
                    for fl in 0..2 {
                        list.push(Sys::Two { shape: i, e, fl });
                    }
                }
            }
        }
        for (a, sa) in sh.iter().enumerate() {
            for (b, sb) in sh.iter().enumerate() {
                if sa.len() > pair || sb.len() > pair {
                    continue;
                }
                let n = sa.len();
                for x in 0..n {
                    for y in n..n + sb.len() {
                        for d in DESTS {
                            for hold in 0..4 {
                                for fl in 0..4 {
                                    let e = Edit::Move { x, d, y };
                                    list.push(Sys::Pair { a, b, e, fl, hold });
                                    if hold == 0 {
                                        let e = Edit::CloneInsert { x, d, y };
                                        list.push(Sys::Pair { a, b, e, fl, hold });
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        // Spread the kinds evenly over the case indexes.
        let mut r = Rng::new(12345);
        for i in (1..list.len()).rev() {
            list.swap(i, r.below(i + 1));
        }
        SysList { shapes: sh, list }
    }
}

/// What a property wants to be audited and judged.
#[derive(Clone, Debug)]
pub struct Plan {
    pub cfg: Cfg,
    pub prop: u32,
}

/// Configuration of the histories of the property.
pub fn plan(prop: u32, rng: &mut Rng) -> Plan {
    use tag::*;
    let mut cfg = Cfg::default();
    cfg.max_nodes = *rng.pick(&[3, 5, 8, 8, 14, 24]);
    cfg.max_trees = rng.range(1, 5);
    cfg.max_pool = *rng.pick(&[3, 6, 12]);
    match prop {
        1 => {
            cfg.tags = S;
            cfg.audit = S;
            cfg.frozen_pct = 10;
            cfg.w_edit = 70;
            cfg.w_foreign = 0;
        }
        2 => {
            cfg.tags = S | D | EOK | T | CL;
            cfg.audit = S | D;
            cfg.frozen_pct = 5;
            cfg.w_edit = 70;
            cfg.w_foreign = 0;
        }
        3 => {
            cfg.tags = EERR;
            cfg.audit = S | M | W | L | K | D | G;
            cfg.frozen_pct = 5;
            cfg.w_edit = 70;
            cfg.w_foreign = 0;
        }
        4 => {
            cfg.tags = M;
            cfg.audit = M;
            cfg.frozen_pct = 8;
            cfg.w_edit = 60;
            cfg.w_foreign = 0;
        }
        5 => {
            cfg.tags = W | S | D;
            cfg.audit = W | S | D;
            cfg.frozen_pct = 15;
            cfg.w_drop = 25;
            cfg.w_acquire = 20;
            cfg.w_foreign = 0;
            cfg.w_data = 0;
        }
        6 => {
            cfg.tags = L;
            cfg.audit = L;
            cfg.frozen_pct = 15;
            cfg.w_drop = 25;
        }
        7 => {
            cfg.tags = K;
            cfg.audit = K;
            cfg.frozen_pct = 50;
            cfg.w_edit = 14;
            cfg.w_acquire = 26;
            cfg.w_convert = 26;
            cfg.w_drop = 26;
            cfg.w_data = 0;
            cfg.w_foreign = 0;
            cfg.max_nodes = *rng.pick(&[1, 2, 4, 6, 10]);
        }
        _ => {
            cfg.tags = K | G;
            cfg.audit = K | G;
            cfg.frozen_pct = 20;
            cfg.w_edit = 36;
            cfg.w_acquire = 22;
            cfg.w_convert = 18;
            cfg.w_foreign = 12;
            cfg.max_trees = rng.range(2, 5);
            cfg.max_nodes = *rng.pick(&[4, 6, 10, 14]);
            cfg.max_pool = *rng.pick(&[6, 12]);
        }
    }
    Plan { cfg, prop }
}

/// Converts a divergence of another kind to "not this property".
fn off<T>(r: R<T>) -> R<T> {
    match r {
        Err(d) if d.tag & (tag::PANIC | tag::X) == 0 => Err(Div { tag: 0, ..d }),
        r => r,
    }
}
/// Any divergence is one of the property.
fn on<T>(what: &str, r: R<T>) -> R<T> {
    r.map_err(|d| Div {
        tag: tag::X,
        msg: format!("{what}: {} ({})", d.msg, tag::name(d.tag)),
    })
}

/// One edit with the audits that the property asks for.
pub fn checked_edit(w: &mut W<'_>, p: &Plan, e: Edit, fl: Fl) -> R<EditRes> {
    let h = w.edit_hash(e, fl);
    let all = tag::S | tag::M | tag::W | tag::L | tag::K | tag::D | tag::G;
    let refused = w.expect_edit(e).is_err();
    if p.prop == 3 && refused {
        off(w.audit(all))?;
        let r = w.edit(e, fl)?;
        on("after a refused edit", w.audit(all))?;
        if r == EditRes::Refused && w.st.seen(h) {
            w.st.inc(ct::USER1);
        }
        return Ok(r);
    }
    if p.prop == 3 {
        let r = off(w.edit(e, fl))?;
        return Ok(r);
    }
    let r = w.edit(e, fl)?;
    let a = w.cfg.audit;
    w.audit(a)?;
    if r != EditRes::Locked && w.st.seen(h) {
        w.st.inc(ct::USER1);
    }
    Ok(r)
}

fn finish(w: &mut W<'_>, p: &Plan) -> R<()> {
    let a = if p.prop == 3 { 0 } else { p.cfg.audit };
    w.teardown(a)?;
    w.gc();
    if a != 0 {
        w.audit(a)?;
    }
    if p.prop == 5 || p.prop == 6 {
        w.audit(a)?;
        ensure!(w.num_live() == 0, 0, "model: nodes left");
    }
    Ok(())
}

fn extra_handles(w: &mut W<'_>, k: usize) -> R<()> {
    for _ in 0..k {
        let live = w.live_nodes();
        let x = *w.rng.pick(&live);
        w.acquire(x)?;
    }
    Ok(())
}

pub fn run_sys(w: &mut W<'_>, p: &Plan, sl: &SysList, s: &Sys) -> R<()> {
    w.cfg.frozen_pct = if p.prop == 7 { 30 } else { 0 };
    match s {
        Sys::One { shape, e, fl } => {
            w.build_shape(&sl.shapes[*shape])?;
            let k = w.rng.below(4);
            extra_handles(w, k)?;
            checked_edit(w, p, *e, Fl::from_bits(*fl + 8))?;
            finish(w, p)
        }
        Sys::Pair { a, b, e, fl, hold } => {
            w.build_shape(&sl.shapes[*a])?;
            w.build_shape(&sl.shapes[*b])?;
            let x = match e {
                Edit::Move { x, .. } | Edit::CloneInsert { x, .. } => *x,
                _ => 0,
            };
            match hold {
                // A `Tree` handle of the source.
                1 => {
                    let t = w.nodes[x].tree;
                    let h = w.tree(t)?;
                    w.push(H::T(h), t);
                }
                // A hot handle of the moved node.
                2 => {
                    if let Some(h) = w.hot(x)? {
                        w.push(H::Hot(h), x);
                    }
                }
                3 => extra_handles(w, 3)?,
                _ => {}
            }
            checked_edit(w, p, *e, Fl::from_bits(*fl))?;
            // Use the resulting trees once more.
            for _ in 0..2 {
                if let Some((e, fl)) = w.random_edit() {
                    checked_edit(w, p, e, fl)?;
                }
            }
            finish(w, p)
        }
        Sys::Two { .. } => unreachable!(),
    }
}

/// Runs all second edits after the first one; each in a world of its own.
pub fn run_two(st: &mut Stats, p: &Plan, sl: &SysList, s: &Sys, rng: &Rng) -> (R<()>, Vec<String>) {
    let (shape, e, fl) = match s {
        Sys::Two { shape, e, fl } => (*shape, *e, *fl),
        _ => unreachable!(),
    };
    let mut i = 0;
    loop {
        ledger_reset();
        let mut w = W::new(rng.clone(), p.cfg.clone(), st);
        for k in 0..i {
            w.rng.below(k + 1);
        }
        let r = (|| -> R<bool> {
            w.cfg.frozen_pct = 0;
            w.build_shape(&sl.shapes[shape])?;
            let f = Fl::from_bits(fl + 8);
            checked_edit(&mut w, p, e, f)?;
            let live = w.live_nodes();
            let es = all_edits(&live, &live);
            if i >= es.len() {
                return Ok(true);
            }
            let bits = w.rng.below(16);
            checked_edit(&mut w, p, es[i], Fl::from_bits(bits))?;
            w.st.inc(ct::USER2);
            finish(&mut w, p)?;
            Ok(false)
        })();
        match r {
            Ok(true) => return (Ok(()), vec![]),
            Ok(false) => {}
            Err(d) => {
                let t = std::mem::take(&mut w.trace);
                return (Err(d), t);
            }
        }
        i += 1;
    }
}

/// One random history.
pub fn run_random(w: &mut W<'_>, p: &Plan) -> R<()> {
    let len = *w.rng.pick(&[4, 8, 15, 25, 40, 60]);
    let every = *w.rng.pick(&[1, 1, 1, 2, 4]);
    let k = w.rng.range(1, 2);
    for _ in 0..k {
        let kind = w.rng.below(3);
        w.new_tree(kind)?;
    }
    if p.prop == 2 || p.prop == 3 {
        // Sometimes data is mutably borrowed meanwhile.
        if w.rng.chance(1, 3) {
            return run_borrowed(w, p, len);
        }
    }
    for i in 0..len {
        step(w, p, i % every == 0)?;
        let h = w.state_hash();
        w.st.seen(h);
    }
    if p.prop != 3 {
        let a = p.cfg.audit;
        w.audit(a)?;
    }
    finish(w, p)
}

fn step(w: &mut W<'_>, p: &Plan, audit: bool) -> R<()> {
    if p.prop == 3 {
        // Prefer edits which must be refused.
        if w.rng.chance(2, 5) {
            let mut best = None;
            for _ in 0..12 {
                if let Some((e, fl)) = w.random_edit() {
                    if w.expect_edit(e).is_err() {
                        best = Some((e, fl));
                        break;
                    }
                }
            }
            if let Some((e, fl)) = best {
                checked_edit(w, p, e, fl)?;
                return Ok(());
            }
        }
        let op = w.random_op();
        match op {
            Err(d) if d.tag & tag::EERR != 0 => return Err(d),
            r => {
                off(r)?;
            }
        }
        return Ok(());
    }
    if p.prop == 8 {
        // A rejected lock must not change anything.
        let before = w.st.c[ct::FOREIGN];
        let all = tag::S | tag::M | tag::W | tag::L | tag::K | tag::D | tag::G;
        if w.rng.chance(1, 8) {
            off(w.audit(tag::S | tag::M | tag::W | tag::L | tag::D))?;
            w.foreign()?;
            if w.st.c[ct::FOREIGN] > before {
                on("after a foreign lock was rejected", w.audit(all))?;
            }
            return Ok(());
        }
    }
    let r = w.random_op()?;
    if audit && r != OpKind::Nothing {
        let a = p.cfg.audit;
        w.audit(a)?;
    }
    if p.prop == 7 || p.prop == 8 {
        // Distinct lock situations.
        let mut h = 3;
        for t in w.live_trees() {
            let (g, q) = w.locks(t);
            h = hash2(h, (g.min(7) * 8 + q.min(7)) as u64);
        }
        let k = match r {
            OpKind::Edit(e) => e as u64,
            OpKind::Handle => 5,
            OpKind::Drop => 6,
            OpKind::Data => 7,
            OpKind::Foreign => 8,
            OpKind::Nothing => 9,
        };
        if w.st.seen(hash2(h, k)) {
            w.st.inc(ct::USER1);
        }
    }
    Ok(())
}

fn run_borrowed(w: &mut W<'_>, p: &Plan, len: usize) -> R<()> {
    for _ in 0..w.rng.range(2, 12) {
        step(w, p, false)?;
    }
    let live = w.live_nodes();
    if live.is_empty() {
        return Ok(());
    }
    let x = *w.rng.pick(&live);
    // Held for the entire rest of the history.
    let n = w.node(x)?;
    w.pool.push(Ent {
        h: H::Pin,
        t: x,
        pinned: true,
    });
    let guard = match n.try_borrow_data_mut() {
        Ok(g) => g,
        Err(_) => return dv(tag::D, format!("#{x} cannot be borrowed mutably")),
    };
    w.tr(format!("borrow the data of #{x} mutably"));
    w.mut_borrowed.push(x);
    let mut r = Ok(());
    for i in 0..len.min(20) {
        r = step(w, p, i % 2 == 0);
        if r.is_err() {
            break;
        }
    }
    w.mut_borrowed.clear();
    drop(guard);
    w.pool.retain(|e| !e.pinned);
    drop(n);
    w.gc();
    r?;
    w.tr("release the borrow");
    finish(w, p)
}
