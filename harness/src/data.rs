//! C16: borrow discipline of the data, independence of the hierarchy.

use std::cell::{Ref, RefMut};

use dendron::{FrozenNode, HotNode, Node};

use crate::ensure;
use crate::payload::*;
use crate::rng::hash2;
use crate::trav::{big_tree, make_iter, realize};
use crate::world::*;

fn off<T>(r: R<T>) -> R<T> {
    match r {
        Err(d) if d.tag & (tag::PANIC | tag::X) == 0 => Err(Div { tag: 0, ..d }),
        r => r,
    }
}

/// A handle through which data is borrowed.
enum Holder {
    N(Node<P>),
    H(HotNode<P>),
    F(FrozenNode<P>),
}
impl Holder {
    fn kind(&self) -> &'static str {
        match self {
            Holder::N(_) => "plain",
            Holder::H(_) => "hot",
            Holder::F(_) => "frozen",
        }
    }
    fn try_ref(&self) -> Option<Ref<'_, P>> {
        match self {
            Holder::N(n) => n.try_borrow_data().ok(),
            Holder::H(n) => n.try_borrow_data().ok(),
            Holder::F(n) => n.try_borrow_data().ok(),
        }
    }
    fn try_mut(&self) -> Option<RefMut<'_, P>> {
        match self {
            Holder::N(n) => n.try_borrow_data_mut().ok(),
            Holder::H(n) => n.try_borrow_data_mut().ok(),
            Holder::F(n) => n.try_borrow_data_mut().ok(),
        }
    }
    fn get_ref(&self) -> Ref<'_, P> {
        match self {
            Holder::N(n) => n.borrow_data(),
            Holder::H(n) => n.borrow_data(),
            Holder::F(n) => n.borrow_data(),
        }
    }
    fn get_mut(&self) -> RefMut<'_, P> {
        match self {
            Holder::N(n) => n.borrow_data_mut(),
            Holder::H(n) => n.borrow_data_mut(),
            Holder::F(n) => n.borrow_data_mut(),
        }
    }
}

/// Takes a handle of the node for use as a holder and tells the model.
fn holder(w: &mut W<'_>, x: usize) -> R<Holder> {
    let h = match w.rng.below(4) {
        0 => match w.hot(x)? {
            Some(h) => {
                // The pooled clone represents the lock of the holder.
                w.pool.push(Ent {
                    h: H::Hot(h.clone()),
                    t: x,
                    pinned: true,
                });
                Holder::H(h)
            }
            None => Holder::N(w.node(x)?),
        },
        1 => match w.frozen(x)? {
            Some(h) => {
                w.pool.push(Ent {
                    h: H::Fz(h.clone()),
                    t: x,
                    pinned: true,
                });
                Holder::F(h)
            }
            None => Holder::N(w.node(x)?),
        },
        _ => Holder::N(w.node(x)?),
    };
    if let Holder::N(_) = &h {
        w.pin(x);
    }
    Ok(h)
}

/// Checks what every kind of handle of the node answers about borrowing.
fn probe_borrow(w: &mut W<'_>, x: usize, shared: usize, excl: bool, val: i64) -> R<()> {
    let n = w.node(x)?;
    let mut hs = vec![Holder::N(n.clone()), Holder::N(n)];
    if w.rng.bool() {
        if let Some(h) = off(w.hot(x))? {
            hs.push(Holder::H(h));
        }
    } else if let Some(h) = off(w.frozen(x))? {
        hs.push(Holder::F(h));
    }
    for h in &hs {
        let k = h.kind();
        let r = h.try_ref();
        ensure!(
            r.is_some() == !excl,
            tag::X,
            "{k} #{x} with {shared} shared and {} exclusive borrows: try_borrow_data succeeds: {}",
            excl as usize,
            r.is_some()
        );
        if let Some(d) = &r {
            ensure!(
                d.val == val && *d.heap == val && d.inst == w.nodes[x].inst,
                tag::X,
                "{k} #{x}: the data reads {} (instance {}), expected {val} (instance {})",
                d.val,
                d.inst,
                w.nodes[x].inst
            );
            // A second shared borrow on top, and no exclusive one.
            for h2 in &hs {
                ensure!(
                    h2.try_ref().is_some() && h2.try_mut().is_none(),
                    tag::X,
                    "{} #{x} does not respect a shared borrow through {k}",
                    h2.kind()
                );
            }
        }
        drop(r);
        let free = shared == 0 && !excl;
        let m = h.try_mut();
        ensure!(
            m.is_some() == free,
            tag::X,
            "{k} #{x} with {shared} shared and {} exclusive borrows: try_borrow_data_mut succeeds: {}",
            excl as usize,
            m.is_some()
        );
        if m.is_some() {
            for h2 in &hs {
                ensure!(
                    h2.try_ref().is_none() && h2.try_mut().is_none(),
                    tag::X,
                    "{} #{x} does not respect an exclusive borrow through {k}",
                    h2.kind()
                );
            }
        }
        drop(m);
        // The panicking forms agree.
        let p = catch(|| drop(h.get_ref()));
        ensure!(
            p.is_ok() == !excl,
            tag::X,
            "{k} #{x}: borrow_data panics: {}, exclusively borrowed: {excl}",
            p.is_err()
        );
        let p = catch(|| drop(h.get_mut()));
        ensure!(
            p.is_ok() == free,
            tag::X,
            "{k} #{x}: borrow_data_mut panics: {}, {shared} shared, exclusive: {excl}",
            p.is_err()
        );
        w.st.add(ct::USER1, 4);
    }
    Ok(())
}

/// Operations that need no data: traversals of all kinds.
fn traverse(w: &mut W<'_>) -> R<()> {
    let live = w.live_nodes();
    let x = *w.rng.pick(&live);
    let k = w.rng.below(21);
    // Serialisation clones the data.
    if k == 15 {
        return Ok(());
    }
    let before = touches();
    let (mut it, want) = match off(make_iter(w, x, Some(k)))? {
        Some(v) => v,
        None => return Ok(()),
    };
    let mut n = 0;
    let max = want.len();
    while n <= max {
        it.size_hint();
        it.peek(w)?;
        match it.next(w)? {
            Some(_) => n += 1,
            None => break,
        }
    }
    ensure!(
        n == max,
        tag::X,
        "{} at #{x} returned {n} of {max} items while data is borrowed",
        it.name()
    );
    ensure!(
        touches() == before,
        tag::X,
        "{} at #{x} cloned, compared or formatted data",
        it.name()
    );
    w.st.inc(ct::USER2);
    Ok(())
}

pub fn case_c16(w: &mut W<'_>) -> R<()> {
    if w.rng.chance(1, 4) {
        let n = *w.rng.pick(&[3, 6, 12]);
        off(big_tree(w, n))?;
    } else {
        let n = w.rng.range(1, 20);
        off(realize(w, n))?;
    }
    let live = w.live_nodes();
    if live.is_empty() {
        return Ok(());
    }
    // Which nodes are borrowed, and how.
    let style = w.rng.below(4);
    let mut plan: Vec<(usize, Holder)> = vec![];
    let mut chosen = vec![];
    match style {
        0 => chosen.extend(&live),
        1 => chosen.push(*w.rng.pick(&live)),
        _ => {
            for _ in 0..w.rng.range(1, 4) {
                chosen.push(*w.rng.pick(&live));
            }
        }
    }
    chosen.truncate(16);
    for &x in &chosen {
        let h = off(holder(w, x))?;
        plan.push((x, h));
    }
    // Borrows (several of one node are attempted on purpose).
    let mut shared: Vec<(usize, Ref<'_, P>)> = vec![];
    let mut excl: Vec<(usize, RefMut<'_, P>)> = vec![];
    let all_excl = style == 0 && w.rng.bool();
    for (x, h) in &plan {
        let s = shared.iter().filter(|(y, _)| y == x).count();
        let e = excl.iter().any(|(y, _)| y == x);
        if all_excl || w.rng.bool() {
            let r = h.try_mut();
            ensure!(
                r.is_some() == (s == 0 && !e),
                tag::X,
                "{} #{x} with {s} shared borrows, exclusive {e}: an exclusive borrow succeeds: {}",
                h.kind(),
                r.is_some()
            );
            if let Some(r) = r {
                w.mut_borrowed.push(*x);
                w.tr(format!("borrow #{x} exclusively ({})", h.kind()));
                excl.push((*x, r));
            }
        } else {
            let r = h.try_ref();
            ensure!(
                r.is_some() == !e,
                tag::X,
                "{} #{x} with {s} shared borrows, exclusive {e}: a shared borrow succeeds: {}",
                h.kind(),
                r.is_some()
            );
            if let Some(r) = r {
                w.tr(format!("borrow #{x} shared ({})", h.kind()));
                shared.push((*x, r));
            }
        }
    }
    // Whatever happens to the hierarchy, the borrows do not matter.
    let w_data = std::mem::replace(&mut w.cfg.w_data, 0);
    let n = w.rng.range(2, 25);
    for i in 0..n {
        match w.rng.below(8) {
            0 => traverse(w)?,
            1 => {
                let live = w.live_nodes();
                let x = *w.rng.pick(&live);
                let s = shared.iter().filter(|(y, _)| *y == x).count();
                let e = excl.iter().position(|(y, _)| *y == x);
                if e.is_none() {
                    let v = w.nodes[x].val;
                    probe_borrow(w, x, s, false, v)?;
                } else {
                    probe_borrow(w, x, s, true, 0)?;
                }
            }
            2 if !excl.is_empty() => {
                // Writes go to the one value of the node.
                let k = w.rng.below(excl.len());
                let v = w.fresh();
                let x = excl[k].0;
                ensure!(
                    excl[k].1.inst == w.nodes[x].inst && excl[k].1.val == w.nodes[x].val,
                    tag::X,
                    "the exclusively borrowed data of #{x} was exchanged or modified"
                );
                excl[k].1.set(v);
                w.nodes[x].val = v;
                w.tr(format!("write {v} to #{x} through the borrow"));
                w.st.inc(ct::USER3);
            }
            _ => {
                let before = touches();
                let k = w.random_op();
                let after = touches();
                // Clones may touch the data, and are checked by `edit`.
                let k = k?;
                if !matches!(k, OpKind::Edit(_)) {
                    ensure!(
                        after == before,
                        tag::T,
                        "an operation cloned, compared or formatted data"
                    );
                }
            }
        }
        if i % 3 == 0 {
            w.audit(tag::D)?;
        }
        // The borrowed values never change behind our back.
        for (x, d) in &shared {
            ensure!(
                d.inst == w.nodes[*x].inst && d.val == w.nodes[*x].val && *d.heap == d.val,
                tag::X,
                "the data of #{x} changed while a shared borrow exists"
            );
        }
        for (x, d) in &excl {
            ensure!(
                d.inst == w.nodes[*x].inst && d.val == w.nodes[*x].val && *d.heap == d.val,
                tag::X,
                "the data of #{x} changed while an exclusive borrow exists"
            );
        }
        if let Some(m) = ledger_misuse() {
            return dv(tag::X, m);
        }
        let mut h = w.state_hash();
        for (x, _) in &excl {
            let root = w.trees[w.nodes[*x].tree].root;
            let i = w.subtree(root).iter().position(|n| n == x).unwrap_or(99);
            h = hash2(h, i as u64);
        }
        w.st.seen(h);
    }
    w.cfg.w_data = w_data;
    // Release one by one.
    while !excl.is_empty() || !shared.is_empty() {
        let k = w.rng.below(excl.len() + shared.len());
        let x = if k < excl.len() {
            let (x, g) = excl.swap_remove(k);
            drop(g);
            w.mut_borrowed.retain(|y| *y != x);
            x
        } else {
            let (x, g) = shared.swap_remove(k - excl.len());
            drop(g);
            x
        };
        let s = shared.iter().filter(|(y, _)| *y == x).count();
        let e = excl.iter().any(|(y, _)| *y == x);
        let v = w.nodes[x].val;
        probe_borrow(w, x, s, e, v)?;
    }
    drop(shared);
    drop(excl);
    for (x, h) in &plan {
        let v = w.fresh();
        {
            let mut d = h.get_mut();
            d.set(v);
        }
        w.nodes[*x].val = v;
        probe_borrow(w, *x, 0, false, v)?;
    }
    w.audit(tag::D)?;
    drop(plan);
    w.unpin();
    w.audit(tag::D)?;
    Ok(())
}
