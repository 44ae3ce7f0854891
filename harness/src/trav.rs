//! Monitors of the traversals (C09, C10, C11) and of traversals over trees
//! which are being edited (C20).

use std::collections::VecDeque;

use dendron::serial::Event;
use dendron::traverse::*;
use dendron::{FrozenNode, HotNode, Node};

use crate::ensure;
use crate::nav::Nav;
use crate::payload::*;
use crate::rng::hash2;
use crate::world::*;

/// Normalised item: (kind, node, depth); kind 0 = plain item, 1 = open, 2 = close.
pub type Item = (u8, usize, usize);

fn ev_item<N: Nav>(w: &W<'_>, e: &DftEvent<N>) -> R<Item> {
    Ok(match e {
        DftEvent::Open(n) => (1, w.ident(&n.pl())?, 0),
        DftEvent::Close(n) => (2, w.ident(&n.pl())?, 0),
    })
}
fn evd_item(w: &W<'_>, e: &DftEvent<(FrozenNode<P>, usize)>) -> R<Item> {
    Ok(match e {
        DftEvent::Open((n, d)) => (1, w.ident(&n.plain())?, *d),
        DftEvent::Close((n, d)) => (2, w.ident(&n.plain())?, *d),
    })
}

/// Expected depth-first events of the subtree, limited to the depth.
pub fn events(w: &W<'_>, x: usize, max: usize) -> Vec<Item> {
    let mut out = vec![];
    let mut stack = vec![(x, 0, false)];
    while let Some((n, d, close)) = stack.pop() {
        if close {
            out.push((2, n, d));
            continue;
        }
        out.push((1, n, d));
        stack.push((n, d, true));
        if d < max {
            for c in w.nodes[n].children.iter().rev() {
                stack.push((*c, d + 1, false));
            }
        }
    }
    out
}
fn nodepth(v: &[Item]) -> Vec<Item> {
    v.iter().map(|(k, n, _)| (*k, *n, 0)).collect()
}

fn fmt_items(v: &[Item]) -> String {
    let s: Vec<String> = v
        .iter()
        .take(60)
        .map(|(k, n, d)| match k {
            1 => format!("<{n}@{d}"),
            2 => format!("{n}@{d}>"),
            _ => format!("{n}@{d}"),
        })
        .collect();
    s.join(" ")
}

fn expect_seq(what: &str, got: &[Item], want: &[Item]) -> R<()> {
    ensure!(
        got == want,
        tag::V,
        "{what}: got [{}], expected [{}]",
        fmt_items(got),
        fmt_items(want)
    );
    Ok(())
}

/// Drains the iterator (bounded), and checks that it stays finished.
fn drain<I: Iterator>(
    w: &mut W<'_>,
    what: &str,
    mut it: I,
    bound: usize,
    mut f: impl FnMut(&W<'_>, I::Item) -> R<Item>,
) -> R<Vec<Item>> {
    let mut out = vec![];
    while let Some(v) = it.next() {
        out.push(f(w, v)?);
        ensure!(
            out.len() <= bound,
            tag::V,
            "{what} returned more than the {bound} expected items: [{}]",
            fmt_items(&out)
        );
    }
    for _ in 0..2 {
        ensure!(
            it.next().is_none(),
            tag::V,
            "{what} returned an item after it had finished"
        );
    }
    w.st.add(ct::ITEMS, out.len());
    Ok(out)
}

fn dft_probe<N: Nav>(w: &mut W<'_>, n: &N, x: usize) -> R<()> {
    let want = nodepth(&events(w, x, usize::MAX));
    let b = want.len();
    let k = N::KIND;
    let got = drain(w, "depth_first_traverse", n.dft_(), b, |w, e| ev_item(w, &e))?;
    expect_seq(&format!("{k} #{x}: depth_first_traverse"), &got, &want)?;
    let rev: Vec<Item> = want.iter().rev().copied().collect();
    let got = drain(w, "depth_first_reverse_traverse", n.rdft_(), b, |w, e| {
        ev_item(w, &e)
    })?;
    expect_seq(
        &format!("{k} #{x}: depth_first_reverse_traverse"),
        &got,
        &rev,
    )?;
    Ok(())
}

/// Index of the close of the innermost node open after event `i`, if any.
fn close_index(want: &[Item], from: usize) -> Option<usize> {
    let mut depth = 0;
    for (j, e) in want.iter().enumerate().skip(from) {
        if e.0 == 1 {
            depth += 1;
        } else if depth == 0 {
            return Some(j);
        } else {
            depth -= 1;
        }
    }
    None
}

macro_rules! event_probe {
    ($fname:ident, $ty:ident, $mk:expr) => {
        /// Single-event stepping over the entire tree.
        fn $fname(w: &mut W<'_>, root: usize) -> R<()> {
            let want = nodepth(&events(w, root, usize::MAX));
            let mk: fn(&mut W<'_>, usize) -> R<Option<$ty<P>>> = $mk;
            for i in 0..want.len() {
                let (k, n, _) = want[i];
                let h = match mk(w, n)? {
                    Some(h) => h,
                    None => return Ok(()),
                };
                let e: DftEvent<$ty<P>> = if k == 1 {
                    DftEvent::Open(h)
                } else {
                    DftEvent::Close(h)
                };
                let next = match e.next() {
                    Some(e) => Some(ev_item(w, &e)?),
                    None => None,
                };
                ensure!(
                    next == want.get(i + 1).copied(),
                    tag::V,
                    "next event of {:?} is {next:?}, expected {:?}",
                    want[i],
                    want.get(i + 1)
                );
                let prev = match e.prev() {
                    Some(e) => Some(ev_item(w, &e)?),
                    None => None,
                };
                let pw = if i > 0 { Some(want[i - 1]) } else { None };
                ensure!(
                    prev == pw,
                    tag::V,
                    "previous event of {:?} is {prev:?}, expected {pw:?}",
                    want[i]
                );
                let cc = match e.close_current() {
                    Some(n) => Some(w.ident(&n.pl())?),
                    None => None,
                };
                let cw = close_index(&want, i + 1).map(|j| want[j].1);
                ensure!(
                    cc == cw,
                    tag::V,
                    "close_current of {:?} is {cc:?}, expected {cw:?}",
                    want[i]
                );
                // The accessors of an event speak of its node and its kind.
                let node = e.as_value().pl();
                let (o, c) = (e.clone().into_open(), e.clone().into_close());
                ensure!(
                    o.is_some() == (k == 1)
                        && c.is_some() == (k == 2)
                        && o.iter().chain(&c).all(|x| x.pl().ptr_eq(&node)),
                    tag::V,
                    "into_open/into_close of {:?} do not fit",
                    want[i]
                );
                let o = w.rng.below(want.len());
                let other = w.node(want[o].1)?;
                let mut m = e.clone().map(|x| x.pl());
                let same = matches!(m, DftEvent::Open(_)) == (k == 1)
                    && m.as_value().ptr_eq(&node)
                    && e.clone().into_value().pl().ptr_eq(&node);
                *m.as_value_mut() = other.clone();
                ensure!(
                    same
                        && matches!(m, DftEvent::Open(_)) == (k == 1)
                        && m.as_value().ptr_eq(&other),
                    tag::V,
                    "map/into_value/as_value_mut of {:?} do not fit",
                    want[i]
                );
                w.st.add(ct::ITEMS, 3);
            }
            Ok(())
        }
    };
}
event_probe!(events_plain, Node, |w, x| w.node(x).map(Some));
event_probe!(events_hot, HotNode, |w, x| w.hot(x));
event_probe!(events_frozen, FrozenNode, |w, x| w.frozen(x));

fn mk_event<N: Nav>(k: u8, n: N) -> DftEvent<N> {
    if k == 1 {
        DftEvent::Open(n)
    } else {
        DftEvent::Close(n)
    }
}

/// All depth-first probes for the subtree of `x`.
pub fn probe_c09(w: &mut W<'_>, x: usize) -> R<()> {
    let n = w.node(x)?;
    dft_probe(w, &n, x)?;
    if let Some(h) = w.hot(x)? {
        dft_probe(w, &h, x)?;
    }
    let full = events(w, x, usize::MAX);
    let want = nodepth(&full);
    let len = want.len();
    // From the given events.
    for i in 0..len {
        let start = w.node(want[i].1)?;
        let it = DepthFirstTraverser::with_next_event(n.clone(), Some(mk_event(want[i].0, start)));
        let got = drain(w, "with_next_event", it, len - i, |w, e| ev_item(w, &e))?;
        expect_seq(
            &format!("#{x}: DepthFirstTraverser from event {i}"),
            &got,
            &want[i..],
        )?;
        let start = w.node(want[i].1)?;
        let it = ReverseDepthFirstTraverser::with_next_event(
            n.clone(),
            Some(mk_event(want[i].0, start)),
        );
        let got = drain(w, "reverse with_next_event", it, i + 1, |w, e| ev_item(w, &e))?;
        let rw: Vec<Item> = want[..=i].iter().rev().copied().collect();
        expect_seq(
            &format!("#{x}: ReverseDepthFirstTraverser from event {i}"),
            &got,
            &rw,
        )?;
        // Skipping to the close from here.
        let mut it = n.depth_first_traverse();
        for _ in 0..i {
            it.next();
        }
        let c = match it.close_current() {
            Some(n) => Some(w.ident(&n)?),
            None => None,
        };
        let j = close_index(&want, i);
        ensure!(
            c == j.map(|j| want[j].1),
            tag::V,
            "#{x}: close_current after {i} events returned {c:?}, expected {:?}",
            j.map(|j| want[j].1)
        );
        let rest = drain(w, "after close_current", it, len, |w, e| ev_item(w, &e))?;
        let from = j.map_or(len, |j| j + 1);
        expect_seq(
            &format!("#{x}: rest after close_current at {i}"),
            &rest,
            &want[from..],
        )?;
    }
    ensure!(
        DepthFirstTraverser::<P>::with_start(None).next().is_none()
            && ReverseDepthFirstTraverser::<P>::with_start(None).next().is_none()
            && DepthFirstTraverser::with_next_event(n.clone(), None).next().is_none()
            && StableDepthFirstTraverser::<P>::with_toplevel(None).next().is_none()
            && StableShallowDepthFirstTraverser::<P>::with_toplevel(None, Some(1))
                .next()
                .is_none(),
        tag::V,
        "a traverser without a start returns something"
    );
    let got = drain(
        w,
        "with_start",
        DepthFirstTraverser::with_start(Some(n.clone())),
        len,
        |w, e| ev_item(w, &e),
    )?;
    expect_seq(&format!("#{x}: DepthFirstTraverser::with_start"), &got, &want)?;
    let rev: Vec<Item> = want.iter().rev().copied().collect();
    let got = drain(
        w,
        "reverse with_start",
        ReverseDepthFirstTraverser::with_start(Some(n.clone())),
        len,
        |w, e| ev_item(w, &e),
    )?;
    expect_seq(
        &format!("#{x}: ReverseDepthFirstTraverser::with_start"),
        &got,
        &rev,
    )?;
    // Stable ones.
    if let Some(f) = w.frozen(x)? {
        dft_probe(w, &f, x)?;
        let got = drain(w, "stable", f.depth_first_traverse_stable(), len, |w, e| {
            ev_item(w, &e)
        })?;
        expect_seq(&format!("#{x}: depth_first_traverse_stable"), &got, &want)?;
        let got = drain(
            w,
            "stable reversed",
            f.depth_first_traverse_stable().rev(),
            len,
            |w, e| ev_item(w, &e),
        )?;
        expect_seq(
            &format!("#{x}: depth_first_traverse_stable reversed"),
            &got,
            &rev,
        )?;
        for max in [
            None,
            Some(0),
            Some(1),
            Some(2),
            Some(3),
            Some(w.rng.range(4, 9)),
            Some(w.rng.edge()),
            Some(usize::MAX - 1),
            Some(usize::MAX),
        ] {
            let lim = events(w, x, max.unwrap_or(usize::MAX));
            let it = f.shallow_depth_first_traverse_stable(max);
            let md = it.max_depth();
            ensure!(
                md == max.unwrap_or(usize::MAX),
                tag::V,
                "max_depth() of a traverser limited to {max:?} is {md}"
            );
            let got = drain(w, "shallow", it.clone(), lim.len(), |w, e| evd_item(w, &e))?;
            expect_seq(
                &format!("#{x}: shallow_depth_first_traverse_stable({max:?})"),
                &got,
                &lim,
            )?;
            let got = drain(w, "shallow reversed", it.clone().rev(), lim.len(), |w, e| {
                evd_item(w, &e)
            })?;
            let rlim: Vec<Item> = lim.iter().rev().copied().collect();
            expect_seq(
                &format!("#{x}: shallow_depth_first_traverse_stable({max:?}) reversed"),
                &got,
                &rlim,
            )?;
            // Skipping to the close.
            let i = w.rng.below(lim.len());
            let mut it2 = it;
            for _ in 0..i {
                it2.next();
            }
            let c = match it2.close_current() {
                Some((n, d)) => Some((w.ident(&n.plain())?, d)),
                None => None,
            };
            let j = close_index(&lim, i);
            ensure!(
                c == j.map(|j| (lim[j].1, lim[j].2)),
                tag::V,
                "#{x}: shallow({max:?}) close_current after {i} events: {c:?}, expected {:?}",
                j.map(|j| (lim[j].1, lim[j].2))
            );
            let rest = drain(w, "rest", it2, lim.len(), |w, e| evd_item(w, &e))?;
            expect_seq(
                &format!("#{x}: shallow({max:?}) rest after close_current at {i}"),
                &rest,
                &lim[j.map_or(lim.len(), |j| j + 1)..],
            )?;
        }
        // Between the given events.
        for _ in 0..3 {
            let i = w.rng.below(len);
            let j = w.rng.range(i, len - 1);
            let (a, b) = (w.frozen(want[i].1)?, w.frozen(want[j].1)?);
            if let (Some(a), Some(b)) = (a, b) {
                let it = StableDepthFirstTraverser::with_first_last_event(
                    mk_event(want[i].0, a),
                    mk_event(want[j].0, b),
                );
                let got = drain(w, "between", it.clone(), j - i + 1, |w, e| ev_item(w, &e))?;
                expect_seq(
                    &format!("#{x}: stable traverser from event {i} to {j}"),
                    &got,
                    &want[i..=j],
                )?;
                let got = drain(w, "between reversed", it.rev(), j - i + 1, |w, e| {
                    ev_item(w, &e)
                })?;
                let rw: Vec<Item> = want[i..=j].iter().rev().copied().collect();
                expect_seq(
                    &format!("#{x}: reversed stable traverser from event {i} to {j}"),
                    &got,
                    &rw,
                )?;
            }
        }
    }
    Ok(())
}

/// Single-event stepping through all nodes of the tree, by all node types.
pub fn probe_c09_events(w: &mut W<'_>, t: usize) -> R<()> {
    let root = w.trees[t].root;
    events_plain(w, root)?;
    events_hot(w, root)?;
    events_frozen(w, root)
}

fn ids(v: &[usize]) -> Vec<Item> {
    v.iter().map(|n| (0, *n, 0)).collect()
}
fn rids(v: &[usize]) -> Vec<Item> {
    v.iter().rev().map(|n| (0, *n, 0)).collect()
}

fn sib_probe<N: Nav>(w: &mut W<'_>, n: &N, x: usize) -> R<()> {
    let sibs = w.siblings(x);
    let p = w.pos(x);
    let ch = w.nodes[x].children.clone();
    let mut anc = vec![];
    let mut c = w.nodes[x].parent;
    while let Some(q) = c {
        anc.push(q);
        c = w.nodes[q].parent;
    }
    let mut anc_self = vec![x];
    anc_self.extend(&anc);
    let k = N::KIND;
    macro_rules! chk {
        ($it:expr, $want:expr, $what:expr) => {{
            let want: Vec<Item> = $want;
            let it = $it;
            // Peeking shows the first item.
            let pk = match it.peek() {
                Some(n) => Some((0, w.ident(n)?, 0)),
                None => None,
            };
            ensure!(
                pk == want.first().copied(),
                tag::V,
                "{k} #{x}: {} peeks at {pk:?}, expected {:?}",
                $what,
                want.first()
            );
            let got = drain(w, $what, it, want.len(), |w, n| Ok((0, w.ident(&n)?, 0)))?;
            expect_seq(&format!("{k} #{x}: {}", $what), &got, &want)?;
        }};
    }
    chk!(n.t_children(), ids(&ch), "children");
    chk!(n.t_children_rev(), rids(&ch), "children_reverse");
    chk!(n.t_siblings(), ids(&sibs), "siblings");
    chk!(n.t_siblings_rev(), rids(&sibs), "siblings_reverse");
    chk!(
        n.t_prec_self_rev(),
        rids(&sibs[..=p]),
        "preceding_siblings_or_self_reverse"
    );
    chk!(n.t_prec_rev(), rids(&sibs[..p]), "preceding_siblings_reverse");
    chk!(n.t_foll_self(), ids(&sibs[p..]), "following_siblings_or_self");
    chk!(n.t_foll(), ids(&sibs[p + 1..]), "following_siblings");
    chk!(n.t_ancestors(), ids(&anc), "ancestors");
    chk!(n.t_ancestors_or_self(), ids(&anc_self), "ancestors_or_self");
    chk!(
        SiblingsTraverser::new(Some(n.pl())),
        ids(&sibs[p..]),
        "SiblingsTraverser::new"
    );
    chk!(
        ReverseSiblingsTraverser::new(Some(n.pl())),
        rids(&sibs[..=p]),
        "ReverseSiblingsTraverser::new"
    );
    chk!(
        AncestorsTraverser::new(Some(n.pl())),
        ids(&anc_self),
        "AncestorsTraverser::new"
    );
    chk!(SiblingsTraverser::<P>::new(None), vec![], "empty siblings");
    chk!(
        ReverseSiblingsTraverser::<P>::new(None),
        vec![],
        "empty reverse siblings"
    );
    chk!(AncestorsTraverser::<P>::new(None), vec![], "empty ancestors");
    Ok(())
}

/// Expected breadth-first items.
fn bfs(w: &W<'_>, x: usize, start: usize) -> Vec<Item> {
    let mut out = vec![];
    let mut level = vec![x];
    let mut d = 0;
    while !level.is_empty() {
        if d >= start {
            out.extend(level.iter().map(|n| (0, *n, d)));
        }
        level = level
            .iter()
            .flat_map(|n| w.nodes[*n].children.iter().copied())
            .collect();
        d += 1;
    }
    out
}

pub fn probe_c10(w: &mut W<'_>, x: usize) -> R<()> {
    let n = w.node(x)?;
    sib_probe(w, &n, x)?;
    if let Some(h) = w.hot(x)? {
        sib_probe(w, &h, x)?;
    }
    let f = match w.frozen(x)? {
        Some(f) => f,
        None => return Ok(()),
    };
    sib_probe(w, &f, x)?;
    let sibs = w.siblings(x);
    let p = w.pos(x);
    let ch = w.nodes[x].children.clone();
    macro_rules! chk {
        ($it:expr, $want:expr, $what:expr) => {{
            let want: Vec<Item> = ids($want);
            let got = drain(w, $what, $it, want.len(), |w, n| {
                Ok((0, w.ident(&n.plain())?, 0))
            })?;
            expect_seq(&format!("frozen #{x}: {}", $what), &got, &want)?;
            let want: Vec<Item> = rids($want);
            let got = drain(w, $what, $it.rev(), want.len(), |w, n| {
                Ok((0, w.ident(&n.plain())?, 0))
            })?;
            expect_seq(&format!("frozen #{x}: {} reversed", $what), &got, &want)?;
            // From both ends alternately.
            let mut it = $it;
            let mut front = vec![];
            let mut back = vec![];
            for i in 0..=want.len() {
                let a = if i % 2 == 0 { it.next() } else { it.next_back() };
                match a {
                    Some(n) => {
                        let id = w.ident(&n.plain())?;
                        if i % 2 == 0 {
                            front.push(id)
                        } else {
                            back.push(id)
                        }
                    }
                    None => break,
                }
            }
            back.reverse();
            front.extend(back);
            expect_seq(
                &format!("frozen #{x}: {} from both ends", $what),
                &ids(&front),
                &ids($want),
            )?;
        }};
    }
    chk!(f.children_stable(), &ch, "children_stable");
    chk!(f.siblings_stable(), &sibs, "siblings_stable");
    chk!(
        f.preceding_siblings_or_self_stable(),
        &sibs[..=p],
        "preceding_siblings_or_self_stable"
    );
    chk!(
        f.preceding_siblings_stable(),
        &sibs[..p],
        "preceding_siblings_stable"
    );
    chk!(
        f.following_siblings_or_self_stable(),
        &sibs[p..],
        "following_siblings_or_self_stable"
    );
    chk!(
        f.following_siblings_stable(),
        &sibs[p + 1..],
        "following_siblings_stable"
    );
    chk!(
        StableSiblingsTraverser::with_parent(Some(f.clone())),
        &ch,
        "StableSiblingsTraverser::with_parent"
    );
    chk!(
        StableSiblingsTraverser::<P>::with_parent(None),
        &[],
        "StableSiblingsTraverser::with_parent(None)"
    );
    let deep = w.rng.range(4, 9);
    let edge = w.rng.edge();
    for start in [0, 1, 2, 3, deep, edge, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
        let want = bfs(w, x, start);
        let it = f.allocating_breadth_first_traverse_stable(start);
        let got = drain(w, "allocating bft", it, want.len(), |w, (n, d)| {
            Ok((0, w.ident(&n.plain())?, d))
        })?;
        expect_seq(
            &format!("#{x}: allocating_breadth_first_traverse_stable({start})"),
            &got,
            &want,
        )?;
        let it = AllocatingBreadthFirstTraverser::with_toplevel(f.clone(), start);
        let got = drain(w, "allocating bft", it, want.len(), |w, (n, d)| {
            Ok((0, w.ident(&n.plain())?, d))
        })?;
        expect_seq(
            &format!("#{x}: AllocatingBreadthFirstTraverser({start})"),
            &got,
            &want,
        )?;
        let before = total_allocs();
        let mut it = f.non_allocating_breadth_first_traverse_stable(start);
        let mut allocated = total_allocs() - before;
        let mut got = vec![];
        loop {
            let before = total_allocs();
            let v = it.next();
            allocated += total_allocs() - before;
            match v {
                Some((n, d)) => got.push((0, w.ident(&n.plain())?, d)),
                None => break,
            }
            ensure!(
                got.len() <= want.len(),
                tag::V,
                "#{x}: non-allocating breadth-first traversal from depth {start} returned too many items: {}",
                fmt_items(&got)
            );
        }
        ensure!(
            it.next().is_none() && it.next().is_none(),
            tag::V,
            "breadth-first traverser returned an item after it had finished"
        );
        w.st.add(ct::ITEMS, got.len());
        expect_seq(
            &format!("#{x}: non_allocating_breadth_first_traverse_stable({start})"),
            &got,
            &want,
        )?;
        ensure!(
            allocated == 0,
            tag::V,
            "#{x}: the non-allocating breadth-first traverser made {allocated} allocations"
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

/// A uniform view of all iterators of the crate.
pub enum AnyIt {
    Dft(DepthFirstTraverser<P>),
    Rdft(ReverseDepthFirstTraverser<P>),
    SDft(StableDepthFirstTraverser<P>),
    Shallow(StableShallowDepthFirstTraverser<P>),
    Sib(SiblingsTraverser<P>),
    RSib(ReverseSiblingsTraverser<P>),
    SSib(StableSiblingsTraverser<P>),
    Anc(AncestorsTraverser<P>),
    NBft(NonAllocatingBreadthFirstTraverser<P>),
    ABft(AllocatingBreadthFirstTraverser<P>),
    Ser(dendron::serial::TreeSerializeIter<P>),
}

macro_rules! each {
    ($s:expr, $i:ident => $e:expr) => {
        match $s {
            AnyIt::Dft($i) => $e,
            AnyIt::Rdft($i) => $e,
            AnyIt::SDft($i) => $e,
            AnyIt::Shallow($i) => $e,
            AnyIt::Sib($i) => $e,
            AnyIt::RSib($i) => $e,
            AnyIt::SSib($i) => $e,
            AnyIt::Anc($i) => $e,
            AnyIt::NBft($i) => $e,
            AnyIt::ABft($i) => $e,
            AnyIt::Ser($i) => $e,
        }
    };
}

impl AnyIt {
    pub fn name(&self) -> &'static str {
        match self {
            AnyIt::Dft(_) => "DepthFirstTraverser",
            AnyIt::Rdft(_) => "ReverseDepthFirstTraverser",
            AnyIt::SDft(_) => "StableDepthFirstTraverser",
            AnyIt::Shallow(_) => "StableShallowDepthFirstTraverser",
            AnyIt::Sib(_) => "SiblingsTraverser",
            AnyIt::RSib(_) => "ReverseSiblingsTraverser",
            AnyIt::SSib(_) => "StableSiblingsTraverser",
            AnyIt::Anc(_) => "AncestorsTraverser",
            AnyIt::NBft(_) => "NonAllocatingBreadthFirstTraverser",
            AnyIt::ABft(_) => "AllocatingBreadthFirstTraverser",
            AnyIt::Ser(_) => "TreeSerializeIter",
        }
    }
    fn dup(&self) -> AnyIt {
        match self {
            AnyIt::Dft(i) => AnyIt::Dft(i.clone()),
            AnyIt::Rdft(i) => AnyIt::Rdft(i.clone()),
            AnyIt::SDft(i) => AnyIt::SDft(i.clone()),
            AnyIt::Shallow(i) => AnyIt::Shallow(i.clone()),
            AnyIt::Sib(i) => AnyIt::Sib(i.clone()),
            AnyIt::RSib(i) => AnyIt::RSib(i.clone()),
            AnyIt::SSib(i) => AnyIt::SSib(i.clone()),
            AnyIt::Anc(i) => AnyIt::Anc(i.clone()),
            AnyIt::NBft(i) => AnyIt::NBft(i.clone()),
            AnyIt::ABft(i) => AnyIt::ABft(i.clone()),
            AnyIt::Ser(i) => AnyIt::Ser(i.clone()),
        }
    }
    /// Assigns a clone of the other iterator, if it is of the same kind.
    fn assign(&mut self, from: &AnyIt) -> bool {
        macro_rules! onto {
            ($($v:ident)*) => {
                match (self, from) {
                    $((AnyIt::$v(a), AnyIt::$v(b)) => {
                        a.clone_from(b);
                        true
                    })*
                    _ => false,
                }
            };
        }
        onto!(Dft Rdft SDft Shallow Sib RSib SSib Anc NBft ABft Ser)
    }
    /// All items by internal iteration.
    fn folded(self, w: &W<'_>, how: usize) -> R<VecDeque<Item>> {
        macro_rules! run {
            ($i:expr, $c:expr) => {
                match how {
                    0 => $i.fold(vec![], |mut v, x| {
                        v.push($c(x));
                        v
                    }),
                    1 => {
                        let mut v = vec![];
                        $i.for_each(|x| v.push($c(x)));
                        v
                    }
                    2 => {
                        let mut i = $i;
                        let mut v = vec![];
                        let _ = i.any(|x| {
                            v.push($c(x));
                            false
                        });
                        v
                    }
                    3 => {
                        let mut i = $i;
                        let mut v = vec![];
                        let _ = i.find_map(|x| {
                            v.push($c(x));
                            None::<()>
                        });
                        v
                    }
                    _ => $i.collect::<Vec<_>>().into_iter().map($c).collect::<Vec<Conv>>(),
                }
            };
        }
        let v: Vec<Conv> = match self {
            AnyIt::Dft(i) => run!(i, Conv::Ev),
            AnyIt::Rdft(i) => run!(i, Conv::Ev),
            AnyIt::SDft(i) => run!(i, Conv::FEv),
            AnyIt::Shallow(i) => run!(i, Conv::FEvD),
            AnyIt::Sib(i) => run!(i, Conv::N),
            AnyIt::RSib(i) => run!(i, Conv::N),
            AnyIt::SSib(i) => run!(i, Conv::F),
            AnyIt::Anc(i) => run!(i, Conv::N),
            AnyIt::NBft(i) => run!(i, Conv::FD),
            AnyIt::ABft(i) => run!(i, Conv::FD),
            AnyIt::Ser(i) => run!(i, Conv::S),
        };
        v.into_iter().map(|c| c.item(w)).collect()
    }
    /// All items from the back, `None` if the iterator is not double-ended.
    fn rfolded(self, w: &W<'_>, how: usize) -> R<Option<VecDeque<Item>>> {
        macro_rules! run {
            ($i:expr, $c:expr) => {
                match how {
                    0 => $i.rfold(vec![], |mut v, x| {
                        v.push($c(x));
                        v
                    }),
                    1 => {
                        let mut i = $i;
                        let mut v = vec![];
                        let _ = i.rfind(|x| {
                            v.push($c(x.clone()));
                            false
                        });
                        v
                    }
                    _ => $i.rev().map($c).collect::<Vec<Conv>>(),
                }
            };
        }
        let v: Vec<Conv> = match self {
            AnyIt::SDft(i) => run!(i, Conv::FEv),
            AnyIt::Shallow(i) => run!(i, Conv::FEvD),
            AnyIt::SSib(i) => run!(i, Conv::F),
            _ => return Ok(None),
        };
        let mut out = VecDeque::new();
        for c in v {
            out.push_front(c.item(w)?);
        }
        Ok(Some(out))
    }
    /// `None` if the iterator is not double-ended.
    fn nth_back(&mut self, w: &W<'_>, k: usize) -> R<Option<Option<Item>>> {
        let v = match self {
            AnyIt::SDft(i) => i.nth_back(k).map(Conv::FEv),
            AnyIt::Shallow(i) => i.nth_back(k).map(Conv::FEvD),
            AnyIt::SSib(i) => i.nth_back(k).map(Conv::F),
            _ => return Ok(None),
        };
        Ok(Some(self.conv_o(w, v)?))
    }
    /// Applies `f` to get an item; for the serialiser the item is encoded by value.
    fn conv_o(&self, w: &W<'_>, v: Option<Conv>) -> R<Option<Item>> {
        Ok(match v {
            None => None,
            Some(c) => Some(c.item(w)?),
        })
    }
    pub fn next(&mut self, w: &W<'_>) -> R<Option<Item>> {
        let v = match self {
            AnyIt::Dft(i) => i.next().map(Conv::Ev),
            AnyIt::Rdft(i) => i.next().map(Conv::Ev),
            AnyIt::SDft(i) => i.next().map(Conv::FEv),
            AnyIt::Shallow(i) => i.next().map(Conv::FEvD),
            AnyIt::Sib(i) => i.next().map(Conv::N),
            AnyIt::RSib(i) => i.next().map(Conv::N),
            AnyIt::SSib(i) => i.next().map(Conv::F),
            AnyIt::Anc(i) => i.next().map(Conv::N),
            AnyIt::NBft(i) => i.next().map(Conv::FD),
            AnyIt::ABft(i) => i.next().map(Conv::FD),
            AnyIt::Ser(i) => i.next().map(Conv::S),
        };
        self.conv_o(w, v)
    }
    fn nth(&mut self, w: &W<'_>, k: usize) -> R<Option<Item>> {
        let v = match self {
            AnyIt::Dft(i) => i.nth(k).map(Conv::Ev),
            AnyIt::Rdft(i) => i.nth(k).map(Conv::Ev),
            AnyIt::SDft(i) => i.nth(k).map(Conv::FEv),
            AnyIt::Shallow(i) => i.nth(k).map(Conv::FEvD),
            AnyIt::Sib(i) => i.nth(k).map(Conv::N),
            AnyIt::RSib(i) => i.nth(k).map(Conv::N),
            AnyIt::SSib(i) => i.nth(k).map(Conv::F),
            AnyIt::Anc(i) => i.nth(k).map(Conv::N),
            AnyIt::NBft(i) => i.nth(k).map(Conv::FD),
            AnyIt::ABft(i) => i.nth(k).map(Conv::FD),
            AnyIt::Ser(i) => i.nth(k).map(Conv::S),
        };
        self.conv_o(w, v)
    }
    fn last(self, w: &W<'_>) -> R<Option<Item>> {
        let v = match self {
            AnyIt::Dft(i) => i.last().map(Conv::Ev),
            AnyIt::Rdft(i) => i.last().map(Conv::Ev),
            AnyIt::SDft(i) => i.last().map(Conv::FEv),
            AnyIt::Shallow(i) => i.last().map(Conv::FEvD),
            AnyIt::Sib(i) => i.last().map(Conv::N),
            AnyIt::RSib(i) => i.last().map(Conv::N),
            AnyIt::SSib(i) => i.last().map(Conv::F),
            AnyIt::Anc(i) => i.last().map(Conv::N),
            AnyIt::NBft(i) => i.last().map(Conv::FD),
            AnyIt::ABft(i) => i.last().map(Conv::FD),
            AnyIt::Ser(i) => i.last().map(Conv::S),
        };
        match v {
            None => Ok(None),
            Some(c) => Ok(Some(c.item(w)?)),
        }
    }
    /// `None` if the iterator is not double-ended.
    fn next_back(&mut self, w: &W<'_>) -> R<Option<Option<Item>>> {
        let v = match self {
            AnyIt::SDft(i) => i.next_back().map(Conv::FEv),
            AnyIt::Shallow(i) => i.next_back().map(Conv::FEvD),
            AnyIt::SSib(i) => i.next_back().map(Conv::F),
            _ => return Ok(None),
        };
        Ok(Some(self.conv_o(w, v)?))
    }
    /// `None` if the iterator has no `peek`.
    pub fn peek(&self, w: &W<'_>) -> R<Option<Option<Item>>> {
        let v = match self {
            AnyIt::Dft(i) => i.peek().cloned().map(Conv::Ev),
            AnyIt::Rdft(i) => i.peek().cloned().map(Conv::Ev),
            AnyIt::SDft(i) => i.peek().cloned().map(Conv::FEv),
            AnyIt::Shallow(i) => i.peek().cloned().map(Conv::FEvD),
            AnyIt::Sib(i) => i.peek().cloned().map(Conv::N),
            AnyIt::RSib(i) => i.peek().cloned().map(Conv::N),
            AnyIt::SSib(i) => i.peek().cloned().map(Conv::F),
            AnyIt::Anc(i) => i.peek().cloned().map(Conv::N),
            AnyIt::NBft(_) => return Ok(None),
            AnyIt::ABft(i) => i.peek().map(Conv::FD),
            AnyIt::Ser(_) => return Ok(None),
        };
        Ok(Some(self.conv_o(w, v)?))
    }
    fn peek_back(&self, w: &W<'_>) -> R<Option<Option<Item>>> {
        let v = match self {
            AnyIt::SDft(i) => i.peek_back().cloned().map(Conv::FEv),
            AnyIt::Shallow(i) => i.peek_back().cloned().map(Conv::FEvD),
            AnyIt::SSib(i) => i.peek_back().cloned().map(Conv::F),
            _ => return Ok(None),
        };
        Ok(Some(self.conv_o(w, v)?))
    }
    fn close_current(&mut self, w: &W<'_>) -> R<Option<Option<(usize, usize)>>> {
        Ok(Some(match self {
            AnyIt::Dft(i) => match i.close_current() {
                Some(n) => Some((w.ident(&n)?, 0)),
                None => None,
            },
            AnyIt::SDft(i) => match i.close_current() {
                Some(n) => Some((w.ident(&n.plain())?, 0)),
                None => None,
            },
            AnyIt::Shallow(i) => match i.close_current() {
                Some((n, d)) => Some((w.ident(&n.plain())?, d)),
                None => None,
            },
            _ => return Ok(None),
        }))
    }
    pub fn size_hint(&self) -> (usize, Option<usize>) {
        each!(self, i => i.size_hint())
    }
    fn count(self) -> usize {
        each!(self, i => i.count())
    }
    fn shrink(&mut self, w: &mut W<'_>) -> R<()> {
        if let AnyIt::ABft(i) = self {
            if w.rng.bool() {
                i.shrink_to_fit();
            }
            let (c, k) = (i.capacity(), w.rng.below(9));
            i.shrink_to(k);
            let now = i.capacity();
            ensure!(
                now <= c && now >= k.min(c) && (c == 0 || i.peek().is_none() || now > 0),
                tag::V,
                "shrink_to({k}) changes the capacity from {c} to {now}"
            );
        }
        Ok(())
    }
}

enum Conv {
    Ev(DftEvent<Node<P>>),
    FEv(DftEvent<FrozenNode<P>>),
    FEvD(DftEvent<(FrozenNode<P>, usize)>),
    N(Node<P>),
    F(FrozenNode<P>),
    FD((FrozenNode<P>, usize)),
    S(Result<dendron::serial::Event<P>, std::cell::BorrowError>),
}
impl Conv {
    fn item(self, w: &W<'_>) -> R<Item> {
        Ok(match self {
            Conv::Ev(e) => ev_item(w, &e)?,
            Conv::FEv(e) => ev_item(w, &e)?,
            Conv::FEvD(e) => evd_item(w, &e)?,
            Conv::N(n) => (0, w.ident(&n)?, 0),
            Conv::F(n) => (0, w.ident(&n.plain())?, 0),
            Conv::FD((n, d)) => (0, w.ident(&n.plain())?, d),
            Conv::S(Ok(dendron::serial::Event::Open(p))) => (1, p.val as usize, 0),
            Conv::S(Ok(dendron::serial::Event::Close(k))) => (2, usize::MAX, k),
            Conv::S(Err(_)) => (3, 0, 0),
        })
    }
}

/// Expected events of the serialiser.
pub fn ser_items(w: &W<'_>, x: usize) -> Vec<Item> {
    let mut out: Vec<Item> = vec![];
    for (k, n, _) in events(w, x, usize::MAX) {
        if k == 1 {
            if w.mut_borrowed.contains(&n) {
                out.push((3, 0, 0));
            } else {
                out.push((1, w.nodes[n].val as usize, 0));
            }
        } else {
            match out.last_mut() {
                Some((2, _, c)) => *c += 1,
                _ => out.push((2, usize::MAX, 1)),
            }
        }
    }
    out
}

/// Makes a random iterator at `x` with its expected items.
pub fn make_iter(
    w: &mut W<'_>,
    x: usize,
    kind: Option<usize>,
) -> R<Option<(AnyIt, VecDeque<Item>)>> {
    let k = match kind {
        Some(k) => k,
        None => w.rng.below(21),
    };
    let n = w.node(x)?;
    let f = if matches!(k, 2 | 3 | 6 | 7 | 8 | 9 | 10 | 11 | 13 | 14 | 16 | 19 | 20) {
        match w.frozen(x)? {
            Some(f) => Some(f),
            None => return Ok(None),
        }
    } else {
        None
    };
    let f = || f.clone().unwrap();
    let sibs = w.siblings(x);
    let p = w.pos(x);
    let full = nodepth(&events(w, x, usize::MAX));
    let ch = w.nodes[x].children.clone();
    let (it, want) = match k {
        0 => (AnyIt::Dft(n.depth_first_traverse()), full),
        1 => {
            let mut v = full;
            v.reverse();
            (AnyIt::Rdft(n.depth_first_reverse_traverse()), v)
        }
        2 => (AnyIt::SDft(f().depth_first_traverse_stable()), full),
        3 => {
            let i = w.rng.below(full.len());
            let j = w.rng.range(i, full.len() - 1);
            let (a, b) = (w.frozen(full[i].1)?, w.frozen(full[j].1)?);
            match (a, b) {
                (Some(a), Some(b)) => (
                    AnyIt::SDft(StableDepthFirstTraverser::with_first_last_event(
                        mk_event(full[i].0, a),
                        mk_event(full[j].0, b),
                    )),
                    full[i..=j].to_vec(),
                ),
                _ => return Ok(None),
            }
        }
        4 => (AnyIt::Sib(n.children()), ids(&ch)),
        5 => (AnyIt::RSib(n.siblings_reverse()), rids(&sibs)),
        6 => (AnyIt::SSib(f().children_stable()), ids(&ch)),
        7 => (AnyIt::SSib(f().siblings_stable()), ids(&sibs)),
        8 => (
            AnyIt::SSib(f().preceding_siblings_or_self_stable()),
            ids(&sibs[..=p]),
        ),
        9 => (
            AnyIt::SSib(f().preceding_siblings_stable()),
            ids(&sibs[..p]),
        ),
        10 => (
            AnyIt::SSib(f().following_siblings_or_self_stable()),
            ids(&sibs[p..]),
        ),
        11 => (
            AnyIt::SSib(f().following_siblings_stable()),
            ids(&sibs[p + 1..]),
        ),
        12 => {
            let mut anc = vec![x];
            let mut c = w.nodes[x].parent;
            while let Some(q) = c {
                anc.push(q);
                c = w.nodes[q].parent;
            }
            (AnyIt::Anc(n.ancestors_or_self()), ids(&anc))
        }
        13 => {
            let d = w.rng.below(4);
            let v = bfs(w, x, d);
            (
                AnyIt::NBft(f().non_allocating_breadth_first_traverse_stable(d)),
                v,
            )
        }
        14 => {
            let d = w.rng.below(4);
            let v = bfs(w, x, d);
            (
                AnyIt::ABft(f().allocating_breadth_first_traverse_stable(d)),
                v,
            )
        }
        15 => {
            let v = ser_items(w, x);
            (AnyIt::Ser(n.to_events()), v)
        }
        17 => {
            let i = w.rng.below(full.len());
            let m = w.node(full[i].1)?;
            (
                AnyIt::Dft(DepthFirstTraverser::with_next_event(
                    n.clone(),
                    Some(mk_event(full[i].0, m)),
                )),
                full[i..].to_vec(),
            )
        }
        18 => {
            let i = w.rng.below(full.len());
            let m = w.node(full[i].1)?;
            let mut v = full[..=i].to_vec();
            v.reverse();
            (
                AnyIt::Rdft(ReverseDepthFirstTraverser::with_next_event(
                    n.clone(),
                    Some(mk_event(full[i].0, m)),
                )),
                v,
            )
        }
        _ => {
            let max = *w
                .rng
                .pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(usize::MAX), Some(7)]);
            let max = if max == Some(7) { Some(w.rng.edge()) } else { max };
            let v = events(w, x, max.unwrap_or(usize::MAX));
            (
                AnyIt::Shallow(f().shallow_depth_first_traverse_stable(max)),
                v,
            )
        }
    };
    Ok(Some((it, want.into())))
}

/// Drives one iterator (and its clones) with a random usage pattern.
///
/// `hints` tells whether the size hints are judged, too.
pub fn probe_c11(w: &mut W<'_>, x: usize, kind: Option<usize>, hints: bool) -> R<()> {
    let (it, want) = match make_iter(w, x, kind)? {
        Some(v) => v,
        None => return Ok(()),
    };
    let total = want.len();
    let name = it.name();
    let mut its = vec![(it, want)];
    let mut log: Vec<String> = vec![];
    let steps = w.rng.range(2, 3 * total + 8);
    // Usage profile: mostly forward, mostly backward, or mixed.
    let profile = w.rng.below(4);
    let mut pattern = hash2(total as u64, name.len() as u64);
    macro_rules! bad {
        ($($a:tt)*) => {
            return dv(tag::V, format!("{name} at #{x} ({total} items) after [{}]: {}", log.join(" "), format!($($a)*)))
        };
    }
    for _ in 0..steps {
        let i = w.rng.below(its.len());
        let op = match profile {
            0 => *w.rng.pick(&[0, 0, 0, 0, 2, 3, 4, 5, 6, 8]),
            1 => *w.rng.pick(&[1, 1, 1, 1, 2, 3, 4, 5, 6, 9, 10]),
            2 => *w.rng.pick(&[0, 1, 0, 1, 0, 1, 3, 4, 10]),
            _ => w.rng.below(12),
        };
        pattern = hash2(pattern, (op * 4 + i.min(3)) as u64);
        let k = w.rng.below(4);
        let other = w.rng.below(its.len());
        let fork = its.len() < 4;
        let wr: &W<'_> = w;
        let (it, want) = &mut its[i];
        // Checked before every step.
        let (lo, hi) = it.size_hint();
        if hints && (lo > want.len() || hi.map_or(false, |h| h < want.len())) {
            bad!("size_hint is ({lo}, {hi:?}) but {} items remain", want.len());
        }
        if let Some(p) = it.peek(wr)? {
            if p != want.front().copied() {
                bad!("peek shows {p:?}, expected {:?}", want.front());
            }
        }
        if let Some(p) = it.peek_back(wr)? {
            if p != want.back().copied() {
                bad!("peek_back shows {p:?}, expected {:?}", want.back());
            }
        }
        match op {
            0 => {
                log.push(format!("next:{i}"));
                let v = it.next(wr)?;
                let e = want.pop_front();
                if v != e {
                    bad!("next returned {v:?}, expected {e:?}");
                }
            }
            1 => {
                log.push(format!("next_back:{i}"));
                if let Some(v) = it.next_back(wr)? {
                    let e = want.pop_back();
                    if v != e {
                        bad!("next_back returned {v:?}, expected {e:?}");
                    }
                }
            }
            2 => {
                log.push(format!("close_current:{i}"));
                if let Some(v) = it.close_current(wr)? {
                    let mut depth = 0;
                    let mut e = None;
                    while let Some((k, n, d)) = want.pop_front() {
                        if k == 1 {
                            depth += 1;
                        } else if depth == 0 {
                            e = Some((n, d));
                            break;
                        } else {
                            depth -= 1;
                        }
                    }
                    if v != e {
                        bad!("close_current returned {v:?}, expected {e:?}");
                    }
                }
            }
            3 if fork => {
                log.push(format!("clone:{i}"));
                let d = (it.dup(), want.clone());
                its.push(d);
            }
            4 => {
                log.push(format!("nth({k}):{i}"));
                let v = it.nth(wr, k)?;
                let mut e = None;
                for _ in 0..=k {
                    e = want.pop_front();
                    if e.is_none() {
                        break;
                    }
                }
                if v != e {
                    bad!("nth({k}) returned {v:?}, expected {e:?}");
                }
            }
            5 => {
                let c = it.dup().count();
                if c != want.len() {
                    bad!("count is {c}, expected {}", want.len());
                }
            }
            6 => {
                let l = it.dup().last(wr)?;
                if l != want.back().copied() {
                    bad!("last is {l:?}, expected {:?}", want.back());
                }
            }
            8 => {
                let v = it.dup().folded(wr, k + (i % 2))?;
                if v != *want {
                    bad!("internal iteration {k} visits {v:?}, expected {want:?}");
                }
            }
            9 => {
                if let Some(v) = it.dup().rfolded(wr, k)? {
                    if v != *want {
                        bad!("internal iteration {k} from the back visits {v:?} (turned round), expected {want:?}");
                    }
                }
            }
            10 => {
                log.push(format!("nth_back({k}):{i}"));
                if let Some(v) = it.nth_back(wr, k)? {
                    let mut e = None;
                    for _ in 0..=k {
                        e = want.pop_back();
                        if e.is_none() {
                            break;
                        }
                    }
                    if v != e {
                        bad!("nth_back({k}) returned {v:?}, expected {e:?}");
                    }
                }
            }
            11 if other != i => {
                log.push(format!("{other}.clone_from({i})"));
                let (from, wf) = (it.dup(), want.clone());
                let (it, want) = &mut its[other];
                if it.assign(&from) {
                    *want = wf;
                }
            }
            _ => it.shrink(w)?,
        }
        w.st.inc(ct::ITEMS);
    }
    // Exhaust all of them; they must stay finished.
    for (i, (mut it, mut want)) in its.into_iter().enumerate() {
        loop {
            let back = w.rng.chance(1, 3);
            let (lo, hi) = it.size_hint();
            if hints && (lo > want.len() || hi.map_or(false, |h| h < want.len())) {
                bad!("size_hint is ({lo}, {hi:?}) but {} items remain", want.len());
            }
            if back {
                if let Some(v) = it.next_back(w)? {
                    let e = want.pop_back();
                    if v != e {
                        bad!("final next_back:{i} returned {v:?}, expected {e:?}");
                    }
                    if e.is_none() {
                        break;
                    }
                    continue;
                }
            }
            let v = it.next(w)?;
            let e = want.pop_front();
            if v != e {
                bad!("final next:{i} returned {v:?}, expected {e:?}");
            }
            if e.is_none() {
                break;
            }
            w.st.inc(ct::ITEMS);
        }
        for _ in 0..3 {
            if let Some(v) = it.next(w)? {
                bad!("finished iterator {i} returned {v:?}");
            }
            if let Some(Some(v)) = it.next_back(w)? {
                bad!("finished iterator {i} returned {v:?} from its back");
            }
            if let Some(Some(v)) = it.peek(w)? {
                bad!("finished iterator {i} peeks at {v:?}");
            }
            if let Some(Some(v)) = it.close_current(w)? {
                bad!("finished iterator {i} closed {v:?}");
            }
        }
        let (lo, _) = it.size_hint();
        if hints && lo != 0 {
            bad!("finished iterator {i} promises {lo} items");
        }
    }
    let sh = w.shape_hash(x);
    if total > 0 && w.st.seen(hash2(pattern, hash2(sh, name.len() as u64))) {
        w.st.inc(ct::USER1);
    }
    Ok(())
}

// ------------------------------------------------------------------ C20

enum Live {
    Dft(DepthFirstTraverser<P>),
    Rdft(ReverseDepthFirstTraverser<P>),
    Sib(SiblingsTraverser<P>),
    RSib(ReverseSiblingsTraverser<P>),
    Anc(AncestorsTraverser<P>),
    Ser(dendron::serial::TreeSerializeIter<P>),
}
impl Live {
    fn peek(&self) -> Option<Option<Node<P>>> {
        Some(match self {
            Live::Dft(i) => i.peek().map(|e| e.as_value().clone()),
            Live::Rdft(i) => i.peek().map(|e| e.as_value().clone()),
            Live::Sib(i) => i.peek().cloned(),
            Live::RSib(i) => i.peek().cloned(),
            Live::Anc(i) => i.peek().cloned(),
            Live::Ser(_) => return None,
        })
    }
    /// `None`: finished. `Some(None)`: an event without a node.
    fn step(&mut self) -> Option<(u8, Option<Node<P>>)> {
        match self {
            Live::Dft(i) => i.next().map(ev_kind),
            Live::Rdft(i) => i.next().map(ev_kind),
            Live::Sib(i) => i.next().map(|n| (0, Some(n))),
            Live::RSib(i) => i.next().map(|n| (0, Some(n))),
            Live::Anc(i) => i.next().map(|n| (0, Some(n))),
            Live::Ser(i) => i.next().map(|_| (3, None)),
        }
    }
    fn dup(&self) -> Live {
        match self {
            Live::Dft(i) => Live::Dft(i.clone()),
            Live::Rdft(i) => Live::Rdft(i.clone()),
            Live::Sib(i) => Live::Sib(i.clone()),
            Live::RSib(i) => Live::RSib(i.clone()),
            Live::Anc(i) => Live::Anc(i.clone()),
            Live::Ser(i) => Live::Ser(i.clone()),
        }
    }
}
fn ev_kind(e: DftEvent<Node<P>>) -> (u8, Option<Node<P>>) {
    match e {
        DftEvent::Open(n) => (1, Some(n)),
        DftEvent::Close(n) => (2, Some(n)),
    }
}

/// Free interleaving of traversal steps and arbitrary edits (bounded oracle).
pub fn case_c20_free(w: &mut W<'_>) -> R<()> {
    for _ in 0..w.rng.range(4, 10) {
        w.random_op()?;
    }
    let live = w.live_nodes();
    if live.is_empty() {
        w.new_tree(0)?;
    }
    let live = w.live_nodes();
    let x = *w.rng.pick(&live);
    let n = w.node(x)?;
    let k = w.rng.below(8);
    let mut it = match k {
        0 | 1 => Live::Dft(n.depth_first_traverse()),
        2 => Live::Rdft(n.depth_first_reverse_traverse()),
        3 => Live::Sib(n.siblings()),
        4 => Live::Sib(n.children()),
        5 => Live::RSib(n.siblings_reverse()),
        6 => Live::Anc(n.ancestors_or_self()),
        _ => Live::Ser(n.to_events()),
    };
    drop(n);
    w.tr(format!("traverse from #{x} (kind {k})"));
    let mut hash = k as u64;
    let rounds = w.rng.range(3, 16);
    let mut finished = false;
    // The nodes at which the traverser is positioned are preserved by it.
    for _ in 0..rounds {
        if !finished {
            sync_position(w, &it, x)?;
            match catch(|| it.step()) {
                Err(m) => return dv(tag::PANIC, format!("advancing the traversal panicked: {m}")),
                Ok(None) => finished = true,
                Ok(Some((kind, n))) => {
                    w.st.inc(ct::ITEMS);
                    if let Some(n) = n {
                        let id = w.ident(&n)?;
                        ensure!(
                            w.nodes[id].alive,
                            tag::X,
                            "the traversal returned #{id} whose tree is gone"
                        );
                        hash = hash2(hash, kind as u64);
                        // Its tree is intact.
                        let t = w.nodes[id].tree;
                        let r = w.ident(&n.root())?;
                        ensure!(
                            r == w.trees[t].root,
                            tag::X,
                            "the traversal returned #{id}, whose root is #{r}, expected #{}",
                            w.trees[t].root
                        );
                        w.nav_check(&n, id)?;
                        w.tr(format!("traversal returns #{id} (kind {kind})"));
                        // The returned handle is sometimes kept.
                        if w.rng.chance(1, 4) && w.pool.len() < 16 {
                            w.push(H::N(n), id);
                        }
                    }
                }
            }
        }
        sync_position(w, &it, x)?;
        for _ in 0..w.rng.below(3) {
            let l = w.live_nodes();
            if l.is_empty() {
                break;
            }
            // Edit around the position of the traversal.
            let near = match it.peek() {
                Some(Some(n)) => Some(w.ident(&n)?),
                _ => None,
            };
            if let Some((mut e, fl)) = w.random_edit() {
                if let (Some(p), true) = (near, w.rng.chance(2, 3)) {
                    if let Edit::Detach { x } | Edit::Replace { x } | Edit::Move { x, .. } = &mut e
                    {
                        *x = match w.rng.below(3) {
                            0 => p,
                            1 => w.nodes[p].parent.unwrap_or(p),
                            _ => w.nodes[p].children.first().copied().unwrap_or(p),
                        };
                    }
                }
                let r = w.edit(e, fl)?;
                hash = hash2(hash, 16 + (r == EditRes::Done) as u64);
            }
        }
        if w.rng.chance(1, 3) && !w.pool.is_empty() {
            let i = w.rng.below(w.pool.len());
            if !w.pool[i].pinned {
                w.drop_handle(i)?;
            }
        }
        w.audit(tag::W | tag::S | tag::L)?;
        if w.rng.chance(1, 6) {
            it = it.dup();
        }
    }
    // The traverser alone preserves the tree at which it is positioned.
    if let (false, Some(Some(n)), true) = (finished, it.peek(), w.rng.bool()) {
        let id = w.ident(&n)?;
        drop(n);
        if w.nodes[x].alive && w.nodes[x].tree == w.nodes[id].tree {
            w.tr("drop everything but the traverser");
            let mut pin = vec![];
            for e in std::mem::take(&mut w.pool) {
                if matches!(e.h, H::Pin) {
                    pin.push(e);
                }
            }
            w.pool = pin;
            w.gc();
            w.st.inc(ct::USER3);
            w.audit(tag::W | tag::S | tag::L | tag::D)?;
        }
    }
    // Edits stop: it must finish.
    let bound = 2 * w.num_live() + 4;
    let mut steps = 0;
    while !finished {
        sync_position(w, &it, x)?;
        match catch(|| it.step()) {
            Err(m) => return dv(tag::PANIC, format!("advancing the traversal panicked: {m}")),
            Ok(None) => finished = true,
            Ok(Some((_, n))) => {
                if let Some(n) = n {
                    let id = w.ident(&n)?;
                    ensure!(
                        w.nodes[id].alive,
                        tag::X,
                        "the traversal returned #{id} whose tree is gone"
                    );
                }
                steps += 1;
                w.st.inc(ct::ITEMS);
                ensure!(
                    steps <= bound,
                    tag::X,
                    "the traversal does not finish: {steps} steps without edits over {} live nodes",
                    w.num_live()
                );
            }
        }
    }
    // Releasing the finished traverser releases what it preserved.
    unpin(w);
    drop(it);
    w.gc();
    w.audit(tag::W | tag::S | tag::L)?;
    w.st.seen(hash);
    Ok(())
}

fn unpin(w: &mut W<'_>) {
    let old = std::mem::take(&mut w.pool);
    w.pool = old.into_iter().filter(|e| !e.pinned).collect();
}

/// Tells the model at which node the traverser is positioned, and which
/// therefore must be preserved by it. The position itself is not preserved by
/// the harness, but the start node of the traversal is: whether the traverser
/// preserves its start node too is not specified.
fn sync_position(w: &mut W<'_>, it: &Live, start: usize) -> R<()> {
    let n = match it {
        // No public position: keep everything it could be positioned at.
        Live::Ser(_) => {
            for x in w.live_nodes() {
                if w.pool.iter().any(|e| e.pinned && e.t == x) {
                    continue;
                }
                let n = w.node(x)?;
                w.pool.push(Ent {
                    h: H::N(n),
                    t: x,
                    pinned: true,
                });
            }
            return Ok(());
        }
        _ => it.peek().unwrap(),
    };
    let hold = match (&n, it) {
        (Some(n), Live::Dft(_) | Live::Rdft(_)) if w.ident(n)? != start => Some(w.node(start)?),
        _ => None,
    };
    unpin(w);
    if let Some(h) = hold {
        w.pool.push(Ent {
            h: H::N(h),
            t: start,
            pinned: true,
        });
    }
    if let Some(n) = n {
        let id = w.ident(&n)?;
        drop(n);
        ensure!(
            w.nodes[id].alive,
            tag::X,
            "the traverser is positioned at #{id}, but its tree is gone"
        );
        w.pool.push(Ent {
            h: H::Pin,
            t: id,
            pinned: true,
        });
    }
    w.gc();
    Ok(())
}

/// Edits confined to the part which has been passed do not affect the rest.
pub fn case_c20_passed(w: &mut W<'_>) -> R<()> {
    // One tree, built by random edits, without handles which lock it.
    let n = w.rng.range(3, 14);
    let root = w.new_tree(0)?;
    // Some of them have many children.
    let wide = w.rng.chance(1, 3);
    while w.num_live() < n {
        let live = w.live_nodes();
        let x = if wide && w.rng.chance(2, 3) { live[0] } else { *w.rng.pick(&live) };
        let d = if wide { Dest::Last } else { *w.rng.pick(&DESTS) };
        let e = match w.rng.below(6) {
            0 if !wide => Edit::IntChild { x },
            1 if !wide => Edit::IntParent { x },
            _ => Edit::Create { x, d },
        };
        let bits = w.rng.below(4) & 1;
        w.edit(e, Fl::from_bits(bits))?;
    }
    let _ = root;
    let live = w.live_nodes();
    let x = if wide && w.rng.bool() {
        live[0]
    } else {
        *w.rng.pick(&live)
    };
    let tree = w.nodes[x].tree;
    let node = w.node(x)?;
    // The start node is held for the entire time.
    w.pool.push(Ent {
        h: H::Pin,
        t: x,
        pinned: true,
    });
    let rev = w.rng.chance(1, 3);
    // Depth first, children, siblings, ancestors, events.
    let kind = *w.rng.pick(&[0, 0, 0, 2, 2, 3, 4, 5]);
    let kind = if kind == 3 && w.nodes[x].parent.is_none() { 4 } else { kind };
    // The siblings are passed together with the start, so the tree has another
    // handle.
    let _held = if matches!(kind, 3 | 4) {
        let mut r = x;
        while let Some(p) = w.nodes[r].parent {
            r = p;
        }
        w.pool.push(Ent {
            h: H::Pin,
            t: r,
            pinned: true,
        });
        Some(w.node(r)?)
    } else {
        None
    };
    let sub = w.rng.below(5);
    let mut want: Vec<Item> = match kind {
        0 | 5 => nodepth(&events(w, x, usize::MAX)),
        2 => {
            // A sibling traversal of the children of some node.
            ids(&w.nodes[x].children)
        }
        3 => {
            let k = w.nodes[w.nodes[x].parent.unwrap()].children.clone();
            let i = k.iter().position(|y| *y == x).unwrap();
            match (sub, rev) {
                (0, false) => ids(&k[i + 1..]),
                (1, false) => ids(&k[i..]),
                (0, true) => ids(&k[..i]),
                (1, true) => ids(&k[..=i]),
                _ => ids(&k),
            }
        }
        _ => {
            let mut v = if sub < 3 { vec![x] } else { vec![] };
            let mut y = x;
            while let Some(p) = w.nodes[y].parent {
                v.push(p);
                y = p;
            }
            ids(&v)
        }
    };
    if rev && matches!(kind, 0 | 2 | 3) {
        want.reverse();
    }
    let mut it = match (kind, rev) {
        (0, false) => Live::Dft(node.depth_first_traverse()),
        (0, true) => Live::Rdft(node.depth_first_reverse_traverse()),
        (2, false) => Live::Sib(node.children()),
        (2, true) => Live::RSib(node.children_reverse()),
        (3, false) => Live::Sib(match sub {
            0 => node.following_siblings(),
            1 => node.following_siblings_or_self(),
            _ => node.siblings(),
        }),
        (3, true) => Live::RSib(match sub {
            0 => node.preceding_siblings_reverse(),
            1 => node.preceding_siblings_or_self_reverse(),
            _ => node.siblings_reverse(),
        }),
        (4, _) => Live::Anc(if sub < 3 {
            node.ancestors_or_self()
        } else {
            node.ancestors()
        }),
        _ => Live::Ser(node.to_events()),
    };
    w.tr(format!(
        "traverse from #{x} (kind {kind}, {sub}, reverse {rev}), expecting {}",
        fmt_items(&want)
    ));
    // The last event of a node in the direction of the traversal.
    let last_kind = match kind {
        2..=4 => 0,
        0 if rev => 1,
        _ => 2,
    };
    // Where the passed part is, seen from a passed node.
    let behind = if rev && matches!(kind, 0 | 2 | 3) { Dest::Next } else { Dest::Prev };
    let mut passed: Vec<usize> = vec![];
    let mut edits = 0;
    // Mixed edits, or mostly of one kind.
    let mode = w.rng.below(4);
    let mut i = 0;
    while i < want.len() {
        // Edit somewhere in the passed part. The most recently passed node
        // itself is left at its place.
        let rounds = if mode == 0 { w.rng.below(2) } else { w.rng.below(4) };
        for _ in 0..rounds {
            let Some(&last) = passed.last() else { break };
            let top: Vec<usize> = passed
                .iter()
                .copied()
                .filter(|p| w.nodes[*p].alive && w.nodes[*p].tree == tree)
                .collect();
            if top.is_empty() {
                break;
            }
            let p = *w.rng.pick(&top);
            let inner = w.subtree(p);
            let q = *w.rng.pick(&inner);
            let r = *w.rng.pick(&inner);
            // Another passed node, and one below it.
            let p2 = *w.rng.pick(&top);
            let inner2 = w.subtree(p2);
            let r2 = *w.rng.pick(&inner2);
            // Whether another unpassed node is in the subtree of `p` cannot happen:
            // a passed node is passed together with its descendants. This does
            // not hold for ancestors, but there the passed part is below `last`.
            let k = match mode {
                0 | 3 => w.rng.below(13),
                1 => *w.rng.pick(&[0, 0, 0, 9, 10]),
                _ => *w.rng.pick(&[4, 7, 7, 8, 11]),
            };
            let beside = kind != 4 && p != x && w.nodes[p].parent.is_some();
            let small = w.num_live() < 40;
            let e = match k {
                0 if p != last => Some(Edit::Detach { x: p }),
                1 if q != p => Some(Edit::Detach { x: q }),
                2 if q != p => Some(Edit::Replace { x: q }),
                3 if q != p && r != p => Some(Edit::Move {
                    x: q,
                    d: *w.rng.pick(&DESTS),
                    y: r,
                }),
                4 if small => Some(Edit::Create {
                    x: q,
                    d: *w.rng.pick(&[Dest::First, Dest::Last]),
                }),
                5 if small => Some(Edit::IntChild { x: q }),
                6 if q != p && small => Some(Edit::IntParent { x: q }),
                // Beside the passed node, away from the rest.
                7 if beside && small => Some(Edit::Create { x: p, d: behind }),
                8 if beside && p != last && small => Some(Edit::IntParent { x: p }),
                9 if beside && p != last && p2 != x => Some(Edit::Replace { x: p }),
                // Somewhere else in the passed part.
                10 if beside && p != last => Some(Edit::Move {
                    x: p,
                    d: *w.rng.pick(&[Dest::First, Dest::Last]),
                    y: r2,
                }),
                11 if beside && p != last && p2 != x && w.nodes[p2].parent.is_some() => Some(Edit::Move {
                    x: p,
                    d: behind,
                    y: p2,
                }),
                12 if beside && p2 != x && w.nodes[p2].parent.is_some() && q != p => Some(Edit::Move {
                    x: q,
                    d: behind,
                    y: p2,
                }),
                _ => None,
            };
            if let Some(e) = e {
                let fl = Fl::from_bits(w.rng.below(16) & !2);
                let ok = w.edit(e, fl)?;
                edits += (ok == EditRes::Done) as usize;
                w.st.inc(ct::USER2);
            }
        }
        if let Live::Ser(s) = &mut it {
            let e = match catch(|| s.next()) {
                Err(m) => return dv(tag::PANIC, format!("advancing the events panicked: {m}")),
                Ok(v) => v,
            };
            w.st.inc(ct::ITEMS);
            match e {
                Some(Ok(Event::Open(d))) if want[i].0 == 1 && d.val == w.nodes[want[i].1].val => i += 1,
                Some(Ok(Event::Close(k))) if k > 0 && i + k <= want.len() && want[i..i + k].iter().all(|v| v.0 == 2) => {
                    passed.extend(want[i..i + k].iter().map(|v| v.1));
                    i += k;
                }
                e => {
                    return dv(
                        tag::X,
                        format!(
                            "event {i} of #{x} is {}, expected {}; only the passed part was edited",
                            match &e {
                                None => "missing".to_string(),
                                Some(Ok(Event::Open(d))) => format!("Open({})", d.val),
                                Some(Ok(Event::Close(k))) => format!("Close({k})"),
                                Some(Err(e)) => e.to_string(),
                            },
                            fmt_items(&want[i..i + 1])
                        ),
                    )
                }
            }
            continue;
        }
        let (k, n) = match catch(|| it.step()) {
            Err(m) => return dv(tag::PANIC, format!("advancing the traversal panicked: {m}")),
            Ok(None) => {
                return dv(
                    tag::X,
                    format!(
                        "the traversal of #{x} ended after {i} of {} items",
                        want.len()
                    ),
                )
            }
            Ok(Some((k, n))) => (k, w.ident(&n.unwrap())?),
        };
        w.st.inc(ct::ITEMS);
        ensure!(
            (k, n) == (want[i].0, want[i].1),
            tag::X,
            "item {i} of the traversal of #{x} is {:?}, expected {:?}; only the passed part was edited",
            (k, n),
            want[i]
        );
        if k == last_kind {
            passed.push(n);
        }
        i += 1;
    }
    ensure!(
        it.step().is_none(),
        tag::X,
        "the traversal of #{x} continues after all {} items",
        want.len()
    );
    if edits > 0 {
        let h = hash2(w.shape_hash(x), hash2(edits as u64, want.len() as u64));
        w.st.seen(hash2(h, hash2(kind as u64, 77)));
    }
    w.audit(tag::S | tag::W)?;
    Ok(())
}

/// All patterns of taking items from both ends of the iterator of this kind.
pub fn probe_c11_ends(w: &mut W<'_>, x: usize, kind: usize, hints: bool) -> R<()> {
    // The same random choices for every pattern.
    let saved = w.rng.clone();
    let mut bits = 0u32;
    loop {
        w.rng = saved.clone();
        let (mut it, mut want) = match make_iter(w, x, Some(kind))? {
            Some(v) => v,
            None => return Ok(()),
        };
        let name = it.name();
        let len = (want.len() + 2).min(11);
        if bits >= 1 << len {
            return Ok(());
        }
        w.st.inc(ct::USER2);
        for i in 0..len {
            let back = bits >> i & 1 == 1;
            let (lo, hi) = it.size_hint();
            ensure!(
                !hints || lo <= want.len() && hi.map_or(true, |h| h >= want.len()),
                tag::V,
                "{name} at #{x}, pattern {bits:b}, step {i}: size_hint ({lo}, {hi:?}) but {} items remain",
                want.len()
            );
            let (pf, pb) = (it.peek(w)?, it.peek_back(w)?);
            ensure!(
                pf.map_or(true, |p| p == want.front().copied())
                    && pb.map_or(true, |p| p == want.back().copied()),
                tag::V,
                "{name} at #{x}, pattern {bits:b}, step {i}: peeks at {pf:?} and {pb:?}, expected {:?} and {:?}",
                want.front(),
                want.back()
            );
            let (v, e) = if back {
                match it.next_back(w)? {
                    Some(v) => (v, want.pop_back()),
                    // Not double-ended.
                    None => (it.next(w)?, want.pop_front()),
                }
            } else {
                (it.next(w)?, want.pop_front())
            };
            w.st.inc(ct::ITEMS);
            ensure!(
                v == e,
                tag::V,
                "{name} at #{x}, pattern {bits:b}, step {i}: got {v:?}, expected {e:?}"
            );
        }
        let sh = w.shape_hash(x);
        w.st.seen(hash2(hash2(sh, bits as u64), hash2(kind as u64, len as u64)));
        bits += 1;
    }
}

/// A tree with many nodes and without handles which lock it.
pub fn big_tree(w: &mut W<'_>, n: usize) -> R<usize> {
    w.new_tree(0)?;
    // How the position of the next node is chosen.
    let style = w.rng.below(4);
    let mut last = 0;
    while w.num_live() < n {
        let live = w.live_nodes();
        let x = match style {
            0 => *w.rng.pick(&live),
            1 => last,
            2 => live[0],
            _ if w.rng.chance(3, 4) => last,
            _ => *w.rng.pick(&live),
        };
        let before = w.nodes.len();
        let d = *w.rng.pick(&DESTS);
        let e = match w.rng.below(8) {
            0 => Edit::IntChild { x },
            1 => Edit::IntParent { x },
            _ => Edit::Create { x, d },
        };
        let bits = w.rng.below(4) & 1;
        if w.edit(e, Fl::from_bits(bits))? == EditRes::Done {
            last = before;
        }
    }
    Ok(w.trees[w.nodes[0].tree].root)
}

/// Kinds of the iterators which can be consumed from both ends.
fn both_ends(prop: u32) -> &'static [usize] {
    if prop == 9 {
        // The depth-limited ones have random limits, so try them repeatedly.
        &[2, 3, 16, 19, 20]
    } else {
        &[6, 7, 8, 9, 10, 11]
    }
}

/// One case of C09 - C11 on a tree of the given shape, or on random trees.
pub fn case_trav(w: &mut W<'_>, prop: u32, shape: Option<&[usize]>, sub: usize) -> R<()> {
    if let Some(s) = shape {
        let v = w.build_shape(s)?;
        if prop == 11 {
            // `sub` is the kind of the iterator.
            for &x in &v {
                probe_c11_ends(w, x, sub, true)?;
            }
            return Ok(());
        }
        for &x in &v {
            if prop == 9 {
                probe_c09(w, x)?;
            } else {
                probe_c10(w, x)?;
            }
            if s.len() <= 4 {
                // Stable traversers consumed from both ends.
                for &k in both_ends(prop) {
                    probe_c11_ends(w, x, k, false)?;
                }
            }
            let h = hash2(w.shape_hash(0), x as u64);
            w.st.seen(h);
        }
        if prop == 9 {
            probe_c09_events(w, 0)?;
        }
        return Ok(());
    }
    if w.rng.chance(1, 3) {
        let n = *w.rng.pick(&[6, 10, 20, 40]);
        big_tree(w, n)?;
    } else {
        let n = w.rng.range(4, 40);
        realize(w, n)?;
    }
    let live = w.live_nodes();
    if live.is_empty() {
        return Ok(());
    }
    let rounds = if prop == 11 { 12 } else { 3 };
    for _ in 0..rounds {
        let x = *w.rng.pick(&live);
        let t = w.nodes[x].tree;
        match prop {
            9 => {
                probe_c09(w, x)?;
                if w.subtree(w.trees[t].root).len() <= 16 {
                    probe_c09_events(w, t)?;
                }
            }
            10 => probe_c10(w, x)?,
            _ => probe_c11(w, x, None, true)?,
        }
        if prop != 11 {
            for &k in both_ends(prop) {
                probe_c11(w, x, Some(k), false)?;
            }
        }
        if prop != 11 {
            let root = w.trees[t].root;
            let i = w.subtree(root).iter().position(|n| *n == x).unwrap();
            let h = hash2(w.shape_hash(root), i as u64);
            w.st.seen(h);
        }
    }
    Ok(())
}

/// Random tree(s) for traversal probes: built by a random history.
pub fn realize(w: &mut W<'_>, rng_len: usize) -> R<()> {
    for _ in 0..rng_len {
        w.random_op()?;
    }
    Ok(())
}

