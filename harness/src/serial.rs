//! Monitors of serialisation (C12) and of the tree builder (C13).

use std::iter;

use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HotNode, Node, Tree};

use crate::ensure;
use crate::nav::Nav;
use crate::payload::*;
use crate::rng::hash2;
use crate::trav::{ser_items, Item};
use crate::world::*;

fn ev_items(v: &[Event<P>]) -> Vec<Item> {
    v.iter()
        .map(|e| match e {
            Event::Open(p) => (1, *p.heap as usize, 0),
            Event::Close(k) => (2, usize::MAX, *k),
        })
        .collect()
}
fn insts(v: &[Event<P>]) -> Vec<u64> {
    v.iter()
        .filter_map(|e| match e {
            Event::Open(p) => Some(p.inst),
            _ => None,
        })
        .collect()
}
fn pre_insts(n: &Node<P>) -> Vec<u64> {
    let mut out = vec![];
    let mut stack = vec![n.clone()];
    while let Some(n) = stack.pop() {
        out.push(n.borrow_data().inst);
        let mut c = n.last_child();
        while let Some(k) = c {
            c = k.prev_sibling();
            stack.push(k);
        }
        if out.len() > 100_000 {
            break;
        }
    }
    out
}

/// The built tree must be a new tree of this shape; it is added to the model.
fn register_built(w: &mut W<'_>, n: &Node<P>, snap: &[(i64, usize)], what: &str) -> R<usize> {
    let t = w.trees.len();
    ensure!(n.is_root(), tag::X, "{what}: the result is not a root");
    for k in w.live_trees() {
        let tr = w.tree(k)?;
        ensure!(
            !n.belongs_to(&tr),
            tag::X,
            "{what}: the result belongs to the existing tree t{k}"
        );
    }
    let id = w.register_clone_snap(n, snap, t).map_err(|d| Div {
        tag: tag::X,
        msg: format!("{what}: {}", d.msg),
    })?;
    w.trees.push(MTree {
        root: id,
        alive: true,
    });
    w.tweak.push(n.tree().downgrade());
    Ok(id)
}

fn to_events<N: Nav>(n: &N) -> Result<Vec<Event<P>>, ()> {
    let mut out = vec![];
    let mut bad = false;
    for e in n.events_() {
        match e {
            Ok(e) => out.push(e),
            Err(_) => bad = true,
        }
    }
    if bad {
        Err(())
    } else {
        Ok(out)
    }
}

fn items_of<N: Nav>(n: &N, bound: usize) -> Vec<Item> {
    let mut out = vec![];
    for e in n.events_() {
        out.push(match e {
            Ok(Event::Open(p)) => (1, *p.heap as usize, 0),
            Ok(Event::Close(k)) => (2, usize::MAX, k),
            Err(_) => (3, 0, 0),
        });
        if out.len() > bound {
            break;
        }
    }
    out
}

/// Splits and merges the closings in a random way, keeping the meaning.
fn resplit(w: &mut W<'_>, v: Vec<Event<P>>) -> Vec<Event<P>> {
    let mut out: Vec<Event<P>> = vec![];
    for e in v {
        match e {
            Event::Open(p) => {
                if w.rng.chance(1, 8) && !out.is_empty() {
                    out.push(Event::Close(0));
                }
                out.push(Event::Open(p));
            }
            Event::Close(mut k) => {
                while k > 0 {
                    let j = match w.rng.below(3) {
                        0 => 1,
                        1 => k,
                        _ => w.rng.range(1, k),
                    };
                    out.push(Event::Close(j));
                    k -= j;
                }
            }
        }
    }
    out
}

pub fn case_c12(w: &mut W<'_>, shape: Option<&[usize]>) -> R<()> {
    match shape {
        Some(s) => {
            w.build_shape(s)?;
        }
        None => {
            if w.rng.chance(1, 3) {
                let n = *w.rng.pick(&[6, 12, 30]);
                crate::trav::big_tree(w, n)?;
            } else {
                let n = w.rng.range(4, 40);
                for _ in 0..n {
                    w.random_op()?;
                }
            }
        }
    }
    let live = w.live_nodes();
    if live.is_empty() {
        return Ok(());
    }
    let xs: Vec<usize> = if shape.is_some() {
        live.clone()
    } else {
        (0..3).map(|_| *w.rng.pick(&live)).collect()
    };
    for x in xs {
        if !w.nodes[x].alive {
            continue;
        }
        roundtrip(w, x)?;
        borrowed(w, x)?;
    }
    Ok(())
}

fn roundtrip(w: &mut W<'_>, x: usize) -> R<()> {
    let n = w.node(x)?;
    w.pin(x);
    let want = ser_items(w, x);
    let snap = w.snapshot(x);
    let bound = want.len() + 2;
    w.st.seen(hash2(w.shape_hash(x), w.subtree(w.trees[w.nodes[x].tree].root).len() as u64));
    // The events describe the subtree, from all kinds of handles.
    let mut gots = vec![("Node", items_of(&n, bound))];
    if let Some(h) = w.hot(x)? {
        gots.push(("HotNode", items_of(&h, bound)));
    }
    if let Some(f) = w.frozen(x)? {
        gots.push(("FrozenNode", items_of(&f, bound)));
    }
    for (k, got) in gots {
        w.st.add(ct::ITEMS, got.len());
        ensure!(
            got == want,
            tag::X,
            "{k} #{x}: the events are {got:?}, expected {want:?}"
        );
    }
    // Tree building by each of the ways.
    let tree0 = w.trees.len();
    for way in 0..13 {
        let what = format!("#{x} rebuilt in the way {way}");
        let mut ev = match to_events(&n) {
            Ok(e) => e,
            Err(()) => return dv(tag::X, format!("{what}: an event is an error")),
        };
        if way % 3 == 1 || way == 8 {
            ev = resplit(w, ev);
        }
        let ids = insts(&ev);
        let mut moved = true;
        let mut lock = 0;
        let hold: Node<P>;
        let mut extra: Option<H> = None;
        macro_rules! built {
            ($r:expr) => {
                match $r {
                    Ok(v) => v,
                    Err(e) => return dv(tag::X, format!("{what}: refused with {e:?}")),
                }
            };
        }
        match way {
            0 | 1 => {
                let r: Result<Node<P>, TreeBuildError> = ev.into_iter().collect();
                hold = built!(r);
            }
            2 | 3 => {
                let r: Result<FrozenNode<P>, TreeBuildError> = ev.into_iter().collect();
                let f = built!(r);
                hold = f.plain();
                extra = Some(H::Fz(f));
                lock = 2;
            }
            4 | 5 => {
                let r: Result<HotNode<P>, TreeBuildError> = ev.into_iter().collect();
                let f = built!(r);
                hold = f.plain();
                extra = Some(H::Hot(f));
                lock = 1;
            }
            6 | 7 => {
                let r: Result<Tree<P>, TreeBuildError> = ev.into_iter().collect();
                let t = built!(r);
                hold = t.root();
                extra = Some(H::T(t));
            }
            8 => {
                let mut b = TreeBuilder::new();
                built!(b.push_events(ev));
                ensure!(b.is_root_closed(), tag::X, "{what}: the root is not closed");
                hold = built!(b.finish());
            }
            9 => {
                let mut b = TreeBuilder::default();
                for e in ev {
                    built!(b.push_event(e));
                }
                hold = b.finish_opt().unwrap();
            }
            10 => {
                moved = false;
                drop(ev);
                let r: Result<Node<P>, TreeBuildError> = n.depth_first_traverse().collect();
                hold = built!(r);
            }
            11 => {
                moved = false;
                drop(ev);
                let mut b = TreeBuilder::new();
                built!(b.push_dft_events(n.depth_first_traverse()));
                ensure!(b.is_root_closed(), tag::X, "{what}: the root is not closed");
                hold = built!(b.finish());
            }
            _ => {
                moved = false;
                drop(ev);
                let mut b = TreeBuilder::new();
                for e in n.depth_first_traverse() {
                    built!(b.push_dft_event(e));
                }
                hold = built!(b.finish());
            }
        }
        if moved {
            let got = pre_insts(&hold);
            ensure!(
                got == ids,
                tag::X,
                "{what}: the nodes do not have the given data: {got:?}, expected {ids:?}"
            );
        }
        let id = register_built(w, &hold, &snap, &what)?;
        let t = w.nodes[id].tree;
        ensure!(hold == n, tag::X, "{what}: the result differs from the source");
        // The copy serialises to the same events.
        let again = items_of(&hold, bound);
        ensure!(
            again == want,
            tag::X,
            "{what}: the events of the result are {again:?}, expected {want:?}"
        );
        let tr = hold.tree();
        let g = tr.grant_hierarchy_edit().is_ok();
        let p = tr.prohibit_hierarchy_edit().is_ok();
        ensure!(
            (g, p) == (lock != 2, lock != 1),
            tag::X,
            "{what}: the new tree is locked: grant={g}, prohibition={p}"
        );
        drop(tr);
        match extra {
            Some(H::T(tr)) => w.push(H::T(tr), t),
            Some(h) => w.push(h, id),
            None => w.push(H::N(hold.clone()), id),
        }
        drop(hold);
        w.st.inc(ct::USER1);
        w.gc();
        // Keep only a few of them.
        if w.pool.len() > 6 {
            let i = w.pool.len() - 1;
            if w.rng.chance(2, 3) {
                w.drop_handle(i)?;
            }
        }
    }
    // Item-wise conversion of the depth-first events.
    let mut got = vec![];
    for (k, e) in n.depth_first_traverse().enumerate() {
        let r: Result<Event<P>, _> = match (k % 3, e) {
            (0, e) => Event::try_from(e),
            (1, DftEvent::Open(m)) => match m.clone().bundle_new_hierarchy_edit_prohibition() {
                Ok(f) => Event::try_from(DftEvent::Open(f)),
                Err(_) => Event::try_from(DftEvent::Open(m)),
            },
            (1, DftEvent::Close(m)) => match m.clone().bundle_new_hierarchy_edit_prohibition() {
                Ok(f) => Event::try_from(DftEvent::Close(f)),
                Err(_) => Event::try_from(DftEvent::Close(m)),
            },
            (_, DftEvent::Open(m)) => match m.clone().bundle_new_hierarchy_edit_grant() {
                Ok(f) => Event::try_from(DftEvent::Open(f)),
                Err(_) => Event::try_from(DftEvent::Open(m)),
            },
            (_, DftEvent::Close(m)) => match m.clone().bundle_new_hierarchy_edit_grant() {
                Ok(f) => Event::try_from(DftEvent::Close(f)),
                Err(_) => Event::try_from(DftEvent::Close(m)),
            },
        };
        match r {
            Ok(e) => {
                let it = ev_items(&[e]).pop().unwrap();
                match (it, got.last_mut()) {
                    ((2, _, 1), Some((2, _, c))) => *c += 1,
                    _ => got.push(it),
                }
            }
            Err(_) => return dv(tag::X, format!("#{x}: conversion of event {k} failed")),
        }
    }
    ensure!(
        got == want,
        tag::X,
        "#{x}: converted depth-first events are {got:?}, expected {want:?}"
    );
    let mapped: Vec<Event<i64>> = match to_events(&n) {
        Ok(v) => v.into_iter().map(|e| e.map(|p| p.val + 1)).collect(),
        Err(()) => vec![],
    };
    let mw: Vec<Event<i64>> = want
        .iter()
        .map(|(k, v, c)| {
            if *k == 1 {
                Event::Open(*v as i64 + 1)
            } else {
                Event::Close(*c)
            }
        })
        .collect();
    ensure!(mapped == mw, tag::X, "#{x}: Event::map is wrong");
    // Independent: edits on either side do not affect the other.
    w.audit(tag::S | tag::M | tag::D)?;
    for _ in 0..4 {
        if let Some((e, fl)) = w.random_edit() {
            w.edit(e, fl)?;
        }
    }
    w.audit(tag::S | tag::M | tag::D | tag::W | tag::L)?;
    drop(n);
    w.unpin();
    w.audit(tag::W | tag::L)?;
    // Drop most copies.
    while w.trees.len() > tree0 && w.pool.len() > 8 {
        let i = w.pool.len() - 1;
        w.drop_handle(i)?;
    }
    Ok(())
}

/// Serialising while some data is mutably borrowed.
fn borrowed(w: &mut W<'_>, x: usize) -> R<()> {
    if !w.nodes[x].alive {
        return Ok(());
    }
    let sub = w.subtree(x);
    let b = *w.rng.pick(&sub);
    let n = w.node(x)?;
    let m = w.node(b)?;
    let guard = match m.try_borrow_data_mut() {
        Ok(g) => g,
        Err(_) => return dv(tag::D, "cannot borrow"),
    };
    w.mut_borrowed.push(b);
    w.tr(format!("serialise #{x} while #{b} is borrowed"));
    let want = ser_items(w, x);
    let live_before = ledger_live();
    let r = (|| -> R<()> {
        let got = items_of(&n, want.len() + 2);
        ensure!(
            got == want,
            tag::X,
            "#{x} with the data of #{b} borrowed: the events are {got:?}, expected {want:?}"
        );
        let r: Result<Vec<Event<P>>, _> = n.to_events().collect();
        ensure!(
            r.is_err(),
            tag::X,
            "#{x} with the data of #{b} borrowed was serialised without an error"
        );
        drop(r);
        let r: Result<Node<P>, TreeBuildError> = n.depth_first_traverse().collect();
        ensure!(
            matches!(r, Err(TreeBuildError::BorrowData(_))),
            tag::X,
            "#{x} with the data of #{b} borrowed: rebuilding gives {r:?}"
        );
        drop(r);
        // The builder stays as it was, and can go on.
        let mut tb = TreeBuilder::new();
        let mut failed = 0;
        for e in n.depth_first_traverse() {
            let is_b = e.as_value().ptr_eq(&m);
            let open = matches!(e, DftEvent::Open(_));
            match tb.push_dft_event(e) {
                Ok(()) => ensure!(
                    !(is_b && open),
                    tag::X,
                    "the open event of borrowed #{b} was accepted"
                ),
                Err(e @ TreeBuildError::BorrowData(_)) if is_b && open => {
                    error_says!(&e, true, tag::X);
                    failed += 1;
                    if tb.open(P::new(-5)).is_err() {
                        return dv(tag::X, "the builder does not go on after a borrow error");
                    }
                }
                Err(e) => return dv(tag::X, format!("a valid event was refused with {e:?}")),
            }
        }
        ensure!(failed == 1, tag::X, "#{b} was opened {failed} times");
        let t = tb.finish().unwrap();
        let mut ww: Vec<Item> = want.clone();
        for i in &mut ww {
            if i.0 == 3 {
                *i = (1, -5i64 as usize, 0);
            }
        }
        let got = items_of(&t, ww.len() + 2);
        ensure!(got == ww, tag::X, "built {got:?}, expected {ww:?}");
        w.st.inc(ct::USER2);
        Ok(())
    })();
    w.mut_borrowed.clear();
    drop(guard);
    r?;
    let live = ledger_live();
    ensure!(
        live == live_before,
        tag::X,
        "failed serialisation of #{x} leaves {} values behind",
        live as i64 - live_before as i64
    );
    Ok(())
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Copy, Debug)]
pub enum BE {
    Open,
    Close(usize),
}

/// Expected state of the builder.
struct BM {
    /// Nodes created by the builder: (value, instance, parent index).
    nodes: Vec<(i64, u64, Option<usize>)>,
    /// Model node of the existing root.
    existing: Option<usize>,
    started: bool,
    closed: bool,
    /// Open nodes below the existing root (or from the new root on).
    stack: Vec<usize>,
}
impl BM {
    fn available(&self) -> bool {
        self.existing.is_some() || self.started
    }
    fn depth(&self) -> usize {
        self.stack.len() + self.existing.is_some() as usize
    }
    /// Expected result of the event; `Err(true)` is `RootClosed`.
    fn expect(&self, e: BE) -> Result<(), bool> {
        match e {
            BE::Open if self.closed => Err(true),
            BE::Open => Ok(()),
            BE::Close(0) => Ok(()),
            BE::Close(_) if !self.available() => Err(false),
            BE::Close(_) if self.closed => Err(true),
            BE::Close(k) if k > self.depth() => Err(true),
            BE::Close(_) => Ok(()),
        }
    }
    fn apply(&mut self, e: BE, val: i64, inst: u64) {
        match e {
            BE::Open => {
                self.nodes.push((val, inst, self.stack.last().copied()));
                self.stack.push(self.nodes.len() - 1);
                self.started = true;
            }
            BE::Close(0) => {}
            BE::Close(k) if k == self.depth() => {
                self.stack.clear();
                self.closed = true;
            }
            BE::Close(k) => {
                let n = self.stack.len() - k;
                self.stack.truncate(n);
            }
        }
    }
}

/// The events collected into a tree at once: the first one that a builder refuses is the error.
fn collected(w: &mut W<'_>, events: &[BE], src: &Node<P>) -> R<()> {
    let src_val = src.borrow_data().val;
    for way in 0..5 {
        let dft = way == 4;
        if dft && !events.iter().all(|e| matches!(e, BE::Open | BE::Close(1))) {
            continue;
        }
        let mut m = BM {
            nodes: vec![],
            existing: None,
            started: false,
            closed: false,
            stack: vec![],
        };
        let mut exp: Result<(), bool> = Ok(());
        let mut input = vec![];
        for e in events {
            let (val, inst, p) = match e {
                BE::Open if !dft => {
                    let v = w.fresh();
                    let p = P::new(v);
                    (v, p.inst, Some(p))
                }
                _ => (src_val, u64::MAX, None),
            };
            input.push((*e, p));
            if exp.is_ok() {
                exp = m.expect(*e);
                if exp.is_ok() {
                    m.apply(*e, val, inst);
                }
            }
        }
        if exp.is_ok() && !m.started {
            exp = Err(false);
        }
        w.st.add(ct::ITEMS, events.len());
        let desc = format!("{events:?} collected in the way {way}");
        let got = catch(|| -> Result<Node<P>, TreeBuildError> {
            let it = input.into_iter();
            let f = |(e, p): (BE, Option<P>)| match e {
                BE::Open => Event::Open(p.unwrap()),
                BE::Close(k) => Event::Close(k),
            };
            Ok(match way {
                0 => it.map(f).collect::<Result<Node<P>, _>>()?,
                1 => it.map(f).collect::<Result<FrozenNode<P>, _>>()?.plain(),
                2 => it.map(f).collect::<Result<HotNode<P>, _>>()?.plain(),
                3 => it.map(f).collect::<Result<Tree<P>, _>>()?.root(),
                _ => it
                    .map(|(e, _)| match e {
                        BE::Open => DftEvent::Open(src.clone()),
                        _ => DftEvent::Close(src.clone()),
                    })
                    .collect::<Result<Node<P>, _>>()?,
            })
        });
        match (got, exp) {
            (Err(p), _) => return dv(tag::PANIC, format!("{desc} panicked: {p}")),
            (Ok(Err(e @ TreeBuildError::RootClosed)), Err(true))
            | (Ok(Err(e @ TreeBuildError::RootNotOpened)), Err(false)) => {
                error_says!(&e, false, tag::X);
                w.st.inc(ct::USER2);
            }
            (Ok(Ok(n)), Ok(())) => {
                let snap: Vec<(i64, usize)> = (0..m.nodes.len())
                    .map(|k| {
                        (
                            m.nodes[k].0,
                            m.nodes.iter().filter(|q| q.2 == Some(k)).count(),
                        )
                    })
                    .collect();
                if !dft {
                    let got = pre_insts(&n);
                    let want: Vec<u64> = m.nodes.iter().map(|q| q.1).collect();
                    ensure!(got == want, tag::X, "{desc}: the nodes have other data than given");
                }
                let id = register_built(w, &n, &snap, &desc)?;
                if w.rng.chance(1, 3) {
                    w.push(H::N(n), id);
                }
                w.gc();
            }
            (Ok(r), e) => {
                return dv(
                    tag::X,
                    format!(
                        "{desc}: got {:?}, expected {}",
                        r.map(|_| "a tree"),
                        match e {
                            Ok(()) => "a tree",
                            Err(true) => "RootClosed",
                            Err(false) => "RootNotOpened",
                        }
                    ),
                )
            }
        }
    }
    Ok(())
}

/// `events`: the fixed events, otherwise random ones.
pub fn case_c13(w: &mut W<'_>, events: Option<&[BE]>, mode: usize) -> R<()> {
    let mut existing = None;
    if mode > 0 {
        // A tree with siblings and children around the start node.
        if events.is_some() {
            let v = w.build_shape(&[0, 0, 0, 0, 2, 2])?;
            existing = Some(if mode == 1 { v[0] } else { v[2] });
        } else {
            let n = w.rng.range(1, 10);
            crate::trav::big_tree(w, n)?;
            let live = w.live_nodes();
            existing = Some(*w.rng.pick(&live));
        }
    }
    // A source tree for depth-first events.
    let src = w.new_tree(0)?;
    let src_node = w.node(src)?;
    let mut m = BM {
        nodes: vec![],
        existing,
        started: false,
        closed: false,
        stack: vec![],
    };
    let hot = match existing {
        Some(x) => {
            // The builder preserves the tree.
            w.pool.push(Ent {
                h: H::Pin,
                t: x,
                pinned: true,
            });
            w.hot(x)?
        }
        None => None,
    };
    w.tr(format!("builder in mode {mode} from {existing:?}"));
    let mut b = match hot {
        Some(h) => TreeBuilder::with_root(h),
        None if w.rng.bool() => TreeBuilder::new(),
        None => TreeBuilder::default(),
    };
    // Model ids of the builder's nodes in the world (only with an existing root).
    let mut world_ids: Vec<usize> = vec![];
    let total = match events {
        Some(e) => e.len(),
        None => w.rng.range(1, 30),
    };
    let opens = *w.rng.pick(&[30, 50, 65]);
    let mut i = 0;
    let mut hash = mode as u64;
    let mut all: Vec<BE> = vec![];
    while i < total {
        // One batch.
        let bl = match w.rng.below(4) {
            0 => w.rng.range(1, 6),
            _ => 1,
        };
        let mut batch: Vec<BE> = vec![];
        for k in 0..bl {
            if i + k >= total {
                break;
            }
            batch.push(match events {
                Some(e) => e[i + k],
                None => {
                    if w.rng.below(100) < opens {
                        BE::Open
                    } else {
                        match w.rng.below(10) {
                            0 => BE::Close(0),
                            1 => BE::Close(w.rng.range(1, m.depth() + 2)),
                            2 => BE::Close(w.rng.range(1, m.depth().max(1))),
                            3 if w.rng.chance(1, 8) => {
                                BE::Close(w.rng.edge())
                            }
                            _ => BE::Close(1),
                        }
                    }
                }
            });
        }
        i += batch.len();
        all.extend(batch.iter().copied());
        let how = w.rng.below(4);
        // Depth-first events express single closings only.
        let dft_ok = batch.iter().all(|e| matches!(e, BE::Open | BE::Close(1)));
        let dft = dft_ok && w.rng.chance(1, 4);
        let mut vals = vec![];
        let mut payloads = vec![];
        for e in &batch {
            if matches!(e, BE::Open) && !dft {
                let v = w.fresh();
                let p = P::new(v);
                vals.push((v, p.inst));
                payloads.push(Some(p));
            } else {
                vals.push((w.nodes[src].val, u64::MAX));
                payloads.push(None);
            }
        }
        w.tr(format!("batch {batch:?} (way {how}, dft {dft})"));
        let before_created = m.nodes.len();
        // What is expected of the batch.
        let mut exp: Result<(), bool> = Ok(());
        let mut applied = 0;
        for (k, e) in batch.iter().enumerate() {
            match m.expect(*e) {
                Ok(()) => {
                    m.apply(*e, vals[k].0, vals[k].1);
                    applied += 1;
                }
                Err(x) => {
                    exp = Err(x);
                    break;
                }
            }
            hash = hash2(
                hash,
                match e {
                    BE::Open => 1,
                    BE::Close(k) => 2 + (*k).min(50) as u64,
                },
            );
        }
        // The source of the events may panic after the last one.
        let stop = exp.is_ok()
            && if dft { how % 2 == 0 } else { how < 2 }
            && w.rng.chance(1, 5);
        let got = {
            let b = &mut b;
            let batch2 = batch.clone();
            let sn = &src_node;
            catch(move || {
                let mut it = batch2.into_iter().zip(payloads).chain(iter::from_fn(|| {
                    if stop {
                        panic!("source");
                    }
                    None
                }));
                if dft {
                    let f = |(e, _p): (BE, Option<P>)| match e {
                        BE::Open => DftEvent::Open(sn.clone()),
                        _ => DftEvent::Close(sn.clone()),
                    };
                    if how % 2 == 0 {
                        b.push_dft_events(it.map(f))
                    } else {
                        it.map(f).try_for_each(|e| b.push_dft_event(e))
                    }
                } else {
                    let f = |(e, p): (BE, Option<P>)| match e {
                        BE::Open => Event::Open(p.unwrap()),
                        BE::Close(k) => Event::Close(k),
                    };
                    match how {
                        0 | 1 => b.push_events(it.map(f)),
                        2 => it.map(f).try_for_each(|e| b.push_event(e)),
                        _ => it.try_for_each(|(e, p)| match e {
                            BE::Open => b.open(p.unwrap()),
                            BE::Close(k) => b.close(k),
                        }),
                    }
                }
            })
        };
        w.st.add(ct::ITEMS, batch.len());
        let desc = format!("batch {batch:?} in state {hash:x} (mode {mode})");
        match (got, exp) {
            // What came before the panic has been applied.
            (Err(_), _) if stop => w.st.inc(ct::USER2),
            (Ok(r), _) if stop => {
                return dv(tag::X, format!("{desc}: the panic of the source is lost: {r:?}"))
            }
            (Err(p), _) => return dv(tag::PANIC, format!("{desc} panicked: {p}")),
            (Ok(Ok(())), Ok(())) => {}
            (Ok(Err(e @ TreeBuildError::RootClosed)), Err(true))
            | (Ok(Err(e @ TreeBuildError::RootNotOpened)), Err(false)) => {
                error_says!(&e, false, tag::X);
                w.st.inc(ct::USER2);
                hash = hash2(hash, 99);
            }
            (Ok(r), e) => {
                return dv(
                    tag::X,
                    format!(
                        "{desc}: got {r:?}, expected {} after {applied} events",
                        match e {
                            Ok(()) => "acceptance",
                            Err(true) => "RootClosed",
                            Err(false) => "RootNotOpened",
                        }
                    ),
                )
            }
        }
        ensure!(
            b.is_root_available() == m.available() && b.is_root_closed() == m.closed,
            tag::X,
            "{desc}: root available={}, closed={}, expected {} and {}",
            b.is_root_available(),
            b.is_root_closed(),
            m.available(),
            m.closed
        );
        // Created nodes are within the existing tree, or only in the builder.
        if let Some(x) = existing {
            let tree = w.nodes[x].tree;
            for k in before_created..m.nodes.len() {
                let (val, mut inst, parent) = m.nodes[k];
                let pid = parent.map_or(x, |p| world_ids[p]);
                // The node must be the last child of the current one.
                let pn = w.node(pid)?;
                let later = m.nodes[k + 1..].iter().filter(|q| q.2 == parent).count();
                let mut c = pn.last_child();
                for _ in 0..later {
                    c = c.and_then(|c| c.prev_sibling());
                }
                let c = match c {
                    Some(c) => c,
                    None => {
                        return dv(
                            tag::X,
                            format!("{desc}: node {val} was not created under #{pid}"),
                        )
                    }
                };
                {
                    let d = c.borrow_data();
                    if inst == u64::MAX {
                        inst = d.inst;
                    }
                    ensure!(
                        d.val == val && d.inst == inst,
                        tag::X,
                        "{desc}: the last child of #{pid} is {}, expected {val}",
                        d.val
                    );
                    ensure!(
                        !w.inst2id.contains_key(&inst),
                        tag::X,
                        "{desc}: the created node is #{}",
                        w.inst2id[&inst]
                    );
                }
                w.nweak.push(c.downgrade());
                let id = w.m_new_node(inst, val, tree);
                w.m_insert(id, Dest::Last, pid);
                world_ids.push(id);
            }
        } else {
            w.extra_live = m.nodes.len();
        }
        w.audit(tag::S | tag::D | tag::L | tag::W | tag::M)
            .map_err(|d| Div {
                tag: tag::X,
                msg: format!("{desc}: {}", d.msg),
            })?;
    }
    // The end.
    w.extra_live = 0;
    let fin = w.rng.below(3);
    match (existing, fin) {
        (_, 2) => {
            w.tr("drop the builder");
            drop(b);
        }
        (Some(x), _) => {
            let n = if fin == 0 {
                b.finish().ok()
            } else {
                b.finish_opt()
            };
            let n = match n {
                Some(n) => n,
                None => return dv(tag::X, "the builder with an existing root has no root"),
            };
            let id = w.ident(&n)?;
            ensure!(id == x, tag::X, "the builder returns #{id}, expected #{x}");
        }
        (None, _) => {
            let n = if fin == 0 {
                match b.finish() {
                    Ok(n) => Some(n),
                    Err(TreeBuildError::RootNotOpened) => None,
                    Err(e) => return dv(tag::X, format!("finish() failed with {e:?}")),
                }
            } else {
                b.finish_opt()
            };
            ensure!(
                n.is_some() == m.started,
                tag::X,
                "finish: root={}, expected {}",
                n.is_some(),
                m.started
            );
            if let Some(n) = n {
                let snap: Vec<(i64, usize)> = (0..m.nodes.len())
                    .map(|k| {
                        (
                            m.nodes[k].0,
                            m.nodes.iter().filter(|q| q.2 == Some(k)).count(),
                        )
                    })
                    .collect();
                let got = pre_insts(&n);
                for (k, (_, inst, _)) in m.nodes.iter().enumerate() {
                    ensure!(
                        *inst == u64::MAX || got.get(k) == Some(inst),
                        tag::X,
                        "node {k} of the built tree has other data than given"
                    );
                }
                let id = register_built(w, &n, &snap, "built tree")?;
                w.push(H::N(n), id);
            }
        }
    }
    w.pool.retain(|e| !e.pinned);
    w.gc();
    if mode == 0 {
        collected(w, &all, &src_node)?;
    }
    drop(src_node);
    w.audit(tag::S | tag::D | tag::L | tag::W | tag::M | tag::K)
        .map_err(|d| Div {
            tag: tag::X,
            msg: format!("after the builder has finished: {}", d.msg),
        })?;
    if w.st.seen(hash) {
        w.st.inc(ct::USER1);
    }
    Ok(())
}

/// The `k`-th event string over a small alphabet.
pub fn event_string(mut k: usize) -> (Vec<BE>, usize) {
    const A: [BE; 5] = [
        BE::Open,
        BE::Close(1),
        BE::Close(2),
        BE::Close(0),
        BE::Close(3),
    ];
    let mode = k % 3;
    k /= 3;
    let mut len = 1;
    let mut cnt = 5;
    while k >= cnt {
        k -= cnt;
        len += 1;
        cnt *= 5;
    }
    let mut v = vec![];
    for _ in 0..len {
        v.push(A[k % 5]);
        k /= 5;
    }
    (v, mode)
}
/// Number of event strings up to the length.
pub fn num_strings(len: u32) -> u64 {
    3 * (1..=len).map(|l| 5u64.pow(l)).sum::<u64>()
}
