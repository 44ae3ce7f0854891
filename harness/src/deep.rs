//! C18: very deep and very wide trees in bounded stack space.

use std::cell::Cell;

use dendron::serial::{Event, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{AdoptAs, FrozenNode, HotNode, InsertAs, Node, Tree};

use crate::ensure;
use crate::payload::catch;
use crate::rng::{hash2, Rng};
use crate::world::*;

thread_local! {
    static DROPS: Cell<usize> = const { Cell::new(0) };
    static MADE: Cell<usize> = const { Cell::new(0) };
    /// Lowest stack address seen from a callback.
    static LOW: Cell<usize> = const { Cell::new(usize::MAX) };
    /// Number of callbacks until one of them panics; 0 for never.
    static BOOM: Cell<usize> = const { Cell::new(0) };
}

/// Records how deep the stack is when user code is called.
#[inline(never)]
fn here() {
    let x = 0u8;
    let p = &x as *const u8 as usize;
    LOW.with(|l| {
        if p < l.get() {
            l.set(p)
        }
    });
    let b = BOOM.with(|c| c.get());
    if b > 0 {
        BOOM.with(|c| c.set(b - 1));
        if b == 1 {
            panic!("boom");
        }
    }
}
fn boom(n: usize) {
    BOOM.with(|c| c.set(n));
}

pub struct D(u32);
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        here();
        write!(f, "D({})", self.0)
    }
}
impl D {
    fn new(v: usize) -> D {
        MADE.with(|c| c.set(c.get() + 1));
        D(v as u32)
    }
}
impl std::fmt::Display for D {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        here();
        write!(f, "{}", self.0)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        DROPS.with(|c| c.set(c.get() + 1));
        here();
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        here();
        MADE.with(|c| c.set(c.get() + 1));
        D(self.0)
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        here();
        self.0 == o.0
    }
}

/// Data: `D` records what happens to it, the others are plain.
pub trait Dat: Clone + PartialEq + std::fmt::Debug + std::fmt::Display {
    const COUNTED: bool = false;
    /// There are values which differ.
    const DIFFER: bool = true;
    const NAME: &'static str;
    fn new(v: usize) -> Self;
    fn alter(&mut self);
}
impl Dat for D {
    const COUNTED: bool = true;
    const NAME: &'static str = "counted";
    fn new(v: usize) -> D {
        D::new(v)
    }
    fn alter(&mut self) {
        self.0 ^= 0x8000_0000;
    }
}
impl Dat for u64 {
    const NAME: &'static str = "u64";
    fn new(v: usize) -> u64 {
        v as u64
    }
    fn alter(&mut self) {
        *self ^= 1 << 63;
    }
}
impl Dat for String {
    const NAME: &'static str = "String";
    fn new(v: usize) -> String {
        v.to_string()
    }
    fn alter(&mut self) {
        self.push('!');
    }
}
impl Dat for &'static str {
    const NAME: &'static str = "&str";
    fn new(v: usize) -> &'static str {
        ["", "a", "b"][v % 3]
    }
    fn alter(&mut self) {
        *self = "!";
    }
}
/// Without a size.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Unit;
impl std::fmt::Display for Unit {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Unit")
    }
}
impl Dat for Unit {
    const NAME: &'static str = "without a size";
    const DIFFER: bool = false;
    fn new(_: usize) -> Unit {
        Unit
    }
    fn alter(&mut self) {}
}
/// Aligned, without a destructor.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(32))]
pub struct Wide([u32; 8]);
impl std::fmt::Display for Wide {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0[0])
    }
}
impl Dat for Wide {
    const NAME: &'static str = "aligned";
    fn new(v: usize) -> Wide {
        Wide([v as u32; 8])
    }
    fn alter(&mut self) {
        self.0[7] = !self.0[7];
    }
}

fn made() -> usize {
    MADE.with(|c| c.get())
}
fn drops() -> usize {
    DROPS.with(|c| c.get())
}

/// Ways to grow a tree.
pub const SHAPES: [&str; 10] = [
    "chain",
    "wide",
    "comb of leaves before",
    "comb of leaves after",
    "broom (deep, then wide)",
    "wide, of chains",
    "zigzag",
    "random, deep",
    "random",
    "two long legs",
];

/// Parents of the nodes; the position among the siblings is the order.
fn shape(rng: &mut Rng, k: usize, n: usize) -> Vec<(usize, bool)> {
    let mut v = vec![(0, false)];
    let leg = n / 2;
    for i in 1..n {
        v.push(match k {
            0 => (i - 1, false),
            1 => (0, i % 3 == 0),
            // Even nodes form the spine.
            2 => ((i - 1) / 2 * 2, i % 2 == 1),
            3 => {
                if i % 2 == 1 {
                    (i - 1, false)
                } else {
                    (i - 2, true)
                }
            }
            4 => (if i < leg { i - 1 } else { leg - 1 }, false),
            5 => {
                let len = 200;
                (if i % len == 1 { 0 } else { i - 1 }, false)
            }
            6 => {
                if i % 3 == 0 {
                    (i - 1, true)
                } else if i % 3 == 1 {
                    (i - 1, false)
                } else {
                    (i - 2 + (i % 2), false)
                }
            }
            7 => (i - 1 - rng.below(4.min(i)), rng.bool()),
            8 => (rng.below(i), rng.bool()),
            _ => {
                if i < leg {
                    (i - 1, false)
                } else if i == leg {
                    (0, rng.bool())
                } else {
                    (i - 1, false)
                }
            }
        });
    }
    v
}

/// Builds the tree; all handles of it are returned.
fn build<T: Dat>(v: &[(usize, bool)]) -> Vec<Node<T>> {
    let mut out: Vec<Node<T>> = Vec::with_capacity(v.len());
    out.push(Node::new_tree(T::new(0)));
    let g = out[0]
        .tree()
        .grant_hierarchy_edit()
        .expect("harness: grant");
    for (i, (p, first)) in v.iter().enumerate().skip(1) {
        let n = if *first {
            out[*p].create_as_first_child(&g, T::new(i))
        } else {
            out[*p].create_as_last_child(&g, T::new(i))
        };
        out.push(n);
    }
    out
}

/// Number of nodes of the subtree (by a traversal with explicit steps).
fn count<T>(n: &Node<T>) -> usize {
    n.depth_first_traverse()
        .filter(|e| matches!(e, DftEvent::Open(_)))
        .count()
}

pub const OPS: [&str; 37] = [
    "drop the root handle",
    "drop a leaf handle",
    "drop a mid handle",
    "drop a tree handle",
    "drop a hot handle",
    "drop a frozen handle",
    "drop an iterator",
    "drop many handles in random order",
    "detach and drop",
    "detach and drop the remaining part first",
    "replace nodes with their children",
    "move under a leaf of another deep tree",
    "move within the tree",
    "move the root to another tree",
    "clone and compare",
    "clone and insert",
    "compare different",
    "depth first",
    "depth first, stable, both ends",
    "breadth first",
    "siblings and ancestors",
    "breadth first without allocation",
    "events to a new tree",
    "builder",
    "abandoned builder",
    "push depth first events",
    "interrupt repeatedly",
    "clone of the tree",
    "detach many parts",
    "hot moves",
    "a destructor panics",
    "a clone panics",
    "a comparison panics",
    "an event source panics",
    "step from event to event",
    "pretty-print",
    "builder after a panic",
];

pub fn run(st: &mut Stats, idx: u64, rng: &mut Rng, n: usize, trace: &mut Vec<String>) -> R<()> {
    let k = (idx as usize) % SHAPES.len();
    let op = (idx as usize / SHAPES.len()) % OPS.len();
    let n = match op {
        // Quadratic on deep trees.
        21 => (n / 20).clamp(50, 12000),
        35 => (n / 10).clamp(50, 2500),
        _ => n,
    };
    let n = n + rng.below(n / 8 + 1);
    // Those with panics need data which can panic.
    let panics = matches!(op, 30..=33 | 36);
    type One = fn(&mut Stats, usize, &mut Rng, Vec<(usize, bool)>, usize) -> R<()>;
    fn pair<T: Dat>() -> (&'static str, One) {
        (T::NAME, one::<T>)
    }
    let (name, f) = match rng.below(11) {
        _ if panics => pair::<D>(),
        0 => pair::<u64>(),
        1 => pair::<String>(),
        2 => pair::<&'static str>(),
        3 => pair::<Unit>(),
        4 => pair::<Wide>(),
        _ => pair::<D>(),
    };
    trace.push(format!("{} nodes, shape: {}; {}; data: {name}", n, SHAPES[k], OPS[op]));
    let (a0, _) = crate::payload::live_allocs();
    let v = shape(rng, k, n);
    let (m0, d0) = (made(), drops());
    let top = 0u8;
    let top = &top as *const u8 as usize;
    LOW.with(|l| l.set(usize::MAX));
    let r = catch(|| f(st, op, rng, v, n));
    boom(0);
    let r = match r {
        Ok(r) => r,
        Err(m) => crate::outer_panic(m),
    };
    r?;
    if !panics {
        let (a1, _) = crate::payload::live_allocs();
        ensure!(
            a1 == a0,
            tag::X,
            "{} allocations are left after all handles were dropped",
            a1 - a0
        );
    }
    st.seen(hash2(k as u64 * 100 + op as u64, n as u64));
    let (m1, d1) = (made() - m0, drops() - d0);
    ensure!(
        m1 == d1,
        tag::X,
        "{m1} values were made but {d1} were dropped"
    );
    st.add(ct::ITEMS, d1);
    let low = LOW.with(|l| l.get());
    if low != usize::MAX {
        let used = top.saturating_sub(low) as u64;
        st.c[ct::USER2] = st.c[ct::USER2].max(used);
    }
    st.inc(ct::USER1);
    Ok(())
}

fn hot<T>(n: &Node<T>) -> HotNode<T> {
    n.clone()
        .bundle_new_hierarchy_edit_grant()
        .expect("harness: grant")
}
fn frozen<T>(n: &Node<T>) -> FrozenNode<T> {
    n.clone()
        .bundle_new_hierarchy_edit_prohibition()
        .expect("harness: prohibition")
}

fn one<T: Dat>(st: &mut Stats, op: usize, rng: &mut Rng, v: Vec<(usize, bool)>, n: usize) -> R<()> {
    let mut ns = build(&v);
    let d0 = drops();
    let mid = rng.below(n);
    macro_rules! gone {
        ($k:expr, $what:expr) => {
            let d = drops() - d0;
            ensure!(
                d == $k || !T::COUNTED,
                tag::X,
                "{}: {d} values were dropped, expected {}",
                $what,
                $k
            );
        };
    }
    match op {
        0..=6 => {
            enum Any<T> {
                N(Node<T>),
                T(Tree<T>),
                H(HotNode<T>),
                F(FrozenNode<T>),
                I(dendron::traverse::DepthFirstTraverser<T>),
            }
            let h = match op {
                0 => Any::N(ns[0].clone()),
                1 => Any::N(ns[n - 1].clone()),
                2 => Any::N(ns[mid].clone()),
                3 => Any::T(ns[0].tree()),
                4 => Any::H(hot(&ns[mid])),
                5 => Any::F(frozen(&ns[mid])),
                _ => {
                    let mut it = ns[0].depth_first_traverse();
                    for _ in 0..mid {
                        it.next();
                    }
                    Any::I(it)
                }
            };
            ns.clear();
            gone!(0, "while a handle exists");
            match h {
                Any::N(h) => drop(h),
                Any::T(h) => drop(h),
                Any::H(h) => drop(h),
                Any::F(h) => drop(h),
                Any::I(h) => drop(h),
            }
            gone!(n, "after the last handle");
        }
        7 => {
            for i in (1..ns.len()).rev() {
                ns.swap(i, rng.below(i + 1));
            }
            while ns.len() > 1 {
                ns.pop();
            }
            gone!(0, "while a handle exists");
            ns.pop();
            gone!(n, "after the last handle");
        }
        8 | 9 => {
            let g = ns[0].tree().grant_hierarchy_edit().expect("harness: grant");
            let m = ns[mid].clone();
            let root = ns[0].clone();
            ns.clear();
            m.detach_subtree(&g);
            drop(g);
            let k = count(&m);
            if mid == 0 {
                ensure!(k == n, tag::X, "detached {k} nodes instead of {n}");
                drop((m, root));
                gone!(n, "after all handles");
            } else if op == 8 {
                drop(m);
                gone!(k, "after the handle of the detached part");
                drop(root);
                gone!(n, "after all handles");
            } else {
                drop(root);
                gone!(n - k, "after the handle of the remaining part");
                drop(m);
                gone!(n, "after all handles");
            }
        }
        10 => {
            let g = ns[0].tree().grant_hierarchy_edit().expect("harness: grant");
            let k = 200.min(n - 1);
            let mut removed = 0;
            for _ in 0..k {
                let i = rng.range(1, n - 1);
                if g.is_valid_for_node(&ns[i]) && ns[i].parent().is_some() && ns[i].num_children_rough() < 64
                {
                    ns[i].replace_with_children(&g);
                    removed += 1;
                }
            }
            drop(g);
            let c = count(&ns[0]);
            ensure!(
                c == n - removed,
                tag::X,
                "{c} nodes remain after {removed} of {n} were replaced"
            );
            ns.clear();
            gone!(n, "after all handles");
        }
        11 | 29 => {
            let mut rng2 = rng.clone();
            let k2 = rng.below(SHAPES.len());
            let v2 = shape(&mut rng2, k2, n);
            let other = build(&v2);
            let dest = hot(&other[n - 1]);
            let m = ns[mid].clone();
            let k = count(&m);
            let root = ns[0].clone();
            ns.clear();
            if op == 11 {
                let g = root.tree().grant_hierarchy_edit().expect("harness: grant");
                m.detach_insert_subtree(&g, InsertAs::FirstChildOf(&dest));
            } else {
                let hm = hot(&m);
                hm.detach_insert_subtree(InsertAs::LastChildOf(&dest));
                ensure!(hm.belongs_to_same_tree(&dest), tag::X, "wrong tree");
            }
            let c = count(&other[0]);
            ensure!(c == n + k, tag::X, "{c} nodes instead of {}", n + k);
            drop(root);
            if mid != 0 {
                gone!(n - k, "after the handles of the source");
            }
            drop(m);
            drop(dest);
            drop(other);
            gone!(2 * n, "after all handles");
        }
        12 => {
            let h = hot(&ns[0]);
            for _ in 0..20 {
                let i = rng.below(n);
                let j = rng.below(n);
                let (a, b) = (hot(&ns[i]), hot(&ns[j]));
                let d = match rng.below(4) {
                    0 => InsertAs::FirstChildOf(&b),
                    1 => InsertAs::LastChildOf(&b),
                    2 => InsertAs::PreviousSiblingOf(&b),
                    _ => InsertAs::NextSiblingOf(&b),
                };
                let _ = a.try_detach_insert_subtree(d);
            }
            let c = count(&ns[0]);
            ensure!(c == n, tag::X, "{c} nodes instead of {n}");
            drop(h);
            ns.clear();
            gone!(n, "after all handles");
        }
        13 => {
            let other = Node::new_tree(T::new(7));
            let dest = hot(&other);
            let root = hot(&ns[0]);
            let keep = ns[mid].clone();
            ns.clear();
            let r = root.try_detach_insert_subtree(InsertAs::LastChildOf(&dest));
            ensure!(r.is_ok(), tag::X, "the root was not moved");
            drop(root);
            drop((other, dest));
            gone!(0, "while a handle exists");
            let c = count(&keep.root());
            ensure!(c == n + 1, tag::X, "{c} nodes instead of {}", n + 1);
            drop(keep);
            gone!(n + 1, "after all handles");
        }
        14 | 27 => {
            let at = if op == 27 { 0 } else { mid };
            let c = if op == 27 {
                ns[0].tree().clone_tree().root()
            } else {
                ns[at].clone_subtree()
            };
            let k = count(&ns[at]);
            ensure!(count(&c) == k, tag::X, "the clone lacks nodes");
            ensure!(
                c.try_eq(&ns[at]).ok() == Some(true),
                tag::X,
                "the clone is not equal"
            );
            ensure!(c == ns[at], tag::X, "the clone is not equal");
            drop(c);
            gone!(k, "after dropping the clone");
            ns.clear();
            gone!(n + k, "after all handles");
        }
        15 => {
            let leaf = hot(&ns[n - 1]);
            let at = if rng.bool() { 0 } else { mid };
            let k = count(&ns[at]);
            let c = ns[at].clone_insert_subtree(InsertAs::LastChildOf(&leaf));
            ensure!(count(&c.plain()) == k, tag::X, "the clone lacks nodes");
            let t = count(&ns[0]);
            ensure!(t == n + k, tag::X, "{t} nodes instead of {}", n + k);
            drop((leaf, c));
            ns.clear();
            gone!(n + k, "after all handles");
        }
        16 => {
            let c = ns[0].clone_subtree();
            let i = rng.below(n);
            if let Ok(mut d) = ns[i].try_borrow_data_mut() {
                d.alter();
            }
            ensure!(
                c.try_eq(&ns[0]).ok() == Some(!T::DIFFER) && (c == ns[0]) != T::DIFFER,
                tag::X,
                "different trees are equal"
            );
            let g = c.tree().grant_hierarchy_edit().expect("harness: grant");
            c.create_as_last_child(&g, T::new(0));
            ensure!(c != ns[0], tag::X, "different trees are equal");
        }
        17 => {
            let c = ns[0].depth_first_traverse().count();
            let r = ns[0].depth_first_reverse_traverse().count();
            ensure!(
                c == 2 * n && r == 2 * n,
                tag::X,
                "{c} and {r} events for {n} nodes"
            );
            let mut it = ns[0].depth_first_traverse();
            let mut steps = 0;
            while it.next().is_some() {
                if steps == mid {
                    it.close_current();
                }
                steps += 1;
            }
            let c = it.clone();
            drop((it, c));
        }
        18 => {
            let f = frozen(&ns[0]);
            let mut it = f.depth_first_traverse_stable();
            let mut k = 0;
            loop {
                let x = if rng.bool() { it.next() } else { it.next_back() };
                if x.is_none() {
                    break;
                }
                k += 1;
            }
            ensure!(k == 2 * n, tag::X, "{k} events for {n} nodes");
            for lim in [None, Some(0), Some(3), Some(n)] {
                let c = f.shallow_depth_first_traverse_stable(lim).count();
                let d = f.shallow_depth_first_traverse_stable(lim).rev().count();
                ensure!(c == d, tag::X, "{c} events, and {d} in reverse");
            }
            let _ = f.shallow_depth_first_traverse_stable(Some(n)).size_hint();
        }
        19 => {
            let f = frozen(&ns[0]);
            let c = f.allocating_breadth_first_traverse_stable(0).count();
            ensure!(c == n, tag::X, "{c} of {n} nodes");
            let mut it = f.allocating_breadth_first_traverse_stable(mid % 7);
            it.next();
            it.shrink_to_fit();
            let d = it.clone().count();
            ensure!(it.count() == d, tag::X, "a clone differs");
        }
        20 => {
            let leaf = &ns[n - 1];
            let c = leaf.count_ancestors();
            let d = leaf.ancestors().count();
            ensure!(c == d, tag::X, "{c} ancestors, and {d} by traversal");
            let m = &ns[mid];
            let a = m.siblings().count();
            let b = m.siblings_reverse().count();
            let c = m.count_preceding_siblings() + m.count_following_siblings() + 1;
            ensure!(a == b && a == c, tag::X, "{a}, {b}, {c} siblings");
            let f = frozen(m);
            ensure!(f.siblings_stable().count() == a, tag::X, "stable siblings");
            ensure!(
                f.siblings_stable().rev().count() == a,
                tag::X,
                "stable siblings"
            );
            ensure!(leaf.root().ptr_eq(&ns[0]), tag::X, "root");
        }
        21 => {
            let f = frozen(&ns[0]);
            let c = f.non_allocating_breadth_first_traverse_stable(0).count();
            ensure!(c == n, tag::X, "{c} of {n} nodes");
        }
        22 => {
            let events: Result<Vec<_>, _> = ns[0].to_events().collect();
            let events = match events {
                Ok(v) => v,
                Err(_) => return dv(tag::X, "data is borrowed"),
            };
            let t: Result<Node<T>, _> = events.into_iter().collect();
            let t = t.expect("harness: events");
            ensure!(t == ns[0], tag::X, "the rebuilt tree differs");
            let tr: Result<Tree<T>, _> = ns[mid]
                .to_events()
                .map(|e| e.expect("harness: event"))
                .collect();
            let tr = tr.expect("harness: events");
            ensure!(tr.root() == ns[mid], tag::X, "the rebuilt tree differs");
        }
        23 => {
            let mut b = TreeBuilder::new();
            let mut depth = 0;
            let mut k = 0;
            while k < n {
                if depth > 1 && rng.chance(1, 4) {
                    let c = rng.range(1, depth - 1);
                    let c = c.min(3);
                    b.push_event(Event::Close(c)).expect("harness: close");
                    depth -= c;
                } else {
                    b.push_event(Event::Open(T::new(k))).expect("harness: open");
                    depth += 1;
                    k += 1;
                }
            }
            b.push_event(Event::Close(depth)).expect("harness: close");
            let r = b.finish();
            match r {
                Ok(r) => ensure!(count(&r) == n, tag::X, "the built tree lacks nodes"),
                Err(_) => return dv(tag::X, "the tree is not finished"),
            }
            gone!(n, "after the built tree");
        }
        24 => {
            let mut b = TreeBuilder::new();
            for i in 0..n {
                b.push_event(Event::Open(T::new(i))).expect("harness: open");
            }
            drop(b);
            gone!(n, "after the builder");
            let root = hot(&ns[mid]);
            let mut b = TreeBuilder::with_root(root);
            ns.clear();
            for i in 0..n {
                b.push_event(Event::Open(T::new(i))).expect("harness: open");
            }
            let r = b.finish_opt();
            drop(r);
            gone!(3 * n, "after the second builder");
        }
        25 => {
            let mut b: TreeBuilder<T> = TreeBuilder::new();
            let r = b.push_dft_events(ns[0].depth_first_traverse());
            ensure!(r.is_ok(), tag::X, "events are refused");
            match b.finish() {
                Ok(r) => ensure!(r == ns[0], tag::X, "the built tree differs"),
                Err(_) => return dv(tag::X, "the tree is not finished"),
            }
        }
        26 => {
            let g = ns[0].tree().grant_hierarchy_edit().expect("harness: grant");
            for i in 0..n / 2 {
                if i % 2 == 0 {
                    ns[0].create_as_interrupting_parent(&g, T::new(i));
                } else {
                    ns[mid].create_as_interrupting_child(&g, T::new(i));
                }
            }
            let c = count(&ns[0].root());
            ensure!(c == n + n / 2, tag::X, "{c} nodes");
            let t = ns[0].tree();
            drop(g);
            ns.clear();
            drop(t);
            gone!(n + n / 2, "after all handles");
        }
        28 => {
            let g = ns[0].tree().grant_hierarchy_edit().expect("harness: grant");
            let mut parts = vec![];
            for _ in 0..30 {
                let i = rng.below(n);
                if g.is_valid_for_node(&ns[i]) && i != 0 {
                    ns[i].detach_subtree(&g);
                    parts.push(ns[i].clone());
                }
            }
            drop(g);
            let mut total = count(&ns[0]);
            for p in &parts {
                total += count(p);
            }
            ensure!(total == n, tag::X, "{total} of {n} nodes");
            ns.truncate(1);
            while !parts.is_empty() {
                let i = rng.below(parts.len());
                parts.swap_remove(i);
            }
            ns.clear();
            gone!(n, "after all handles");
        }
        30 => {
            let k = rng.range(1, n);
            let last = ns.swap_remove(mid);
            ns.clear();
            boom(k);
            let r = catch(|| drop(last));
            ensure!(r.is_err(), tag::X, "the panic of a destructor is lost");
            gone!(n, "after the last handle");
        }
        31 => {
            let k = rng.range(1, n);
            boom(k);
            let r = match rng.below(3) {
                0 => catch(|| drop(ns[0].try_clone_subtree())),
                1 => catch(|| drop(ns[0].tree().try_clone_tree())),
                _ => {
                    let h = hot(&ns[mid]);
                    catch(|| drop(ns[0].try_clone_insert_subtree(InsertAs::LastChildOf(&h))))
                }
            };
            ensure!(r.is_err(), tag::X, "the panic of a clone is lost");
            // The panicking clone makes no value.
            gone!(k - 1, "after the failed clone");
            ensure!(count(&ns[0]) == n, tag::X, "the source was modified");
            ns.clear();
            gone!(n + k - 1, "after the last handle");
        }
        32 => {
            let o = ns[0].clone_subtree();
            boom(rng.range(1, n));
            let r = catch(|| o == ns[0]);
            ensure!(r.is_err(), tag::X, "the panic of a comparison is lost");
            drop(o);
            ns.clear();
            gone!(2 * n, "after the last handle");
        }
        33 => {
            let k = rng.range(1, n);
            let ev = (0..n).map(|i| {
                if i == k {
                    panic!("boom");
                }
                Event::Open(T::new(i))
            });
            let r = catch(|| drop(ev.collect::<Result<Node<T>, _>>()));
            ensure!(
                r.is_err() || k == n,
                tag::X,
                "the panic of an event source is lost"
            );
            gone!(k, "after the abandoned tree");
        }
        34 => {
            // The events of the root, of an inner node and of the last one.
            let at = [0, mid, n - 1];
            for i in at {
                let x = &ns[i];
                let o = DftEvent::Open(x.clone());
                let c = DftEvent::Close(x.clone());
                ensure!(
                    o.close_current().map_or(false, |y| y.ptr_eq(x)),
                    tag::X,
                    "closing node {i} from its open event"
                );
                let up = c.close_current();
                ensure!(
                    match (&up, x.parent()) {
                        (Some(a), Some(b)) => a.ptr_eq(&b),
                        (a, b) => a.is_none() && b.is_none(),
                    },
                    tag::X,
                    "closing the parent of node {i}"
                );
            }
            let mut k = 0;
            let mut e = Some(DftEvent::Open(ns[0].clone()));
            while let Some(x) = e {
                e = x.next();
                k += 1;
            }
            ensure!(k == 2 * n, tag::X, "{k} events for {n} nodes");
            let mut e = Some(DftEvent::Close(ns[0].clone()));
            while let Some(x) = e {
                e = x.prev();
                k -= 1;
            }
            ensure!(k == 0, tag::X, "{k} events are missing in reverse");
            {
                let f = frozen(&ns[0]);
                let c = DftEvent::Open(f.clone()).close_current();
                ensure!(c.map_or(false, |y| y.ptr_eq(&f)), tag::X, "closing frozen");
                let mut e = Some(DftEvent::Open(f));
                while let Some(x) = e {
                    e = if rng.chance(1, 1000) {
                        match x.close_current() {
                            Some(y) => DftEvent::Close(y).next(),
                            None => None,
                        }
                    } else {
                        x.next()
                    };
                }
            }
            let h = hot(&ns[0]);
            let c = DftEvent::Open(h.clone()).close_current();
            ensure!(c.map_or(false, |y| y.ptr_eq(&h)), tag::X, "closing hot");
            let mut e = Some(DftEvent::Close(h));
            while let Some(x) = e {
                e = x.prev();
            }
        }
        35 => {
            let want: usize = n - 1;
            struct Lines(usize);
            impl std::fmt::Write for Lines {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    self.0 += s.matches('\n').count();
                    Ok(())
                }
            }
            use std::fmt::Write as _;
            let _held = if rng.bool() { ns[mid].try_borrow_data_mut().ok() } else { None };
            let h = frozen(&ns[0]);
            let mut l = Lines(0);
            let r = match rng.below(4) {
                0 => write!(l, "{:?}", ns[0].debug_pretty_print()),
                1 => write!(l, "{}", ns[0].debug_pretty_print()),
                2 => write!(l, "{:?}", h.debug_pretty_print()),
                _ => write!(l, "{:?}", ns[0].tree().debug_pretty_print()),
            };
            ensure!(
                r.is_ok() && l.0 == want,
                tag::X,
                "pretty printing {n} nodes: {r:?}, {} line breaks",
                l.0
            );
        }
        36 => {
            let k = rng.below(n);
            let mut b = TreeBuilder::new();
            let ev = (0..n).map(|i| {
                if i == k {
                    panic!("boom");
                }
                Event::Open(T::new(i))
            });
            let r = catch(|| b.push_events(ev));
            ensure!(
                r.is_err() && drops() == d0,
                tag::X,
                "after the panic of an event source: {r:?}, {} values were dropped",
                drops() - d0
            );
            let c = b.close(k);
            ensure!(c.is_ok(), tag::X, "{k} nodes are not open: {c:?}");
            let got = b.finish_opt().map_or(0, |x| count(&x));
            ensure!(got == k, tag::X, "{got} nodes of {k} events");
        }
        _ => {}
    }
    let _ = AdoptAs::LastChild;
    st.inc(ct::OPS);
    Ok(())
}

trait Rough {
    fn num_children_rough(&self) -> usize;
}
impl<T> Rough for Node<T> {
    fn num_children_rough(&self) -> usize {
        self.children().take(65).count()
    }
}
