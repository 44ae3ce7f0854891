//! Trees, lock counts and event streams far beyond the sizes of the random
//! histories: a few hundred to tens of thousands of nodes, levels, children,
//! locks or events.  The model is a plain vector of parents and children.

use std::cell::Cell;

use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{HierarchyEditGrant, HierarchyEditProhibition, HierarchyError, HotNode, InsertAs, Node, NodeWeak, Tree, TreeWeak};

use crate::ensure;
use crate::payload::catch;
use crate::rng::{hash2, Rng};
use crate::world::*;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

pub struct V(pub usize);
impl V {
    fn new(v: usize) -> V {
        LIVE.with(|l| l.set(l.get() + 1));
        V(v)
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V::new(self.0)
    }
}
impl Drop for V {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        self.0 == o.0
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::fmt::Display for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
fn live() -> isize {
    LIVE.with(|l| l.get())
}

type N = Node<V>;

const KINDS: [&str; 8] = [
    "chain", "star", "comb", "broom", "deep random", "random", "binary", "fan of chains",
];

/// The number of nodes: small enough for the quadratic probes, around the
/// limits of one byte, around the limits of two bytes.
fn size(rng: &mut Rng, huge: bool) -> usize {
    match rng.below(if huge { 9 } else { 7 }) {
        0 => rng.range(30, 70),
        1 => rng.range(120, 140),
        2 | 3 => rng.range(250, 300),
        4 => rng.range(500, 560),
        5 => rng.range(1000, 1100),
        6 => rng.range(2000, 4200),
        7 => rng.range(32_760, 33_000),
        _ => rng.range(65_530, 66_000),
    }
}

/// Parents in an order in which they precede their children.
fn parents(rng: &mut Rng, kind: usize, n: usize) -> Vec<usize> {
    let mut v = vec![usize::MAX];
    let leg = n - n / 4 - 1;
    for i in 1..n {
        v.push(match kind {
            0 => i - 1,
            1 => 0,
            2 => {
                if i % 2 == 1 {
                    i.saturating_sub(2)
                } else {
                    i - 1
                }
            }
            3 => i.min(leg) - 1,
            4 => i - 1 - rng.below(4.min(i)),
            5 => rng.below(i),
            6 => (i - 1) / 2,
            _ => {
                if i % 64 == 1 {
                    0
                } else {
                    i - 1
                }
            }
        });
    }
    v
}

/// The model: a forest, with the handles of all nodes.
struct M {
    par: Vec<usize>,
    kids: Vec<Vec<usize>>,
    node: Vec<N>,
    val: Vec<usize>,
}
const NONE: usize = usize::MAX;

impl M {
    fn build(rng: &mut Rng, kind: usize, n: usize) -> M {
        let par = parents(rng, kind, n);
        let mut kids = vec![vec![]; n];
        for i in 1..n {
            kids[par[i]].push(i);
        }
        let mut m = M { par, kids, node: vec![], val: (0..n).collect() };
        // All handles are alive at the same time: as many grants as nodes.
        let mut hot: Vec<HotNode<V>> = vec![HotNode::new_tree(V::new(0))];
        let prepend = rng.bool();
        if prepend {
            for k in &mut m.kids {
                k.reverse();
            }
        }
        for i in 1..n {
            let p = &hot[m.par[i]];
            let h = if prepend {
                p.create_as_first_child(V::new(i))
            } else {
                p.create_as_last_child(V::new(i))
            };
            hot.push(h);
        }
        m.node = hot.iter().map(|h| h.plain()).collect();
        m
    }
    fn len(&self) -> usize {
        self.par.len()
    }
    fn root_of(&self, mut x: usize) -> usize {
        while self.par[x] != NONE {
            x = self.par[x];
        }
        x
    }
    fn roots(&self) -> Vec<usize> {
        (0..self.len()).filter(|x| self.par[*x] == NONE).collect()
    }
    fn idx(&self, x: usize) -> usize {
        self.kids[self.par[x]].iter().position(|c| *c == x).unwrap()
    }
    fn depth(&self, mut x: usize) -> usize {
        let mut d = 0;
        while self.par[x] != NONE {
            x = self.par[x];
            d += 1;
        }
        d
    }
    fn is_in(&self, x: usize, anc: usize) -> bool {
        let mut x = x;
        loop {
            if x == anc {
                return true;
            }
            if self.par[x] == NONE {
                return false;
            }
            x = self.par[x];
        }
    }
    /// (open?, node, depth below `x`)
    fn events(&self, x: usize) -> Vec<(bool, usize, usize)> {
        let mut out = vec![];
        let mut st = vec![(x, 0usize, false)];
        while let Some((y, d, closing)) = st.pop() {
            out.push((!closing, y, d));
            if !closing {
                st.push((y, d, true));
                for c in self.kids[y].iter().rev() {
                    st.push((*c, d + 1, false));
                }
            }
        }
        out
    }
    /// Breadth first.
    fn levels(&self, x: usize) -> Vec<(usize, usize)> {
        let mut out = vec![(x, 0)];
        let mut i = 0;
        while i < out.len() {
            let (y, d) = out[i];
            out.extend(self.kids[y].iter().map(|c| (*c, d + 1)));
            i += 1;
        }
        out
    }
    fn deepest(&self, x: usize) -> usize {
        self.levels(x).last().unwrap().0
    }
    /// A node of interest.
    fn some(&self, rng: &mut Rng) -> usize {
        let r = self.roots();
        let r = *rng.pick(&r);
        match rng.below(7) {
            0 => r,
            1 => self.deepest(r),
            2 => *self.kids[r].first().unwrap_or(&r),
            3 => *self.kids[r].last().unwrap_or(&r),
            4 => {
                let d = self.deepest(r);
                if self.par[d] == NONE { d } else { self.par[d] }
            }
            _ => rng.below(self.len()),
        }
    }
    fn unlink(&mut self, x: usize) {
        let p = self.par[x];
        if p != NONE {
            let i = self.idx(x);
            self.kids[p].remove(i);
            self.par[x] = NONE;
        }
    }
    fn link(&mut self, x: usize, d: Dest, y: usize) {
        let (p, i) = match d {
            Dest::First => (y, 0),
            Dest::Last => (y, self.kids[y].len()),
            Dest::Prev => (self.par[y], self.idx(y)),
            Dest::Next => (self.par[y], self.idx(y) + 1),
        };
        self.kids[p].insert(i, x);
        self.par[x] = p;
    }
    fn add(&mut self, v: usize, n: N) -> usize {
        self.par.push(NONE);
        self.kids.push(vec![]);
        self.node.push(n);
        self.val.push(v);
        self.len() - 1
    }
}

fn same(a: &Option<N>, m: &M, x: usize) -> bool {
    match a {
        None => x == NONE,
        Some(a) => x != NONE && a.ptr_eq(&m.node[x]),
    }
}

/// The links, the data and the membership of all nodes.
fn audit(st: &mut Stats, m: &M, what: &str, tag: u32) -> R<()> {
    st.inc(ct::AUDITS);
    let n = m.len();
    let mut trees: Vec<Option<Tree<V>>> = vec![None; n];
    for r in m.roots() {
        let t = m.node[r].tree();
        ensure!(t.root().ptr_eq(&m.node[r]), tag, "{what}: root of the tree of node {r}");
        for s in 0..r {
            if let Some(u) = &trees[s] {
                ensure!(!u.ptr_eq(&t), tag, "{what}: {s} and {r} are roots of the same tree");
            }
        }
        for (y, _) in m.levels(r) {
            if m.par[y] != NONE || y == r {
                let u = m.node[y].tree();
                ensure!(u.ptr_eq(&t), tag, "{what}: node {y} belongs to another tree than its root {r}");
            }
            let k = &m.kids[y];
            let nd = &m.node[y];
            st.inc(ct::NAV);
            ensure!(
                same(&nd.first_child(), m, k.first().copied().unwrap_or(NONE))
                    && same(&nd.last_child(), m, k.last().copied().unwrap_or(NONE)),
                tag, "{what}: first or last child of node {y}, expected {:?}, {:?}", k.first(), k.last()
            );
            ensure!(same(&nd.parent(), m, m.par[y]), tag, "{what}: parent of node {y}");
            ensure!(nd.is_root() == (y == r), tag, "{what}: is_root of node {y}");
            ensure!(
                nd.has_children() == !k.is_empty()
                    && nd.has_one_child() == (k.len() == 1)
                    && nd.has_multiple_children() == (k.len() > 1),
                tag, "{what}: has_*_child of node {y} with {} children", k.len()
            );
            ensure!(nd.num_children() == k.len() || k.len() > 4000, tag, "{what}: num_children of node {y} = {}, expected {}", nd.num_children(), k.len());
            for (i, c) in k.iter().enumerate() {
                let c = &m.node[*c];
                let (a, b) = (
                    if i == 0 { NONE } else { k[i - 1] },
                    k.get(i + 1).copied().unwrap_or(NONE),
                );
                ensure!(
                    same(&c.prev_sibling(), m, a) && same(&c.next_sibling(), m, b)
                        && c.has_prev_sibling() == (a != NONE) && c.has_next_sibling() == (b != NONE),
                    tag, "{what}: siblings of child {i} of node {y}"
                );
                if i < 3 || i + 3 > k.len() || i % 257 == 0 {
                    let (f, l) = c.first_last_sibling();
                    ensure!(
                        f.ptr_eq(&m.node[k[0]]) && l.ptr_eq(&m.node[k[k.len() - 1]])
                            && c.first_sibling().ptr_eq(&f) && c.last_sibling().ptr_eq(&l),
                        tag, "{what}: first or last sibling of child {i} of node {y}"
                    );
                    if i % 257 != 0 || i == 0 {
                        ensure!(
                            c.count_preceding_siblings() == i && c.count_following_siblings() == k.len() - 1 - i,
                            tag, "{what}: number of siblings around child {i} of {}: {}, {}", k.len(),
                            c.count_preceding_siblings(), c.count_following_siblings()
                        );
                    }
                }
            }
            match nd.try_borrow_data() {
                Ok(v) => ensure!(v.0 == m.val[y], tag, "{what}: data of node {y} is {}", v.0),
                Err(_) => return dv(tag, format!("{what}: data of node {y} is borrowed")),
            };
        }
        let d = m.deepest(r);
        ensure!(
            m.node[d].count_ancestors() == m.depth(d),
            tag, "{what}: {} ancestors of node {d}, expected {}", m.node[d].count_ancestors(), m.depth(d)
        );
        ensure!(m.node[d].root().ptr_eq(&m.node[r]), tag, "{what}: root() of node {d}");
        ensure!(m.node[d].belongs_to(&t) && m.node[d].belongs_to_same_tree(&m.node[r]), tag, "{what}: membership of node {d}");
        let nk = m.kids[r].len();
        ensure!(m.node[r].num_children() == nk && m.node[r].count_children() == nk, tag, "{what}: number of children of the root");
        trees[r] = Some(t);
    }
    Ok(())
}

fn hot(n: &N) -> R<HotNode<V>> {
    match n.clone().bundle_new_hierarchy_edit_grant() {
        Ok(h) => Ok(h),
        Err(e) => dv(tag::X, format!("no grant: {e}")),
    }
}

fn edit(st: &mut Stats, rng: &mut Rng, m: &mut M, trace: &mut Vec<String>) -> R<()> {
    let x = m.some(rng);
    let d = *rng.pick(&DESTS);
    let root = m.par[x] == NONE;
    let v = 1_000_000 + m.len();
    let h = hot(&m.node[x])?;
    match rng.below(8) {
        0 => {
            if root && d.is_sibling() {
                let r = h.try_create_node_as(V::new(v), d.adopt());
                ensure!(matches!(r, Err(HierarchyError::SiblingsWithoutParent)), tag::X, "a sibling of the root was created");
                return Ok(());
            }
            trace.push(format!("create {d:?} {x}"));
            let c = h.create_node_as(V::new(v), d.adopt()).plain();
            let c = m.add(v, c);
            m.link(c, d, x);
        }
        1 => {
            trace.push(format!("detach {x}"));
            h.detach_subtree();
            m.unlink(x);
        }
        2 | 3 => {
            let y = m.some(rng);
            let same_tree = m.root_of(x) == m.root_of(y);
            let hy = if same_tree { hot(&m.node[y])? } else {
                drop(h);
                let hy = hot(&m.node[y])?;
                let h = hot(&m.node[x])?;
                return mv(st, m, x, d, y, h, hy, trace);
            };
            return mv(st, m, x, d, y, h, hy, trace);
        }
        4 => {
            trace.push(format!("interrupt parent {x}"));
            let c = h.create_as_interrupting_parent(V::new(v)).plain();
            let c = m.add(v, c);
            if !root {
                m.link(c, Dest::Prev, x);
                m.unlink(x);
            }
            m.link(x, Dest::Last, c);
        }
        5 => {
            trace.push(format!("interrupt child {x}"));
            let c = h.create_as_interrupting_child(V::new(v)).plain();
            let c = m.add(v, c);
            let k = std::mem::take(&mut m.kids[x]);
            for y in &k {
                m.par[*y] = c;
            }
            m.kids[c] = k;
            m.link(c, Dest::Last, x);
        }
        6 => {
            trace.push(format!("replace {x} with its {} children", m.kids[x].len()));
            let r = h.try_replace_with_children();
            let n = m.kids[x].len();
            let ok = !root || n == 1;
            ensure!(r.is_ok() == ok, tag::X, "replace_with_children of {x} (root: {root}, {n} children) returned {r:?}");
            if !ok {
                return Ok(());
            }
            let k = std::mem::take(&mut m.kids[x]);
            if root {
                m.par[k[0]] = NONE;
            } else {
                let p = m.par[x];
                let i = m.idx(x);
                for y in &k {
                    m.par[*y] = p;
                }
                m.kids[p].splice(i..i + 1, k);
                m.par[x] = NONE;
            }
        }
        _ => {
            let y = m.some(rng);
            if m.par[y] == NONE && d.is_sibling() {
                return Ok(());
            }
            drop(h);
            let hy = hot(&m.node[y])?;
            trace.push(format!("clone {x} to {d:?} {y}"));
            let src = m.node[x].clone();
            let want: Vec<(usize, usize)> = m.levels(x).iter().map(|(z, _)| (*z, m.par[*z])).collect();
            let c = src.clone_insert_subtree(d.insert(&hy)).plain();
            register(st, m, &c, x, &want)?;
            let id = m.len() - want.len();
            m.link(id, d, y);
        }
    }
    st.inc(ct::EDIT_OK);
    Ok(())
}

fn mv(st: &mut Stats, m: &mut M, x: usize, d: Dest, y: usize, h: HotNode<V>, hy: HotNode<V>, trace: &mut Vec<String>) -> R<()> {
    let r = h.try_detach_insert_subtree(d.insert(&hy));
    trace.push(format!("move {x} to {d:?} {y}: {r:?}"));
    // The parent of the place must not be inside of the subtree.
    let bad = match d {
        Dest::First | Dest::Last => m.is_in(y, x),
        _ => m.par[y] == NONE || m.is_in(m.par[y], x),
    };
    if bad {
        ensure!(r.is_err(), tag::X, "moved {x} to {d:?} of {y}");
        st.inc(ct::EDIT_REFUSED);
        return Ok(());
    }
    if x == y && d.is_sibling() {
        // To where it already is, or refused: either way nothing moves.
        return Ok(());
    }
    ensure!(r.is_ok(), tag::X, "{x} was not moved to {d:?} of {y}: {r:?}");
    m.unlink(x);
    m.link(x, d, y);
    st.inc(ct::EDIT_OK);
    Ok(())
}

/// Registers a copy of the subtree `x`, given in breadth-first order.
fn register(st: &mut Stats, m: &mut M, c: &N, x: usize, want: &[(usize, usize)]) -> R<()> {
    let first = m.len();
    let mut of = std::collections::HashMap::new();
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(c.clone());
    let mut got = vec![];
    while let Some(n) = queue.pop_front() {
        ensure!(got.len() < want.len(), tag::X, "the copy of {x} has more nodes than the source");
        let mut k = n.first_child();
        while let Some(y) = k {
            k = y.next_sibling();
            queue.push_back(y);
        }
        got.push(n);
    }
    ensure!(got.len() == want.len(), tag::X, "the copy of {x} has {} nodes, expected {}", got.len(), want.len());
    for (n, (z, p)) in got.into_iter().zip(want) {
        let v = m.val[*z];
        ensure!(n.borrow_data().0 == v, tag::X, "the copy of node {z} has other data");
        let id = m.add(v, n);
        of.insert(*z, id);
        if id > first {
            let p = of[p];
            m.par[id] = p;
            m.kids[p].push(id);
        }
        st.inc(ct::CLONES);
    }
    Ok(())
}

pub fn run(prop: u32, idx: u64, st: &mut Stats, rng: &mut Rng, trace: &mut Vec<String>) -> R<()> {
    let l0 = live();
    // Every third one: small, but with data of some other type.
    let types = prop <= 17 && idx % 3 == 1;
    let r = match catch(|| if types { crate::types::run(prop, st, rng, trace) } else { case(prop, idx, st, rng, trace) }) {
        Ok(r) => r,
        Err(e) => crate::outer_panic(e),
    };
    r?;
    ensure!(live() == l0, tag::X, "{} values are alive after all handles were dropped", live() - l0);
    Ok(())
}

fn case(prop: u32, idx: u64, st: &mut Stats, rng: &mut Rng, trace: &mut Vec<String>) -> R<()> {
    let kind = idx as usize % KINDS.len();
    let n = size(rng, !matches!(prop, 17));
    let deep = matches!(kind, 0 | 2 | 3 | 4);
    trace.push(format!("{} of {n} nodes", KINDS[kind]));
    st.seen(hash2(hash2(prop as u64, kind as u64), n as u64));
    match prop {
        1..=9 | 16 if rng.chance(1, 4) => churn(prop, st, rng, n, trace)?,
        1..=6 if rng.chance(1, if prop > 3 { 2 } else { 6 }) => handles(st, rng, n, trace)?,
        1..=6 => {
            let mut m = M::build(rng, kind, n);
            audit(st, &m, "new", tag::X)?;
            let edits = if n > 5000 { 2 } else { rng.range(3, 8) };
            for _ in 0..edits {
                edit(st, rng, &mut m, trace)?;
                if n < 5000 {
                    audit(st, &m, trace.last().map_or("", |s| s), tag::X)?;
                }
            }
            audit(st, &m, "end", tag::X)?;
            if prop == 5 || prop == 6 {
                // One node keeps its whole tree alive, until it is dropped.
                let keep = m.some(rng);
                let r = m.root_of(keep);
                let size = m.levels(r).len();
                let weak: Vec<(TreeWeak<V>, bool)> = m.roots().iter().map(|s| (m.node[*s].tree().downgrade(), *s == r)).collect();
                let k = m.node[keep].clone();
                m.node.clear();
                ensure!(live() == size as isize, tag::X, "{} of {} values are alive through one node", live(), size);
                for (w, alive) in &weak {
                    ensure!(w.upgrade().is_some() == *alive, tag::X, "the tree handle can be upgraded: {}, expected {alive}", !alive);
                }
                let got = k.root().depth_first_traverse().count();
                ensure!(got == 2 * size, tag::X, "{got} events of a tree with {size} nodes");
                drop(k);
                ensure!(live() == 0, tag::X, "{} values are alive", live());
                ensure!(weak.iter().all(|(w, _)| w.upgrade().is_none()), tag::X, "a tree without handles can be upgraded");
            }
        }
        7 | 8 => locks(st, rng, n, trace)?,
        9 => {
            let m = M::build(rng, kind, n);
            let x = m.some(rng);
            let ev = m.events(x);
            depth_first(st, rng, &m, x, &ev)?;
        }
        10 => {
            let m = M::build(rng, kind, n);
            for _ in 0..3 {
                let x = m.some(rng);
                others(st, rng, &m, x)?;
            }
        }
        11 => {
            let m = M::build(rng, kind, n);
            let x = m.some(rng);
            hints(st, rng, &m, x)?;
        }
        12 | 13 => {
            let m = M::build(rng, kind, n);
            let x = m.some(rng);
            let ev = m.events(x);
            serial(st, rng, &m, x, &ev, prop)?;
        }
        14 => {
            let mut m = M::build(rng, kind, n);
            let x = m.some(rng);
            let want: Vec<(usize, usize)> = m.levels(x).iter().map(|(z, _)| (*z, m.par[*z])).collect();
            let all = m.levels(0).iter().map(|(z, _)| (*z, m.par[*z])).collect::<Vec<_>>();
            let c = match rng.below(4) {
                0 => m.node[x].clone_subtree(),
                1 => match m.node[x].try_clone_subtree() {
                    Ok(c) => c,
                    Err(e) => return dv(tag::X, format!("clone: {e}")),
                },
                2 => hot(&m.node[x])?.clone_subtree(),
                _ => {
                    let t = m.node[x].tree().clone_tree();
                    let r = t.root();
                    register(st, &mut m, &r, 0, &all)?;
                    return audit(st, &m, "clone_tree", tag::X);
                }
            };
            register(st, &mut m, &c, x, &want)?;
            audit(st, &m, "clone_subtree", tag::X)?;
            for _ in 0..2 {
                edit(st, rng, &mut m, trace)?;
            }
            audit(st, &m, "edits after clone_subtree", tag::X)?;
        }
        15 => {
            let m = M::build(rng, kind, n);
            equality(st, rng, &m)?;
        }
        16 => {
            let mut m = M::build(rng, kind, n);
            // Everything is borrowed in some way while the hierarchy changes.
            let nodes = m.node.clone();
            let shared = rng.bool();
            let x = rng.below(n);
            let mut guards = vec![];
            let mut excl = None;
            if shared {
                guards.extend(nodes.iter().map(|n| n.borrow_data()));
                guards.extend((0..rng.range(250, 70_000)).map(|_| nodes[x].borrow_data()));
            } else {
                excl = Some(nodes[x].borrow_data_mut());
            }
            for _ in 0..4 {
                let y = m.some(rng);
                if m.par[y] != NONE {
                    trace.push(format!("detach {y}"));
                    hot(&m.node[y])?.detach_subtree();
                    m.unlink(y);
                }
            }
            for r in m.roots() {
                let got = m.node[r].depth_first_traverse().count();
                let want = m.events(r).len();
                ensure!(got == want, tag::X, "{got} events under borrowed data, expected {want}");
            }
            ensure!(
                nodes[x].try_borrow_data_mut().is_err() && nodes[x].try_borrow_data().is_ok() == shared,
                tag::X, "the borrow state of node {x} is wrong"
            );
            st.add(ct::USER1, guards.len());
            drop(excl);
            while guards.len() > 1 {
                guards.pop();
            }
            if shared {
                ensure!(nodes[0].try_borrow_data_mut().is_err() && nodes[0].try_borrow_data().is_ok(), tag::X, "one shared borrow does not count");
            }
            guards.clear();
            audit(st, &m, "end", tag::X)?;
            for n in &nodes {
                ensure!(n.try_borrow_data_mut().is_ok(), tag::X, "data is still borrowed");
            }
        }
        17 => {
            let n = if deep { n.min(600) } else { n };
            let m = M::build(rng, kind, n);
            let x = m.some(rng);
            show(st, &m, x)?;
        }
        20 => {
            // Edits behind the position of a plain traversal.
            let mut m = M::build(rng, kind, n);
            let ev = m.events(0);
            let mut it = m.node[0].depth_first_traverse();
            let step = rng.range(1, ev.len() / 3 + 1);
            for (i, (open, y, _)) in ev.iter().enumerate() {
                let e = it.next();
                let ok = match &e {
                    Some(DftEvent::Open(g)) => *open && g.ptr_eq(&m.node[*y]),
                    Some(DftEvent::Close(g)) => !*open && g.ptr_eq(&m.node[*y]),
                    None => false,
                };
                ensure!(ok, tag::X, "event {i} of the traversal, expected {} {y}", if *open { "Open" } else { "Close" });
                st.inc(ct::ITEMS);
                // A node which was left, and whose successor is not yet fixed.
                if i % step == step - 1 && !*open && i > 2 {
                    let (o2, z, _) = ev[i / 2];
                    if !o2 && z != *y && !m.is_in(*y, z) && m.par[z] != NONE && m.kids[z].is_empty() && m.par[z] != m.par[*y] {
                        hot(&m.node[z])?.detach_subtree();
                        m.unlink(z);
                        st.inc(ct::USER2);
                    }
                }
            }
            ensure!(it.next().is_none(), tag::X, "the traversal goes on after its end");
        }
        _ => return dv(0, "harness: no such case"),
    }
    Ok(())
}

/// Very many handles of a few nodes: each of them keeps its tree alive, and
/// none of them does more than that.
fn handles(st: &mut Stats, rng: &mut Rng, n: usize, trace: &mut Vec<String>) -> R<()> {
    #[allow(dead_code)]
    enum K {
        N(N),
        T(Tree<V>),
        D(dendron::traverse::DepthFirstTraverser<V>),
        S(dendron::traverse::SiblingsTraverser<V>),
        NW(NodeWeak<V>),
        TW(TreeWeak<V>),
    }
    // A handle and its node, or its tree.
    struct E(K, usize);
    let l0 = live();
    let size = rng.range(1, 12);
    let kind = rng.below(KINDS.len());
    let mut m = M::build(rng, kind, size);
    // The tree of each node; a tree keeps its number.
    let mut tree_of = vec![0usize; size];
    let nweak: Vec<NodeWeak<V>> = m.node.iter().map(|n| n.downgrade()).collect();
    let mut tweak: Vec<TreeWeak<V>> = vec![m.node[0].tree().downgrade()];
    let spread = rng.range(1, 3.min(size));
    let few: Vec<usize> = (0..spread).map(|_| rng.below(size)).collect();
    let ways = 1 + rng.below(1023);
    trace.push(format!("{n} handles of the nodes {few:?} of {size}, ways {ways:#b}"));
    let mut v: Vec<E> = vec![];
    let change_at = [rng.below(n), rng.below(n), rng.below(n)];
    let mut turns = 0;
    while v.len() < n && turns < 40 * n {
        turns += 1;
        if change_at.contains(&turns) {
            let x = rng.below(size);
            let other = (0..size).find(|y| tree_of[*y] != tree_of[x]);
            match other {
                _ if m.par[x] == NONE => {
                    // Its tree would be empty, which handles of the tree forbid.
                    if let Some(y) = other {
                        let t = tree_of[x];
                        let held = v.iter().any(|e| matches!(e.0, K::T(_)) && e.1 == t);
                        let r = hot(&m.node[x])?.try_detach_insert_subtree(InsertAs::LastChildOf(&hot(&m.node[y])?));
                        trace.push(format!("move root {x} below {y} with {} handles: {r:?}", v.len()));
                        ensure!(r.is_err() == held, tag::X, "the move of the root {x} to another tree: {r:?}, tree held: {held}");
                        if !held {
                            m.link(x, Dest::Last, y);
                            for (z, _) in m.levels(x) {
                                tree_of[z] = tree_of[y];
                            }
                        }
                    }
                }
                Some(y) if rng.bool() => {
                    trace.push(format!("move {x} below {y} with {} handles", v.len()));
                    let h = hot(&m.node[x])?;
                    h.detach_insert_subtree(InsertAs::LastChildOf(&hot(&m.node[y])?));
                    m.unlink(x);
                    m.link(x, Dest::Last, y);
                    for (z, _) in m.levels(x) {
                        tree_of[z] = tree_of[y];
                    }
                }
                _ => {
                    trace.push(format!("detach {x} with {} handles", v.len()));
                    hot(&m.node[x])?.detach_subtree();
                    m.unlink(x);
                    let t = tweak.len();
                    tweak.push(m.node[x].tree().downgrade());
                    for (y, _) in m.levels(x) {
                        tree_of[y] = t;
                    }
                }
            }
        }
        let x = few[v.len() % spread];
        let w = rng.below(10);
        if ways & (1 << w) == 0 {
            continue;
        }
        let nd = &m.node[x];
        let t = tree_of[x];
        let k = match w {
            0 => E(K::N(nd.clone()), x),
            1 => {
                // By way of a neighbour.
                let y = match rng.below(4) {
                    0 if m.par[x] != NONE && m.idx(x) == 0 => m.node[m.par[x]].first_child(),
                    1 if m.par[x] != NONE && m.idx(x) > 0 => m.node[m.kids[m.par[x]][m.idx(x) - 1]].next_sibling(),
                    2 if !m.kids[x].is_empty() => m.node[*rng.pick(&m.kids[x])].parent(),
                    3 if m.par[x] == NONE => Some(m.node[m.deepest(x)].root()),
                    _ => nd.downgrade().upgrade(),
                };
                match y {
                    Some(y) if y.ptr_eq(nd) => E(K::N(y), x),
                    _ => return dv(tag::X, format!("a neighbour of node {x} does not lead to it")),
                }
            }
            2 => match nweak[x].upgrade() {
                Some(y) => E(K::N(y), x),
                None => return dv(tag::X, format!("node {x} cannot be upgraded")),
            },
            3 => E(K::T(nd.tree()), t),
            4 => match tweak[t].upgrade() {
                Some(y) => E(K::T(y), t),
                None => return dv(tag::X, format!("tree {t} cannot be upgraded")),
            },
            5 => E(K::D(nd.depth_first_traverse()), x),
            6 => E(K::S(nd.siblings()), m.kids.get(m.par[x]).map_or(x, |k| k[0])),
            7 => E(K::N(hot(nd)?.plain()), x),
            8 => E(K::NW(nweak[x].clone()), x),
            _ => E(K::TW(nd.tree().downgrade()), t),
        };
        v.push(k);
        st.inc(ct::USER1);
    }
    // Without the others.
    m.node.clear();
    let alive = |v: &[E]| -> Vec<bool> {
        let mut a = vec![false; tweak.len()];
        for e in v {
            match e.0 {
                K::N(_) | K::D(_) | K::S(_) => a[tree_of[e.1]] = true,
                K::T(_) => a[e.1] = true,
                K::NW(_) | K::TW(_) => {}
            }
        }
        a
    };
    let probe = |v: &[E]| -> R<()> {
        let a = alive(v);
        let want = tree_of.iter().filter(|t| a[**t]).count() as isize;
        ensure!(live() - l0 == want, tag::X, "with {} of {n} handles: {} values are alive, expected {want}", v.len(), live() - l0);
        for (x, w) in nweak.iter().enumerate() {
            let t = tree_of[x];
            match w.upgrade() {
                None => ensure!(!a[t], tag::X, "node {x} of a living tree cannot be upgraded"),
                Some(y) => {
                    ensure!(a[t], tag::X, "node {x} of a dropped tree can be upgraded");
                    let r = y.root();
                    ensure!(r.borrow_data().0 == m.root_of(x), tag::X, "root of node {x}");
                    let k: Vec<usize> = y.children().map(|c| c.borrow_data().0).collect();
                    ensure!(k == m.kids[x], tag::X, "children of node {x}: {k:?}");
                    ensure!(y.tree().root().ptr_eq(&r), tag::X, "tree of node {x}");
                }
            }
        }
        for (t, w) in tweak.iter().enumerate() {
            if tree_of.contains(&t) {
                ensure!(w.upgrade().is_some() == a[t], tag::X, "tree {t}: upgrade says {}", !a[t]);
            }
        }
        for e in v.iter().rev().take(20) {
            match &e.0 {
                K::N(y) => ensure!(y.borrow_data().0 == e.1, tag::X, "a handle of node {} names another", e.1),
                K::D(d) => ensure!(d.peek().is_some_and(|d| d.as_value().borrow_data().0 == e.1), tag::X, "a traversal at node {}", e.1),
                K::S(d) => ensure!(d.peek().is_some_and(|d| tree_of[d.borrow_data().0] == tree_of[e.1]), tag::X, "a traversal at node {}", e.1),
                K::T(t) => ensure!(tree_of[t.root().borrow_data().0] == e.1, tag::X, "a handle of tree {}", e.1),
                K::NW(w) => ensure!(w.upgrade().is_some() == a[tree_of[e.1]], tag::X, "a weak reference of node {}", e.1),
                K::TW(w) => ensure!(w.upgrade().is_some() == a[e.1], tag::X, "a weak reference of tree {}", e.1),
            }
        }
        Ok(())
    };
    probe(&v)?;
    let order = rng.below(3);
    while !v.is_empty() {
        let i = match order {
            0 => v.len() - 1,
            1 => rng.below(v.len()),
            _ => (v.len() - 1).min(3),
        };
        let e = v.swap_remove(i);
        drop(e);
        let left = v.len();
        if left < 12 || left == n / 2 || (left % 256) < 2 || left % 65_536 < 2 {
            probe(&v)?;
            st.inc(ct::WEAK);
        }
    }
    ensure!(live() == l0, tag::X, "{} values are alive without handles", live() - l0);
    Ok(())
}

fn locks(st: &mut Stats, rng: &mut Rng, n: usize, trace: &mut Vec<String>) -> R<()> {
    enum L {
        G(dendron::HierarchyEditGrant<V>),
        P(dendron::HierarchyEditProhibition<V>),
        H(HotNode<V>),
        F(dendron::FrozenNode<V>),
    }
    let root = HotNode::new_tree(V::new(0));
    let mut nodes = vec![root.plain()];
    for i in 1..8 {
        let p = root.create_as_last_child(V::new(i));
        nodes.push(p.plain());
    }
    drop(root);
    let tree = nodes[0].tree();
    let edit = rng.bool();
    // Which ways to use, and for how many nodes.
    let ways = 1 + rng.below(15);
    let spread = rng.range(1, 8);
    let mut v: Vec<L> = vec![];
    macro_rules! ok {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => return dv(tag::X, format!("lock {} of {n} (edit: {edit}): {e}", v.len())),
            }
        };
    }
    trace.push(format!("{n} locks, edit: {edit}, ways {ways}, on {spread} nodes"));
    while v.len() < n {
        let w = rng.below(4);
        if ways & (1 << w) == 0 {
            continue;
        }
        let nd = &nodes[v.len() % spread];
        let l = match (edit, w) {
            (true, 0) => L::G(ok!(tree.grant_hierarchy_edit())),
            (true, 1) => L::H(ok!(nd.clone().bundle_new_hierarchy_edit_grant())),
            (true, _) => match v.last() {
                Some(L::G(g)) if w == 2 => L::H(ok!(catch(|| nd.clone().bundle_hierarchy_edit_grant(g)))),
                Some(L::G(g)) => L::G(g.clone()),
                Some(L::H(h)) if w == 2 => L::G(h.extract_hierarchy_edit_grant()),
                Some(L::H(h)) => L::H(h.clone()),
                _ => L::G(ok!(tree.grant_hierarchy_edit())),
            },
            (false, 0) => L::P(ok!(tree.prohibit_hierarchy_edit())),
            (false, 1) => L::F(ok!(nd.clone().bundle_new_hierarchy_edit_prohibition())),
            (false, _) => match v.last() {
                Some(L::P(g)) if w == 2 => L::F(ok!(catch(|| nd.clone().bundle_hierarchy_edit_prohibition(g)))),
                Some(L::P(g)) => L::P(ok!(g.try_clone())),
                Some(L::F(h)) if w == 2 => L::P(h.extract_hierarchy_edit_prohibition()),
                Some(L::F(h)) => L::F(h.clone()),
                _ => L::P(ok!(tree.prohibit_hierarchy_edit())),
            },
        };
        v.push(l);
        st.inc(ct::USER1);
    }
    let probe = |left: usize| -> R<()> {
        let g = tree.grant_hierarchy_edit().is_ok();
        let p = tree.prohibit_hierarchy_edit().is_ok();
        let h = nodes[1].clone().bundle_new_hierarchy_edit_grant().is_ok();
        let f = nodes[1].clone().bundle_new_hierarchy_edit_prohibition().is_ok();
        let (wg, wp) = (edit || left == 0, !edit || left == 0);
        ensure!(
            (g, p, h, f) == (wg, wp, wg, wp),
            tag::X,
            "with {left} of {n} locks (edit: {edit}): grant {g}/{h}, prohibition {p}/{f}"
        );
        Ok(())
    };
    probe(n)?;
    // In a random order down to none.
    let order = rng.below(3);
    while !v.is_empty() {
        let i = match order {
            0 => v.len() - 1,
            1 => rng.below(v.len()),
            _ => (v.len() - 1).min(3),
        };
        let l = v.swap_remove(i);
        drop(l);
        let left = v.len();
        if left < 5 || left == n / 2 || (left % 256) < 2 || left % 65_536 < 2 {
            probe(left)?;
            st.inc(ct::LOCKPROBE);
        }
    }
    // And the other kind.
    let g = tree.grant_hierarchy_edit();
    ensure!(g.is_ok() && tree.prohibit_hierarchy_edit().is_err(), tag::X, "the tree without locks cannot be granted");
    drop(g);
    let p = tree.prohibit_hierarchy_edit();
    ensure!(p.is_ok() && tree.grant_hierarchy_edit().is_err(), tag::X, "the tree without locks cannot be prohibited");
    Ok(())
}

/// Compares an event, its node being identified by address.
macro_rules! is_ev {
    ($m:expr, $e:expr, $open:expr, $y:expr) => {
        match &$e {
            Some(DftEvent::Open(g)) => $open && g.plain().ptr_eq(&$m.node[$y]),
            Some(DftEvent::Close(g)) => !$open && g.plain().ptr_eq(&$m.node[$y]),
            None => false,
        }
    };
}

fn depth_first(st: &mut Stats, rng: &mut Rng, m: &M, x: usize, ev: &[(bool, usize, usize)]) -> R<()> {
    let n = &m.node[x];
    let len = ev.len();
    let close_of: std::collections::HashMap<usize, usize> =
        ev.iter().enumerate().filter(|(_, e)| !e.0).map(|(i, e)| (e.1, i)).collect();
    // Index of the event which `close_current` returns, the next one being `i`.
    let close_at = |i: usize| -> Option<usize> {
        if i >= len {
            return None;
        }
        let (open, y, _) = ev[i];
        if !open {
            return Some(i);
        }
        if y == x {
            // Not inside of any node of the traversal.
            return None;
        }
        Some(close_of[&m.par[y]])
    };
    // Plain, forward, with jumps.
    let jumps = rng.below(3);
    let mut it = n.depth_first_traverse();
    let mut i = 0;
    loop {
        if jumps > 0 && i > 0 && i < len && rng.chance(1, if jumps == 1 { 40 } else { len }) {
            let want = close_at(i);
            let got = it.close_current();
            ensure!(
                match (&got, want) {
                    (Some(g), Some(j)) => g.ptr_eq(&m.node[ev[j].1]),
                    (None, None) => true,
                    _ => false,
                },
                tag::X,
                "close_current before event {i} returned {:?}, expected the node {:?}", got.map(|g| g.borrow_data().0), want.map(|j| ev[j].1)
            );
            i = want.map_or(len, |j| j + 1);
            continue;
        }
        let e = it.next();
        st.inc(ct::ITEMS);
        if i == len {
            ensure!(e.is_none(), tag::X, "the traversal goes on after {len} events");
            break;
        }
        let (open, y, _) = ev[i];
        ensure!(
            match &e {
                Some(DftEvent::Open(g)) => open && g.ptr_eq(&m.node[y]),
                Some(DftEvent::Close(g)) => !open && g.ptr_eq(&m.node[y]),
                None => false,
            },
            tag::X, "event {i} of {len} of the traversal is wrong"
        );
        // The navigation without an iterator.
        if i % 61 == 0 {
            let e = e.unwrap();
            let (nx, pv) = (e.next(), e.prev());
            if i + 1 < len {
                let (o, z, _) = ev[i + 1];
                ensure!(matches!(&nx, Some(DftEvent::Open(g)) if o && g.ptr_eq(&m.node[z])) || matches!(&nx, Some(DftEvent::Close(g)) if !o && g.ptr_eq(&m.node[z])), tag::X, "next() of event {i}");
            }
            if i > 0 {
                let (o, z, _) = ev[i - 1];
                ensure!(matches!(&pv, Some(DftEvent::Open(g)) if o && g.ptr_eq(&m.node[z])) || matches!(&pv, Some(DftEvent::Close(g)) if !o && g.ptr_eq(&m.node[z])), tag::X, "prev() of event {i}");
            }
        }
        i += 1;
    }
    // Without an iterator, over a large part of the tree.
    for _ in 0..2 {
        let i = rng.below(len);
        let (open, y, _) = ev[i];
        let e = if open { DftEvent::Open(m.node[y].clone()) } else { DftEvent::Close(m.node[y].clone()) };
        let want = if open { Some(y) } else if m.par[y] == NONE { None } else { Some(m.par[y]) };
        let got = e.close_current();
        ensure!(
            match (&got, want) {
                (Some(g), Some(y)) => g.ptr_eq(&m.node[y]),
                (None, None) => true,
                _ => false,
            },
            tag::X, "close_current of the event {} {y}", if open { "Open" } else { "Close" }
        );
    }
    // Reverse.
    let mut it = n.depth_first_reverse_traverse();
    for (i, (open, y, _)) in ev.iter().enumerate().rev() {
        let e = it.next();
        ensure!(
            match &e {
                Some(DftEvent::Open(g)) => *open && g.ptr_eq(&m.node[*y]),
                Some(DftEvent::Close(g)) => !*open && g.ptr_eq(&m.node[*y]),
                None => false,
            },
            tag::X, "event {i} of {len} of the reverse traversal is wrong"
        );
        st.inc(ct::ITEMS);
    }
    ensure!(it.next().is_none(), tag::X, "the reverse traversal goes on");
    // Stable, from both ends.
    let f = match n.clone().bundle_new_hierarchy_edit_prohibition() {
        Ok(f) => f,
        Err(e) => return dv(tag::X, format!("no prohibition: {e}")),
    };
    let mut it = f.depth_first_traverse_stable();
    let (mut i, mut j) = (0, len);
    let back = rng.below(4);
    let mut run = 0;
    let mut from_back = false;
    while i < j {
        if run == 0 {
            run = rng.range(1, len);
            from_back = back > 0 && rng.below(back + 1) > 0;
        }
        run -= 1;
        let (k, e) = if from_back {
            j -= 1;
            (j, it.next_back())
        } else {
            i += 1;
            (i - 1, it.next())
        };
        ensure!(is_ev!(m, e, ev[k].0, ev[k].1), tag::X, "event {k} of {len} of the stable traversal (from the back: {from_back}) is wrong");
        st.inc(ct::ITEMS);
    }
    ensure!(it.next().is_none() && it.next_back().is_none(), tag::X, "the stable traversal goes on");
    // Limited in depth.
    let height = ev.iter().map(|e| e.2).max().unwrap();
    for _ in 0..3 {
        let limit = match rng.below(8) {
            0 => 0,
            1 => rng.below(height + 1),
            2 => height,
            3 => height.saturating_sub(1),
            4 => *rng.pick(&[126, 127, 128, 254, 255, 256, 257]),
            5 => *rng.pick(&[32_766, 32_767, 32_768, 65_534, 65_535, 65_536]),
            6 => rng.range(1, 9),
            _ => *rng.pick(&[u32::MAX as usize - 1, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX - 1, usize::MAX]),
        };
        let want: Vec<_> = ev.iter().filter(|e| e.2 <= limit).collect();
        let mut it = f.shallow_depth_first_traverse_stable(Some(limit));
        ensure!(it.max_depth() == limit, tag::X, "max_depth() = {}, given {limit}", it.max_depth());
        let (mut i, mut j) = (0, want.len());
        let mix = rng.below(3);
        while i < j {
            let b = match mix {
                0 => false,
                1 => true,
                _ => rng.bool(),
            };
            let (k, e) = if b {
                j -= 1;
                (j, it.next_back())
            } else {
                i += 1;
                (i - 1, it.next())
            };
            let (open, y, d) = *want[k];
            let ok = match &e {
                Some(DftEvent::Open((g, gd))) => open && g.plain().ptr_eq(&m.node[y]) && *gd == d,
                Some(DftEvent::Close((g, gd))) => !open && g.plain().ptr_eq(&m.node[y]) && *gd == d,
                None => false,
            };
            ensure!(ok, tag::X, "event {k} of {} of the traversal down to level {limit} (from the back: {b}) is wrong", want.len());
            st.inc(ct::ITEMS);
        }
        ensure!(it.next().is_none() && it.next_back().is_none(), tag::X, "the limited traversal goes on");
    }
    Ok(())
}

fn others(st: &mut Stats, rng: &mut Rng, m: &M, x: usize) -> R<()> {
    let f = match m.node[x].clone().bundle_new_hierarchy_edit_prohibition() {
        Ok(f) => f,
        Err(e) => return dv(tag::X, format!("no prohibition: {e}")),
    };
    let want = m.levels(x);
    let (all, h) = (want.len(), want.last().unwrap().1);
    let start = match rng.below(5) {
        0 => 0,
        1 => rng.below(h + 2),
        2 => rng.edge(),
        _ => *rng.pick(&[0, 0, 1, 254, 255, 256, 257, 65_535, 65_536, usize::MAX]),
    };
    // From the given level on.
    let want: Vec<_> = want.into_iter().filter(|w| w.1 >= start).collect();
    {
        let mut it = f.allocating_breadth_first_traverse_stable(start);
        for (i, (y, d)) in want.iter().enumerate() {
            let e = it.next();
            ensure!(
                matches!(&e, Some((g, gd)) if g.plain().ptr_eq(&m.node[*y]) && gd == d),
                tag::X, "item {i} of the breadth-first traversal (level {d})"
            );
            st.inc(ct::ITEMS);
        }
        ensure!(it.next().is_none(), tag::X, "the breadth-first traversal goes on");
    }
    {
        // Every level costs a pass over all levels above it.
        let (start, mut left) = if all < 700 || h < 4 {
            (start, usize::MAX)
        } else {
            let near = [h.saturating_sub(rng.below(4)), 254, 255, 256, 65_534, 65_535, 65_536];
            let mut s = *rng.pick(&near);
            if s > h + 1 || rng.chance(2, 5) {
                s = near[0];
            }
            (s, 1_500_000)
        };
        let levels = m.levels(x);
        let mut upto = vec![0; h + 1];
        for (_, d) in &levels {
            upto[*d] += 1;
        }
        for d in 1..=h {
            upto[d] += upto[d - 1];
        }
        let mut it = f.non_allocating_breadth_first_traverse_stable(start);
        let mut level = NONE;
        let mut cut = false;
        for (i, (y, d)) in levels.iter().filter(|w| w.1 >= start).enumerate() {
            if *d != level {
                level = *d;
                if left < upto[*d] {
                    cut = true;
                    break;
                }
                left -= upto[*d];
            }
            let e = it.next();
            ensure!(
                matches!(&e, Some((g, gd)) if g.plain().ptr_eq(&m.node[*y]) && gd == d),
                tag::X, "item {i} of the non-allocating breadth-first traversal from level {start} (level {d})"
            );
            st.inc(ct::ITEMS);
        }
        if !cut {
            ensure!(it.next().is_none(), tag::X, "the non-allocating breadth-first traversal goes on");
        }
    }
    let list = |what: &str, got: &mut dyn Iterator<Item = N>, want: &[usize]| -> R<()> {
        let mut k = 0;
        for g in got {
            ensure!(k < want.len() && g.ptr_eq(&m.node[want[k]]), tag::X, "{what} of {x}: item {k} of {}", want.len());
            k += 1;
        }
        ensure!(k == want.len(), tag::X, "{what} of {x}: {k} items, expected {}", want.len());
        Ok(())
    };
    let rev = |v: &[usize]| -> Vec<usize> { v.iter().rev().copied().collect() };
    let n = &m.node[x];
    list("children", &mut n.children(), &m.kids[x])?;
    list("children_reverse", &mut n.children_reverse(), &rev(&m.kids[x]))?;
    let mut anc = vec![];
    let mut p = m.par[x];
    while p != NONE {
        anc.push(p);
        p = m.par[p];
    }
    list("ancestors", &mut n.ancestors(), &anc)?;
    anc.insert(0, x);
    list("ancestors_or_self", &mut n.ancestors_or_self(), &anc)?;
    let (sib, i) = if m.par[x] == NONE { (vec![x], 0) } else { (m.kids[m.par[x]].clone(), m.idx(x)) };
    list("siblings", &mut n.siblings(), &sib)?;
    list("siblings_reverse", &mut n.siblings_reverse(), &rev(&sib))?;
    list("following_siblings_or_self", &mut n.following_siblings_or_self(), &sib[i..])?;
    list("following_siblings", &mut n.following_siblings(), &sib[i + 1..])?;
    list("preceding_siblings_or_self_reverse", &mut n.preceding_siblings_or_self_reverse(), &rev(&sib[..=i]))?;
    list("preceding_siblings_reverse", &mut n.preceding_siblings_reverse(), &rev(&sib[..i]))?;
    list("children_stable", &mut f.children_stable().map(|f| f.plain()), &m.kids[x])?;
    list("children_stable, backward", &mut f.children_stable().rev().map(|f| f.plain()), &rev(&m.kids[x]))?;
    Ok(())
}

/// `size_hint` never excludes what is still to come, and the adaptors of the
/// standard library agree with stepping.
fn hints(st: &mut Stats, rng: &mut Rng, m: &M, x: usize) -> R<()> {
    let f = match m.node[x].clone().bundle_new_hierarchy_edit_prohibition() {
        Ok(f) => f,
        Err(e) => return dv(tag::X, format!("no prohibition: {e}")),
    };
    let n = &m.node[x];
    let ev = m.events(x);
    let height = ev.iter().map(|e| e.2).max().unwrap();
    let limit = rng.below(height + 2);
    let anc = m.depth(x);
    let kids = m.kids[x].len();
    fn one<I: Iterator>(st: &mut Stats, rng: &mut Rng, what: &str, len: usize, mk: &dyn Fn() -> I) -> R<()> {
        let it = mk();
        let (lo, hi) = it.size_hint();
        ensure!(lo <= len && hi.map_or(true, |h| h >= len), tag::X, "{what}: {len} items, size_hint {lo}, {hi:?}");
        let c = it.count();
        ensure!(c == len, tag::X, "{what}: count() = {c}, expected {len}");
        let k = if len == 0 { 0 } else { rng.below(len + 1) };
        let mut it = mk();
        ensure!(it.nth(k).is_some() == (k < len), tag::X, "{what}: nth({k}) of {len}");
        let left = len.saturating_sub(k + 1);
        let (lo, hi) = it.size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), tag::X, "{what}: {left} items are left, size_hint {lo}, {hi:?}");
        let c = it.by_ref().count();
        ensure!(c == left, tag::X, "{what}: {c} items after nth({k}), expected {left}");
        ensure!(it.next().is_none(), tag::X, "{what}: goes on after its end");
        ensure!(mk().last().is_some() == (len > 0), tag::X, "{what}: last()");
        st.add(ct::ITEMS, len);
        st.inc(ct::USER2);
        Ok(())
    }
    one(st, rng, "depth_first_traverse", ev.len(), &|| n.depth_first_traverse())?;
    one(st, rng, "depth_first_reverse_traverse", ev.len(), &|| n.depth_first_reverse_traverse())?;
    one(st, rng, "depth_first_traverse_stable", ev.len(), &|| f.depth_first_traverse_stable())?;
    one(st, rng, "depth_first_traverse_stable, reversed", ev.len(), &|| f.depth_first_traverse_stable().rev())?;
    let lim = ev.iter().filter(|e| e.2 <= limit).count();
    one(st, rng, "shallow_depth_first_traverse_stable", lim, &|| f.shallow_depth_first_traverse_stable(Some(limit)))?;
    one(st, rng, "allocating_breadth_first_traverse_stable", ev.len() / 2, &|| f.allocating_breadth_first_traverse_stable(0))?;
    if ev.len() < 1400 || height < 4 {
        one(st, rng, "non_allocating_breadth_first_traverse_stable", ev.len() / 2, &|| f.non_allocating_breadth_first_traverse_stable(0))?;
    }
    one(st, rng, "ancestors", anc, &|| n.ancestors())?;
    one(st, rng, "children", kids, &|| n.children())?;
    one(st, rng, "children_reverse", kids, &|| n.children_reverse())?;
    one(st, rng, "children_stable", kids, &|| f.children_stable())?;
    // Independent copies in the middle.
    let k = rng.below(ev.len());
    let mut a = f.depth_first_traverse_stable();
    a.by_ref().take(k).for_each(drop);
    let mut b = a.clone();
    ensure!(a.by_ref().count() == ev.len() - k && b.by_ref().count() == ev.len() - k, tag::X, "a copy after {k} events");
    let k = rng.below(lim);
    let mut a = f.shallow_depth_first_traverse_stable(Some(limit));
    a.by_ref().take(k).for_each(drop);
    let mut b = a.clone();
    ensure!(a.by_ref().count() == lim - k && b.by_ref().count() == lim - k, tag::X, "a copy of the limited traversal after {k} events");
    let k = rng.below(ev.len() / 2);
    let mut a = f.allocating_breadth_first_traverse_stable(0);
    a.by_ref().take(k).for_each(drop);
    let mut b = a.clone();
    ensure!(a.by_ref().count() == ev.len() / 2 - k && b.by_ref().count() == ev.len() / 2 - k, tag::X, "a copy of the breadth-first traversal after {k} items");
    Ok(())
}

fn shape_of(n: &N, bound: usize) -> R<Vec<(bool, usize)>> {
    let mut out = vec![];
    let mut cur = n.clone();
    let mut depth = 0usize;
    loop {
        ensure!(out.len() < bound, tag::X, "the result has too many nodes");
        out.push((true, cur.borrow_data().0));
        if let Some(c) = cur.first_child() {
            cur = c;
            depth += 1;
            continue;
        }
        loop {
            out.push((false, cur.borrow_data().0));
            if depth == 0 {
                return Ok(out);
            }
            if let Some(s) = cur.next_sibling() {
                cur = s;
                break;
            }
            cur = match cur.parent() {
                Some(p) => p,
                None => return dv(tag::X, "no parent below the root"),
            };
            depth -= 1;
        }
    }
}

fn serial(st: &mut Stats, rng: &mut Rng, m: &M, x: usize, ev: &[(bool, usize, usize)], prop: u32) -> R<()> {
    let n = &m.node[x];
    let opens = ev.len() / 2;
    // Consecutive closings are one event, or some events, of the same sum.
    let mut items: Vec<Event<V>> = vec![];
    let (mut pos, mut count) = (0, 0);
    for e in n.to_events() {
        let e = match e {
            Ok(e) => e,
            Err(e) => return dv(tag::X, format!("to_events: {e}")),
        };
        count += 1;
        ensure!(count <= ev.len(), tag::X, "to_events: too many events");
        match &e {
            Event::Open(v) => {
                ensure!(pos < ev.len() && ev[pos].0 && v.0 == m.val[ev[pos].1], tag::X, "to_events: Open at {pos}");
                pos += 1;
            }
            Event::Close(k) => {
                for _ in 0..*k {
                    ensure!(pos < ev.len() && !ev[pos].0, tag::X, "to_events: Close({k}) closes a node too many at {pos}");
                    pos += 1;
                }
            }
        }
        items.push(e);
        st.inc(ct::ITEMS);
    }
    ensure!(pos == ev.len(), tag::X, "to_events: {pos} of {} events", ev.len());
    let want: Vec<(bool, usize)> = ev.iter().map(|e| (e.0, m.val[e.1])).collect();
    // The same stream with other splittings of the closings.
    let style = rng.below(4);
    let mut stream: Vec<Event<V>> = vec![];
    let mut i = 0;
    while i < ev.len() {
        if ev[i].0 {
            stream.push(Event::Open(V::new(m.val[ev[i].1])));
            i += 1;
            continue;
        }
        let mut run = ev[i..].iter().take_while(|e| !e.0).count();
        i += run;
        if rng.chance(1, 5) {
            stream.push(Event::Close(0));
        }
        while run > 0 {
            let k = match style {
                0 => run,
                1 => 1,
                2 => rng.range(1, run),
                _ => run.min(*rng.pick(&[1, 255, 256, 257, 65_536])),
            };
            stream.push(Event::Close(k));
            run -= k;
        }
    }
    let built: N = match rng.below(4) {
        0 => match items.into_iter().collect::<Result<N, TreeBuildError>>() {
            Ok(n) => n,
            Err(e) => return dv(tag::X, format!("build: {e}")),
        },
        1 => match stream.into_iter().collect::<Result<N, TreeBuildError>>() {
            Ok(n) => n,
            Err(e) => return dv(tag::X, format!("build: {e}")),
        },
        2 => match n.depth_first_traverse().collect::<Result<N, TreeBuildError>>() {
            Ok(n) => n,
            Err(e) => return dv(tag::X, format!("build: {e}")),
        },
        _ => {
            let mut b = TreeBuilder::new();
            for e in stream {
                if let Err(e) = b.push_event(e) {
                    return dv(tag::X, format!("build: {e}"));
                }
            }
            ensure!(b.is_root_closed(), tag::X, "the root is not closed");
            match b.finish() {
                Ok(n) => n,
                Err(e) => return dv(tag::X, format!("build: {e}")),
            }
        }
    };
    let got = shape_of(&built, 2 * ev.len() + 2)?;
    ensure!(got == want, tag::X, "the result differs from the source of {opens} nodes");
    ensure!(built.tree().grant_hierarchy_edit().is_ok() && built.tree().prohibit_hierarchy_edit().is_ok(), tag::X, "the result is locked");
    st.add(ct::USER1, opens);
    if prop == 13 {
        // Too many closings: refused, and the builder goes on as before.
        let depth = rng.range(1, 70_000.min(opens + 300));
        let mut b = TreeBuilder::new();
        for i in 0..depth {
            if b.open(V::new(i)).is_err() {
                return dv(tag::X, format!("open {i} was refused"));
            }
        }
        for over in [depth + 1, depth + 256, depth + 65_536, (1 << 32) + depth, (1 << 32) + rng.below(depth), usize::MAX - 1, usize::MAX] {
            let r = b.close(over);
            ensure!(matches!(r, Err(TreeBuildError::RootClosed)), tag::X, "close({over}) with {depth} open nodes: {r:?}");
            ensure!(!b.is_root_closed() && b.is_root_available(), tag::X, "the refused close({over}) closed the root");
        }
        let part = rng.below(depth);
        if b.close(part).is_err() {
            return dv(tag::X, format!("close({part}) with {depth} open nodes was refused"));
        }
        if b.open(V::new(depth)).is_err() {
            return dv(tag::X, "open after close was refused");
        }
        let r = b.close(depth - part + 1);
        ensure!(r.is_ok() && b.is_root_closed(), tag::X, "close of all {} open nodes: {r:?}", depth - part + 1);
        let root = match b.finish() {
            Ok(r) => r,
            Err(e) => return dv(tag::X, format!("finish: {e}")),
        };
        let mut want: Vec<(bool, usize)> = (0..depth).map(|i| (true, i)).collect();
        want.extend((depth - part..depth).rev().map(|i| (false, i)));
        want.push((true, depth));
        want.push((false, depth));
        want.extend((0..depth - part).rev().map(|i| (false, i)));
        let got = shape_of(&root, 2 * depth + 4)?;
        ensure!(got == want, tag::X, "{depth} opened, {part} closed, one opened: a wrong tree");
        st.inc(ct::USER2);
    }
    Ok(())
}

fn equality(st: &mut Stats, rng: &mut Rng, m: &M) -> R<()> {
    let a = m.node[0].clone();
    let c = a.clone_subtree();
    let cmp = |what: &str, b: &N, want: bool| -> R<()> {
        let got = [a == *b, *b == a, a.try_eq(b).unwrap_or(!want), a.tree() == b.tree(), b.tree().try_eq(&a.tree()).unwrap_or(!want)];
        ensure!(got == [want; 5], tag::X, "{what}: the comparisons say {got:?}, expected {want}");
        Ok(())
    };
    cmp("a copy", &c, true)?;
    ensure!(a == a, tag::X, "a tree differs from itself");
    // The copies of the nodes, in the order of the traversal.
    let pre: Vec<usize> = m.events(0).iter().filter(|e| e.0).map(|e| e.1).collect();
    let copies: Vec<N> = c.depth_first_traverse().filter_map(|e| e.into_open()).collect();
    let low = m.deepest(0);
    ensure!(pre.len() == copies.len(), tag::X, "the copy has another size");
    for _ in 0..3 {
        let i = match rng.below(4) {
            0 => 0,
            1 => pre.len() - 1,
            2 => pre.iter().position(|p| *p == low).unwrap(),
            _ => rng.below(pre.len()),
        };
        let old = copies[i].borrow_data().0;
        copies[i].borrow_data_mut().0 = old + 1_000_000;
        cmp("one datum changed", &c, false)?;
        copies[i].borrow_data_mut().0 = old;
        cmp("the datum restored", &c, true)?;
        // One leaf more.
        let h = hot(&copies[i])?;
        let leaf = if rng.bool() { h.create_as_last_child(V::new(7)) } else { h.create_as_first_child(V::new(7)) };
        drop(h);
        cmp("one leaf added", &c, false)?;
        leaf.detach_subtree();
        drop(leaf);
        cmp("the leaf removed", &c, true)?;
        // The same data in the same order, one level up.
        let y = pre[i];
        if y != 0 && m.par[y] != 0 && m.kids[m.par[y]].last() == Some(&y) {
            let p = pre.iter().position(|q| *q == m.par[y]).unwrap();
            let h = hot(&copies[i])?;
            let hp = hot(&copies[p])?;
            h.detach_insert_subtree(InsertAs::NextSiblingOf(&hp));
            drop(h);
            cmp("one node a level up", &c, false)?;
            hot(&copies[i])?.detach_insert_subtree(InsertAs::LastChildOf(&hp));
            drop(hp);
            cmp("the node moved back", &c, true)?;
        }
        st.inc(ct::USER2);
    }
    st.add(ct::ITEMS, pre.len());
    Ok(())
}

fn show(st: &mut Stats, m: &M, x: usize) -> R<()> {
    // Text before the children, for each level.
    let mut want = String::new();
    let mut bars: Vec<bool> = vec![];
    let mut first = true;
    for (open, y, d) in m.events(x) {
        if !open {
            continue;
        }
        if !first {
            want.push('\n');
        }
        first = false;
        bars.truncate(d);
        if d > 0 {
            let last = *m.kids[m.par[y]].last().unwrap() == y;
            for b in &bars[1..] {
                want.push_str(if *b { "|   " } else { "    " });
            }
            want.push_str(if last { "`-- " } else { "|-- " });
            bars.push(!last);
        } else {
            bars.push(false);
        }
        want.push_str(&m.val[y].to_string());
    }
    let p = m.node[x].debug_pretty_print();
    for (what, got) in [
        ("{}", format!("{p}")),
        ("{:?}", format!("{p:?}")),
        ("{:#}", format!("{p:#}")),
        ("{:#?}", format!("{p:#?}")),
    ] {
        if got != want {
            let k = got.lines().zip(want.lines()).position(|(a, b)| a != b);
            return dv(tag::X, format!("pretty print with {what} of {} nodes: line {k:?} differs ({} lines, expected {})", m.levels(x).len(), got.lines().count(), want.lines().count()));
        }
    }
    // The other debug forms name all data, in order.
    let s = format!("{:?}", m.node[x].debug_print_subtree());
    ensure!(s.len() > m.levels(x).len(), tag::X, "the debug form of the subtree is too short");
    st.add(ct::ITEMS, want.lines().count());
    Ok(())
}

/// Very many trees one after another: none of them is taken for one of those
/// that are still alive, or that were alive before.
fn generations(rng: &mut Rng, m: &M, rounds: usize) -> R<()> {
    struct Old {
        node: N,
        tree: Tree<V>,
        grant: Option<HierarchyEditGrant<V>>,
        bar: Option<HierarchyEditProhibition<V>>,
    }
    struct Dead {
        node: NodeWeak<V>,
        tree: TreeWeak<V>,
        grant: Option<HierarchyEditGrant<V>>,
        bar: Option<HierarchyEditProhibition<V>>,
    }
    macro_rules! check {
        ($i:expr, $e:expr, $m:expr) => {
            ensure!($e, tag::X, "tree {} of {rounds}: {}", $i, $m)
        };
    }
    let tree = m.node[0].tree();
    let mut old = vec![Old { node: m.node[m.len() - 1].clone(), grant: tree.grant_hierarchy_edit().ok(), bar: None, tree }];
    let mut dead: Vec<Dead> = vec![];
    let from_detached = rng.chance(1, 3);
    let nursery = HotNode::new_tree(V::new(2000));
    for i in 0..rounds {
        let c = if from_detached {
            let c = nursery.create_as_first_child(V::new(i));
            c.detach_subtree();
            c.plain()
        } else if i % 3 == 1 {
            old[0].node.clone_subtree()
        } else {
            Node::new_tree(V::new(i))
        };
        let t = c.tree();
        check!(i, t.root().ptr_eq(&c) && c.is_root() && c.belongs_to(&t), "the tree of its root");
        // The newest one against a few of the others, all of them now and then.
        let every = i < 600 || i % 256 < 2 || i % 65_536 < 4 || i + 2 >= rounds;
        for o in old.iter().skip(if every { 0 } else { i % old.len() }).take(if every { 99 } else { 1 }) {
            check!(
                i,
                !c.belongs_to_same_tree(&o.node) && !o.node.belongs_to_same_tree(&c) && !c.belongs_to(&o.tree) && !o.node.belongs_to(&t),
                "a node belongs to another tree"
            );
            check!(i, !t.ptr_eq(&o.tree) && !o.tree.ptr_eq(&t) && !c.ptr_eq(&o.node), "another tree or node is taken for this one");
            check!(i, o.node.belongs_to(&o.tree) && o.tree.root().ptr_eq(&o.node.root()), "a node and its tree");
            if let Some(g) = &o.grant {
                check!(i, g.is_valid_for_node(&o.node) && !g.is_valid_for_node(&c), "the validity of a grant");
                check!(i, o.tree.prohibit_hierarchy_edit().is_err() && o.tree.grant_hierarchy_edit().is_ok(), "the locks of a tree");
            }
            if let Some(g) = &o.bar {
                check!(i, g.is_valid_for_node(&o.node) && !g.is_valid_for_node(&c), "the validity of a prohibition");
                check!(i, o.tree.grant_hierarchy_edit().is_err() && o.tree.prohibit_hierarchy_edit().is_ok(), "the locks of a tree");
            }
        }
        for d in dead.iter().skip(if every { 0 } else { i % dead.len().max(1) }).take(if every { 99 } else { 1 }) {
            check!(i, d.node.upgrade().is_none() && d.tree.upgrade().is_none(), "a dead tree can be upgraded");
            check!(i, !d.grant.as_ref().is_some_and(|g| g.is_valid_for_node(&c)), "a grant of a dead tree is valid");
            check!(i, !d.bar.as_ref().is_some_and(|g| g.is_valid_for_node(&c)), "a prohibition of a dead tree is valid");
        }
        check!(i, t.prohibit_hierarchy_edit().is_ok() && t.grant_hierarchy_edit().is_ok(), "the locks of a new tree");
        if i.is_power_of_two() {
            let grant = if rng.chance(1, 3) { t.grant_hierarchy_edit().ok() } else { None };
            let bar = if grant.is_none() && rng.bool() { t.prohibit_hierarchy_edit().ok() } else { None };
            if rng.bool() {
                old.push(Old { node: c, tree: t, grant, bar });
            } else {
                dead.push(Dead { node: c.downgrade(), tree: t.downgrade(), grant, bar });
            }
        }
    }
    Ok(())
}

/// The same short sequence of operations very many times in a small tree, the
/// last of them as good as the first.
fn churn(prop: u32, st: &mut Stats, rng: &mut Rng, rounds: usize, trace: &mut Vec<String>) -> R<()> {
    let n = rng.range(3, 9);
    let kind = rng.below(KINDS.len());
    let mut m = M::build(rng, kind, n);
    let x = rng.range(1, n - 1);
    // A place for the node besides its own.
    let y = loop {
        let y = rng.below(n);
        if !m.is_in(y, x) && y != x {
            break y;
        }
    };
    let other = HotNode::new_tree(V::new(1000));
    let leaf = other.create_as_last_child(V::new(1001));
    let what = match prop {
        4 | 5 | 7 | 8 if rng.bool() => 13,
        _ => rng.below(14),
    };
    let bystander = if rng.bool() { Some(hot(&m.node[rng.below(n)])?) } else { None };
    trace.push(format!("{rounds} rounds of {what} in a {} of {n} nodes, at {x} and {y}", KINDS[kind]));
    st.seen(hash2(hash2(0x63_6875, (what * 16 + kind) as u64), rounds as u64));
    st.add(ct::USER1, rounds);
    macro_rules! ok {
        ($i:expr, $e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => return dv(tag::X, format!("round {} of {rounds}: {e}", $i)),
            }
        };
    }
    macro_rules! check {
        ($i:expr, $e:expr, $m:expr) => {
            ensure!($e, tag::X, "round {} of {rounds}: {}", $i, $m)
        };
    }
    // Back to the place where the node was.
    let p = m.par[x];
    let i = m.idx(x);
    let (anchor, before) = if i > 0 { (Some(m.kids[p][i - 1]), false) } else { (m.kids[p].get(1).copied(), true) };
    let l0 = live();
    match what {
        // Moves there and back, within the tree or to another one and back.
        0..=2 => {
            let h = hot(&m.node[x])?;
            let (hp, hy) = (hot(&m.node[p])?, hot(&m.node[y])?);
            let a = match anchor {
                Some(a) => Some(hot(&m.node[a])?),
                None => None,
            };
            for i in 0..rounds {
                match what {
                    0 if i % 2 == 0 => ok!(i, h.try_detach_insert_subtree(InsertAs::FirstChildOf(&hy))),
                    0 => ok!(i, h.try_detach_insert_subtree(InsertAs::LastChildOf(&hy))),
                    1 if i % 2 == 0 => ok!(i, h.try_detach_insert_subtree(InsertAs::LastChildOf(&leaf))),
                    1 => ok!(i, h.try_detach_insert_subtree(InsertAs::NextSiblingOf(&leaf))),
                    _ => h.detach_subtree(),
                }
                let back = match (&a, before) {
                    (Some(a), false) => InsertAs::NextSiblingOf(a),
                    (Some(a), true) => InsertAs::PreviousSiblingOf(a),
                    (None, _) => InsertAs::FirstChildOf(&hp),
                };
                ok!(i, h.try_detach_insert_subtree(back));
            }
        }
        // Nodes which come and go.
        3 => {
            let h = hot(&m.node[x])?;
            let (pa, nk) = (hot(&m.node[p])?, m.kids[p].len());
            for i in 0..rounds {
                let c = match i % 5 {
                    0 => pa.create_as_first_child(V::new(1)),
                    1 => pa.create_as_last_child(V::new(1)),
                    2 => h.create_as_prev_sibling(V::new(1)),
                    3 => h.create_as_next_sibling(V::new(1)),
                    _ => h.create_as_interrupting_parent(V::new(1)),
                };
                if i % 5 == 4 {
                    ok!(i, c.try_replace_with_children());
                } else {
                    check!(i, pa.num_children() == nk + 1, "the number of children with a new one");
                    c.detach_subtree();
                }
                check!(i, pa.num_children() == nk && live() == l0 + 1, "the number of children, or of values alive");
            }
        }
        4 => {
            let r = hot(&m.node[0])?;
            for i in 0..rounds {
                let c = r.create_as_interrupting_parent(V::new(1));
                check!(i, r.root().ptr_eq(&c) && !r.is_root(), "the new root");
                ok!(i, c.try_replace_with_children());
                check!(i, r.root().ptr_eq(&r) && r.is_root(), "the root is back");
            }
        }
        // Handles and locks which come and go.
        5 => {
            for i in 0..rounds {
                let nd = &m.node[i % n];
                let (w, t) = (nd.downgrade(), nd.tree().downgrade());
                let c = nd.clone();
                check!(i, w.upgrade().is_some_and(|u| u.ptr_eq(&c)), "the weak reference of a node");
                check!(i, t.clone().upgrade().is_some_and(|u| u.ptr_eq(&c.tree())), "the weak reference of a tree");
            }
        }
        6 => {
            let t = m.node[0].tree();
            for i in 0..rounds {
                let g = ok!(i, t.grant_hierarchy_edit());
                let h = m.node[i % n].clone().bundle_hierarchy_edit_grant(&g);
                let k = h.clone();
                drop(g);
                let e = h.extract_hierarchy_edit_grant();
                drop(h);
                check!(i, t.prohibit_hierarchy_edit().is_err(), "edits can be prohibited under a grant");
                drop((k, e));
            }
        }
        7 if bystander.is_none() => {
            let t = m.node[0].tree();
            for i in 0..rounds {
                let g = ok!(i, t.prohibit_hierarchy_edit());
                let h = m.node[i % n].clone().bundle_hierarchy_edit_prohibition(&g);
                let k = h.clone();
                drop(g);
                let e = h.extract_hierarchy_edit_prohibition();
                let it = h.depth_first_traverse_stable();
                drop(h);
                check!(i, t.grant_hierarchy_edit().is_err(), "edits can be granted under a prohibition");
                drop((k, e, it));
            }
        }
        // What is refused.
        8 => {
            let t = m.node[0].tree();
            let h = hot(&m.node[x])?;
            let r = hot(&m.node[0])?;
            for i in 0..rounds {
                check!(i, t.prohibit_hierarchy_edit().is_err(), "edits can be prohibited under a grant");
                check!(
                    i, m.node[i % n].clone().bundle_new_hierarchy_edit_prohibition().is_err(),
                    "a frozen node under a grant"
                );
                check!(
                    i, r.try_detach_insert_subtree(InsertAs::LastChildOf(&h)).is_err(),
                    "the root is moved below itself"
                );
                check!(
                    i, other.try_detach_insert_subtree(InsertAs::LastChildOf(&leaf)).is_err(),
                    "the root is moved below itself"
                );
            }
        }
        9 => {
            for i in 0..rounds {
                let nd = &m.node[i % n];
                {
                    let a = ok!(i, nd.try_borrow_data());
                    check!(i, nd.try_borrow_data_mut().is_err() && nd.try_borrow_data().is_ok(), "the shared borrow");
                    drop(a);
                }
                let a = ok!(i, nd.try_borrow_data_mut());
                check!(i, nd.try_borrow_data_mut().is_err() && nd.try_borrow_data().is_err(), "the exclusive borrow");
                check!(i, nd.try_eq(&leaf.plain()).is_err() && nd.try_clone_subtree().is_err(), "borrowed data");
                drop(a);
            }
        }
        10 => {
            for i in 0..rounds / 4 {
                let c = m.node[x].clone_subtree();
                check!(i, c == m.node[x], "the copy");
                let h = hot(&c)?;
                ok!(i, h.try_detach_insert_subtree(InsertAs::LastChildOf(&leaf)));
                h.detach_subtree();
            }
            check!(rounds / 4, live() == l0, "values alive");
        }
        11 => {
            let mut b = TreeBuilder::with_root(hot(&m.node[x])?);
            let q = m.node[x].num_children();
            for i in 0..rounds {
                ok!(i, b.open(V::new(1)).map_err(|e| e.to_string()));
                check!(i, b.close(3).is_err(), "an excessive close is accepted");
                ok!(i, b.close(1).map_err(|e| e.to_string()));
                let c = m.node[x].last_child();
                check!(i, m.node[x].num_children() == q + 1, "the number of children");
                match c {
                    Some(c) => hot(&c)?.detach_subtree(),
                    None => return dv(tag::X, "no child"),
                }
            }
        }
        // Trees which come and go, beside those that stay.
        13 => generations(rng, &m, rounds)?,
        _ => {
            for i in 0..rounds {
                let nd = &m.node[i % n];
                let e = DftEvent::Open(nd.clone());
                let mut it = nd.depth_first_traverse();
                it.next();
                let c = match it.close_current() {
                    Some(c) => c,
                    None => return dv(tag::X, "a traversal without a close"),
                };
                check!(i, c.ptr_eq(nd), "the closed node");
                let f = e.next().and_then(|e| e.prev());
                check!(i, matches!(f, Some(DftEvent::Open(f)) if f.ptr_eq(nd)), "the next event and back");
            }
        }
    }
    drop(bystander);
    ensure!(live() == l0, tag::X, "{} values are alive, before there were {l0}", live());
    audit(st, &m, "end", tag::X)?;
    ensure!(other.count_children() == 1 && other.num_children() == 1, tag::X, "the other tree");
    for t in [m.node[0].tree(), other.tree()] {
        let mine = other.belongs_to(&t);
        ensure!(t.prohibit_hierarchy_edit().is_err() == mine, tag::X, "edits can be prohibited: {}", !mine);
        ensure!(t.grant_hierarchy_edit().is_ok(), tag::X, "edits cannot be granted");
    }
    edit(st, rng, &mut m, trace)?;
    audit(st, &m, "edit after all", tag::X)
}
