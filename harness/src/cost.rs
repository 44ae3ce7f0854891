//! C23: instruction counts of operations on small and large trees.
//!
//! Runs under `valgrind --tool=callgrind --collect-atstart=no`; every measured
//! part is bracketed by client requests, and its count is dumped under a name
//! which tells the operation and the quantity that bounds its cost.

use std::hint::black_box;

use dendron::serial::{Event, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{AdoptAs, FrozenNode, HotNode, InsertAs, Node};

use crate::rng::{hash2, Rng};

type N = Node<u64>;

#[cfg(target_arch = "x86_64")]
fn request(code: u64, arg: u64) -> u64 {
    let args = [code, arg, 0, 0, 0, 0];
    let mut res: u64 = 0;
    // SAFETY: the sequence has no effect outside of Valgrind, and only sets the
    // result within.
    unsafe {
        std::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") res,
            in("rax") &args as *const u64,
        );
    }
    res
}
#[cfg(not(target_arch = "x86_64"))]
fn request(_: u64, _: u64) -> u64 {
    0
}
const RUNNING: u64 = 0x1001;
const TOGGLE: u64 = 0x4354_0002;
const DUMP_AT: u64 = 0x4354_0003;

/// A tree with a node of interest.
struct Cx<'a> {
    rng: &'a mut Rng,
    par: Vec<usize>,
    kids: Vec<Vec<usize>>,
    ns: Vec<N>,
    x: usize,
    label: String,
    kept: bool,
    dry: bool,
    done: bool,
}

impl Cx<'_> {
    /// Runs the function and attributes it to the quantity.
    fn measure<R>(&mut self, q: usize, f: impl FnOnce() -> R) -> R {
        assert!(!self.done, "harness: measured twice");
        self.done = true;
        if self.dry {
            return f();
        }
        let name = format!("{} q={}\0", self.label, q);
        request(TOGGLE, 0);
        let r = f();
        request(TOGGLE, 0);
        request(DUMP_AT, name.as_ptr() as u64);
        r
    }
    fn n(&self) -> usize {
        self.par.len()
    }
    fn root(&self) -> N {
        self.ns[0].clone()
    }
    fn node(&self) -> N {
        self.ns[self.x].clone()
    }
    fn hot(&self) -> HotNode<u64> {
        self.node().bundle_new_hierarchy_edit_grant().expect("harness")
    }
    fn frozen(&self) -> FrozenNode<u64> {
        self.node().bundle_new_hierarchy_edit_prohibition().expect("harness")
    }
    fn depth(&self) -> usize {
        let (mut x, mut d) = (self.x, 0);
        while x != 0 {
            x = self.par[x];
            d += 1;
        }
        d
    }
    fn sub(&self) -> Vec<usize> {
        let mut v = vec![self.x];
        let mut i = 0;
        while i < v.len() {
            v.extend(&self.kids[v[i]]);
            i += 1;
        }
        v
    }
    fn siblings(&self) -> usize {
        if self.x == 0 {
            1
        } else {
            self.kids[self.par[self.x]].len()
        }
    }
    fn index(&self) -> usize {
        if self.x == 0 {
            0
        } else {
            self.kids[self.par[self.x]].iter().position(|c| *c == self.x).unwrap()
        }
    }
    /// Levels below the node.
    fn height(&self) -> usize {
        let mut v = vec![self.x];
        let mut h = 0;
        while !v.is_empty() {
            v = v.iter().flat_map(|x| self.kids[*x].iter().copied()).collect();
            h += 1;
        }
        h
    }
    /// Forgets handles of the nodes, except for the root and the node.
    fn thin(&mut self) {
        if !self.kept {
            let (r, x) = (self.root(), self.node());
            self.ns.clear();
            let z = self.x;
            self.ns.resize(z + 1, r);
            self.ns[z] = x;
        }
    }
}

const SHAPES: [&str; 7] = ["chain", "star", "random", "comb", "broom", "two stars", "bush"];

fn shape(rng: &mut Rng, k: usize, n: usize) -> Vec<usize> {
    let mut par = vec![usize::MAX];
    for i in 1..n {
        par.push(match k {
            0 => i - 1,
            1 => 0,
            2 => rng.below(i),
            3 => {
                if i % 2 == 1 {
                    (i - 1) / 2 * 2
                } else {
                    i - 2
                }
            }
            4 => {
                if i < n / 2 {
                    i - 1
                } else {
                    n / 2 - 1
                }
            }
            5 => {
                if i <= 2 {
                    0
                } else {
                    1 + rng.below(2)
                }
            }
            _ => (i - 1) / 3,
        });
    }
    par
}

fn build(par: &[usize]) -> Vec<N> {
    let root = HotNode::new_tree(0u64);
    let g = root.extract_hierarchy_edit_grant();
    let mut ns = vec![root.plain()];
    for i in 1..par.len() {
        let n = ns[par[i]].create_as_last_child(&g, i as u64);
        ns.push(n);
    }
    ns
}

macro_rules! ops {
    ($($name:literal => |$c:ident| $body:block)*) => {
        const OPS: &[&str] = &[$($name),*];
        fn run_op(k: usize, c: &mut Cx<'_>) -> Option<()> {
            let mut i = 0;
            $(
                if k == i {
                    let $c = c;
                    return $body;
                }
                i += 1;
            )*
            let _ = i;
            None
        }
    };
}

/// Navigation through the three kinds of node handles.
macro_rules! nav {
    ($c:ident, $f:ident) => {{
        let n = $c.node();
        match $c.rng.below(3) {
            0 => {
                $c.measure(1, || black_box(n.$f()));
            }
            1 => {
                let h = $c.hot();
                $c.measure(1, || black_box(h.$f()));
            }
            _ => {
                let h = $c.frozen();
                $c.measure(1, || black_box(h.$f()));
            }
        }
        Some(())
    }};
}

/// Counting something through the three kinds of node handles.
macro_rules! linear {
    ($c:ident, $q:expr, $n:ident => $e:expr) => {{
        let q = 1 + $q;
        match $c.rng.below(3) {
            0 => {
                let $n = $c.node();
                $c.measure(q, || black_box($e));
            }
            1 => {
                let $n = $c.hot();
                $c.measure(q, || black_box($e));
            }
            _ => {
                let $n = $c.frozen();
                $c.measure(q, || black_box($e));
            }
        }
        Some(())
    }};
}

/// Editing through a handle with a grant in it, or with a standalone grant.
macro_rules! edit {
    ($c:ident, $q:expr, $m:ident($($a:expr),*)) => {{
        let q = $q;
        if $c.rng.bool() {
            let h = $c.hot();
            $c.thin();
            $c.measure(q, || {
                black_box(h.$m($($a),*));
            });
        } else {
            let n = $c.node();
            let g = n.tree().grant_hierarchy_edit().expect("harness");
            $c.thin();
            $c.measure(q, || {
                black_box(n.$m(&g, $($a),*));
            });
        }
        Some(())
    }};
}

ops! {
    "parent" => |c| { nav!(c, parent) }
    "root" => |c| { nav!(c, root) }
    "is_root" => |c| { nav!(c, is_root) }
    "tree" => |c| { nav!(c, tree) }
    "prev_sibling" => |c| { nav!(c, prev_sibling) }
    "next_sibling" => |c| { nav!(c, next_sibling) }
    "first_sibling" => |c| { nav!(c, first_sibling) }
    "last_sibling" => |c| { nav!(c, last_sibling) }
    "first_last_sibling" => |c| { nav!(c, first_last_sibling) }
    "first_child" => |c| { nav!(c, first_child) }
    "last_child" => |c| { nav!(c, last_child) }
    "first_last_child" => |c| { nav!(c, first_last_child) }
    "has_prev_sibling" => |c| { nav!(c, has_prev_sibling) }
    "has_next_sibling" => |c| { nav!(c, has_next_sibling) }
    "has_children" => |c| { nav!(c, has_children) }
    "has_one_child" => |c| { nav!(c, has_one_child) }
    "has_multiple_children" => |c| { nav!(c, has_multiple_children) }
    "num_children" => |c| { nav!(c, num_children) }
    "belongs_to" => |c| {
        let t = c.root().tree();
        let n = c.node();
        c.measure(1, || black_box(n.belongs_to(&t) && n.belongs_to_same_tree(&t.root())));
        Some(())
    }
    "clone and drop handles" => |c| {
        let n = c.node();
        let t = n.tree();
        c.measure(1, || drop(black_box((n.clone(), t.clone()))));
        Some(())
    }
    "clone and drop hot handles" => |c| {
        let n = c.hot();
        c.measure(1, || drop(black_box(n.clone())));
        Some(())
    }
    "clone and drop frozen handles" => |c| {
        let n = c.frozen();
        c.measure(1, || drop(black_box(n.clone())));
        Some(())
    }
    "weak references" => |c| {
        let n = c.node();
        let t = n.tree();
        c.measure(1, || {
            let (a, b) = (n.downgrade(), t.downgrade());
            black_box((a.upgrade(), b.upgrade(), a.clone(), b.clone()));
        });
        Some(())
    }
    "grants" => |c| {
        let n = c.node();
        let t = n.tree();
        c.measure(1, || {
            let g = t.grant_hierarchy_edit().expect("harness");
            let h = n.clone().bundle_hierarchy_edit_grant(&g);
            let i = n.clone().bundle_new_hierarchy_edit_grant().expect("harness");
            let j = i.extract_hierarchy_edit_grant();
            black_box(t.prohibit_hierarchy_edit().is_err());
            black_box((g.clone(), h, j));
        });
        Some(())
    }
    "prohibitions" => |c| {
        let n = c.node();
        let t = n.tree();
        c.measure(1, || {
            let g = t.prohibit_hierarchy_edit().expect("harness");
            let h = n.clone().bundle_hierarchy_edit_prohibition(&g);
            let i = n.clone().bundle_new_hierarchy_edit_prohibition().expect("harness");
            let j = i.extract_hierarchy_edit_prohibition();
            black_box(t.grant_hierarchy_edit().is_err());
            black_box((g, h, j));
        });
        Some(())
    }
    "data" => |c| {
        let n = c.node();
        c.measure(1, || {
            *n.borrow_data_mut() += 1;
            black_box(*n.borrow_data());
        });
        Some(())
    }
    "local debug formats" => |c| {
        let n = c.node();
        c.measure(1, || black_box(format!("{:?} {:?}", n, n.debug_print_local())));
        Some(())
    }
    "first steps of traversals" => |c| {
        let n = c.node();
        c.measure(1, || {
            black_box(n.depth_first_traverse().next());
            black_box(n.depth_first_reverse_traverse().next());
            black_box(n.children().next());
            black_box(n.children_reverse().next());
            black_box(n.siblings().next());
            black_box(n.siblings_reverse().next());
            black_box(n.preceding_siblings_reverse().next());
            black_box(n.preceding_siblings_or_self_reverse().next());
            black_box(n.following_siblings().next());
            black_box(n.following_siblings_or_self().next());
            black_box(n.ancestors().next());
            black_box(n.ancestors_or_self().next());
            black_box(n.to_events().next().is_some());
        });
        Some(())
    }
    "first steps of stable traversals" => |c| {
        let n = c.frozen();
        c.measure(1, || {
            let mut i = n.depth_first_traverse_stable();
            black_box((i.next(), i.next_back(), i.peek().is_some()));
            let mut i = n.children_stable();
            black_box((i.next(), i.next_back()));
            let mut i = n.siblings_stable();
            black_box((i.next(), i.next_back()));
            let mut i = n.preceding_siblings_stable();
            black_box((i.next(), i.next_back()));
            let mut i = n.following_siblings_stable();
            black_box((i.next(), i.next_back()));
            let mut i = n.shallow_depth_first_traverse_stable(Some(0));
            black_box((i.next(), i.next_back()));
            black_box(n.non_allocating_breadth_first_traverse_stable(0).next());
            black_box(n.allocating_breadth_first_traverse_stable(0).size_hint());
        });
        Some(())
    }
    "steps between events" => |c| {
        let n = c.node();
        let (o, e) = (DftEvent::Open(n.clone()), DftEvent::Close(n));
        c.measure(1, || black_box((o.next(), o.prev(), e.next(), e.prev())));
        Some(())
    }
    "create a child" => |c| {
        match c.rng.below(4) {
            0 => edit!(c, 1, create_as_first_child(1)),
            1 => edit!(c, 1, create_as_last_child(1)),
            2 => edit!(c, 1, create_node_as(1, AdoptAs::FirstChild)),
            _ => edit!(c, 1, try_create_node_as(1, AdoptAs::LastChild)),
        }
    }
    "create a sibling" => |c| {
        if c.x == 0 {
            return None;
        }
        match c.rng.below(6) {
            0 => edit!(c, 1, create_as_prev_sibling(1)),
            1 => edit!(c, 1, create_as_next_sibling(1)),
            2 => edit!(c, 1, create_node_as(1, AdoptAs::PreviousSibling)),
            3 => edit!(c, 1, create_node_as(1, AdoptAs::NextSibling)),
            4 => edit!(c, 1, try_create_as_prev_sibling(1)),
            _ => edit!(c, 1, try_create_as_next_sibling(1)),
        }
    }
    "interrupt with a parent" => |c| {
        edit!(c, 1, create_as_interrupting_parent(1))
    }
    "interrupt with a child" => |c| {
        let q = 1 + c.kids[c.x].len();
        edit!(c, q, create_as_interrupting_child(1))
    }
    "replace with the children" => |c| {
        let q = 1 + c.kids[c.x].len();
        if c.x == 0 && q != 2 {
            return None;
        }
        let n = c.node();
        let rest = n.parent().or(n.first_child());
        drop(n);
        if c.rng.bool() {
            edit!(c, q, replace_with_children())
        } else {
            edit!(c, q, try_replace_with_children())
        }?;
        drop(rest);
        Some(())
    }
    "detach" => |c| {
        let q = c.sub().len();
        edit!(c, q, detach_subtree())
    }
    "move within the tree" => |c| {
        // To the root, whatever the sizes are.
        if c.x == 0 {
            return None;
        }
        let r = c.root().bundle_new_hierarchy_edit_grant().expect("harness");
        let d = if c.rng.bool() { InsertAs::FirstChildOf(&r) } else { InsertAs::LastChildOf(&r) };
        if c.rng.bool() {
            edit!(c, 1, detach_insert_subtree(d))
        } else {
            edit!(c, 1, try_detach_insert_subtree(d))
        }
    }
    "move next to a child of the root" => |c| {
        if c.x == 0 || c.kids[0].len() < 2 {
            return None;
        }
        let k = *c.rng.pick(&c.kids[0]);
        if c.sub().contains(&k) {
            return None;
        }
        let r = c.ns[k].clone().bundle_new_hierarchy_edit_grant().expect("harness");
        let d = if c.rng.bool() { InsertAs::PreviousSiblingOf(&r) } else { InsertAs::NextSiblingOf(&r) };
        if c.rng.bool() {
            edit!(c, 1, detach_insert_subtree(d))
        } else {
            edit!(c, 1, try_detach_insert_subtree(d))
        }
    }
    "move within the tree, refused" => |c| {
        // The destination is checked up to the root.
        let q = 1 + c.depth();
        let h = c.hot();
        let r = c.root().bundle_new_hierarchy_edit_grant().expect("harness");
        c.thin();
        c.measure(q, || black_box(r.try_detach_insert_subtree(InsertAs::LastChildOf(&h)).is_err()));
        Some(())
    }
    "move to another tree" => |c| {
        let q = c.sub().len();
        let o = HotNode::new_tree(7);
        for i in 0..c.rng.below(50) {
            o.create_as_last_child(i as u64);
        }
        let d = if c.rng.bool() { InsertAs::FirstChildOf(&o) } else { InsertAs::LastChildOf(&o) };
        if c.rng.bool() {
            edit!(c, q, detach_insert_subtree(d))
        } else {
            edit!(c, q, try_detach_insert_subtree(d))
        }?;
        c.ns.clear();
        drop(o);
        Some(())
    }
    "move a small tree under a large one" => |c| {
        // The destination is checked up to the root.
        let q = 1 + c.depth();
        let s = HotNode::new_tree(7);
        s.create_as_last_child(8);
        let s = s.plain();
        let g = s.tree().grant_hierarchy_edit().expect("harness");
        let h = c.hot();
        c.thin();
        c.measure(q, || black_box(s.try_detach_insert_subtree(&g, InsertAs::FirstChildOf(&h)).is_ok()));
        Some(())
    }
    "clone a subtree" => |c| {
        let q = c.sub().len();
        linear!(c, q, n => n.clone_subtree())
    }
    "clone a tree" => |c| {
        let q = c.n();
        let t = c.root().tree();
        c.measure(q, || black_box(t.clone_tree()));
        Some(())
    }
    "clone and insert" => |c| {
        let q = c.sub().len();
        let o = HotNode::new_tree(7);
        let n = c.node();
        c.measure(q, || black_box(n.clone_insert_subtree(InsertAs::LastChildOf(&o))));
        Some(())
    }
    "compare equal" => |c| {
        let q = c.sub().len();
        let o = c.node().clone_subtree();
        let n = c.node();
        c.measure(q, || black_box(n == o));
        Some(())
    }
    "compare trees" => |c| {
        let q = c.n();
        let o = c.root().tree().clone_tree();
        let n = c.root().tree();
        c.measure(q, || black_box(n == o));
        Some(())
    }
    "compare different roots" => |c| {
        let o = c.node().clone_subtree();
        *o.borrow_data_mut() = u64::MAX;
        let n = c.node();
        c.measure(1, || black_box(n == o));
        Some(())
    }
    "count_children" => |c| { let q = c.kids[c.x].len(); linear!(c, q, n => n.count_children()) }
    "count_ancestors" => |c| { let q = c.depth(); linear!(c, q, n => n.count_ancestors()) }
    "count_preceding_siblings" => |c| { let q = c.index(); linear!(c, q, n => n.count_preceding_siblings()) }
    "count_following_siblings" => |c| {
        let q = c.siblings() - c.index();
        linear!(c, q, n => n.count_following_siblings())
    }
    "depth_first_traverse" => |c| { let q = c.sub().len(); linear!(c, q, n => n.depth_first_traverse().count()) }
    "depth_first_reverse_traverse" => |c| {
        let q = c.sub().len();
        linear!(c, q, n => n.depth_first_reverse_traverse().count())
    }
    "close_current" => |c| {
        let q = c.sub().len();
        linear!(c, q, n => {
            let mut i = n.depth_first_traverse();
            i.next();
            i.close_current().is_some()
        })
    }
    "children" => |c| { let q = c.kids[c.x].len(); linear!(c, q, n => n.children().count() + n.children_reverse().count()) }
    "siblings" => |c| { let q = c.siblings(); linear!(c, q, n => n.siblings().count() + n.siblings_reverse().count()) }
    "following_siblings" => |c| {
        let q = c.siblings() - c.index();
        linear!(c, q, n => n.following_siblings().count() + n.following_siblings_or_self().count())
    }
    "preceding_siblings" => |c| {
        let q = c.index();
        linear!(c, q, n => n.preceding_siblings_reverse().count() + n.preceding_siblings_or_self_reverse().count())
    }
    "ancestors" => |c| { let q = c.depth(); linear!(c, q, n => n.ancestors().count() + n.ancestors_or_self().count()) }
    "depth_first_traverse_stable" => |c| {
        let q = c.sub().len();
        let n = c.frozen();
        let mut pick = 0usize;
        c.measure(q, || {
            let mut i = n.depth_first_traverse_stable();
            loop {
                pick = pick.wrapping_mul(5).wrapping_add(3);
                let e = if pick & 8 == 0 { i.next() } else { i.next_back() };
                if e.is_none() {
                    break;
                }
                if pick & 16 != 0 {
                    black_box((i.peek().is_some(), i.peek_back().is_some()));
                }
            }
        });
        Some(())
    }
    "shallow traversal" => |c| {
        let n = c.frozen();
        let lim = c.rng.below(4);
        let mut q = 1;
        let mut level = vec![c.x];
        for _ in 0..lim {
            level = level.iter().flat_map(|x| c.kids[*x].iter().copied()).collect();
            q += level.len();
        }
        let back = c.rng.bool();
        c.measure(q, || {
            let i = n.shallow_depth_first_traverse_stable(Some(lim));
            black_box(if back { i.rev().count() } else { i.count() })
        });
        Some(())
    }
    "children_stable" => |c| {
        let q = 1 + c.kids[c.x].len();
        let n = c.frozen();
        c.measure(q, || black_box(n.children_stable().count() + n.children_stable().rev().count()));
        Some(())
    }
    "siblings_stable" => |c| {
        let q = c.siblings();
        let n = c.frozen();
        c.measure(q, || {
            black_box(n.siblings_stable().count() + n.siblings_stable().rev().count());
            black_box(n.preceding_siblings_stable().count() + n.preceding_siblings_or_self_stable().rev().count());
            black_box(n.following_siblings_stable().count() + n.following_siblings_or_self_stable().rev().count());
        });
        Some(())
    }
    "allocating breadth-first traversal" => |c| {
        let q = c.sub().len();
        let n = c.frozen();
        let start = c.rng.below(3);
        c.measure(q, || black_box(n.allocating_breadth_first_traverse_stable(start).count()));
        Some(())
    }
    "non-allocating breadth-first traversal" => |c| {
        // One pass for each level.
        let h = c.height();
        if h > 12 {
            return None;
        }
        let q = c.sub().len() * h;
        let n = c.frozen();
        c.measure(q, || black_box(n.non_allocating_breadth_first_traverse_stable(0).count()));
        Some(())
    }
    "events" => |c| { let q = c.sub().len(); linear!(c, q, n => n.to_events().count()) }
    "build from events" => |c| {
        let q = c.sub().len();
        let ev: Vec<Event<u64>> = c.node().to_events().map(|e| e.expect("harness")).collect();
        let r: Result<N, _> = c.measure(q, || ev.into_iter().collect());
        drop(r);
        Some(())
    }
    "build from traversal events" => |c| {
        let q = c.sub().len();
        let n = c.node();
        let r: Result<N, _> = c.measure(q, || n.depth_first_traverse().collect());
        drop(r);
        Some(())
    }
    "steps of a builder" => |c| {
        let h = c.hot();
        c.thin();
        let mut b = TreeBuilder::with_root(h);
        c.measure(1, || {
            b.open(1).expect("harness");
            b.close(1).expect("harness");
            b.open(1).expect("harness");
            b.open(1).expect("harness");
            b.close(2).expect("harness");
            black_box((b.is_root_available(), b.is_root_closed()))
        });
        Some(())
    }
    "drop a tree" => |c| {
        let q = c.n();
        let last = c.node();
        c.ns.clear();
        c.measure(q, || drop(last));
        Some(())
    }
    "drop a detached part" => |c| {
        if c.x == 0 {
            return None;
        }
        let q = c.sub().len();
        let h = c.hot();
        h.detach_subtree();
        let gone = c.sub();
        let r = c.root();
        for i in gone {
            if i < c.ns.len() {
                c.ns[i] = r.clone();
            }
        }
        let p = h.plain();
        drop(h);
        c.measure(q, || drop(p));
        Some(())
    }
    "pretty print" => |c| {
        let (h, q) = (c.height(), c.sub().len());
        if h > 12 {
            return None;
        }
        let n = c.node();
        c.measure(q * h, || black_box(n.debug_pretty_print().to_string()));
        Some(())
    }
}

/// `dmon cost --seed S --start K --stride J --cases N`
pub fn main() {
    let (mut seed, mut start, mut stride, mut cases, mut only) = (1u64, 0u64, 1u64, 100u64, None);
    let mut it = std::env::args().skip(2);
    while let Some(k) = it.next() {
        let v: u64 = it.next().and_then(|v| v.parse().ok()).unwrap_or(0);
        match &*k {
            "--seed" => seed = v,
            "--start" => start = v,
            "--stride" => stride = v,
            "--cases" => cases = v,
            "--only" => only = Some(v),
            _ => std::process::exit(2),
        }
    }
    let dry = request(RUNNING, 0) == 0;
    let mut idx = only.unwrap_or(start);
    while idx < cases {
        let mut rng = Rng::new(hash2(seed, hash2(idx, 23)));
        let op = idx as usize % OPS.len();
        let round = idx as usize / OPS.len();
        // Every shape, small and large.
        let large = round % 2 == 1;
        let k = round / 2 % SHAPES.len();
        let n = if large {
            *rng.pick(&[1500, 3000, 5000])
        } else {
            *rng.pick(&[12, 20, 40, 64])
        };
        let n = n + rng.below(n / 4 + 1);
        let par = shape(&mut rng, k, n);
        let mut kids = vec![vec![]; n];
        for i in 1..n {
            kids[par[i]].push(i);
        }
        let x = match rng.below(6) {
            0 => 0,
            1 => n - 1,
            2 => *rng.pick(kids[0].as_slice()),
            3 => kids[0][kids[0].len() / 2],
            4 => kids.iter().position(|c| c.len() > 2).unwrap_or(1),
            _ => rng.below(n),
        };
        let kept = rng.bool();
        let ns = build(&par);
        let at = if x == 0 { "root" } else { "node" };
        let mut c = Cx {
            rng: &mut rng,
            label: format!(
                "case={idx} op={op} large={} shape={k} n={n} x={x} at={at} kept={}",
                large as u8, kept as u8
            ),
            par,
            kids,
            ns,
            x,
            kept,
            dry,
            done: false,
        };
        run_op(op, &mut c);
        if only.is_some() {
            println!("{} {}: {}", OPS[op], SHAPES[k], c.label);
            break;
        }
        idx += stride;
    }
    println!("ops={}", OPS.join("|"));
}
