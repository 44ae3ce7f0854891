//! Reference model, pool of live handles, random and directed operations, and
//! the audits which compare the real trees with the model.

use std::collections::HashMap;

use dendron::traverse::{
    AllocatingBreadthFirstTraverser, AncestorsTraverser, DepthFirstTraverser,
    NonAllocatingBreadthFirstTraverser, SiblingsTraverser, StableDepthFirstTraverser,
    StableSiblingsTraverser,
};
use dendron::tree::{HierarchyEditGrant, HierarchyEditProhibition};
use dendron::{
    AdoptAs, FrozenNode, HierarchyError, HotNode, InsertAs, Node, NodeWeak, Tree, TreeWeak,
};

use crate::nav::Nav;
use crate::payload::*;
use crate::rng::{hash2, Rng};

/// What an observed divergence is about.
pub mod tag {
    /// Navigation answers / shape.
    pub const S: u32 = 1;
    /// Tree membership.
    pub const M: u32 = 2;
    /// Weak references and lifetime of handles.
    pub const W: u32 = 4;
    /// Ledger of the associated data (drops).
    pub const L: u32 = 8;
    /// Locks.
    pub const K: u32 = 16;
    /// Values of the data.
    pub const D: u32 = 32;
    /// A valid edit was refused.
    pub const EOK: u32 = 64;
    /// An invalid edit was accepted, or refused for a wrong reason.
    pub const EERR: u32 = 128;
    /// Validity of grants and prohibitions.
    pub const G: u32 = 256;
    /// Result of clone operations.
    pub const CL: u32 = 512;
    /// User callbacks called by operations which do not need the data.
    pub const T: u32 = 1024;
    /// Traversal.
    pub const V: u32 = 2048;
    /// Unexpected panic: always a violation.
    pub const PANIC: u32 = 1 << 30;
    /// A probe specific to the checked property: always a violation.
    pub const X: u32 = 1 << 31;
    pub fn name(t: u32) -> &'static str {
        match t {
            S => "structure",
            M => "membership",
            W => "weak-reference/lifetime",
            L => "drop-ledger",
            K => "locks",
            D => "data",
            EOK => "valid-edit-refused",
            EERR => "invalid-edit-accepted",
            G => "grant-validity",
            CL => "clone-result",
            T => "data-touched",
            V => "traversal",
            PANIC => "unexpected-panic",
            _ => "property",
        }
    }
}

#[derive(Debug, Clone)]
pub struct Div {
    pub tag: u32,
    pub msg: String,
}
pub type R<T> = Result<T, Div>;

pub fn dv<T>(tag: u32, msg: impl Into<String>) -> R<T> {
    Err(Div {
        tag,
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $tag:expr, $($a:tt)*) => {
        if !$c {
            return $crate::world::dv($tag, format!($($a)*));
        }
    };
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub tree: usize,
    pub inst: u64,
    pub val: i64,
    pub alive: bool,
}
#[derive(Clone, Debug)]
pub struct MTree {
    pub root: usize,
    pub alive: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dest {
    First,
    Last,
    Prev,
    Next,
}
pub const DESTS: [Dest; 4] = [Dest::First, Dest::Last, Dest::Prev, Dest::Next];

impl Dest {
    pub fn adopt(self) -> AdoptAs {
        match self {
            Dest::First => AdoptAs::FirstChild,
            Dest::Last => AdoptAs::LastChild,
            Dest::Prev => AdoptAs::PreviousSibling,
            Dest::Next => AdoptAs::NextSibling,
        }
    }
    pub fn insert<T>(self, t: T) -> InsertAs<T> {
        match self {
            Dest::First => InsertAs::FirstChildOf(t),
            Dest::Last => InsertAs::LastChildOf(t),
            Dest::Prev => InsertAs::PreviousSiblingOf(t),
            Dest::Next => InsertAs::NextSiblingOf(t),
        }
    }
    /// The same destination made in one of the ways which the crate offers.
    pub fn insert_how<T: Copy>(self, t: T, fl: Fl) -> InsertAs<T> {
        match (fl.specific, fl.keep) {
            (false, false) => self.insert(t),
            (true, false) => self.insert(()).map(|()| t),
            (false, true) => self.insert(t).as_ref().map(|t| *t),
            (true, true) => {
                let ia = self.insert(t);
                let copy = ia;
                copy.as_ref().clone().map(|t: &T| (*t, 0)).map(|(t, _)| t)
            }
        }
    }
    pub fn is_sibling(self) -> bool {
        matches!(self, Dest::Prev | Dest::Next)
    }
}

/// API flavour of an operation.
#[derive(Clone, Copy, Debug, Default)]
pub struct Fl {
    /// Use hot node handles rather than plain handles and a grant.
    pub hot: bool,
    /// Use the panicking form.
    pub panicking: bool,
    /// Use the operation-specific method (`create_as_first_child`).
    pub specific: bool,
    /// Keep the returned handle.
    pub keep: bool,
}

impl Fl {
    pub fn from_bits(b: usize) -> Fl {
        Fl {
            hot: b & 1 != 0,
            panicking: b & 2 != 0,
            specific: b & 4 != 0,
            keep: b & 8 != 0,
        }
    }
    pub fn s(self) -> String {
        format!(
            "[{}{}{}{}]",
            if self.hot { "hot" } else { "plain" },
            if self.panicking { ",panicking" } else { "" },
            if self.specific { ",specific" } else { "" },
            if self.keep { ",keep" } else { "" }
        )
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Edit {
    Create { x: usize, d: Dest },
    IntParent { x: usize },
    IntChild { x: usize },
    Detach { x: usize },
    Replace { x: usize },
    Move { x: usize, d: Dest, y: usize },
    CloneInsert { x: usize, d: Dest, y: usize },
    CloneSub { x: usize },
}

/// Kind of a refusal.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rf {
    Loop,
    Empty,
    Siblings,
    Borrow,
}
pub fn rf_of(e: &HierarchyError) -> Option<Rf> {
    Some(match e {
        HierarchyError::AncestorDescendantLoop => Rf::Loop,
        HierarchyError::EmptyTree => Rf::Empty,
        HierarchyError::SiblingsWithoutParent => Rf::Siblings,
        HierarchyError::BorrowNodeData(_) => Rf::Borrow,
        _ => return None,
    })
}

pub enum It {
    Dft(DepthFirstTraverser<P>),
    Sib(SiblingsTraverser<P>),
    Anc(AncestorsTraverser<P>),
    // These prohibit edits of the tree.
    SDft(StableDepthFirstTraverser<P>),
    SSib(StableSiblingsTraverser<P>),
    NBft(NonAllocatingBreadthFirstTraverser<P>),
    ABft(AllocatingBreadthFirstTraverser<P>),
}
impl It {
    fn prohibits(&self) -> bool {
        !matches!(self, It::Dft(_) | It::Sib(_) | It::Anc(_))
    }
    fn dup(&self) -> It {
        match self {
            It::Dft(d) => It::Dft(d.clone()),
            It::Sib(d) => It::Sib(d.clone()),
            It::Anc(d) => It::Anc(d.clone()),
            It::SDft(d) => It::SDft(d.clone()),
            It::SSib(d) => It::SSib(d.clone()),
            It::NBft(d) => It::NBft(d.clone()),
            It::ABft(d) => It::ABft(d.clone()),
        }
    }
    /// The node at which the (unadvanced) iterator is positioned.
    fn at(&self) -> Option<Node<P>> {
        match self {
            It::Dft(d) => d.peek().map(|e| e.as_value().clone()),
            It::Sib(d) => d.peek().cloned(),
            It::Anc(d) => d.peek().cloned(),
            It::SDft(d) => d.peek().map(|e| e.as_value().plain()),
            It::SSib(d) => d.peek().map(|n| n.plain()),
            It::NBft(d) => d.clone().next().map(|(n, _)| n.plain()),
            It::ABft(d) => d.peek().map(|(n, _)| n.plain()),
        }
    }
}

pub enum H {
    N(Node<P>),
    Hot(HotNode<P>),
    Fz(FrozenNode<P>),
    T(Tree<P>),
    NW(NodeWeak<P>),
    TW(TreeWeak<P>),
    G(HierarchyEditGrant<P>),
    Pr(HierarchyEditProhibition<P>),
    It(It),
    /// Not a handle: tells the model that something outside of the pool
    /// preserves the tree of the node.
    Pin,
}

/// A pooled handle; `t` is a node id or a tree id depending on the kind.
pub struct Ent {
    pub h: H,
    pub t: usize,
    /// Must not be dropped by random operations.
    pub pinned: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Tags which are violations for the running check.
    pub tags: u32,
    /// Tags audited after every operation.
    pub audit: u32,
    pub max_nodes: usize,
    pub max_trees: usize,
    pub max_pool: usize,
    /// Weights: edits, acquire, clone, convert, drop, data, foreign grant.
    pub w_edit: usize,
    pub w_acquire: usize,
    pub w_convert: usize,
    pub w_drop: usize,
    pub w_data: usize,
    pub w_foreign: usize,
    pub w_newtree: usize,
    /// Probability (percent) that frozen handles and prohibitions are acquired.
    pub frozen_pct: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            tags: !0,
            audit: !0,
            max_nodes: 14,
            max_trees: 4,
            max_pool: 12,
            w_edit: 40,
            w_acquire: 14,
            w_convert: 10,
            w_drop: 16,
            w_data: 3,
            w_foreign: 3,
            w_newtree: 6,
            frozen_pct: 30,
        }
    }
}

/// Indexes into `Stats::c`.
pub mod ct {
    pub const OPS: usize = 0;
    pub const EDIT_OK: usize = 1;
    pub const EDIT_REFUSED: usize = 2;
    pub const EDIT_LOCKED: usize = 3;
    pub const HANDLE: usize = 4;
    pub const AUDITS: usize = 5;
    pub const NAV: usize = 6;
    pub const LOCKPROBE: usize = 7;
    pub const WEAK: usize = 8;
    pub const DROPS: usize = 9;
    pub const FOREIGN: usize = 10;
    pub const CROSS: usize = 11;
    pub const CLONES: usize = 12;
    pub const TREES_DIED: usize = 13;
    pub const ABANDONED: usize = 14;
    pub const ITEMS: usize = 15;
    pub const USER1: usize = 16;
    pub const USER2: usize = 17;
    pub const USER3: usize = 18;
    pub const USER4: usize = 19;
    pub const LOCKMOVES: usize = 20;
    pub const N: usize = 24;
}

/// Counters and a bounded table of distinct hashes. Never allocates after creation.
pub struct Stats {
    pub c: [u64; ct::N],
    pub table: Vec<u64>,
    pub filled: usize,
    /// Number of situations which were offered to `seen`.
    pub tried: u64,
}
impl Stats {
    pub fn new(bits: u32) -> Self {
        Stats {
            c: [0; ct::N],
            table: vec![0; 1 << bits],
            filled: 0,
            tried: 0,
        }
    }
    pub fn inc(&mut self, i: usize) {
        self.c[i] += 1;
    }
    pub fn add(&mut self, i: usize, n: usize) {
        self.c[i] += n as u64;
    }
    /// Records a hash of something distinct.
    pub fn seen(&mut self, h: u64) -> bool {
        let h = h | 1;
        self.tried += 1;
        let mask = self.table.len() - 1;
        if self.filled * 2 > self.table.len() {
            return false;
        }
        let mut i = (h >> 8) as usize & mask;
        loop {
            if self.table[i] == h {
                return false;
            }
            if self.table[i] == 0 {
                self.table[i] = h;
                self.filled += 1;
                return true;
            }
            i = (i + 1) & mask;
        }
    }
}

pub struct W<'s> {
    pub nodes: Vec<MNode>,
    pub trees: Vec<MTree>,
    pub pool: Vec<Ent>,
    pub nweak: Vec<NodeWeak<P>>,
    pub tweak: Vec<TreeWeak<P>>,
    pub inst2id: HashMap<u64, usize>,
    /// Nodes whose data is currently mutably borrowed by the harness.
    pub mut_borrowed: Vec<usize>,
    /// Payloads created by the harness which are not associated to nodes.
    pub extra_live: usize,
    pub rng: Rng,
    pub cfg: Cfg,
    pub trace: Vec<String>,
    pub st: &'s mut Stats,
    pub next_val: i64,
}

impl<'s> W<'s> {
    pub fn new(rng: Rng, cfg: Cfg, st: &'s mut Stats) -> Self {
        W {
            nodes: vec![],
            trees: vec![],
            pool: vec![],
            nweak: vec![],
            tweak: vec![],
            inst2id: HashMap::new(),
            mut_borrowed: vec![],
            extra_live: 0,
            rng,
            cfg,
            trace: vec![],
            st,
            next_val: 0,
        }
    }

    pub fn tr(&mut self, s: impl Into<String>) {
        self.trace.push(s.into());
    }

    // ---------------------------------------------------------------- model

    pub fn live_nodes(&self) -> Vec<usize> {
        (0..self.nodes.len())
            .filter(|i| self.nodes[*i].alive)
            .collect()
    }
    pub fn num_live(&self) -> usize {
        self.nodes.iter().filter(|n| n.alive).count()
    }
    pub fn live_trees(&self) -> Vec<usize> {
        (0..self.trees.len())
            .filter(|i| self.trees[*i].alive)
            .collect()
    }
    pub fn subtree(&self, x: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut stack = vec![x];
        while let Some(n) = stack.pop() {
            out.push(n);
            for c in self.nodes[n].children.iter().rev() {
                stack.push(*c);
            }
        }
        out
    }
    pub fn in_subtree(&self, n: usize, root: usize) -> bool {
        let mut c = Some(n);
        while let Some(k) = c {
            if k == root {
                return true;
            }
            c = self.nodes[k].parent;
        }
        false
    }
    pub fn siblings(&self, x: usize) -> Vec<usize> {
        match self.nodes[x].parent {
            Some(p) => self.nodes[p].children.clone(),
            None => vec![x],
        }
    }
    pub fn pos(&self, x: usize) -> usize {
        match self.nodes[x].parent {
            Some(p) => self.nodes[p]
                .children
                .iter()
                .position(|c| *c == x)
                .expect("model"),
            None => 0,
        }
    }
    pub fn depth(&self, x: usize) -> usize {
        let mut d = 0;
        let mut c = x;
        while let Some(p) = self.nodes[c].parent {
            d += 1;
            c = p;
        }
        d
    }
    /// Shape and values of the subtree as text, such as `1(2,3(4))`.
    pub fn shape(&self, x: usize) -> String {
        fn go(w: &W<'_>, x: usize, out: &mut String) {
            out.push_str(&w.nodes[x].val.to_string());
            if !w.nodes[x].children.is_empty() {
                out.push('(');
                for (i, c) in w.nodes[x].children.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    go(w, *c, out);
                }
                out.push(')');
            }
        }
        let mut s = String::new();
        go(self, x, &mut s);
        s
    }
    /// Hash of the shape (without data).
    pub fn shape_hash(&self, x: usize) -> u64 {
        let mut h = 7;
        let mut stack = vec![(x, false)];
        while let Some((n, done)) = stack.pop() {
            if done {
                h = hash2(h, 2);
                continue;
            }
            h = hash2(h, 1);
            stack.push((n, true));
            for c in self.nodes[n].children.iter().rev() {
                stack.push((*c, false));
            }
        }
        h
    }

    pub fn m_unlink(&mut self, x: usize) {
        if let Some(p) = self.nodes[x].parent.take() {
            let i = self.nodes[p].children.iter().position(|c| *c == x).unwrap();
            self.nodes[p].children.remove(i);
        }
    }
    pub fn m_insert(&mut self, x: usize, d: Dest, y: usize) {
        let (p, i) = match d {
            Dest::First => (y, 0),
            Dest::Last => (y, self.nodes[y].children.len()),
            Dest::Prev => (self.nodes[y].parent.unwrap(), self.pos(y)),
            Dest::Next => (self.nodes[y].parent.unwrap(), self.pos(y) + 1),
        };
        self.nodes[p].children.insert(i, x);
        self.nodes[x].parent = Some(p);
    }
    pub fn m_set_tree(&mut self, x: usize, t: usize) {
        for n in self.subtree(x) {
            self.nodes[n].tree = t;
        }
    }
    pub fn m_new_tree(&mut self, root: usize) -> usize {
        self.trees.push(MTree { root, alive: true });
        let t = self.trees.len() - 1;
        self.m_set_tree(root, t);
        t
    }
    pub fn m_new_node(&mut self, inst: u64, val: i64, tree: usize) -> usize {
        self.nodes.push(MNode {
            parent: None,
            children: vec![],
            tree,
            inst,
            val,
            alive: true,
        });
        let id = self.nodes.len() - 1;
        self.inst2id.insert(inst, id);
        id
    }

    /// Trees kept alive by pooled handles.
    fn pinned_trees(&self) -> Vec<bool> {
        let mut v = vec![false; self.trees.len()];
        for e in &self.pool {
            match &e.h {
                H::N(_) | H::Hot(_) | H::Fz(_) | H::It(_) | H::Pin => {
                    v[self.nodes[e.t].tree] = true
                }
                H::T(_) => v[e.t] = true,
                H::NW(_) | H::TW(_) | H::G(_) | H::Pr(_) => {}
            }
        }
        v
    }
    /// Marks trees without handles as dead in the model.
    pub fn gc(&mut self) {
        let pinned = self.pinned_trees();
        for t in 0..self.trees.len() {
            if self.trees[t].alive && !pinned[t] {
                self.trees[t].alive = false;
                self.st.inc(ct::TREES_DIED);
                let root = self.trees[t].root;
                // A tree which lost its root to another tree has no nodes.
                if self.nodes[root].tree == t {
                    for n in self.subtree(root) {
                        self.nodes[n].alive = false;
                    }
                }
            }
        }
    }
    /// (grants, prohibitions) currently in force for the tree.
    pub fn locks(&self, t: usize) -> (usize, usize) {
        let (mut g, mut p) = (0, 0);
        for e in &self.pool {
            match &e.h {
                H::Hot(_) if self.nodes[e.t].tree == t => g += 1,
                H::G(_) if e.t == t => g += 1,
                H::Fz(_) if self.nodes[e.t].tree == t => p += 1,
                H::Pr(_) if e.t == t => p += 1,
                H::It(i) if i.prohibits() && self.nodes[e.t].tree == t => p += 1,
                _ => {}
            }
        }
        (g, p)
    }
    pub fn tree_handles(&self, t: usize) -> usize {
        self.pool
            .iter()
            .filter(|e| matches!(e.h, H::T(_)) && e.t == t)
            .count()
    }
    /// Hash of the state: shapes, handles by kind and position, locks.
    pub fn state_hash(&self) -> u64 {
        let mut h = 11;
        for t in self.live_trees() {
            h = hash2(h, self.shape_hash(self.trees[t].root));
            let (g, p) = self.locks(t);
            h = hash2(h, (g.min(3) * 4 + p.min(3)) as u64);
            for (i, n) in self.subtree(self.trees[t].root).into_iter().enumerate() {
                let mut k = 0;
                for e in &self.pool {
                    if matches!(e.h, H::N(_) | H::Hot(_) | H::Fz(_) | H::It(_) | H::Pin) && e.t == n {
                        k += 1;
                    }
                }
                h = hash2(h, (i * 4 + k.min(3)) as u64);
            }
        }
        h
    }

    // -------------------------------------------------------------- handles

    /// Gets a plain handle of the live node.
    pub fn node(&self, x: usize) -> R<Node<P>> {
        match self.nweak[x].upgrade() {
            Some(n) => Ok(n),
            None => {
                // Fall back to a strong handle of the same node.
                for e in &self.pool {
                    if e.t == x {
                        match &e.h {
                            H::N(n) => return Ok(n.clone()),
                            H::Hot(n) => return Ok(n.plain()),
                            H::Fz(n) => return Ok(n.plain()),
                            _ => {}
                        }
                    }
                }
                dv(
                    tag::W,
                    format!("node #{x} is in a live tree but its weak reference does not upgrade"),
                )
            }
        }
    }
    pub fn tree(&self, t: usize) -> R<Tree<P>> {
        match self.tweak[t].upgrade() {
            Some(n) => Ok(n),
            None => dv(
                tag::W,
                format!("tree t{t} is alive but its weak reference does not upgrade"),
            ),
        }
    }
    /// Identifies a real node.
    pub fn ident(&self, n: &Node<P>) -> R<usize> {
        match n.try_borrow_data() {
            Ok(d) => {
                if !ledger_is_live(d.inst) {
                    return dv(tag::L, "a reachable node has data which was already dropped");
                }
                match self.inst2id.get(&d.inst) {
                    Some(id) => Ok(*id),
                    None => dv(tag::D, format!("node with unknown data instance {}", d.inst)),
                }
            }
            Err(_) => {
                for id in &self.mut_borrowed {
                    if let Some(m) = self.nweak[*id].upgrade() {
                        if m.ptr_eq(n) {
                            return Ok(*id);
                        }
                    }
                }
                dv(tag::D, "data of a node is borrowed although nobody borrows it")
            }
        }
    }
    fn ident_o(&self, n: Option<Node<P>>) -> R<Option<usize>> {
        match n {
            Some(n) => Ok(Some(self.ident(&n)?)),
            None => Ok(None),
        }
    }

    /// Obtains an edit grant of the tree in some way; `None` if it is prohibited.
    pub fn grant(&mut self, t: usize) -> R<Option<HierarchyEditGrant<P>>> {
        let (_, p) = self.locks(t);
        let root = self.node(self.trees[t].root)?;
        if p > 0 {
            let real = root.tree().grant_hierarchy_edit();
            ensure!(
                real.is_err(),
                tag::K,
                "a grant was acquired for t{t} while {p} prohibitions are alive"
            );
            return Ok(None);
        }
        if self.rng.chance(1, 2) {
            let n = self.pool.len();
            let off = if n > 0 { self.rng.below(n) } else { 0 };
            for k in 0..n {
                let e = &self.pool[(k + off) % n];
                match &e.h {
                    H::G(g) if e.t == t => {
                        return match g.try_clone() {
                            Ok(g) => Ok(Some(g)),
                            Err(_) => dv(tag::K, "try_clone of a live grant failed"),
                        }
                    }
                    H::Hot(h) if self.nodes[e.t].tree == t => {
                        return Ok(Some(h.extract_hierarchy_edit_grant()))
                    }
                    _ => {}
                }
            }
        }
        let g = root.tree().grant_hierarchy_edit();
        match g {
            Ok(g) => Ok(Some(g)),
            Err(_) => dv(
                tag::K,
                format!("no prohibition of t{t} is alive but a grant is refused"),
            ),
        }
    }
    /// Obtains a hot handle of the node in some way; `None` if it is prohibited.
    pub fn hot(&mut self, x: usize) -> R<Option<HotNode<P>>> {
        let t = self.nodes[x].tree;
        let (g, p) = self.locks(t);
        if p > 0 {
            let real = self.node(x)?.bundle_new_hierarchy_edit_grant();
            ensure!(
                real.is_err(),
                tag::K,
                "a grant was bundled for node #{x} while {p} prohibitions of t{t} are alive"
            );
            return Ok(None);
        }
        if g > 0 && self.rng.chance(1, 2) {
            for e in &self.pool {
                match &e.h {
                    H::Hot(h) if e.t == x => return Ok(Some(h.clone())),
                    H::G(g) if e.t == t => {
                        let n = self.node(x)?;
                        return match catch(|| n.bundle_hierarchy_edit_grant(g)) {
                            Ok(h) => Ok(Some(h)),
                            Err(m) => dv(tag::G, format!("bundling a valid grant panicked: {m}")),
                        };
                    }
                    _ => {}
                }
            }
        }
        match self.node(x)?.bundle_new_hierarchy_edit_grant() {
            Ok(h) => Ok(Some(h)),
            Err(_) => dv(
                tag::K,
                format!("no prohibition of t{t} is alive but a grant for #{x} is refused"),
            ),
        }
    }
    pub fn frozen(&mut self, x: usize) -> R<Option<FrozenNode<P>>> {
        let t = self.nodes[x].tree;
        let (g, _) = self.locks(t);
        let r = self.node(x)?.bundle_new_hierarchy_edit_prohibition();
        match (r, g > 0) {
            (Ok(f), false) => Ok(Some(f)),
            (Err(_), true) => Ok(None),
            (Ok(_), true) => dv(
                tag::K,
                format!("a prohibition of t{t} was bundled while {g} grants are alive"),
            ),
            (Err(_), false) => dv(
                tag::K,
                format!("no grant of t{t} is alive but a prohibition is refused"),
            ),
        }
    }

    pub fn push(&mut self, h: H, t: usize) {
        self.pool.push(Ent {
            h,
            t,
            pinned: false,
        });
    }

    /// Tells the model that the harness preserves the tree of the node by a
    /// handle which is not in the pool.
    pub fn pin(&mut self, x: usize) {
        self.pool.push(Ent {
            h: H::Pin,
            t: x,
            pinned: true,
        });
    }
    /// Forgets what `pin` told; the handles must be dropped before.
    pub fn unpin(&mut self) {
        self.pool.retain(|e| !e.pinned);
        self.gc();
    }

    // ----------------------------------------------------------- operations

    pub fn fresh(&mut self) -> i64 {
        self.next_val += 1;
        self.next_val
    }

    /// Creates a new single-node tree and keeps a handle of it.
    pub fn new_tree(&mut self, kind: usize) -> R<usize> {
        let v = self.fresh();
        let p = P::new(v);
        let inst = p.inst;
        let (h, nw, tw) = match kind % 3 {
            0 => {
                let n = Node::new_tree(p);
                let (a, b) = (n.downgrade(), n.tree().downgrade());
                (H::N(n), a, b)
            }
            1 => {
                let n = HotNode::new_tree(p);
                let (a, b) = (n.plain().downgrade(), n.tree().downgrade());
                (H::Hot(n), a, b)
            }
            _ => {
                let n = Node::new_tree(p);
                let (a, b) = (n.downgrade(), n.tree().downgrade());
                (H::T(n.tree()), a, b)
            }
        };
        let id = self.m_new_node(inst, v, 0);
        let t = self.m_new_tree(id);
        self.nweak.push(nw);
        self.tweak.push(tw);
        let is_tree = matches!(h, H::T(_));
        self.push(h, if is_tree { t } else { id });
        self.tr(format!("new tree t{t} with root #{id} (kind {})", kind % 3));
        Ok(id)
    }

    /// Builds a new tree of the given shape (pre-order parents); returns node ids.
    pub fn build_shape(&mut self, parents: &[usize]) -> R<Vec<usize>> {
        let mut ids = vec![];
        for (i, p) in parents.iter().enumerate() {
            if i == 0 {
                ids.push(self.new_tree(0)?);
            } else {
                let before = self.nodes.len();
                let fl = Fl {
                    hot: true,
                    panicking: true,
                    specific: true,
                    keep: false,
                };
                self.edit(
                    Edit::Create {
                        x: ids[*p],
                        d: Dest::Last,
                    },
                    fl,
                )?;
                ids.push(before);
            }
        }
        Ok(ids)
    }

    /// What the edit should do: `Ok` or the acceptable refusals.
    pub fn expect_edit(&self, e: Edit) -> Result<(), Vec<Rf>> {
        let mut r = vec![];
        match e {
            Edit::Create { x, d } => {
                if d.is_sibling() && self.nodes[x].parent.is_none() {
                    r.push(Rf::Siblings);
                }
            }
            Edit::IntParent { .. } | Edit::IntChild { .. } | Edit::Detach { .. } => {}
            Edit::Replace { x } => {
                if self.nodes[x].parent.is_none() {
                    match self.nodes[x].children.len() {
                        0 => r.push(Rf::Empty),
                        1 => {}
                        _ => r.push(Rf::Siblings),
                    }
                }
            }
            Edit::Move { x, d, y } => {
                let (tx, ty) = (self.nodes[x].tree, self.nodes[y].tree);
                if d.is_sibling() && self.nodes[y].parent.is_none() {
                    r.push(Rf::Siblings);
                }
                if tx == ty {
                    let under = if d.is_sibling() {
                        match self.nodes[y].parent {
                            Some(p) => p,
                            // Moving next to the root: both reasons apply when
                            // the root itself is being moved.
                            None => y,
                        }
                    } else {
                        y
                    };
                    if self.in_subtree(under, x) {
                        r.push(Rf::Loop);
                    }
                } else if self.nodes[x].parent.is_none() && self.tree_handles(tx) > 0 {
                    r.push(Rf::Empty);
                }
            }
            Edit::CloneInsert { x, d, y } => {
                if d.is_sibling() && self.nodes[y].parent.is_none() {
                    r.push(Rf::Siblings);
                }
                if self
                    .subtree(x)
                    .iter()
                    .any(|n| self.mut_borrowed.contains(n))
                {
                    r.push(Rf::Borrow);
                }
            }
            Edit::CloneSub { x } => {
                if self
                    .subtree(x)
                    .iter()
                    .any(|n| self.mut_borrowed.contains(n))
                {
                    r.push(Rf::Borrow);
                }
            }
        }
        if r.is_empty() {
            Ok(())
        } else {
            Err(r)
        }
    }

    /// Hash of the edit relative to the shapes it works on.
    pub fn edit_hash(&self, e: Edit, fl: Fl) -> u64 {
        let rel = |x: usize| -> u64 {
            let t = self.nodes[x].tree;
            let root = self.trees[t].root;
            let i = self.subtree(root).iter().position(|n| *n == x).unwrap_or(99);
            hash2(self.shape_hash(root), i as u64)
        };
        let f = (fl.hot as u64) | (fl.panicking as u64) << 1 | (fl.specific as u64) << 2;
        let (k, d, a, b) = match e {
            Edit::Create { x, d } => (1, d as u64, rel(x), 0),
            Edit::IntParent { x } => (2, 0, rel(x), 0),
            Edit::IntChild { x } => (3, 0, rel(x), 0),
            Edit::Detach { x } => (4, 0, rel(x), 0),
            Edit::Replace { x } => (5, 0, rel(x), 0),
            Edit::Move { x, d, y } => (
                6 + 10 * (self.nodes[x].tree == self.nodes[y].tree) as u64,
                d as u64,
                rel(x),
                rel(y),
            ),
            Edit::CloneInsert { x, d, y } => (
                7 + 10 * (self.nodes[x].tree == self.nodes[y].tree) as u64,
                d as u64,
                rel(x),
                rel(y),
            ),
            Edit::CloneSub { x } => (8, 0, rel(x), 0),
        };
        hash2(hash2(hash2(k, d), hash2(a, b)), f)
    }

    /// Performs the edit on the real trees and on the model. Returns whether it was performed.
    pub fn edit(&mut self, e: Edit, fl: Fl) -> R<EditRes> {
        let expect = self.expect_edit(e);
        self.tr(format!("{e:?} {}", fl.s()));
        let before_touch = touches();
        let res = self.edit_inner(e, fl, &expect)?;
        match res {
            EditRes::Done => self.st.inc(ct::EDIT_OK),
            EditRes::Refused => self.st.inc(ct::EDIT_REFUSED),
            EditRes::Locked => self.st.inc(ct::EDIT_LOCKED),
        }
        let after_touch = touches();
        let is_clone = matches!(e, Edit::CloneInsert { .. } | Edit::CloneSub { .. });
        if is_clone {
            ensure!(
                after_touch.1 == before_touch.1 && after_touch.2 == before_touch.2,
                tag::T,
                "{e:?} compared or formatted user data"
            );
        } else {
            ensure!(
                after_touch == before_touch,
                tag::T,
                "{e:?} cloned, compared or formatted user data: {before_touch:?} -> {after_touch:?}"
            );
        }
        self.gc();
        Ok(res)
    }

    fn judge<T>(
        &mut self,
        e: Edit,
        expect: &Result<(), Vec<Rf>>,
        got: Result<Result<T, HierarchyError>, String>,
        panicking: bool,
    ) -> R<Option<T>> {
        match (got, expect) {
            (Ok(Ok(v)), Ok(())) => Ok(Some(v)),
            (Ok(Ok(_)), Err(r)) => dv(
                tag::EERR,
                format!("{e:?} was accepted but it must be refused with {r:?}"),
            ),
            (Ok(Err(err)), Ok(())) => dv(
                tag::EOK,
                format!("{e:?} is valid but it was refused with {err:?}"),
            ),
            (Ok(Err(err)), Err(r)) => match rf_of(&err) {
                Some(k) if r.contains(&k) => {
                    error_says!(&err, k == Rf::Borrow, tag::EERR);
                    Ok(None)
                }
                _ => dv(
                    tag::EERR,
                    format!("{e:?} was refused with {err:?}, expected one of {r:?}"),
                ),
            },
            (Err(_), Err(_)) if panicking => Ok(None),
            (Err(m), _) => dv(tag::PANIC, format!("{e:?} panicked: {m}")),
        }
    }

    fn edit_inner(
        &mut self,
        e: Edit,
        fl: Fl,
        expect: &Result<(), Vec<Rf>>,
    ) -> R<EditRes> {
        let x = match e {
            Edit::Create { x, .. }
            | Edit::IntParent { x }
            | Edit::IntChild { x }
            | Edit::Detach { x }
            | Edit::Replace { x }
            | Edit::Move { x, .. }
            | Edit::CloneInsert { x, .. }
            | Edit::CloneSub { x } => x,
        };
        let tx = self.nodes[x].tree;
        let pan = fl.panicking;
        match e {
            Edit::CloneSub { .. } => {
                // Any handle kind will do.
                let (n, h, f) = (self.node(x)?, None, None);
                let (h, f) = match self.rng.below(3) {
                    1 => (self.hot(x)?, f),
                    2 => (h, self.frozen(x)?),
                    _ => (h, f),
                };
                let got = catch(|| {
                    let r = match (&h, &f) {
                        (Some(h), _) if pan => Ok(h.clone_subtree()),
                        (Some(h), _) => h.try_clone_subtree(),
                        (_, Some(f)) if pan => Ok(f.clone_subtree()),
                        (_, Some(f)) => f.try_clone_subtree(),
                        _ if pan => Ok(n.clone_subtree()),
                        _ => n.try_clone_subtree(),
                    };
                    r.map_err(HierarchyError::BorrowNodeData)
                });
                drop((h, f));
                match self.judge(e, expect, got, pan)? {
                    None => Ok(EditRes::Refused),
                    Some(c) => {
                        let t = self.trees.len();
                        ensure!(c.is_root(), tag::CL, "the clone is not a root");
                        let id = self.register_clone(&c, x, t)?;
                        self.trees.push(MTree {
                            root: id,
                            alive: true,
                        });
                        self.tweak.push(c.tree().downgrade());
                        self.st.inc(ct::CLONES);
                        if fl.keep {
                            self.push(H::N(c), id);
                        }
                        Ok(EditRes::Done)
                    }
                }
            }
            Edit::CloneInsert { d, y, .. } => {
                // The clone source needs no lock.
                let n = self.node(x)?;
                let src_hot = if fl.hot { self.hot(x)? } else { None };
                let src_frozen = if !fl.hot && fl.specific && self.nodes[y].tree != tx {
                    self.frozen(x)?
                } else {
                    None
                };
                let dest = match self.hot(y)? {
                    Some(h) => h,
                    None => return Ok(EditRes::Locked),
                };
                let got = catch(|| {
                    let ia = d.insert_how(&dest, fl);
                    match (&src_hot, &src_frozen) {
                        (Some(h), _) if pan => Ok(h.clone_insert_subtree(ia)),
                        (Some(h), _) => h.try_clone_insert_subtree(ia),
                        (_, Some(f)) => f.try_clone_insert_subtree(ia),
                        _ if pan => Ok(n.clone_insert_subtree(ia)),
                        _ => n.try_clone_insert_subtree(ia),
                    }
                });
                // Only the refusal because of `dest` is certain when both apply.
                match self.judge(e, expect, got, pan)? {
                    None => Ok(EditRes::Refused),
                    Some(c) => {
                        let ty = self.nodes[y].tree;
                        let src = self.snapshot(x);
                        let id = self.register_clone_snap(&c.plain(), &src, ty)?;
                        self.m_insert(id, d, y);
                        self.st.inc(ct::CLONES);
                        if fl.keep {
                            self.push(H::Hot(c), id);
                        }
                        Ok(EditRes::Done)
                    }
                }
            }
            _ => {
                // Needs the permission to edit the tree of `x`.
                let n = self.node(x)?;
                let (hx, gx) = if fl.hot {
                    match self.hot(x)? {
                        Some(h) => (Some(h), None),
                        None => return Ok(EditRes::Locked),
                    }
                } else {
                    match self.grant(tx)? {
                        Some(g) => (None, Some(g)),
                        None => return Ok(EditRes::Locked),
                    }
                };
                self.edit_granted(e, fl, expect, n, hx, gx)
            }
        }
    }

    fn edit_granted(
        &mut self,
        e: Edit,
        fl: Fl,
        expect: &Result<(), Vec<Rf>>,
        n: Node<P>,
        hx: Option<HotNode<P>>,
        gx: Option<HierarchyEditGrant<P>>,
    ) -> R<EditRes> {
        let pan = fl.panicking;
        match e {
            Edit::Create { x, d } => {
                let v = self.fresh();
                let p = P::new(v);
                let inst = p.inst;
                let spec = fl.specific;
                let got = catch(|| -> Result<NH, HierarchyError> {
                    match (&hx, &gx) {
                        (Some(h), _) => match (spec, pan, d) {
                            (true, _, Dest::First) => Ok(h.create_as_first_child(p)),
                            (true, _, Dest::Last) => Ok(h.create_as_last_child(p)),
                            (true, true, Dest::Prev) => Ok(h.create_as_prev_sibling(p)),
                            (true, true, Dest::Next) => Ok(h.create_as_next_sibling(p)),
                            (true, false, Dest::Prev) => h.try_create_as_prev_sibling(p),
                            (true, false, Dest::Next) => h.try_create_as_next_sibling(p),
                            (false, true, _) => Ok(h.create_node_as(p, d.adopt())),
                            (false, false, _) => h.try_create_node_as(p, d.adopt()),
                        }
                        .map(NH::H),
                        (_, Some(g)) => match (spec, pan, d) {
                            (true, _, Dest::First) => Ok(n.create_as_first_child(g, p)),
                            (true, _, Dest::Last) => Ok(n.create_as_last_child(g, p)),
                            (true, true, Dest::Prev) => Ok(n.create_as_prev_sibling(g, p)),
                            (true, true, Dest::Next) => Ok(n.create_as_next_sibling(g, p)),
                            (true, false, Dest::Prev) => n.try_create_as_prev_sibling(g, p),
                            (true, false, Dest::Next) => n.try_create_as_next_sibling(g, p),
                            (false, true, _) => Ok(n.create_node_as(g, p, d.adopt())),
                            (false, false, _) => n.try_create_node_as(g, p, d.adopt()),
                        }
                        .map(NH::N),
                        _ => unreachable!(),
                    }
                });
                match self.judge(e, expect, got, pan)? {
                    None => Ok(EditRes::Refused),
                    Some(nh) => {
                        let t = self.nodes[x].tree;
                        let id = self.register_new(&nh.plain(), inst, v, t)?;
                        self.m_insert(id, d, x);
                        self.keep(nh, id, fl.keep);
                        Ok(EditRes::Done)
                    }
                }
            }
            Edit::IntParent { x } | Edit::IntChild { x } => {
                let is_parent = matches!(e, Edit::IntParent { .. });
                let v = self.fresh();
                let p = P::new(v);
                let inst = p.inst;
                let got = catch(|| -> Result<NH, HierarchyError> {
                    Ok(match (&hx, &gx) {
                        (Some(h), _) if is_parent => NH::H(h.create_as_interrupting_parent(p)),
                        (Some(h), _) => NH::H(h.create_as_interrupting_child(p)),
                        (_, Some(g)) if is_parent => NH::N(n.create_as_interrupting_parent(g, p)),
                        (_, Some(g)) => NH::N(n.create_as_interrupting_child(g, p)),
                        _ => unreachable!(),
                    })
                });
                let nh = self.judge(e, expect, got, false)?.expect("never refused");
                let t = self.nodes[x].tree;
                let id = self.register_new(&nh.plain(), inst, v, t)?;
                if is_parent {
                    match self.nodes[x].parent {
                        Some(q) => {
                            let i = self.pos(x);
                            self.nodes[q].children[i] = id;
                            self.nodes[id].parent = Some(q);
                        }
                        None => self.trees[t].root = id,
                    }
                    self.nodes[x].parent = Some(id);
                    self.nodes[id].children = vec![x];
                } else {
                    let ch = std::mem::replace(&mut self.nodes[x].children, vec![id]);
                    for c in &ch {
                        self.nodes[*c].parent = Some(id);
                    }
                    self.nodes[id].children = ch;
                    self.nodes[id].parent = Some(x);
                }
                self.keep(nh, id, fl.keep);
                Ok(EditRes::Done)
            }
            Edit::Detach { x } => {
                let got = catch(|| -> Result<(), HierarchyError> {
                    match (&hx, &gx) {
                        (Some(h), _) => h.detach_subtree(),
                        (_, Some(g)) => n.detach_subtree(g),
                        _ => unreachable!(),
                    }
                    Ok(())
                });
                self.judge(e, expect, got, false)?;
                if self.nodes[x].parent.is_some() {
                    self.note_lock_move(x);
                    self.m_unlink(x);
                    self.m_new_tree(x);
                    self.tweak.push(n.tree().downgrade());
                    if fl.keep {
                        self.push(H::N(n), x);
                    }
                }
                Ok(EditRes::Done)
            }
            Edit::Replace { x } => {
                let got = catch(|| -> Result<(), HierarchyError> {
                    match (&hx, &gx) {
                        (Some(h), _) if pan => {
                            h.replace_with_children();
                            Ok(())
                        }
                        (Some(h), _) => h.try_replace_with_children(),
                        (_, Some(g)) if pan => {
                            n.replace_with_children(g);
                            Ok(())
                        }
                        (_, Some(g)) => n.try_replace_with_children(g),
                        _ => unreachable!(),
                    }
                });
                match self.judge(e, expect, got, pan)? {
                    None => Ok(EditRes::Refused),
                    Some(()) => {
                        let t = self.nodes[x].tree;
                        let ch = std::mem::take(&mut self.nodes[x].children);
                        match self.nodes[x].parent {
                            Some(q) => {
                                let i = self.pos(x);
                                for c in &ch {
                                    self.nodes[*c].parent = Some(q);
                                }
                                self.nodes[q].children.splice(i..=i, ch);
                                self.nodes[x].parent = None;
                            }
                            None => {
                                self.nodes[ch[0]].parent = None;
                                self.trees[t].root = ch[0];
                            }
                        }
                        self.m_new_tree(x);
                        self.tweak.push(n.tree().downgrade());
                        if fl.keep {
                            self.push(H::N(n), x);
                        }
                        Ok(EditRes::Done)
                    }
                }
            }
            Edit::Move { x, d, y } => {
                let dest = match self.hot(y)? {
                    Some(h) => h,
                    None => return Ok(EditRes::Locked),
                };
                let got = catch(|| -> Result<(), HierarchyError> {
                    let ia = d.insert_how(&dest, fl);
                    match (&hx, &gx) {
                        (Some(h), _) if pan => {
                            h.detach_insert_subtree(ia);
                            Ok(())
                        }
                        (Some(h), _) => h.try_detach_insert_subtree(ia),
                        (_, Some(g)) if pan => {
                            n.detach_insert_subtree(g, ia);
                            Ok(())
                        }
                        (_, Some(g)) => n.try_detach_insert_subtree(g, ia),
                        _ => unreachable!(),
                    }
                });
                match self.judge(e, expect, got, pan)? {
                    None => Ok(EditRes::Refused),
                    Some(()) => {
                        if !(d.is_sibling() && x == y) {
                            let (tx, ty) = (self.nodes[x].tree, self.nodes[y].tree);
                            if tx != ty {
                                self.st.inc(ct::CROSS);
                                self.note_lock_move(x);
                            }
                            let was_root = self.nodes[x].parent.is_none();
                            self.m_unlink(x);
                            self.m_insert(x, d, y);
                            if tx != ty {
                                self.m_set_tree(x, ty);
                                if was_root {
                                    // All nodes left: the source tree is over.
                                    self.trees[tx].alive = false;
                                }
                            }
                        }
                        if fl.keep {
                            self.push(H::N(n), x);
                        }
                        Ok(EditRes::Done)
                    }
                }
            }
            Edit::CloneInsert { .. } | Edit::CloneSub { .. } => unreachable!(),
        }
    }

    /// Counts moves of subtrees with bundled locks between trees.
    fn note_lock_move(&mut self, x: usize) {
        let sub = self.subtree(x);
        let n = self
            .pool
            .iter()
            .filter(|e| matches!(e.h, H::Hot(_)) && sub.contains(&e.t))
            .count();
        if n > 0 {
            self.st.inc(ct::LOCKMOVES);
        }
    }

    fn keep(&mut self, nh: NH, id: usize, keep: bool) {
        if keep {
            match nh {
                NH::N(n) => self.push(H::N(n), id),
                NH::H(h) => self.push(H::Hot(h), id),
            }
        }
    }

    fn register_new(&mut self, n: &Node<P>, inst: u64, val: i64, tree: usize) -> R<usize> {
        let d = match n.try_borrow_data() {
            Ok(d) => d.inst,
            Err(_) => return dv(tag::D, "data of a new node is borrowed"),
        };
        ensure!(
            d == inst,
            tag::D,
            "the returned new node has other data than the given one"
        );
        self.nweak.push(n.downgrade());
        Ok(self.m_new_node(inst, val, tree))
    }

    /// Shape and values of the subtree: (value, number of children) in pre-order.
    pub fn snapshot(&self, x: usize) -> Vec<(i64, usize)> {
        self.subtree(x)
            .into_iter()
            .map(|n| (self.nodes[n].val, self.nodes[n].children.len()))
            .collect()
    }
    pub fn register_clone(&mut self, c: &Node<P>, x: usize, tree: usize) -> R<usize> {
        let s = self.snapshot(x);
        self.register_clone_snap(c, &s, tree)
    }
    /// Adds the nodes of a clone to the model, comparing it with the snapshot.
    pub fn register_clone_snap(
        &mut self,
        c: &Node<P>,
        snap: &[(i64, usize)],
        tree: usize,
    ) -> R<usize> {
        let mut k = 0;
        let root = self.reg_clone_rec(c, snap, &mut k, tree, 0)?;
        ensure!(k == snap.len(), tag::CL, "the clone lacks nodes");
        Ok(root)
    }
    fn reg_clone_rec(
        &mut self,
        c: &Node<P>,
        snap: &[(i64, usize)],
        k: &mut usize,
        tree: usize,
        lvl: usize,
    ) -> R<usize> {
        ensure!(
            *k < snap.len() && lvl < 1000,
            tag::CL,
            "the clone has more nodes than the source"
        );
        let (val, nch) = snap[*k];
        *k += 1;
        let (inst, v) = match c.try_borrow_data() {
            Ok(d) => (d.inst, *d.heap),
            Err(_) => return dv(tag::CL, "data of a cloned node is borrowed"),
        };
        ensure!(
            !self.inst2id.contains_key(&inst),
            tag::CL,
            "the clone shares data or a node with another tree (node #{})",
            self.inst2id[&inst]
        );
        ensure!(
            v == val,
            tag::CL,
            "the clone has the value {v} at a place where the source has {val}"
        );
        self.nweak.push(c.downgrade());
        let id = self.m_new_node(inst, val, tree);
        let mut cur = c.first_child();
        for i in 0..nch {
            let ch = match cur {
                Some(ch) => ch,
                None => return dv(tag::CL, format!("the clone has {i} of {nch} children")),
            };
            let cid = self.reg_clone_rec(&ch, snap, k, tree, lvl + 1)?;
            self.nodes[cid].parent = Some(id);
            self.nodes[id].children.push(cid);
            cur = ch.next_sibling();
        }
        ensure!(
            cur.is_none(),
            tag::CL,
            "the clone has more children than the source ({nch})"
        );
        Ok(id)
    }

    /// Drops the pooled handle.
    pub fn drop_handle(&mut self, i: usize) -> R<()> {
        let e = self.pool.swap_remove(i);
        let s = self.ent_str(&e);
        self.tr(format!("drop {s}"));
        self.st.inc(ct::DROPS);
        let h = e.h;
        let r = if self.rng.chance(1, 24) {
            self.tr("(while the thread unwinds)");
            unwinding(move || drop(h))
        } else {
            catch(move || drop(h))
        };
        if let Err(m) = r {
            return dv(tag::PANIC, format!("dropping {s} panicked: {m}"));
        }
        self.gc();
        Ok(())
    }
    pub fn ent_str(&self, e: &Ent) -> String {
        let k = match &e.h {
            H::N(_) => "Node",
            H::Hot(_) => "HotNode",
            H::Fz(_) => "FrozenNode",
            H::T(_) => "Tree",
            H::NW(_) => "NodeWeak",
            H::TW(_) => "TreeWeak",
            H::G(_) => "Grant",
            H::Pr(_) => "Prohibition",
            H::It(_) => "Iterator",
            H::Pin => "Pin",
        };
        format!("{k}@{}", e.t)
    }

    /// Acquires one more handle for the live node (or its tree) in a random way.
    pub fn acquire(&mut self, x: usize) -> R<()> {
        let t = self.nodes[x].tree;
        let (g, p) = self.locks(t);
        let k = self.rng.below(100);
        let n = self.node(x)?;
        let frozen = self.rng.below(100) < self.cfg.frozen_pct;
        let s;
        match k {
            0..=24 => {
                s = "Node";
                self.push(H::N(n), x);
            }
            25..=49 if !frozen => {
                s = "HotNode";
                if let Some(h) = self.hot(x)? {
                    drop(n);
                    self.push(H::Hot(h), x);
                }
            }
            25..=49 => {
                s = "FrozenNode";
                let real = match self.rng.below(3) {
                    0 => {
                        drop(n);
                        self.frozen(x)?
                    }
                    1 => {
                        // From a standalone prohibition.
                        let pr = n.tree().prohibit_hierarchy_edit();
                        match (pr, g > 0) {
                            (Ok(pr), false) => {
                                let r = catch(|| n.bundle_hierarchy_edit_prohibition(&pr));
                                match r {
                                    Ok(f) => Some(f),
                                    Err(m) => {
                                        return dv(
                                            tag::G,
                                            format!("bundling a valid prohibition panicked: {m}"),
                                        )
                                    }
                                }
                            }
                            (Err(_), true) => None,
                            (r, _) => {
                                return dv(
                                    tag::K,
                                    format!(
                                        "prohibition of t{t}: acquired={} although {g} grants are alive",
                                        r.is_ok()
                                    ),
                                )
                            }
                        }
                    }
                    _ => {
                        // Clone another frozen handle.
                        drop(n);
                        let mut c = None;
                        for e in &self.pool {
                            if let H::Fz(f) = &e.h {
                                if e.t == x {
                                    c = Some(f.clone());
                                }
                            }
                        }
                        match c {
                            Some(c) => Some(c),
                            None => self.frozen(x)?,
                        }
                    }
                };
                if let Some(f) = real {
                    self.push(H::Fz(f), x);
                }
            }
            50..=62 => {
                s = "Tree";
                let tr = n.tree();
                self.push(H::T(tr), t);
            }
            63..=75 if !frozen => {
                s = "Grant";
                drop(n);
                if let Some(gr) = self.grant(t)? {
                    self.push(H::G(gr), t);
                }
            }
            63..=75 => {
                s = "Prohibition";
                let tree = n.tree();
                drop(n);
                match (tree.prohibit_hierarchy_edit(), g > 0) {
                    (Ok(pr), false) => self.push(H::Pr(pr), t),
                    (Err(_), true) => {}
                    (r, _) => {
                        return dv(
                            tag::K,
                            format!(
                                "prohibition of t{t}: acquired={} although {g} grants and {p} prohibitions are alive",
                                r.is_ok()
                            ),
                        )
                    }
                }
            }
            76..=83 => {
                s = "NodeWeak";
                let w = n.downgrade();
                self.push(H::NW(w), x);
            }
            84..=89 => {
                s = "TreeWeak";
                let w = n.tree().downgrade();
                self.push(H::TW(w), t);
            }
            _ => {
                s = "Iterator";
                let it = match self.rng.below(3) {
                    0 => It::Dft(n.depth_first_traverse()),
                    1 => It::Sib(n.following_siblings_or_self()),
                    _ => It::Anc(n.ancestors_or_self()),
                };
                drop(n);
                self.push(H::It(it), x);
            }
        }
        self.tr(format!("acquire {s} for #{x} (t{t})"));
        Ok(())
    }

    /// Clones or converts a random pooled handle into another one.
    pub fn convert(&mut self, i: usize) -> R<()> {
        let t = self.pool[i].t;
        let name = self.ent_str(&self.pool[i]);
        let k = self.rng.below(6);
        let consume = !self.pool[i].pinned && self.rng.chance(1, 3);
        let mut out: Vec<(H, usize)> = vec![];
        let mut how = "clone";
        let node_tree = |w: &Self, n: usize| w.nodes[n].tree;
        match &self.pool[i].h {
            H::N(n) => match k {
                0 => out.push((H::NW(n.downgrade()), t)),
                1 => out.push((H::T(n.tree()), node_tree(self, t))),
                2 => {
                    how = "root";
                    out.push((H::N(n.root()), self.trees[node_tree(self, t)].root))
                }
                3 => {
                    how = "parent";
                    if let Some(p) = n.parent() {
                        match self.nodes[t].parent {
                            Some(q) => out.push((H::N(p), q)),
                            None => return dv(tag::S, format!("#{t} has no parent")),
                        }
                    }
                }
                4 => {
                    how = "first child";
                    if let Some(c) = n.first_child() {
                        match self.nodes[t].children.first() {
                            Some(q) => out.push((H::N(c), *q)),
                            None => return dv(tag::S, format!("#{t} has no children")),
                        }
                    }
                }
                _ => out.push((H::N(n.clone()), t)),
            },
            H::Hot(h) => match k {
                0 => {
                    how = "extract";
                    out.push((
                        H::G(h.extract_hierarchy_edit_grant()),
                        node_tree(self, t),
                    ))
                }
                1 => {
                    how = "plain";
                    out.push((H::N(h.plain()), t))
                }
                2 => {
                    how = "last child";
                    if let Some(c) = h.last_child() {
                        match self.nodes[t].children.last() {
                            Some(q) => out.push((H::Hot(c), *q)),
                            None => return dv(tag::S, format!("#{t} has no children")),
                        }
                    }
                }
                3 => {
                    how = "root";
                    out.push((H::Hot(h.root()), self.trees[node_tree(self, t)].root))
                }
                _ => out.push((H::Hot(h.clone()), t)),
            },
            H::Fz(f) => match k {
                0 => {
                    how = "extract";
                    out.push((
                        H::Pr(f.extract_hierarchy_edit_prohibition()),
                        node_tree(self, t),
                    ))
                }
                1 => {
                    how = "plain";
                    out.push((H::N(f.plain()), t))
                }
                2 => {
                    how = "first child";
                    if let Some(c) = f.first_child() {
                        match self.nodes[t].children.first() {
                            Some(q) => out.push((H::Fz(c), *q)),
                            None => return dv(tag::S, format!("#{t} has no children")),
                        }
                    }
                }
                3 => {
                    how = "root";
                    out.push((H::Fz(f.root()), self.trees[node_tree(self, t)].root))
                }
                4 => {
                    how = "stable traversal";
                    let it = match self.next_val % 4 {
                        0 => It::SDft(f.depth_first_traverse_stable()),
                        1 => It::SSib(f.following_siblings_or_self_stable()),
                        2 => It::NBft(f.non_allocating_breadth_first_traverse_stable(0)),
                        _ => It::ABft(f.allocating_breadth_first_traverse_stable(0)),
                    };
                    out.push((H::It(it), t))
                }
                _ => out.push((H::Fz(f.clone()), t)),
            },
            H::T(tr) => match k {
                0 | 1 => {
                    how = "root";
                    let n = tr.root();
                    let id = self.ident(&n)?;
                    ensure!(
                        id == self.trees[t].root,
                        tag::M,
                        "the root of t{t} is #{id}, expected #{}",
                        self.trees[t].root
                    );
                    out.push((H::N(n), id))
                }
                2 => out.push((H::TW(tr.downgrade()), t)),
                _ => out.push((H::T(tr.clone()), t)),
            },
            H::NW(w) => match w.upgrade() {
                Some(_) if k == 5 => out.push((H::NW(w.clone()), t)),
                Some(n) => {
                    how = "upgrade";
                    ensure!(
                        self.nodes[t].alive,
                        tag::W,
                        "weak reference of #{t} upgrades although its tree is gone"
                    );
                    out.push((H::N(n), t))
                }
                None => {
                    ensure!(
                        !self.nodes[t].alive,
                        tag::W,
                        "weak reference of live #{t} does not upgrade"
                    );
                    out.push((H::NW(w.clone()), t))
                }
            },
            H::TW(w) => match w.upgrade() {
                Some(_) if k == 5 => out.push((H::TW(w.clone()), t)),
                Some(n) => {
                    how = "upgrade";
                    ensure!(
                        self.trees[t].alive,
                        tag::W,
                        "weak reference of t{t} upgrades although the tree is gone"
                    );
                    out.push((H::T(n), t))
                }
                None => {
                    ensure!(
                        !self.trees[t].alive,
                        tag::W,
                        "weak reference of live t{t} does not upgrade"
                    );
                    out.push((H::TW(w.clone()), t))
                }
            },
            H::G(g) => match g.try_clone() {
                Ok(g) => out.push((H::G(g), t)),
                Err(_) => return dv(tag::K, format!("try_clone of a grant of t{t} failed")),
            },
            H::Pr(g) => match g.try_clone() {
                Ok(g) => out.push((H::Pr(g), t)),
                Err(_) => return dv(tag::K, format!("try_clone of a prohibition of t{t} failed")),
            },
            H::It(it) => {
                // Iterators are kept unadvanced.
                out.push((H::It(it.dup()), t))
            }
            H::Pin => return Ok(()),
        }
        if how == "clone" && out.len() == 1 && self.rng.chance(1, 3) {
            // The same by assignment to another handle of the kind.
            let j = self.rng.below(self.pool.len());
            let l = self.pool.len();
            for j in (j..l).chain(0..j).filter(|j| *j != i) {
                macro_rules! onto {
                    ($($v:ident)*) => {
                        match (&self.pool[j].h, &mut out[0].0) {
                            $((H::$v(other), H::$v(new)) => {
                                let mut x = other.clone();
                                x.clone_from(new);
                                *new = x;
                                true
                            })*
                            _ => false,
                        }
                    };
                }
                if onto!(N Hot Fz T NW TW) {
                    how = "clone_from";
                    break;
                }
            }
        }
        self.tr(format!(
            "convert {name} ({how}) -> {}{}",
            out.first()
                .map(|(h, t)| self.ent_str(&Ent {
                    h: match h {
                        H::N(n) => H::N(n.clone()),
                        H::Hot(n) => H::Hot(n.clone()),
                        H::Fz(n) => H::Fz(n.clone()),
                        H::T(n) => H::T(n.clone()),
                        H::NW(n) => H::NW(n.clone()),
                        H::TW(n) => H::TW(n.clone()),
                        H::G(n) => H::G(n.clone()),
                        H::Pr(n) => match n.try_clone() {
                            Ok(n) => H::Pr(n),
                            Err(_) => return "?".to_string(),
                        },
                        H::It(_) | H::Pin => return format!("Iterator@{t}"),
                    },
                    t: *t,
                    pinned: false
                }))
                .unwrap_or_default(),
            if consume { ", consumed" } else { "" }
        ));
        // Consuming conversions.
        if consume {
            let pinned_plain = matches!(self.pool[i].h, H::N(_));
            let (g, p) = if pinned_plain {
                self.locks(self.nodes[t].tree)
            } else {
                (0, 0)
            };
            let e = self.pool.swap_remove(i);
            match e.h {
                H::N(n) => {
                    // Bundling consumes the plain handle, on failures too.
                    if self.rng.bool() {
                        match (n.bundle_new_hierarchy_edit_grant(), p > 0) {
                            (Ok(h), false) => out.push((H::Hot(h), t)),
                            (Err(_), true) => {}
                            (r, _) => {
                                return dv(
                                    tag::K,
                                    format!("bundle grant: ok={} with {p} prohibitions", r.is_ok()),
                                )
                            }
                        }
                    } else {
                        match (n.bundle_new_hierarchy_edit_prohibition(), g > 0) {
                            (Ok(h), false) => out.push((H::Fz(h), t)),
                            (Err(_), true) => {}
                            (r, _) => {
                                return dv(
                                    tag::K,
                                    format!("bundle prohibition: ok={} with {g} grants", r.is_ok()),
                                )
                            }
                        }
                    }
                }
                H::Hot(h) => {
                    out.clear();
                    out.push((H::N(Node::from(h)), t));
                }
                H::Fz(h) => {
                    out.clear();
                    out.push((H::N(Node::from(h)), t));
                }
                other => drop(other),
            }
        }
        for (h, t) in out {
            // `h` may be the only thing that keeps its tree alive.
            self.push(h, t);
        }
        self.gc();
        Ok(())
    }

    /// Uses a grant or prohibition of another (or a dead) tree: must panic.
    pub fn foreign(&mut self) -> R<()> {
        let locks: Vec<usize> = (0..self.pool.len())
            .filter(|i| matches!(self.pool[*i].h, H::G(_) | H::Pr(_)))
            .collect();
        let live = self.live_nodes();
        if locks.is_empty() || live.is_empty() {
            return Ok(());
        }
        let li = *self.rng.pick(&locks);
        let lt = self.pool[li].t;
        let others: Vec<usize> = live
            .iter()
            .copied()
            .filter(|n| self.nodes[*n].tree != lt)
            .collect();
        if others.is_empty() {
            return Ok(());
        }
        let x = *self.rng.pick(&others);
        let n = self.node(x)?;
        let y = *self.rng.pick(&live);
        let k = self.rng.below(10);
        self.st.inc(ct::FOREIGN);
        let desty = if k == 7 { self.hot(y)? } else { None };
        let d = *self.rng.pick(&DESTS);
        self.tr(format!(
            "use a lock of t{lt} with #{x} of t{} (kind {k})",
            self.nodes[x].tree
        ));
        let r = match &self.pool[li].h {
            H::G(g) => {
                ensure!(
                    !g.is_valid_for_node(&n),
                    tag::G,
                    "a grant of t{lt} claims to be valid for #{x}"
                );
                let p = P::new(-1);
                catch(move || match k {
                    0 => drop(n.create_as_first_child(g, p)),
                    1 => drop(n.create_as_last_child(g, p)),
                    2 => drop(n.try_create_node_as(g, p, d.adopt())),
                    3 => drop(n.create_as_interrupting_parent(g, p)),
                    4 => drop(n.create_as_interrupting_child(g, p)),
                    5 => n.detach_subtree(g),
                    6 => drop(n.try_replace_with_children(g)),
                    7 if desty.is_some() => {
                        drop(n.try_detach_insert_subtree(g, d.insert(desty.as_ref().unwrap())))
                    }
                    8 => drop(n.try_create_as_prev_sibling(g, p)),
                    9 => drop(n.try_create_as_next_sibling(g, p)),
                    _ => drop(n.bundle_hierarchy_edit_grant(g)),
                })
            }
            H::Pr(g) => {
                ensure!(
                    !g.is_valid_for_node(&n),
                    tag::G,
                    "a prohibition of t{lt} claims to be valid for #{x}"
                );
                catch(|| drop(n.bundle_hierarchy_edit_prohibition(g)))
            }
            _ => unreachable!(),
        };
        ensure!(
            r.is_err(),
            tag::G,
            "a lock of t{lt} was accepted for node #{x} of another tree (kind {k})"
        );
        self.gc();
        Ok(())
    }

    pub fn set_data(&mut self, x: usize) -> R<()> {
        let v = self.fresh();
        let n = self.node(x)?;
        let how = self.rng.below(3);
        let hot = if how == 1 { self.hot(x)? } else { None };
        let fz = if how == 2 { self.frozen(x)? } else { None };
        let ok = {
            let r = match (&hot, &fz) {
                (Some(h), _) => h.try_borrow_data_mut(),
                (_, Some(f)) => f.try_borrow_data_mut(),
                _ => n.try_borrow_data_mut(),
            };
            match r {
                Ok(mut d) => {
                    d.set(v);
                    true
                }
                Err(_) => false,
            }
        };
        let expect = !self.mut_borrowed.contains(&x);
        ensure!(
            ok == expect,
            tag::D,
            "mutable borrow of #{x}: got {ok}, expected {expect}"
        );
        if ok {
            self.nodes[x].val = v;
        }
        self.tr(format!("set data of #{x} to {v}"));
        Ok(())
    }

    pub fn random_edit(&mut self) -> Option<(Edit, Fl)> {
        let live = self.live_nodes();
        if live.is_empty() {
            return None;
        }
        let x = *self.rng.pick(&live);
        let mut y = *self.rng.pick(&live);
        if self.rng.chance(1, 3) {
            // Prefer operands next to each other.
            let sibs = self.siblings(x);
            y = *self.rng.pick(&sibs);
        }
        let d = *self.rng.pick(&DESTS);
        let full = live.len() >= self.cfg.max_nodes;
        let e = match self.rng.below(100) {
            0..=27 if !full => Edit::Create { x, d },
            28..=35 if !full => Edit::IntParent { x },
            36..=43 if !full => Edit::IntChild { x },
            44..=54 => Edit::Detach { x },
            55..=64 => Edit::Replace { x },
            65..=92 => Edit::Move { x, d, y },
            93..=97 if !full && self.subtree(x).len() + live.len() <= self.cfg.max_nodes + 4 => {
                Edit::CloneInsert { x, d, y }
            }
            98..=99 if !full && self.subtree(x).len() + live.len() <= self.cfg.max_nodes + 4 => {
                Edit::CloneSub { x }
            }
            0..=50 => Edit::Move { x, d, y },
            _ => Edit::Replace { x },
        };
        let fl = Fl::from_bits(self.rng.below(16));
        Some((e, fl))
    }

    /// Performs one random operation. Returns what was done.
    pub fn random_op(&mut self) -> R<OpKind> {
        if self.rng.chance(1, 32) {
            self.tr("(the next operation while the thread unwinds)");
            return match unwinding(|| self.random_op_now()) {
                Ok(r) => r,
                Err(m) => crate::outer_panic(m).map(|()| OpKind::Nothing),
            };
        }
        self.random_op_now()
    }
    fn random_op_now(&mut self) -> R<OpKind> {
        self.st.inc(ct::OPS);
        let live = self.live_nodes();
        let c = &self.cfg;
        if live.is_empty() {
            let k = self.rng.below(3);
            self.new_tree(k)?;
            return Ok(OpKind::Handle);
        }
        let weights = [
            c.w_edit,
            if self.pool.len() < c.max_pool {
                c.w_acquire
            } else {
                0
            },
            c.w_convert,
            if self.pool.len() > 1 { c.w_drop } else { c.w_drop / 4 },
            c.w_data,
            c.w_foreign,
            if self.live_trees().len() < c.max_trees && live.len() < c.max_nodes {
                c.w_newtree
            } else {
                0
            },
        ];
        match self.rng.pick_weighted(&weights) {
            0 => {
                let (e, fl) = self.random_edit().expect("some node is alive");
                Ok(OpKind::Edit(self.edit(e, fl)?))
            }
            1 => {
                let x = *self.rng.pick(&live);
                self.st.inc(ct::HANDLE);
                self.acquire(x)?;
                Ok(OpKind::Handle)
            }
            2 if !self.pool.is_empty() => {
                let i = self.rng.below(self.pool.len());
                self.st.inc(ct::HANDLE);
                self.convert(i)?;
                while self.pool.len() > self.cfg.max_pool + 4 {
                    match self.pool.iter().position(|e| !e.pinned) {
                        Some(i) => self.drop_handle(i)?,
                        None => break,
                    }
                }
                Ok(OpKind::Handle)
            }
            3 if !self.pool.is_empty() => {
                let i = self.rng.below(self.pool.len());
                if self.pool[i].pinned {
                    return Ok(OpKind::Nothing);
                }
                self.drop_handle(i)?;
                Ok(OpKind::Drop)
            }
            4 => {
                let x = *self.rng.pick(&live);
                self.set_data(x)?;
                Ok(OpKind::Data)
            }
            5 => {
                self.foreign()?;
                Ok(OpKind::Foreign)
            }
            6 => {
                let k = self.rng.below(3);
                self.new_tree(k)?;
                Ok(OpKind::Handle)
            }
            _ => Ok(OpKind::Nothing),
        }
    }

    // --------------------------------------------------------------- audits

    /// Compares everything observable that the tags ask for.
    pub fn audit(&mut self, tags: u32) -> R<()> {
        let r = {
            let w: &mut Self = self;
            catch(move || w.audit_inner(tags))
        };
        match r {
            Ok(r) => r,
            Err(m) => dv(tag::PANIC, format!("a query panicked: {m}")),
        }
    }

    fn audit_inner(&mut self, tags: u32) -> R<()> {
        self.st.inc(ct::AUDITS);
        if tags & tag::W != 0 {
            self.audit_weak()?;
        }
        if tags & tag::L != 0 {
            self.audit_ledger()?;
        }
        if tags & tag::S != 0 {
            self.audit_structure()?;
        }
        if tags & tag::M != 0 {
            self.audit_membership()?;
        }
        if tags & tag::D != 0 {
            self.audit_data()?;
        }
        if tags & tag::K != 0 {
            self.audit_locks()?;
        }
        if tags & tag::G != 0 {
            self.audit_lock_validity()?;
        }
        Ok(())
    }

    pub fn audit_weak(&mut self) -> R<()> {
        for x in 0..self.nodes.len() {
            let up = self.nweak[x].upgrade();
            self.st.inc(ct::WEAK);
            ensure!(
                up.is_some() == self.nodes[x].alive,
                tag::W,
                "weak reference of #{x}: upgrades={}, its tree is alive={}",
                up.is_some(),
                self.nodes[x].alive
            );
            if let Some(n) = up {
                let id = self.ident(&n)?;
                ensure!(
                    id == x,
                    tag::W,
                    "weak reference of #{x} upgrades to node #{id}"
                );
            }
        }
        for t in 0..self.trees.len() {
            let up = self.tweak[t].upgrade();
            ensure!(
                up.is_some() == self.trees[t].alive,
                tag::W,
                "weak reference of t{t}: upgrades={}, the tree is alive={}",
                up.is_some(),
                self.trees[t].alive
            );
        }
        for i in 0..self.pool.len() {
            let e = &self.pool[i];
            match &e.h {
                H::NW(w) => {
                    let up = w.upgrade();
                    ensure!(
                        up.is_some() == self.nodes[e.t].alive,
                        tag::W,
                        "pooled weak reference of #{}: upgrades={}",
                        e.t,
                        up.is_some()
                    );
                }
                H::TW(w) => {
                    let up = w.upgrade();
                    ensure!(
                        up.is_some() == self.trees[e.t].alive,
                        tag::W,
                        "pooled weak reference of t{}: upgrades={}",
                        e.t,
                        up.is_some()
                    );
                }
                // The data must be there through the very handle.
                H::N(n) => {
                    let id = self.ident(n)?;
                    ensure!(id == e.t, tag::W, "handle of #{} refers to #{id}", e.t);
                }
                H::Hot(n) => {
                    let id = self.ident(&n.plain())?;
                    ensure!(id == e.t, tag::W, "hot handle of #{} refers to #{id}", e.t);
                }
                H::Fz(n) => {
                    let id = self.ident(&n.plain())?;
                    ensure!(id == e.t, tag::W, "frozen handle of #{} refers to #{id}", e.t);
                }
                H::T(t) => {
                    let id = self.ident(&t.root())?;
                    ensure!(
                        id == self.trees[e.t].root,
                        tag::W | tag::M,
                        "the handle of t{} has the root #{id}, expected #{}",
                        e.t,
                        self.trees[e.t].root
                    );
                }
                H::It(it) => {
                    let id = self.ident_o(it.at())?;
                    ensure!(
                        id == Some(e.t),
                        tag::W,
                        "iterator at #{} peeks at {id:?}",
                        e.t
                    );
                }
                H::G(_) | H::Pr(_) | H::Pin => {}
            }
        }
        Ok(())
    }

    pub fn audit_ledger(&mut self) -> R<()> {
        if let Some(m) = ledger_misuse() {
            return dv(tag::L, m);
        }
        let live: Vec<u64> = {
            let mut v: Vec<u64> = self
                .nodes
                .iter()
                .filter(|n| n.alive)
                .map(|n| n.inst)
                .collect();
            v.sort_unstable();
            v
        };
        for i in &live {
            ensure!(
                ledger_is_live(*i),
                tag::L,
                "the data of #{} was dropped although its tree is alive",
                self.inst2id[i]
            );
        }
        let n = ledger_live();
        if n != live.len() + self.extra_live {
            let all = ledger_live_ids();
            let extra: Vec<String> = all
                .iter()
                .filter(|i| live.binary_search(i).is_err())
                .map(|i| match self.inst2id.get(i) {
                    Some(id) => format!("#{id}"),
                    None => format!("instance {i} (no node)"),
                })
                .collect();
            return dv(
                tag::L,
                format!("data is still alive although nothing preserves it: {extra:?}"),
            );
        }
        Ok(())
    }

    pub fn audit_data(&mut self) -> R<()> {
        for x in self.live_nodes() {
            let n = self.node(x)?;
            let busy = self.mut_borrowed.contains(&x);
            let r = n.try_borrow_data();
            match &r {
                Ok(d) => {
                    ensure!(!busy, tag::D, "#{x} can be borrowed while it is mutably borrowed");
                    ensure!(
                        d.inst == self.nodes[x].inst
                            && d.val == self.nodes[x].val
                            && *d.heap == self.nodes[x].val,
                        tag::D,
                        "the data of #{x} is {} (instance {}), expected {} (instance {})",
                        d.val,
                        d.inst,
                        self.nodes[x].val,
                        self.nodes[x].inst
                    );
                }
                Err(_) => ensure!(busy, tag::D, "the data of #{x} is unexpectedly borrowed"),
            }
        }
        Ok(())
    }

    pub fn audit_structure(&mut self) -> R<()> {
        for x in self.live_nodes() {
            let n = self.node(x)?;
            self.nav_check(&n, x)?;
            let t = self.nodes[x].tree;
            let (g, p) = self.locks(t);
            // The same through locked handles, where they can be acquired.
            let which = self.rng.below(3);
            if which == 0 && p == 0 {
                if let Ok(h) = n.clone().bundle_new_hierarchy_edit_grant() {
                    self.nav_check(&h, x)?;
                }
            } else if which == 1 && g == 0 {
                if let Ok(h) = n.clone().bundle_new_hierarchy_edit_prohibition() {
                    self.nav_check(&h, x)?;
                }
            }
        }
        for i in 0..self.pool.len() {
            let t = self.pool[i].t;
            match &self.pool[i].h {
                H::N(n) => self.nav_check_ref(n, t)?,
                H::Hot(n) => self.nav_check_ref(n, t)?,
                H::Fz(n) => self.nav_check_ref(n, t)?,
                _ => {}
            }
        }
        Ok(())
    }

    pub fn nav_check<N: Nav>(&mut self, n: &N, x: usize) -> R<()> {
        self.st.inc(ct::NAV);
        self.nav_check_ref(n, x)
    }

    /// Compares all navigation answers of the handle with the model.
    pub fn nav_check_ref<N: Nav>(&self, n: &N, x: usize) -> R<()> {
        let m = &self.nodes[x];
        let k = N::KIND;
        let sibs = self.siblings(x);
        let pos = self.pos(x);
        let (first, last) = (sibs[0], sibs[sibs.len() - 1]);
        macro_rules! eq {
            ($got:expr, $want:expr, $what:expr) => {{
                let (got, want) = ($got, $want);
                ensure!(
                    got == want,
                    tag::S,
                    "{k} #{x}: {} is {:?}, expected {:?}",
                    $what,
                    got,
                    want
                );
            }};
        }
        eq!(self.ident(&n.pl())?, x, "the node itself");
        eq!(self.ident_o(n.parent_())?, m.parent, "parent");
        eq!(
            self.ident_o(n.first_child_())?,
            m.children.first().copied(),
            "first child"
        );
        eq!(
            self.ident_o(n.last_child_())?,
            m.children.last().copied(),
            "last child"
        );
        eq!(
            self.ident_o(n.next_sibling_())?,
            sibs.get(pos + 1).copied(),
            "next sibling"
        );
        eq!(
            self.ident_o(n.prev_sibling_())?,
            if pos > 0 { Some(sibs[pos - 1]) } else { None },
            "previous sibling"
        );
        eq!(self.ident(&n.first_sibling_())?, first, "first sibling");
        eq!(self.ident(&n.last_sibling_())?, last, "last sibling");
        let (a, b) = n.first_last_sibling_();
        eq!(
            (self.ident(&a)?, self.ident(&b)?),
            (first, last),
            "first and last sibling"
        );
        let fl = match n.first_last_child_() {
            Some((a, b)) => Some((self.ident(&a)?, self.ident(&b)?)),
            None => None,
        };
        eq!(
            fl,
            m.children.first().map(|f| (*f, *m.children.last().unwrap())),
            "first and last child"
        );
        eq!(n.has_prev_sibling_(), pos > 0, "has_prev_sibling");
        eq!(
            n.has_next_sibling_(),
            pos + 1 < sibs.len(),
            "has_next_sibling"
        );
        let nc = m.children.len();
        eq!(n.num_children_(), nc, "num_children");
        eq!(n.has_children_(), nc > 0, "has_children");
        eq!(n.has_one_child_(), nc == 1, "has_one_child");
        eq!(n.has_multiple_children_(), nc > 1, "has_multiple_children");
        eq!(n.is_root_(), m.parent.is_none(), "is_root");
        // The neighbours are right, so that counting terminates if all
        // the neighbours of the other nodes are right as well.
        eq!(n.count_children_(), nc, "count_children");
        eq!(n.count_preceding_(), pos, "count_preceding_siblings");
        eq!(
            n.count_following_(),
            sibs.len() - pos - 1,
            "count_following_siblings"
        );
        eq!(n.count_ancestors_(), self.depth(x), "count_ancestors");
        Ok(())
    }

    pub fn audit_membership(&mut self) -> R<()> {
        let live = self.live_nodes();
        let trees = self.live_trees();
        let mut real = vec![];
        for t in &trees {
            let tr = self.tree(*t)?;
            let root = tr.root();
            let id = self.ident(&root)?;
            ensure!(
                id == self.trees[*t].root,
                tag::M,
                "the root of t{t} is #{id}, expected #{}",
                self.trees[*t].root
            );
            ensure!(root.is_root(), tag::M, "the root of t{t} is not a root");
            real.push(tr);
        }
        for i in 0..trees.len() {
            for j in 0..trees.len() {
                ensure!(
                    real[i].ptr_eq(&real[j]) == (i == j),
                    tag::M,
                    "identity of t{} and t{} is wrong",
                    trees[i],
                    trees[j]
                );
            }
        }
        for x in live.iter().copied() {
            let n = self.node(x)?;
            let t = self.nodes[x].tree;
            let ti = match trees.iter().position(|k| *k == t) {
                Some(i) => i,
                None => return dv(tag::M, format!("#{x} is alive but t{t} is not")),
            };
            ensure!(
                n.tree().ptr_eq(&real[ti]),
                tag::M,
                "tree() of #{x} is not t{t}"
            );
            let r = self.ident(&n.root())?;
            ensure!(
                r == self.trees[t].root,
                tag::M,
                "root() of #{x} is #{r}, expected #{}",
                self.trees[t].root
            );
            ensure!(
                n.is_root() == (self.trees[t].root == x),
                tag::M,
                "is_root() of #{x} is {}",
                n.is_root()
            );
            for (j, tr) in real.iter().enumerate() {
                ensure!(
                    n.belongs_to(tr) == (j == ti),
                    tag::M,
                    "belongs_to(t{}) of #{x} in t{t} is {}",
                    trees[j],
                    n.belongs_to(tr)
                );
            }
            let (g, p) = self.locks(t);
            let y = *self.rng.pick(&live);
            let m = self.node(y)?;
            let same = self.nodes[y].tree == t;
            ensure!(
                n.belongs_to_same_tree(&m) == same && m.belongs_to_same_tree(&n) == same,
                tag::M,
                "belongs_to_same_tree of #{x} and #{y} is not {same}"
            );
            macro_rules! locked {
                ($f:ident, $pe:expr) => {{
                    let a = n.clone().$f();
                    let b = m.clone().$f();
                    if let Ok(a) = &a {
                        ensure!(a.tree().ptr_eq(&real[ti]), tag::M, "tree() of locked #{x}");
                        ensure!(
                            self.ident(&a.root().plain())? == self.trees[t].root,
                            tag::M,
                            "root() of locked #{x}"
                        );
                        ensure!(
                            a.is_root() == (self.trees[t].root == x),
                            tag::M,
                            "is_root() of locked #{x}"
                        );
                        for (j, tr) in real.iter().enumerate() {
                            ensure!(
                                a.belongs_to(tr) == (j == ti),
                                tag::M,
                                "belongs_to() of locked #{x}"
                            );
                        }
                        if let Ok(b) = &b {
                            ensure!(
                                a.belongs_to_same_tree(b) == same,
                                tag::M,
                                "belongs_to_same_tree of locked #{x} and #{y}"
                            );
                            ensure!(
                                a.ptr_eq(b) == (x == y)
                                    && b.ptr_eq(a) == (x == y)
                                    && $pe(a, &m) == (x == y)
                                    && $pe(b, &m)
                                    && a.ptr_eq(a),
                                tag::M,
                                "ptr_eq of locked #{x} and #{y}"
                            );
                        }
                    }
                }};
            }
            if self.rng.bool() {
                if p == 0 {
                    locked!(bundle_new_hierarchy_edit_grant, HotNode::ptr_eq_plain);
                }
            } else if g == 0 {
                locked!(
                    bundle_new_hierarchy_edit_prohibition,
                    |a: &FrozenNode<P>, b| a.plain().ptr_eq(b)
                );
            }
        }
        for e in &self.pool {
            if let H::T(tr) = &e.h {
                let id = self.ident(&tr.root())?;
                ensure!(
                    id == self.trees[e.t].root,
                    tag::M,
                    "an old handle of t{} has the root #{id}, expected #{}",
                    e.t,
                    self.trees[e.t].root
                );
                for (j, r) in real.iter().enumerate() {
                    ensure!(
                        tr.ptr_eq(r) == (trees[j] == e.t),
                        tag::M,
                        "an old handle of t{} confuses its identity with t{}",
                        e.t,
                        trees[j]
                    );
                }
            }
        }
        Ok(())
    }

    pub fn audit_locks(&mut self) -> R<()> {
        for t in self.live_trees() {
            let (g, p) = self.locks(t);
            let tr = self.tree(t)?;
            self.st.inc(ct::LOCKPROBE);
            let a = tr.grant_hierarchy_edit().is_ok();
            ensure!(
                a == (p == 0),
                tag::K,
                "t{t} with {g} grants and {p} prohibitions alive: grant acquirable={a}"
            );
            let b = tr.prohibit_hierarchy_edit().is_ok();
            ensure!(
                b == (g == 0),
                tag::K,
                "t{t} with {g} grants and {p} prohibitions alive: prohibition acquirable={b}"
            );
            // The same through a random node of the tree.
            let sub = self.subtree(self.trees[t].root);
            let x = *self.rng.pick(&sub);
            let n = self.node(x)?;
            let a = n.clone().bundle_new_hierarchy_edit_grant().is_ok();
            let b = n.clone().bundle_new_hierarchy_edit_prohibition().is_ok();
            ensure!(
                a == (p == 0) && b == (g == 0),
                tag::K,
                "#{x} of t{t} with {g} grants and {p} prohibitions alive: bundle grant={a}, bundle prohibition={b}"
            );
        }
        Ok(())
    }

    pub fn audit_lock_validity(&mut self) -> R<()> {
        let live = self.live_nodes();
        for e in &self.pool {
            for x in &live {
                let n = self.node(*x)?;
                let want = self.nodes[*x].tree == e.t;
                let got = match &e.h {
                    H::G(g) => g.is_valid_for_node(&n),
                    H::Pr(g) => g.is_valid_for_node(&n),
                    _ => break,
                };
                ensure!(
                    got == want,
                    tag::G,
                    "lock of t{} is_valid_for_node(#{x} of t{}) = {got}",
                    e.t,
                    self.nodes[*x].tree
                );
            }
        }
        Ok(())
    }

    /// Drops all pooled handles in a random order, auditing in between.
    pub fn teardown(&mut self, tags: u32) -> R<()> {
        while !self.pool.is_empty() {
            let i = self.rng.below(self.pool.len());
            self.drop_handle(i)?;
            if tags != 0 {
                self.audit(tags)?;
            }
        }
        Ok(())
    }
}

pub enum NH {
    N(Node<P>),
    H(HotNode<P>),
}
impl NH {
    pub fn plain(&self) -> Node<P> {
        match self {
            NH::N(n) => n.clone(),
            NH::H(h) => h.plain(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EditRes {
    Done,
    Refused,
    Locked,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum OpKind {
    Edit(EditRes),
    Handle,
    Drop,
    Data,
    Foreign,
    Nothing,
}
