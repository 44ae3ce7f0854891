//! C19: user callbacks which re-enter the crate, fail or panic.
//!
//! A scene holds trees, handles of every kind and weak references. Operations
//! which run user code (destructors, clone, comparison, formatting, event
//! sources, formatting sinks) are run with a plan of what happens inside the
//! callbacks. After every callback and operation the reachable trees are
//! audited for self-consistency.

use std::cell::{Cell, RefCell};
use std::fmt::Write as _;

use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::{DepthFirstTraverser, DftEvent, SiblingsTraverser};
use dendron::tree::{HierarchyEditGrant, HierarchyEditProhibition};
use dendron::{AdoptAs, FrozenNode, HotNode, InsertAs, Node, NodeWeak, Tree, TreeWeak};

use crate::cloneq::{random_spec, realize_spec};
use crate::ensure;
use crate::payload::*;
use crate::rng::{hash2, Rng};
use crate::world::{ct, dv, tag, Stats, R};

const INJECTED: &str = "INJECTED";

/// Kinds of callbacks.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Drop,
    Clone,
    Eq,
    Fmt,
    Next,
    Sink,
}
const KINDS: [K; 6] = [K::Drop, K::Clone, K::Eq, K::Fmt, K::Next, K::Sink];

/// What a callback does.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Act {
    Audit,
    Weak,
    Edit,
    DropOne,
    DropTree,
    NewTree,
    Lock,
    Unlock,
    Data,
    CloneSub,
    Compare,
    Print,
    Walk,
    Panic,
    /// Formatting or the sink fails.
    Fail,
}
const ACTS: [Act; 15] = [
    Act::Audit,
    Act::Weak,
    Act::Edit,
    Act::DropOne,
    Act::DropTree,
    Act::NewTree,
    Act::Lock,
    Act::Unlock,
    Act::Data,
    Act::CloneSub,
    Act::Compare,
    Act::Print,
    Act::Walk,
    Act::Panic,
    Act::Fail,
];

/// When the callbacks act.
#[derive(Clone, Debug)]
struct Plan {
    kind: K,
    /// Number of the call, or every call.
    at: Option<usize>,
    acts: Vec<Act>,
}

/// Monitored data which runs the planned callbacks.
pub struct Q {
    inst: u64,
    val: Cell<i64>,
    heap: Box<i64>,
    /// Handles of other trees owned by this value.
    own: RefCell<Vec<Own>>,
}

#[allow(dead_code)]
enum Own {
    N(Node<Q>),
    T(Tree<Q>),
    W(NodeWeak<Q>),
    G(HierarchyEditGrant<Q>),
    F(FrozenNode<Q>),
}

impl Q {
    fn new(val: i64) -> Self {
        Q {
            inst: ledger_new(),
            val: Cell::new(val),
            heap: Box::new(val),
            own: RefCell::new(vec![]),
        }
    }
}
impl Drop for Q {
    fn drop(&mut self) {
        ledger_drop(self.inst);
        let _ = callback(K::Drop);
    }
}
impl Clone for Q {
    fn clone(&self) -> Self {
        // Made before the callback, so that a panic has something to unwind.
        let q = Q::new(self.val.get() + 0 * *self.heap);
        let _ = callback(K::Clone);
        q
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        let r = self.val == o.val;
        let _ = callback(K::Eq);
        r
    }
}
impl std::fmt::Debug for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        callback(K::Fmt)?;
        write!(f, "q{}", self.val.get())
    }
}
impl std::fmt::Display for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        callback(K::Fmt)?;
        write!(f, "q{}\nz", self.val.get())
    }
}

/// Formatting sink which runs the planned callbacks.
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        callback(K::Sink)
    }
}

enum Hd {
    N(Node<Q>),
    H(HotNode<Q>),
    F(FrozenNode<Q>),
    T(Tree<Q>),
    G(HierarchyEditGrant<Q>),
    P(HierarchyEditProhibition<Q>),
    D(DepthFirstTraverser<Q>),
    S(SiblingsTraverser<Q>),
}

#[derive(Default)]
struct Scene {
    h: Vec<Hd>,
    weak: Vec<NodeWeak<Q>>,
    tweak: Vec<TreeWeak<Q>>,
}

struct Ctl {
    rng: Rng,
    plan: Option<Plan>,
    calls: [usize; 6],
    depth: usize,
    budget: usize,
    injected: bool,
    /// Whether trees may have been modified by callbacks.
    edited: bool,
    err: Option<String>,
    log: Vec<String>,
    fired: [usize; 6],
    acts: Vec<(K, Act)>,
    audits: usize,
    upgraded: usize,
    upgrade_none: usize,
    val: i64,
}

thread_local! {
    static SC: RefCell<Scene> = RefCell::new(Scene::default());
    static CT: RefCell<Option<Ctl>> = const { RefCell::new(None) };
}

fn ctl<T>(f: impl FnOnce(&mut Ctl) -> T) -> T {
    CT.with(|c| f(c.borrow_mut().as_mut().expect("harness: control")))
}
fn sc<T>(f: impl FnOnce(&mut Scene) -> T) -> T {
    SC.with(|c| f(&mut c.borrow_mut()))
}
fn below(n: usize) -> usize {
    ctl(|c| c.rng.below(n))
}
fn fresh() -> i64 {
    ctl(|c| {
        c.val += 1;
        c.val
    })
}
fn log(s: String) {
    ctl(|c| {
        let pad = "  ".repeat(c.depth);
        if c.log.len() < 400 {
            c.log.push(format!("{pad}{s}"));
        }
    });
}
fn fail(s: String) {
    ctl(|c| {
        c.log.push(format!("FAIL {s}"));
        if c.err.is_none() {
            c.err = Some(s);
        }
    });
}

/// Runs the code; `Err(None)` is the injected panic, `Err(Some)` another one.
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Option<String>> {
    struct Pay(Option<T0>);
    type T0 = String;
    let r = catch(|| {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(v) => Ok(v),
            Err(e) => {
                let inj = e.downcast_ref::<&str>().map_or(false, |s| *s == INJECTED);
                Err(Pay(if inj { None } else { Some(last_panic()) }))
            }
        }
    });
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(p)) => Err(p.0),
        Err(m) => Err(Some(m)),
    }
}

fn callback(kind: K) -> std::fmt::Result {
    let go = CT.with(|c| {
        let Ok(mut c) = c.try_borrow_mut() else {
            return None;
        };
        let c = c.as_mut()?;
        let k = KINDS.iter().position(|x| *x == kind).expect("harness: kind");
        if c.depth >= 2 || c.budget == 0 {
            return None;
        }
        if c.depth == 0 {
            c.calls[k] += 1;
        }
        let p = c.plan.as_ref()?;
        if p.kind != kind || c.depth > 0 && c.rng.below(3) != 0 {
            return None;
        }
        if c.depth == 0 && p.at.map_or(false, |n| n + 1 != c.calls[k]) {
            return None;
        }
        c.depth += 1;
        c.budget -= 1;
        c.fired[k] += 1;
        Some(p.acts.clone())
    });
    let Some(acts) = go else {
        return Ok(());
    };
    let mut res = Ok(());
    let mut panic_after = false;
    for a in acts {
        ctl(|c| c.acts.push((kind, a)));
        match a {
            Act::Panic => {
                if !std::thread::panicking() && !ctl(|c| c.injected) {
                    panic_after = true;
                }
            }
            Act::Fail => res = Err(std::fmt::Error),
            a => {
                log(format!("in {kind:?}: {a:?}"));
                match guarded(|| act(a)) {
                    Ok(()) | Err(None) => {}
                    Err(Some(m)) => fail(format!("panic in {a:?} called from {kind:?}: {m}")),
                }
            }
        }
    }
    ctl(|c| c.depth -= 1);
    if panic_after {
        log(format!("in {kind:?}: panic"));
        ctl(|c| c.injected = true);
        std::panic::panic_any(INJECTED);
    }
    res
}

// ---- access to the scene -------------------------------------------------

/// Nodes for all handles in the scene.
fn some_nodes() -> Vec<Node<Q>> {
    // The scene is not modified by cloning handles and no user code runs.
    sc(|s| s.h.iter().filter_map(node_of).collect())
}
fn node_of(h: &Hd) -> Option<Node<Q>> {
    Some(match h {
        Hd::N(n) => n.clone(),
        Hd::H(n) => n.plain(),
        Hd::F(n) => n.plain(),
        Hd::T(t) => t.root(),
        Hd::G(_) | Hd::P(_) => return None,
        Hd::D(d) => d.peek()?.as_value().clone(),
        Hd::S(d) => d.peek()?.clone(),
    })
}
fn pick_node() -> Option<Node<Q>> {
    let mut v = some_nodes();
    if v.is_empty() {
        return None;
    }
    let n = v.swap_remove(below(v.len()));
    drop(v);
    // Any node of its tree.
    if below(3) == 0 {
        return Some(n);
    }
    let mut all = walk(&n.root()).unwrap_or_default();
    if all.is_empty() {
        return Some(n);
    }
    let k = below(all.len());
    Some(all.swap_remove(k))
}
fn push(h: Hd) {
    if sc(|s| s.h.len()) < 24 {
        sc(|s| s.h.push(h));
    }
    // Otherwise the handle is dropped here.
}
fn push_node(n: Node<Q>) {
    let w = n.downgrade();
    let tw = n.tree().downgrade();
    sc(|s| {
        if s.weak.len() < 60 {
            s.weak.push(w);
        }
        if s.tweak.len() < 20 {
            s.tweak.push(tw);
        }
    });
    let h = match below(12) {
        0 => Hd::T(n.tree()),
        1 => match n.clone().bundle_new_hierarchy_edit_grant() {
            Ok(h) => Hd::H(h),
            Err(_) => Hd::N(n),
        },
        2 => match n.clone().bundle_new_hierarchy_edit_prohibition() {
            Ok(h) => Hd::F(h),
            Err(_) => Hd::N(n),
        },
        3 => match n.tree().grant_hierarchy_edit() {
            Ok(h) => Hd::G(h),
            Err(_) => Hd::N(n),
        },
        4 => match n.tree().prohibit_hierarchy_edit() {
            Ok(h) => Hd::P(h),
            Err(_) => Hd::N(n),
        },
        5 => Hd::D(n.depth_first_traverse()),
        6 => Hd::S(n.following_siblings_or_self()),
        _ => Hd::N(n),
    };
    push(h);
}

fn walk(root: &Node<Q>) -> Result<Vec<Node<Q>>, String> {
    let mut out = vec![];
    let mut st = vec![root.clone()];
    while let Some(n) = st.pop() {
        let mut kids = vec![];
        let mut c = n.first_child();
        while let Some(k) = c {
            c = k.next_sibling();
            kids.push(k);
            if kids.len() > 2000 {
                return Err("endless siblings".into());
            }
        }
        out.push(n);
        if out.len() > 2000 {
            return Err("endless tree".into());
        }
        st.extend(kids.into_iter().rev());
    }
    Ok(out)
}

macro_rules! check {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            return Err(format!($($a)*));
        }
    };
}

fn live_data(n: &Node<Q>) -> Result<(), String> {
    if let Ok(d) = n.try_borrow_data() {
        check!(
            ledger_is_live(d.inst),
            "the data of a reachable node was already dropped"
        );
    }
    Ok(())
}

/// Audits the tree of the node.
fn audit_tree(n: &Node<Q>) -> Result<(Node<Q>, Vec<Node<Q>>), String> {
    let mut r = n.clone();
    let mut k = 0;
    while let Some(p) = r.parent() {
        r = p;
        k += 1;
        check!(k < 2000, "endless ancestors");
    }
    check!(r.is_root(), "the topmost ancestor is not a root");
    check!(n.root().ptr_eq(&r), "root() is not the topmost ancestor");
    check!(n.count_ancestors() == k, "count_ancestors");
    let all = walk(&r)?;
    check!(
        all.iter().any(|x| x.ptr_eq(n)),
        "a live node is not reachable from its root"
    );
    let t = n.tree();
    check!(t.root().ptr_eq(&r), "the tree of the node has another root");
    check!(
        r.next_sibling().is_none() && r.prev_sibling().is_none(),
        "the root has siblings"
    );
    for x in &all {
        live_data(x)?;
        check!(x.belongs_to_same_tree(n), "a reachable node is in another tree");
        check!(x.belongs_to(&t), "a reachable node is in another tree");
        check!(x.is_root() == x.ptr_eq(&r), "is_root of a node");
        let mut kids: Vec<Node<Q>> = vec![];
        let mut c = x.first_child();
        while let Some(y) = c {
            c = y.next_sibling();
            kids.push(y);
        }
        check!(
            x.num_children() == kids.len() && x.count_children() == kids.len(),
            "num_children is {}, count_children is {}, children: {}",
            x.num_children(),
            x.count_children(),
            kids.len()
        );
        check!(x.has_children() != kids.is_empty(), "has_children");
        let last = x.last_child();
        check!(
            match (&last, kids.last()) {
                (Some(a), Some(b)) => a.ptr_eq(b),
                (None, None) => true,
                _ => false,
            },
            "last_child"
        );
        for (i, y) in kids.iter().enumerate() {
            check!(
                y.parent().map_or(false, |p| p.ptr_eq(x)),
                "the parent of a child is another node"
            );
            let prev = y.prev_sibling();
            check!(
                match &prev {
                    Some(p) => i > 0 && p.ptr_eq(&kids[i - 1]),
                    None => i == 0,
                },
                "prev_sibling of child {i} of {}",
                kids.len()
            );
            check!(y.has_prev_sibling() == (i > 0), "has_prev_sibling");
            check!(
                y.has_next_sibling() == (i + 1 < kids.len()),
                "has_next_sibling"
            );
            check!(y.first_sibling().ptr_eq(&kids[0]), "first_sibling");
            check!(
                y.last_sibling().ptr_eq(&kids[kids.len() - 1]),
                "last_sibling"
            );
        }
    }
    Ok((r, all))
}

/// Audits all trees of the scene, and that they are disjoint.
fn audit_all() -> Result<Vec<Node<Q>>, String> {
    ctl(|c| c.audits += 1);
    let mut roots: Vec<(Node<Q>, Vec<Node<Q>>)> = vec![];
    for n in some_nodes() {
        if let Some((r, all)) = roots.iter().find(|(r, _)| r.ptr_eq(&n.root())) {
            check!(n.belongs_to_same_tree(r), "two trees have the same root");
            check!(
                all.iter().any(|x| x.ptr_eq(&n)),
                "a live node is not reachable from its root"
            );
            continue;
        }
        roots.push(audit_tree(&n)?);
    }
    for i in 0..roots.len() {
        for j in 0..i {
            check!(
                !roots[i].0.belongs_to_same_tree(&roots[j].0)
                    && !roots[i].0.tree().ptr_eq(&roots[j].0.tree()),
                "two hierarchies belong to the same tree"
            );
            for x in &roots[i].1 {
                check!(
                    !roots[j].1.iter().any(|y| y.ptr_eq(x)),
                    "a node is in two hierarchies"
                );
            }
        }
    }
    Ok(roots.into_iter().map(|r| r.0).collect())
}

/// The lock state of every tree is exactly what the live handles imply.
fn audit_locks() -> Result<(), String> {
    let roots = audit_all()?;
    for r in roots {
        let (mut edit, mut forbid) = (0, 0);
        let mut bad = None;
        sc(|s| {
            for h in &s.h {
                match h {
                    Hd::H(x) if x.plain().belongs_to_same_tree(&r) => edit += 1,
                    Hd::F(x) if x.plain().belongs_to_same_tree(&r) => forbid += 1,
                    Hd::G(g) if g.is_valid_for_node(&r) => edit += 1,
                    Hd::P(g) if g.is_valid_for_node(&r) => forbid += 1,
                    _ => {}
                }
            }
            if edit > 0 && forbid > 0 {
                bad = Some("a tree has edit grants and prohibitions".to_string());
            }
        });
        if let Some(b) = bad {
            return Err(b);
        }
        let t = r.tree();
        let g = t.grant_hierarchy_edit().is_ok();
        let p = t.prohibit_hierarchy_edit().is_ok();
        // Handles owned by data values are always of trees outside of the scene.
        check!(
            g == (forbid == 0) && p == (edit == 0),
            "locks: {edit} grants and {forbid} prohibitions are held; granting {}, prohibiting {}",
            if g { "works" } else { "fails" },
            if p { "works" } else { "fails" }
        );
        let all = walk(&r)?;
        let k = below(all.len());
        let g = all[k].clone().bundle_new_hierarchy_edit_grant().is_ok();
        let p = all[k].clone().bundle_new_hierarchy_edit_prohibition().is_ok();
        check!(
            g == (forbid == 0) && p == (edit == 0),
            "node locks: {edit} grants and {forbid} prohibitions are held; granting {}, prohibiting {}",
            if g { "works" } else { "fails" },
            if p { "works" } else { "fails" }
        );
    }
    Ok(())
}

fn use_weak() -> Result<(), String> {
    let (v, tv) = sc(|s| (s.weak.clone(), s.tweak.clone()));
    let (mut some, mut none) = (0, 0);
    let live: Vec<Node<Q>> = some_nodes();
    for w in v {
        match w.upgrade() {
            Some(n) => {
                some += 1;
                audit_tree(&n)?;
                let c = n.clone();
                drop(n);
                check!(w.upgrade().is_some(), "a weak reference to a held node failed");
                drop(c);
            }
            None => none += 1,
        }
    }
    for w in tv {
        match w.upgrade() {
            Some(t) => {
                some += 1;
                audit_tree(&t.root())?;
            }
            None => none += 1,
        }
    }
    // A weak reference of a held node always works.
    for n in live {
        check!(
            n.downgrade().upgrade().map_or(false, |m| m.ptr_eq(&n)),
            "a weak reference to a held node failed"
        );
    }
    ctl(|c| {
        c.upgraded += some;
        c.upgrade_none += none;
    });
    Ok(())
}

// ---- actions -------------------------------------------------------------

fn note(r: Result<(), String>) {
    if let Err(e) = r {
        fail(e);
    }
}

fn small_tree() -> Node<Q> {
    let mut rng = ctl(|c| {
        let s = c.rng.u64();
        Rng::new(s)
    });
    let n = rng.range(1, 4);
    let spec = random_spec(&mut rng, n, 3);
    let root = Node::new_tree(Q::new(fresh()));
    let g = root.tree().grant_hierarchy_edit().expect("harness: grant");
    let mut last = root.clone();
    for (v, _) in spec.iter().skip(1) {
        let p = if rng.bool() { last } else { root.clone() };
        last = p.create_as_last_child(&g, Q::new(*v));
    }
    root
}

fn dest(d: usize, x: &HotNode<Q>) -> InsertAs<&HotNode<Q>> {
    match d {
        0 => InsertAs::FirstChildOf(x),
        1 => InsertAs::LastChildOf(x),
        2 => InsertAs::PreviousSiblingOf(x),
        _ => InsertAs::NextSiblingOf(x),
    }
}
const ADOPT: [AdoptAs; 4] = [
    AdoptAs::FirstChild,
    AdoptAs::LastChild,
    AdoptAs::PreviousSibling,
    AdoptAs::NextSibling,
];

/// A random edit; the handles in use are local to this function.
fn random_edit() {
    let Some(x) = pick_node() else { return };
    let Ok(g) = x.tree().grant_hierarchy_edit() else {
        log("edit: locked".into());
        return;
    };
    ctl(|c| c.edited = true);
    match below(8) {
        0 => {
            log("edit: detach".into());
            x.detach_subtree(&g);
            if below(2) == 0 {
                push_node(x);
            }
        }
        1 => {
            log("edit: replace with children".into());
            let _ = x.try_replace_with_children(&g);
            if below(2) == 0 {
                push_node(x);
            }
        }
        2 => {
            log("edit: create".into());
            // On failure the value is dropped inside of the operation.
            if let Ok(n) = x.try_create_node_as(&g, Q::new(fresh()), ADOPT[below(4)]) {
                if below(2) == 0 {
                    push_node(n);
                }
            }
        }
        3 => {
            log("edit: interrupting parent".into());
            let n = x.create_as_interrupting_parent(&g, Q::new(fresh()));
            if below(3) == 0 {
                push_node(n);
            }
        }
        4 => {
            log("edit: interrupting child".into());
            let n = x.create_as_interrupting_child(&g, Q::new(fresh()));
            if below(3) == 0 {
                push_node(n);
            }
        }
        5 | 6 => {
            let Some(y) = pick_node() else { return };
            let Ok(hy) = y.bundle_new_hierarchy_edit_grant() else {
                return;
            };
            log("edit: move".into());
            let _ = x.try_detach_insert_subtree(&g, dest(below(4), &hy));
        }
        _ => {
            let Some(y) = pick_node() else { return };
            let Ok(hy) = y.bundle_new_hierarchy_edit_grant() else {
                return;
            };
            drop(g);
            log("edit: clone and insert".into());
            if let Ok(n) = x.try_clone_insert_subtree(dest(below(4), &hy)) {
                let n = n.plain();
                if below(2) == 0 {
                    push_node(n);
                }
            }
        }
    }
}

fn act(a: Act) {
    match a {
        Act::Audit => note(audit_all().map(drop)),
        Act::Weak => note(use_weak()),
        Act::Edit => {
            random_edit();
            note(audit_all().map(drop));
        }
        Act::DropOne => {
            let h = sc(|s| {
                if s.h.is_empty() {
                    return None;
                }
                let k = ctl(|c| c.rng.below(s.h.len()));
                Some(s.h.swap_remove(k))
            });
            ctl(|c| c.edited = true);
            drop(h);
            note(audit_all().map(drop));
        }
        Act::DropTree => {
            let Some(n) = pick_node() else { return };
            let v = sc(|s| {
                let all = std::mem::take(&mut s.h);
                let (a, b): (Vec<Hd>, Vec<Hd>) = all.into_iter().partition(|h| of_tree(h, &n));
                s.h = b;
                a
            });
            ctl(|c| c.edited = true);
            drop(n);
            drop(v);
            note(audit_all().map(drop));
        }
        Act::NewTree => {
            let n = small_tree();
            push_node(n);
        }
        Act::Lock => {
            let Some(n) = pick_node() else { return };
            match below(4) {
                0 => {
                    if let Ok(g) = n.tree().grant_hierarchy_edit() {
                        push(Hd::G(g));
                    }
                }
                1 => {
                    if let Ok(g) = n.tree().prohibit_hierarchy_edit() {
                        push(Hd::P(g));
                    }
                }
                2 => {
                    if let Ok(g) = n.bundle_new_hierarchy_edit_grant() {
                        push(Hd::H(g));
                    }
                }
                _ => {
                    if let Ok(g) = n.bundle_new_hierarchy_edit_prohibition() {
                        push(Hd::F(g));
                    }
                }
            }
        }
        Act::Unlock => {
            let v = sc(|s| {
                let all = std::mem::take(&mut s.h);
                let (a, b): (Vec<Hd>, Vec<Hd>) = all.into_iter().partition(|h| {
                    matches!(h, Hd::H(_) | Hd::F(_) | Hd::G(_) | Hd::P(_))
                });
                s.h = b;
                a
            });
            ctl(|c| c.edited = true);
            // The trees stay alive.
            for h in v {
                if let Some(n) = node_of(&h) {
                    drop(h);
                    push(Hd::N(n));
                } else {
                    drop(h);
                }
            }
        }
        Act::Data => {
            let Some(n) = pick_node() else { return };
            let v = fresh();
            ctl(|c| c.edited = true);
            if below(2) == 0 {
                if let Ok(d) = n.try_borrow_data_mut() {
                    d.val.set(v);
                };
            } else {
                let q = Q::new(v);
                let old = match n.try_borrow_data_mut() {
                    Ok(mut d) => {
                        // Never lose what the old value owns in a cycle.
                        Some(std::mem::replace(&mut *d, q))
                    }
                    Err(_) => None,
                };
                drop(old);
            }
        }
        Act::CloneSub => {
            let Some(n) = pick_node() else { return };
            if let Ok(c) = n.try_clone_subtree() {
                match audit_tree(&c) {
                    Ok((r, all)) => {
                        if !r.ptr_eq(&c) {
                            fail("the clone is not a root".into());
                        }
                        let _ = all;
                    }
                    Err(e) => fail(format!("clone: {e}")),
                }
                if below(2) == 0 {
                    push_node(c);
                }
            }
        }
        Act::Compare => {
            let (Some(a), Some(b)) = (pick_node(), pick_node()) else {
                return;
            };
            let _ = a.try_eq(&b);
            let _ = a.tree().try_eq(&b.tree());
        }
        Act::Print => {
            let Some(n) = pick_node() else { return };
            let _ = write!(Sink(0), "{:?}", n);
            let _ = write!(Sink(0), "{:?}", n.debug_print_subtree());
            let _ = write!(Sink(0), "{}", n.tree().debug_pretty_print());
        }
        Act::Walk => {
            // Traversers in the scene go on; the last one may release its tree.
            ctl(|c| c.edited = true);
            let mut v = sc(|s| std::mem::take(&mut s.h));
            for h in &mut v {
                match h {
                    Hd::D(d) => {
                        if let Some(e) = d.next() {
                            let n = e.into_value();
                            note(audit_tree(&n).map(drop));
                        }
                    }
                    Hd::S(d) => {
                        if let Some(n) = d.next() {
                            note(audit_tree(&n).map(drop));
                        }
                    }
                    _ => {}
                }
            }
            sc(|s| s.h.append(&mut v));
        }
        Act::Panic | Act::Fail => {}
    }
}

fn of_tree(h: &Hd, n: &Node<Q>) -> bool {
    match h {
        Hd::N(x) => x.belongs_to_same_tree(n),
        Hd::H(x) => x.plain().belongs_to_same_tree(n),
        Hd::F(x) => x.plain().belongs_to_same_tree(n),
        Hd::T(x) => n.belongs_to(x),
        Hd::G(x) => x.is_valid_for_node(n),
        Hd::P(x) => x.is_valid_for_node(n),
        Hd::D(x) => x
            .peek()
            .map_or(false, |e| e.as_value().belongs_to_same_tree(n)),
        Hd::S(x) => x.peek().map_or(false, |x| x.belongs_to_same_tree(n)),
    }
}

// ---- event sources -------------------------------------------------------

struct Source {
    left: usize,
    depth: usize,
    valid: bool,
    hint: usize,
}
impl Iterator for Source {
    type Item = Event<Q>;
    fn next(&mut self) -> Option<Event<Q>> {
        let _ = callback(K::Next);
        if self.left == 0 {
            if self.valid && self.depth > 0 {
                let d = self.depth;
                self.depth = 0;
                return Some(Event::Close(d));
            }
            return None;
        }
        self.left -= 1;
        let open = if self.valid {
            self.depth < 2 || below(2) == 0
        } else {
            below(5) < 3
        };
        Some(if open {
            self.depth += 1;
            Event::Open(Q::new(fresh()))
        } else {
            let c = if self.valid {
                1 + below(self.depth - 1)
            } else {
                below(4)
            };
            self.depth = self.depth.saturating_sub(c);
            Event::Close(c)
        })
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // Wrong hints must not matter.
        match self.hint {
            0 => (0, None),
            1 => (usize::MAX, None),
            2 => (0, Some(0)),
            _ => (7, Some(3)),
        }
    }
}

struct DftSource {
    it: DepthFirstTraverser<Q>,
}
impl Iterator for DftSource {
    type Item = DftEvent<Node<Q>>;
    fn next(&mut self) -> Option<Self::Item> {
        let _ = callback(K::Next);
        self.it.next()
    }
}

// ---- operations ----------------------------------------------------------

/// Pre-order list of node addresses (by weak handles) and values, per tree.
fn signature() -> Vec<(NodeWeak<Q>, usize, i64)> {
    let mut out = vec![];
    let mut roots: Vec<Node<Q>> = vec![];
    for n in some_nodes() {
        let r = n.root();
        if !roots.iter().any(|x| x.ptr_eq(&r)) {
            roots.push(r);
        }
    }
    for r in roots {
        for n in walk(&r).unwrap_or_default() {
            let v = n.try_borrow_data().map_or(-1, |d| d.val.get());
            out.push((n.downgrade(), n.count_ancestors(), v));
        }
    }
    out
}
fn same_signature(a: &[(NodeWeak<Q>, usize, i64)], b: &[(NodeWeak<Q>, usize, i64)]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| {
            x.1 == y.1
                && x.2 == y.2
                && match (x.0.upgrade(), y.0.upgrade()) {
                    (Some(a), Some(b)) => a.ptr_eq(&b),
                    _ => false,
                }
        })
}

fn vals(n: &Node<Q>) -> Vec<(i64, usize)> {
    walk(n)
        .unwrap_or_default()
        .iter()
        .map(|x| {
            (
                x.try_borrow_data().map_or(-1, |d| d.val.get()),
                x.num_children(),
            )
        })
        .collect()
}

fn take_tree(n: &Node<Q>) -> Vec<Hd> {
    sc(|s| {
        let all = std::mem::take(&mut s.h);
        let (a, b): (Vec<Hd>, Vec<Hd>) = all.into_iter().partition(|h| of_tree(h, n));
        s.h = b;
        a
    })
}

const OPS: usize = 15;

/// Runs one operation. Returns whether it is one which changes no tree itself.
fn operation(op: usize) -> R<bool> {
    let Some(x) = pick_node() else {
        push_node(small_tree());
        return Ok(false);
    };
    match op {
        // The last handles of a tree go away.
        0 | 1 => {
            let v = take_tree(&x);
            log(format!("drop the {} handles of a tree", v.len()));
            drop(x);
            drop(v);
            Ok(false)
        }
        // An edit leaves a part of the tree without handles.
        2 | 3 => {
            let v = take_tree(&x);
            drop(v);
            let Ok(g) = x.tree().grant_hierarchy_edit() else {
                return Ok(false);
            };
            match below(3) {
                0 => {
                    log("detach; the rest of the tree has no handles".into());
                    drop(g);
                    if let Ok(h) = x.clone().bundle_new_hierarchy_edit_grant() {
                        drop(x);
                        h.detach_subtree();
                        push(Hd::H(h));
                    }
                }
                1 => {
                    log("replace with children; the rest of the tree has no handles".into());
                    drop(g);
                    if let Ok(h) = x.clone().bundle_new_hierarchy_edit_grant() {
                        drop(x);
                        let _ = h.try_replace_with_children();
                        push(Hd::N(h.plain()));
                    }
                }
                _ => {
                    log("move; the rest of the tree has no handles".into());
                    drop(g);
                    let Some(y) = pick_node() else { return Ok(false) };
                    let Ok(hy) = y.bundle_new_hierarchy_edit_grant() else {
                        return Ok(false);
                    };
                    if let Ok(h) = x.clone().bundle_new_hierarchy_edit_grant() {
                        drop(x);
                        let _ = h.try_detach_insert_subtree(dest(below(4), &hy));
                        push(Hd::N(h.plain()));
                    }
                }
            }
            Ok(false)
        }
        // Clone.
        4 => {
            log("clone a subtree".into());
            let before = vals(&x);
            let c = match below(4) {
                0 => x.try_clone_subtree().ok(),
                1 => Some(x.clone_subtree()),
                2 => x.root().tree().try_clone_tree().ok().map(|t| t.root()),
                _ => match x.clone().bundle_new_hierarchy_edit_prohibition() {
                    Ok(f) => f.try_clone_subtree().ok(),
                    Err(_) => x.try_clone_subtree().ok(),
                },
            };
            if let Some(c) = c {
                if let Err(e) = audit_tree(&c) {
                    return dv(tag::X, format!("clone: {e}"));
                }
                ensure!(c.is_root(), tag::X, "the clone is not a root");
                if !ctl(|c| c.edited) {
                    let v = vals(&c);
                    ensure!(
                        v == before || v == vals(&x.root()),
                        tag::X,
                        "the clone differs from the source"
                    );
                }
                push_node(c);
            }
            Ok(true)
        }
        5 => {
            let Some(y) = pick_node() else { return Ok(false) };
            let Ok(hy) = y.bundle_new_hierarchy_edit_grant() else {
                return Ok(false);
            };
            let before = vals(&x);
            let d = below(4);
            log(format!("clone a subtree and insert it ({d})"));
            let r = x.try_clone_insert_subtree(dest(d, &hy));
            if let Ok(n) = r {
                if let Err(e) = audit_tree(&n.plain()) {
                    return dv(tag::X, format!("inserted clone: {e}"));
                }
                if !ctl(|c| c.edited) {
                    ensure!(
                        vals(&n.plain()) == before,
                        tag::X,
                        "the inserted clone differs from the source"
                    );
                }
            }
            Ok(false)
        }
        // Comparison.
        6 => {
            let Some(y) = pick_node() else { return Ok(false) };
            log("compare".into());
            let want = x.ptr_eq(&y) || vals(&x) == vals(&y);
            let got = match below(4) {
                0 => x.try_eq(&y).ok(),
                1 => Some(x == y),
                2 => {
                    let f = x.clone().bundle_new_hierarchy_edit_prohibition().ok();
                    match f {
                        Some(f) => Some(f == y),
                        None => Some(y == x),
                    }
                }
                _ => {
                    let h = x.clone().bundle_new_hierarchy_edit_grant().ok();
                    match h {
                        Some(h) => Some(y == h),
                        None => y.try_eq(&x).ok(),
                    }
                }
            };
            if !ctl(|c| c.edited) {
                ensure!(
                    got == Some(want),
                    tag::X,
                    "comparison is {got:?}, expected {want}"
                );
            }
            let (a, b) = (x.tree(), y.tree());
            drop((x, y));
            let _ = a.try_eq(&b);
            let _ = a == b;
            Ok(true)
        }
        // Formatting.
        7 | 8 => {
            log("format".into());
            let alt = below(2) == 0;
            let mut s = Sink(0);
            let r = match below(9) {
                0 if alt => write!(s, "{:#?}", x),
                0 => write!(s, "{:?}", x),
                1 if alt => write!(s, "{:#?}", x.debug_print_subtree()),
                1 => write!(s, "{:?}", x.debug_print_subtree()),
                2 => write!(s, "{:?}", x.debug_pretty_print()),
                3 => write!(s, "{}", x.debug_pretty_print()),
                4 if alt => write!(s, "{:#}", x.tree().debug_pretty_print()),
                4 => write!(s, "{:#?}", x.tree().debug_pretty_print()),
                5 => write!(s, "{:?}", x.tree().debug_print()),
                6 => match x.clone().bundle_new_hierarchy_edit_grant() {
                    Ok(h) => write!(s, "{:?} {:?}", h, h.debug_print_subtree()),
                    Err(_) => Ok(()),
                },
                7 => match x.clone().bundle_new_hierarchy_edit_prohibition() {
                    Ok(h) => write!(s, "{:?} {:?}", h, h.debug_print_subtree()),
                    Err(_) => Ok(()),
                },
                _ => write!(s, "{:?} {:?}", x.depth_first_traverse(), x.children()),
            };
            let hooked = ctl(|c| c.fired[3] + c.fired[5] > 0);
            ensure!(
                r.is_ok() || hooked,
                tag::X,
                "formatting failed although nothing the user supplied failed"
            );
            Ok(true)
        }
        // Event sources.
        9 => {
            let src = Source {
                left: 1 + below(10),
                depth: 0,
                valid: below(3) > 0,
                hint: below(4),
            };
            log(format!("build from {} events", src.left));
            match below(4) {
                0 => {
                    let r: Result<Node<Q>, TreeBuildError> = src.collect();
                    if let Ok(n) = r {
                        push_node(n);
                    }
                }
                1 => {
                    let r: Result<Tree<Q>, TreeBuildError> = src.collect();
                    if let Ok(n) = r {
                        push(Hd::T(n));
                    }
                }
                2 => {
                    let r: Result<HotNode<Q>, TreeBuildError> = src.collect();
                    if let Ok(n) = r {
                        push(Hd::H(n));
                    }
                }
                _ => {
                    let r: Result<FrozenNode<Q>, TreeBuildError> = src.collect();
                    if let Ok(n) = r {
                        push(Hd::F(n));
                    }
                }
            }
            Ok(true)
        }
        10 => {
            let Ok(h) = x.bundle_new_hierarchy_edit_grant() else {
                return Ok(false);
            };
            let src = Source {
                left: 1 + below(8),
                depth: 1,
                valid: below(3) > 0,
                hint: below(4),
            };
            log(format!("build under a node from {} events", src.left));
            let mut b = TreeBuilder::with_root(h);
            let r = guarded(|| b.push_events(src));
            ensure!(
                b.is_root_available(),
                tag::X,
                "the builder has lost its root, pushing events gave {r:?}"
            );
            let closed = b.is_root_closed();
            let o = b.open(Q::new(fresh()));
            ensure!(
                o.is_err() == closed,
                tag::X,
                "the root is closed: {closed}, opening a node gives {o:?}"
            );
            if below(3) == 0 {
                drop(b);
                b = TreeBuilder::new();
            }
            if let Err(Some(p)) = r {
                return dv(tag::PANIC, format!("building panicked on its own: {p}"));
            }
            if below(2) == 0 {
                let _ = b.close(1 + below(4));
                let _ = b.open(Q::new(fresh()));
            }
            if below(2) == 0 {
                if let Ok(n) = b.finish() {
                    push_node(n);
                }
            }
            Ok(false)
        }
        11 => {
            log("rebuild from traversal events".into());
            let src = DftSource {
                it: x.depth_first_traverse(),
            };
            if below(2) == 0 {
                let r: Result<Node<Q>, TreeBuildError> = src.collect();
                if let Ok(n) = r {
                    push_node(n);
                }
            } else {
                let mut b = TreeBuilder::new();
                if below(2) == 0 {
                    let _ = b.open(Q::new(fresh()));
                }
                let had = b.is_root_available();
                let r = guarded(|| b.push_dft_events(src));
                ensure!(
                    b.is_root_available() || !had,
                    tag::X,
                    "the builder has lost its root, pushing events gave {r:?}"
                );
                if let Err(Some(p)) = r {
                    return dv(tag::PANIC, format!("rebuilding panicked on its own: {p}"));
                }
                if let Some(n) = b.finish_opt() {
                    push_node(n);
                }
            }
            Ok(true)
        }
        12 => {
            log("serialise".into());
            let mut n = 0;
            for e in x.to_events() {
                n += 1;
                // Re-entrant edits may move the traversal; they are limited.
                if n > 5000 {
                    return dv(tag::X, "serialisation does not end");
                }
                if below(4) > 0 {
                    drop(e);
                }
            }
            Ok(true)
        }
        // The old data is dropped while it is mutably borrowed.
        13 => {
            log("assign data".into());
            let q = Q::new(fresh());
            if let Ok(mut d) = x.try_borrow_data_mut() {
                *d = q;
            }
            Ok(false)
        }
        // The data given to a refused operation is dropped in it.
        _ => {
            log("create a sibling of a root".into());
            let r = x.root();
            drop(x);
            if let Ok(g) = r.tree().grant_hierarchy_edit() {
                let e = r.try_create_node_as(
                    &g,
                    Q::new(fresh()),
                    if below(2) == 0 {
                        AdoptAs::NextSibling
                    } else {
                        AdoptAs::PreviousSibling
                    },
                );
                if e.is_ok() && !ctl(|c| c.edited) {
                    return dv(tag::X, "the root got a sibling");
                }
            }
            if let Ok(h) = r.clone().bundle_new_hierarchy_edit_grant() {
                let _ = h.try_create_as_prev_sibling(Q::new(fresh()));
            }
            Ok(true)
        }
    }
}

fn random_plan(rng: &mut Rng, op: usize) -> Option<Plan> {
    if rng.chance(1, 10) {
        return None;
    }
    let kind = if rng.chance(1, 6) {
        *rng.pick(&KINDS)
    } else {
        match op {
            0..=3 | 13 | 14 => K::Drop,
            4 | 5 => K::Clone,
            12 => K::Clone,
            6 => K::Eq,
            7 => K::Fmt,
            8 => *rng.pick(&[K::Fmt, K::Sink]),
            9 | 10 => K::Next,
            _ => *rng.pick(&[K::Next, K::Clone]),
        }
    };
    let at = if rng.chance(1, 3) {
        None
    } else {
        let n = *rng.pick(&[1, 2, 4, 8]);
        Some(rng.below(n))
    };
    let mut acts = vec![];
    for _ in 0..rng.range(1, 3) {
        let a = *rng.pick(&ACTS);
        if a != Act::Fail || matches!(kind, K::Fmt | K::Sink) {
            acts.push(a);
        }
    }
    if acts.is_empty() {
        acts.push(Act::Audit);
    }
    Some(Plan { kind, at, acts })
}

/// Runs the function as the operation of a step and audits afterwards.
fn step(name: &str, plan: Option<Plan>, f: impl FnOnce() -> R<bool>) -> R<bool> {
    let sig = signature();
    ctl(|c| {
        c.log.push(format!("step {name}, plan {plan:?}"));
        c.calls = [0; 6];
        c.fired = [0; 6];
        c.depth = 0;
        c.budget = 12;
        c.injected = false;
        c.edited = false;
        c.plan = plan;
    });
    let r = guarded(f);
    let injected = ctl(|c| {
        c.plan = None;
        c.depth = 0;
        c.injected
    });
    if let Some(e) = ctl(|c| c.err.take()) {
        return dv(tag::X, e);
    }
    let pure = match r {
        Ok(r) => r?,
        Err(None) if injected => false,
        Err(None) => return dv(0, "harness: injected panic without injection"),
        Err(Some(m)) => {
            if m.contains(" at src/") {
                return dv(0, format!("harness panic: {m}"));
            }
            return dv(tag::PANIC, format!("the operation panicked on its own: {m}"));
        }
    };
    if let Some(m) = ledger_misuse() {
        return dv(tag::X, m);
    }
    if let Err(e) = audit_all() {
        return dv(tag::X, format!("after the operation: {e}"));
    }
    if let Err(e) = audit_locks() {
        return dv(tag::X, format!("after the operation: {e}"));
    }
    if let Err(e) = use_weak() {
        return dv(tag::X, format!("after the operation: {e}"));
    }
    if pure && !ctl(|c| c.edited) {
        // Trees may have been added, the old ones come first.
        let now = signature();
        ensure!(
            now.len() >= sig.len() && same_signature(&sig, &now[..sig.len()]),
            tag::X,
            "an operation which edits nothing changed a tree"
        );
    }
    Ok(injected)
}

pub fn run(st: &mut Stats, rng: &mut Rng, trace: &mut Vec<String>) -> R<()> {
    CT.with(|c| {
        *c.borrow_mut() = Some(Ctl {
            rng: Rng::new(rng.u64()),
            plan: None,
            calls: [0; 6],
            depth: 0,
            budget: 0,
            injected: false,
            edited: false,
            err: None,
            log: vec![],
            fired: [0; 6],
            acts: vec![],
            audits: 0,
            upgraded: 0,
            upgrade_none: 0,
            val: 100,
        });
    });
    let r = catch(|| case(st, rng));
    let c = CT.with(|c| c.borrow_mut().take()).expect("harness: control");
    *trace = c.log;
    st.add(ct::USER2, c.upgraded);
    st.add(ct::USER3, c.upgrade_none);
    st.add(ct::AUDITS, c.audits);
    // Leave nothing behind for the next case.
    let left = sc(std::mem::take);
    let clean = catch(|| drop(left));
    match r {
        Ok(r) => {
            r?;
            if let Err(m) = clean {
                return crate::outer_panic(m);
            }
            Ok(())
        }
        Err(m) => crate::outer_panic(m),
    }
}

fn case(st: &mut Stats, rng: &mut Rng) -> R<()> {
    for _ in 0..rng.range(1, 4) {
        let n = rng.range(1, 7);
        let spec = random_spec(rng, n, 4);
        let style = rng.below(6);
        let nodes = realize_spec(rng, &spec, &Q::new, style);
        let keep = rng.below(3);
        for (i, n) in nodes.iter().enumerate() {
            sc(|s| s.weak.push(n.downgrade()));
            if rng.chance(1, 8) {
                // The data owns handles of further trees.
                let t = small_tree();
                let o = match rng.below(5) {
                    0 => Own::T(t.tree()),
                    1 => Own::G(t.tree().grant_hierarchy_edit().expect("harness: grant")),
                    2 => Own::F(
                        t.bundle_new_hierarchy_edit_prohibition()
                            .expect("harness: prohibition"),
                    ),
                    3 => Own::W(n.downgrade()),
                    _ => Own::N(t),
                };
                n.borrow_data().own.borrow_mut().push(o);
            }
            match keep {
                0 if i > 0 => {}
                1 if rng.bool() => {}
                _ => push_node(n.clone()),
            }
        }
    }
    let rounds = rng.range(1, 5);
    for _ in 0..rounds {
        if sc(|s| s.h.is_empty()) {
            push_node(small_tree());
        }
        let op = rng.below(OPS);
        let plan = random_plan(rng, op);
        let h = plan
            .as_ref()
            .map_or(0, |p| hash2(p.kind as u64 + 1, p.at.map_or(99, |a| a as u64)));
        let r = step(&format!("op {op}"), plan, || operation(op));
        account(st, op as u64, h);
        if r? {
            st.inc(ct::USER4);
        }
    }
    // Everything goes away, with callbacks.
    let plan = random_plan(rng, 0);
    let r = step("drop all", plan, || {
        for _ in 0..4 {
            let s = sc(|s| std::mem::take(&mut s.h));
            drop(s);
        }
        Ok(false)
    });
    account(st, 77, 0);
    if r? {
        st.inc(ct::USER4);
    }
    // Without callbacks now.
    for _ in 0..8 {
        let s = sc(std::mem::take);
        drop(s);
    }
    ensure!(
        ledger_misuse().is_none(),
        tag::X,
        "{}",
        ledger_misuse().unwrap_or("")
    );
    ensure!(
        ledger_live() == 0,
        tag::X,
        "{} values were not dropped although all handles are gone",
        ledger_live()
    );
    Ok(())
}

/// Counts what the callbacks did.
fn account(st: &mut Stats, op: u64, plan: u64) {
    st.inc(ct::OPS);
    let acts = ctl(|c| std::mem::take(&mut c.acts));
    for (k, a) in &acts {
        st.inc(ct::USER1);
        st.seen(hash2(hash2(op, plan), hash2(*k as u64, *a as u64)));
    }
    let n: usize = ctl(|c| c.calls.iter().sum());
    st.add(ct::ITEMS, n);
}
