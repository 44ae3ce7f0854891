//! C21: programs of public operations, whose observable results are recorded
//! and compared between build configurations by the driver.
//!
//! There is no model here: the text of everything which is observed is hashed.
//! Operations without documented panics must not panic in any configuration.

use dendron::serial::{Event, TreeBuildError, TreeBuilder};
use dendron::traverse::{
    AllocatingBreadthFirstTraverser, AncestorsTraverser, DepthFirstTraverser, DftEvent,
    NonAllocatingBreadthFirstTraverser, ReverseDepthFirstTraverser, ReverseSiblingsTraverser,
    SiblingsTraverser, StableDepthFirstTraverser, StableShallowDepthFirstTraverser,
    StableSiblingsTraverser,
};
use dendron::tree::{HierarchyEditGrant, HierarchyEditProhibition};
use dendron::{FrozenNode, HotNode, Node, NodeWeak, Tree, TreeWeak};

use crate::cloneq::{random_spec, realize_spec};
use crate::nav::Nav;
use crate::payload::*;
use crate::rng::{hash2, Rng};
use crate::world::{ct, dv, rf_of, tag, Stats, DESTS, R};

enum Hd {
    N(Node<P>),
    H(HotNode<P>),
    F(FrozenNode<P>),
    T(Tree<P>),
    G(HierarchyEditGrant<P>),
    Pr(HierarchyEditProhibition<P>),
    Dft(DepthFirstTraverser<P>),
    RDft(ReverseDepthFirstTraverser<P>),
    Sib(SiblingsTraverser<P>),
    RSib(ReverseSiblingsTraverser<P>),
    Anc(AncestorsTraverser<P>),
    SDft(StableDepthFirstTraverser<P>),
    Sha(StableShallowDepthFirstTraverser<P>),
    SSib(StableSiblingsTraverser<P>),
    NB(NonAllocatingBreadthFirstTraverser<P>),
    AB(AllocatingBreadthFirstTraverser<P>),
    Ev(dendron::serial::TreeSerializeIter<P>),
    B(TreeBuilder<P>),
}

struct M<'s> {
    rng: Rng,
    st: &'s mut Stats,
    h: Vec<Hd>,
    nw: Vec<NodeWeak<P>>,
    tw: Vec<TreeWeak<P>>,
    digest: u64,
    log: Option<Vec<String>>,
    tail: Vec<String>,
    val: i64,
    /// The first panic where none is documented.
    bad: Option<String>,
}

fn nm(n: &Node<P>) -> String {
    match n.try_borrow_data() {
        Ok(d) => format!("{}", d.val),
        Err(_) => "?".into(),
    }
}
fn nmo(n: Option<Node<P>>) -> String {
    n.map_or("-".into(), |n| nm(&n))
}
fn nmv(v: impl IntoIterator<Item = Node<P>>) -> String {
    let v: Vec<String> = v.into_iter().take(60).map(|n| nm(&n)).collect();
    v.join(" ")
}
fn evs<N: Nav>(e: &DftEvent<N>) -> String {
    match e {
        DftEvent::Open(n) => format!("<{}", nm(&n.pl())),
        DftEvent::Close(n) => format!("{}>", nm(&n.pl())),
    }
}
fn evd(e: &DftEvent<(FrozenNode<P>, usize)>) -> String {
    match e {
        DftEvent::Open((n, d)) => format!("<{}:{d}", nm(&n.plain())),
        DftEvent::Close((n, d)) => format!("{}:{d}>", nm(&n.plain())),
    }
}
fn sev(e: &Event<P>) -> String {
    match e {
        Event::Open(p) => format!("<{}", p.val),
        Event::Close(n) => format!("{n}>"),
    }
}
fn err(e: &TreeBuildError) -> String {
    let k = match e {
        TreeBuildError::RootNotOpened => "RootNotOpened",
        TreeBuildError::RootClosed => "RootClosed",
        TreeBuildError::BorrowData(_) => "BorrowData",
    };
    format!("{k}: {e}")
}
fn shape(n: &Node<P>) -> String {
    let mut s = String::new();
    let mut k = 0;
    for e in n.depth_first_traverse() {
        k += 1;
        if k > 400 {
            s.push_str("...");
            break;
        }
        match e {
            DftEvent::Open(n) => {
                s.push_str(&nm(&n));
                s.push('(');
            }
            DftEvent::Close(_) => s.push(')'),
        }
    }
    s
}

impl M<'_> {
    fn o(&mut self, s: String) {
        let mut h = self.digest;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.digest = hash2(h, s.len() as u64);
        self.st.inc(ct::ITEMS);
        if let Some(l) = &mut self.log {
            l.push(s);
        } else {
            if self.tail.len() > 40 {
                self.tail.remove(0);
            }
            self.tail.push(s);
        }
    }
    /// An operation without documented panics.
    fn plain<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.o(format!("{what}: PANIC"));
                if self.bad.is_none() {
                    self.bad = Some(format!("{what}: {m}"));
                }
                None
            }
        }
    }
    /// An operation which may panic by its documentation.
    fn may<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err(_) => {
                self.st.inc(ct::USER2);
                self.o(format!("{what}: panics"));
                None
            }
        }
    }
    fn fresh(&mut self) -> P {
        self.val += 1;
        P::new(self.val)
    }
    fn nodes(&self) -> Vec<Node<P>> {
        self.h
            .iter()
            .filter_map(|h| {
                Some(match h {
                    Hd::N(n) => n.clone(),
                    Hd::H(n) => n.plain(),
                    Hd::F(n) => n.plain(),
                    Hd::T(t) => t.root(),
                    Hd::Dft(d) => d.peek()?.as_value().clone(),
                    Hd::Sib(d) => d.peek()?.clone(),
                    Hd::Anc(d) => d.peek()?.clone(),
                    _ => return None,
                })
            })
            .collect()
    }
    fn pick(&mut self) -> Node<P> {
        let v = self.nodes();
        if v.is_empty() {
            let p = self.fresh();
            let n = Node::new_tree(p);
            self.keep(n.clone());
            return n;
        }
        let n = v[self.rng.below(v.len())].clone();
        if self.rng.bool() {
            return n;
        }
        let all: Vec<Node<P>> = n
            .root()
            .depth_first_traverse()
            .filter_map(DftEvent::into_open)
            .take(200)
            .collect();
        all[self.rng.below(all.len())].clone()
    }
    fn push(&mut self, h: Hd) {
        if self.h.len() >= 14 {
            let i = self.rng.below(self.h.len());
            let old = std::mem::replace(&mut self.h[i], h);
            drop(old);
        } else {
            self.h.push(h);
        }
    }
    fn keep(&mut self, n: Node<P>) {
        if self.nw.len() < 24 {
            self.nw.push(n.downgrade());
            self.tw.push(n.tree().downgrade());
        }
        let h = match self.rng.below(14) {
            0 => Hd::T(n.tree()),
            1 => Hd::Dft(n.depth_first_traverse()),
            2 => Hd::Sib(n.siblings()),
            3 => Hd::Anc(n.ancestors_or_self()),
            _ => Hd::N(n),
        };
        self.push(h);
    }
    fn edited(&mut self, what: &str, r: Result<Node<P>, dendron::HierarchyError>) {
        match r {
            Ok(n) => {
                self.st.inc(ct::EDIT_OK);
                let s = shape(&n.root());
                self.o(format!("{what}: {} in {s}", nm(&n)));
                if self.rng.chance(2, 3) {
                    self.keep(n);
                }
            }
            Err(e) => {
                self.st.inc(ct::EDIT_REFUSED);
                self.o(format!("{what}: {:?}: {e}", rf_of(&e)));
            }
        }
    }

    fn edit(&mut self) {
        let x = self.pick();
        let hot = self.rng.bool();
        let d = *self.rng.pick(&DESTS);
        if hot {
            let Ok(h) = x.clone().bundle_new_hierarchy_edit_grant() else {
                self.st.inc(ct::EDIT_LOCKED);
                self.o("locked".into());
                return;
            };
            drop(x);
            match self.rng.below(9) {
                0 | 1 => {
                    let p = self.fresh();
                    let r = self.plain("create", || {
                        h.try_create_node_as(p, d.adopt()).map(|n| n.plain())
                    });
                    if let Some(r) = r {
                        self.edited("create", r);
                    }
                }
                2 => {
                    let p = self.fresh();
                    let r = self.plain("interrupt", || h.create_as_interrupting_parent(p).plain());
                    if let Some(r) = r {
                        self.edited("parent", Ok(r));
                    }
                }
                3 => {
                    let p = self.fresh();
                    let r = self.plain("interrupt", || h.create_as_interrupting_child(p).plain());
                    if let Some(r) = r {
                        self.edited("child", Ok(r));
                    }
                }
                4 => {
                    self.plain("detach", || h.detach_subtree());
                    self.edited("detach", Ok(h.plain()));
                }
                5 => {
                    let r = self.plain("replace", || h.try_replace_with_children());
                    if let Some(r) = r {
                        self.edited("replace", r.map(|()| h.plain()));
                    }
                }
                6 => {
                    let y = self.pick();
                    if let Ok(hy) = y.bundle_new_hierarchy_edit_grant() {
                        let r = self.plain("move", || h.try_detach_insert_subtree(d.insert(&hy)));
                        if let Some(r) = r {
                            self.edited("move", r.map(|()| h.plain()));
                        }
                    }
                }
                7 => {
                    let y = self.pick();
                    if let Ok(hy) = y.bundle_new_hierarchy_edit_grant() {
                        let r = self.plain("clone insert", || {
                            h.try_clone_insert_subtree(d.insert(&hy)).map(|n| n.plain())
                        });
                        if let Some(r) = r {
                            self.edited("clone insert", r);
                        }
                    }
                }
                _ => {
                    // Panicking forms.
                    let y = self.pick();
                    if let Ok(hy) = y.bundle_new_hierarchy_edit_grant() {
                        if self.may("move", || h.detach_insert_subtree(d.insert(&hy))).is_some() {
                            self.edited("move", Ok(h.plain()));
                        }
                    }
                }
            }
            if self.rng.chance(1, 4) {
                self.push(Hd::H(h));
            }
            return;
        }
        let Ok(g) = x.tree().grant_hierarchy_edit() else {
            self.st.inc(ct::EDIT_LOCKED);
            self.o("locked".into());
            return;
        };
        // Now and then a grant of another tree.
        let (g, own) = if self.rng.chance(1, 25) {
            let y = self.pick();
            let own = y.belongs_to_same_tree(&x);
            match y.tree().grant_hierarchy_edit() {
                Ok(g2) => (g2, own),
                Err(_) => (g, true),
            }
        } else {
            (g, true)
        };
        let p = self.fresh();
        let k = self.rng.below(9);
        let y = self.pick().bundle_new_hierarchy_edit_grant().ok();
        let panicking = self.rng.chance(1, 4);
        let f = || -> Result<Node<P>, dendron::HierarchyError> {
            match k {
                0 | 1 if panicking => Ok(x.create_node_as(&g, p, d.adopt())),
                0 | 1 => x.try_create_node_as(&g, p, d.adopt()),
                2 => Ok(x.create_as_interrupting_parent(&g, p)),
                3 => Ok(x.create_as_interrupting_child(&g, p)),
                4 => {
                    x.detach_subtree(&g);
                    Ok(x.clone())
                }
                5 if panicking => {
                    x.replace_with_children(&g);
                    Ok(x.clone())
                }
                5 => x.try_replace_with_children(&g).map(|()| x.clone()),
                6 | 7 => match &y {
                    Some(y) if panicking => {
                        x.detach_insert_subtree(&g, d.insert(y));
                        Ok(x.clone())
                    }
                    Some(y) => x
                        .try_detach_insert_subtree(&g, d.insert(y))
                        .map(|()| x.clone()),
                    None => Ok(x.create_as_first_child(&g, p)),
                },
                _ => match &y {
                    Some(y) if panicking => Ok(x.clone_insert_subtree(d.insert(y)).plain()),
                    Some(y) => x.try_clone_insert_subtree(d.insert(y)).map(|n| n.plain()),
                    None => Ok(x.create_as_last_child(&g, p)),
                },
            }
        };
        let r = if own && !panicking {
            self.plain("edit", f)
        } else {
            self.may("edit", f)
        };
        if let Some(r) = r {
            self.edited(&format!("edit {k}"), r);
        }
        if self.rng.chance(1, 6) {
            self.push(Hd::G(g));
        }
    }

    fn navigate<N: Nav>(&mut self, n: &N) {
        let r = self.plain("navigate", || {
            let (a, b) = n.first_last_sibling_();
            format!(
                "nav {}: {} {} {} {} {} {} {} {} {:?} {} {} {} {} {} {} {} {} {} {} {} {}",
                nm(&n.pl()),
                nmo(n.parent_()),
                nmo(n.prev_sibling_()),
                nmo(n.next_sibling_()),
                nm(&n.first_sibling_()),
                nm(&n.last_sibling_()),
                nm(&a),
                nm(&b),
                nmo(n.first_child_()),
                n.first_last_child_().map(|(a, b)| (nm(&a), nm(&b))),
                nmo(n.last_child_()),
                n.has_prev_sibling_(),
                n.has_next_sibling_(),
                n.num_children_(),
                n.has_children_(),
                n.has_one_child_(),
                n.has_multiple_children_(),
                n.count_children_(),
                n.count_preceding_(),
                n.count_following_(),
                n.count_ancestors_(),
                nm(&n.root_()),
            )
        });
        if let Some(s) = r {
            self.st.inc(ct::NAV);
            self.o(s);
        }
        let r = self.plain("iterators", || {
            let mut s = vec![];
            s.push(n.dft_().take(80).map(|e| evs(&e)).collect::<Vec<_>>().join(" "));
            s.push(n.rdft_().take(80).map(|e| evs(&e)).collect::<Vec<_>>().join(" "));
            s.push(nmv(n.t_children()));
            s.push(nmv(n.t_children_rev()));
            s.push(nmv(n.t_ancestors()));
            s.push(nmv(n.t_ancestors_or_self()));
            s.push(nmv(n.t_siblings()));
            s.push(nmv(n.t_siblings_rev()));
            s.push(nmv(n.t_prec_self_rev()));
            s.push(nmv(n.t_prec_rev()));
            s.push(nmv(n.t_foll_self()));
            s.push(nmv(n.t_foll()));
            s.join(" | ")
        });
        if let Some(s) = r {
            self.o(s);
        }
    }

    /// Makes an iterator and keeps it.
    fn iterator(&mut self) {
        let x = self.pick();
        let k = self.rng.below(17);
        let depth = *self.rng.pick(&[0, 0, 1, 2, 3, 7, 9, usize::MAX - 1, usize::MAX]);
        let depth = if depth == 9 { self.rng.edge() } else { depth };
        if k < 7 {
            let h = match k {
                0 => Hd::Dft(x.depth_first_traverse()),
                1 => Hd::RDft(x.depth_first_reverse_traverse()),
                2 => Hd::Sib(x.children()),
                3 => Hd::RSib(x.siblings_reverse()),
                4 => Hd::Anc(x.ancestors()),
                5 => Hd::Ev(x.to_events()),
                _ => Hd::RSib(x.preceding_siblings_or_self_reverse()),
            };
            self.push(h);
            return;
        }
        let Ok(f) = x.bundle_new_hierarchy_edit_prohibition() else {
            self.o("no prohibition".into());
            return;
        };
        let max = self.rng.bool().then(|| depth);
        let h = self.plain("make iterator", || match k {
            7 | 8 => Hd::SDft(f.depth_first_traverse_stable()),
            9 | 10 => Hd::Sha(f.shallow_depth_first_traverse_stable(max)),
            11 => Hd::SSib(f.children_stable()),
            12 => Hd::SSib(f.siblings_stable()),
            13 => Hd::SSib(f.preceding_siblings_or_self_stable()),
            14 => Hd::SSib(f.following_siblings_stable()),
            15 => Hd::NB(f.non_allocating_breadth_first_traverse_stable(depth)),
            _ => Hd::AB(f.allocating_breadth_first_traverse_stable(depth)),
        });
        if let Some(h) = h {
            self.push(h);
        }
    }

    /// Advances a kept iterator or builder.
    fn advance(&mut self) {
        let its: Vec<usize> = (0..self.h.len())
            .filter(|i| {
                !matches!(
                    self.h[*i],
                    Hd::N(_) | Hd::H(_) | Hd::F(_) | Hd::T(_) | Hd::G(_) | Hd::Pr(_)
                )
            })
            .collect();
        if its.is_empty() {
            return self.iterator();
        }
        let i = its[self.rng.below(its.len())];
        let mut h = self.h.swap_remove(i);
        let how = self.rng.below(9);
        let k = *self.rng.pick(&[0, 1, 2, 5, usize::MAX]);
        macro_rules! step {
            ($it:expr, $f:expr) => {{
                let it = $it;
                match how {
                    0..=4 => {
                        let n = it.next();
                        let a = n.as_ref().map($f);
                        let h = it.size_hint();
                        format!("next {a:?} {h:?}")
                    }
                    5 => {
                        let c = it.clone().take(300).count();
                        format!("count {c}")
                    }
                    6 => {
                        let c = it.clone().take(300).last();
                        format!("last {:?}", c.as_ref().map($f))
                    }
                    7 => {
                        let c = it.nth(k);
                        format!("nth {:?}", c.as_ref().map($f))
                    }
                    _ => {
                        let c: Vec<String> = it.clone().take(60).map(|e| ($f)(&e)).collect();
                        format!("rest {}", c.join(" "))
                    }
                }
            }};
        }
        macro_rules! both {
            ($it:expr, $f:expr) => {{
                let it = $it;
                match how {
                    1 | 2 => format!("back {:?}", it.next_back().as_ref().map($f)),
                    3 => format!(
                        "peek {:?} {:?}",
                        it.peek().map($f),
                        it.peek_back().map($f)
                    ),
                    5 => format!("nth back {:?}", it.nth_back(k).as_ref().map($f)),
                    _ => step!(it, $f),
                }
            }};
        }
        let (v, mut rng) = (self.fresh(), self.rng.clone());
        let s = self.plain("advance", || match &mut h {
            Hd::Dft(d) if how == 3 => format!("close {}", nmo(d.close_current())),
            Hd::Dft(d) => step!(d, evs),
            Hd::RDft(d) => step!(d, evs),
            Hd::Sib(d) => step!(d, nm),
            Hd::RSib(d) => step!(d, nm),
            Hd::Anc(d) => step!(d, nm),
            Hd::SDft(d) if how == 4 => {
                format!("close {}", nmo(d.close_current().map(|n| n.plain())))
            }
            Hd::SDft(d) => both!(d, evs),
            Hd::Sha(d) if how == 4 => {
                let c = d.close_current();
                format!("close {:?} {}", c.map(|(n, k)| (nm(&n.plain()), k)), d.max_depth())
            }
            Hd::Sha(d) => both!(d, evd),
            Hd::SSib(d) => both!(d, |n: &FrozenNode<P>| nm(&n.plain())),
            Hd::NB(d) => step!(d, |(n, k): &(FrozenNode<P>, usize)| format!("{}:{k}", nm(&n.plain()))),
            Hd::AB(d) if how == 4 => {
                d.shrink_to_fit();
                d.shrink_to(k.min(100));
                format!("peek {:?}", d.peek().map(|(n, k)| (nm(&n.plain()), k)))
            }
            Hd::AB(d) => step!(d, |(n, k): &(FrozenNode<P>, usize)| format!("{}:{k}", nm(&n.plain()))),
            Hd::Ev(d) => step!(d, |e: &Result<Event<P>, _>| match e {
                Ok(e) => sev(e),
                Err(_) => "borrowed".into(),
            }),
            Hd::B(b) => {
                let r = match how {
                    0..=3 => b.open(v),
                    4 => b.close(1),
                    5 => {
                        let k = *rng.pick(&[0, 1, 2, 3, 4, usize::MAX]);
                        b.close(if k == 4 { rng.edge() } else { k })
                    },
                    6 => b.push_event(Event::Open(v)),
                    7 => b.push_event(Event::Close(2)),
                    _ => b.push_events([Event::Open(v), Event::Close(1), Event::Close(1)]),
                };
                format!(
                    "builder {:?} {} {}",
                    r.map_err(|e| err(&e)),
                    b.is_root_closed(),
                    b.is_root_available()
                )
            }
            _ => String::new(),
        });
        if let Some(s) = s {
            self.o(s);
        }
        self.h.push(h);
    }

    fn print(&mut self) {
        let x = self.pick();
        let y = self.pick();
        let borrow = self.rng.below(5);
        let s = self.plain("print", || {
            let m = (borrow == 0).then(|| y.try_borrow_data_mut().ok()).flatten();
            let mut s = String::new();
            // Debug formats are compared between configurations only.
            s += &format!("{:?} {:#?} ", x, x);
            s += &format!("{:?} ", x.debug_print_local());
            s += &format!("{:?} {:#?}", x.debug_print_subtree(), x.debug_print_subtree());
            s += &format!("{:?} {}", x.debug_pretty_print(), x.debug_pretty_print());
            s += &format!("{:#?} {:#}", x.debug_pretty_print(), x.debug_pretty_print());
            let t = x.tree();
            s += &format!("{:?} {:?} {:?}", t, t.debug_print_local(), t.debug_print());
            s += &format!("{} {:#?}", t.debug_pretty_print(), t.debug_pretty_print());
            s += &format!("{:?}", x.depth_first_traverse());
            drop(m);
            s
        });
        if let Some(s) = s {
            // Addresses never belong to a comparison; there should not be any.
            self.st.inc(ct::USER3);
            self.o(s);
        }
    }

    fn locks(&mut self) {
        let x = self.pick();
        let t = x.tree();
        let s = match self.rng.below(10) {
            0 => match t.grant_hierarchy_edit() {
                Ok(g) => {
                    self.push(Hd::G(g));
                    "granted".into()
                }
                Err(e) => format!("{e:?} {e}"),
            },
            1 => match t.prohibit_hierarchy_edit() {
                Ok(g) => {
                    self.push(Hd::Pr(g));
                    "prohibited".into()
                }
                Err(e) => format!("{e:?} {e}"),
            },
            2 => match x.bundle_new_hierarchy_edit_grant() {
                Ok(g) => {
                    let r = self.plain("extract", || g.extract_hierarchy_edit_grant());
                    if let Some(r) = r {
                        self.push(Hd::G(r));
                    }
                    self.push(Hd::H(g));
                    "hot".into()
                }
                Err(e) => format!("{e:?} {e}"),
            },
            3 => match x.bundle_new_hierarchy_edit_prohibition() {
                Ok(g) => {
                    let r = self.plain("extract", || g.extract_hierarchy_edit_prohibition());
                    if let Some(r) = r {
                        self.push(Hd::Pr(r));
                    }
                    self.push(Hd::F(g));
                    "frozen".into()
                }
                Err(e) => format!("{e:?} {e}"),
            },
            _ => {
                let i = self.rng.below(self.h.len());
                let h = self.h.swap_remove(i);
                let s = match &h {
                    Hd::G(g) => {
                        let ok = g.is_valid_for_node(&x);
                        let c = g.try_clone().map(|c| self.push(Hd::G(c))).is_ok();
                        let b = self.may("bundle", || x.clone().bundle_hierarchy_edit_grant(g));
                        let b = b.map(|b| self.push(Hd::H(b))).is_some();
                        format!("grant {ok} {c} {b}")
                    }
                    Hd::Pr(g) => {
                        let ok = g.is_valid_for_node(&x);
                        let c = g.try_clone().map(|c| self.push(Hd::Pr(c))).is_ok();
                        let b = self.may("bundle", || x.clone().bundle_hierarchy_edit_prohibition(g));
                        let b = b.map(|b| self.push(Hd::F(b))).is_some();
                        format!("prohibition {ok} {c} {b}")
                    }
                    Hd::H(g) => {
                        self.push(Hd::H(g.clone()));
                        format!("hot {:?}", g.plain().belongs_to_same_tree(&x))
                    }
                    Hd::F(g) => {
                        self.push(Hd::F(g.clone()));
                        format!("frozen {:?}", g.plain().belongs_to_same_tree(&x))
                    }
                    Hd::T(g) => format!("tree {} {}", x.belongs_to(g), g.ptr_eq(&x.tree())),
                    _ => String::new(),
                };
                self.h.push(h);
                s
            }
        };
        self.o(s);
    }

    fn data(&mut self) {
        let x = self.pick();
        match self.rng.below(3) {
            0 => {
                let p = self.fresh();
                *x.borrow_data_mut() = p;
                self.o("set".into());
            }
            1 => {
                let r = x.borrow_data();
                let a = x.try_borrow_data().is_ok();
                let b = x.try_borrow_data_mut().is_ok();
                let c = self.may("borrow", || drop(x.borrow_data_mut())).is_some();
                drop(r);
                self.o(format!("{a} {b} {c}"));
            }
            _ => {
                let r = x.borrow_data_mut();
                let a = x.try_borrow_data().is_ok();
                let b = x.try_borrow_data_mut().is_ok();
                let e = x.try_clone_subtree().map(|_| ()).is_err();
                let q = x.try_eq(&self.pick()).is_err();
                let c = self.may("borrow", || drop(x.borrow_data())).is_some();
                let d = self.may("clone", || drop(x.clone_subtree())).is_some();
                let y = self.pick();
                let f = self.may("compare", || x == y);
                let v: Vec<bool> = x.to_events().take(50).map(|e| e.is_ok()).collect();
                drop(r);
                self.o(format!("{a} {b} {c} {d} {e} {q} {f:?} {v:?}"));
            }
        }
    }

    fn random_step(&mut self) {
        if self.rng.chance(1, 16) {
            // In the destructor of something, after a panic of the user.
            self.o("unwinding".into());
            if let Err(e) = unwinding(|| self.random_step_now()) {
                std::panic::resume_unwind(Box::new(e));
            }
            return;
        }
        self.random_step_now()
    }
    fn random_step_now(&mut self) {
        match self.rng.pick_weighted(&[30, 8, 8, 14, 4, 8, 6, 5, 6, 4, 4, 5, 4]) {
            0 => self.edit(),
            1 => {
                let x = self.pick();
                match self.rng.below(3) {
                    0 => self.navigate(&x),
                    1 => match x.bundle_new_hierarchy_edit_grant() {
                        Ok(h) => self.navigate(&h),
                        Err(e) => self.o(format!("{e:?}")),
                    },
                    _ => match x.bundle_new_hierarchy_edit_prohibition() {
                        Ok(h) => self.navigate(&h),
                        Err(e) => self.o(format!("{e:?}")),
                    },
                }
            }
            2 => self.iterator(),
            3 => self.advance(),
            4 => self.print(),
            5 => {
                // Drop a handle.
                if !self.h.is_empty() {
                    let i = self.rng.below(self.h.len());
                    let h = self.h.swap_remove(i);
                    self.plain("drop", || drop(h));
                    let (a, b) = (ledger_live_ids(), ledger_order());
                    self.o(format!("drop; alive {a:?}, order {b:x}"));
                }
            }
            6 => self.locks(),
            7 => self.data(),
            8 => {
                // Compare and clone.
                let (x, y) = (self.pick(), self.pick());
                let s = self.plain("compare", || {
                    let t = touches();
                    let e = x.try_eq(&y).is_ok_and(|b| b);
                    let f = x.tree().try_eq(&y.tree()).is_ok_and(|b| b);
                    let u = touches();
                    format!(
                        "{e} {f} {} {} {}, comparisons {}",
                        x.ptr_eq(&y),
                        x.belongs_to_same_tree(&y),
                        x.belongs_to(&y.tree()),
                        u.1 - t.1
                    )
                });
                if let Some(s) = s {
                    self.o(s);
                }
                let c = self.plain("clone", || {
                    let t = touches();
                    let c = x.try_clone_subtree().expect("harness: unborrowed");
                    let u = touches();
                    (format!("{} with {} clones", shape(&c), u.0 - t.0), c)
                });
                if let Some((s, c)) = c {
                    self.o(s);
                    if self.rng.chance(1, 3) {
                        self.keep(c);
                    }
                }
            }
            9 => {
                // Serialise.
                let x = self.pick();
                let s = self.plain("serialise", || {
                    let v: Vec<Event<P>> =
                        x.to_events().take(300).map(|e| e.expect("harness: event")).collect();
                    let s: Vec<String> = v.iter().map(sev).collect();
                    let r: Result<Node<P>, TreeBuildError> = v.into_iter().collect();
                    let r = r.map(|n| (shape(&n), n)).map_err(|e| err(&e));
                    (format!("{} -> {:?}", s.join(" "), r.as_ref().map(|r| &r.0)), r)
                });
                if let Some((s, _)) = s {
                    self.o(s);
                }
            }
            10 => {
                // Builders.
                let b = if self.rng.bool() {
                    TreeBuilder::new()
                } else {
                    let x = self.pick();
                    match x.bundle_new_hierarchy_edit_grant() {
                        Ok(h) => TreeBuilder::with_root(h),
                        Err(_) => return self.o("locked".into()),
                    }
                };
                let i = self.h.iter().position(|h| matches!(h, Hd::B(_)));
                if let Some(i) = i {
                    if let Hd::B(b) = self.h.swap_remove(i) {
                        let r = if self.rng.bool() {
                            b.finish().map_err(|e| err(&e))
                        } else {
                            b.finish_opt().ok_or("none".to_string())
                        };
                        match r {
                            Ok(n) => {
                                self.o(format!("built {}", shape(&n.root())));
                                self.keep(n);
                            }
                            Err(e) => self.o(e),
                        }
                    }
                }
                self.push(Hd::B(b));
            }
            11 => {
                // Weak references.
                let v: Vec<String> = self.nw.iter().map(|w| nmo(w.upgrade())).collect();
                let t: Vec<String> = self
                    .tw
                    .iter()
                    .map(|w| w.upgrade().map_or("-".into(), |t| nm(&t.root())))
                    .collect();
                self.o(format!("weak {} / {}", v.join(" "), t.join(" ")));
                if self.nw.len() > 16 {
                    self.nw.clear();
                    self.tw.clear();
                }
            }
            _ => {
                // A new tree.
                let n = self.rng.range(1, 7);
                let style = self.rng.below(6);
                let mut rng = Rng::new(self.rng.u64());
                let spec = random_spec(&mut rng, n, 4);
                let base = self.val;
                self.val += 10;
                let v = realize_spec(&mut rng, &spec, &|x| P::new(base + x), style);
                self.o(format!("new {}", shape(&v[0].root())));
                let i = self.rng.below(v.len());
                self.keep(v[i].clone());
            }
        }
    }
}

/// Runs one program. The digest is of everything observed.
pub fn run(
    st: &mut Stats,
    rng: &mut Rng,
    keep: bool,
    trace: &mut Vec<String>,
    digest: &mut u64,
) -> R<()> {
    let mut m = M {
        rng: Rng::new(rng.u64()),
        st,
        h: vec![],
        nw: vec![],
        tw: vec![],
        digest: 0,
        log: keep.then(Vec::new),
        tail: vec![],
        val: 0,
        bad: None,
    };
    let steps = *m.rng.pick(&[8, 20, 40, 80]);
    let r = catch(|| {
        for _ in 0..steps {
            m.st.inc(ct::OPS);
            let d = m.digest;
            m.random_step();
            if m.bad.is_some() {
                break;
            }
            if m.st.c[ct::OPS] % 4 == 0 {
                let d2 = m.digest;
                m.st.seen(hash2(d, d2));
            }
        }
        // Everything that is left, in full.
        for n in m.nodes() {
            m.navigate(&n);
            let s = shape(&n.root());
            m.o(s);
        }
        while let Some(h) = m.h.pop() {
            m.plain("drop", || drop(h));
            let (a, b) = (ledger_live(), ledger_order());
            m.o(format!("drop; {a} alive, order {b:x}"));
        }
        let v: Vec<String> = m.nw.iter().map(|w| nmo(w.upgrade())).collect();
        m.o(format!("weak {v:?}"));
    });
    m.st.inc(ct::USER1);
    *digest = m.digest;
    *trace = m.log.take().unwrap_or_else(|| std::mem::take(&mut m.tail));
    if let Some(b) = m.bad.take() {
        return dv(tag::PANIC, format!("a panic where none is documented: {b}"));
    }
    let end = catch(move || drop(m));
    match (r, end) {
        (Ok(()), Ok(())) => Ok(()),
        (Err(m), _) | (_, Err(m)) => crate::outer_panic(m),
    }
}
