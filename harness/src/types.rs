//! The same small programs over data of many types: without a size, without a
//! destructor, large, aligned, shared, with interior mutability, borrowed from
//! elsewhere.  The model knows a node's value by its number only.

use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::num::NonZeroU32;
use std::rc::Rc;

use dendron::serial::{Event, TreeBuilder};
use dendron::traverse::DftEvent;
use dendron::{FrozenNode, HotNode, Node, NodeWeak, Tree};

use crate::ensure;
use crate::rng::{hash2, Rng};
use crate::world::*;

thread_local! {
    static ALIVE: Cell<isize> = const { Cell::new(0) };
}

pub trait Val: Clone + PartialEq + Debug {
    const NAME: &'static str;
    /// The number of distinguishable values.
    const KINDS: usize = 1 << 20;
    /// Whether `ALIVE` counts the values.
    const COUNTED: bool = false;
    fn make(i: usize) -> Self;
}

macro_rules! val {
    ($($t:ty, $kinds:expr, |$i:ident| $e:expr;)*) => {$(
        impl Val for $t {
            const NAME: &'static str = stringify!($t);
            const KINDS: usize = $kinds;
            fn make($i: usize) -> Self {
                $e
            }
        }
    )*};
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(64))]
pub struct Aligned(u16);
#[derive(Clone, PartialEq, Debug)]
pub struct Big([u64; 600]);
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum One {
    Only,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Mixed {
    A,
    B(u8),
    C(String),
    D { x: Box<Mixed>, y: [u32; 9] },
}

/// Without a size, but with a destructor.
#[derive(PartialEq, Debug)]
pub struct Z;
impl Clone for Z {
    fn clone(&self) -> Z {
        Z::make(0)
    }
}
impl Drop for Z {
    fn drop(&mut self) {
        ALIVE.with(|a| a.set(a.get() - 1));
    }
}
impl Val for Z {
    const NAME: &'static str = "Z (no size, counted)";
    const KINDS: usize = 1;
    const COUNTED: bool = true;
    fn make(_: usize) -> Z {
        ALIVE.with(|a| a.set(a.get() + 1));
        Z
    }
}
/// A large one with a destructor.
#[derive(PartialEq, Debug)]
pub struct L(usize, [usize; 100]);
impl Clone for L {
    fn clone(&self) -> L {
        L::make(self.0)
    }
}
impl Drop for L {
    fn drop(&mut self) {
        ALIVE.with(|a| a.set(a.get() - 1));
        self.1 = [0; 100];
    }
}
impl Val for L {
    const NAME: &'static str = "L (large, counted)";
    const COUNTED: bool = true;
    fn make(i: usize) -> L {
        ALIVE.with(|a| a.set(a.get() + 1));
        L(i, [i; 100])
    }
}

const WORDS: [&str; 5] = ["", "a", "two words", "ünï", "\u{1F333}"];

val! {
    (), 1, |_i| ();
    One, 1, |_i| One::Only;
    [u64; 0], 1, |_i| [];
    std::marker::PhantomData<String>, 1, |_i| std::marker::PhantomData;
    bool, 2, |i| i % 2 == 1;
    u8, 256, |i| i as u8;
    i64, 1 << 20, |i| -(i as i64) * 0x1_0000_0001;
    u128, 1 << 20, |i| (i as u128) << 70 | 1;
    f64, 1 << 20, |i| i as f64 / 3.0;
    char, 0xd800, |i| char::from_u32(i as u32).unwrap();
    usize, 1 << 20, |i| i.wrapping_mul(usize::MAX / 7);
    String, 1 << 20, |i| if i == 0 { String::new() } else { format!("value {i}") };
    &'static str, 5, |i| WORDS[i];
    Option<NonZeroU32>, 1 << 20, |i| NonZeroU32::new(i as u32);
    Option<Box<u16>>, 1 << 16, |i| if i == 0 { None } else { Some(Box::new(i as u16)) };
    Option<Option<bool>>, 4, |i| match i { 0 => None, 1 => Some(None), i => Some(Some(i == 2)) };
    Result<u8, String>, 1 << 20, |i| if i % 2 == 0 && i < 512 { Ok((i / 2) as u8) } else { Err(i.to_string()) };
    Vec<u8>, 1 << 20, |i| i.to_le_bytes()[..i % 9].iter().copied().chain(i.to_le_bytes()).collect();
    Box<[u32]>, 1 << 20, |i| vec![i as u32; 1 + i % 5].into();
    Rc<u32>, 1 << 20, |i| Rc::new(i as u32);
    std::sync::Arc<str>, 1 << 20, |i| i.to_string().into();
    [u64; 40], 1 << 20, |i| { let mut a = [7; 40]; a[i % 40] = i as u64; a };
    Aligned, 1 << 16, |i| Aligned(i as u16);
    Big, 1 << 20, |i| Big([i as u64; 600]);
    (u8, String, [u16; 3]), 1 << 20, |i| (i as u8, i.to_string(), [i as u16; 3]);
    Cell<u32>, 1 << 20, |i| Cell::new(i as u32);
    RefCell<Vec<u32>>, 1 << 20, |i| RefCell::new(vec![i as u32, 1]);
    fn(u8) -> u8, 2, |i| if i == 0 { inc } else { dec };
    Mixed, 1 << 20, |i| match i % 4 {
        _ if i > 600 => Mixed::C(i.to_string()),
        0 if i == 0 => Mixed::A,
        1 => Mixed::B((i / 4) as u8),
        2 => Mixed::D { x: Box::new(Mixed::B(1)), y: [i as u32; 9] },
        _ => Mixed::C(i.to_string()),
    };
    Node<u8>, 256, |i| Node::new_tree(i as u8);
    Tree<String>, 1 << 20, |i| Node::new_tree(i.to_string()).tree();
    HotNode<u16>, 1 << 16, |i| HotNode::new_tree(i as u16);
    FrozenNode<u16>, 1 << 16, |i| Node::new_tree(i as u16).bundle_new_hierarchy_edit_prohibition().unwrap();
}

#[inline(never)]
fn inc(x: u8) -> u8 {
    x.wrapping_add(1)
}
#[inline(never)]
fn dec(x: u8) -> u8 {
    x.wrapping_sub(3)
}

/// What was observed.
#[derive(Clone, Copy)]
enum About {
    Links,
    Member,
    Effect,
    Refusal,
    Alive,
    Freed,
    Lock,
    Grant,
    Dft,
    Others,
    Iter,
    Serial,
    Builder,
    Clone,
    Eq,
    Borrow,
    Print,
}

const NONE: usize = usize::MAX;

struct F<T> {
    prop: u32,
    par: Vec<usize>,
    kids: Vec<Vec<usize>>,
    val: Vec<usize>,
    h: Vec<Option<Node<T>>>,
    w: Vec<NodeWeak<T>>,
    gone: Vec<bool>,
    l0: isize,
    next: usize,
}

impl<T: Val> F<T> {
    /// The tag of a difference: it counts for the property which it is about.
    fn t(&self, a: About) -> u32 {
        let mine = match a {
            About::Links => matches!(self.prop, 1 | 2 | 3),
            About::Member => matches!(self.prop, 4),
            About::Effect => matches!(self.prop, 2),
            About::Refusal => matches!(self.prop, 3),
            About::Alive => matches!(self.prop, 5),
            About::Freed => matches!(self.prop, 6),
            About::Lock => matches!(self.prop, 7),
            About::Grant => matches!(self.prop, 8),
            About::Dft => matches!(self.prop, 9),
            About::Others => matches!(self.prop, 10),
            About::Iter => matches!(self.prop, 11),
            About::Serial => matches!(self.prop, 12),
            About::Builder => matches!(self.prop, 13),
            About::Clone => matches!(self.prop, 14),
            About::Eq => matches!(self.prop, 15),
            About::Borrow => matches!(self.prop, 16),
            About::Print => matches!(self.prop, 17),
        };
        if mine {
            tag::X
        } else {
            tag::S
        }
    }
    fn root(&self, mut x: usize) -> usize {
        while self.par[x] != NONE {
            x = self.par[x];
        }
        x
    }
    fn is_in(&self, mut x: usize, a: usize) -> bool {
        loop {
            if x == a {
                return true;
            }
            if self.par[x] == NONE {
                return false;
            }
            x = self.par[x];
        }
    }
    fn idx(&self, x: usize) -> usize {
        self.kids[self.par[x]].iter().position(|c| *c == x).unwrap()
    }
    fn pre(&self, x: usize, out: &mut Vec<usize>) {
        out.push(x);
        for c in &self.kids[x] {
            self.pre(*c, out);
        }
    }
    fn sub(&self, x: usize) -> Vec<usize> {
        let mut v = vec![];
        self.pre(x, &mut v);
        v
    }
    fn unlink(&mut self, x: usize) {
        if self.par[x] != NONE {
            let (p, i) = (self.par[x], self.idx(x));
            self.kids[p].remove(i);
            self.par[x] = NONE;
        }
    }
    fn link(&mut self, x: usize, d: Dest, y: usize) {
        let (p, i) = match d {
            Dest::First => (y, 0),
            Dest::Last => (y, self.kids[y].len()),
            Dest::Prev => (self.par[y], self.idx(y)),
            Dest::Next => (self.par[y], self.idx(y) + 1),
        };
        self.kids[p].insert(i, x);
        self.par[x] = p;
    }
    fn value(&mut self, rng: &mut Rng) -> usize {
        self.next += 1;
        match rng.below(4) {
            0 => 0,
            1 => rng.below(3) % T::KINDS,
            2 => T::KINDS - 1 - rng.below(T::KINDS.min(50)),
            _ => self.next % T::KINDS,
        }
    }
    fn add(&mut self, v: usize, n: Node<T>) -> usize {
        self.par.push(NONE);
        self.kids.push(vec![]);
        self.val.push(v);
        self.w.push(n.downgrade());
        self.h.push(Some(n));
        self.gone.push(false);
        self.par.len() - 1
    }
    /// Adds the nodes of a new tree which looks like the subtree of `x`.
    fn add_copy(&mut self, n: &Node<T>, x: usize, what: &str, a: About) -> R<usize> {
        let want = self.sub(x);
        let first = self.par.len();
        let mut map = std::collections::HashMap::new();
        let mut cur = Some(n.clone());
        for z in &want {
            let c = match cur.take() {
                Some(c) => c,
                None => return dv(self.t(a), format!("{what} of {x}: too few nodes")),
            };
            {
                let d = match c.try_borrow_data() {
                    Ok(d) => d,
                    Err(_) => return dv(self.t(a), format!("{what} of {x}: data is borrowed")),
                };
                ensure!(same_val(&*d, self.val[*z]), self.t(a), "{what} of {x}: the copy of {z} has the data {d:?}");
            }
            let id = self.add(self.val[*z], c.clone());
            map.insert(*z, id);
            if *z != x {
                let p: usize = map[&self.par[*z]];
                self.par[id] = p;
                self.kids[p].push(id);
            }
            // In document order.
            cur = c.first_child();
            let mut up = c;
            while cur.is_none() && !up.ptr_eq(n) {
                cur = up.next_sibling();
                if cur.is_none() {
                    up = match up.parent() {
                        Some(p) => p,
                        None => return dv(self.t(a), format!("{what} of {x}: a node without parent")),
                    };
                }
            }
        }
        ensure!(cur.is_none(), self.t(a), "{what} of {x}: too many nodes");
        Ok(first)
    }
    fn live_nodes(&self) -> Vec<usize> {
        (0..self.par.len()).filter(|x| !self.gone[*x]).collect()
    }
    /// A handle of a living node.
    fn get(&self, x: usize) -> R<Node<T>> {
        if let Some(n) = &self.h[x] {
            return Ok(n.clone());
        }
        match self.w[x].upgrade() {
            Some(n) => Ok(n),
            None => dv(self.t(About::Alive), format!("node {x} of a living tree is gone")),
        }
    }
    /// Trees without handles are gone.
    fn settle(&mut self) {
        let n = self.par.len();
        let mut alive = vec![false; n];
        for x in 0..n {
            if self.h[x].is_some() {
                let r = self.root(x);
                alive[r] = true;
            }
        }
        for x in 0..n {
            let r = self.root(x);
            if !alive[r] {
                self.gone[x] = true;
            }
        }
    }
    fn audit(&self, st: &mut Stats, what: &str) -> R<()> {
        st.inc(ct::AUDITS);
        if T::COUNTED {
            let want = self.gone.iter().filter(|g| !**g).count() as isize;
            let got = ALIVE.with(|a| a.get()) - self.l0;
            ensure!(
                got == want,
                self.t(if got > want { About::Freed } else { About::Alive }),
                "{what}: {got} values are alive, expected {want}"
            );
        }
        let n = self.par.len();
        let mut got: Vec<Option<Node<T>>> = vec![];
        for x in 0..n {
            let u = self.w[x].upgrade();
            ensure!(
                u.is_some() != self.gone[x],
                self.t(About::Alive),
                "{what}: node {x} upgrades: {}, gone: {}",
                u.is_some(),
                self.gone[x]
            );
            got.push(u);
        }
        for x in 0..n {
            let Some(nd) = &got[x] else { continue };
            if let Some(h) = &self.h[x] {
                ensure!(h.ptr_eq(nd), self.t(About::Links), "{what}: the handle of {x}");
            }
            let is = |a: &Option<Node<T>>, y: usize| match a {
                None => y == NONE,
                Some(a) => y != NONE && got[y].as_ref().is_some_and(|b| b.ptr_eq(a)),
            };
            let k = &self.kids[x];
            let l = self.t(About::Links);
            ensure!(is(&nd.parent(), self.par[x]), l, "{what}: parent of {x}");
            ensure!(nd.is_root() == (self.par[x] == NONE), l, "{what}: is_root of {x}");
            ensure!(is(&nd.first_child(), *k.first().unwrap_or(&NONE)), l, "{what}: first child of {x}");
            ensure!(is(&nd.last_child(), *k.last().unwrap_or(&NONE)), l, "{what}: last child of {x}");
            ensure!(nd.num_children() == k.len(), l, "{what}: number of children of {x}");
            for (i, c) in k.iter().enumerate() {
                let c = got[*c].as_ref().unwrap();
                ensure!(is(&c.prev_sibling(), if i == 0 { NONE } else { k[i - 1] }), l, "{what}: previous sibling of child {i} of {x}");
                ensure!(is(&c.next_sibling(), *k.get(i + 1).unwrap_or(&NONE)), l, "{what}: next sibling of child {i} of {x}");
            }
            match nd.try_borrow_data() {
                Ok(d) => ensure!(same_val(&*d, self.val[x]), self.t(About::Effect), "{what}: data of {x}: {d:?}"),
                Err(_) => return dv(self.t(About::Borrow), format!("{what}: data of {x} is borrowed")),
            }
            let r = self.root(x);
            let m = self.t(About::Member);
            ensure!(nd.tree().root().ptr_eq(got[r].as_ref().unwrap()), m, "{what}: tree of {x}");
            for y in 0..x {
                if let Some(o) = &got[y] {
                    let same = self.root(y) == r;
                    ensure!(
                        nd.belongs_to_same_tree(o) == same && nd.belongs_to(&o.tree()) == same && !nd.ptr_eq(o),
                        m,
                        "{what}: {x} and {y} in the same tree: {}, expected {same}",
                        !same
                    );
                }
            }
        }
        Ok(())
    }
}

fn same_val<T: Val>(d: &T, v: usize) -> bool {
    *d == T::make(v)
}

fn hot<T>(n: &Node<T>) -> R<HotNode<T>> {
    match n.clone().bundle_new_hierarchy_edit_grant() {
        Ok(h) => Ok(h),
        Err(e) => dv(tag::X, format!("no grant: {e}")),
    }
}
fn frozen<T>(n: &Node<T>) -> R<FrozenNode<T>> {
    match n.clone().bundle_new_hierarchy_edit_prohibition() {
        Ok(h) => Ok(h),
        Err(e) => dv(tag::X, format!("no prohibition: {e}")),
    }
}

fn step<T: Val>(f: &mut F<T>, st: &mut Stats, rng: &mut Rng, trace: &mut Vec<String>) -> R<()> {
    let live = f.live_nodes();
    if live.is_empty() || (live.len() < 24 && rng.chance(1, 25)) {
        let v = f.value(rng);
        trace.push(format!("new tree ({v})"));
        let n = match rng.below(3) {
            0 => Node::new_tree(T::make(v)),
            1 => HotNode::new_tree(T::make(v)).plain(),
            _ => Node::new_tree(T::make(v)).tree().root(),
        };
        f.add(v, n);
        return Ok(());
    }
    let x = *rng.pick(&live);
    let y = *rng.pick(&live);
    let d = *rng.pick(&DESTS);
    let with_grant = rng.bool();
    let is_root = f.par[x] == NONE;
    let nx = f.get(x)?;
    let small = live.len() < 24;
    st.inc(ct::OPS);
    match rng.below(22) {
        0..=2 if small => {
            let v = f.value(rng);
            trace.push(format!("create {d:?} of {x} ({v})"));
            let r = if with_grant {
                let g = nx.tree().grant_hierarchy_edit().expect("harness: grant");
                nx.try_create_node_as(&g, T::make(v), d.adopt())
            } else {
                hot(&nx)?.try_create_node_as(T::make(v), d.adopt()).map(|h| h.plain())
            };
            if is_root && d.is_sibling() {
                ensure!(r.is_err(), f.t(About::Refusal), "a sibling of the root {x} was created");
                st.inc(ct::EDIT_REFUSED);
            } else {
                match r {
                    Ok(n) => {
                        let c = f.add(v, n);
                        f.link(c, d, x);
                        st.inc(ct::EDIT_OK);
                    }
                    Err(e) => return dv(f.t(About::Effect), format!("create {d:?} of {x}: {e}")),
                }
            }
        }
        3 if small => {
            let v = f.value(rng);
            trace.push(format!("interrupting parent of {x} ({v})"));
            let n = if with_grant {
                let g = nx.tree().grant_hierarchy_edit().expect("harness: grant");
                nx.create_as_interrupting_parent(&g, T::make(v))
            } else {
                hot(&nx)?.create_as_interrupting_parent(T::make(v)).plain()
            };
            let c = f.add(v, n);
            if !is_root {
                f.link(c, Dest::Prev, x);
                f.unlink(x);
            }
            f.link(x, Dest::Last, c);
            st.inc(ct::EDIT_OK);
        }
        4 if small => {
            let v = f.value(rng);
            trace.push(format!("interrupting child of {x} ({v})"));
            let n = if with_grant {
                let g = nx.tree().grant_hierarchy_edit().expect("harness: grant");
                nx.create_as_interrupting_child(&g, T::make(v))
            } else {
                hot(&nx)?.create_as_interrupting_child(T::make(v)).plain()
            };
            let c = f.add(v, n);
            let k = std::mem::take(&mut f.kids[x]);
            for z in &k {
                f.par[*z] = c;
            }
            f.kids[c] = k;
            f.link(c, Dest::Last, x);
            st.inc(ct::EDIT_OK);
        }
        5 => {
            trace.push(format!("replace {x} with its {} children", f.kids[x].len()));
            let r = if with_grant {
                let g = nx.tree().grant_hierarchy_edit().expect("harness: grant");
                nx.try_replace_with_children(&g)
            } else {
                hot(&nx)?.try_replace_with_children()
            };
            let n = f.kids[x].len();
            let ok = !is_root || n == 1;
            ensure!(
                r.is_ok() == ok,
                f.t(if ok { About::Effect } else { About::Refusal }),
                "replace {x} (root: {is_root}) with {n} children: {r:?}"
            );
            if ok {
                let k = std::mem::take(&mut f.kids[x]);
                if is_root {
                    f.par[k[0]] = NONE;
                } else {
                    let (p, i) = (f.par[x], f.idx(x));
                    for z in &k {
                        f.par[*z] = p;
                    }
                    f.kids[p].splice(i..i + 1, k);
                    f.par[x] = NONE;
                }
                st.inc(ct::EDIT_OK);
            } else {
                st.inc(ct::EDIT_REFUSED);
            }
        }
        6 => {
            trace.push(format!("detach {x}"));
            if with_grant {
                let g = nx.tree().grant_hierarchy_edit().expect("harness: grant");
                nx.detach_subtree(&g);
            } else {
                hot(&nx)?.detach_subtree();
            }
            f.unlink(x);
            st.inc(ct::EDIT_OK);
        }
        7..=9 => {
            if x == y && d.is_sibling() {
                return Ok(());
            }
            let hy = hot(&f.get(y)?)?;
            let r = if with_grant {
                let g = nx.tree().grant_hierarchy_edit().expect("harness: grant");
                nx.try_detach_insert_subtree(&g, d.insert(&hy))
            } else {
                hot(&nx)?.try_detach_insert_subtree(d.insert(&hy))
            };
            trace.push(format!("move {x} to {d:?} of {y}: {r:?}"));
            let bad = match d {
                Dest::First | Dest::Last => f.is_in(y, x),
                _ => f.par[y] == NONE || f.is_in(f.par[y], x),
            };
            ensure!(
                r.is_err() == bad,
                f.t(if bad { About::Refusal } else { About::Effect }),
                "move {x} to {d:?} of {y}: {r:?}"
            );
            if !bad {
                f.unlink(x);
                f.link(x, d, y);
                st.inc(ct::EDIT_OK);
            } else {
                st.inc(ct::EDIT_REFUSED);
            }
        }
        10 if live.len() + f.sub(x).len() < 40 => {
            trace.push(format!("clone {x}"));
            let c = match rng.below(4) {
                0 => nx.clone_subtree(),
                1 => nx.try_clone_subtree().expect("harness: borrowed"),
                2 => frozen(&nx)?.clone_subtree(),
                _ if is_root => nx.tree().clone_tree().root(),
                _ => hot(&nx)?.clone_subtree(),
            };
            ensure!(c == nx, f.t(About::Clone), "the clone of {x} is not equal to it");
            f.add_copy(&c, x, "clone", About::Clone)?;
            st.inc(ct::CLONES);
        }
        11 if live.len() + f.sub(x).len() < 40 => {
            if f.par[y] == NONE && d.is_sibling() {
                return Ok(());
            }
            trace.push(format!("clone {x} to {d:?} of {y}"));
            let hy = hot(&f.get(y)?)?;
            let c = nx.clone_insert_subtree(d.insert(&hy)).plain();
            let id = f.add_copy(&c, x, "inserted clone", About::Clone)?;
            f.link(id, d, y);
            st.inc(ct::CLONES);
            st.inc(ct::EDIT_OK);
        }
        12 if live.len() + f.sub(x).len() < 40 => {
            trace.push(format!("events of {x}"));
            let ev: Vec<Event<T>> = match nx.to_events().collect() {
                Ok(v) => v,
                Err(e) => return dv(f.t(About::Serial), format!("events of {x}: {e}")),
            };
            let c = match rng.below(3) {
                0 => ev.into_iter().collect::<Result<Node<T>, _>>().map_err(|e| e.to_string()),
                1 => ev.into_iter().collect::<Result<Tree<T>, _>>().map(|t| t.root()).map_err(|e| e.to_string()),
                _ => {
                    let mut b = TreeBuilder::new();
                    for e in ev {
                        if let Err(e) = b.push_event(e) {
                            return dv(f.t(About::Builder), format!("events of {x}: {e}"));
                        }
                    }
                    b.finish().map_err(|e| e.to_string())
                }
            };
            let c = match c {
                Ok(c) => c,
                Err(e) => return dv(f.t(About::Serial), format!("building of the events of {x}: {e}")),
            };
            let a = if rng.bool() { About::Serial } else { About::Builder };
            f.add_copy(&c, x, "rebuilt", a)?;
        }
        13 => {
            // All pairs with one tree.
            let t = f.t(About::Eq);
            for z in &live {
                let nz = f.get(*z)?;
                let (a, b) = (f.sub(x), f.sub(*z));
                let shape = |f: &F<T>, v: &[usize]| -> Vec<(usize, usize)> {
                    v.iter().map(|i| (f.kids[*i].len(), f.val[*i])).collect()
                };
                let want = shape(f, &a) == shape(f, &b);
                let got = match rng.below(4) {
                    0 => nx == nz,
                    1 => !(nx != nz),
                    2 => nx.try_eq(&nz).expect("harness: borrowed"),
                    _ if is_root && f.par[*z] == NONE => nx.tree() == nz.tree(),
                    _ => nz == nx,
                };
                ensure!(got == want, t, "{x} and {z} are equal: {got}, expected {want}");
                st.inc(ct::ITEMS);
            }
        }
        14 => {
            let v = f.value(rng);
            trace.push(format!("set {x} to {v}"));
            let old = {
                let mut g = match nx.try_borrow_data_mut() {
                    Ok(g) => g,
                    Err(_) => return dv(f.t(About::Borrow), format!("data of {x} is borrowed")),
                };
                ensure!(nx.try_borrow_data().is_err() && nx.try_borrow_data_mut().is_err(), f.t(About::Borrow), "{x}: a second borrow besides an exclusive one");
                std::mem::replace(&mut *g, T::make(v))
            };
            ensure!(same_val(&old, f.val[x]), f.t(About::Borrow), "the data of {x} was {old:?}");
            f.val[x] = v;
            let (a, b) = (nx.borrow_data(), nx.borrow_data());
            ensure!(std::ptr::eq(&*a, &*b) && nx.try_borrow_data_mut().is_err(), f.t(About::Borrow), "{x}: shared borrows");
        }
        15 => {
            trace.push(format!("drop the handle of {x}"));
            drop(nx);
            f.h[x] = None;
        }
        16 => {
            trace.push(format!("take a handle of {x}"));
            f.h[x] = Some(nx);
        }
        17 => {
            let t = nx.tree();
            let l = f.t(About::Lock);
            let edit = rng.bool();
            let r = f.get(f.root(x))?;
            if edit {
                let g = match t.grant_hierarchy_edit() {
                    Ok(g) => g,
                    Err(e) => return dv(l, format!("grant: {e}")),
                };
                ensure!(t.prohibit_hierarchy_edit().is_err(), l, "a prohibition besides a grant");
                ensure!(t.grant_hierarchy_edit().is_ok(), l, "no second grant");
                let h = r.clone().bundle_new_hierarchy_edit_grant();
                ensure!(h.is_ok(), l, "no bundled grant");
                drop(g);
                ensure!(t.prohibit_hierarchy_edit().is_err(), l, "a prohibition besides a bundled grant");
                drop(h);
                ensure!(t.prohibit_hierarchy_edit().is_ok(), l, "no prohibition after all grants");
            } else {
                let p = match t.prohibit_hierarchy_edit() {
                    Ok(g) => g,
                    Err(e) => return dv(l, format!("prohibition: {e}")),
                };
                ensure!(t.grant_hierarchy_edit().is_err(), l, "a grant besides a prohibition");
                let h = r.clone().bundle_new_hierarchy_edit_prohibition();
                ensure!(h.is_ok(), l, "no bundled prohibition");
                drop(p);
                ensure!(t.grant_hierarchy_edit().is_err(), l, "a grant besides a bundled prohibition");
                drop(h);
                ensure!(t.grant_hierarchy_edit().is_ok(), l, "no grant after all prohibitions");
            }
            let gr = f.t(About::Grant);
            let g = match t.grant_hierarchy_edit() {
                Ok(g) => g,
                Err(e) => return dv(l, format!("grant: {e}")),
            };
            for z in &live {
                let same = f.root(*z) == f.root(x);
                let nz = f.get(*z)?;
                ensure!(g.is_valid_for_node(&nz) == same, gr, "the grant of the tree of {x} is valid for {z}: {}", !same);
            }
            st.inc(ct::LOCKPROBE);
        }
        18 => {
            // Depth first, in all ways.
            let want = f.sub(x);
            let t = f.t(About::Dft);
            let ids = |v: Vec<Node<T>>| -> Vec<usize> {
                v.iter().map(|n| f.par.iter().enumerate().position(|(i, _)| !f.gone[i] && f.w[i].upgrade().is_some_and(|u| u.ptr_eq(n))).unwrap_or(NONE)).collect()
            };
            let open: Vec<Node<T>> = nx.depth_first_traverse().filter_map(|e| e.into_open()).collect();
            ensure!(ids(open) == want, t, "opened nodes below {x}");
            let close: Vec<Node<T>> = nx.depth_first_traverse().filter_map(|e| e.into_close()).collect();
            let rev: Vec<Node<T>> = nx.depth_first_reverse_traverse().filter_map(|e| e.into_close()).collect();
            let mut post = vec![];
            fn post_order<T>(f: &F<T>, x: usize, v: &mut Vec<usize>) {
                for c in &f.kids[x] {
                    post_order(f, *c, v);
                }
                v.push(x);
            }
            post_order(f, x, &mut post);
            ensure!(ids(close) == post, t, "closed nodes below {x}");
            post.reverse();
            ensure!(ids(rev) == post, t, "nodes below {x} in reverse");
            let fr = frozen(&nx)?;
            let it = fr.depth_first_traverse_stable();
            let (lo, hi) = it.size_hint();
            let n = 2 * want.len();
            ensure!(lo <= n && hi.is_none_or(|h| h >= n), f.t(About::Iter), "size hint ({lo}, {hi:?}) of {n} events");
            let open: Vec<Node<T>> = it.clone().filter_map(|e| e.into_open()).map(|n| n.plain()).collect();
            ensure!(ids(open) == want, t, "opened nodes below {x}, stable");
            let mut both: VecDeque<usize> = VecDeque::new();
            let mut tail: VecDeque<usize> = VecDeque::new();
            let mut it = it;
            loop {
                let front = rng.bool();
                let e = if front { it.next() } else { it.next_back() };
                let Some(e) = e else { break };
                if let DftEvent::Open(o) = e {
                    let i = ids(vec![o.plain()])[0];
                    if front {
                        both.push_back(i)
                    } else {
                        tail.push_front(i)
                    }
                }
                if both.len() + tail.len() > want.len() {
                    break;
                }
            }
            both.extend(tail);
            ensure!(Vec::from(both) == want, f.t(About::Iter), "opened nodes below {x}, from both ends");
            st.add(ct::ITEMS, n * 4);
        }
        19 => {
            let t = f.t(About::Others);
            let same = |n: &Node<T>, y: usize| f.w[y].upgrade().is_some_and(|u| u.ptr_eq(n));
            let mut y = x;
            let mut up = nx.ancestors_or_self();
            loop {
                let Some(n) = up.next() else {
                    return dv(t, format!("the ancestors of {x} end at {y}"));
                };
                ensure!(same(&n, y), t, "ancestor of {x}, expected {y}");
                y = f.par[y];
                if y == NONE {
                    break;
                }
            }
            ensure!(up.next().is_none(), t, "ancestors of {x} above the root");
            let k = &f.kids[x];
            let c: Vec<Node<T>> = nx.children().collect();
            let r: Vec<Node<T>> = nx.children_reverse().collect();
            ensure!(c.len() == k.len() && c.iter().zip(k).all(|(n, y)| same(n, *y)), t, "children of {x}");
            ensure!(r.len() == k.len() && r.iter().zip(k.iter().rev()).all(|(n, y)| same(n, *y)), t, "children of {x} in reverse");
            let fr = frozen(&nx)?;
            let mut want = vec![x];
            let mut i = 0;
            while i < want.len() {
                let k = f.kids[want[i]].clone();
                want.extend(k);
                i += 1;
            }
            let a: Vec<Node<T>> = fr.allocating_breadth_first_traverse_stable(0).map(|n| n.0.plain()).collect();
            let b: Vec<Node<T>> = fr.non_allocating_breadth_first_traverse_stable(0).map(|n| n.0.plain()).collect();
            for (v, what) in [(a, "allocating"), (b, "non-allocating")] {
                ensure!(v.len() == want.len() && v.iter().zip(&want).all(|(n, y)| same(n, *y)), t, "breadth first ({what}) below {x}");
            }
            st.add(ct::ITEMS, want.len() * 2 + k.len() * 2);
        }
        20 => {
            let mut want = String::new();
            fn lines<T: Val>(f: &F<T>, x: usize, pre: &str, last: bool, top: bool, out: &mut String) {
                if !top {
                    out.push('\n');
                    out.push_str(pre);
                    out.push_str(if last { "`-- " } else { "|-- " });
                }
                out.push_str(&format!("{:?}", T::make(f.val[x])));
                let pre = if top { String::new() } else { format!("{pre}{}", if last { "    " } else { "|   " }) };
                for (i, c) in f.kids[x].iter().enumerate() {
                    lines(f, *c, &pre, i + 1 == f.kids[x].len(), false, out);
                }
            }
            // Node handles as data print more than one line, or addresses.
            if matches!(T::NAME, "Node<u8>" | "Tree<String>" | "HotNode<u16>" | "FrozenNode<u16>") {
                return Ok(());
            }
            lines(f, x, "", true, true, &mut want);
            let got = format!("{:?}", nx.debug_pretty_print());
            ensure!(got == want, f.t(About::Print), "pretty print of {x}:\n{got}\nexpected:\n{want}");
        }
        _ => {
            // Many handles, then some of them.
            let n: Vec<Node<T>> = live.iter().map(|z| f.get(*z)).collect::<R<_>>()?;
            let t: Vec<Tree<T>> = n.iter().map(|n| n.tree()).collect();
            drop(nx);
            drop(n);
            for (z, t) in live.iter().zip(&t) {
                let r = f.root(*z);
                ensure!(f.w[r].upgrade().is_some_and(|u| u.ptr_eq(&t.root())), f.t(About::Member), "root of the tree of {z}");
            }
            drop(t);
        }
    }
    Ok(())
}

fn program<T: Val>(prop: u32, st: &mut Stats, rng: &mut Rng, trace: &mut Vec<String>) -> R<()> {
    trace.push(format!("data: {}", T::NAME));
    let mut f = F::<T> {
        prop,
        par: vec![],
        kids: vec![],
        val: vec![],
        h: vec![],
        w: vec![],
        gone: vec![],
        l0: ALIVE.with(|a| a.get()),
        next: 0,
    };
    let n = rng.range(10, 40);
    for _ in 0..n {
        step(&mut f, st, rng, trace)?;
        f.settle();
        f.audit(st, trace.last().map_or("", |s| s))?;
    }
    // The handles go, in some order.
    while let Some(x) = {
        let v: Vec<usize> = (0..f.h.len()).filter(|x| f.h[*x].is_some()).collect();
        if v.is_empty() { None } else { Some(v[rng.below(v.len())]) }
    } {
        f.h[x] = None;
        f.settle();
        if rng.chance(1, 4) {
            f.audit(st, "while the handles are dropped")?;
        }
    }
    f.audit(st, "end")
}

type Prog = fn(u32, &mut Stats, &mut Rng, &mut Vec<String>) -> R<()>;
macro_rules! all {
    ($($t:ty),* $(,)?) => { &[$(program::<$t> as Prog),*] };
}
const PROGRAMS: &[Prog] = all![
    (), Z, u8, i64, String, L, One, [u64; 0], std::marker::PhantomData<String>, bool, u128, f64, char, usize,
    &'static str, Option<NonZeroU32>, Option<Box<u16>>, Option<Option<bool>>, Result<u8, String>, Vec<u8>,
    Box<[u32]>, Rc<u32>, std::sync::Arc<str>, [u64; 40], Aligned, Big, (u8, String, [u16; 3]), Cell<u32>,
    RefCell<Vec<u32>>, fn(u8) -> u8, Mixed, Node<u8>, Tree<String>, HotNode<u16>, FrozenNode<u16>,
];

pub fn run(prop: u32, st: &mut Stats, rng: &mut Rng, trace: &mut Vec<String>) -> R<()> {
    for _ in 0..40 {
        trace.clear();
        let k = rng.below(PROGRAMS.len());
        let seed = rng.u64();
        st.seen(hash2(0x7479_7065, k as u64));
        PROGRAMS[k](prop, st, &mut Rng::new(seed), trace)?;
    }
    Ok(())
}
