//! C14 (cloning) and C15 (equality).

use dendron::serial::{Event, TreeBuilder};
use dendron::{FrozenNode, HotNode, InsertAs, Node, Tree};

use crate::ensure;
use crate::payload::*;
use crate::rng::{hash2, Rng};
use crate::trav::{big_tree, realize};
use crate::world::*;

const ALL: u32 = tag::S | tag::M | tag::W | tag::L | tag::K | tag::D | tag::G;

fn off<T>(r: R<T>) -> R<T> {
    match r {
        Err(d) if d.tag & (tag::PANIC | tag::X) == 0 => Err(Div { tag: 0, ..d }),
        r => r,
    }
}
fn on<T>(what: &str, r: R<T>) -> R<T> {
    r.map_err(|d| Div {
        tag: tag::X,
        msg: format!("{what}: {} ({})", d.msg, tag::name(d.tag)),
    })
}

// ------------------------------------------------------------------ C14

/// Clones the tree through a `Tree` handle.
fn clone_tree(w: &mut W<'_>, t: usize, panicking: bool) -> R<EditRes> {
    let root = w.trees[t].root;
    let expect = w.expect_edit(Edit::CloneSub { x: root });
    w.tr(format!(
        "{}clone_tree of t{t}",
        if panicking { "" } else { "try_" }
    ));
    let tr = w.tree(t)?;
    let got = catch(|| {
        if panicking {
            Ok(tr.clone_tree())
        } else {
            tr.try_clone_tree()
        }
    });
    match (got, expect) {
        (Ok(Ok(c)), Ok(())) => {
            ensure!(
                !c.ptr_eq(&tr),
                tag::CL,
                "clone_tree returned the same tree"
            );
            drop(tr);
            let nt = w.trees.len();
            let id = w.register_clone(&c.root(), root, nt)?;
            w.trees.push(MTree {
                root: id,
                alive: true,
            });
            w.tweak.push(c.downgrade());
            w.push(H::T(c), nt);
            w.st.inc(ct::CLONES);
            Ok(EditRes::Done)
        }
        (Ok(Err(_)), Err(_)) => Ok(EditRes::Refused),
        (Err(_), Err(_)) if panicking => Ok(EditRes::Refused),
        (Ok(Ok(_)), Err(_)) => dv(
            tag::X,
            "a tree with mutably borrowed data was cloned".to_string(),
        ),
        (Ok(Err(_)), Ok(())) => dv(tag::X, "clone_tree failed without borrowed data"),
        (Err(m), _) => dv(tag::PANIC, format!("clone_tree panicked: {m}")),
    }
}

/// Compares the nodes of the tree with the model.
fn tree_intact(w: &mut W<'_>, nodes: &[usize]) -> R<()> {
    for &x in nodes {
        if !w.nodes[x].alive {
            continue;
        }
        let n = w.node(x)?;
        w.nav_check(&n, x)?;
        let ok = match n.try_borrow_data() {
            Ok(d) => {
                d.inst == w.nodes[x].inst && d.val == w.nodes[x].val && *d.heap == w.nodes[x].val
            }
            Err(_) => false,
        };
        ensure!(ok, tag::D, "the data of #{x} changed");
    }
    Ok(())
}

/// A random edit within the given tree.
fn edit_in(w: &mut W<'_>, t: usize) -> R<()> {
    let sub = w.subtree(w.trees[t].root);
    let x = *w.rng.pick(&sub);
    let y = *w.rng.pick(&sub);
    let d = *w.rng.pick(&DESTS);
    let e = match w.rng.below(7) {
        0 | 1 => Edit::Create { x, d },
        2 => Edit::IntParent { x },
        3 => Edit::IntChild { x },
        4 => Edit::Detach { x },
        5 => Edit::Replace { x },
        _ => Edit::Move { x, d, y },
    };
    let fl = Fl::from_bits(w.rng.below(16) & 13);
    w.edit(e, fl)?;
    Ok(())
}

pub fn case_c14(w: &mut W<'_>, shape: Option<(&[usize], usize)>) -> R<()> {
    if let Some((s, sub)) = shape {
        // All clones and clone-insertions within and from a small tree.
        off(w.build_shape(s))?;
        let n = s.len();
        let (x, k) = (sub % n, sub / n);
        if k >= 4 * n + 2 {
            return Ok(());
        }
        let bits = w.rng.below(8);
        let fl = Fl::from_bits(bits + 8);
        return if k == 0 {
            clone_step(w, Some(Edit::CloneSub { x }), fl)
        } else if k == 1 {
            // Into another tree.
            off(w.build_shape(&[0, 0, 0]))?;
            let y = n + w.rng.below(3);
            let d = *w.rng.pick(&DESTS);
            clone_step(w, Some(Edit::CloneInsert { x, d, y }), fl)
        } else {
            let (y, d) = ((k - 2) / 4, DESTS[(k - 2) % 4]);
            clone_step(w, Some(Edit::CloneInsert { x, d, y }), fl)
        };
    }
    if w.rng.chance(1, 4) {
        let n = *w.rng.pick(&[6, 12, 24]);
        off(big_tree(w, n))?;
    } else {
        let n = w.rng.range(2, 30);
        off(realize(w, n))?;
    }
    let rounds = w.rng.range(1, 4);
    for _ in 0..rounds {
        if w.num_live() == 0 || w.num_live() > 120 {
            break;
        }
        if w.rng.chance(1, 3) {
            borrowed_step(w)?;
        } else {
            let fl = Fl::from_bits(w.rng.below(8) + 8);
            clone_step(w, None, fl)?;
        }
    }
    on("after dropping all handles", w.teardown(0))?;
    w.gc();
    on("after dropping all handles", w.audit(tag::L | tag::W))?;
    Ok(())
}

fn pick_edit(w: &mut W<'_>) -> (Option<Edit>, usize) {
    let live = w.live_nodes();
    let x = *w.rng.pick(&live);
    let t = w.nodes[x].tree;
    match w.rng.below(8) {
        0 | 1 => (None, t),
        2..=4 => (Some(Edit::CloneSub { x }), t),
        k => {
            let y = if k < 7 {
                // Into the cloned subtree itself.
                let sub = w.subtree(x);
                *w.rng.pick(&sub)
            } else {
                *w.rng.pick(&live)
            };
            let d = *w.rng.pick(&DESTS);
            (Some(Edit::CloneInsert { x, d, y }), t)
        }
    }
}

/// One clone operation with all audits around.
fn clone_step(w: &mut W<'_>, e: Option<Edit>, fl: Fl) -> R<()> {
    off(w.audit(ALL))?;
    let (e, t) = match e {
        Some(e) => (Some(e), 0),
        None => pick_edit(w),
    };
    let before = w.nodes.len();
    let r = match e {
        Some(e) => {
            if w.st.seen(w.edit_hash(e, fl)) {
                w.st.inc(ct::USER1);
            }
            on("cloning", w.edit(e, fl))?
        }
        None => clone_tree(w, t, fl.panicking)?,
    };
    on("after cloning", w.audit(ALL))?;
    if r != EditRes::Done {
        return Ok(());
    }
    w.st.add(ct::ITEMS, w.nodes.len() - before);
    // Changes on one side must not be visible on the other one.
    let new = before;
    let src = match e {
        Some(Edit::CloneSub { x }) | Some(Edit::CloneInsert { x, .. }) => x,
        _ => w.trees[t].root,
    };
    if matches!(e, Some(Edit::CloneInsert { .. })) {
        // Only the data can be changed independently within one tree.
        for _ in 0..2 {
            let a = w.subtree(new);
            let y = *w.rng.pick(&a);
            off(w.set_data(y))?;
            on(
                "after changing data of the clone",
                w.audit(tag::D),
            )?;
        }
        return Ok(());
    }
    let (a, b) = (w.nodes[src].tree, w.nodes[new].tree);
    let (na, nb) = (
        w.subtree(w.trees[a].root),
        w.subtree(w.trees[b].root),
    );
    for _ in 0..3 {
        let side = w.rng.bool();
        let (t, other) = if side { (a, &nb) } else { (b, &na) };
        if !w.trees[t].alive {
            continue;
        }
        if w.rng.chance(1, 4) {
            let sub = w.subtree(w.trees[t].root);
            let y = *w.rng.pick(&sub);
            off(w.set_data(y))?;
        } else {
            off(edit_in(w, t))?;
        }
        on("after changing the other side of a clone", tree_intact(w, other))?;
        w.st.inc(ct::USER2);
        // Sides drift apart only by edits of their own; refresh is not needed
        // because the model has the truth for both.
    }
    Ok(())
}

/// Cloning while data is borrowed.
fn borrowed_step(w: &mut W<'_>) -> R<()> {
    off(w.audit(ALL))?;
    let live = w.live_nodes();
    let x = *w.rng.pick(&live);
    let sub = w.subtree(x);
    let y = if w.rng.chance(2, 3) {
        *w.rng.pick(&sub)
    } else {
        *w.rng.pick(&live)
    };
    let shared = w.rng.chance(1, 4);
    let n = w.node(y)?;
    w.pin(y);
    let (mut g1, mut g2) = (None, None);
    if shared {
        g1 = n.try_borrow_data().ok();
    } else {
        g2 = n.try_borrow_data_mut().ok();
        w.mut_borrowed.push(y);
    }
    if g1.is_none() && g2.is_none() {
        return dv(0, "borrowing failed");
    }
    w.tr(format!(
        "borrow the data of #{y} {}",
        if shared { "shared" } else { "mutably" }
    ));
    let fl = Fl::from_bits(w.rng.below(8) + 8);
    let r = match w.rng.below(4) {
        0 => {
            let t = w.nodes[x].tree;
            clone_tree(w, t, fl.panicking)
        }
        1 | 2 => on("cloning", w.edit(Edit::CloneSub { x }, fl)),
        _ => {
            let z = *w.rng.pick(&live);
            let d = *w.rng.pick(&DESTS);
            on("cloning", w.edit(Edit::CloneInsert { x, d, y: z }, fl))
        }
    };
    let r = match r {
        Ok(k) => {
            if k == EditRes::Refused {
                w.st.inc(ct::USER3);
            }
            on("after cloning with borrowed data", w.audit(ALL))
        }
        Err(d) => Err(d),
    };
    w.mut_borrowed.clear();
    drop((g1, g2));
    drop(n);
    w.unpin();
    r?;
    on("after the release of borrowed data", w.audit(ALL))
}

// ------------------------------------------------------------------ C15

/// A tree to be realized: value and number of children in pre-order.
pub type Spec = Vec<(i64, usize)>;

pub fn random_spec(rng: &mut Rng, n: usize, alphabet: usize) -> Spec {
    // Parents of the nodes in pre-order.
    let mut depth = vec![0usize];
    for i in 1..n {
        let d = match rng.below(4) {
            0 => depth[i - 1] + 1,
            1 => depth[i - 1].max(1),
            _ => rng.range(1, depth[i - 1] + 1),
        };
        depth.push(d);
    }
    spec_of_depths(rng, &depth, alphabet)
}
fn spec_of_depths(rng: &mut Rng, depth: &[usize], alphabet: usize) -> Spec {
    let mut out = vec![];
    for i in 0..depth.len() {
        let mut ch = 0;
        for d in &depth[i + 1..] {
            if *d <= depth[i] {
                break;
            }
            if *d == depth[i] + 1 {
                ch += 1;
            }
        }
        out.push((rng.below(alphabet) as i64, ch));
    }
    out
}
fn depths(s: &Spec) -> Vec<usize> {
    let mut out = vec![];
    // Children still to come, by level.
    let mut left: Vec<usize> = vec![];
    for (_, c) in s {
        while left.last() == Some(&0) {
            left.pop();
        }
        out.push(left.len());
        if let Some(l) = left.last_mut() {
            *l -= 1;
        }
        left.push(*c);
    }
    out
}
/// Parent index of each node.
fn parents(s: &Spec) -> Vec<usize> {
    let d = depths(s);
    let mut path: Vec<usize> = vec![];
    let mut out = vec![];
    for i in 0..d.len() {
        path.truncate(d[i]);
        out.push(path.last().copied().unwrap_or(0));
        path.push(i);
    }
    out
}

/// A slightly different tree.
fn mutate(rng: &mut Rng, s: &Spec, alphabet: usize) -> Spec {
    let d = depths(s);
    let mut v: Vec<(i64, usize)> = s.iter().zip(&d).map(|((v, _), d)| (*v, *d)).collect();
    match rng.below(6) {
        0 | 1 => {
            let i = rng.below(v.len());
            v[i].0 = rng.below(alphabet) as i64;
        }
        2 => {
            // An additional leaf.
            let i = rng.below(v.len());
            let (p, at) = (v[i].1, i + 1);
            let val = rng.below(alphabet) as i64;
            v.insert(at, (val, p + 1));
        }
        3 if v.len() > 1 => {
            // Change the depth of a node (with its descendants).
            let i = rng.range(1, v.len() - 1);
            if v[i].1 <= v[i - 1].1 && rng.bool() {
                v[i].1 += 1;
            } else if v[i].1 > 1 {
                v[i].1 -= 1;
            }
            for k in i + 1..v.len() {
                if v[k].1 > v[k - 1].1 + 1 {
                    v[k].1 = v[k - 1].1 + 1;
                }
            }
        }
        4 if v.len() > 1 => {
            v.pop();
        }
        _ => {
            let i = rng.below(v.len());
            let j = rng.below(v.len());
            let t = v[i].0;
            v[i].0 = v[j].0;
            v[j].0 = t;
        }
    }
    let dd: Vec<usize> = v.iter().map(|x| x.1).collect();
    let mut out = spec_of_depths(rng, &dd, 1);
    for (o, x) in out.iter_mut().zip(&v) {
        o.0 = x.0;
    }
    out
}

/// Realizes the tree as a subtree somewhere; returns the nodes in pre-order.
pub fn realize_spec<T: 'static>(
    rng: &mut Rng,
    s: &Spec,
    mk: &dyn Fn(i64) -> T,
    style: usize,
) -> Vec<Node<T>> {
    let par = parents(s);
    let mut nodes: Vec<Node<T>> = vec![];
    let ok = "harness: plain edit";
    match style % 6 {
        // As an own tree, in pre-order.
        0 => {
            for (i, (v, _)) in s.iter().enumerate() {
                if i == 0 {
                    nodes.push(Node::new_tree(mk(*v)));
                } else {
                    let g = nodes[0].tree().grant_hierarchy_edit().expect(ok);
                    let n = nodes[par[i]].create_as_last_child(&g, mk(*v));
                    nodes.push(n);
                }
            }
        }
        // Built from events.
        1 => {
            let mut b: TreeBuilder<T> = TreeBuilder::new();
            let d = depths(s);
            for (i, (v, _)) in s.iter().enumerate() {
                if i > 0 && d[i] <= d[i - 1] {
                    b.push_event(Event::Close(d[i - 1] - d[i] + 1)).expect(ok);
                }
                b.push_event(Event::Open(mk(*v))).expect(ok);
            }
            b.push_event(Event::Close(d[d.len() - 1] + 1)).expect(ok);
            let root = b.finish_opt().expect(ok);
            nodes = collect(&root);
        }
        // Children in reverse.
        2 => {
            let mut v: Vec<Option<Node<T>>> = vec![None; s.len()];
            v[0] = Some(Node::new_tree(mk(s[0].0)));
            for i in 0..s.len() {
                let kids: Vec<usize> = (1..s.len()).filter(|k| par[*k] == i).collect();
                let me = v[i].clone().expect(ok);
                let g = me.tree().grant_hierarchy_edit().expect(ok);
                let mut next: Option<Node<T>> = None;
                for k in kids.into_iter().rev() {
                    let n = match &next {
                        Some(m) if rng.bool() => m.create_as_prev_sibling(&g, mk(s[k].0)),
                        _ => me.create_as_first_child(&g, mk(s[k].0)),
                    };
                    next = Some(n.clone());
                    v[k] = Some(n);
                }
            }
            nodes = v.into_iter().map(|n| n.expect(ok)).collect();
        }
        // Bottom up by moving subtrees.
        3 => {
            let mut v: Vec<Node<T>> = s.iter().map(|(v, _)| Node::new_tree(mk(*v))).collect();
            for i in (0..s.len()).rev() {
                for k in i + 1..s.len() {
                    if par[k] == i {
                        let dest = v[i].clone().bundle_new_hierarchy_edit_grant().expect(ok);
                        let hot = v[k].clone().bundle_new_hierarchy_edit_grant().expect(ok);
                        hot.detach_insert_subtree(InsertAs::LastChildOf(&dest));
                    }
                }
            }
            nodes.append(&mut v);
        }
        // With interim nodes which are removed afterwards.
        4 => {
            let mut junk = vec![];
            for (i, (v, _)) in s.iter().enumerate() {
                if i == 0 {
                    nodes.push(Node::new_tree(mk(*v)));
                    continue;
                }
                let g = nodes[0].tree().grant_hierarchy_edit().expect(ok);
                if rng.bool() {
                    let j = nodes[par[i]].create_as_last_child(&g, mk(7));
                    if rng.bool() {
                        j.create_as_last_child(&g, mk(8));
                    }
                    junk.push((j, true));
                }
                let n = nodes[par[i]].create_as_last_child(&g, mk(*v));
                if rng.chance(1, 3) {
                    let j = n
                        .create_as_interrupting_parent(&g, mk(9));
                    junk.push((j, false));
                }
                nodes.push(n);
            }
            let g = nodes[0].tree().grant_hierarchy_edit().expect(ok);
            for (j, detach) in junk {
                if detach {
                    j.detach_subtree(&g);
                } else {
                    j.replace_with_children(&g);
                }
            }
        }
        // Inside of a larger tree.
        _ => {
            let mut root = Node::new_tree(mk(5));
            for _ in 0..rng.below(3) {
                let g = root.tree().grant_hierarchy_edit().expect(ok);
                root = root.create_as_last_child(&g, mk(6));
            }
            let g = root.tree().grant_hierarchy_edit().expect(ok);
            for i in 0..rng.below(3) {
                let n = root.create_as_last_child(&g, mk(i as i64));
                if rng.bool() {
                    n.create_as_last_child(&g, mk(1));
                }
            }
            for (i, (v, _)) in s.iter().enumerate() {
                let p = if i == 0 { root.clone() } else { nodes[par[i]].clone() };
                let n = p.create_as_last_child(&g, mk(*v));
                nodes.push(n);
            }
            for i in 0..rng.below(3) {
                let n = root.create_as_last_child(&g, mk(i as i64));
                if rng.bool() {
                    n.create_as_last_child(&g, mk(1));
                }
            }
        }
    }
    nodes
}

/// Nodes of the subtree in pre-order, by plain navigation.
pub fn collect<T>(root: &Node<T>) -> Vec<Node<T>> {
    let mut out = vec![];
    let mut stack = vec![root.clone()];
    while let Some(n) = stack.pop() {
        let mut kids = vec![];
        let mut c = n.first_child();
        while let Some(k) = c {
            c = k.next_sibling();
            kids.push(k);
            assert!(kids.len() < 1_000_000, "harness: endless siblings");
        }
        out.push(n);
        assert!(out.len() < 1_000_000, "harness: endless tree");
        stack.extend(kids.into_iter().rev());
    }
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want {
    Exactly(bool),
    /// The result is not determined without the borrowed data.
    Err,
    /// Either refused or false.
    FalseOrErr,
    /// Either refused or true (the very same node).
    TrueOrErr,
}

fn want(a: &Spec, b: &Spec, same: bool, ba: &[bool], bb: &[bool]) -> Want {
    let borrowed = ba.iter().any(|x| *x) || bb.iter().any(|x| *x);
    if same {
        return if borrowed {
            Want::TrueOrErr
        } else {
            Want::Exactly(true)
        };
    }
    if !borrowed {
        return Want::Exactly(a == b);
    }
    let shapes = a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.1 == y.1);
    if !shapes {
        return Want::FalseOrErr;
    }
    for i in 0..a.len() {
        if !ba[i] && !bb[i] && a[i].0 != b[i].0 {
            return Want::FalseOrErr;
        }
    }
    Want::Err
}

fn judge(what: &str, w: Want, got: Result<Result<bool, ()>, String>, can_panic: bool) -> R<()> {
    let txt = format!("{got:?}");
    let ok = match (w, got) {
        (Want::Exactly(e), Ok(Ok(g))) => e == g,
        (Want::Exactly(_), _) => false,
        (_, Err(_)) if can_panic => true,
        (Want::Err, Ok(Err(()))) => true,
        (Want::FalseOrErr, Ok(Ok(g))) => !g,
        (Want::FalseOrErr, Ok(Err(()))) => true,
        (Want::TrueOrErr, Ok(Ok(g))) => g,
        (Want::TrueOrErr, Ok(Err(()))) => true,
        _ => false,
    };
    ensure!(ok, tag::X, "{what} is {txt}, expected {w:?}");
    Ok(())
}

/// Compares all pairs of handle kinds in all forms.
macro_rules! all_forms {
    ($w:expr, $what:expr, $want:expr, $strict:expr, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let want = $want;
        let lenient = !matches!(want, Want::Exactly(_));
        judge(
            &format!("{}: a == b", $what),
            want,
            catch(|| Ok(*a == *b)),
            lenient,
        )?;
        judge(
            &format!("{}: b == a", $what),
            want,
            catch(|| Ok(*b == *a)),
            lenient,
        )?;
        judge(
            &format!("{}: a != b", $what),
            want,
            catch(|| Ok(!(*a != *b))),
            lenient,
        )?;
        $w.st.add(ct::USER2, 3);
    }};
}
macro_rules! ref_forms {
    ($w:expr, $what:expr, $want:expr, $a:expr, $b:expr) => {{
        let (a, b) = ($a, $b);
        let want = $want;
        let lenient = !matches!(want, Want::Exactly(_));
        judge(
            &format!("{}: a == &b", $what),
            want,
            catch(|| Ok(*a == b)),
            lenient,
        )?;
        judge(
            &format!("{}: &b == a", $what),
            want,
            catch(|| Ok(b == *a)),
            lenient,
        )?;
        judge(
            &format!("{}: &a == b", $what),
            want,
            catch(|| Ok(a == *b)),
            lenient,
        )?;
        judge(
            &format!("{}: b == &a", $what),
            want,
            catch(|| Ok(*b == a)),
            lenient,
        )?;
        $w.st.add(ct::USER2, 4);
    }};
}

trait EqT: PartialEq<Self> + Sized + 'static {}
impl<T: PartialEq<T> + 'static> EqT for T {}

fn compare_same<T: EqT>(
    w: &mut W<'_>,
    want: Want,
    a: &Node<T>,
    b: &Node<T>,
) -> R<()> {
    let (ha, hb) = (
        a.clone().bundle_new_hierarchy_edit_grant().ok(),
        b.clone().bundle_new_hierarchy_edit_grant().ok(),
    );
    all_forms!(w, "Node, Node", want, true, a, b);
    if let (Some(ha), Some(hb)) = (&ha, &hb) {
        all_forms!(w, "HotNode, HotNode", want, true, ha, hb);
    }
    if let Some(hb) = &hb {
        all_forms!(w, "Node, HotNode", want, true, a, hb);
        ref_forms!(w, "Node, HotNode", want, a, hb);
    }
    let fa = a.clone().bundle_new_hierarchy_edit_prohibition().ok();
    if let (Some(fa), Some(hb)) = (&fa, &hb) {
        all_forms!(w, "FrozenNode, HotNode", want, true, fa, hb);
        ref_forms!(w, "FrozenNode, HotNode", want, fa, hb);
    }
    drop((ha, hb));
    let fa = match fa {
        Some(f) => Some(f),
        None => a.clone().bundle_new_hierarchy_edit_prohibition().ok(),
    };
    let fb = b.clone().bundle_new_hierarchy_edit_prohibition().ok();
    if let (Some(fa), Some(fb)) = (&fa, &fb) {
        all_forms!(w, "FrozenNode, FrozenNode", want, true, fa, fb);
        all_forms!(w, "Node, FrozenNode", want, true, a, fb);
        ref_forms!(w, "Node, FrozenNode", want, a, fb);
    }
    Ok(())
}

fn try_forms<T: PartialEq<U>, U>(
    w: &mut W<'_>,
    what: &str,
    want: Want,
    a: &Node<T>,
    b: &Node<U>,
) -> R<()> {
    w.st.inc(ct::USER2);
    judge(
        &format!("{what} try_eq"),
        want,
        catch(|| a.try_eq(b).map_err(drop)),
        false,
    )
}

fn try_trees<T: PartialEq<U>, U>(
    w: &mut W<'_>,
    what: &str,
    want: Want,
    a: &Tree<T>,
    b: &Tree<U>,
) -> R<()> {
    w.st.inc(ct::USER2);
    judge(
        &format!("{what} Tree::try_eq"),
        want,
        catch(|| a.try_eq(b).map_err(drop)),
        false,
    )
}

fn text(s: &Spec) -> String {
    s.iter()
        .map(|(v, c)| format!("{v}/{c}"))
        .collect::<Vec<_>>()
        .join(" ")
}

/// Whether the tree can still be locked in both ways (nothing leaked).
fn unlocked<T>(n: &Node<T>, what: &str) -> R<()> {
    let t = n.tree();
    let a = t.grant_hierarchy_edit().is_ok();
    let b = t.prohibit_hierarchy_edit().is_ok();
    ensure!(a && b, tag::X, "{what} is locked after comparisons");
    Ok(())
}

fn check_content(nodes: &[Node<P>], s: &Spec) -> R<()> {
    let now = collect(&nodes[0]);
    let same = now.len() == nodes.len() && now.iter().zip(nodes).all(|(a, b)| a.ptr_eq(b));
    ensure!(same, tag::X, "the comparison changed the tree");
    for (n, (v, _)) in now.iter().zip(s) {
        let ok = n.try_borrow_data().map(|d| *d.heap == *v).unwrap_or(false);
        ensure!(ok, tag::X, "the comparison changed data");
    }
    Ok(())
}

pub fn case_c15(w: &mut W<'_>, pair: Option<(&[usize], &[usize])>) -> R<()> {
    let mut rng = w.rng.clone();
    let alphabet = rng.range(1, 3);
    let (sa, sb, relation) = match pair {
        Some((a, b)) => {
            let mk = |p: &[usize], rng: &mut Rng| -> Spec {
                p.iter()
                    .enumerate()
                    .map(|(i, _)| {
                        let c = p.iter().enumerate().skip(1).filter(|(_, q)| **q == i).count();
                        (rng.below(alphabet) as i64, c)
                    })
                    .collect()
            };
            (mk(a, &mut rng), mk(b, &mut rng), 0)
        }
        None => {
            let n = *rng.pick(&[1, 2, 3, 4, 5, 8, 16, 30]);
            let a = random_spec(&mut rng, n, alphabet);
            match rng.below(6) {
                0 | 1 => {
                    let b = a.clone();
                    (a, b, 1)
                }
                2 | 3 => {
                    let mut b = mutate(&mut rng, &a, alphabet);
                    if rng.bool() {
                        b = mutate(&mut rng, &b, alphabet);
                    }
                    (a, b, 2)
                }
                4 => {
                    let n = rng.range(1, n + 1);
                    let b = random_spec(&mut rng, n, alphabet);
                    (a, b, 3)
                }
                _ => {
                    let b = a.clone();
                    (a, b, 4)
                }
            }
        }
    };
    let (ya, yb) = (rng.below(6), rng.below(6));
    w.tr(format!(
        "a = [{}] (style {ya}), b = [{}] (style {yb}), relation {relation}",
        text(&sa),
        text(&sb)
    ));
    w.st.seen(hash2(
        sa.iter().fold(1, |h, x| hash2(h, (x.0 as u64) * 64 + x.1 as u64)),
        sb.iter()
            .fold(ya as u64 * 8 + yb as u64, |h, x| hash2(h, (x.0 as u64) * 64 + x.1 as u64)),
    ));
    let mk = |v: i64| P::new(v);
    let na = realize_spec(&mut rng, &sa, &mk, ya);
    // The operands may be in the same tree, or even the same node.
    let nb = match relation {
        4 if rng.bool() => na.clone(),
        4 => {
            let r = match na[0].parent() {
                Some(p) => p,
                None => {
                    let g = na[0].tree().grant_hierarchy_edit().expect("harness: grant");
                    na[0].create_as_interrupting_parent(&g, P::new(3))
                }
            };
            let h = r
                .bundle_new_hierarchy_edit_grant()
                .expect("harness: grant");
            // Equal content and data, but another node in the same tree.
            let tmp = realize_spec(&mut rng, &sb, &mk, 0);
            tmp[0]
                .clone()
                .bundle_new_hierarchy_edit_grant()
                .expect("harness: grant")
                .detach_insert_subtree(if rng.bool() {
                    InsertAs::LastChildOf(&h)
                } else {
                    InsertAs::FirstChildOf(&h)
                });
            tmp
        }
        _ => realize_spec(&mut rng, &sb, &mk, yb),
    };
    let same = na[0].ptr_eq(&nb[0]);
    off(check_content(&na, &sa).and(check_content(&nb, &sb)).map_err(|d| Div { tag: 0, ..d }))?;
    // Cross-type operand with the content of b.
    let stb = rng.below(6);
    let ib = realize_spec(&mut rng, &sb, &|v| v, stb);
    let none_a = vec![false; sa.len()];
    let none_b = vec![false; sb.len()];
    let plain = want(&sa, &sb, same, &none_a, &none_b);
    let cross = want(&sa, &sb, false, &none_a, &none_b);
    compare_same(w, plain, &na[0], &nb[0])?;
    try_forms(w, "Node<P>, Node<P>", plain, &na[0], &nb[0])?;
    try_forms(w, "Node<P>, Node<P> swapped", plain, &nb[0], &na[0])?;
    try_forms(w, "Node<P>, Node<i64>", cross, &na[0], &ib[0])?;
    try_forms(w, "Node<i64>, Node<P>", cross, &ib[0], &na[0])?;
    all_forms_cross(w, cross, &na[0], &ib[0])?;
    if na[0].is_root() && nb[0].is_root() && ib[0].is_root() {
        let (ta, tb, ti) = (na[0].tree(), nb[0].tree(), ib[0].tree());
        all_forms!(w, "Tree, Tree", plain, true, &ta, &tb);
        try_trees(w, "a, b", plain, &ta, &tb)?;
        try_trees(w, "b, a", plain, &tb, &ta)?;
        try_trees(w, "a, i64", cross, &ta, &ti)?;
        try_trees(w, "i64, a", cross, &ti, &ta)?;
        judge("Tree<P> == Tree<i64>", cross, catch(|| Ok(ta == ti)), false)?;
        judge("Tree<P> != Tree<i64>", cross, catch(|| Ok(!(ta != ti))), false)?;
        w.st.inc(ct::USER3);
    }
    // Subtrees of equal trees.
    if sa == sb && na.len() > 1 {
        let i = rng.below(na.len());
        try_forms(w, "corresponding subtrees", Want::Exactly(true), &na[i], &nb[i])?;
    }
    // With borrowed data, in the operands or outside of them.
    for _ in 0..3 {
        let (mut ba, mut bb) = (none_a.clone(), none_b.clone());
        let outside_a = na[0].parent();
        let outside_b = nb[0].next_sibling();
        let mut guards = vec![];
        let mut shared = vec![];
        let outside = rng.bool();
        if outside {
            if let Some(n) = &outside_a {
                guards.push(n.try_borrow_data_mut().map_err(|_| Div {
                    tag: tag::X,
                    msg: "data is still borrowed after comparisons".into(),
                })?);
            }
            if let Some(n) = &outside_b {
                let other = na.iter().any(|m| m.ptr_eq(n));
                if !other && outside_a.as_ref().map_or(true, |m| !m.ptr_eq(n)) {
                    guards.push(n.try_borrow_data_mut().map_err(|_| Div {
                        tag: tag::X,
                        msg: "data is still borrowed after comparisons".into(),
                    })?);
                }
            }
        }
        let k = rng.below(3);
        for _ in 0..k {
            let left = rng.bool();
            let (ns, bs) = if left { (&na, &mut ba) } else { (&nb, &mut bb) };
            let i = rng.below(ns.len());
            if rng.chance(1, 4) {
                if let Ok(g) = ns[i].try_borrow_data() {
                    shared.push(g);
                }
            } else if let Ok(g) = ns[i].try_borrow_data_mut() {
                guards.push(g);
                bs[i] = true;
            }
        }
        let any = ba.iter().chain(&bb).any(|x| *x);
        if same {
            // Both operands are the same nodes.
            for i in 0..ba.len() {
                let v = ba[i] || bb[i];
                ba[i] = v;
                bb[i] = v;
            }
        }
        w.tr(format!(
            "borrowed of a: {ba:?}, of b: {bb:?}, outside: {outside}"
        ));
        let wt = want(&sa, &sb, same, &ba, &bb);
        let wc = want(&sa, &sb, false, &ba, &none_b);
        try_forms(w, "borrowed: a, b", wt, &na[0], &nb[0])?;
        try_forms(w, "borrowed: b, a", wt, &nb[0], &na[0])?;
        try_forms(w, "borrowed: a, i64", wc, &na[0], &ib[0])?;
        try_forms(w, "borrowed: i64, a", wc, &ib[0], &na[0])?;
        compare_same(w, wt, &na[0], &nb[0])?;
        if na[0].is_root() && nb[0].is_root() {
            try_trees(w, "borrowed: a, b", wt, &na[0].tree(), &nb[0].tree())?;
            try_trees(w, "borrowed: b, a", wt, &nb[0].tree(), &na[0].tree())?;
        }
        if any {
            w.st.inc(ct::USER4);
        }
        drop(guards);
        drop(shared);
    }
    // Locks of other nodes of the trees do not matter.
    {
        let i = rng.below(na.len());
        let h = na[i].clone().bundle_new_hierarchy_edit_grant().ok();
        let f = nb[0].clone().bundle_new_hierarchy_edit_prohibition().ok();
        try_forms(w, "locked", plain, &na[0], &nb[0])?;
        drop((h, f));
    }
    check_content(&na, &sa)?;
    check_content(&nb, &sb)?;
    unlocked(&na[0], "a")?;
    unlocked(&nb[0], "b")?;
    unlocked(&ib[0], "the i64 tree")?;
    // Equality follows the data.
    if !same && sa == sb {
        let i = rng.below(na.len());
        if let Ok(mut d) = na[i].try_borrow_data_mut() {
            d.set(77);
        }
        try_forms(w, "after a change of data", Want::Exactly(false), &na[0], &nb[0])?;
        if let Ok(mut d) = nb[i].try_borrow_data_mut() {
            d.set(77);
        }
        try_forms(w, "after the same change", Want::Exactly(true), &na[0], &nb[0])?;
    }
    w.rng = rng;
    Ok(())
}

/// Comparisons of handles with different data types.
fn all_forms_cross(w: &mut W<'_>, want: Want, a: &Node<P>, b: &Node<i64>) -> R<()> {
    let lock = "harness: lock";
    let e = |what: &str, r: Result<bool, String>| judge(what, want, r.map(Ok), false);
    e("Node<P> == Node<i64>", catch(|| *a == *b))?;
    e("Node<P> != Node<i64>", catch(|| !(*a != *b)))?;
    {
        let ha: HotNode<P> = a.clone().bundle_new_hierarchy_edit_grant().expect(lock);
        let hb: HotNode<i64> = b.clone().bundle_new_hierarchy_edit_grant().expect(lock);
        e("HotNode<P> == HotNode<i64>", catch(|| ha == hb))?;
        e("Node<P> == HotNode<i64>", catch(|| *a == hb))?;
        e("HotNode<P> == Node<i64>", catch(|| ha == *b))?;
        e("HotNode<P> != Node<i64>", catch(|| !(ha != *b)))?;
        e("&Node<P> == HotNode<i64>", catch(|| a == hb))?;
        e("Node<P> == &HotNode<i64>", catch(|| *a == &hb))?;
    }
    {
        let fa: FrozenNode<P> = a.clone().bundle_new_hierarchy_edit_prohibition().expect(lock);
        let fb: FrozenNode<i64> = b.clone().bundle_new_hierarchy_edit_prohibition().expect(lock);
        e("FrozenNode<P> == FrozenNode<i64>", catch(|| fa == fb))?;
        e("FrozenNode<P> == Node<i64>", catch(|| fa == *b))?;
        e("Node<P> == FrozenNode<i64>", catch(|| *a == fb))?;
        e("&FrozenNode<P> == Node<i64>", catch(|| &fa == *b))?;
        drop(fb);
        let hb: HotNode<i64> = b.clone().bundle_new_hierarchy_edit_grant().expect(lock);
        e("FrozenNode<P> == HotNode<i64>", catch(|| fa == hb))?;
        e("FrozenNode<P> == &HotNode<i64>", catch(|| fa == &hb))?;
    }
    w.st.add(ct::USER2, 14);
    Ok(())
}
