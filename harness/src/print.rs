//! C17: pretty printing and debug formats.

use std::cell::Cell;
use std::fmt::{self, Write as _};

use dendron::serial::{Event, TreeBuilder};
use dendron::{Node, Tree};

use crate::cloneq::{collect, random_spec, realize_spec, Spec};
use crate::ensure;
use crate::payload::catch;
use crate::rng::{hash2, Rng};
use crate::world::*;

thread_local! {
    static DROPS: Cell<usize> = const { Cell::new(0) };
    static CLONES: Cell<usize> = const { Cell::new(0) };
}

/// Data with a given text for each format, written in the given pieces.
pub struct Txt {
    id: i64,
    /// Display, alternate display, debug, alternate debug.
    pieces: [Vec<String>; 4],
}
impl Drop for Txt {
    fn drop(&mut self) {
        DROPS.with(|c| c.set(c.get() + 1));
    }
}
impl Clone for Txt {
    fn clone(&self) -> Self {
        CLONES.with(|c| c.set(c.get() + 1));
        Txt {
            id: self.id,
            pieces: self.pieces.clone(),
        }
    }
}
fn put(f: &mut fmt::Formatter<'_>, p: &[String]) -> fmt::Result {
    for (i, s) in p.iter().enumerate() {
        let mut ch = s.chars();
        match (i % 3, ch.next(), ch.next()) {
            (1, Some(c), None) => f.write_char(c)?,
            (2, _, _) => write!(f, "{s}")?,
            _ => f.write_str(s)?,
        }
    }
    Ok(())
}
impl fmt::Display for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        put(f, &self.pieces[f.alternate() as usize])
    }
}
impl fmt::Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        put(f, &self.pieces[2 + f.alternate() as usize])
    }
}

const FRAG: [&str; 30] = [
    "a", "bb", "", "\n", "\n\n", " ", "x\ny", "|-- ", "`-- ", "    ", "\u{e9}", "\t", "q\n", "\nz",
    "|", "0", "\"", "`--", "  w", "k", "u\rv", "u\r\nv", "u\u{85}v", "u\u{2028}v", "u\u{b}v",
    "u\u{c}v", "\u{a0}w", "u\0v", "\u{feff}", "\u{1f333}",
];

fn random_pieces(rng: &mut Rng, style: usize) -> Vec<String> {
    let n = match style {
        0 => 1,
        1 => rng.below(3),
        _ => rng.below(7),
    };
    let mut v = vec![];
    for _ in 0..n {
        v.push(match style {
            0 => ["n", "node", "x y"][rng.below(3)].to_string(),
            _ => FRAG[rng.below(FRAG.len())].to_string(),
        });
    }
    v
}

/// Lines of the content of a node.
fn content(p: &[String]) -> Vec<String> {
    let t = p.concat();
    let mut v: Vec<String> = t.split('\n').map(String::from).collect();
    if v.len() > 1 && v[v.len() - 1].is_empty() {
        // The line break that ends the last line starts no other one.
        v.pop();
    }
    v
}

enum Line {
    Is(String),
    /// Starts with the text and is marked as borrowed.
    Borrowed(String),
}

fn render(s: &Spec, at: usize, texts: &dyn Fn(usize) -> Vec<String>, borrowed: &[bool]) -> Vec<Line> {
    // Position, is last, prefix of the block of the parent.
    let mut out = vec![];
    let mut i = at;
    fn go(
        s: &Spec,
        i: &mut usize,
        pre: &str,
        mark: Option<bool>,
        texts: &dyn Fn(usize) -> Vec<String>,
        borrowed: &[bool],
        out: &mut Vec<Line>,
    ) {
        let (first, rest) = match mark {
            None => (String::new(), String::new()),
            Some(true) => (format!("{pre}`-- "), format!("{pre}    ")),
            Some(false) => (format!("{pre}|-- "), format!("{pre}|   ")),
        };
        if borrowed[*i] {
            out.push(Line::Borrowed(first));
        } else {
            for (k, l) in texts(*i).into_iter().enumerate() {
                out.push(Line::Is(format!("{}{l}", if k == 0 { &first } else { &rest })));
            }
        }
        let n = s[*i].1;
        *i += 1;
        for k in 0..n {
            go(s, i, &rest, Some(k + 1 == n), texts, borrowed, out);
        }
    }
    go(s, &mut i, "", None, texts, borrowed, &mut out);
    out
}

fn compare(what: &str, got: &str, want: &[Line]) -> R<()> {
    let mut g: Vec<&str> = got.split('\n').map(|l| l.trim_end()).collect();
    while g.len() > want.len() && g.last().map_or(false, |l| l.is_empty()) {
        g.pop();
    }
    for (i, l) in want.iter().enumerate() {
        let have = g.get(i).copied();
        let (ok, exp) = match l {
            Line::Is(t) => (
                have == Some(t.trim_end())
                    || (have.is_none()
                        && want[i..]
                            .iter()
                            .all(|l| matches!(l, Line::Is(t) if t.trim_end().is_empty()))),
                t.clone(),
            ),
            Line::Borrowed(p) => (
                have.map_or(false, |h| {
                    h.strip_prefix(&**p).map_or(false, |r| r.contains("borrow"))
                }),
                format!("{p}(borrowed)"),
            ),
        };
        ensure!(
            ok,
            tag::X,
            "{what}: line {i} is {have:?}, expected {exp:?}; the entire output: {got:?}"
        );
    }
    ensure!(
        g.len() <= want.len(),
        tag::X,
        "{what}: {} lines instead of {}; the entire output: {got:?}",
        g.len(),
        want.len()
    );
    Ok(())
}

/// A sink that refuses the n-th write, or all from the n-th.
struct Failing {
    left: usize,
    once: bool,
    failed: bool,
    /// Text before the failure.
    text: String,
}
impl fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.left == 0 && !(self.once && self.failed) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left = self.left.saturating_sub(1);
        if !self.failed {
            self.text.push_str(s);
        }
        Ok(())
    }
}
fn failing_sink(rng: &mut Rng, what: &str, f: impl Fn(&mut Failing) -> fmt::Result, whole: &str) -> R<()> {
    // How many writes there are.
    let mut dry = Failing { left: usize::MAX, once: false, failed: false, text: String::new() };
    let total = match catch(|| f(&mut dry)) {
        Ok(_) => usize::MAX - dry.left,
        Err(m) => return dv(tag::PANIC, format!("{what} panicked: {m}")),
    };
    for _ in 0..4 {
        failing_once(rng.below(total + 2), rng.bool(), what, &f, whole)?;
    }
    Ok(())
}
fn failing_once(left: usize, once: bool, what: &str, f: impl Fn(&mut Failing) -> fmt::Result, whole: &str) -> R<()> {
    let mut sink = Failing { left, once, failed: false, text: String::new() };
    match catch(|| f(&mut sink)) {
        Ok(r) => {
            ensure!(r.is_err() == sink.failed, tag::X, "{what} returned {r:?}, the sink failed: {}", sink.failed);
            ensure!(
                sink.text == whole || (sink.failed && whole.starts_with(&sink.text)),
                tag::X, "{what}: {:?} was written before the sink failed ({}), the whole is {whole:?}", sink.text, sink.failed
            );
            Ok(())
        }
        Err(m) => dv(tag::PANIC, format!("{what} to a failing sink panicked: {m}")),
    }
}

fn fmt_no_panic(what: &str, f: impl FnOnce() -> String) -> R<String> {
    match catch(f) {
        Ok(s) => Ok(s),
        Err(m) => dv(tag::PANIC, format!("{what} panicked: {m}")),
    }
}

/// The four renderings of a pretty print.
fn four<T: fmt::Display + fmt::Debug>(what: &str, p: T) -> R<[String; 4]> {
    Ok([
        fmt_no_panic(what, || format!("{p}"))?,
        fmt_no_panic(what, || format!("{p:#}"))?,
        fmt_no_panic(what, || format!("{p:?}"))?,
        fmt_no_panic(what, || format!("{p:#?}"))?,
    ])
}

fn check_four(
    w: &mut W<'_>,
    what: &str,
    out: [String; 4],
    s: &Spec,
    at: usize,
    data: &[[Vec<String>; 4]],
    borrowed: &[bool],
) -> R<()> {
    for (k, name) in ["{}", "{:#}", "{:?}", "{:#?}"].iter().enumerate() {
        let texts = |i: usize| content(&data[i][k]);
        let want = render(s, at, &texts, borrowed);
        compare(&format!("{what} with {name}"), &out[k], &want)?;
        w.st.inc(ct::USER1);
        w.st.add(ct::ITEMS, want.len());
    }
    Ok(())
}

fn subtree_len(s: &Spec, at: usize) -> usize {
    let mut need = 1;
    let mut n = 0;
    while need > 0 {
        need += s[at + n].1;
        need -= 1;
        n += 1;
    }
    n
}

/// Markers `<id>` found in the text with the bracket depth, and marks of borrowed data.
enum Found {
    Id(i64, usize),
    Borrowed(usize),
}
fn scan(t: &str) -> Vec<Found> {
    let b = t.as_bytes();
    let mut out = vec![];
    let mut depth = 0usize;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'[' | b'{' | b'(' => depth += 1,
            b']' | b'}' | b')' => depth = depth.saturating_sub(1),
            b'%' => {
                let end = t[i + 1..].find('%').map(|e| i + 1 + e).unwrap_or(b.len());
                if let Ok(v) = t[i + 1..end].parse() {
                    out.push(Found::Id(v, depth));
                }
                i = end;
            }
            b'b' if t[i..].starts_with("borrowed") => out.push(Found::Borrowed(depth)),
            _ => {}
        }
        i += 1;
    }
    out
}

/// Which nodes a debug output may and must show.
fn check_debug(
    what: &str,
    text: &str,
    s: &Spec,
    depth: &[usize],
    ids: &[i64],
    at: usize,
    n: usize,
    borrowed: &[bool],
) -> R<()> {
    let f = scan(text);
    ensure!(
        f.len() == n,
        tag::X,
        "{what} shows data of {} nodes instead of {n}: {text:?}",
        f.len()
    );
    let mut pairs: Vec<(usize, usize)> = vec![];
    for (k, x) in f.iter().enumerate() {
        let i = at + k;
        let d = match x {
            Found::Id(v, d) => {
                ensure!(
                    *v == ids[i] && !borrowed[i],
                    tag::X,
                    "{what}: the data at the place {k} is {v}, expected {} (borrowed: {}): {text:?}",
                    ids[i],
                    borrowed[i]
                );
                *d
            }
            Found::Borrowed(d) => {
                ensure!(
                    borrowed[i],
                    tag::X,
                    "{what}: the data at the place {k} is shown as borrowed: {text:?}"
                );
                *d
            }
        };
        pairs.push((depth[i], d));
    }
    for a in &pairs {
        for b in &pairs {
            ensure!(
                (a.0 < b.0) == (a.1 < b.1),
                tag::X,
                "{what}: the nesting does not follow the tree {s:?}: {text:?}"
            );
        }
    }
    Ok(())
}

/// The local debug output may tell which neighbours exist.
fn check_local(what: &str, text: &str, n: &Node<Txt>) -> R<()> {
    let flat: String = text.split_whitespace().collect::<Vec<_>>().join(" ");
    for (key, has) in [
        ("parent: ", n.parent().is_some()),
        ("prev_sibling: ", n.prev_sibling().is_some()),
        ("next_sibling: ", n.next_sibling().is_some()),
        ("first_child: ", n.first_child().is_some()),
    ] {
        if let Some(p) = flat.find(key) {
            let v = &flat[p + key.len()..];
            ensure!(
                (has && v.starts_with("Some(")) || (!has && v.starts_with("None")),
                tag::X,
                "{what}: {key} is wrong: {text:?}"
            );
        }
    }
    Ok(())
}

pub fn case_c17(w: &mut W<'_>, shape: Option<&[usize]>) -> R<()> {
    let mut rng = w.rng.clone();
    let mut s: Spec = match shape {
        Some(p) => p
            .iter()
            .enumerate()
            .map(|(i, _)| {
                (
                    0,
                    p.iter().skip(1).filter(|q| **q == i).count(),
                )
            })
            .collect(),
        None => {
            let n = *rng.pick(&[1, 2, 3, 5, 8, 14, 25]);
            random_spec(&mut rng, n, 1)
        }
    };
    for (i, x) in s.iter_mut().enumerate() {
        x.0 = 100 + i as i64;
    }
    let style = if shape.is_some() { 0 } else { rng.below(4) };
    let data: Vec<[Vec<String>; 4]> = s
        .iter()
        .map(|_| {
            [
                random_pieces(&mut rng, style),
                random_pieces(&mut rng, style),
                random_pieces(&mut rng, style),
                random_pieces(&mut rng, style),
            ]
        })
        .collect();
    let ys = rng.below(6);
    w.tr(format!("tree {s:?} (style {ys}), texts {data:?}"));
    let mk = |v: i64| Txt {
        id: v,
        pieces: if v >= 100 {
            data[v as usize - 100].clone()
        } else {
            let j = vec!["OUTSIDE".to_string()];
            [j.clone(), j.clone(), j.clone(), j]
        },
    };
    // The same tree with markers as data, for the debug formats.
    let mk2 = |v: i64| {
        let j = vec![format!("%{v}%")];
        Txt {
            id: v,
            pieces: [j.clone(), j.clone(), j.clone(), j],
        }
    };
    let a = realize_spec(&mut rng, &s, &mk, ys);
    let b = realize_spec(&mut rng, &s, &mk2, ys);
    let d0 = (DROPS.with(|c| c.get()), CLONES.with(|c| c.get()));
    let same = collect(&a[0]).len() == s.len() && collect(&b[0]).len() == s.len();
    ensure!(same, 0, "harness: the tree was not realized");
    let depth: Vec<usize> = b.iter().map(|n| n.count_ancestors()).collect();
    let ids: Vec<i64> = s.iter().map(|x| x.0).collect();
    w.st.seen(s.iter().zip(&data).fold(ys as u64, |h, (x, d)| {
        let mut h = hash2(h, x.1 as u64);
        for c in d[0].concat().bytes() {
            h = hash2(h, c as u64);
        }
        h
    }));

    for round in 0..3 {
        let at = if round == 0 { 0 } else { rng.below(s.len()) };
        let n = subtree_len(&s, at);
        // Borrow some data, inside and outside of the printed part.
        let mut borrowed = vec![false; s.len()];
        let outside = (a[0].parent(), b[0].parent());
        let mut guards = vec![];
        let mut shared = vec![];
        if round > 0 {
            for _ in 0..rng.below(3) {
                let i = rng.below(s.len());
                if rng.chance(1, 4) {
                    shared.extend(a[i].try_borrow_data().ok());
                    shared.extend(b[i].try_borrow_data().ok());
                    continue;
                }
                if let (Ok(x), Ok(y)) = (a[i].try_borrow_data_mut(), b[i].try_borrow_data_mut()) {
                    guards.push(x);
                    guards.push(y);
                    borrowed[i] = true;
                }
            }
            if let (Some(x), Some(y)) = (&outside.0, &outside.1) {
                guards.extend(x.try_borrow_data_mut().ok());
                guards.extend(y.try_borrow_data_mut().ok());
            }
        }
        w.tr(format!("print at {at}, borrowed {borrowed:?}"));
        w.st.add(ct::USER2, borrowed.iter().filter(|b| **b).count());

        // Pretty printing.
        let out = four("Node::debug_pretty_print", a[at].debug_pretty_print())?;
        check_four(w, "Node::debug_pretty_print", out, &s, at, &data, &borrowed)?;
        if rng.bool() {
            if let Ok(h) = a[at].clone().bundle_new_hierarchy_edit_grant() {
                let out = four("HotNode::debug_pretty_print", h.debug_pretty_print())?;
                check_four(w, "HotNode::debug_pretty_print", out, &s, at, &data, &borrowed)?;
            }
        } else if let Ok(h) = a[at].clone().bundle_new_hierarchy_edit_prohibition() {
            let out = four("FrozenNode::debug_pretty_print", h.debug_pretty_print())?;
            check_four(w, "FrozenNode::debug_pretty_print", out, &s, at, &data, &borrowed)?;
        }
        if a[0].is_root() {
            let t = a[0].tree();
            let out = four("Tree::debug_pretty_print", t.debug_pretty_print())?;
            check_four(w, "Tree::debug_pretty_print", out, &s, 0, &data, &borrowed)?;
        }
        // A failing sink is reported and not more.
        for k in 0..3 {
            let p = a[at].debug_pretty_print();
            match k {
                0 => failing_sink(&mut rng, "{} of the pretty print", |s| write!(s, "{p}"), &format!("{p}"))?,
                1 => failing_sink(&mut rng, "{:#?} of the pretty print", |s| write!(s, "{p:#?}"), &format!("{p:#?}"))?,
                _ => {
                    let t = a[at].tree();
                    let p = t.debug_pretty_print();
                    failing_sink(&mut rng, "{:?} of the pretty print", |s| write!(s, "{p:?}"), &format!("{p:?}"))?
                }
            }
            let p = a[at].debug_print_subtree();
            failing_sink(&mut rng, "debug_print_subtree", |s| write!(s, "{p:?}"), &format!("{p:?}"))?;
        }
        for (k, f) in [
            format!("{:>12}", 1),
            fmt_no_panic("width", || format!("{:>12}", a[at].debug_pretty_print()))?,
            fmt_no_panic("precision", || format!("{:.2}", a[at].debug_pretty_print()))?,
            fmt_no_panic("debug hex", || format!("{:08x?}", a[at].debug_pretty_print()))?,
        ]
        .iter()
        .enumerate()
        {
            let _ = (k, f);
        }

        // Debug formats, all handles.
        let m = &b[at];
        let local = |what: &str, t: String| -> R<()> {
            check_debug(what, &t, &s, &depth, &ids, at, 1, &borrowed)?;
            check_local(what, &t, m)
        };
        let sub = |what: &str, t: String| -> R<()> {
            check_debug(what, &t, &s, &depth, &ids, at, n, &borrowed)
        };
        macro_rules! forms {
            ($check:ident, $name:expr, $v:expr) => {{
                let v = $v;
                $check($name, fmt_no_panic($name, || format!("{v:?}"))?)?;
                $check(
                    concat!($name, " (alternate)"),
                    fmt_no_panic($name, || format!("{v:#?}"))?,
                )?;
                w.st.add(ct::USER3, 2);
            }};
        }
        let none = |what: &str, t: String| -> R<()> {
            let f = scan(&t);
            ensure!(f.is_empty(), tag::X, "{what} shows data of nodes: {t:?}");
            Ok(())
        };
        let any = |_: &str, _: String| -> R<()> { Ok(()) };
        forms!(local, "Debug of Node", m);
        forms!(local, "Node::debug_print_local", m.debug_print_local());
        forms!(sub, "Node::debug_print_subtree", m.debug_print_subtree());
        forms!(any, "Debug of NodeWeak", m.downgrade());
        {
            // A weak reference shows its target (if any) at most.
            let t = format!("{:?}", m.downgrade());
            for f in scan(&t) {
                if let Found::Id(v, _) = f {
                    ensure!(
                        v == ids[at],
                        tag::X,
                        "Debug of NodeWeak shows data of another node: {t:?}"
                    );
                }
            }
        }
        let tree = m.tree();
        forms!(none, "Debug of Tree", &tree);
        forms!(none, "Tree::debug_print_local", tree.debug_print_local());
        forms!(any, "Debug of TreeWeak", tree.downgrade());
        if b[0].is_root() {
            let all = |what: &str, t: String| -> R<()> {
                check_debug(what, &t, &s, &depth, &ids, 0, s.len(), &borrowed)
            };
            forms!(all, "Tree::debug_print", tree.debug_print());
        }
        {
            let g = tree.grant_hierarchy_edit();
            if let Ok(g) = &g {
                let _ = g;
                if let Ok(h) = m.clone().bundle_new_hierarchy_edit_grant() {
                    forms!(local, "Debug of HotNode", &h);
                    forms!(local, "HotNode::debug_print_local", h.debug_print_local());
                    forms!(sub, "HotNode::debug_print_subtree", h.debug_print_subtree());
                }
                forms!(any, "Debug of HierarchyEditProhibitionError", tree.prohibit_hierarchy_edit().err());
            }
        }
        {
            let g = tree.prohibit_hierarchy_edit();
            if let Ok(g) = &g {
                let _ = g;
                forms!(any, "Debug of HierarchyEditGrantError", tree.grant_hierarchy_edit().err());
                if let Ok(h) = m.clone().bundle_new_hierarchy_edit_prohibition() {
                    forms!(local, "Debug of FrozenNode", &h);
                    forms!(local, "FrozenNode::debug_print_local", h.debug_print_local());
                    forms!(sub, "FrozenNode::debug_print_subtree", h.debug_print_subtree());
                    forms!(any, "Debug of StableDepthFirstTraverser", h.depth_first_traverse_stable());
                    forms!(any, "Debug of StableShallowDepthFirstTraverser", h.shallow_depth_first_traverse_stable(Some(2)));
                    forms!(any, "Debug of StableSiblingsTraverser", h.siblings_stable());
                    forms!(any, "Debug of AllocatingBreadthFirstTraverser", h.allocating_breadth_first_traverse_stable(0));
                    forms!(any, "Debug of NonAllocatingBreadthFirstTraverser", h.non_allocating_breadth_first_traverse_stable(1));
                }
            }
        }
        forms!(any, "Debug of DepthFirstTraverser", m.depth_first_traverse());
        forms!(any, "Debug of ReverseDepthFirstTraverser", m.depth_first_reverse_traverse());
        forms!(any, "Debug of SiblingsTraverser", m.siblings());
        forms!(any, "Debug of ReverseSiblingsTraverser", m.siblings_reverse());
        forms!(any, "Debug of AncestorsTraverser", m.ancestors());
        forms!(any, "Debug of TreeSerializeIter", m.to_events());
        {
            let mut it = m.depth_first_traverse();
            for _ in 0..rng.below(6) {
                it.next();
            }
            forms!(any, "Debug of an advanced traverser", &it);
            let left = it.count();
            ensure!(left <= 2 * n, tag::X, "printing changed a traverser");
        }
        drop(guards);
        drop(shared);
        // Nothing changed.
        let d1 = (DROPS.with(|c| c.get()), CLONES.with(|c| c.get()));
        for (what, ns) in [("a", &a), ("b", &b)] {
            let now = collect(&ns[0]);
            let ok = now.len() == ns.len()
                && now.iter().zip(ns).all(|(x, y)| x.ptr_eq(y))
                && now
                    .iter()
                    .zip(&ids)
                    .all(|(x, i)| x.try_borrow_data_mut().map_or(false, |d| d.id == *i));
            ensure!(ok, tag::X, "printing changed tree {what}");
            let t = ns[0].tree();
            let g = t.grant_hierarchy_edit().is_ok();
            let p = t.prohibit_hierarchy_edit().is_ok();
            ensure!(g && p, tag::X, "printing changed the locks of tree {what}");
        }
        ensure!(d0 == d1, tag::X, "printing dropped or cloned data");
    }
    // Dropped targets of weak references, and odd states.
    let nw: Vec<_> = b.iter().map(|n| n.downgrade()).collect();
    let tw = b[0].tree().downgrade();
    let keep: Option<Tree<Txt>> = if rng.bool() { Some(b[0].tree()) } else { None };
    drop(b);
    for x in &nw {
        for t in [
            fmt_no_panic("Debug of NodeWeak", || format!("{x:?}"))?,
            fmt_no_panic("Debug of NodeWeak", || format!("{x:#?}"))?,
        ] {
            ensure!(
                keep.is_some() || scan(&t).is_empty(),
                tag::X,
                "Debug of a dangling NodeWeak shows data: {t:?}"
            );
        }
    }
    fmt_no_panic("Debug of TreeWeak", || format!("{tw:?} {tw:#?}"))?;
    let mut tb: TreeBuilder<Txt> = TreeBuilder::new();
    fmt_no_panic("Debug of TreeBuildError", || {
        format!("{:?}", tb.push_event(Event::Close(1)))
    })?;
    w.st.inc(ct::USER4);
    w.rng = rng;
    Ok(())
}
