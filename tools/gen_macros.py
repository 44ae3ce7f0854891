"""Generator of programs made of random tree literals (C22).

`generate(outdir, seed, rounds, per_bin)` writes a cargo workspace with two
packages (one names the crate `dendron`, edition 2021; the other one renames
it, edition 2018), each with some programs.  Each program runs its literals,
records the order in which the data expressions are evaluated, walks the result
and compares it with the tree which the generator wrote down.
"""
import os, random, textwrap

SUPPORT = r'''
use crate::dn;
use std::cell::{Cell, RefCell};


thread_local! {
    static LOG: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
/// Records one evaluation and passes the value through.
pub fn lg<V>(k: u32, v: V) -> V {
    LOG.with(|l| l.borrow_mut().push(k));
    v
}
pub fn fails<V>(k: u32) -> Result<V, String> {
    LOG.with(|l| l.borrow_mut().push(k));
    Err(String::from("stop"))
}
pub fn panics<V>(k: u32) -> V {
    LOG.with(|l| l.borrow_mut().push(k));
    panic!("stop")
}
/// A value shared by the expressions, each of which borrows it until its end.
pub struct Shared(RefCell<u64>);
pub struct Turn<'a>(std::cell::RefMut<'a, u64>);
impl Shared {
    pub fn new() -> Self {
        Shared(RefCell::new(0))
    }
    pub fn turn(&self) -> Turn<'_> {
        Turn(self.0.borrow_mut())
    }
}
impl Turn<'_> {
    pub fn pass<V>(&mut self, v: V) -> V {
        *self.0 += 1;
        v
    }
}
pub fn take_log() -> Vec<u32> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Counted, neither `Clone` nor `Copy`.
#[derive(Debug)]
pub struct Rec {
    pub id: i64,
    pub name: String,
    pub mark: Mark,
}
#[derive(Debug)]
pub struct Mark(());
impl Mark {
    pub fn new() -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Mark(())
    }
}
impl Drop for Mark {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
impl Rec {
    pub fn new(id: i64) -> Self {
        Rec { id, name: format!("r{}", id), mark: Mark::new() }
    }
    pub fn named(self, s: &str) -> Self {
        Rec { id: self.id, name: s.to_owned(), mark: self.mark }
    }
}
#[macro_export]
macro_rules! same {
    ($e:expr) => { $e };
    ($($t:tt)*) => { compile_error!("unexpected") };
}
#[macro_export]
macro_rules! rec {
    ($k:expr, $id:expr) => { $crate::support::lg($k, $crate::support::Rec::new($id)) };
}

pub trait Show {
    fn show(&self) -> String;
}
impl Show for i64 { fn show(&self) -> String { format!("{}", self) } }
impl Show for String { fn show(&self) -> String { self.clone() } }
impl Show for &'static str { fn show(&self) -> String { (*self).to_owned() } }
impl Show for () { fn show(&self) -> String { String::from("unit") } }
impl Show for Rec { fn show(&self) -> String { format!("{}/{}", self.id, self.name) } }
impl Show for Option<i64> { fn show(&self) -> String { format!("{:?}", self) } }
impl Show for Vec<i64> { fn show(&self) -> String { format!("{:?}", self) } }
impl Show for [i64; 2] { fn show(&self) -> String { format!("{:?}", self) } }
impl Show for (i64, String) { fn show(&self) -> String { format!("{}~{}", self.0, self.1) } }
impl Show for Box<dyn Fn() -> i64> { fn show(&self) -> String { format!("{}", self()) } }
impl Show for fn(i64) -> i64 { fn show(&self) -> String { format!("{}", self(1)) } }
impl Show for dn::Node<i64> {
    fn show(&self) -> String {
        let mut v = vec![];
        walk(self, &mut |d, n| v.push(format!("{}:{}", d, n.borrow_data())));
        v.join(" ")
    }
}

pub fn walk<T>(root: &dn::Node<T>, f: &mut dyn FnMut(usize, &dn::Node<T>)) {
    let mut cur = root.clone();
    let mut depth = 0;
    loop {
        f(depth, &cur);
        if let Some(c) = cur.first_child() {
            cur = c;
            depth += 1;
            continue;
        }
        loop {
            if depth == 0 {
                return;
            }
            if let Some(s) = cur.next_sibling() {
                cur = s;
                break;
            }
            cur = cur.parent().expect("parent below the root");
            depth -= 1;
        }
    }
}

pub type Exp = &'static [(usize, &'static str)];
pub type Res = Result<(), String>;

fn order(n: usize) -> Res {
    let log = take_log();
    if log != (0..n as u32).collect::<Vec<_>>() {
        return Err(format!("the {} data expressions were evaluated in the order {:?}", n, log));
    }
    Ok(())
}

/// The tree which one evaluation of a literal returned, against what is written.
pub fn check<T: Show>(root: &dn::Node<T>, tree: &dn::Tree<T>, exp: Exp) -> Res {
    order(exp.len())?;
    let mut got = vec![];
    let mut bad = None;
    walk(root, &mut |d, n| {
        got.push((d, n.try_borrow_data().map_or_else(|_| String::from("<borrowed>"), |v| v.show())));
        if !n.tree().ptr_eq(tree) || !n.tree().root().ptr_eq(root) {
            bad = Some("a node belongs to another tree");
        }
        if n.is_root() != (d == 0) {
            bad = Some("is_root() is wrong");
        }
    });
    if let Some(m) = bad {
        return Err(m.to_owned());
    }
    let want: Vec<(usize, String)> = exp.iter().map(|(d, s)| (*d, (*s).to_owned())).collect();
    if got != want {
        return Err(format!("got {:?}, written {:?}", got, want));
    }
    // The same once more with the traversal of the crate.
    let mut dft = vec![];
    let mut depth = 0;
    for ev in root.depth_first_traverse() {
        match ev {
            dn::traverse::DftEvent::Open(n) => {
                dft.push((depth, n.borrow_data().show()));
                depth += 1;
            }
            dn::traverse::DftEvent::Close(_) => depth -= 1,
        }
    }
    if dft != want {
        return Err(format!("the traversal returned {:?}, written {:?}", dft, want));
    }
    // Unlocked: both kinds of lock can be acquired.
    if tree.grant_hierarchy_edit().is_err() {
        return Err("the edit of the new tree is prohibited".into());
    }
    if tree.prohibit_hierarchy_edit().is_err() {
        return Err("the edit of the new tree is granted".into());
    }
    // No borrow of the data is left.
    let mut bad = false;
    walk(root, &mut |_, n| bad |= n.try_borrow_data_mut().is_err());
    if bad {
        return Err("the data is still borrowed".into());
    }
    Ok(())
}

/// Two evaluations of one literal: two new trees.
pub fn pair<T: Show>(mut f: impl FnMut() -> Result<(dn::Node<T>, dn::Tree<T>), String>, exp: Exp) -> Res {
    take_log();
    let l0 = live();
    {
        let (r1, t1) = f()?;
        check(&r1, &t1, exp)?;
        let (r2, t2) = f()?;
        check(&r2, &t2, exp)?;
        if t1.ptr_eq(&t2) || r1.belongs_to_same_tree(&r2) || r1.ptr_eq(&r2) {
            return Err("two evaluations returned the same tree".into());
        }
        // Still the first tree, and editable.
        let g = t1.grant_hierarchy_edit().map_err(|e| format!("{:?}", e))?;
        drop(g);
        drop((r1, t1));
        let mut n = 0;
        walk(&r2, &mut |_, _| n += 1);
        if n != exp.len() {
            return Err("the second tree lost nodes with the first one".into());
        }
    }
    if live() != l0 {
        return Err(format!("{} values are still alive", live() - l0));
    }
    Ok(())
}

/// A literal whose expression `k` leaves the evaluation early.
pub fn abort<T>(f: impl FnOnce() -> Result<T, String>, k: u32, n: usize) -> Res {
    take_log();
    let l0 = live();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let left = matches!(r, Err(_) | Ok(Err(_)));
    drop(r);
    if !left {
        return Err(format!("an expression of {} left the literal early, but it has a value", n));
    }
    order(k as usize + 1)?;
    if live() != l0 {
        return Err(format!("{} values are still alive", live() - l0));
    }
    Ok(())
}

pub fn main(cases: &[(u32, fn() -> Res)]) {
    std::panic::set_hook(Box::new(|_| {}));
    for (i, f) in cases {
        println!("START {}", i);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        match r {
            Ok(Ok(())) => println!("OK {}", i),
            Ok(Err(m)) => println!("FAIL {} {}", i, m.replace('\n', " ")),
            Err(e) => println!(
                "FAIL {} panicked: {}", i,
                e.downcast_ref::<String>().map(|s| &**s)
                    .or_else(|| e.downcast_ref::<&str>().copied()).unwrap_or("?")
            ),
        }
    }
    println!("END");
}
'''

TYPES = {
    'i64': 'i64', 'str': "&'static str", 'string': 'String', 'unit': '()',
    'rec': 'Rec', 'opt': 'Option<i64>', 'vec': 'Vec<i64>', 'arr': '[i64; 2]',
    'tup': '(i64, String)', 'fun': 'Box<dyn Fn() -> i64>', 'fp': 'fn(i64) -> i64',
    'node': 'N<i64>',
}


def value(t, v, rng):
    """(expression without effect, what `show` prints)."""
    if t == 'i64':
        return rng.choice([f'{v}', f'{v}_i64', f'({v - 1} + 1)', f'-(-{v})', f'i64::from({v % 100}_u8) + {v - v % 100}',
                           f'"{v}".parse().unwrap()', f'{v}_i32.into()', f'[{v}].iter().sum()']), str(v)
    if t == 'str':
        s = rng.choice([f's{v}', f'', f's{v}, [/("x", [])]', '/', f'{v}"]'])
        return 'r##"%s"##' % s, s
    if t == 'string':
        s = f's{v}'
        return rng.choice([f'String::from("{s}")', f'format!("s{{}}", {v})', f'"{s}".to_owned()', f'"{s}".into()', f'"{s}".chars().collect()', f'"{s}".parse().unwrap()', f'["s", "{v}"].concat()']), s
    if t == 'unit':
        return rng.choice(['()', '{}', '{ let _ = 1; }', 'drop(3)']), 'unit'
    if t == 'rec':
        return rng.choice([
            f'Rec::new({v})', f'Rec {{ id: {v}, name: "r{v}".into(), mark: Mark::new() }}',
            f'Rec::new({v}).named("r{v}")',
        ]), f'{v}/r{v}'
    if t == 'opt':
        return (rng.choice([f'Some({v})', f'Some({v} - 1).map(|x| x + 1)', f'None.or(Some({v}))']), f'Some({v})') if rng.random() < .8 else (rng.choice(['None', 'Default::default()']), 'None')
    if t == 'vec':
        n = rng.randrange(4)
        if n == 0 and rng.random() < .5:
            return rng.choice(['Vec::new()', 'Default::default()']), '[]'
        if rng.random() < .3:
            return f'({v}..{v + n}).collect()', '[%s]' % ', '.join(str(v + i) for i in range(n))
        return 'vec![%s]' % ', '.join(str(v + i) for i in range(n)), '[%s]' % ', '.join(str(v + i) for i in range(n))
    if t == 'arr':
        return f'[{v}, {v + 1}]', f'[{v}, {v + 1}]'
    if t == 'tup':
        return f'({v}, String::from("t"))', f'{v}~t'
    if t == 'fun':
        return f'(Box::new(move || {v}_i64) as Box<dyn Fn() -> i64>)', str(v)
    if t == 'fp':
        return f'(|x: i64| x + {v}) as fn(i64) -> i64', str(v + 1)
    if t == 'node':
        if rng.random() < .5:
            return f'CR::tree_node!({v}, [{v + 1}, /({v + 2}, [3]),])', f'0:{v} 1:{v + 1} 1:{v + 2} 2:3'
        return f'{{ CR::tree!({v}, [5]).root() }}', f'0:{v} 1:5'
    raise AssertionError(t)


CLONE = {'i64', 'str', 'string', 'unit', 'opt', 'vec', 'arr', 'tup', 'fp', 'node'}


def expr(t, k, v, rng, forms, infer):
    """An expression which logs `k` once and has the value, and what it shows."""
    val, show = value(t, v, rng)
    T = TYPES[t]
    fs = ['call', 'block', 'closure', 'match', 'if', 'paren', 'umac', 'loop', 'letnode',
          'letroot', 'unsafe', 'some', 'try', 'path', 'tuple', 'mapping', 'iflet', 'labeled', 'index', 'field', 'deref', 'bare', 'turn', 'turn', 'async_like', 'range']
    if t in CLONE:
        fs += ['nested', 'nestedtree', 'ref', 'local', 'method']
    if t == 'i64':
        fs += ['neg', 'add', 'cast', 'cmp']
    if t == 'rec':
        fs += ['slit', 'recmac']
    if t == 'unit':
        fs += ['assign', 'while']
    f = rng.choice(fs)
    # Values of a type which follows from the use.
    free = infer and (f in ('path', 'letroot', 'async_like', 'try', 'deref') or k and f in ('bare', 'call', 'block', 'turn', 'paren'))
    while not free and any(x in val for x in ('.parse()', '.into()', '.collect()', 'Default::', 'Vec::new()', '.sum()')):
        val, show = value(t, v, rng)
    forms[f] = forms.get(f, 0) + 1
    e = {
        'call': lambda: f'lg({k}, {val})',
        'block': lambda: f'{{ lg({k}, ()); {val} }}',
        'closure': lambda: f'(|| lg({k}, {val}))()',
        'match': lambda: f'match lg({k}, 7_u8) {{ 7 => {val}, _ => unreachable!() }}',
        'if': lambda: f'if lg({k}, true) {{ {val} }} else {{ panic!("no") }}',
        'paren': lambda: f'((lg({k}, {val})))',
        'umac': lambda: f'same!(lg({k}, {val}))',
        'loop': lambda: f'loop {{ break lg({k}, {val}) }}',
        'letnode': lambda: f'{{ let node = lg({k}, {val}); node }}',
        'letroot': lambda: f'{{ let root: {T} = lg({k}, {val}); let parent = root; parent }}',
        'unsafe': lambda: f'unsafe {{ lg({k}, {val}) }}',
        'some': lambda: f'Some(lg({k}, {val})).unwrap()',
        'try': lambda: f'Ok::<{T}, String>(lg({k}, {val}))?',
        'path': lambda: f'std::convert::identity::<{T}>(lg({k}, {val}))',
        'tuple': lambda: f'(lg({k}, {val}), [1, 2]).0',
        'mapping': lambda: f'std::iter::once(lg({k}, ())).map(|_| {val}).next().unwrap()',
        'iflet': lambda: f'if let Some(x) = Some(lg({k}, {val})) {{ x }} else {{ unreachable!() }}',
        'labeled': lambda: f"'a: loop {{ loop {{ break 'a lg({k}, {val}); }} }}",
        'index': lambda: f'vec![lg({k}, {val})].remove(0)',
        'field': lambda: f'{{ struct S<V> {{ node: V }} S {{ node: lg({k}, {val}) }} }}.node',
        'deref': lambda: f'*Box::<{T}>::new(lg({k}, {val}))',
        'nested': lambda: f'CR::tree_node!(lg({k}, {val})).borrow_data().clone()',
        'nestedtree': lambda: f'CR::tree![{val}, [lg({k}, {val}),],].root().last_child().unwrap().borrow_data().clone()',
        'ref': lambda: f'(&lg({k}, {val})).clone()',
        'local': lambda: f'{{ lg({k}, ()); LOCAL{k}.clone() }}',
        'method': lambda: f'std::rc::Rc::new(lg({k}, {val})).as_ref().clone()',
        'neg': lambda: f'-lg({k}, -({val}))',
        'add': lambda: f'lg({k}, {val}) + 1 - 1',
        'cast': lambda: f'lg({k}, {v}_i32) as i64',
        'cmp': lambda: f'(lg({k}, 1) < 2) as i64 * ({val})',
        'slit': lambda: f'Rec {{ name: lg({k}, "r{v}").to_string(), id: {v}, mark: Mark::new() }}',
        'recmac': lambda: f'rec!({k}, {v})',
        'bare': lambda: f'{{ lg({k}, ()); {val} }}',
        'turn': lambda: f'shared.turn().pass(lg({k}, {val}))',
        'async_like': lambda: f'{{ fn f<V>(v: V) -> V {{ v }} f::<{T}>(lg({k}, {val})) }}',
        'range': lambda: f'{{ let mut x = None; for i in {k}..={k} {{ x = Some(lg(i as u32, {val})); }} x.unwrap() }}',
        'assign': lambda: f'cell = lg({k}, 1)',
        'while': lambda: f'while lg({k}, false) {{}}',
    }[f]()
    if f in ('slit', 'recmac'):
        show = f'{v}/r{v}'
    loc = None
    if f == 'local':
        loc = (k, val)
    if f in ('cmp', 'cast'):
        show = str(v)
    return e, show, loc


def shape(rng, kind):
    """A tree as nested lists."""
    if kind == 'one':
        return []
    if kind == 'deep':
        t = []
        for _ in range(rng.randrange(2, 26)):
            t = [t]
            r = rng.random()
            if r < .2:
                t.append([])
            elif r < .4:
                t.insert(0, [])
        return t
    if kind == 'wide':
        return [[] if rng.random() < .8 else [[]] for _ in range(rng.randrange(2, 34))]
    if kind == 'small':
        return rand_tree(rng, rng.randrange(1, 7))
    return rand_tree(rng, rng.randrange(3, 34))


def rand_tree(rng, n):
    par = [rng.randrange(max(0, i - rng.choice([1, 3, 40])), i) for i in range(1, n)]
    kids = [[] for _ in range(n)]
    for i, p in enumerate(par, 1):
        kids[p].append(i)

    def build(i):
        return [build(c) for c in kids[i]]
    return build(0)


def size(t):
    return 1 + sum(size(c) for c in t)


class Lit:
    pass


def literal(rng, cid, forms, marks):
    lit = Lit()
    lit.id = cid
    t = rng.choice(sorted(TYPES))
    kind = rng.choice(['one', 'deep', 'wide', 'small', 'small', 'small', 'mid', 'mid'])
    tr = shape(rng, kind)
    n = size(tr)
    lit.n, lit.type, lit.kind = n, t, kind
    abort_at = rng.randrange(n) if rng.random() < .12 else None
    abort_how = rng.choice(['fails', 'panics', 'return'])
    lit.abort = abort_at
    base = rng.randrange(1, 10 ** 6)
    k = [0]
    exp, locs = [], []
    depth_max = [0]

    def sp():
        r = rng.random()
        return '' if r < .5 else ' ' if r < .8 else '\n' if r < .95 else ' /* , [ */ '

    def data(depth):
        i = k[0]
        k[0] += 1
        depth_max[0] = max(depth_max[0], depth)
        if i == abort_at:
            e = {'fails': f'fails::<{TYPES[t]}>({i})?', 'panics': f'panics::<{TYPES[t]}>({i})',
                 'return': f'{{ lg({i}, ()); return Err(String::from("stop")) }}'}[abort_how]
            exp.append((depth, '!'))
            return e
        e, show, loc = expr(t, i, base + i * 3, rng, forms, abort_at is None)
        if loc:
            locs.append(loc)
        exp.append((depth, show))
        return e

    def lst(cs, depth):
        out = []
        for c in cs:
            if c or rng.random() < .15:
                if not c:
                    marks['empty_list'] = marks.get('empty_list', 0) + 1
                d = data(depth)
                out.append(f'/{sp()}({sp()}{d},{sp()}[{lst(c, depth + 1)}]{sp()})')
            else:
                out.append(data(depth))
        s = f',{sp()}'.join(out)
        if out and rng.random() < .5:
            marks['list_comma'] = marks.get('list_comma', 0) + 1
            s += sp() + ','
        return sp() + s + sp()

    d = data(0)
    if tr or rng.random() < .3:
        if not tr:
            marks['empty_root_list'] = marks.get('empty_root_list', 0) + 1
        body = f'{d},{sp()}[{lst(tr, 1)}]'
        if rng.random() < .4:
            marks['root_comma'] = marks.get('root_comma', 0) + 1
            body += ','
    else:
        body = d
    l, r = rng.choice(['()', '[]', '{}'])
    mac = rng.choice(['tree', 'tree_node'])
    lit.mac = mac
    lit.exp = exp
    lit.depth = depth_max[0]
    path = rng.choice(['', 'CR::'])
    text = f'{path}{mac}!{l}{sp()}{body}{sp()}{r}'
    lit.text = text
    loc_code = ''.join(f'let LOCAL{i}: {TYPES[t]} = {v}; ' for i, v in locs)
    # User variables with the names which the macro might use.
    names = rng.sample(['root', 'node', 'parent', 'tree', 'data', 'grant', 'descendant', 'child'], 3)
    ren = {}
    for (i, _), nm in zip(locs, names):
        ren[f'LOCAL{i}'] = nm
    for a, b in ren.items():
        loc_code = loc_code.replace(a + ':', b + ':')
        text = text.replace(a + '.', b + '.')
    for i, _ in locs:
        loc_code = loc_code.replace(f'LOCAL{i}', f'local{i}')
        text = text.replace(f'LOCAL{i}', f'local{i}')
    imports = 'use CR::{tree, tree_node};\n' if not path else ''
    style = rng.choice(['plain', 'shadow', 'bare'])
    shadow = ''
    if style == 'shadow':
        shadow = 'pub struct Node; pub struct HotNode; pub struct Tree; pub struct InsertAs; pub enum Option2 {}\n'
    T = TYPES[t]
    if abort_at is not None:
        code = f'''
    #[allow(unreachable_code)]
    pub fn run() -> Res {{
        abort(|| -> Result<_, String> {{ let mut cell = 0; let shared = Shared::new(); {loc_code} let v: {'Tr' if mac == 'tree' else 'N'}<{T}> = {text}; let _ = &mut cell; Ok(v) }}, {abort_at}, {n})
    }}'''
    else:
        rows = ', '.join('(%d, r##"%s"##)' % e for e in exp)
        if mac == 'tree':
            tail = f'let t: Tr<{T}> = {text}; let r: N<{T}> = t.root();'
        else:
            tail = f'let r: N<{T}> = {text}; let t: Tr<{T}> = r.tree();'
        code = f'''
    const EXP: Exp = &[{rows}];
    pub fn run() -> Res {{
        pair(|| {{ let mut cell = 0; let shared = Shared::new(); {loc_code} {tail} let _ = &mut cell; Ok((r, t)) }}, EXP)
    }}'''
    lit.code = (f'mod c{cid} {{\n#![allow(warnings)]\n{imports}use CR::{{Node as N, Tree as Tr}};\n'
                f'use crate::support::*; use crate::{{same, rec}};\n{shadow}{code}\n}}\n')
    return lit


def generate(out, seed, per_bin=40, bins=4, dep='/repo', features='std'):
    rng = random.Random(seed)
    forms, marks, lits = {}, {}, []
    os.makedirs(out, exist_ok=True)
    with open(f'{out}/Cargo.toml', 'w') as f:
        f.write('[workspace]\nmembers = ["a", "b"]\nresolver = "1"\n[profile.dev]\ndebug = 0\nincremental = false\n')
    cid = 0
    for pkg, name, ed in (('a', 'dendron', '2021'), ('b', 'other_name', '2018')):
        os.makedirs(f'{out}/{pkg}/src/bin', exist_ok=True)
        for old in os.listdir(f'{out}/{pkg}/src/bin'):
            os.remove(f'{out}/{pkg}/src/bin/{old}')
        with open(f'{out}/{pkg}/Cargo.toml', 'w') as f:
            f.write(f'[package]\nname = "lit_{pkg}"\nversion = "0.1.0"\nedition = "{ed}"\npublish = false\n'
                    f'[dependencies]\n{name} = {{ package = "dendron", path = "{dep}" }}\n')
        with open(f'{out}/{pkg}/src/support.rs', 'w') as f:
            f.write(SUPPORT)
        control = '#![recursion_limit = "2048"]\n#![allow(warnings)]\nuse %s as dn;\n#[path = "../support.rs"] mod support;\n' % name
        for b in range(bins + 1):
            code = [control]
            ids = []
            # Program 0 has no literals: it tells whether the support builds.
            for _ in range(per_bin if b else 0):
                lit = literal(rng, cid, forms, marks)
                lit.bin = (pkg, b)
                lits.append(lit)
                code.append(lit.code.replace('CR::', name + '::'))
                ids.append(cid)
                cid += 1
            rows = ', '.join(f'({i}, c{i}::run as fn() -> support::Res)' for i in ids)
            code.append(f'fn main() {{ support::main(&[{rows}]); }}\n')
            with open(f'{out}/{pkg}/src/bin/{pkg}{b}.rs', 'w') as f:
                f.write('\n'.join(code))
    return lits, forms, marks


if __name__ == '__main__':
    import sys
    lits, forms, marks = generate(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 40)
    print(len(lits), forms, marks)
