//! C08: usage tracking over all access histories and all schedules of short scripts.
use super::daglib::*;
use crate::fw::*;
use crate::model::{bits::pack_tagged, cells::*};
use crate::sched::*;
use crate::*;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};
use tycho_types::cell::*;
use tycho_types::merkle::*;

pub const META: Meta = Meta {
    id: "C08",
    level: "model_checking",
    rule: "a state is (cell graph, tracking mode, handles held, cells recorded); transitions are the queries of a cell and of its children, cloning, virtualizing, untracking, tracking again, adding subtrees and dropping the tree, each checked against the set of cells the model says are recorded; the schedule sections run scripts of such operations on shared handles in two and three real threads and enumerate their interleavings at the points where tracking state is read or written; non-trivial: something was recorded",
    assumptions: &["interleavings switch at the library's scheduling points (before and inside of the once-only initialization of a child, after it, before and after recording a data access) and at the start of each operation; each library step between two points is atomic", "preemptions are bounded as the section names say"],
    run,
};

enum Tree { Plain(UsageTree), Sub(UsageTreeWithSubtrees), Gone }
impl Tree {
    fn has(&self, h: &HashBytes) -> bool { match self { Tree::Plain(t) => t.contains(h), Tree::Sub(t) => t.contains_direct(h), Tree::Gone => false } }
    fn track(&self, c: &Cell) -> Option<Cell> { match self { Tree::Plain(t) => Some(t.track(c)), Tree::Sub(t) => Some(t.track(c)), Tree::Gone => None } }
    fn filter(&self, h: &HashBytes) -> FilterAction { match self { Tree::Plain(t) => t.check(h), Tree::Sub(t) => t.check(h), Tree::Gone => FilterAction::Skip } }
}

struct Handle { cell: Cell, node: usize, tracked: bool }

struct M8 { rec: BTreeSet<usize>, sub: BTreeSet<usize>, alive: bool, load: bool }
impl M8 {
    fn touch(&mut self, h: &Handle) { self.touch_at(h.node, h.tracked) }
    fn touch_at(&mut self, n: usize, tracked: bool) { if tracked && self.alive && !self.load { self.rec.insert(n); } }
    fn load(&mut self, n: usize, tracked: bool) { if tracked && self.alive && self.load { self.rec.insert(n); } }
}

fn kids(d: &Dag) -> Vec<Vec<usize>> {
    d.nodes.iter().map(|n| n.refs.iter().map(|r| d.nodes.iter().position(|x| Arc::ptr_eq(x, r)).unwrap()).collect()).collect()
}

const OPS: [&str; 19] = ["info", "data", "ref0", "ref1", "ref0.data", "ref1.ref0", "clone0", "clone1", "copy", "untrack", "virt.data", "virt.ref0", "slice", "iter", "again", "subtrees", "add-subtree", "drop-tree", "iter-cloned"];

/// all queries of a cell which load neither data nor children
fn info(c: &DynCell, m: &MC, what: &str) -> R {
    ckeq!(c.descriptor().d1 & !0x10, m.refs.len() as u8 + 8 * (m.exotic() as u8) + (m.mask << 5), "descriptor", "{what}");
    ckeq!(c.bit_len() as usize, m.bits.len(), "bit-len", "{what}");
    ckeq!(c.reference_count() as usize, m.refs.len(), "reference-count", "{what}");
    for l in 0..4u8 {
        ckeq!(c.hash(l).0, m.hashes[l as usize], "hash", "{what} level {l}");
        ckeq!(c.depth(l) as u32, m.depths[l as usize], "depth", "{what} level {l}");
    }
    ckeq!(c.repr_hash().0, *m.repr(), "repr-hash", "{what}");
    ck!(c.reference(m.refs.len() as u8).is_none() && c.reference_cloned(m.refs.len() as u8).is_none(), "reference-beyond", "{what}");
    Ok(())
}

fn judge(t: &Tree, m: &M8, d: &Dag, what: &dyn Fn() -> String) -> R {
    for (i, n) in d.nodes.iter().enumerate() {
        let h = hb(n.repr());
        let want = m.alive && m.rec.contains(&i);
        if t.has(&h) != want { bad!(if want { "not-recorded" } else { "recorded-untouched" }, "node {i}: {}", what()) }
        if m.alive {
            let act = if m.sub.contains(&i) { FilterAction::IncludeSubtree } else if want { FilterAction::Include } else { FilterAction::Skip };
            ckeq!(t.filter(&h), act, "filter", "node {i}: {}", what());
        }
    }
    match t {
        Tree::Plain(t) => { ckeq!(t.len(), m.rec.len(), "len", "{}", what()); ckeq!(t.is_empty(), m.rec.is_empty(), "is-empty", "{}", what()) }
        Tree::Sub(t) => for (i, n) in d.nodes.iter().enumerate() { ckeq!(t.contains_subtree(&hb(n.repr())), m.sub.contains(&i), "contains-subtree", "{}", what()) },
        Tree::Gone => {}
    }
    Ok(())
}

fn same_addr(a: &DynCell, b: &DynCell) -> bool { std::ptr::addr_eq(a, b) }

/// one history; returns the number of operations that applied
fn history(d: &Dag, kids: &[Vec<usize>], load: bool, mode: usize, ops: &[(usize, usize)], l: &mut L) -> R {
    let umode = if load { UsageTreeMode::OnLoad } else { UsageTreeMode::OnDataAccess };
    let root = d.nodes.len() - 1;
    let mut tree = match mode { 0 => Tree::Plain(UsageTree::new(umode)), 1 => Tree::Plain(UsageTree::with_mode_and_capacity(umode, 8)), _ => Tree::Sub(UsageTree::new(umode).with_subtrees()) };
    let mut m = M8 { rec: BTreeSet::new(), sub: BTreeSet::new(), alive: true, load };
    let mut hs = vec![Handle { cell: tree.track(d.rroot()).unwrap(), node: root, tracked: true }];
    m.load(root, true);
    let show = |k: usize| format!("{} load={load} mode={mode} ops {:?}", d.show(), ops[..=k].iter().map(|(o, h)| format!("{}@{h}", OPS[*o])).collect::<Vec<_>>());
    judge(&tree, &m, d, &|| format!("{} tracked", d.show()))?;
    for (k, (op, hi)) in ops.iter().enumerate() {
        if *hi >= hs.len() { return Ok(()) }
        let (node, tr) = (hs[*hi].node, hs[*hi].tracked);
        let what = || show(k);
        let child = |i: usize| kids[node].get(i).copied();
        let mut push: Option<Handle> = None;
        {
            let h = &hs[*hi];
            let c = &h.cell;
            match *op {
                0 => info(c.as_ref(), &d.nodes[node], &what())?,
                1 => { ckeq!(c.data(), &pack_tagged(&d.nodes[node].bits)[..], "data", "{}", what()); m.touch(h) }
                2 | 3 => {
                    let i = op - 2;
                    let Some(n) = child(i) else { return Ok(()) };
                    let Some(x) = c.reference(i as u8) else { bad!("reference", "none: {}", what()) };
                    m.load(n, tr);
                    info(x, &d.nodes[n], &what())?;
                    ck!(c.reference(i as u8).is_some_and(|y| same_addr(x, y)), "one-child", "{}", what());
                }
                4 => {
                    let Some(n) = child(0) else { return Ok(()) };
                    let Some(x) = c.reference(0) else { bad!("reference", "none: {}", what()) };
                    ckeq!(x.data(), &pack_tagged(&d.nodes[n].bits)[..], "data", "{}", what());
                    m.load(n, tr);
                    m.touch_at(n, tr);
                }
                5 => {
                    let Some(n) = child(1) else { return Ok(()) };
                    let Some(&g) = kids[n].first() else { return Ok(()) };
                    let Some(x) = c.reference(1).and_then(|x| x.reference(0)) else { bad!("reference", "none: {}", what()) };
                    m.load(n, tr);
                    m.load(g, tr);
                    info(x, &d.nodes[g], &what())?;
                }
                6 | 7 => {
                    let i = op - 6;
                    let Some(n) = child(i) else { return Ok(()) };
                    let Some(x) = c.reference_cloned(i as u8) else { bad!("reference", "none: {}", what()) };
                    m.load(n, tr);
                    if tr { ck!(c.reference(i as u8).is_some_and(|y| same_addr(x.as_ref(), y)), "one-child", "{}", what()) }
                    push = Some(Handle { cell: x, node: n, tracked: tr });
                }
                8 => push = Some(Handle { cell: c.clone(), node, tracked: tr }),
                9 => {}
                10 => { ckeq!(c.virtualize().data(), &pack_tagged(&d.nodes[node].bits)[..], "data", "virtual {}", what()); m.touch(h) }
                11 => {
                    let Some(n) = child(0) else { return Ok(()) };
                    let Some(x) = c.virtualize().reference(0) else { bad!("reference", "none: virtual {}", what()) };
                    m.load(n, tr);
                    ckeq!(x.bit_len() as usize, d.nodes[n].bits.len(), "bit-len", "virtual {}", what());
                }
                12 => {
                    if d.nodes[node].bits.is_empty() { return Ok(()) }
                    let mut s = c.as_slice_allow_exotic();
                    ckeq!(s.load_bit().ok(), Some(d.nodes[node].bits[0] != 0), "slice-bit", "{}", what());
                    m.touch(h);
                    if let Some(n) = child(0) {
                        let Ok(x) = s.load_reference_cloned() else { bad!("slice-reference", "{}", what()) };
                        m.load(n, tr);
                        info(x.as_ref(), &d.nodes[n], &what())?;
                    }
                }
                13 => for (x, &n) in c.references().zip(&kids[node]) { m.load(n, tr); info(x, &d.nodes[n], &what())? },
                18 => for (x, &n) in c.references().cloned().zip(&kids[node]) { m.load(n, tr); info(x.as_ref(), &d.nodes[n], &what())? },
                14 => {
                    // only cells that are not tracked yet: tracking a tracked one records twice
                    if tr { return Ok(()) }
                    match tree.track(c) { None => return Ok(()), Some(x) => { m.load(node, true); push = Some(Handle { cell: x, node, tracked: true }) } }
                }
                15 => match std::mem::replace(&mut tree, Tree::Gone) { Tree::Plain(t) => tree = Tree::Sub(t.with_subtrees()), t => { tree = t; return Ok(()) } },
                16 => match &mut tree { Tree::Sub(t) => { ckeq!(t.add_subtree(c.as_ref()), m.sub.insert(node), "add-subtree", "{}", what()) } _ => return Ok(()) },
                _ => { if !m.alive { return Ok(()) } tree = Tree::Gone; m.alive = false; m.rec.clear(); m.sub.clear() }
            }
        }
        if *op == 9 {
            let h = hs.remove(*hi);
            let x = h.cell.untrack();
            ck!(same_addr(x.as_ref(), d.real[node].as_ref()), "untrack", "not the original cell: {}", what());
            hs.push(Handle { cell: x, node, tracked: false });
        }
        if let Some(p) = push { hs.push(p) }
        l.ev();
        l.tr(1);
        judge(&tree, &m, d, &what)?;
    }
    l.st(1);
    if !m.rec.is_empty() { l.nt() }
    // everything reachable through what is held is still the original content, and gets recorded by reading it
    for h in &hs {
        if let Err(e) = check_same(h.cell.as_ref(), &d.nodes[h.node]) { bad!("content", "{e}: {}", show(ops.len() - 1)) }
    }
    Ok(())
}

/// scripts of the threads: operations on the shared root handle
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum T { Ref(u8), RefRef(u8, u8), Data, RefData(u8), Clone(u8), Untrack(u8), Slice }
const SCRIPT: [T; 10] = [T::Ref(0), T::Ref(1), T::RefRef(0, 0), T::Data, T::RefData(0), T::Clone(0), T::Untrack(0), T::Slice, T::RefData(1), T::RefRef(1, 0)];

fn path(t: T) -> Vec<u8> { match t { T::Ref(i) | T::RefData(i) | T::Clone(i) | T::Untrack(i) => vec![i], T::RefRef(i, j) => vec![i, j], _ => vec![] } }
fn at(kids: &[Vec<usize>], root: usize, p: &[u8]) -> Option<usize> { let mut n = root; for &i in p { n = *kids[n].get(i as usize)? } Some(n) }

type Shared = Arc<(Tree, Cell, Mutex<Vec<(Vec<u8>, usize)>>, Mutex<Vec<V>>)>;

fn act(s: &Shared, d: &Dag, kids: &[Vec<usize>], load: bool, t: T) -> R {
    point("op");
    let (tree, root_cell, seen, _) = &**s;
    let root = d.nodes.len() - 1;
    let p = path(t);
    let note = |c: &DynCell, p: &[u8]| seen.lock().unwrap().push((p.to_vec(), c as *const DynCell as *const () as usize));
    // a cell is recorded when the thread that loaded it (or read it) gets it
    let now = |n: usize, p: &[u8]| -> R { ck!(tree.has(&hb(d.nodes[n].repr())), "used-before-recorded", "{t:?}: node {n} at {p:?}"); Ok(()) };
    match t {
        T::Data | T::Slice => {
            let n = &d.nodes[root];
            if t == T::Data { ckeq!(root_cell.data(), &pack_tagged(&n.bits)[..], "data", "{t:?}") }
            else { ckeq!(root_cell.as_slice_allow_exotic().load_bit().ok(), Some(n.bits[0] != 0), "slice-bit", "{t:?}") }
            now(root, &p)
        }
        T::Clone(i) | T::Untrack(i) => {
            let n = at(kids, root, &p).unwrap();
            let Some(c) = root_cell.reference_cloned(i) else { bad!("reference", "{t:?}") };
            if load { now(n, &p)? }
            note(c.as_ref(), &p);
            quiet(|| info(c.as_ref(), &d.nodes[n], "thread"))?;
            if let T::Untrack(_) = t { ck!(same_addr(c.untrack().as_ref(), d.real[n].as_ref()), "untrack", "{t:?}") }
            Ok(())
        }
        _ => {
            let n = at(kids, root, &p).unwrap();
            let mut c: &DynCell = root_cell.as_ref();
            for (k, &i) in p.iter().enumerate() {
                let Some(x) = c.reference(i) else { bad!("reference", "{t:?}") };
                let m = at(kids, root, &p[..=k]).unwrap();
                if load { now(m, &p[..=k])? }
                note(x, &p[..=k]);
                quiet(|| info(x, &d.nodes[m], "thread"))?;
                c = x;
            }
            if let T::RefData(_) = t {
                ckeq!(c.data(), &pack_tagged(&d.nodes[n].bits)[..], "data", "{t:?}");
                now(n, &p)?;
            }
            Ok(())
        }
    }
}

/// cells the script must have recorded
fn expected(kids: &[Vec<usize>], root: usize, load: bool, ts: &[T]) -> BTreeSet<usize> {
    let mut s = BTreeSet::new();
    if load { s.insert(root); }
    for &t in ts {
        let p = path(t);
        if load { for k in 1..=p.len() { s.insert(at(kids, root, &p[..k]).unwrap()); } }
        else { match t { T::Data | T::Slice => { s.insert(root); } T::RefData(_) => { s.insert(at(kids, root, &p).unwrap()); } _ => {} } }
    }
    s
}

thread_local! { static TEAM: std::cell::RefCell<Option<Team>> = const { std::cell::RefCell::new(None) } }

fn threads(d: &Dag, load: bool, scripts: &[Vec<T>], b: Bound, l: &mut L) -> R {
    let kids = kids(d);
    let root = d.nodes.len() - 1;
    let all: Vec<T> = scripts.iter().flatten().copied().collect();
    if all.iter().any(|t| at(&kids, root, &path(*t)).is_none()) { return Ok(()) }
    let want = expected(&kids, root, load, &all);
    let what = || format!("{} load={load} scripts {scripts:?}", d.show());
    let st = TEAM.with(|t| {
        let mut t = t.borrow_mut();
        let team = t.get_or_insert_with(|| Team::new(3));
        team.explore(b, || {
            let tree = UsageTree::new(if load { UsageTreeMode::OnLoad } else { UsageTreeMode::OnDataAccess });
            let cell = tree.track(d.rroot());
            let s: Shared = Arc::new((Tree::Plain(tree), cell, Mutex::default(), Mutex::default()));
            let bodies = scripts.iter().map(|ts| {
                let (s, kids) = (s.clone(), &kids);
                Box::new(move || for &t in ts { if let Err(v) = act(&s, d, kids, load, t) { s.3.lock().unwrap().push(v) } }) as Box<dyn FnOnce() + Send + '_>
            }).collect();
            (s, bodies)
        }, |s, sch| {
            let (tree, root_cell, seen, errs) = &*s;
            if let Some(v) = errs.lock().unwrap().pop() { return Err(V { key: v.key, detail: format!("{} | {} | schedule {}", v.detail, what(), sch()) }) }
            for (i, n) in d.nodes.iter().enumerate() {
                let w = want.contains(&i);
                if tree.has(&hb(n.repr())) != w { return Err(V { key: if w { "not-recorded" } else { "recorded-untouched" }.into(), detail: format!("node {i}: {} | schedule {}", what(), sch()) }) }
            }
            if let Tree::Plain(t) = tree { if t.len() != want.len() { return Err(V { key: "len".into(), detail: format!("{} | schedule {}", what(), sch()) }) } }
            // all threads got the same child object
            let seen = seen.lock().unwrap();
            for (p, a) in seen.iter() {
                let mut c: &DynCell = root_cell.as_ref();
                for &i in p { c = c.reference(i).unwrap() }
                if c as *const DynCell as *const () as usize != *a { return Err(V { key: "one-child".into(), detail: format!("{p:?} {} | schedule {}", what(), sch()) }) }
            }
            if let Err(e) = check_same(root_cell.as_ref(), d.root()) { return Err(V { key: "content".into(), detail: format!("{e} {} | schedule {}", what(), sch()) }) }
            Ok(())
        })
    })?;
    l.evn(st.schedules);
    l.ntn(st.schedules);
    l.st(1);
    l.tr(st.steps);
    l.traces(st.schedules);
    l.extra("schedules", st.schedules);
    l.extra("steps", st.steps);
    l.extra("diverged_replays", st.diverged);
    l.extra("blocked_steps", st.blocked);
    l.extra("truncated_explorations", st.truncated as u64);
    Ok(())
}

fn run(r: &Run) {
    let cfg = |n| Cfg { n, refs: 2, merkle: true, odd: 1, closed: false, ..BASE };
    let mut ds = vec![];
    for n in 1..=4 { ds.extend(dags(cfg(n))) }
    let wide = dags(Cfg { n: 3, refs: 4, merkle: false, odd: 0, closed: true, ..BASE });
    ds.extend(wide.into_iter().step_by(7));
    let ks: Vec<_> = ds.iter().map(kids).collect();
    let nd = ds.len() as u64;
    let no = OPS.len() as u64;
    let histories = |name: &str, sel: &[usize], len: u32, hs: u64| {
        let per = (no * hs).pow(len);
        // the histories of one first operation are one case
        let first = no * hs;
        let rest = per / first;
        r.section(name, sel.len() as u64 * 6 * first, |i, l| {
            let mut ix = Ix(i);
            let d = &ds[sel[ix.us(sel.len())]];
            let k = &ks[ds.iter().position(|x| std::ptr::eq(x, d)).unwrap()];
            let (load, mode) = (ix.bit(), ix.us(3));
            let f = (ix.us(no as usize), ix.us(hs as usize));
            if f.1 > 0 { return Ok(()) }
            for j in 0..rest {
                let mut jx = Ix(j);
                let mut ops = vec![f];
                let mut held = 1 + matches!(f.0, 6 | 7 | 8) as usize;
                let mut ok = true;
                for _ in 1..len {
                    let o = (jx.us(no as usize), jx.us(hs as usize));
                    if o.1 >= held { ok = false; break }
                    held += matches!(o.0, 6 | 7 | 8 | 14) as usize;
                    ops.push(o);
                }
                if ok { history(d, k, load, mode, &ops, l)? }
            }
            Ok(())
        });
    };
    let every: Vec<usize> = (0..ds.len()).collect();
    histories("histories/2", &every, 2, 2);
    let some: Vec<usize> = every.iter().copied().step_by(r.pick(15, 2)).collect();
    histories("histories/3", &some, 3, 2);
    let few: Vec<usize> = every.iter().copied().filter(|i| ds[*i].nodes.len() == 3).step_by(r.pick(25, 3)).collect();
    histories("histories/4", &few, 4, 2);
    _ = nd;

    // schedules
    let cd: Vec<Dag> = dags(Cfg { n: 3, refs: 2, merkle: false, odd: 0, ..BASE }).into_iter().chain(dags(Cfg { n: 4, refs: 2, merkle: false, odd: 0, ..BASE }).into_iter().step_by(6)).collect();
    let ns = SCRIPT.len();
    let unb = Bound { preemptions: u32::MAX, schedules: 2_000_000 };
    r.section("schedules/2x1", (cd.len() * 2 * ns * ns) as u64, |i, l| {
        let mut ix = Ix(i);
        let d = ix.of(&cd);
        let load = ix.bit();
        let (a, b) = (ix.us(ns), ix.us(ns));
        if b < a { return Ok(()) }
        threads(d, load, &[vec![SCRIPT[a]], vec![SCRIPT[b]]], unb, l)
    });
    let cd3: Vec<Dag> = cd.iter().step_by(r.pick(4, 1)).cloned().collect();
    r.section("schedules/3x1-preempt2", (cd3.len() * 2 * ns * ns * ns) as u64, |i, l| {
        let mut ix = Ix(i);
        let d = ix.of(&cd3);
        let load = ix.bit();
        let (a, b, c) = (ix.us(ns), ix.us(ns), ix.us(ns));
        if b < a || c < b { return Ok(()) }
        threads(d, load, &[vec![SCRIPT[a]], vec![SCRIPT[b]], vec![SCRIPT[c]]], Bound { preemptions: r.pick(1, 2), ..unb }, l)
    });
    let cd2: Vec<Dag> = cd.iter().skip(1).step_by(r.pick(6, 2)).cloned().collect();
    r.section("schedules/2x2-preempt3", (cd2.len() * 2 * ns * ns * ns * ns) as u64, |i, l| {
        let mut ix = Ix(i);
        let d = ix.of(&cd2);
        let load = ix.bit();
        let (a, b, c, e) = (ix.us(ns), ix.us(ns), ix.us(ns), ix.us(ns));
        if (c, e) < (a, b) { return Ok(()) }
        threads(d, load, &[vec![SCRIPT[a], SCRIPT[b]], vec![SCRIPT[c], SCRIPT[e]]], Bound { preemptions: r.pick(1, 3), ..unb }, l)
    });
}
