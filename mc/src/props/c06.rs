//! C06: cells live exactly as long as they are owned.
use super::daglib::*;
use crate::alloc::*;
use crate::fw::*;
use crate::model::{bits::*, cells::*};
use crate::sched::*;
use crate::*;
use std::sync::Arc;
use tycho_types::boc::Boc;
use tycho_types::cell::*;
use tycho_types::error::Error;

pub const META: Meta = Meta {
    id: "C06",
    level: "model_checking",
    rule: "a state is a graph of cells with the handles on it (strong, weak, clones, virtualized and tracked wrappers, children obtained from them, builders); a transition creates, copies or drops a handle; every history up to the depth runs on the real cells under an allocator that records every block: after each step a cell's block is live exactly if the cell can be reached from a handle in the model, weak handles agree, and what is reachable has its content; at the end nothing is left, no block was released twice, with another layout, or written after its release; the schedule sections run the drop protocol of two and three threads over all interleavings of its uniqueness tests; non-trivial: a cell was shared",
    assumptions: &["the explored build is the thread-safe one (feature sync)", "in the schedule sections the atomic operations of one library step between two points are not interleaved further"],
    run,
};

/// the same cells as `d`, made anew
fn build(d: &Dag) -> Vec<Cell> {
    let mut v: Vec<Cell> = Vec::with_capacity(d.nodes.len());
    for n in &d.nodes {
        let mut b = CellBuilder::new();
        b.set_exotic(n.exotic());
        b.store_raw(&pack(&n.bits), n.bits.len() as u16).unwrap();
        for r in &n.refs { b.store_reference(v[d.nodes.iter().position(|x| Arc::ptr_eq(x, r)).unwrap()].clone()).unwrap() }
        v.push(b.build().unwrap());
    }
    v
}
fn addr(c: &DynCell) -> usize { c as *const DynCell as *const () as usize }

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Plain, Virtual, Usage }
/// an object on the heap with what it owns
#[derive(Clone)]
struct Obj { kind: Kind, node: usize, own: Vec<usize>, addr: usize, loaded: [Option<usize>; 4], weak: bool }

#[derive(Clone, Copy, Debug)]
enum Op { Drop(usize), Clone(usize), Down(usize), Up(usize), DropWeak(usize), Child(usize, u8), Virt(usize), Track(usize), Untrack(usize), DropTree }

/// a program state: real handles next to the objects they hold
struct St<'a> {
    d: &'a Dag,
    objs: Vec<Obj>,
    strong: Vec<(Cell, usize)>,
    weak: Vec<(WeakCell, usize)>,
    tree: Option<UsageTree>,
    log: Vec<Op>,
}

impl<'a> St<'a> {
    fn new(d: &'a Dag, t: &Tracker) -> Self {
        let cells = t.run(|| build(d));
        let objs = d.nodes.iter().zip(&cells).enumerate().map(|(i, (n, c))| Obj {
            kind: Kind::Plain, node: i, own: n.refs.iter().map(|r| d.nodes.iter().position(|x| Arc::ptr_eq(x, r)).unwrap()).collect(), addr: addr(c.as_ref()), loaded: [None; 4], weak: false,
        }).collect();
        let strong = cells.iter().enumerate().map(|(i, c)| (c.clone(), i)).collect();
        t.run(|| drop(cells));
        St { d, objs, strong, weak: vec![], tree: None, log: vec![] }
    }
    fn ops(&self, most: usize) -> Vec<Op> {
        let mut v = vec![];
        let room = self.strong.len() < most;
        for (k, (_, o)) in self.strong.iter().enumerate() {
            v.push(Op::Drop(k));
            let o = &self.objs[*o];
            if room {
                // copies of a handle differ by nothing
                if k == 0 || self.strong[k - 1].1 != self.strong[k].1 { v.push(Op::Clone(k)) }
                for i in 0..self.d.nodes[o.node].refs.len() { v.push(Op::Child(k, i as u8)) }
                if o.kind == Kind::Plain {
                    if self.d.nodes[o.node].mask != 0 { v.push(Op::Virt(k)) }
                    v.push(Op::Track(k));
                }
            }
            if o.kind == Kind::Usage { v.push(Op::Untrack(k)) }
            if !o.weak && self.weak.len() < 2 { v.push(Op::Down(k)) }
        }
        for k in 0..self.weak.len() { if room { v.push(Op::Up(k)) } v.push(Op::DropWeak(k)) }
        if self.tree.is_some() { v.push(Op::DropTree) }
        v
    }
    fn object(&mut self, kind: Kind, node: usize, own: Vec<usize>, c: &Cell) -> usize {
        self.objs.push(Obj { kind, node, own, addr: addr(c.as_ref()), loaded: [None; 4], weak: false });
        self.objs.len() - 1
    }
    fn alive(&self) -> Vec<bool> {
        let mut a = vec![false; self.objs.len()];
        let mut stack: Vec<usize> = self.strong.iter().map(|x| x.1).collect();
        while let Some(o) = stack.pop() { if !std::mem::replace(&mut a[o], true) { stack.extend(&self.objs[o].own) } }
        a
    }
    fn what(&self) -> String { format!("{} | {:?}", self.d.show(), self.log) }

    fn step(&mut self, op: Op, t: &Tracker, l: &mut L) -> R {
        self.log.push(op);
        l.tr(1);
        match op {
            Op::Drop(k) => { let (c, _) = self.strong.remove(k); t.run(|| drop(c)) }
            Op::Clone(k) => { let (c, o) = &self.strong[k]; let (c, o) = (t.run(|| c.clone()), *o); self.strong.insert(k, (c, o)) }
            Op::Down(k) => { let (c, o) = &self.strong[k]; let o = *o; let w = t.run(|| Cell::downgrade(c)); self.objs[o].weak = true; self.weak.push((w, o)) }
            Op::Up(k) => {
                let (w, o) = &self.weak[k];
                let o = *o;
                let alive = self.alive()[o];
                let c = t.run(|| w.upgrade());
                ck!(c.is_some() == alive, if alive { "upgrade-failed" } else { "upgrade-of-dead" }, "{}", self.what());
                if let Some(c) = c {
                    ck!(addr(c.as_ref()) == self.objs[o].addr, "upgraded-other", "{}", self.what());
                    self.strong.push((c, o));
                }
            }
            Op::DropWeak(k) => { let (w, o) = self.weak.remove(k); t.run(|| drop(w)); self.objs[o].weak = false }
            Op::Child(k, i) => {
                let (c, o) = &self.strong[k];
                let o = *o;
                let x = t.run(|| c.reference_cloned(i));
                let Some(x) = x else { bad!("child-lost", "{}", self.what()) };
                let n = self.d.nodes.iter().position(|n| Arc::ptr_eq(n, &self.d.nodes[self.objs[o].node].refs[i as usize])).unwrap();
                let id = match self.objs[o].kind {
                    _ if addr(x.as_ref()) == self.objs[n].addr => n,
                    Kind::Plain => bad!("child-other", "{}", self.what()),
                    Kind::Virtual => self.object(Kind::Virtual, n, vec![n], &x),
                    Kind::Usage => match self.objs[o].loaded[i as usize] {
                        Some(id) => id,
                        None => {
                            let id = self.object(Kind::Usage, n, vec![n], &x);
                            self.objs[o].loaded[i as usize] = Some(id);
                            self.objs[o].own.push(id);
                            id
                        }
                    },
                };
                ck!(addr(x.as_ref()) == self.objs[id].addr, "child-other", "{}", self.what());
                self.strong.push((x, id));
            }
            Op::Virt(k) => {
                let (c, o) = &self.strong[k];
                let o = *o;
                let v = t.run(|| Cell::virtualize(c.clone()));
                let id = self.object(Kind::Virtual, self.objs[o].node, vec![o], &v);
                self.strong.push((v, id));
            }
            Op::Track(k) => {
                let (c, o) = &self.strong[k];
                let o = *o;
                let tree = &mut self.tree;
                let v = t.run(|| tree.get_or_insert_with(|| UsageTree::new(UsageTreeMode::OnDataAccess)).track(c));
                let id = self.object(Kind::Usage, self.objs[o].node, vec![o], &v);
                self.strong.push((v, id));
            }
            Op::Untrack(k) => {
                let (c, o) = self.strong.remove(k);
                let c = t.run(|| c.untrack());
                let inner = self.objs[o].own[0];
                ck!(addr(c.as_ref()) == self.objs[inner].addr, "untracked-other", "{}", self.what());
                self.strong.insert(k, (c, inner));
            }
            Op::DropTree => { let x = self.tree.take(); t.run(|| drop(x)) }
        }
        self.check(t, l)
    }

    fn check(&self, t: &Tracker, l: &mut L) -> R {
        l.st(1);
        l.ev();
        if let Some(e) = t.error() { bad!("allocation", "{e}: {}", self.what()) }
        for (i, (o, alive)) in self.objs.iter().zip(self.alive()).enumerate() {
            if let Some((w, _)) = self.weak.iter().find(|w| w.1 == i) {
                let up = t.run(|| w.upgrade().is_some());
                ck!(up == alive, if alive { "released-early" } else { "kept" }, "object {i} ({:?} of node {}), with a weak handle: {}", o.kind, o.node, self.what());
            } else {
                ck!(t.is_live(o.addr) == alive, if alive { "released-early" } else { "kept" }, "object {i} ({:?} of node {}): {}", o.kind, o.node, self.what());
            }
        }
        for (c, o) in &self.strong {
            let o = &self.objs[*o];
            let n = &self.d.nodes[o.node];
            match o.kind {
                Kind::Plain => if let Err(e) = check_same(c.as_ref(), n) { bad!("content", "{e}: {}", self.what()) },
                // the references of a tracked cell are loaded by looking at them
                _ => ck!(c.bit_len() as usize == n.bits.len() && c.data() == pack_tagged(&n.bits) && c.reference_count() as usize == n.refs.len() && (o.kind == Kind::Virtual || c.repr_hash().0 == *n.repr()), "content", "{:?} of node {}: {}", o.kind, o.node, self.what()),
            }
        }
        Ok(())
    }

    fn end(mut self, t: Tracker, last_first: bool, l: &mut L) -> R {
        while !self.strong.is_empty() { let k = if last_first { self.strong.len() - 1 } else { 0 }; self.step(Op::Drop(k), &t, l)? }
        while !self.weak.is_empty() { self.step(Op::DropWeak(0), &t, l)? }
        if self.tree.is_some() { self.step(Op::DropTree, &t, l)? }
        l.traces(1);
        match t.finish() { Ok(n) => { l.extra("allocations recorded", n); Ok(()) } Err(e) => bad!("allocation", "{e}: {}", self.what()) }
    }
}

/// all sequences of up to `depth` operations after keeping the handles in `keep`
fn histories(d: &Dag, keep: u32, depth: usize, most: usize, l: &mut L) -> R {
    let mut path: Vec<(usize, usize)> = vec![];
    loop {
        let t = Tracker::default();
        let mut s = St::new(d, &t);
        for k in (0..d.nodes.len()).rev() { if keep >> k & 1 == 0 { s.step(Op::Drop(k), &t, l)? } }
        for i in 0..depth {
            let ops = s.ops(most);
            if ops.is_empty() { break }
            if path.len() == i { path.push((0, ops.len())) }
            s.step(ops[path[i].0], &t, l)?;
        }
        if depth == path.len() && path.len() > 2 && d.nodes.iter().any(|n| Arc::strong_count(n) > 2) { l.nt() }
        let lf = path.iter().map(|x| x.0).sum::<usize>() % 2 == 0;
        s.end(t, lf, l)?;
        while let Some((c, n)) = path.pop() { if c + 1 < n { path.push((c + 1, n)); break } }
        if path.is_empty() { return Ok(()) }
    }
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]] }
    let mut out = vec![];
    for p in perms(n - 1) { for i in 0..=p.len() { let mut q = p.clone(); q.insert(i, n - 1); out.push(q) } }
    out
}

/// what keeps the root alive in the sections that enumerate orders
#[derive(Clone, Copy, PartialEq, Debug)]
enum Wrap { None, Virtual, Usage, UsageLoaded }

fn orders(d: &Dag, wrap: Wrap, weak: u32, l: &mut L) -> R {
    let n = d.nodes.len();
    if wrap == Wrap::Virtual && d.root().mask == 0 { return Ok(()) }
    let extra = (wrap != Wrap::None) as usize;
    for p in perms(n + extra) {
        let t = Tracker::default();
        let mut s = St::new(d, &t);
        // weak handles on any number of nodes
        for k in 0..n { if weak >> k & 1 == 1 { s.step(Op::Down(k), &t, l)? } }
        match wrap {
            Wrap::None => {}
            Wrap::Virtual => s.step(Op::Virt(n - 1), &t, l)?,
            Wrap::Usage => s.step(Op::Track(n - 1), &t, l)?,
            Wrap::UsageLoaded => {
                s.step(Op::Track(n - 1), &t, l)?;
                // load everything, keeping only the root of the tracked graph
                let mut i = n;
                while i < s.strong.len() {
                    for j in 0..d.nodes[s.objs[s.strong[i].1].node].refs.len() { s.step(Op::Child(i, j as u8), &t, l)? }
                    i += 1;
                }
                while s.strong.len() > n + 1 { let k = s.strong.len() - 1; s.step(Op::Drop(k), &t, l)? }
            }
        }
        // drop by original position
        let mut left: Vec<usize> = (0..n + extra).collect();
        for x in p {
            let k = left.iter().position(|y| *y == x).unwrap();
            left.remove(k);
            s.step(Op::Drop(k), &t, l)?;
        }
        l.nt();
        s.end(t, true, l)?;
    }
    Ok(())
}

/// a cell of every size, kind and number of references
fn sizes(bits: usize, l: &mut L) -> R {
    for refs in 0..=4usize {
        for mask in [0u8, 1, 3, 7] {
            if mask != 0 && refs == 0 { continue }
            let t = Tracker::default();
            let data: B = (0..bits).map(|i| (i * i / 3 + i) as u8 & 1).collect();
            let leaf = if mask == 0 { mk(false, uint(5, 8), vec![]).unwrap() } else { pruned_raw(mask, &(0..level_of(mask)).map(|k| ([k as u8 + 1; 32], k as u16)).collect::<Vec<_>>()) };
            let m = mk(false, data, vec![leaf; refs]).unwrap();
            let c = t.run(|| -> Result<Cell, Error> {
                let leaf = m.refs.first().map(|n| try_real(n.exotic(), &n.bits, &[])).transpose()?;
                let refs: Vec<Cell> = (0..refs).map(|_| leaf.clone().unwrap()).collect();
                try_real(false, &m.bits, &refs)
            }).unwrap();
            let copies = t.run(|| [c.clone(), Cell::virtualize(c.clone()), c.clone()]);
            l.st(1); l.ev(); l.tr(4); l.nt();
            let ok = check_same(c.as_ref(), &m).and_then(|_| check_same(copies[2].as_ref(), &m));
            t.run(|| drop(copies));
            let ok = ok.and_then(|_| check_same(c.as_ref(), &m));
            t.run(|| drop(c));
            if let Err(e) = ok { bad!("content", "{bits} bits, {refs} refs, mask {mask}: {e}") }
            if let Err(e) = t.finish() { bad!("allocation", "{bits} bits, {refs} refs, mask {mask}: {e}") }
        }
    }
    Ok(())
}

// ---- owners of references other than cells: builders and lists of references

#[derive(Clone, Copy, Debug)]
enum Bop { Store(usize, usize), CloneB(usize), DropB(usize), Build(usize), BuildBad(usize), List(usize, usize), SetRefs(usize), Iterate(usize), DropList, Slice(usize) }

fn builders(keep: u32, depth: usize, l: &mut L) -> R {
    let leaves: Vec<MC> = (0..3u8).map(|i| mk(false, uint(i as u128 + 1, 8), vec![]).unwrap()).collect();
    let mut path: Vec<(usize, usize)> = vec![];
    loop {
        let t = Tracker::default();
        // the leaves, the objects which own leaves: two builders, a list, results
        let cells: Vec<Cell> = leaves.iter().map(|m| t.run(|| try_real(false, &m.bits, &[]).unwrap())).collect();
        let addrs: Vec<usize> = cells.iter().map(|c| addr(c.as_ref())).collect();
        let mut cells: Vec<Option<Cell>> = cells.into_iter().map(Some).collect();
        let mut b: [Option<(CellBuilder, Vec<usize>)>; 2] = [Some((CellBuilder::new(), vec![])), None];
        let mut list: Option<(CellRefsBuilder, Vec<usize>)> = None;
        let mut done: Vec<(Cell, Vec<usize>)> = vec![];
        let mut log: Vec<Bop> = vec![];
        for i in 0..depth {
            let mut ops = vec![];
            for k in 0..2 {
                let Some((_, own)) = &b[k] else { continue };
                for x in 0..3 { if cells[x].is_some() { ops.push(Bop::Store(k, x)) } }
                if b[1 - k].is_none() { ops.push(Bop::CloneB(k)) }
                ops.extend([Bop::DropB(k), Bop::Build(k), Bop::BuildBad(k)]);
                if list.is_some() { ops.push(Bop::SetRefs(k)) }
                if !own.is_empty() { ops.push(Bop::Slice(k)) }
            }
            for x in 0..2 { if cells[x].is_some() && list.as_ref().is_none_or(|l| l.1.len() < 4) { for n in [1, 2] { ops.push(Bop::List(x, n)) } } }
            if let Some((_, own)) = &list { for n in 0..=own.len() { ops.push(Bop::Iterate(n)) } ops.push(Bop::DropList) }
            if path.len() == i { path.push((0, ops.len())) }
            if ops.is_empty() { break }
            let op = ops[path[i].0];
            log.push(op);
            match op {
                Bop::Store(k, x) => {
                    let c = cells[x].as_ref().unwrap().clone();
                    let (bb, own) = b[k].as_mut().unwrap();
                    let ok = t.run(|| bb.store_reference(c)).is_ok();
                    ck!(ok == (own.len() < 4), "store", "{log:?}");
                    if ok { own.push(x) }
                }
                Bop::CloneB(k) => { let (bb, own) = b[k].as_ref().unwrap(); let y = (t.run(|| bb.clone()), own.clone()); b[1 - k] = Some(y) }
                Bop::DropB(k) => { let (x, _) = b[k].take().unwrap(); t.run(|| drop(x)) }
                Bop::Build(k) => { let (x, own) = b[k].take().unwrap(); let c = t.run(|| x.build()); let Ok(c) = c else { bad!("build", "{log:?}") }; done.push((c, own)) }
                Bop::BuildBad(k) => { let (mut x, _) = b[k].take().unwrap(); let r = t.run(|| { x.set_exotic(true); x.build() }); ck!(r.is_err(), "build-malformed", "{log:?}") }
                Bop::List(x, n) => {
                    let (li, own) = list.get_or_insert_with(|| (CellRefsBuilder::default(), vec![]));
                    for _ in 0..n {
                        let c = cells[x].as_ref().unwrap().clone();
                        let ok = t.run(|| li.store_reference(c)).is_ok();
                        ck!(ok == (own.len() < 4), "list-store", "{log:?}");
                        if ok { own.push(x) }
                    }
                }
                Bop::SetRefs(k) => { let (li, own) = list.take().unwrap(); let (bb, o) = b[k].as_mut().unwrap(); t.run(|| bb.set_references(li)); *o = own }
                Bop::Iterate(n) => {
                    let (li, own) = list.take().unwrap();
                    let r = t.run(|| { let mut it = li.into_iter(); let mut v = [None, None, None, None]; for x in v.iter_mut().take(n) { *x = it.next() } (it.size_hint(), it, v) });
                    let (hint, it, v) = r;
                    ck!(hint == (own.len() - n, Some(own.len() - n)), "iter-hint", "{log:?}");
                    for (j, x) in own.iter().enumerate().take(n) { ck!(v[j].as_ref().is_some_and(|c| addr(c.as_ref()) == addrs[*x]), "iter-item", "{log:?}") }
                    t.run(|| { drop(it); drop(v) })
                }
                Bop::DropList => { let (li, _) = list.take().unwrap(); t.run(|| drop(li)) }
                Bop::Slice(k) => {
                    // through a slice of the builder
                    let (bb, own) = b[k].as_ref().unwrap();
                    let c = t.run(|| { let s = bb.as_full_slice(); s.get_reference_cloned(0) });
                    ck!(c.as_ref().is_ok_and(|c| addr(c.as_ref()) == addrs[own[0]]), "slice-ref", "{log:?}");
                    t.run(|| drop(c));
                }
            }
            // after the first step the handles which are not kept go away
            if i == 1 { for x in 0..3 { if keep >> x & 1 == 0 { let c = cells[x].take(); t.run(|| drop(c)) } } }
            l.st(1); l.tr(1); l.ev();
            if let Some(e) = t.error() { bad!("allocation", "{e}: {log:?}") }
            for x in 0..3 {
                let owned = cells[x].is_some() || b.iter().flatten().any(|b| b.1.contains(&x)) || list.as_ref().is_some_and(|l| l.1.contains(&x)) || done.iter().any(|d| d.1.contains(&x));
                ck!(t.is_live(addrs[x]) == owned, if owned { "released-early" } else { "kept" }, "leaf {x}: {log:?}");
            }
            for (bb, own) in b.iter().flatten() {
                ck!(bb.references().iter().map(|c| addr(c.as_ref())).eq(own.iter().map(|x| addrs[*x])), "builder-refs", "{log:?}");
            }
            for (c, own) in &done {
                for (j, x) in own.iter().enumerate() { if let Err(e) = check_same(c.reference(j as u8).unwrap(), &leaves[*x]) { bad!("content", "{e}: {log:?}") } }
            }
        }
        l.traces(1);
        if log.len() > 3 { l.nt() }
        t.run(|| { drop(done); drop(list.take().map(|x| x.0)); for x in b { drop(x.map(|x| x.0)) } for c in &mut cells { *c = None } });
        // the vectors of the model were made outside
        if let Err(e) = t.finish() { bad!("allocation", "{e}: {log:?}") }
        while let Some((c, n)) = path.pop() { if c + 1 < n { path.push((c + 1, n)); break } }
        if path.is_empty() { return Ok(()) }
    }
}

/// decoding: whatever the bytes, nothing stays behind
fn decoding(d: &Dag, cut: bool, l: &mut L) -> R {
    let bytes = Boc::encode(d.rroot());
    let mut inputs: Vec<Vec<u8>> = vec![];
    if cut { for n in 0..=bytes.len() { inputs.push(bytes[..n].to_vec()) } }
    else { for i in 0..bytes.len() { for x in [1u8, 2, 4, 8, 16, 32, 64, 128, 255] { let mut b = bytes.clone(); b[i] ^= x; inputs.push(b) } } }
    for b in inputs {
        let t = Tracker::default();
        l.st(1); l.ev(); l.tr(1);
        let r = t.run(|| Boc::decode(&b).map(|c| c.repr_hash().0));
        if r.is_err() { l.nt() }
        if let Err(e) = t.finish() { bad!("decode-allocation", "{e}: {} gives {r:?}", hx(&b)) }
    }
    Ok(())
}

// ---- threads

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    /// drop a handle
    Drop,
    /// copy it, drop the original, look at the copy, drop it
    CloneDrop,
    /// take a child, drop the handle, look at the child, drop it
    ChildDrop(u8),
    /// upgrade a weak handle of the node and look at what it gives
    Up,
    /// wrap, load a child through the wrapper, drop the handle, the wrapper, then the child
    Wrapped,
    /// keep the handle until the end
    Keep,
}

thread_local! { static TEAM: std::cell::RefCell<Option<Team>> = const { std::cell::RefCell::new(None) } }

/// each script: (node, what to do with a handle on it)
fn threads(d: &Dag, scripts: &[Vec<(usize, Act)>], b: Bound, l: &mut L) -> R {
    let what = || format!("{} scripts {scripts:?}", d.show());
    let st = TEAM.with(|team| {
        let mut team = team.borrow_mut();
        let team = team.get_or_insert_with(|| Team::new(3));
        team.explore(b, || {
            let t = Arc::new(Tracker::default());
            let cells = t.run(|| build(d));
            let addrs: Vec<usize> = cells.iter().map(|c| addr(c.as_ref())).collect();
            let errs: Arc<std::sync::Mutex<Vec<V>>> = Arc::default();
            let kept: Arc<std::sync::Mutex<Vec<(Cell, usize)>>> = Arc::default();
            let bodies = scripts.iter().map(|s| {
                let hs: Vec<(Cell, Option<WeakCell>, usize, Act)> = s.iter().map(|(n, a)| { let c = &cells[*n]; (c.clone(), (*a == Act::Up).then(|| t.run(|| Cell::downgrade(c))), *n, *a) }).collect();
                let (t, errs, kept) = (t.clone(), errs.clone(), kept.clone());
                Box::new(move || {
                    for (h, w, n, a) in hs {
                        let same = |c: &Cell, n: usize| if let Err(e) = check_same(c.as_ref(), &d.nodes[n]) { errs.lock().unwrap().push(V { key: "content".into(), detail: format!("node {n}: {e}") }) };
                        let child = |n: usize, i: u8| d.nodes.iter().position(|x| Arc::ptr_eq(x, &d.nodes[n].refs[i as usize])).unwrap();
                        match a {
                            Act::Drop => t.run(|| drop(h)),
                            Act::CloneDrop => { let c = t.run(|| h.clone()); t.run(|| drop(h)); point("between"); same(&c, n); t.run(|| drop(c)) }
                            Act::ChildDrop(i) => { let c = t.run(|| h.reference_cloned(i)).unwrap(); t.run(|| drop(h)); point("between"); same(&c, child(n, i)); t.run(|| drop(c)) }
                            Act::Up => {
                                t.run(|| drop(h));
                                point("between");
                                let w = w.unwrap();
                                let c = t.run(|| w.upgrade());
                                if let Some(c) = c { same(&c, n); point("upgraded"); same(&c, n); t.run(|| drop(c)) }
                                t.run(|| drop(w))
                            }
                            Act::Wrapped => {
                                let tree = t.run(|| UsageTree::new(UsageTreeMode::OnDataAccess));
                                let u = t.run(|| tree.track(&h));
                                t.run(|| drop(h));
                                let c = t.run(|| u.reference_cloned(0));
                                point("between");
                                t.run(|| drop(u));
                                if let Some(c) = c { let c = t.run(|| c.untrack()); same(&c, child(n, 0)); t.run(|| drop(c)) }
                                t.run(|| drop(tree))
                            }
                            Act::Keep => { same(&h, n); kept.lock().unwrap().push((h, n)) }
                        }
                        point("between");
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            }).collect();
            // only the threads hold handles
            t.run(|| drop(cells));
            ((t, errs, kept, addrs), bodies)
        }, |(t, errs, kept, addrs), sch| {
            let v = |key: &str, e: String| Err(V { key: key.into(), detail: format!("{e}: {} | schedule {}", what(), sch()) });
            if let Some(e) = errs.lock().unwrap().pop() { return v(&e.key, e.detail) }
            if let Some(e) = t.error() { return v("allocation", e) }
            let kept = std::mem::take(&mut *kept.lock().unwrap());
            let mut alive = vec![false; d.nodes.len()];
            let mut stack: Vec<usize> = kept.iter().map(|x| x.1).collect();
            while let Some(i) = stack.pop() { if !std::mem::replace(&mut alive[i], true) { for r in &d.nodes[i].refs { stack.push(d.nodes.iter().position(|x| Arc::ptr_eq(x, r)).unwrap()) } } }
            for (i, a) in alive.iter().enumerate() { if t.is_live(addrs[i]) != *a { return v(if *a { "released-early" } else { "kept" }, format!("node {i}")) } }
            for (c, n) in &kept { if let Err(e) = check_same(c.as_ref(), &d.nodes[*n]) { return v("content", e) } }
            t.run(|| for (c, _) in kept { drop(c) });
            match Arc::try_unwrap(t) { Ok(t) => if let Err(e) = t.finish() { return v("allocation", e) }, Err(_) => return v("harness", "tracker still shared".into()) }
            Ok(())
        })
    })?;
    l.st(st.schedules); l.tr(st.steps); l.evn(st.schedules); l.traces(st.schedules);
    l.extra("schedules", st.schedules);
    if st.schedules > 1 { l.nt() }
    Ok(())
}

// ---- depth

const DEEP: &[&str] = &["chain", "ladder", "comb-first", "comb-last", "comb-wide", "shared-middle", "two-handles", "virtual", "virtual-held", "usage-loaded", "usage-held", "usage-untrack", "usage-nested", "weak-some", "thread", "decode", "pruned-leaf", "weak-each", "weak-every-other"];
const DEPTH: usize = 65_000;

/// runs one deep shape in this process; 0: fine
pub fn probe(name: &str) -> i32 {
    let name = name.to_string();
    let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || deep(&name)).unwrap();
    match h.join() { Ok(Ok(())) => 0, Ok(Err(e)) => { println!("{e}"); 3 } Err(_) => { println!("panic"); 4 } }
}

fn deep(name: &str) -> Result<(), String> {
    warm();
    let t = Tracker::default();
    let leaf = |x: usize| try_real(false, &uint(x as u128, 24), &[]).unwrap();
    let link = |i: usize, refs: &[Cell]| try_real(false, &uint(i as u128 + 1, 24), refs).unwrap();
    let mut hold: Vec<Cell> = Vec::with_capacity(8);
    let mut weak: Vec<WeakCell> = Vec::with_capacity(DEPTH + 8);
    let mut trees: Vec<UsageTree> = Vec::with_capacity(8);
    t.run(|| -> Result<(), String> {
        let mut c = if name == "pruned-leaf" || name.starts_with("virtual") { let m = pruned_raw(1, &[([3; 32], 1)]); try_real(true, &m.bits, &[]).unwrap() } else { leaf(0) };
        if name == "usage-nested" { trees.push(UsageTree::new(UsageTreeMode::OnDataAccess)) }
        for i in 0..DEPTH {
            c = match name {
                "ladder" => link(i, &[c.clone(), c]),
                "comb-first" => { let x = leaf(i); link(i, &[c, x.clone(), x.clone(), x]) }
                "comb-last" => { let x = leaf(i); link(i, &[x.clone(), x.clone(), x, c]) }
                "comb-wide" => { let x = link(i + 1, &[leaf(i), leaf(i + 1)]); let y = link(i + 2, &[x.clone(), leaf(i + 3)]); link(i, &[x, c, y]) }
                "usage-nested" => trees[0].track(&link(i, &[c])),
                _ => link(i, &[c]),
            };
            match name {
                "shared-middle" if i == DEPTH / 2 => hold.push(c.clone()),
                "weak-each" => weak.push(Cell::downgrade(&c)),
                "weak-every-other" if i % 2 == 0 => weak.push(Cell::downgrade(&c)),
                "weak-some" if i % 1000 == 0 => weak.push(Cell::downgrade(&c)),
                _ => {}
            }
        }
        match name {
            "two-handles" => { let d = c.clone(); drop(c); if d.depth(3) as usize != DEPTH { return Err("content".into()) } drop(d); return Ok(()) }
            "virtual" | "virtual-held" => {
                let v = Cell::virtualize(c.clone());
                if name == "virtual" { drop(c); } else { hold.push(c) }
                let mut x = v;
                for _ in 0..DEPTH / 2 { x = x.reference_cloned(0).ok_or("child")? }
                drop(x);
                hold.clear();
                return Ok(());
            }
            "usage-loaded" | "usage-held" | "usage-untrack" => {
                let tree = UsageTree::new(UsageTreeMode::OnDataAccess);
                let u = tree.track(&c);
                drop(c);
                let mut x = u.clone();
                let mut i = 0;
                while let Some(y) = x.reference_cloned(0) { x = y; i += 1; if name == "usage-held" && i == DEPTH / 2 { hold.push(x.clone()) } }
                drop(x);
                drop(tree);
                if name == "usage-untrack" { let p = u.untrack(); if p.depth(3) as usize != DEPTH { return Err("content".into()) } drop(p) } else { drop(u) }
                if let Some(h) = hold.pop() { if h.depth(3) as usize != DEPTH - DEPTH / 2 { return Err("content of the survivor".into()) } drop(h) }
                return Ok(());
            }
            "thread" => { return untracked(|| std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || t.run(|| drop(c))).unwrap().join().map_err(|_| "panic".into()))) }
            "decode" => {
                let bytes = Boc::encode(&c);
                drop(c);
                let d = Boc::decode(&bytes).map_err(|e| e.to_string())?;
                if d.depth(3) as usize != DEPTH { return Err("content".into()) }
                drop(d);
                // a broken bag: the cells read so far are released too
                let mut bad = bytes.clone();
                let n = bad.len();
                bad.truncate(n - 3);
                if Boc::decode(&bad).is_ok() { return Err("truncated bag decodes".into()) }
                return Ok(());
            }
            _ => {}
        }
        drop(c);
        if let Some(h) = hold.pop() { if h.depth(3) as usize != DEPTH / 2 + 1 || h.reference(0).is_none() { return Err("content of the survivor".into()) } drop(h) }
        for w in weak.drain(..) { if w.upgrade().is_some() { return Err("kept".into()) } }
        trees.clear();
        Ok(())
    })?;
    if let Some(e) = t.error() { return Err(e) }
    if t.live_blocks() != 0 { return Err(format!("{} blocks left", t.live_blocks())) }
    Ok(())
}

/// what the library and its dependencies make once per process
fn warm() {
    let c = try_real(false, &[1], &[Cell::empty_cell()]).unwrap();
    let tree = UsageTree::new(UsageTreeMode::OnLoad);
    drop(tree.track(&c).reference_cloned(0));
    let _ = Boc::decode(Boc::encode(&c));
    let _ = Boc::decode([0u8; 40]);
}

fn run(r: &Run) {
    // warm what is made once
    warm();
    drop((Cell::empty_cell(), CellBuilder::new().build(), Cell::downgrade(&Cell::empty_cell())));

    r.section("sizes", 1024, |i, l| sizes(i as usize, l));

    let mut ds: Vec<Dag> = vec![];
    for n in 1..=3 { ds.extend(dags(Cfg { n, refs: if n < 3 { 4 } else { 3 }, odd: 1, masks: &[1, 3], closed: false, ..BASE })) }
    let four = dags(Cfg { n: 4, refs: 2, odd: r.pick(0, 1), merkle: !r.quick(), masks: &[1], closed: false, ..BASE });
    let wide: Vec<Dag> = dags(Cfg { n: 4, refs: r.pick(3, 4), odd: 0, merkle: false, closed: false, ..BASE }).into_iter().filter(|d| d.nodes.iter().any(|n| n.refs.len() > 2)).collect();

    let wraps = [Wrap::None, Wrap::Virtual, Wrap::Usage, Wrap::UsageLoaded];
    let all: Vec<&Dag> = ds.iter().chain(&four).chain(&wide).collect();
    r.section("orders", all.len() as u64 * 4, |i, l| {
        let mut ix = Ix(i);
        let d = *ix.of(&all);
        let w = *ix.of(&wraps);
        let n = d.nodes.len();
        for weak in 0..1u32 << n {
            // quick: weak handles on up to one node of the larger graphs
            if r.quick() && n == 4 && weak.count_ones() > 1 { continue }
            if n == 4 && w != Wrap::None && weak != 0 && r.quick() { continue }
            orders(d, w, weak, l)?;
        }
        Ok(())
    });
    let five: Vec<Dag> = dags(Cfg { n: 5, refs: 2, odd: 0, merkle: false, closed: false, ..BASE });
    let five: Vec<&Dag> = five.iter().step_by(r.pick(5, 1)).collect();
    r.section("orders/n5", five.len() as u64, |i, l| orders(five[i as usize], Wrap::None, 0, l));

    let small: Vec<&Dag> = ds.iter().collect();
    let depth = r.pick(3, 4);
    r.section("histories", small.len() as u64 * 8, |i, l| {
        let mut ix = Ix(i);
        let d = *ix.of(&small);
        let keep = ix.take(8) as u32;
        if keep == 0 || keep >= 1 << d.nodes.len() { return Ok(()) }
        // quick: the root alone, or everything
        if r.quick() && keep.count_ones() as usize != d.nodes.len() && keep != 1 << (d.nodes.len() - 1) { return Ok(()) }
        histories(d, keep, if d.nodes.len() <= 2 { depth + 1 } else { depth }, 5, l)
    });
    let deepest: Vec<&Dag> = ds.iter().filter(|d| d.nodes.len() == 2).chain(four.iter().step_by(r.pick(17, 5))).collect();
    r.section("histories/deeper", deepest.len() as u64, |i, l| {
        let d = deepest[i as usize];
        histories(d, 1 << (d.nodes.len() - 1), r.pick(4, 5), 3, l)
    });

    r.section("builders", 8, |i, l| builders(i as u32, r.pick(4, 5), l));
    r.section("decoding", all.len() as u64 * 2, |i, l| decoding(all[(i / 2) as usize], i % 2 == 0, l));

    // threads
    let b = Bound { preemptions: u32::MAX, schedules: r.pick(300, 20_000) };
    let td: Vec<&Dag> = ds.iter().filter(|d| d.nodes.len() == 2).chain(ds.iter().filter(|d| d.nodes.len() == 3).step_by(r.pick(4, 1))).chain(four.iter().step_by(r.pick(12, 1))).collect();
    r.section("schedules/two", td.len() as u64 * 8 * 16, |i, l| {
        let mut ix = Ix(i);
        let d = *ix.of(&td);
        let root = d.nodes.len() - 1;
        let x = ix.us(8);
        let y = ix.us(16);
        let acts = [Act::Drop, Act::CloneDrop, Act::ChildDrop(0), Act::Up, Act::Wrapped, Act::ChildDrop(1), Act::Keep, Act::Drop];
        let (a, c) = (acts[x], acts[y % 8]);
        // the second thread holds the root, or another node
        let m = if y < 8 { root } else { d.nodes.len() - 2 };
        let fits = |n: usize, a: Act| match a { Act::ChildDrop(k) => d.nodes[n].refs.len() > k as usize, Act::Wrapped => !d.nodes[n].refs.is_empty(), _ => true };
        if x == 7 || y % 8 == 7 || !fits(root, a) || !fits(m, c) { return Ok(()) }
        threads(d, &[vec![(root, a)], vec![(m, c)]], b, l)
    });
    let td3: Vec<&Dag> = td.iter().step_by(r.pick(5, 2)).copied().collect();
    r.section("schedules/three", td3.len() as u64 * 6, |i, l| {
        let mut ix = Ix(i);
        let d = *ix.of(&td3);
        let root = d.nodes.len() - 1;
        let k = ix.us(6);
        let third = [Act::Drop, Act::CloneDrop, Act::Up][k % 3];
        let m = if k < 3 { root } else { root - 1 };
        threads(d, &[vec![(root, Act::Drop)], vec![(root, Act::Drop)], vec![(m, third)]], Bound { preemptions: r.pick(2, 4), ..b }, l)
    });
    r.section("schedules/many-handles", td3.len() as u64 * 4, |i, l| {
        let mut ix = Ix(i);
        let d = *ix.of(&td3);
        let n = d.nodes.len();
        let k = ix.us(4);
        // every node held by someone
        let s: Vec<Vec<(usize, Act)>> = match k {
            0 => vec![(0..n).map(|i| (i, Act::Drop)).collect(), vec![(n - 1, Act::Drop)]],
            1 => vec![(0..n).rev().map(|i| (i, Act::Drop)).collect(), vec![(n - 1, Act::Drop), (n - 2, Act::CloneDrop)]],
            2 => vec![vec![(n - 1, Act::Drop), (0, Act::Keep)], vec![(n - 1, Act::Up), (n - 2, Act::Drop)]],
            _ => vec![vec![(n - 2, Act::Drop), (n - 1, Act::Drop)], vec![(n - 1, Act::Drop), (n - 2, Act::Drop)]],
        };
        threads(d, &s, b, l)
    });

    r.section("deep", DEEP.len() as u64, |i, l| {
        let name = DEEP[i as usize];
        l.st(1); l.ev(); l.tr(DEPTH as u64); l.nt();
        let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["--probe", name]).output().unwrap();
        use std::os::unix::process::ExitStatusExt;
        if out.status.success() { return Ok(()) }
        let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
        bad!(format!("deep/{name}"), "{} cells deep: {} {text}", DEPTH, match out.status.signal() { Some(s) => format!("stack overflow or crash (signal {s})"), None => "wrong result".into() })
    });
}
