//! Universes of small cell graphs (as models) shared by the Merkle related properties.
use crate::model::{bits::*, cells::*};
use std::collections::HashSet;
use std::sync::Arc;
use tycho_types::cell::*;

#[derive(Clone)]
pub struct Dag { pub nodes: Vec<MC>, pub real: Vec<Cell> }
impl Dag {
    pub fn root(&self) -> &MC { self.nodes.last().unwrap() }
    pub fn rroot(&self) -> &Cell { self.real.last().unwrap() }
    pub fn show(&self) -> String {
        self.nodes.iter().enumerate().map(|(i, n)| format!("{i}:{:?}{:?}", n.kind, n.refs.iter().map(|r| self.nodes.iter().position(|x| Arc::ptr_eq(x, r)).unwrap()).collect::<Vec<_>>())).collect::<Vec<_>>().join(" ")
    }
}
pub fn hb(h: &H) -> HashBytes { HashBytes(*h) }

#[derive(Clone, Copy)]
pub struct Cfg {
    pub n: usize,
    /// most references of an ordinary cell
    pub refs: usize,
    /// nested Merkle cells
    pub merkle: bool,
    /// pruned branches / libraries among the first nodes: number of nodes that may be one
    pub odd: usize,
    /// bits of the data of ordinary nodes (long data has this length, with the node number in front)
    pub big: usize,
    /// only roots of level 0
    pub closed: bool,
    /// tag mixed into the data of ordinary nodes
    pub tag: u8,
    /// masks of the pruned branches
    pub masks: &'static [u8],
}
pub const BASE: Cfg = Cfg { n: 4, refs: 2, merkle: true, odd: 1, big: 0, closed: true, tag: 0xc0, masks: &[1, 3] };

fn odd_cells(i: usize, masks: &[u8]) -> Vec<MC> {
    let mut v = vec![lib(&[0x70 + i as u8; 32])];
    for &m in masks {
        let hs: Vec<(H, u16)> = (0..level_of(m)).map(|k| ([0x10 * (i as u8 + 1) + k as u8; 32], 7 + 3 * k as u16 + i as u16)).collect();
        v.push(pruned_raw(m, &hs));
    }
    v
}
fn seqs(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..k {
        let mut next = vec![];
        for s in &last { for i in 0..n { let mut t: Vec<usize> = s.clone(); t.push(i); next.push(t) } }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// All graphs with exactly `n` nodes, each reachable from the last one (distinct cells by construction).
pub fn dags(c: Cfg) -> Vec<Dag> {
    let mut out = vec![];
    let mut cur: Vec<MC> = vec![];
    fn reach(root: &MC) -> usize {
        fn go(m: &MC, s: &mut HashSet<*const M>) { if s.insert(Arc::as_ptr(m)) { for r in &m.refs { go(r, s) } } }
        let mut s = HashSet::new();
        go(root, &mut s);
        s.len()
    }
    fn go(c: &Cfg, cur: &mut Vec<MC>, out: &mut Vec<Vec<MC>>) {
        let i = cur.len();
        if i == c.n {
            let root = cur.last().unwrap();
            if (!c.closed || root.mask == 0) && reach(root) == c.n {
                let hs: HashSet<&H> = cur.iter().map(|m| m.repr()).collect();
                if hs.len() == c.n { out.push(cur.clone()) }
            }
            return;
        }
        let mut cand: Vec<MC> = vec![];
        for s in seqs(i, c.refs) {
            let refs: Vec<MC> = s.iter().map(|&k| cur[k].clone()).collect();
            let mut bits = uint(c.tag as u128 + i as u128, 8);
            if c.big > 0 && i % 2 == 0 { let n = c.big + (i / 2) % 2; while bits.len() < n { bits.push((bits.len() % 3 == 0) as u8) } }
            cand.push(ord(bits, refs.clone()));
            if c.merkle && refs.len() == 1 { cand.push(proof(&refs[0])) }
            if c.merkle && refs.len() == 2 { cand.push(update(&refs[0], &refs[1])) }
        }
        if i < c.odd { cand.extend(odd_cells(i, c.masks)) }
        for m in cand { cur.push(m); go(c, cur, out); cur.pop(); }
    }
    let mut all = vec![];
    go(&c, &mut cur, &mut all);
    for nodes in all {
        let mut real = vec![];
        for m in &nodes {
            let refs: Vec<Cell> = m.refs.iter().map(|r| { let k = nodes.iter().position(|x| Arc::ptr_eq(x, r)).unwrap(); let c: &Cell = &real[k]; c.clone() }).collect();
            real.push(try_real(m.exotic(), &m.bits, &refs).expect("model cell must be buildable"));
        }
        out.push(Dag { nodes, real });
    }
    out
}

/// All distinct cells of a graph, children first.
pub fn topo(m: &MC) -> Vec<MC> {
    fn go(m: &MC, seen: &mut HashSet<H>, out: &mut Vec<MC>) { if !seen.insert(*m.repr()) { return } for r in &m.refs { go(r, seen, out) } out.push(m.clone()) }
    let mut out = vec![];
    go(m, &mut HashSet::new(), &mut out);
    out
}

/// A new tree built over an old one: `extra` new cells on top of cells of `old`; the last one is the new root
/// (or any closed old cell when there are none).
pub struct Pair { pub old: usize, pub new: MC, pub rnew: Cell, pub names: String }
pub fn news(d: &Dag, oi: usize, m: usize, refs: usize, merkle: bool) -> Vec<Pair> {
    let mut out = vec![];
    if m == 0 {
        for (i, c) in d.nodes.iter().enumerate() { if c.mask == 0 { out.push(Pair { old: oi, new: c.clone(), rnew: d.real[i].clone(), names: format!("new=old#{i}") }) } }
        return out;
    }
    fn go(d: &Dag, oi: usize, m: usize, refs: usize, merkle: bool, cur: &mut Vec<(MC, Cell, String)>, out: &mut Vec<Pair>) {
        let i = cur.len();
        let base = d.nodes.len();
        if i == m {
            let (root, rc, _) = cur.last().unwrap();
            if root.mask != 0 { return }
            let t = topo(root);
            if cur.iter().all(|c| t.iter().any(|x| x.repr() == c.0.repr())) {
                out.push(Pair { old: oi, new: root.clone(), rnew: rc.clone(), names: cur.iter().map(|c| c.2.clone()).collect::<Vec<_>>().join(" ") })
            }
            return;
        }
        for s in seqs(base + i, refs) {
            let pick = |k: usize| if k < base { (d.nodes[k].clone(), d.real[k].clone()) } else { (cur[k - base].0.clone(), cur[k - base].1.clone()) };
            let (ms, cs): (Vec<MC>, Vec<Cell>) = s.iter().map(|&k| pick(k)).unzip();
            let mut cand = vec![ord(uint(0xd0 + i as u128, 8), ms.clone())];
            if merkle && ms.len() == 1 { cand.push(proof(&ms[0])) }
            if merkle && ms.len() == 2 { cand.push(update(&ms[0], &ms[1])) }
            for c in cand {
                if d.nodes.iter().any(|x| x.repr() == c.repr()) || cur.iter().any(|x| x.0.repr() == c.repr()) { continue }
                let rc = try_real(c.exotic(), &c.bits, &cs).expect("buildable");
                let nm = format!("n{}:{:?}{:?}", base + i, c.kind, s);
                cur.push((c, rc, nm));
                go(d, oi, m, refs, merkle, cur, out);
                cur.pop();
            }
        }
    }
    go(d, oi, m, refs, merkle, &mut vec![], &mut out);
    out
}
