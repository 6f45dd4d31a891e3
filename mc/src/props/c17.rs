//! C17: a Merkle update turns the old tree into exactly the new one.
use super::daglib::*;
use crate::fw::*;
use crate::model::cells::*;
use crate::model::merkle::*;
use crate::*;
use std::collections::{HashMap, HashSet};
use tycho_types::cell::*;
use tycho_types::merkle::*;

pub const META: Meta = Meta {
    id: "C17",
    level: "model_checking",
    rule: "a state is (old graph, new graph built over it, set of used old cells); every state is run through the real update builder; both sides are compared cell by cell with an independent definition, the update is stored, reloaded and applied to the old tree, to the new tree and to every other cell; every single-bit corruption of every cell of the updates of a small universe is loaded and applied; non-trivial: something is pruned",
    assumptions: &["both roots have level 0", "the used cells are closed under parents: each is reached from the old root through used cells only (what a usage tree records); for other sets only soundness is required"],
    run,
};

pub fn closed(old: &MC, used: &HashSet<H>) -> bool {
    fn go(m: &MC, used: &HashSet<H>, seen: &mut HashSet<H>) { if !used.contains(m.repr()) || !seen.insert(*m.repr()) { return } for r in &m.refs { go(r, used, seen) } }
    let mut seen = HashSet::new();
    go(old, used, &mut seen);
    seen.len() == used.len()
}

/// each used cell is reached from the root through used cells
fn reached(old: &MC, acts: &HashMap<H, Act>) -> bool {
    fn go(m: &MC, whole: bool, acts: &HashMap<H, Act>, seen: &mut HashSet<(H, bool)>) {
        let a = if whole { Act::Subtree } else { acts[m.repr()] };
        if a == Act::Skip || !seen.insert((*m.repr(), whole)) { return }
        for r in &m.refs { go(r, a == Act::Subtree, acts, seen) }
    }
    let mut seen = HashSet::new();
    go(old, false, acts, &mut seen);
    acts.iter().all(|(h, a)| *a == Act::Skip || seen.contains(&(*h, false)) || seen.contains(&(*h, true)))
}

struct Acts<'a>(&'a HashMap<H, Act>);
impl MerkleFilter for Acts<'_> {
    fn check(&self, h: &HashBytes) -> FilterAction {
        match self.0.get(&h.0) { None | Some(Act::Skip) => FilterAction::Skip, Some(Act::Include) => FilterAction::Include, Some(Act::Subtree) => FilterAction::IncludeSubtree }
    }
}

fn one(d: &Dag, p: &Pair, f: u32, l: &mut L) -> R {
    one_of(d, p, &d.nodes.iter().enumerate().map(|(j, m)| (*m.repr(), if f >> j & 1 != 0 { Act::Include } else { Act::Skip })).collect(), l)
}

fn one_of(d: &Dag, p: &Pair, acts: &HashMap<H, Act>, l: &mut L) -> R {
    let old = d.root();
    let act = |h: &H| acts.get(h).copied().unwrap_or(Act::Skip);
    let used: HashSet<H> = d.nodes.iter().map(|m| *m.repr()).filter(|h| act(h) != Act::Skip).collect();
    let subtrees = acts.values().any(|a| *a == Act::Subtree);
    let ctx = || format!("old {} | {} | used={:?}", d.show(), p.names, d.nodes.iter().map(|m| act(m.repr())).collect::<Vec<_>>());
    let hs: HashSet<HashBytes> = used.iter().map(hb).collect();
    l.st(1); l.tr(1); l.ev();
    let (ro, rn) = (d.rroot().as_ref(), p.rnew.as_ref());
    let got = np("panic", &ctx, || if subtrees { MerkleUpdate::create(ro, rn, Acts(acts)).build() } else { MerkleUpdate::create(ro, rn, hs).build() })?;
    let same = old.repr() == p.new.repr();
    let want = if same { prune(old, 0).map(|x| (x.clone(), x)) } else {
        prove(&p.new, &|h| if used.contains(h) { Act::Skip } else { Act::Include }, false).and_then(|(n, pr)| {
            let k = kept(old, &act, &pr);
            prove(old, &|h| if k.contains(h) { Act::Include } else { Act::Skip }, false).map(|(o, _)| (o, n))
        })
    };
    let (wo, wn) = match want {
        Ok(x) => x,
        Err(_) => { ck!(got.is_err(), "too-deep-accepted", "{}", ctx()); l.extra("too_deep_refused", 1); return Ok(()) }
    };
    let u = match got { Ok(u) => u, Err(e) => bad!("refused", "{e:?} {}", ctx()) };
    if wn.mask != 0 { l.nt() }
    ckeq!((u.old_hash.as_array(), u.old_depth as u32, u.new_hash.as_array(), u.new_depth as u32), (old.repr(), old.depth(), p.new.repr(), p.new.depth()), "named-roots", "{}", ctx());
    if let Err(e) = check_same(u.new.as_ref(), &wn) { bad!("new-side", "{e} {}", ctx()) }
    if let Err(e) = check_same(u.old.as_ref(), &wo) { bad!("old-side", "{e} {}", ctx()) }
    let c = match CellBuilder::build_from(&u) { Ok(c) => c, Err(e) => bad!("store", "{e:?} {}", ctx()) };
    if let Err(e) = check_same(c.as_ref(), &update(&wo, &wn)) { bad!("stored-update", "{e} {}", ctx()) }
    let back = match c.parse_exotic::<MerkleUpdate>() { Ok(b) => b, Err(e) => bad!("load", "{e:?} {}", ctx()) };
    ck!(back == u, "reload", "{}", ctx());
    // apply
    let proper = reached(old, acts);
    let r = np("panic", &ctx, || u.apply(d.rroot()))?;
    match r {
        Ok(n) => { if let Err(e) = check_same(n.as_ref(), &p.new) { bad!("applied", "{e} {}", ctx()) } }
        Err(e) => { if proper { bad!("not-applied", "{e:?} {}", ctx()) } l.extra("not_applicable_sets", 1) }
    }
    l.tr(1);
    for (m, c) in d.nodes.iter().zip(&d.real).chain([(&p.new, &p.rnew)]) {
        if m.repr() == old.repr() { continue }
        ck!(np("panic", &ctx, || u.apply(c))?.is_err(), "applied-to-other", "{}", ctx());
    }
    Ok(())
}

fn graphs(r: &Run, name: &str, cfg: Cfg, m: usize, refs: usize) {
    let ds = dags(cfg);
    r.section(name, ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        for p in news(d, i as usize, m, refs, cfg.merkle) {
            for f in 0..1u32 << d.nodes.len() { one(d, &p, f, l)? }
        }
        Ok(())
    });
}

fn run(r: &Run) {
    let o = |n: usize, merkle: bool, odd: usize| Cfg { n, merkle, odd, masks: &[1], ..BASE };
    for n in 1..=3 { graphs(r, &format!("n{n}+0"), o(n, true, 2), 0, 2); graphs(r, &format!("n{n}+1"), o(n, true, 2), 1, 3) }
    graphs(r, "n2+2", o(2, true, 2), 2, 3);
    graphs(r, "n3+2", o(3, true, r.pick(0, 1)), 2, 2);
    graphs(r, "n4+0", o(4, true, 1), 0, 2);
    graphs(r, "n4+1", o(4, true, r.pick(0, 1)), 1, 2);
    graphs(r, "n4+2", o(4, false, 0), 2, 2);
    graphs(r, "n5+1", o(5, false, 0), 1, 2);
    if !r.quick() { graphs(r, "n4+2m", o(4, true, 0), 2, 2); graphs(r, "n5+1m", o(5, true, 0), 1, 2); graphs(r, "n5+2", o(5, false, 0), 2, 2) }

    // filters that include whole subtrees
    let subtrees = |name: &str, cfg: Cfg, m: usize, refs: usize| {
        let ds = dags(cfg);
        r.section(name, ds.len() as u64, |i, l| {
            let d = &ds[i as usize];
            for p in news(d, i as usize, m, refs, cfg.merkle) {
                for f in 0..3u64.pow(d.nodes.len() as u32) {
                    let mut ix = Ix(f);
                    let acts: HashMap<H, Act> = d.nodes.iter().map(|m| (*m.repr(), [Act::Include, Act::Skip, Act::Subtree][ix.us(3)])).collect();
                    if acts.values().any(|a| *a == Act::Subtree) { one_of(d, &p, &acts, l)? }
                }
            }
            Ok(())
        });
    };
    subtrees("subtrees/n3+1", o(3, true, 1), 1, 2);
    subtrees("subtrees/n4+0", o(4, false, 0), 0, 2);
    subtrees("subtrees/n4+1", o(4, false, 0), 1, 2);
    subtrees("subtrees/n5+1", o(5, false, 0), 1, 1);
    if !r.quick() { subtrees("subtrees/n4+1m", o(4, true, 0), 1, 2); subtrees("subtrees/n5+1r2", o(5, false, 0), 1, 2) }

    // deep nesting of Merkle cells on both sides
    r.section("nesting", 600, |i, l| {
        let (k, upd) = (i / 2, i % 2 == 1);
        let leaf = ord(vec![1], vec![]);
        let b = ord(vec![0, 1], vec![leaf.clone()]);
        let wrap = |tag: u8| { let mut m = ord(vec![1, 1, 0, tag], vec![b.clone()]); for _ in 0..k { m = if upd { update(&m, &m) } else { proof(&m) } } ord(vec![tag], vec![m, b.clone()]) };
        let (old, new) = (wrap(0), wrap(1));
        let (ro, rn) = (real(&old), real(&new));
        let used: HashSet<HashBytes> = topo(&old).iter().map(|x| hb(x.repr())).collect();
        l.st(1); l.tr(1); l.ev();
        let ctx = || format!("{k} nested");
        let got = np("panic", &ctx, || MerkleUpdate::create(ro.as_ref(), rn.as_ref(), used.clone()).build())?;
        ckeq!(got.is_ok(), k <= 2, "nesting", "{}", ctx());
        if let Ok(u) = &got {
            let n = match np("panic", &ctx, || u.apply(&ro))? { Ok(n) => n, Err(e) => bad!("not-applied", "{e:?} {}", ctx()) };
            if let Err(e) = check_same(n.as_ref(), &new) { bad!("applied", "{e} {}", ctx()) }
        } else { l.nt() }
        // an update that carries everything can be applied at any nesting
        let u = MerkleUpdate { old_hash: hb(old.repr()), new_hash: hb(new.repr()), old_depth: old.depth() as u16, new_depth: new.depth() as u16, old: ro.clone(), new: rn.clone() };
        let n = match np("panic-apply", &ctx, || u.apply(&ro))? { Ok(n) => n, Err(e) => bad!("full-not-applied", "{e:?} {}", ctx()) };
        if let Err(e) = check_same(n.as_ref(), &new) { bad!("applied", "{e} {}", ctx()) }
        np("panic-diff", &ctx, || u.compute_removed_cells(ro.as_ref()).map(|x| x.len()))?.map_err(|e| V { key: "diff".into(), detail: format!("{e:?} {}", ctx()) })?;
        Ok(())
    });

    // corruption
    let ds = dags(o(2, true, 0)).into_iter().chain(dags(o(3, false, 0))).collect::<Vec<_>>();
    r.section("corruption", ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        let mut done: HashSet<H> = HashSet::new();
        for p in news(d, 0, 1, 2, d.nodes.len() == 2) {
            for f in 0..1u32 << d.nodes.len() {
                let used: HashSet<HashBytes> = d.nodes.iter().enumerate().filter(|(j, _)| f >> j & 1 != 0).map(|(_, m)| hb(m.repr())).collect();
                let u = MerkleUpdate::create(d.rroot().as_ref(), p.rnew.as_ref(), used).build().map_err(|e| V { key: "build".into(), detail: format!("{e:?}") })?;
                let uc = CellBuilder::build_from(&u).unwrap();
                let um = abstract_cell(uc.as_ref()).ok_or(V { key: "abstract".into(), detail: d.show() })?;
                if !done.insert(*um.repr()) { continue }
                let cells = topo(&um);
                for (j, x) in cells.iter().enumerate() {
                    for bit in 0..x.bits.len() {
                        l.st(1); l.tr(1); l.ev();
                        let mut memo: HashMap<H, Result<MC, &'static str>> = HashMap::new();
                        let mut ok = true;
                        for (k, y) in cells.iter().enumerate() {
                            let mut bits = y.bits.clone();
                            if k == j { bits[bit] ^= 1 }
                            let refs: Result<Vec<MC>, _> = y.refs.iter().map(|q| memo[q.repr()].clone()).collect();
                            let z = refs.and_then(|rf| mk(y.exotic(), bits, rf));
                            ok &= z.is_ok();
                            memo.insert(*y.repr(), z);
                        }
                        if !ok { l.extra("corruptions_not_a_cell", 1); continue }
                        let z = memo[um.repr()].clone().unwrap();
                        let zc = real(&z);
                        let valid = z.kind == K::Update && z.bits == update_bits(&z.refs[0], &z.refs[1]);
                        let g = np("panic", || d.show(), || zc.parse_exotic::<MerkleUpdate>())?;
                        let ctx = || format!("{} | {} f={f:b} cell {j} bit {bit}", d.show(), p.names);
                        ckeq!(g.is_ok(), valid, "corrupted-accepted", "{}", ctx());
                        // tampered parts put into the structure directly: apply still never gives another tree
                        for t in 0..3 {
                            let mut v = u.clone();
                            if t != 1 { v.old = real(&z.refs[0]) }
                            if t != 0 { v.new = real(&z.refs[1]) }
                            if let Ok(n) = np("panic-tampered", &ctx, || v.apply(d.rroot()))? { ckeq!(n.repr_hash().as_array(), p.new.repr(), "tampered-result", "{}", ctx()) }
                            let _ = np("panic-tampered-diff", &ctx, || v.compute_removed_cells(d.rroot().as_ref()).is_ok())?;
                        }
                        l.nt();
                    }
                }
            }
        }
        Ok(())
    });
}
