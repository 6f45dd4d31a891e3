//! C16: Merkle proofs prove the original root and reveal exactly what was visited.
use super::daglib::*;
use crate::fw::*;
use crate::model::cells::*;
use crate::model::merkle::*;
use crate::*;
use std::collections::{HashMap, HashSet};
use tycho_types::boc::Boc;
use tycho_types::cell::*;
use tycho_types::error::Error;
use tycho_types::merkle::*;

pub const META: Meta = Meta {
    id: "C16",
    level: "model_checking",
    rule: "a state is (cell graph of up to n nodes incl. nested Merkle, library and pruned cells; assignment of skip/include/include-subtree to its cells; builder options); every state is run through the real builder and the proof compared cell by cell with an independent definition of pruning per Merkle depth, then reloaded, virtualized and walked against the original; every single-bit corruption of every cell of the proofs of the small universe is reloaded; non-trivial: something is pruned",
    assumptions: &["roots have level 0 (a proof of a cell that itself contains free pruned branches names another hash)"],
    run,
};

struct F<'a>(&'a [(HashBytes, Act)]);
impl MerkleFilter for F<'_> {
    fn check(&self, c: &HashBytes) -> FilterAction {
        match self.0.iter().find(|x| &x.0 == c).map(|x| x.1) {
            Some(Act::Include) => FilterAction::Include,
            Some(Act::Subtree) => FilterAction::IncludeSubtree,
            _ => FilterAction::Skip,
        }
    }
}

/// What a virtualized proof lets one read: everything outside pruned branches is the original.
fn walk(v: &DynCell, o: &M, pruned: &HashSet<H>, under_merkle: bool) -> Result<(), String> {
    if !under_merkle && (v.repr_hash().as_array() != o.repr() || v.repr_depth() as u32 != o.depth() || (0..4).any(|l| v.hash(l).as_array() != o.repr())) && o.mask == 0 {
        return Err(format!("virtual cell hash {} depth {} instead of {} {}", v.repr_hash(), v.repr_depth(), hx(o.repr()), o.depth()));
    }
    if v.cell_type() == CellType::PrunedBranch && pruned.contains(o.repr()) { return Ok(()) }
    if v.cell_type() == CellType::PrunedBranch && o.kind != K::Pruned {
        return { Err(format!("cell {} is not readable", hx(o.repr()))) };
    }
    if kind_of(v.cell_type()) != o.kind { return Err(format!("kind {:?} != {:?}", v.cell_type(), o.kind)) }
    if cell_bits(v) != o.bits { return Err("data differs".into()) }
    if v.reference_count() as usize != o.refs.len() { return Err("reference count".into()) }
    for (i, r) in o.refs.iter().enumerate() {
        let um = under_merkle || matches!(o.kind, K::Proof | K::Update);
        walk(v.reference(i as u8).ok_or("reference missing")?, r, pruned, um)?;
        let c = v.reference_cloned(i as u8).ok_or("reference missing")?;
        if c.repr_hash() != v.reference(i as u8).unwrap().repr_hash() { return Err("cloned reference differs".into()) }
    }
    Ok(())
}
use crate::model::bits::cell_bits;

fn one(d: &Dag, acts: &[(HashBytes, Act)], allow: bool, big: bool, l: &mut L) -> R {
    let root = d.root();
    let ctx = || format!("{} acts={:?} allow={allow} big={big}", d.show(), acts.iter().map(|a| a.1).collect::<Vec<_>>());
    let act = |h: &H| acts.iter().find(|a| &a.0.0 == h).map(|a| a.1).unwrap_or(Act::Skip);
    let rr = d.rroot().as_ref();
    l.tr(1);
    l.ev();
    let got = np("panic", &ctx, || MerkleProof::create(rr, F(acts)).allow_different_root(allow).prune_big_cells(big).build())?;
    if !allow && act(root.repr()) == Act::Skip {
        ck!(matches!(got, Err(Error::EmptyProof)), "root-skipped", "{:?} {}", got.is_ok(), ctx());
        return Ok(());
    }
    let (want, pruned) = match prove(root, &act, big) {
        Ok(x) => x,
        // nothing stands for a cell under more than three Merkle cells
        Err(_) => { ck!(got.is_err(), "too-deep-accepted", "{}", ctx()); l.extra("too_deep_refused", 1); return Ok(()) }
    };
    let got = match got { Ok(g) => g, Err(e) => bad!("refused", "{e:?} {}", ctx()) };
    if !pruned.is_empty() { l.nt() }
    ckeq!((got.hash.as_array(), got.depth as u32), (root.repr(), root.depth()), "named-root", "{}", ctx());
    ckeq!((&want.hashes[0], want.depths[0]), (root.repr(), root.depth()), "model", "{}", ctx());
    if let Err(e) = check_same(got.cell.as_ref(), &want) { bad!("proof-cell", "{e} {}", ctx()) }
    // the same through the raw and tracking builders
    let (c2, pr) = match np("panic", &ctx, || MerkleProof::create(rr, F(acts)).track_pruned_branches().allow_different_root(allow).prune_big_cells(big).build_raw_ext(Cell::empty_context()))? { Ok(x) => x, Err(e) => bad!("refused-tracking", "{e:?} {}", ctx()) };
    ck!(c2 == got.cell, "tracking-cell", "{}", ctx());
    let a: HashSet<H> = pruned.iter().copied().collect();
    let b: HashSet<H> = pr.iter().map(|h| h.0).collect();
    ck!(a == b, "pruned-set", "{} want {:?} got {:?}", ctx(), a.len(), b.len());
    let c3 = np("panic", &ctx, || MerkleProof::create(rr, F(acts)).allow_different_root(allow).prune_big_cells(big).build_raw_ext(Cell::empty_context()))?;
    ck!(c3.as_ref() == Ok(&got.cell), "raw-cell", "{}", ctx());
    // as a cell
    let pc = match CellBuilder::build_from(&got) { Ok(c) => c, Err(e) => bad!("store", "{e:?} {}", ctx()) };
    if let Err(e) = check_same(pc.as_ref(), &proof(&want)) { bad!("stored-proof", "{e} {}", ctx()) }
    let back = match pc.parse_exotic::<MerkleProof>() { Ok(b) => b, Err(e) => bad!("load", "{e:?} {}", ctx()) };
    let bref = match pc.parse_exotic::<MerkleProofRef>() { Ok(b) => b, Err(e) => bad!("load-ref", "{e:?} {}", ctx()) };
    ck!(back == got && bref == got && got == bref, "reload", "{}", ctx());
    // reading the virtualized proof
    let vc = Cell::virtualize(got.cell.clone());
    for v in [got.cell.as_ref().virtualize(), vc.as_ref()] {
        if let Err(e) = np("panic", &ctx, || walk(v, root, &a, false))? { bad!("virtual-walk", "{e} {}", ctx()) }
    }
    Ok(())
}

fn graphs(r: &Run, name: &str, cfg: Cfg, nact: u64, opts: bool) {
    let ds = dags(cfg);
    r.add_extra("graphs", ds.len() as u64);
    let k = cfg.n as u32;
    r.section(name, ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        for f in 0..nact.pow(k) {
            let mut ix = Ix(f);
            let acts: Vec<(HashBytes, Act)> = d.nodes.iter().map(|m| (hb(m.repr()), [Act::Include, Act::Skip, Act::Subtree][ix.us(nact as usize)])).collect();
            l.st(1);
            for o in 0..if opts { 4 } else { 1 } {
                one(d, &acts, o & 1 != 0, o & 2 != 0, l)?;
            }
        }
        Ok(())
    });
}

fn run(r: &Run) {
    graphs(r, "n1", Cfg { n: 1, ..BASE }, 3, true);
    graphs(r, "n2", Cfg { n: 2, refs: 4, odd: 2, masks: &[1, 2, 3, 7], ..BASE }, 3, true);
    graphs(r, "n3", Cfg { n: 3, refs: 3, odd: 2, masks: &[1, 2, 3], ..BASE }, 3, true);
    graphs(r, "n4", Cfg { n: 4, refs: 2, odd: r.pick(1, 2), masks: &[1, 3], ..BASE }, 3, true);
    graphs(r, "n4-big", Cfg { n: 4, refs: 2, odd: 0, big: 288, merkle: false, ..BASE }, 3, true);
    graphs(r, "n5", Cfg { n: 5, refs: 2, odd: if r.quick() { 0 } else { 1 }, masks: &[1], ..BASE }, 2, false);

    // a pruned cell under k nested Merkle proofs
    r.section("nesting", 600, |i, l| {
        let (k, upd) = (i / 2, i % 2 == 1);
        let leaf = ord(vec![1], vec![]);
        let b = ord(vec![0, 1], vec![leaf.clone()]);
        let mut m = ord(vec![1, 1, 0], vec![b.clone()]);
        for _ in 0..k { m = if upd { update(&m, &m) } else { proof(&m) } }
        let root = ord(vec![0], vec![b.clone(), m]);
        let rc = real(&root);
        let f: HashSet<HashBytes> = topo(&root).iter().filter(|x| x.repr() != b.repr()).map(|x| hb(x.repr())).collect();
        l.st(1); l.tr(1); l.ev();
        let got = np("panic", || format!("{k} nested Merkle cells"), || MerkleProof::create(rc.as_ref(), f.clone()).build())?;
        let want = prove(&root, &|h| if h == b.repr() { Act::Skip } else { Act::Include }, false);
        match (want, got) {
            (Ok((w, _)), Ok(g)) => { if let Err(e) = check_same(g.cell.as_ref(), &w) { bad!("proof-cell", "nesting {k}: {e}") } }
            (Err(_), Err(_)) => l.nt(),
            (w, g) => bad!("nesting", "{k} nested Merkle cells: model {:?}, got {:?}", w.map(|_| ()), g.map(|_| ())),
        }
        Ok(())
    });

    // proofs for one cell
    let ds: Vec<Dag> = [Cfg { n: 2, ..BASE }, Cfg { n: 3, ..BASE }, Cfg { n: 4, ..BASE }].iter().flat_map(|c| dags(*c)).chain(dags(Cfg { n: 5, merkle: false, odd: 0, ..BASE })).collect();
    r.section("for-cell", ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        let absent = HashBytes([0xee; 32]);
        for t in 0..=d.nodes.len() {
            let th = d.nodes.get(t).map(|m| hb(m.repr())).unwrap_or(absent);
            let ctx = || format!("{} target={t}", d.show());
            l.st(1); l.tr(1); l.ev();
            let got = np("panic", &ctx, || MerkleProof::create_for_cell(d.rroot().as_ref(), &th).build())?;
            if t == d.nodes.len() { ck!(matches!(got, Err(Error::EmptyProof)), "absent-target", "{}", ctx()); continue }
            let got = match got { Ok(g) => g, Err(e) => bad!("refused", "{e:?} {}", ctx()) };
            // the first path (in reading order) to the target is visited
            fn path(m: &MC, t: &H, out: &mut Vec<H>) -> bool {
                out.push(*m.repr());
                for r in &m.refs { if r.repr() == t { return true } if path(r, t, out) { return true } }
                out.pop();
                false
            }
            let mut p = vec![];
            path(d.root(), &th.0, &mut p);
            let act = |h: &H| if p.contains(h) || h == &th.0 { Act::Include } else { Act::Skip };
            let (want, _) = match prove(d.root(), &act, false) { Ok(x) => x, Err(e) => bad!("model", "{e} {}", ctx()) };
            if let Err(e) = check_same(got.cell.as_ref(), &want) { bad!("proof-cell", "{e} {}", ctx()) }
            ckeq!(got.hash.as_array(), d.root().repr(), "named-root", "{}", ctx());
            if want.mask != 0 { l.nt() }
        }
        Ok(())
    });

    // visited sets recorded by usage trees and hash sets
    let ds: Vec<Dag> = dags(Cfg { n: 4, merkle: false, odd: 0, ..BASE });
    r.section("usage", ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        for f in 0..1u32 << d.nodes.len() {
            let vis: HashSet<H> = d.nodes.iter().enumerate().filter(|(j, _)| f >> j & 1 != 0).map(|(_, m)| *m.repr()).collect();
            // walk the tracked tree, entering only cells of `vis`
            for by_data in [false, true] {
                let tree = UsageTree::new(if by_data { UsageTreeMode::OnDataAccess } else { UsageTreeMode::OnLoad });
                let t = tree.track(d.rroot());
                let mut seen: HashSet<H> = HashSet::new();
                fn go(c: &Cell, vis: &HashSet<H>, seen: &mut HashSet<H>, by_data: bool, root: bool) {
                    let h = *c.repr_hash().as_array();
                    if !vis.contains(&h) && !(root && !by_data) { return }
                    if by_data { let _ = c.data(); }
                    seen.insert(h);
                    if !vis.contains(&h) { return }
                    for k in 0..c.reference_count() {
                        // in load mode taking the reference is the visit
                        let ch = c.reference_cloned(k).unwrap();
                        if !by_data { seen.insert(*ch.repr_hash().as_array()); }
                        go(&ch, vis, seen, by_data, false);
                    }
                }
                go(&t, &vis, &mut seen, by_data, true);
                l.st(1); l.tr(1); l.ev();
                let ctx = || format!("{} visited={f:b} data={by_data}", d.show());
                let got = np("panic", &ctx, || MerkleProof::create(d.rroot().as_ref(), &tree).build())?;
                let root_in = seen.contains(d.root().repr());
                let act = |h: &H| if seen.contains(h) { Act::Include } else { Act::Skip };
                if !root_in { ck!(matches!(got, Err(Error::EmptyProof)), "root-skipped", "{}", ctx()); continue }
                let (want, _) = prove(d.root(), &act, false).unwrap();
                let got = match got { Ok(g) => g, Err(e) => bad!("refused", "{e:?} {}", ctx()) };
                if let Err(e) = check_same(got.cell.as_ref(), &want) { bad!("usage-proof", "{e} {}", ctx()) }
                let hs: HashSet<HashBytes> = seen.iter().map(hb).collect();
                let g2 = MerkleProof::create(d.rroot().as_ref(), hs.clone()).build().unwrap();
                let hr: HashSet<&HashBytes> = hs.iter().collect();
                let g3 = MerkleProof::create(d.rroot().as_ref(), hr).build().unwrap();
                let sub = tree.with_subtrees();
                let g4 = MerkleProof::create(d.rroot().as_ref(), sub).build().unwrap();
                ck!(g2 == got && g3 == got && g4 == got, "filters-agree", "{}", ctx());
                if want.mask != 0 { l.nt() }
            }
        }
        Ok(())
    });

    // corruption
    let ds: Vec<Dag> = [Cfg { n: 2, ..BASE }, Cfg { n: 3, ..BASE }].iter().flat_map(|c| dags(*c)).collect();
    r.section("corruption", ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        let mut done: HashSet<H> = HashSet::new();
        for f in 0..1u32 << d.nodes.len() {
            let acts = |h: &H| { let j = d.nodes.iter().position(|m| m.repr() == h).unwrap(); if f >> j & 1 != 0 { Act::Include } else { Act::Skip } };
            let (c, _) = prove(d.root(), &acts, false).unwrap();
            let p = proof(&c);
            if !done.insert(*p.repr()) { continue }
            let cells = topo(&p);
            for (j, x) in cells.iter().enumerate() {
                for bit in 0..x.bits.len() {
                    l.st(1);
                    // rebuild with cell j changed
                    let mut memo: HashMap<H, Result<MC, &'static str>> = HashMap::new();
                    let mut ok = true;
                    for (k, y) in cells.iter().enumerate() {
                        let mut bits = y.bits.clone();
                        if k == j { bits[bit] ^= 1 }
                        let refs: Result<Vec<MC>, _> = y.refs.iter().map(|q| memo[q.repr()].clone()).collect();
                        let z = refs.and_then(|rf| mk(y.exotic(), bits, rf));
                        ok &= z.is_ok();
                        memo.insert(*y.repr(), z);
                    }
                    l.tr(1); l.ev();
                    if !ok { l.extra("corruptions_not_a_cell", 1); continue }
                    let z = memo[p.repr()].clone().unwrap();
                    if z.repr() == p.repr() { bad!("model", "same hash") }
                    let zc = real(&z);
                    ck!(*zc.repr_hash() != hb(p.repr()), "corrupted-same-hash", "{} f={f} cell {j} bit {bit}", d.show());
                    let valid = z.refs[0].hashes[0][..] == crate::model::bits::pack(&z.bits[8..264])[..] && z.refs[0].depths[0] as u128 == crate::model::bits::to_u128(&z.bits[264..280]);
                    let g = np("panic", || d.show(), || zc.parse_exotic::<MerkleProof>())?;
                    let g2 = np("panic", || d.show(), || zc.parse_exotic::<MerkleProofRef>())?;
                    ckeq!((g.is_ok(), g2.is_ok()), (valid, valid), "corrupted-accepted", "{} f={f:b} cell {j} bit {bit}", d.show());
                    l.nt();
                }
            }
            // wrong shapes: ordinary cell, other tags, extra data, missing and extra references
            let rc = real(&c);
            let shapes: Vec<(bool, Vec<u8>, Vec<Cell>)> = vec![
                (false, p.bits.clone(), vec![rc.clone()]),
                (false, vec![], vec![]),
                (true, update(&c, &c).bits.clone(), vec![rc.clone(), rc.clone()]),
            ];
            for (e, b, rf) in shapes {
                let Ok(x) = try_real(e, &b, &rf) else { continue };
                ck!(x.parse_exotic::<MerkleProof>().is_err() && x.parse_exotic::<MerkleProofRef>().is_err(), "wrong-shape-accepted", "{}", d.show());
            }
            let x = Boc::decode(Boc::encode(real(&p).as_ref())).unwrap();
            ck!(x.parse_exotic::<MerkleProof>().is_ok(), "through-boc", "{}", d.show());
        }
        Ok(())
    });
}
