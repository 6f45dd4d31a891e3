//! C07: virtualized cells show the tree with the pruned branches of the removed level filled in.
use super::daglib::*;
use crate::fw::*;
use crate::model::bits::cell_bits;
use crate::model::cells::*;
use crate::model::merkle::*;
use crate::*;
use tycho_types::cell::*;
use tycho_types::merkle::*;

pub const META: Meta = Meta {
    id: "C07",
    level: "model_checking",
    rule: "a state is (cell graph with pruned branches of any levels and nested Merkle cells; number of virtualizations; each combination of owned and borrowed views on the way); on every path from the root every query of the view is compared with the model: hash and depth at level l are those of the cell at level min(l, cap), cap being the level of the root less the removed levels plus the Merkle cells crossed; for proofs this is also compared with the original tree; non-trivial: the cell has a level",
    assumptions: &["the descriptor (and with it level()) is that of the underlying cell: only hashes and depths are virtualized, as the documentation says"],
    run,
};

fn top(mask: u8) -> u32 { 8 - mask.leading_zeros() }

/// the formula of the library: drop the lowest `k` levels
fn as_is(m: &M, l: u32, k: u32) -> u32 { (((m.mask >> k.min(3)) & ((1 << l.min(3)) - 1)) as u8).count_ones() }

fn walk(v: &DynCell, m: &MC, cap: u32, k: u32, path: &mut Vec<u8>, ctx: &dyn Fn() -> String, l: &mut L) -> R {
    l.tr(1);
    l.evn(8);
    if m.mask != 0 { l.nt() }
    let p = |path: &[u8]| format!("path {path:?} mask {:03b} cap {cap} {}", m.mask, ctx());
    for lv in 0..=4u32 {
        let want = lv.min(3).min(cap) as usize;
        let (h, d) = (*v.hash(lv as u8).as_array(), v.depth(lv as u8) as u32);
        if (h, d) != (m.hashes[want], m.depths[want]) {
            let a = as_is(m, lv, k) as usize;
            let key = if (h, d) == (m.hashes[a], m.depths[a]) { "lowest-level-removed" } else { "hash" };
            l.fail(V { key: key.into(), detail: format!("level {lv}: {} depth {d} instead of {} depth {} {}", hx(&h), hx(&m.hashes[want]), m.depths[want], p(path)) });
        }
    }
    if *v.repr_hash() != *v.hash(3) || v.repr_depth() != v.depth(3) { bad!("repr", "{}", p(path)) }
    ck!(kind_of(v.cell_type()) == m.kind, "kind", "{}", p(path));
    ck!(v.descriptor().level_mask().to_byte() == m.mask, "descriptor", "{}", p(path));
    ckeq!(cell_bits(v), m.bits, "data", "{}", p(path));
    ckeq!(v.bit_len() as usize, m.bits.len(), "bit-len", "{}", p(path));
    ckeq!(v.reference_count() as usize, m.refs.len(), "ref-count", "{}", p(path));
    ckeq!(v.references().count(), m.refs.len(), "references", "{}", p(path));
    if !v.is_exotic() {
        let mut s = v.as_slice().unwrap();
        ckeq!((s.size_bits() as usize, s.size_refs() as usize), (m.bits.len(), m.refs.len()), "slice", "{}", p(path));
        for i in 0..m.refs.len() {
            let a = s.load_reference().unwrap();
            ck!(a.repr_hash() == v.reference(i as u8).unwrap().repr_hash(), "slice-ref", "{}", p(path));
        }
    }
    ck!(v.reference(m.refs.len() as u8).is_none() && v.reference_cloned(m.refs.len() as u8).is_none(), "extra-ref", "{}", p(path));
    let mer = matches!(m.kind, K::Proof | K::Update) as u32;
    for (i, r) in m.refs.iter().enumerate() {
        path.push(i as u8);
        walk(v.reference(i as u8).unwrap(), r, cap + mer, k, path, ctx, l)?;
        let c = v.reference_cloned(i as u8).unwrap();
        walk(c.as_ref(), r, cap + mer, k, path, ctx, l)?;
        ck!(c.as_ref() == v.reference(i as u8).unwrap(), "eq", "{}", p(path));
        path.pop();
    }
    Ok(())
}

/// every way to virtualize `k` times: bit j of `how`: the j-th step borrows
fn views(c: &Cell, k: u32, f: &mut dyn FnMut(&DynCell, u32) -> R) -> R {
    for owned in 0..=k {
        let mut o = c.clone();
        for _ in 0..owned { o = Cell::virtualize(o) }
        let mut v = o.as_ref();
        for _ in owned..k { v = v.virtualize() }
        f(v, owned)?;
        // the view of an untracked or cloned cell is the same
        if owned == k { f(o.clone().untrack().as_ref(), owned)? }
    }
    Ok(())
}

fn graphs(r: &Run, name: &str, cfg: Cfg, kmax: u32) {
    let ds: Vec<Dag> = dags(Cfg { closed: false, ..cfg });
    r.add_extra("graphs", ds.len() as u64);
    r.section(name, ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        let root = d.root();
        for k in 0..=kmax {
            l.st(1);
            let cap = if k == 0 { 3 } else { top(root.mask).saturating_sub(k) };
            let ctx = |o: u32| format!("k={k} owned={o} {}", d.show());
            views(d.rroot(), k, &mut |v, o| {
                match no_panic(|| walk(v, root, cap, k, &mut vec![], &|| ctx(o), l)) { Ok(x) => x, Err(e) => bad!("panic", "{e} {}", ctx(o)) }
            })?;
        }
        Ok(())
    });
}

/// A virtualized proof equals the original tree wherever it can be read.
fn same(v: &DynCell, o: &MC, k: u32, m: &MC, ctx: &dyn Fn() -> String, l: &mut L) -> R {
    l.tr(1);
    l.evn(4);
    for lv in 0..4u32 {
        let (h, d) = (*v.hash(lv as u8).as_array(), v.depth(lv as u8) as u32);
        if (h, d) != (o.hashes[lv as usize], o.depths[lv as usize]) {
            let a = as_is(m, lv, k) as usize;
            let key = if (h, d) == (m.hashes[a], m.depths[a]) { "lowest-level-removed" } else { "original" };
            l.fail(V { key: key.into(), detail: format!("level {lv} {} instead of {} {}", hx(&h), hx(&o.hashes[lv as usize]), ctx()) });
        }
    }
    if m.kind == K::Pruned && o.kind != K::Pruned { l.nt(); return Ok(()) }
    for (i, r) in o.refs.iter().enumerate() {
        same(v.reference(i as u8).unwrap(), r, k, &m.refs[i], ctx, l)?;
        same(v.reference_cloned(i as u8).unwrap().as_ref(), r, k, &m.refs[i], ctx, l)?;
    }
    Ok(())
}

fn proofs(r: &Run, name: &str, cfg: Cfg) {
    let ds = dags(cfg);
    r.add_extra("graphs", ds.len() as u64);
    r.section(name, ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        let root = d.root();
        for f in 0..1u32 << (d.nodes.len() - 1) {
            let inc = |h: &H| d.nodes.iter().position(|x| x.repr() == h).map(|p| p + 1 == d.nodes.len() || f >> p & 1 != 0).unwrap_or(false);
            let Ok((pm, _)) = prove(root, &|h| if inc(h) { Act::Include } else { Act::Skip }, false) else { continue };
            l.st(1);
            let ctx = || format!("included={f:b} {}", d.show());
            let pc = real(&pm);
            for v in [pc.as_ref().virtualize(), Cell::virtualize(pc.clone()).as_ref()] { same(v, root, 1, &pm, &ctx, l)? }
            // the same from a stored proof
            let st = real(&proof(&pm));
            let mp = match st.parse_exotic::<MerkleProof>() { Ok(p) => p, Err(e) => bad!("proof-load", "{e:?} {}", ctx()) };
            same(mp.cell.as_ref().virtualize(), root, 1, &pm, &ctx, l)?;
            // and from a proof of the proof: two levels
            if let Ok((ppm, _)) = prove(&proof(&pm), &|_| Act::Include, false) {
                let c = real(&ppm);
                let inner = c.as_ref().virtualize().reference(0).unwrap();
                if pm.mask != 0 { same(inner.virtualize(), root, 1, &pm, &ctx, l)? }
            }
        }
        Ok(())
    });
}

fn run(r: &Run) {
    let q = r.quick();
    graphs(r, "n1", Cfg { n: 1, odd: 1, masks: &[1, 2, 3, 4, 5, 6, 7], ..BASE }, 4);
    graphs(r, "n2", Cfg { n: 2, refs: 4, odd: 2, masks: &[1, 2, 3, 4, 5, 6, 7], ..BASE }, 4);
    graphs(r, "n3", Cfg { n: 3, refs: 3, odd: 2, masks: &[1, 2, 3, 4, 5, 6, 7], ..BASE }, 4);
    graphs(r, "n4", Cfg { n: 4, refs: 2, odd: 2, masks: if q { &[1, 2, 3] } else { &[1, 2, 3, 4, 5, 6, 7] }, ..BASE }, 3);
    graphs(r, "n5", Cfg { n: 5, refs: 2, odd: 1, masks: if q { &[3] } else { &[1, 2, 3] }, ..BASE }, 2);
    proofs(r, "proofs3", Cfg { n: 3, refs: 3, odd: 1, ..BASE });
    proofs(r, "proofs4", Cfg { n: 4, refs: 2, odd: 1, ..BASE });
    proofs(r, "proofs5", Cfg { n: 5, refs: 2, odd: if q { 0 } else { 1 }, ..BASE });
}
