//! C01: hashes, depths, levels and validity of every kind of cell.
use crate::fw::*;
use crate::model::{bits::*, cells::*};
use std::sync::Arc;
use tycho_types::boc::Boc;
use tycho_types::cell::*;
use tycho_types::error::Error;
use tycho_types::util::ArrayVec;

pub const META: Meta = Meta {
    id: "C01",
    level: "model_checking",
    rule: "a state is one abstract cell (kind, bits, ordered children); transitions build it on the real code through one construction path and compare every observable of the whole graph with the naive reference model; non-trivial: the cell is exotic or has children or must be refused",
    assumptions: &["SHA-256 (sha2 crate) is shared by model and code", "the Everscale dialect of the level mask in the hashed descriptor is taken as the format: (1<<level)-1 for every significant level of a non-pruned cell"],
    run,
};

fn leaf_pool() -> Vec<MC> {
    let mut v = vec![ord(vec![], vec![]), ord(vec![1], vec![]), lib(&[7; 32])];
    for mask in 1..=7u8 {
        let n = level_of(mask) as usize;
        let hs: Vec<(H, u16)> = (0..n).map(|i| ([mask * 16 + i as u8; 32], (mask as u16) * 10 + i as u16)).collect();
        v.push(pruned_raw(mask, &hs));
    }
    v
}

fn check(l: &mut L, exotic: bool, bits: &B, refs: &[MC], reals: &[Cell]) -> R<Option<MC>> {
    let m = mk(exotic, bits.clone(), refs.to_vec());
    let c = np("panic-build", || format!("exotic={exotic} bits={} refs={}", show(bits), refs.len()), || try_real(exotic, bits, reals))?;
    l.tr(1);
    l.ev();
    match (m, c) {
        (Ok(m), Ok(c)) => {
            np("panic-query", || format!("{m:?}"), || check_same(c.as_ref(), &m))?.map_err(|e| V { key: "observable".into(), detail: format!("{e}: exotic={exotic} bits={} masks={:?}", show(bits), refs.iter().map(|r| (r.kind, r.mask)).collect::<Vec<_>>()) })?;
            if exotic || !refs.is_empty() { l.nt() }
            Ok(Some(m))
        }
        (Err(_), Err(_)) => { l.nt(); Ok(None) }
        (Err(e), Ok(_)) => bad!("accepted-invalid", "{e}: exotic={exotic} len={} bits={} masks={:?}", bits.len(), show(&bits[..bits.len().min(24)]), refs.iter().map(|r| (r.kind, r.mask)).collect::<Vec<_>>()),
        (Ok(_), Err(e)) => bad!("refused-valid", "{e:?}: exotic={exotic} len={} bits={} masks={:?}", bits.len(), show(&bits[..bits.len().min(24)]), refs.iter().map(|r| (r.kind, r.mask)).collect::<Vec<_>>()),
    }
}

fn boc_same(l: &mut L, c: &Cell, m: &MC) -> R {
    let d = np("panic-boc", || format!("{m:?}"), || Boc::decode(Boc::encode(c.as_ref())))?;
    l.tr(1);
    match d {
        Ok(d) => check_same(d.as_ref(), m).map_err(|e| V { key: "decoded-observable".into(), detail: e }),
        Err(e) => bad!("decode", "decoding own encoding failed: {e:?} {m:?}"),
    }
}

fn run(r: &Run) {
    let leaves = leaf_pool();
    let rl: Vec<Cell> = leaves.iter().map(real).collect();

    // A: every bit length x patterns x reference counts, three construction paths
    r.section("ordinary-data", 1024 * 6 * 5, |i, l| {
        let mut ix = Ix(i);
        let n = ix.us(1024);
        let p = ix.take(6);
        let k = ix.us(5);
        l.st(1);
        let bits = pattern(p, n);
        let Some(m) = check(l, false, &bits, &leaves[..k], &rl[..k])? else { bad!("model", "ordinary must be valid") };
        // bit by bit
        let mut b = CellBuilder::new();
        for &x in &bits { b.store_bit(x == 1).map_err(|e| V { key: "store_bit".into(), detail: format!("{e:?}") })? }
        for c in &rl[..k] { b.store_reference(c.clone()).unwrap() }
        let c = b.build().unwrap();
        check_same(c.as_ref(), &m).map_err(|e| V { key: "bitwise".into(), detail: e })?;
        // over a builder with stale content
        let mut b = CellBuilder::new();
        b.store_raw(&[0xff; 128], 1023).unwrap();
        b.rewind_bits(1023 - n as u16).unwrap();
        b.rewind_bits(n as u16).unwrap();
        b.store_raw(&pack(&bits), n as u16).unwrap();
        for c in &rl[..k] { b.store_reference(c.clone()).unwrap() }
        let c = b.build().unwrap();
        check_same(c.as_ref(), &m).map_err(|e| V { key: "stale".into(), detail: e })?;
        boc_same(l, &c, &m)?;
        l.tr(2);
        l.sample(|| format!("len={n} pattern={p} refs={k} hash={}", hx(m.repr())));
        Ok(())
    });

    // B: exotic cells: every length around the boundaries, first and second byte, children
    let lens: Vec<usize> = if r.quick() {
        let mut v: Vec<usize> = (0..40).collect();
        for e in [264, 280, 288, 552, 560, 832] { for d in -9i32..=9 { v.push((e + d) as usize) } }
        v.extend([100, 256, 272, 512, 544, 816, 1016, 1022, 1023]);
        v.sort(); v.dedup(); v
    } else { (0..1024).collect() };
    let firsts = [0u8, 1, 2, 3, 4, 5, 6, 0x81, 0xff];
    let masks = [0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x0f, 0x17, 0x80, 0xff];
    // children lists: by index into leaf pool
    let mut kids: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..leaves.len() { kids.push(vec![a]) }
    for a in [0usize, 2, 3, 4, 6, 9] { for b in [0usize, 3, 5, 9] { kids.push(vec![a, b]) } }
    kids.push(vec![0, 3, 4]);
    kids.push(vec![0, 1, 2, 3]);
    r.section("exotic-data", (lens.len() * firsts.len() * masks.len() * kids.len()) as u64, |i, l| {
        let mut ix = Ix(i);
        let n = *ix.of(&lens);
        let f = *ix.of(&firsts);
        let s = *ix.of(&masks);
        let k = ix.of(&kids).clone();
        let mut bits = uint(((f as u128) << 8) | s as u128, 16);
        bits.extend((16..1023.max(16)).map(|i| pat(5, i)));
        bits.truncate(n);
        l.st(1);
        let ms: Vec<MC> = k.iter().map(|&j| leaves[j].clone()).collect();
        let rs: Vec<Cell> = k.iter().map(|&j| rl[j].clone()).collect();
        if let Some(m) = check(l, true, &bits, &ms, &rs)? {
            if let Ok(c) = try_real(true, &bits, &rs) { boc_same(l, &c, &m)? }
            l.extra("valid_exotic", 1);
        }
        Ok(())
    });

    // B2: explicit CellParts with every level mask in the descriptor
    let shapes: Vec<(bool, B, Vec<usize>)> = {
        let mut v = vec![];
        for k in &kids {
            v.push((false, pattern(3, 13), k.clone()));
            for (f, len) in [(1u8, 16 + 272), (1, 16 + 544), (1, 16 + 816), (2, 264), (3, 280), (4, 552)] {
                for s in 0..=8u8 {
                    let mut b = uint(((f as u128) << 8) | s as u128, 16);
                    b.extend((16..len).map(|i| pat(9, i)));
                    if f != 1 && s > 0 { continue }
                    v.push((true, b, k.clone()));
                }
            }
        }
        v
    };
    r.section("parts-level-mask", (shapes.len() * 8 * 2) as u64, |i, l| {
        let mut ix = Ix(i);
        let (ex, bits, k) = ix.of(&shapes).clone();
        let mask = ix.take(8) as u8;
        let stored = ix.bit();
        let ms: Vec<MC> = k.iter().map(|&j| leaves[j].clone()).collect();
        let m = mk(ex, bits.clone(), ms.clone());
        let data = pack_tagged(&bits);
        let mut refs: ArrayVec<Cell, 4> = Default::default();
        let mut cm = LevelMask::EMPTY;
        for &j in &k { cm |= rl[j].descriptor().level_mask(); unsafe { refs.push(rl[j].clone()) } }
        let d1 = k.len() as u8 + 8 * ex as u8 + 16 * stored as u8 + (mask << 5);
        let parts = CellParts { bit_len: bits.len() as u16, descriptor: CellDescriptor { d1, d2: d2(bits.len()) }, children_mask: cm, references: refs, data: &data };
        let h = np("panic-parts", || format!("{ex} {} {mask}", show(&bits)), || parts.compute_hashes())?;
        l.tr(1); l.st(1); l.ev(); l.nt();
        match (m, h) {
            (Ok(m), Ok(h)) => {
                ck!(m.mask == mask, "accepted-wrong-mask", "mask {mask:03b} accepted, must be {:03b}, kind {:?}", m.mask, m.kind);
                let n = if m.kind == K::Pruned { 1 } else { level_of(m.mask) as usize + 1 };
                ck!(h.len() == n, "hash-count", "{} hashes, expected {n}", h.len());
                let mut want = vec![];
                if n == 1 { want.push((m.hashes[3], m.depths[3])) } else { for lv in 0..4usize { if lv == 0 || m.mask & (1 << (lv - 1)) != 0 { want.push((m.hashes[lv], m.depths[lv])) } } }
                if n == 1 && m.kind != K::Pruned { want = vec![(m.hashes[0], m.depths[0])] }
                for (a, b) in h.iter().zip(&want) { ck!(a.0.as_array() == &b.0 && a.1 as u32 == b.1, "parts-hash", "kind {:?} mask {mask:03b}", m.kind) }
                // and the finished cell
                let c = Cell::empty_context().finalize_cell(parts).map_err(|e| V { key: "finalize".into(), detail: format!("{e:?}") })?;
                check_same(c.as_ref(), &m).map_err(|e| V { key: "finalize".into(), detail: e })?;
            }
            (Ok(m), Err(_)) => ck!(m.mask != mask, "refused-valid", "kind {:?} mask {mask:03b}", m.kind),
            (Err(_), Err(_)) => { ck!(Cell::empty_context().finalize_cell(parts).is_err(), "finalize-invalid", "{ex} {}", show(&bits)) }
            (Err(e), Ok(_)) => bad!("accepted-invalid", "{e}: exotic={ex} mask={mask:03b} bits={} refs={k:?}", show(&bits[..16])),
        }
        Ok(())
    });

    // C: trees. Level 1 nodes over all leaves.
    fn node(l: &mut L, form: u8, kids: &[MC]) -> R<(MC, Cell)> {
        let reals: Vec<Cell> = kids.iter().map(real).collect();
        let (ex, bits) = match form {
            0 => (false, pattern(kids.len() as u64 + 2, kids.len() * 3 + 1)),
            1 => (true, proof_bits(&kids[0])),
            _ => (true, update_bits(&kids[0], &kids[1])),
        };
        l.st(1);
        let m = check(l, ex, &bits, kids, &reals)?;
        let Some(m) = m else { bad!("model", "tree node must be valid") };
        let c = try_real(ex, &bits, &reals).unwrap();
        Ok((m, c))
    }
    let nl = leaves.len() as u64;
    let cnt1 = [nl, nl * nl, nl * nl * nl, nl * nl * nl * nl, nl, nl * nl];
    let dec = |mut i: u64, pool: &[MC], cnt: &[u64]| -> (u8, Vec<MC>) {
        for (j, c) in cnt.iter().enumerate() {
            if i < *c {
                let (form, k) = match j { 4 => (1, 1), 5 => (2, 2), j => (0, j + 1) };
                let mut ix = Ix(i);
                return (form, (0..k).map(|_| ix.of(pool).clone()).collect());
            }
            i -= c;
        }
        unreachable!()
    };
    r.section("trees-1", cnt1.iter().sum(), |i, l| {
        let (form, ks) = dec(i, &leaves, &cnt1);
        let (m, c) = node(l, form, &ks)?;
        boc_same(l, &c, &m)?;
        l.sample(|| format!("{:?} mask={:03b} children={:?}", m.kind, m.mask, ks.iter().map(|k| (k.kind, k.mask)).collect::<Vec<_>>()));
        Ok(())
    });
    // Level 2: over all level-1 nodes with <=2 children, plus leaves (thorough), or representatives (quick)
    let mk1 = |form: u8, ks: &[MC]| match form { 0 => ord(pattern(ks.len() as u64 + 2, ks.len() * 3 + 1), ks.to_vec()), 1 => proof(&ks[0]), _ => update(&ks[0], &ks[1]) };
    let mut pool1: Vec<MC> = leaves.clone();
    let cnt1b = [nl, nl * nl, 0, 0, nl, nl * nl];
    for i in 0..cnt1b.iter().sum::<u64>() { let (f, k) = dec(i, &leaves, &cnt1b); pool1.push(mk1(f, &k)) }
    let reps = |p: &[MC], per: usize| -> Vec<MC> {
        let mut n: std::collections::BTreeMap<(K, u8), usize> = Default::default();
        p.iter().filter(|m| { let e = n.entry((m.kind, m.mask)).or_default(); *e += 1; *e <= per }).cloned().collect()
    };
    let pool1 = if r.quick() { reps(&pool1, 16) } else { pool1 };
    let n1 = pool1.len() as u64;
    let cnt2 = [n1, n1 * n1, 0, 0, n1, n1 * n1];
    r.section("trees-2", cnt2.iter().sum(), |i, l| {
        let (form, ks) = dec(i, &pool1, &cnt2);
        let (m, c) = node(l, form, &ks)?;
        boc_same(l, &c, &m)
    });
    // Level 3 and 4 over representatives
    let mut pool2 = leaves.clone();
    for i in 0..cnt2.iter().sum::<u64>() { let (f, k) = dec(i, &pool1, &cnt2); if i % 3 == 0 || i < 2000 { pool2.push(mk1(f, &k)) } }
    let pool2 = reps(&pool2, r.pick(10, 16));
    let n2 = pool2.len() as u64;
    let cnt3 = [n2, n2 * n2, 0, 0, n2, n2 * n2];
    r.section("trees-3", cnt3.iter().sum(), |i, l| {
        let (form, ks) = dec(i, &pool2, &cnt3);
        node(l, form, &ks).map(|_| ())
    });
    let mut pool3 = vec![];
    for i in 0..cnt3.iter().sum::<u64>() { let (f, k) = dec(i, &pool2, &cnt3); pool3.push(mk1(f, &k)) }
    let pool3 = reps(&pool3, r.pick(8, 12));
    let n3 = pool3.len() as u64;
    let cnt4 = [n3, n3 * n3, r.pick(0, n3 * n3 * n3).min(2_000_000), 0, n3, n3 * n3];
    r.section("trees-4", cnt4.iter().sum(), |i, l| {
        let (form, ks) = dec(i, &pool3, &cnt4);
        node(l, form, &ks).map(|_| ())
    });

    // D: depth limits. Pruned branches announce depths near the limit at each level.
    let ds = [0u16, 1, 65533, 65534, 65535];
    r.section("depth-limits", 8 * 125 * 9, |i, l| {
        let mut ix = Ix(i);
        let mask = ix.take(8) as u8;
        let d = [*ix.of(&ds), *ix.of(&ds), *ix.of(&ds)];
        let w = ix.us(9);
        if mask == 0 { return Ok(()) }
        let n = level_of(mask) as usize;
        let hs: Vec<(H, u16)> = (0..n).map(|i| ([i as u8; 32], d[i])).collect();
        let p = pruned_raw(mask, &hs);
        let e = ord(vec![], vec![]);
        let (rp, re) = (real(&p), real(&e));
        l.st(1);
        match w {
            0 => check(l, false, &vec![1, 0], &[p], &[rp])?,
            1 => check(l, false, &vec![1, 0], &[e, p], &[re, rp])?,
            2 => check(l, true, &proof_bits(&p), &[p.clone()], &[rp])?,
            3 => check(l, true, &update_bits(&p, &e), &[p.clone(), e.clone()], &[rp, re])?,
            4 => check(l, true, &update_bits(&e, &p), &[e.clone(), p.clone()], &[re, rp])?,
            5 | 6 | 7 => { // one more ordinary level on top, if the first is valid
                let Ok(m1) = mk(false, vec![], vec![p.clone()]) else { return Ok(()) };
                let r1 = real(&m1);
                match w { 5 => check(l, false, &vec![], &[m1], &[r1])?, 6 => check(l, true, &proof_bits(&m1), &[m1.clone()], &[r1])?,
                    _ => check(l, true, &update_bits(&m1, &p), &[m1.clone(), p.clone()], &[r1, rp])? }
            }
            _ => check(l, false, &vec![1], &[p.clone(), p.clone(), e.clone(), p.clone()], &[rp.clone(), rp.clone(), re, rp])?,
        };
        Ok(())
    });
    // real chains up to the limit
    r.section("depth-chain", 2, |i, l| {
        let mut m = ord(vec![], vec![]);
        let mut c = Cell::empty_cell();
        let two = i == 1;
        let e = ord(vec![1], vec![]);
        let re = real(&e);
        let mut keep = vec![];
        for d in 1..=65536u32 {
            let (ms, rs) = if two { (vec![e.clone(), m.clone()], vec![re.clone(), c.clone()]) } else { (vec![m.clone()], vec![c.clone()]) };
            let nm = mk(false, vec![], ms);
            let nc = try_real(false, &[], &rs);
            l.tr(1); l.st(1);
            match (nm, nc) {
                (Ok(nm), Ok(nc)) => {
                    ck!(nc.repr_depth() as u32 == d && nm.depths[0] == d, "chain-depth", "depth {} at {d}", nc.repr_depth());
                    ck!(nc.repr_hash().as_array() == nm.repr(), "chain-hash", "at {d}");
                    ck!(nc.has_max_depth() == (d == 65535), "has_max_depth", "at {d}");
                    keep.push(std::mem::replace(&mut m, nm));
                    c = nc;
                }
                (Err(_), Err(e)) => { ck!(d == 65536, "chain-early", "refused at {d}"); ck!(matches!(e, Error::DepthOverflow), "chain-error", "{e:?}"); l.nt() }
                (a, b) => bad!("chain-limit", "at depth {d}: model ok={} impl ok={}", a.is_ok(), b.is_ok()),
            }
        }
        // tear the model down iteratively
        keep.push(m);
        while let Some(x) = keep.pop() { drop(x) }
        Ok(())
    });

    // E: equality
    let mut eqp: Vec<MC> = leaves.clone();
    eqp.extend(reps(&pool1, 6));
    eqp.extend(reps(&pool2, 3));
    for n in 0..20 { for p in 0..3 { eqp.push(ord(pattern(p, n), vec![])) } }
    // same content in different kinds
    for m in leaves.clone() { eqp.push(ord(m.bits.clone(), m.refs.clone())) }
    for m in pool1.iter().filter(|m| m.exotic()) { eqp.push(ord(m.bits.clone(), m.refs.clone())) }
    let eqc: Vec<(Cell, Cell)> = eqp.iter().map(|m| (real(m), real(m))).collect();
    r.section("equality", (eqp.len() * eqp.len()) as u64, |i, l| {
        let mut ix = Ix(i);
        let (a, b) = (ix.us(eqp.len()), ix.us(eqp.len()));
        let same = eqp[a].repr() == eqp[b].repr();
        let (x, y) = (&eqc[a].0, &eqc[b].1);
        l.tr(1); l.st(1);
        ck!((x == y) == same && (x.as_ref() == y.as_ref()) == same && (x != y) != same, "cell-eq", "{:?} vs {:?}", eqp[a], eqp[b]);
        use std::hash::{BuildHasher, Hash, Hasher};
        let s = std::collections::hash_map::RandomState::new();
        let _ = s.build_hasher().finish();
        let h = |c: &Cell| { let mut h = std::collections::hash_map::DefaultHasher::new(); c.repr_hash().hash(&mut h); h.finish() };
        ck!(!same || h(x) == h(y), "hash-eq", "");
        if same && a != b { l.nt() }
        Ok(())
    });

    // F: level masks and static cells
    r.section("masks", 256, |i, l| {
        let b = i as u8;
        let m = LevelMask::new(b);
        let mm = b & 7;
        l.tr(1); l.st(1);
        ck!(m.to_byte() == mm && u8::from(m) == mm && (m == mm), "mask-new", "{b}");
        ck!(m.level() as u32 == mm.count_ones(), "mask-level", "{b}: {} ", m.level());
        ck!(m.is_empty() == (mm == 0), "mask-empty", "{b}");
        for lv in 0..=3u8 {
            ck!(m.contains(lv) == (lv == 0 || mm & (1 << (lv - 1)) != 0), "mask-contains", "{b} {lv}");
            ck!(m.hash_index(lv) as u32 == hidx(mm, lv as u32), "mask-hash-index", "{b} {lv}");
            ck!(m.virtualize(lv).to_byte() == mm >> lv, "mask-virtualize", "{b} {lv}");
            ck!(LevelMask::from_level(lv).to_byte() == ((1u16 << lv) - 1) as u8, "mask-from-level", "{lv}");
        }
        let it: Vec<u8> = m.into_iter().collect();
        let want: Vec<u8> = (0..=3u8).filter(|&lv| lv == 0 || mm & (1 << (lv - 1)) != 0).collect();
        ck!(it == want, "mask-iter", "{b}: {it:?}");
        for o in 0..8u8 { ck!((m | LevelMask::new(o)).to_byte() == (mm | o), "mask-or", "{b} {o}") }
        Ok(())
    });
    r.section("statics", 1, |_, l| {
        let e = ord(vec![], vec![]);
        for c in [Cell::empty_cell(), Cell::default(), CellBuilder::new().build().unwrap()] { check_same(c.as_ref(), &e).map_err(|d| V { key: "static-empty".into(), detail: d })? }
        check_same(Cell::empty_cell_ref(), &e).map_err(|d| V { key: "static-empty".into(), detail: d })?;
        check_same(Cell::all_zeros_ref(), &ord(vec![0; 1023], vec![])).map_err(|d| V { key: "static-zeros".into(), detail: d })?;
        check_same(Cell::all_ones_ref(), &ord(vec![1; 1023], vec![])).map_err(|d| V { key: "static-ones".into(), detail: d })?;
        ck!(Cell::empty_cell().repr_hash() == EMPTY_CELL_HASH, "empty-hash", "");
        for h in [[0u8; 32], [1; 32], [0xff; 32]] {
            let c = CellBuilder::build_library(&HashBytes(h));
            check_same(c.as_ref(), &lib(&h)).map_err(|d| V { key: "build_library".into(), detail: d })?;
        }
        l.tr(8); l.st(5);
        Ok(())
    });
    let _ = Arc::new(0);
}
