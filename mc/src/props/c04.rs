//! C04: bag-of-cells encoding against a reference writer, and back.
use crate::fw::*;
use crate::model::{bits::*, boc, boc::EncOpt, cells::*};
use std::sync::Arc;
use tycho_types::boc::{Boc, BocRepr, de, ser};
use tycho_types::cell::*;

pub const META: Meta = Meta {
    id: "C04",
    level: "model_checking",
    rule: "a state is one (cell graph, list of roots) pair; transitions encode it through one entry point and option set and compare every byte with an independent writer of the format, then decode and compare every observable of every cell; non-trivial: more than one distinct cell or more than one root",
    assumptions: &["the canonical order is the depth-first post-order over the roots, reversed (the order the format's reference implementation and this library use)"],
    run,
};

type Hd<'a> = ser::BocHeader<'a, ahash::RandomState>;

fn dec_opts(n: usize) -> de::Options { de::Options { min_roots: Some(n), max_roots: Some(n) } }

fn decode_roots(d: &[u8], n: usize) -> Result<Vec<Cell>, de::Error> {
    let h = de::BocHeader::decode(d, &dec_opts(n))?;
    let roots = h.roots().to_vec();
    let cells = h.finalize(Cell::empty_context())?;
    Ok(roots.iter().map(|&i| cells.get(i).expect("root index in range")).collect())
}

/// All ways of writing the given roots must produce the reference bytes, and decode back.
fn full(l: &mut L, roots: &[MC], reals: &[Cell], level: u8) -> R {
    let ctx = || format!("roots={:?}", roots.iter().map(|r| hx(&r.repr()[..4])).collect::<Vec<_>>());
    let eq = |got: &[u8], want: &[u8], how: &str| -> R {
        ck!(got == want, "bytes", "{how}: impl={} model={} {}", hx(&got[..got.len().min(300)]), hx(&want[..want.len().min(300)]), ctx());
        Ok(())
    };
    let plain = boc::encode(roots, false);
    let crc = boc::encode(roots, true);
    l.st(1);
    if roots.len() > 1 || !roots[0].refs.is_empty() { l.nt() }
    np("panic", ctx, || -> R {
        let mut h = Hd::with_root(reals[0].as_ref());
        for r in &reals[1..] { h.add_root(r.as_ref()) }
        let st = h.compute_stats();
        ck!(st.total_size as usize == plain.len(), "stats", "total_size {} != {} {}", st.total_size, plain.len(), ctx());
        let mut o = vec![0xaa, 0xbb];
        h.encode(&mut o);
        eq(&o[2..], &plain, "encode")?;
        ck!(o[..2] == [0xaa, 0xbb], "prefix", "target prefix overwritten");
        l.tr(1);
        let mut w = vec![];
        h.encode_to_writer(&mut w).unwrap();
        eq(&w, &plain, "encode_to_writer")?;
        l.tr(1);
        let h = h.without_hashes(true);
        let mut o = vec![];
        h.encode(&mut o);
        eq(&o, &plain, "without_hashes")?;
        let h = h.with_crc(true);
        let st = h.compute_stats();
        ck!(st.total_size as usize == crc.len(), "stats", "crc total_size {} != {} {}", st.total_size, crc.len(), ctx());
        let mut o = vec![0xaa, 0xbb, 0xcc];
        h.encode(&mut o);
        eq(&o[3..], &crc, "encode crc")?;
        l.tr(2);
        let mut w = vec![];
        h.encode_to_writer(&mut w).unwrap();
        eq(&w, &crc, "encode_to_writer crc")?;
        let mut o = vec![1];
        h.encode_rayon(&mut o);
        eq(&o[1..], &crc, "encode_rayon crc")?;
        l.tr(2);
        if level > 0 {
            // a reused encoder
            let mut h = Hd::with_capacity_and_root(2, reals.last().unwrap().as_ref());
            h.clear();
            for r in reals { h.add_root(r.as_ref()) }
            let mut o = vec![];
            h.encode(&mut o);
            eq(&o, &plain, "cleared")?;
            let mut cache = h.into_cache();
            for r in reals.iter().zip(roots) {
                let b = Boc::encode_with_cache(r.0, &mut cache);
                eq(&b, &boc::encode(&[r.1.clone()], false), "encode_with_cache")?;
            }
            if roots.len() == 1 {
                eq(&Boc::encode(&reals[0]), &plain, "Boc::encode")?;
                eq(&Boc::encode_rayon(&reals[0]), &plain, "Boc::encode_rayon")?;
                eq(&BocRepr::encode(&reals[0]).unwrap(), &plain_of_ref(&roots[0]), "BocRepr::encode")?;
                eq(&BocRepr::encode_rayon(&reals[0]).unwrap(), &plain_of_ref(&roots[0]), "BocRepr::encode_rayon")?;
                ck!(Boc::encode_hex(&reals[0]) == hx(&plain), "hex", "encode_hex {}", ctx());
                ck!(Boc::encode_hex_rayon(&reals[0]) == hx(&plain), "hex", "encode_hex_rayon {}", ctx());
                use base64::Engine;
                let b64 = base64::engine::general_purpose::STANDARD.encode(&plain);
                ck!(Boc::encode_base64(&reals[0]) == b64, "base64", "encode_base64 {}", ctx());
                ck!(Boc::encode_base64_rayon(&reals[0]) == b64, "base64", "encode_base64_rayon {}", ctx());
                for d in [Boc::decode_hex(hx(&plain)), Boc::decode_base64(&b64), Boc::decode(&plain), Boc::decode(&crc)] {
                    let d = d.map_err(|e| V { key: "decode".into(), detail: format!("{e:?} {}", ctx()) })?;
                    ck!(d.repr_hash().as_array() == roots[0].repr(), "decode", "entry point returns another root {}", ctx());
                }
                let js = serde_json::to_string(&reals[0].as_ref()).unwrap();
                ck!(js == format!("\"{b64}\""), "serde", "serde cell {js} {}", ctx());
                let d: Cell = Boc::deserialize(&mut serde_json::Deserializer::from_str(&js)).map_err(|e| V { key: "serde".into(), detail: format!("{e:?}") })?;
                ck!(d.repr_hash().as_array() == roots[0].repr(), "serde", "serde cell {}", ctx());
                l.tr(12);
            }
            if roots.len() == 2 {
                eq(&Boc::encode_pair((&reals[0], &reals[1])), &plain, "encode_pair")?;
                l.tr(1);
            }
        }
        Ok(())
    })??;
    // and back
    let n = order_len(roots);
    for d in [&plain, &crc] {
        let got = np("panic-decode", ctx, || decode_roots(d, roots.len()))?;
        l.tr(1);
        l.ev();
        match got {
            Err(de::Error::TooManyRootCells) if roots.len() > n => l.fail(V { key: "more-roots-than-cells".into(), detail: ctx() }),
            Err(e) => bad!("decode", "own encoding refused: {e:?} {} {}", ctx(), hx(&d[..d.len().min(200)])),
            Ok(v) => {
                ck!(v.len() == roots.len(), "roots", "{} roots of {}", v.len(), roots.len());
                for (c, m) in v.iter().zip(roots) {
                    check_same(c.as_ref(), m).map_err(|e| V { key: "decoded".into(), detail: format!("{e} {}", ctx()) })?;
                }
                if roots.len() == 2 && level > 0 {
                    let (a, b) = Boc::decode_pair(d).map_err(|e| V { key: "decode-pair".into(), detail: format!("{e:?} {}", ctx()) })?;
                    ck!(a.repr_hash().as_array() == roots[0].repr() && b.repr_hash().as_array() == roots[1].repr(), "decode-pair", "{}", ctx());
                }
                // distinct cells are shared again
                let mut seen = std::collections::HashMap::new();
                for c in &v { share(c.as_ref(), &mut seen)? }
                ck!(seen.len() == n, "distinct", "{} distinct cells decoded of {}", seen.len(), n);
            }
        }
    }
    Ok(())
}
fn order_len(r: &[MC]) -> usize { boc::order(r).0.len() }
fn share(c: &DynCell, seen: &mut std::collections::HashMap<H, *const u8>) -> R {
    let p = c.data().as_ptr();
    if let Some(q) = seen.get(c.repr_hash().as_array()) {
        ck!(c.bit_len() == 0 || *q == p, "shared", "the same cell decoded twice");
        return Ok(());
    }
    seen.insert(*c.repr_hash().as_array(), p);
    for i in 0..c.reference_count() { share(c.reference(i).unwrap(), seen)? }
    Ok(())
}
// A bare cell stored with `BocRepr` is `Store`d into a builder, i.e. becomes the only child of an empty cell.
fn plain_of_ref(m: &MC) -> Vec<u8> { boc::encode(&[ord(vec![], vec![m.clone()])], false) }

fn run(r: &Run) {
    // A: all graphs of up to n nodes with ordered child lists of bounded length, under several labelings
    let t = !r.quick();
    for (n, k) in [(1usize, 4usize), (2, 4), (3, 4), (4, if t { 4 } else { 3 }), (5, 2)] {
        // number of child lists of node i: sum_{j<=k} i^j
        let cnt = |i: usize| -> u64 { (0..=k as u32).map(|j| (i as u64).pow(j)).sum() };
        let total: u64 = (0..n).map(cnt).product();
        let labels = 4u64;
        r.section(&format!("graphs-{n}-{k}"), total * labels, |i, l| {
            let mut ix = Ix(i);
            let lab = ix.take(labels);
            let mut ms: Vec<MC> = vec![];
            for v in 0..n {
                let mut c = ix.take(cnt(v));
                let mut len = 0u32;
                while c >= (v as u64).pow(len) { c -= (v as u64).pow(len); len += 1 }
                let mut ch = Ix(c);
                let refs: Vec<MC> = (0..len).map(|_| ms[ch.us(v)].clone()).collect();
                let bits = match lab { 0 => pattern(2, v), 1 => vec![], 2 => pattern(v as u64, 1023 - v), _ => pattern(7, [8, 8, 0, 300, 8][v]) };
                ms.push(ord(bits, refs));
            }
            let rs = real_all(&ms);
            let last = n - 1;
            full(l, &ms[last..], &rs[last..], 1)?;
            for a in 0..n { for b in 0..n {
                if n == 5 && lab > 0 && a != last && b != last { continue }
                full(l, &[ms[a].clone(), ms[b].clone()], &[rs[a].clone(), rs[b].clone()], (a == last) as u8)?;
            } }
            if n <= 3 { for a in 0..n { for b in 0..n { for c in 0..n {
                full(l, &[ms[a].clone(), ms[b].clone(), ms[c].clone()], &[rs[a].clone(), rs[b].clone(), rs[c].clone()], 0)?;
            } } } }
            l.sample(|| format!("n={n} labels={lab} hash={}", hx(ms[last].repr())));
            Ok(())
        });
    }

    // B: exotic cells in graphs, hashes stored by the writer or not
    let mut pool = vec![ord(vec![], vec![]), ord(pattern(5, 9), vec![]), lib(&[3; 32])];
    for mask in 1..=7u8 {
        pool.push(pruned_raw(mask, &(0..level_of(mask)).map(|i| ([mask * 9 + i as u8; 32], 7 + i as u16)).collect::<Vec<_>>()));
    }
    let mut l1 = pool.clone();
    for a in &pool {
        l1.push(ord(pattern(3, 5), vec![a.clone()]));
        l1.push(proof(a));
        for b in &pool { l1.push(ord(vec![1, 1], vec![a.clone(), b.clone()])); l1.push(update(a, b)); }
    }
    let mut l2 = l1.clone();
    for (i, a) in l1.iter().enumerate() {
        l2.push(ord(pattern(3, 11), vec![a.clone()]));
        l2.push(proof(a));
        l2.push(update(a, &l1[(i * 7 + 1) % l1.len()]));
        l2.push(ord(pattern(4, 17), vec![a.clone(), pool[i % pool.len()].clone(), a.clone()]));
        l2.push(proof(&proof(a)));
    }
    r.section("exotic-graphs", l2.len() as u64 * 4, |i, l| {
        let mut ix = Ix(i);
        let m = ix.of(&l2).clone();
        let variant = ix.take(4);
        let c = real(&m);
        if variant == 0 { return full(l, &[m], &[c], 1) }
        // a bag that stores hashes (all cells / only those with a level / only ordinary ones)
        let stored = move |x: &M| x.kind != K::Pruned && match variant { 1 => true, 2 => x.mask != 0, _ => x.kind == K::Ord };
        let o = EncOpt { crc: i % 2 == 0, ..Default::default() };
        let d = boc::encode_ext(&[m.clone()], o, &stored, 0);
        let c = np("panic-stored", || hx(&d), || Boc::decode(&d))?.map_err(|e| V { key: "decode-stored".into(), detail: format!("{e:?} {}", hx(&d)) })?;
        l.st(1);
        l.nt();
        check_same(c.as_ref(), &m).map_err(|e| V { key: "decoded-stored".into(), detail: e })?;
        let plain = boc::encode(&[m.clone()], false);
        let want = boc::encode_ext(&[m.clone()], EncOpt::default(), &stored, 0);
        let enc = np("panic-stored", || format!("with_root.without_hashes {}", hx(&d)), || {
            let mut o = vec![];
            Hd::with_root(c.as_ref()).without_hashes(true).encode(&mut o);
            o
        })?;
        ck!(enc == plain, "without-hashes", "impl={} model={}", hx(&enc), hx(&plain));
        let enc = np("panic-stored", || format!("add_root {}", hx(&d)), || {
            let mut h = Hd::with_capacity(4).without_hashes(true);
            h.add_root(c.as_ref());
            let mut o = vec![];
            h.encode(&mut o);
            o
        })?;
        ck!(enc == plain, "without-hashes", "add_root: impl={} model={}", hx(&enc), hx(&plain));
        let enc = np("panic-stored", || hx(&d), || Boc::encode(&c))?;
        ck!(enc == plain || enc == want, "stored-bytes", "impl={} model={}", hx(&enc), hx(&want));
        let back = Boc::decode(&enc).map_err(|e| V { key: "decode-stored".into(), detail: format!("re-encoded: {e:?}") })?;
        check_same(back.as_ref(), &m).map_err(|e| V { key: "decoded-stored".into(), detail: e })?;
        l.tr(5);
        Ok(())
    });

    // C: every reference size, offset size, index, checksum, cache bits, chosen by another writer
    let graphs: Vec<Vec<MC>> = {
        let a = ord(pattern(5, 3), vec![]);
        let b = ord(pattern(6, 1023), vec![a.clone(), a.clone()]);
        let c = ord(vec![], vec![b.clone(), a.clone()]);
        let p = proof(&pool[4]);
        vec![vec![a.clone()], vec![b.clone()], vec![c.clone()], vec![c.clone(), b.clone()], vec![a.clone(), c.clone(), b.clone()], vec![p.clone()], vec![ord(vec![], vec![])], vec![p, a]]
    };
    r.section("foreign-options", (graphs.len() * 4 * 8 * 2 * 2 * 2 * 2 * 2) as u64, |i, l| {
        let mut ix = Ix(i);
        let g = ix.of(&graphs).clone();
        let o = EncOpt { ref_size: 1 + ix.us(4), offset_size: 1 + ix.us(8), crc: ix.bit(), index: ix.bit(), cache_bits: ix.bit() };
        let stored = ix.bit();
        let trailing = ix.bit();
        if o.cache_bits && !o.index { return Ok(()) }
        let mut d = boc::encode_ext(&g, o, &|m: &M| stored && m.kind != K::Pruned, 0);
        let total: usize = boc::decode(&d, boc::DecOpt { min: 1, max: 9 }).map(|_| 1).unwrap_or(0);
        if trailing { d.extend([0xde, 0xad]) }
        let got = np("panic-foreign", || hx(&d), || decode_roots(&d, g.len()))?;
        l.st(1);
        l.tr(1);
        l.nt();
        match (total, got) {
            (1, Ok(v)) => for (c, m) in v.iter().zip(&g) { check_same(c.as_ref(), m).map_err(|e| V { key: "foreign".into(), detail: e })? },
            (0, Err(_)) => {} // the offset size does not fit the total size
            (a, b) => bad!("foreign", "model {a} impl {:?} {}", b.map(|v| v.len()), hx(&d)),
        }
        Ok(())
    });

    // D: number of cells and total size across every size boundary; shapes: comb, chain, star of shared leaves
    let mut counts: Vec<usize> = (1..=if t { 3000 } else { 700 }).collect();
    counts.extend([999, 1000, 1001, 1999, 2000, 2001, 2500, 9999, 10000, 10001, 15000, 15001, 65534, 65535, 65536, 65537, 70001]);
    r.section("counts", counts.len() as u64 * 3, |i, l| {
        let mut ix = Ix(i);
        // largest first
        let shape = ix.take(3);
        let n = counts[counts.len() - 1 - ix.us(counts.len())];
        let mut ms: Vec<MC> = vec![];
        for v in 0..n {
            let refs: Vec<MC> = match shape {
                0 => if v == 0 { vec![] } else if v % 2 == 1 { vec![ms[v - 1].clone()] } else { vec![ms[v - 1].clone(), ms[v / 2].clone()] },
                // complete 4-ary heap built from the leaves
                1 => { let id = n - 1 - v; (0..4).map(|j| 4 * id + 1 + j).filter(|&c| c < n).map(|c| ms[n - 1 - c].clone()).collect() }
                _ => if v == 0 { vec![] } else { let d = (v as f64).sqrt() as usize; [v - 1 - v % d.min(v), v - 1].iter().take(1 + (v % 3 == 0) as usize).map(|&x| ms[x].clone()).collect() },
            };
            let refs = if shape == 0 && n > 60000 && v % 300 == 299 { refs[..1].to_vec() } else { refs };
            let m = mk(false, uint((v as u128) << 1, 24 + v % 9), refs);
            let Ok(m) = m else { return Ok(()) };
            ms.push(m);
        }
        let m = ms.last().unwrap().clone();
        let c = real_all(&ms).pop().unwrap();
        drop(ms);
        let plain = boc::encode(&[m.clone()], false);
        let crc = boc::encode(&[m.clone()], true);
        l.st(1);
        l.nt();
        np("panic-count", || format!("n={n} shape={shape}"), || -> R {
            let mut o = vec![];
            let h = Hd::with_root(c.as_ref());
            h.encode(&mut o);
            ck!(o == plain, "bytes", "n={n} shape={shape} encode");
            let mut o = vec![];
            h.encode_rayon(&mut o);
            ck!(o == plain, "bytes", "n={n} shape={shape} encode_rayon");
            let mut o = vec![];
            h.encode_to_writer(&mut o).unwrap();
            ck!(o == plain, "bytes", "n={n} shape={shape} encode_to_writer");
            let mut o = vec![];
            h.with_crc(true).encode_to_writer(&mut o).unwrap();
            ck!(o == crc, "bytes", "n={n} shape={shape} encode_to_writer crc");
            l.tr(5);
            let d = Boc::decode(&plain).map_err(|e| V { key: "decode".into(), detail: format!("{e:?} n={n} shape={shape}") })?;
            ck!(d.repr_hash().as_array() == m.repr(), "decode", "n={n} shape={shape}");
            ck!(Boc::encode(&d) == plain, "reencode", "n={n} shape={shape}");
            if n < 3000 { check_same(d.as_ref(), &m).map_err(|e| V { key: "decoded".into(), detail: e })? }
            Ok(())
        })??;
        drop_m(m);
        Ok(())
    });

    // E: deep graphs: chains with side branches whose recursion switches to the iterative walk
    let depths: Vec<usize> = (120..=136).chain([1, 2, 255, 256, 257, 1000, 65534, 65535]).collect();
    r.section("deep", (depths.len() * 6) as u64, |i, l| {
        let mut ix = Ix(i);
        let n = *ix.of(&depths);
        let kind = ix.take(6);
        let mut m = ord(vec![], vec![]);
        let side = { let mut s = ord(vec![1], vec![]); for j in 0..140.min(n) { s = ord(uint(j as u128, 9), vec![s]) } s };
        let leaf = ord(vec![0, 0], vec![]);
        for j in 0..n {
            let b = uint(j as u128, 17);
            let refs = match kind {
                0 => vec![m.clone()],
                1 => vec![leaf.clone(), m.clone()],
                2 => vec![m.clone(), leaf.clone()],
                3 => vec![m.clone(), m.clone()],
                4 => if side.depth() <= m.depth() { vec![side.clone(), m.clone(), leaf.clone()] } else { vec![m.clone(), leaf.clone()] },
                _ => { let x = m.refs.first().cloned().unwrap_or(leaf.clone()); vec![x, m.clone(), m.clone()] }
            };
            m = ord(b, refs);
        }
        let c = real_deep(&m);
        let plain = boc::encode(&[m.clone()], false);
        let o = np("panic-deep", || format!("n={n} kind={kind}"), || Boc::encode(&c))?;
        ck!(o == plain, "bytes", "deep n={n} kind={kind}");
        // a second root inside, added before and after
        let inner_m = m.refs[0].clone();
        let inner_c = c.reference_cloned(0).unwrap();
        let leaf_c = real(&leaf);
        for (ms, cs) in [(vec![m.clone(), inner_m.clone()], vec![&c, &inner_c]), (vec![inner_m.clone(), m.clone()], vec![&inner_c, &c]), (vec![leaf.clone(), m.clone()], vec![&leaf_c, &c])] {
            let mut h = Hd::with_root(cs[0].as_ref());
            h.add_root(cs[1].as_ref());
            let mut o = vec![];
            h.encode(&mut o);
            ck!(o == boc::encode(&ms, false), "bytes", "deep pair n={n} kind={kind}");
            l.tr(1);
        }
        let d = np("panic-deep", || format!("decode n={n} kind={kind}"), || Boc::decode(&plain))?.map_err(|e| V { key: "decode".into(), detail: format!("{e:?} n={n}") })?;
        ck!(d.repr_hash().as_array() == m.repr(), "decode", "deep n={n} kind={kind}");
        ck!(d.repr_depth() as u32 == m.depth(), "decode", "deep n={n} kind={kind}");
        l.st(1);
        l.tr(2);
        l.nt();
        drop(d);
        drop(c);
        drop_m(m);
        Ok(())
    });

    // F: many roots
    let leafs: Vec<MC> = (0..70).map(|i| ord(uint(i, 8), vec![])).collect();
    let lr = real_all(&leafs);
    r.section("many-roots", 70 * 3, |i, l| {
        let mut ix = Ix(i);
        let n = 1 + ix.us(70);
        let mode = ix.take(3);
        let sel: Vec<usize> = match mode { 0 => (0..n).collect(), 1 => (0..n).rev().collect(), _ => (0..n).map(|j| (j * 7) % 70).collect() };
        let ms: Vec<MC> = sel.iter().map(|&j| leafs[j].clone()).collect();
        let cs: Vec<Cell> = sel.iter().map(|&j| lr[j].clone()).collect();
        full(l, &ms, &cs, 0)?;
        // default limit
        let d = boc::encode(&ms, false);
        let got = de::BocHeader::decode(&d, &de::Options::default()).is_ok();
        ckeq!(got, n <= 32 && n <= order_len(&ms), "default-roots", "n={n} mode={mode}");
        Ok(())
    });

    // G: caches reused over every ordered pair of graphs
    let gl: Vec<MC> = l1.iter().take(40).cloned().collect();
    let gr = real_all(&gl);
    r.section("cache-pairs", (gl.len() * gl.len()) as u64, |i, l| {
        let mut ix = Ix(i);
        let (a, b) = (ix.us(gl.len()), ix.us(gl.len()));
        let mut cache = ser::BocHeaderCache::with_capacity(1);
        for j in [a, b, a] {
            let o = Boc::encode_with_cache(&gr[j], &mut cache);
            ck!(o == boc::encode(&[gl[j].clone()], false), "cache", "{a} {b}");
        }
        l.st(1);
        l.tr(3);
        Ok(())
    });
}

fn real_all(ms: &[MC]) -> Vec<Cell> {
    let mut memo: std::collections::HashMap<*const M, Cell> = Default::default();
    let mut keep = vec![];
    for m in ms {
        if m.refs.iter().any(|r| !memo.contains_key(&Arc::as_ptr(r))) { keep.push(real(m)); memo.insert(Arc::as_ptr(m), keep.last().unwrap().clone()); continue }
        let refs: Vec<Cell> = m.refs.iter().map(|r| memo[&Arc::as_ptr(r)].clone()).collect();
        let c = try_real(m.exotic(), &m.bits, &refs).expect("valid");
        memo.insert(Arc::as_ptr(m), c.clone());
        keep.push(c);
    }
    keep
}
fn real_deep(m: &MC) -> Cell {
    let (cells, _) = boc::order(&[m.clone()]);
    let mut memo: std::collections::HashMap<H, Cell> = Default::default();
    for c in cells.iter().rev() {
        let refs: Vec<Cell> = c.refs.iter().map(|r| memo[r.repr()].clone()).collect();
        memo.insert(*c.repr(), try_real(c.exotic(), &c.bits, &refs).unwrap());
    }
    memo[m.repr()].clone()
}
/// Drops a deep model graph without recursion.
fn drop_m(m: MC) {
    let mut st = vec![m];
    while let Some(x) = st.pop() { if let Ok(mut x) = Arc::try_unwrap(x) { st.append(&mut x.refs) } }
}
