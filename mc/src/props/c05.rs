//! C05: decoding arbitrary bytes, against an independent reader, with the input placed against an unmapped page.
use crate::fw::*;
use crate::model::{bits::*, boc, boc::*, cells::*};
use tycho_types::boc::{Boc, BocRepr, de};
use tycho_types::cell::*;

pub const META: Meta = Meta {
    id: "C05",
    level: "model_checking",
    rule: "a state is one byte string; the transition decodes it with the real decoder (input ending at an unmapped page, so that an access beyond it crashes) and with an independent reader of the format; acceptance and every observable of every decoded cell must agree; non-trivial: the header was accepted up to the cells or the string differs from a valid bag by an edit",
    assumptions: &["the declared total size must leave room for at least one reference to each non-root cell (orphan cells are otherwise tolerated)", "contents of an index and bytes after the bag are not interpreted", "only indexed bags with the dedicated tags have their root at cell 0"],
    run,
};

struct Guard { base: *mut u8, len: usize }
impl Guard {
    fn new() -> Self {
        let len = 1 << 18;
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), len + 8192, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(p as isize != -1);
            libc::mprotect(p as *mut _, 4096, libc::PROT_NONE);
            libc::mprotect(p.add(4096 + len) as *mut _, 4096, libc::PROT_NONE);
            Guard { base: p.add(4096), len }
        }
    }
    /// The bytes copied so that they end right before an unmapped page.
    fn at_end(&self, d: &[u8]) -> &'static [u8] {
        assert!(d.len() <= self.len);
        unsafe {
            let p = self.base.add(self.len - d.len());
            std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
            std::slice::from_raw_parts(p, d.len())
        }
    }
}
thread_local! { static G: Guard = Guard::new(); }
pub fn guarded<T>(d: &[u8], f: impl FnOnce(&[u8]) -> T) -> T { G.with(|g| f(g.at_end(d))) }

fn decode_all(d: &[u8], min: Option<usize>, max: Option<usize>) -> Result<(Vec<Cell>, usize), de::Error> {
    let h = de::BocHeader::decode(d, &de::Options { min_roots: min, max_roots: max })?;
    let roots = h.roots().to_vec();
    let n = h.cells().len();
    let cells = h.finalize(Cell::empty_context())?;
    let v = roots.iter().map(|&i| cells.get(i).expect("root index in range")).collect();
    Ok((v, n))
}

/// Returns whether the model accepts.
fn check(l: &mut L, d: &[u8], deep: bool) -> R<bool> {
    l.st(1);
    l.tr(1);
    l.ev();
    let want = boc::decode(d, DecOpt { min: 0, max: 32 });
    let got = np("panic", || hx(d), || guarded(d, |d| decode_all(d, None, None)))?;
    match (&want, &got) {
        (Some(w), Ok((g, _))) => {
            ck!(w.len() == g.len(), "roots", "{} roots, model {} :: {}", g.len(), w.len(), hx(d));
            for (m, c) in w.iter().zip(g) { check_same(c.as_ref(), m).map_err(|e| V { key: "cells".into(), detail: format!("{e} :: {}", hx(d)) })? }
            l.extra("accepted", 1);
        }
        (None, Err(_)) => {}
        (Some(_), Err(e)) => bad!("refused-valid", "{e:?} :: {}", hx(&d[..d.len().min(400)])),
        (None, Ok(_)) => bad!("accepted-invalid", "{}", hx(&d[..d.len().min(400)])),
    }
    if deep {
        let one = np("panic-one", || hx(d), || guarded(d, |d| Boc::decode(d)))?;
        let w1 = boc::decode(d, DecOpt { min: 1, max: 1 });
        ck!(one.is_ok() == w1.is_some(), "one-root", "Boc::decode {:?} model {} :: {}", one.as_ref().err(), w1.is_some(), hx(d));
        if let (Ok(c), Some(w)) = (&one, &w1) { ck!(c.repr_hash().as_array() == w[0].repr(), "one-root", "wrong root :: {}", hx(d)) }
        let two = np("panic-two", || hx(d), || guarded(d, |d| Boc::decode_pair(d)))?;
        let w2 = boc::decode(d, DecOpt { min: 2, max: 2 });
        ck!(two.is_ok() == w2.is_some(), "two-roots", "Boc::decode_pair {:?} model {} :: {}", two.as_ref().err(), w2.is_some(), hx(d));
        if let (Ok((a, b)), Some(w)) = (&two, &w2) { ck!(a.repr_hash().as_array() == w[0].repr() && b.repr_hash().as_array() == w[1].repr(), "two-roots", "wrong roots :: {}", hx(d)) }
        let h = np("panic-hex", || hx(d), || Boc::decode_hex(hx(d)))?;
        ck!(h.is_ok() == one.is_ok(), "hex", "decode_hex {}", hx(d));
        let b64 = { use base64::Engine; base64::engine::general_purpose::STANDARD.encode(d) };
        let h = np("panic-b64", || hx(d), || Boc::decode_base64(&b64))?;
        ck!(h.is_ok() == one.is_ok(), "base64", "decode_base64 {}", hx(d));
        let h = np("panic-repr", || hx(d), || BocRepr::decode::<CellTail, _>(d))?;
        if let (Ok(_), Err(e)) = (&h, &one) { bad!("repr", "BocRepr::decode accepts what Boc::decode refuses ({e:?}) {}", hx(d)) }
        l.tr(5);
    }
    Ok(want.is_some())
}
struct CellTail;
impl<'a> Load<'a> for CellTail {
    fn load_from(s: &mut CellSlice<'a>) -> Result<Self, tycho_types::error::Error> { let _ = s.load_remaining(); Ok(CellTail) }
}

pub fn base_bags() -> Vec<(Vec<u8>, bool)> {
    let e = ord(vec![], vec![]);
    let a = ord(pattern(5, 3), vec![]);
    let a8 = ord(pattern(5, 8), vec![]);
    let p = pruned_raw(1, &[([9; 32], 3)]);
    let p2 = pruned_raw(3, &[([9; 32], 3), ([7; 32], 1)]);
    let no = |_: &M| false;
    let st = |m: &M| m.kind != K::Pruned;
    let o = EncOpt::default();
    let crc = EncOpt { crc: true, ..o };
    let mut v = vec![];
    // (bag, small)
    v.push((encode_ext(&[e.clone()], o, &no, 0), true));
    v.push((encode_ext(&[a.clone()], o, &no, 0), true));
    v.push((encode_ext(&[ord(vec![1], vec![e.clone(), a.clone()])], o, &no, 0), true));
    v.push((encode_ext(&[ord(vec![], vec![a8.clone(), a8.clone()]), a8.clone()], o, &no, 0), true));
    v.push((encode_ext(&[a8.clone()], EncOpt { index: true, ..o }, &no, 0), true));
    v.push((encode_ext(&[a8.clone()], crc, &no, 0), true));
    v.push((encode_ext(&[ord(vec![1; 9], vec![a.clone(), e.clone(), a8.clone(), a.clone()])], EncOpt { index: true, cache_bits: true, ref_size: 2, offset_size: 3, crc: true }, &no, 0), false));
    v.push((encode_ext(&[ord(vec![0; 7], vec![a.clone()])], o, &st, 0x5a), false));
    v.push((encode_ext(&[p.clone()], o, &no, 0), false));
    v.push((encode_ext(&[proof(&p)], crc, &no, 0), false));
    v.push((encode_ext(&[proof(&ord(vec![1, 0], vec![p.clone(), e.clone()]))], o, &st, 0), false));
    v.push((encode_ext(&[update(&p2, &a)], o, &no, 0), false));
    v.push((encode_ext(&[proof(&proof(&p2)), lib(&[4; 32]), a.clone()], o, &no, 0), false));
    // the single-root indexed tags: no root list
    for (t, c) in [([0x68u8, 0xff, 0x65, 0xf3], false), ([0xac, 0xc3, 0xa7, 0x28], true)] {
        for g in [vec![e.clone()], vec![ord(vec![1], vec![a8.clone(), e.clone()])]] {
            for rs in [1usize, 4] {
                let b = encode_ext(&g, EncOpt { index: true, ref_size: rs, ..o }, &no, 0);
                let os = b[5] as usize;
                let roots_at = 6 + 3 * rs + os;
                let mut x = t.to_vec();
                x.push(rs as u8);
                x.extend(&b[5..roots_at]);
                x.extend(&b[roots_at + rs..]);
                if c { let k = crc32c_ref(&x); x.extend(k.to_le_bytes()) }
                v.push((x, rs == 1));
            }
        }
    }
    v
}

fn run(r: &Run) {
    let bags = base_bags();
    // sanity of the corpus
    r.section("bases", bags.len() as u64, |i, l| {
        let ok = check(l, &bags[i as usize].0, true)?;
        ck!(ok, "model", "base bag {i} must be valid: {}", hx(&bags[i as usize].0));
        Ok(())
    });

    // A: every string over a small alphabet in place of everything after the tag
    let alpha: &[u8] = if r.quick() { &[0, 1, 2, 3, 0x80, 0xc1] } else { &[0, 1, 2, 3, 4, 0x28, 0x80, 0xc1] };
    let tags: [[u8; 4]; 3] = [[0xb5, 0xee, 0x9c, 0x72], [0x68, 0xff, 0x65, 0xf3], [0xac, 0xc3, 0xa7, 0x28]];
    for len in 0..=9usize {
        let n = (alpha.len() as u64).pow(len as u32);
        r.section(&format!("strings-{len}"), if len > 8 { n } else { n * 3 }, |i, l| {
            let mut ix = Ix(i);
            let t = if len > 8 { 0 } else { ix.us(3) };
            let mut d = tags[t].to_vec();
            for _ in 0..len { d.push(*ix.of(alpha)) }
            if check(l, &d, len < 6)? { l.nt() }
            Ok(())
        });
    }
    // A2: with size bytes fixed to 1, longer bodies
    let len = r.pick(9usize, 11);
    let alpha2 = [0u8, 1, 2, 3, 0x80];
    r.section("strings-body", (alpha2.len() as u64).pow(len as u32), |i, l| {
        let mut ix = Ix(i);
        // tag, ref 1, offset 1, cells=2, roots 1|2, absent 0, total, root index.., cells
        let mut d = vec![0xb5, 0xee, 0x9c, 0x72, 1, 1, 2];
        d.push(1 + ix.us(5) as u8 % 2);
        d.push(0);
        d.push(len as u8 - 2 - (d[7] - 1));
        for _ in 0..len - 1 { d.push(*ix.of(&alpha2)) }
        if check(l, &d, false)? { l.nt() }
        Ok(())
    });

    // B: one root cell with every pair of descriptor bytes, data patterns, and children of various kinds after it
    let kids: Vec<Vec<u8>> = {
        let p = pruned_raw(1, &[([9; 32], 3)]);
        let p7 = pruned_raw(7, &[([9; 32], 3), ([7; 32], 1), ([1; 32], 0)]);
        vec![raw_cell(&ord(vec![], vec![]), &[], 1, false, 0), raw_cell(&p, &[], 1, false, 0), raw_cell(&p7, &[], 1, false, 0)]
    };
    let fills = 7u64;
    r.section("descriptors", 65536 * fills * 3 * 2, |i, l| {
        let mut ix = Ix(i);
        let (d1, d2) = (ix.take(256) as u8, ix.take(256) as u8);
        let fill = ix.take(fills);
        let kid = ix.of(&kids);
        let cut = ix.bit();
        let refs = (d1 & 7) as usize;
        let dl = (d2 as usize).div_ceil(2);
        let mut cell = vec![d1, d2];
        if d1 & 16 != 0 { cell.extend(vec![0xee; 34 * (1 + level_of(d1 >> 5) as usize)]) }
        let mut data: Vec<u8> = match fill {
            0 => vec![0; dl],
            1 => vec![0xff; dl],
            2 => (0..dl).map(|i| i as u8 ^ 0x35).collect(),
            // type byte, then the level mask from the descriptor
            f => { let mut v: Vec<u8> = (0..dl).map(|i| i as u8).collect(); if dl > 0 { v[0] = f as u8 - 2 } if dl > 1 { v[1] = d1 >> 5 } v }
        };
        if fill >= 2 && d2 & 1 == 1 { if let Some(x) = data.last_mut() { *x = 0x80 } if dl == 1 { data[0] = 0xa0 } }
        cell.extend(&data);
        for j in 0..refs { cell.push(1 + (j % 2) as u8) }
        let leaf = &kids[0];
        let mut body = cell.clone();
        body.extend(kid);
        body.extend(leaf);
        let mut total = body.len();
        if cut && total > 0 { total -= 1; body.pop(); }
        let os = nbytes(total as u64);
        let mut d = vec![0xb5, 0xee, 0x9c, 0x72, 1, os as u8, 3, 1, 0];
        d.extend(be(total as u64, os));
        d.push(0);
        d.extend(&body);
        let _ = check(l, &d, false)?;
        l.nt();
        // the low-level reader of one cell
        let raw = np("panic-raw", || hx(&cell), || guarded(&cell, |mut c| CellParts::read_raw_cell(&mut c, 1).map(|x| (x.len(), c.len()))))?;
        let mut rd = Rd { d: &cell, p: 0 };
        let w = read_raw(&mut rd, 1);
        // (an absent cell is refused by the reader, like more than four references)
        ck!(raw.is_ok() == w.is_some(), "raw", "read_raw_cell {raw:?} model {} :: {}", w.is_some(), hx(&cell));
        if let Ok((n, rest)) = raw { ck!(n == rd.p && n + rest == cell.len(), "raw-len", "{n} model {} :: {}", rd.p, hx(&cell)) }
        for k in 0..cell.len().min(3) {
            let ok = guarded(&cell[..k], |mut c| CellParts::read_raw_cell(&mut c, 1).is_ok());
            ck!(!ok, "raw-short", "accepted {} bytes of {}", k, hx(&cell));
        }
        l.tr(2);
        Ok(())
    });

    // C: every header field around consistency for a menu of bodies
    let bodies: Vec<Vec<u8>> = {
        let mut v = vec![];
        for rs in 1..=4usize {
            let e = |n: u64| -> Vec<u8> { be(n, rs) };
            let cat = |xs: &[&[u8]]| xs.concat();
            v.push(cat(&[&[0, 0]]));
            v.push(cat(&[&[0, 1, 0xc0]]));
            v.push(cat(&[&[1, 0], &e(1), &[0, 0]]));
            v.push(cat(&[&[1, 0], &e(0), &[0, 0]]));
            v.push(cat(&[&[1, 0], &e(2), &[0, 0]]));
            v.push(cat(&[&[2, 0], &e(1), &e(2), &[1, 0], &e(2), &[0, 0]]));
            v.push(cat(&[&[2, 0], &e(2), &e(1), &[0, 2, 7], &[0, 2, 7]]));
            v.push(cat(&[&[0, 0], &[0, 0], &[0, 0]]));
            v.push(vec![]);
        }
        v
    };
    let cnt = [0u64, 1, 2, 3, 4, 255, 256, 0xffff_ffff];
    r.section("headers", 3 * 8 * 4 * 9 * 8 * 5 * 3 * 5 * 5, |i, l| {
        let mut ix = Ix(i);
        let tag = ix.us(3);
        let (f7, f6, f5) = (ix.bit(), ix.bit(), ix.bit());
        let rs = 1 + ix.us(4);
        let body = &bodies[(rs - 1) * 9 + ix.us(9)];
        let cells = *ix.of(&cnt);
        let roots = [0u64, 1, 2, 3, 33][ix.us(5)];
        let absent = [0u64, 1, 255][ix.us(3)];
        let dtotal = [0i64, 1, -1, 1000, -1000][ix.us(5)];
        let os = [1usize, 2, 8, 1, 4][ix.us(5)];
        let mut d = tags[tag].to_vec();
        d.push(if tag == 0 { rs as u8 | (f7 as u8) << 7 | (f6 as u8) << 6 | (f5 as u8) << 5 } else { if f7 && f6 { return Ok(()) } rs as u8 });
        d.push(os as u8);
        d.extend(be(cells & ((1 << (8 * rs)) - 1), rs));
        d.extend(be(roots, rs));
        d.extend(be(absent, rs));
        d.extend(be((body.len() as i64 + dtotal) as u64, os));
        let real_cells = cells.min(4) as usize;
        if tag == 0 { for k in 0..roots { d.extend(be(if f5 && !f7 { k + 1 } else { k % cells.max(1) }, rs)) } }
        if tag != 0 || f7 { d.extend(vec![0x11; os * real_cells]) }
        d.extend(body);
        if tag == 2 || tag == 0 && f6 { let c = crc32c_ref(&d) ^ (f5 && !f7) as u32; d.extend(c.to_le_bytes()) }
        let _ = check(l, &d, false)?;
        Ok(())
    });
    // C2: flags and offset size bytes
    r.section("flag-bytes", 65536 * 3, |i, l| {
        let mut ix = Ix(i);
        let t = ix.us(3);
        let (f, o) = (ix.take(256) as u8, ix.take(256) as u8);
        let rs = if t == 0 { f & 7 } else { f } as usize;
        let mut d = tags[t].to_vec();
        d.extend([f, o]);
        let (rsz, osz) = (rs.min(12), (o as usize).min(20));
        d.extend(be(1, 8)[8 - rsz.min(8)..].to_vec());
        d.extend(be(1, 8)[8 - rsz.min(8)..].to_vec());
        d.extend(be(0, 8)[8 - rsz.min(8)..].to_vec());
        if osz > 0 { d.extend(vec![0; osz - 1]); d.push(3) }
        if t == 0 { d.extend(vec![0; rsz]) }
        if t != 0 || f & 0x80 != 0 { d.extend(vec![3; osz]) }
        d.extend([0, 1, 0xc0]);
        if t == 2 || t == 0 && f & 0x40 != 0 { let c = crc32c_ref(&d); d.extend(c.to_le_bytes()) }
        let _ = check(l, &d, true)?;
        Ok(())
    });

    // D: every truncation, every byte replaced by every value, every insertion and deletion
    let edits: Vec<(usize, usize)> = bags.iter().enumerate().flat_map(|(k, b)| (0..=b.0.len()).map(move |p| (k, p))).collect();
    r.section("edit-1", edits.len() as u64 * 257, |i, l| {
        let mut ix = Ix(i);
        let v = ix.take(257);
        let (k, p) = *ix.of(&edits);
        let b = &bags[k].0;
        l.nt();
        if v == 256 {
            let ok = check(l, &b[..p], true)?;
            ck!(!ok || p >= b.len(), "model", "prefix accepted");
            if p < b.len() { let mut d = b.clone(); d.remove(p); check(l, &d, false)?; let mut d = b.clone(); let x = d[p]; d.insert(p, x); check(l, &d, false)?; }
        } else {
            if p < b.len() { let mut d = b.clone(); d[p] = v as u8; check(l, &d, true)?; }
            let mut d = b.clone();
            d.insert(p, v as u8);
            check(l, &d, false)?;
        }
        Ok(())
    });
    // D2: checksummed variants: edits with the checksum recomputed
    r.section("edit-crc", edits.len() as u64 * 256, |i, l| {
        let mut ix = Ix(i);
        let v = ix.take(256) as u8;
        let (k, p) = *ix.of(&edits);
        let b = &bags[k].0;
        let has = b[..4] == [0xac, 0xc3, 0xa7, 0x28] || b[0] == 0xb5 && b[4] & 0x40 != 0;
        if !has || p + 4 >= b.len() { return Ok(()) }
        let mut d = b.clone();
        let n = d.len() - 4;
        d[p] = v;
        let c = crc32c_ref(&d[..n]);
        d[n..].copy_from_slice(&c.to_le_bytes());
        l.nt();
        check(l, &d, true)?;
        Ok(())
    });
    // E: every pair of byte replacements in the small bags
    let small: Vec<&Vec<u8>> = bags.iter().filter(|b| b.1).map(|b| &b.0).collect();
    let vals: Vec<u8> = if true { (0..=255).collect() } else { vec![] };
    let pairs: Vec<(usize, usize, usize)> = small.iter().enumerate().flat_map(|(k, b)| {
        let n = b.len();
        (4..n).flat_map(move |p| (p + 1..n).map(move |q| (k, p, q)))
    }).collect();
    r.section("edit-2", pairs.len() as u64 * (vals.len() * vals.len()) as u64, |i, l| {
        let mut ix = Ix(i);
        let (x, y) = (*ix.of(&vals), *ix.of(&vals));
        let (k, p, q) = *ix.of(&pairs);
        let mut d = small[k].clone();
        d[p] = x;
        d[q] = y;
        l.nt();
        check(l, &d, false)?;
        Ok(())
    });
    // E2: triples over a tiny alphabet
    let vals3: Vec<u8> = vec![0, 1, 2, 3, 8, 0x28, 0x80, 0xc0, 0xff];
    let triples: Vec<(usize, usize, usize, usize)> = small.iter().enumerate().flat_map(|(k, b)| {
        let n = b.len().min(24);
        let mut v = vec![];
        for p in 4..n { for q in p + 1..n { for s in q + 1..n { v.push((k, p, q, s)) } } }
        v
    }).collect();
    let m = vals3.len() as u64;
    r.section("edit-3", triples.len() as u64 * m * m * m, |i, l| {
        let mut ix = Ix(i);
        let (x, y, z) = (*ix.of(&vals3), *ix.of(&vals3), *ix.of(&vals3));
        let (k, p, q, s) = *ix.of(&triples);
        let mut d = small[k].clone();
        d[p] = x;
        d[q] = y;
        d[s] = z;
        check(l, &d, false)?;
        Ok(())
    });

    // F: depth limit, and repeated cells in the bag
    let ns: Vec<usize> = vec![1, 2, 17, 300, 5000, 65534, 65535, 65536, 65537, 65538, 70000];
    r.section("deep-chains", ns.len() as u64 * 2, |i, l| {
        let mut ix = Ix(i);
        let n = *ix.of(&ns);
        let wide = ix.bit();
        // n cells in a chain: depth n - 1
        let rs = 3;
        let mut body = vec![];
        for j in 0..n {
            if j + 1 < n { body.extend([if wide { 2 } else { 1 }, 0]); for _ in 0..1 + wide as usize { body.extend(be(j as u64 + 1, rs)) } } else { body.extend([0, 0]) }
        }
        let mut d = vec![0xb5, 0xee, 0x9c, 0x72, rs as u8, 4];
        for x in [n as u64, 1, 0] { d.extend(be(x, rs)) }
        d.extend(be(body.len() as u64, 4));
        d.extend(be(0, rs));
        d.extend(body);
        let got = np("panic", || format!("chain of {n}"), || Boc::decode(&d))?;
        l.st(1);
        l.tr(1);
        ckeq!(got.is_ok(), n <= 65536, "depth", "chain of {n} cells");
        if let Ok(c) = got { ck!(c.repr_depth() as usize == n - 1, "depth", "chain of {n}: depth {}", c.repr_depth()) }
        Ok(())
    });
    // G: all small reference structures, including backward, self and out-of-range references and duplicate cells
    let n_max = r.pick(3usize, 4);
    for n in 1..=n_max {
        // each cell: data variant (2), up to 2 refs over 0..=n
        let per = 2 * (1 + (n as u64 + 1) + (n as u64 + 1).pow(2));
        r.section(&format!("ref-graphs-{n}"), per.pow(n as u32) * n as u64, |i, l| {
            let mut ix = Ix(i);
            let root = ix.us(n);
            let mut body = vec![];
            for _ in 0..n {
                let mut c = ix.take(per);
                let data = c % 2 == 1;
                c /= 2;
                let k = n as u64 + 1;
                let refs: Vec<u8> = if c == 0 { vec![] } else if c <= k { vec![(c - 1) as u8] } else { let c = c - 1 - k; vec![(c % k) as u8, (c / k) as u8] };
                body.push(refs.len() as u8);
                if data { body.extend([1, 0xc0]) } else { body.push(0) }
                body.extend(refs);
            }
            let mut d = vec![0xb5, 0xee, 0x9c, 0x72, 1, 1, n as u8, 1, 0, body.len() as u8, root as u8];
            d.extend(body);
            if check(l, &d, false)? { l.nt() }
            l.sample(|| hx(&d));
            Ok(())
        });
    }
    // I: bags at both ends of the size bounds: shortest and longest data, every level, all hashes stored or none, every width
    let kinds: Vec<MC> = (0..8u8).map(|m| if m == 0 { ord(pattern(9, 8), vec![]) } else { pruned_raw(m, &(0..m.count_ones() as u8).map(|i| ([i + 1; 32], 7 * i as u16)).collect::<Vec<_>>()) }).collect();
    let dlen = [0usize, 1, 7, 8, 9, 1015, 1016, 1017, 1023];
    r.section("size-bounds", 8 * dlen.len() as u64 * 5 * 3 * 4 * 4 * 9 * 2, |i, l| {
        let mut ix = Ix(i);
        let leaf = ix.of(&kinds).clone();
        let n = *ix.of(&dlen);
        let (nr, depth, how, rs, os) = (ix.us(5), 1 + ix.us(3), ix.us(4), 1 + ix.us(4), ix.us(9));
        let crc = ix.us(2) == 1;
        // (9 widths of offsets, 0 = the smallest that is enough)
        let mut m = leaf;
        for k in 0..depth { m = ord(pattern(3 + k as u64, n), vec![m; if k + 1 == depth { nr } else { nr.max(1) }]) }
        let st = |c: &M| match how { 0 => false, 1 => c.kind != K::Pruned, 2 => c.kind != K::Pruned && c.refs.is_empty(), _ => c.kind != K::Pruned && c.level() == 3 };
        let all: Vec<MC> = vec![m];
        let small = encode_ext(&all, EncOpt { crc, ref_size: rs, ..Default::default() }, &st, 0);
        if os != 0 && os < small[5] as usize { return Ok(()) }
        let d = if os == 0 { small } else { encode_ext(&all, EncOpt { crc, ref_size: rs, offset_size: os, index: crc, ..Default::default() }, &st, 0) };
        if check(l, &d, false)? { l.nt() }
        Ok(())
    });
    // H: text entry points
    let texts: Vec<String> = {
        let mut v: Vec<String> = vec!["".into(), "0".into(), "zz".into(), "b5ee9c72".into(), "te6c".into(), "te6ccgEBAQEAAgAAAA==".into(), "te6ccgEBAQEAAgAAAA".into(), "te6ccgEBAQEAAgAAAA=".into(), "te6ccgEBAQEAAgAAAB==".into(), " te6ccgEBAQEAAgAAAA==".into(), "b5ee9c7201010101000200".into(), "é".into(), "te6ccgEBAQEAAgAAAA==\n".into()];
        let h = hx(&bags[0].0);
        for i in 0..h.len() { let mut s = h.clone(); s.replace_range(i..i + 1, "g"); v.push(s); let mut s = h.clone(); s.replace_range(i..i + 1, "é"); v.push(s) }
        v.push(h.to_uppercase());
        v.push(h);
        v
    };
    r.section("texts", texts.len() as u64, |i, l| {
        let s = &texts[i as usize];
        let a = np("panic-hex", || s.clone(), || Boc::decode_hex(s))?;
        let want = hex::decode(s).ok().and_then(|d| boc::decode(&d, DecOpt { min: 1, max: 1 }));
        ck!(a.is_ok() == want.is_some(), "hex", "{s:?}");
        let a = np("panic-b64", || s.clone(), || Boc::decode_base64(s))?;
        use base64::Engine;
        let want = base64::engine::general_purpose::STANDARD.decode(s).ok().and_then(|d| boc::decode(&d, DecOpt { min: 1, max: 1 }));
        ck!(a.is_ok() == want.is_some(), "base64", "{s:?}");
        l.st(1);
        l.tr(2);
        Ok(())
    });
    // I: ProcessedCells and root bounds
    r.section("processed", bags.len() as u64, |i, l| {
        let d = &bags[i as usize].0;
        let h = de::BocHeader::decode(d, &de::Options::default()).map_err(|e| V { key: "processed".into(), detail: format!("{e:?}") })?;
        let n = h.cells().len() as u32;
        let c = h.finalize(Cell::empty_context()).map_err(|e| V { key: "processed".into(), detail: format!("{e:?}") })?;
        for k in (0..n + 3).chain([u32::MAX - 1, u32::MAX]) {
            let g = np("panic-get", || format!("get({k}) of {n}"), || c.get(k))?;
            ckeq!(g.is_some(), k < n, "processed", "get({k}) of {n}");
            l.tr(1);
        }
        l.st(1);
        Ok(())
    });
}
