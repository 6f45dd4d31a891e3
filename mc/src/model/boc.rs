//! Reference bag-of-cells writer and reader.
use super::bits::*;
use super::cells::*;
use std::collections::HashMap;
use std::sync::Arc;

pub fn crc32c_ref(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in data {
        c ^= b as u32;
        for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ 0x82F63B78 } else { c >> 1 } }
    }
    !c
}
pub fn be(v: u64, n: usize) -> Vec<u8> { v.to_be_bytes()[8 - n..].to_vec() }
pub fn nbytes(v: u64) -> usize { let mut n = 1; while n < 8 && v >> (8 * n) != 0 { n += 1 } n }

/// Canonical order: depth-first post-order over the roots, reversed. Returns (cells in file order, root indices).
pub fn order(roots: &[MC]) -> (Vec<MC>, Vec<usize>) {
    let mut post: Vec<MC> = vec![];
    let mut ix: HashMap<H, usize> = HashMap::new();
    for r in roots {
        let mut st: Vec<(MC, usize)> = vec![];
        if !ix.contains_key(r.repr()) { st.push((r.clone(), 0)) }
        while let Some((m, k)) = st.last_mut() {
            if *k < m.refs.len() {
                let c = m.refs[*k].clone();
                *k += 1;
                if !ix.contains_key(c.repr()) { st.push((c, 0)) }
            } else {
                let m = st.pop().unwrap().0;
                if !ix.contains_key(m.repr()) { ix.insert(*m.repr(), post.len()); post.push(m) }
            }
        }
    }
    let n = post.len();
    let ri = roots.iter().map(|r| n - 1 - ix[r.repr()]).collect();
    post.reverse();
    (post, ri)
}

#[derive(Clone, Copy, Default)]
pub struct EncOpt { pub crc: bool, pub index: bool, pub cache_bits: bool, pub ref_size: usize, pub offset_size: usize }

pub fn raw_cell(m: &M, refs: &[u64], ref_size: usize, stored: bool, garbage: u8) -> Vec<u8> {
    let mut o = vec![m.refs.len() as u8 + 8 * m.exotic() as u8 + 16 * stored as u8 + (m.mask << 5), d2(m.bits.len())];
    if stored {
        let lv: Vec<usize> = (0..4).filter(|&l| l == 0 || m.mask & (1 << (l - 1)) != 0).collect();
        for &l in &lv { o.extend(m.hashes[l].iter().map(|x| x ^ garbage)) }
        for &l in &lv { o.extend((m.depths[l] as u16).to_be_bytes().iter().map(|x| x ^ garbage)) }
    }
    o.extend(pack_tagged(&m.bits));
    for &r in refs { o.extend(be(r, ref_size)) }
    o
}

/// `stored(m)` says whether the hashes of the cell are written.
pub fn encode_ext(roots: &[MC], o: EncOpt, stored: &dyn Fn(&M) -> bool, garbage: u8) -> Vec<u8> {
    let (cells, ri) = order(roots);
    let ix: HashMap<H, usize> = cells.iter().enumerate().map(|(i, c)| (*c.repr(), i)).collect();
    let rs = if o.ref_size == 0 { nbytes(cells.len() as u64) } else { o.ref_size };
    let raw: Vec<Vec<u8>> = cells.iter().map(|c| {
        let refs: Vec<u64> = c.refs.iter().map(|r| ix[r.repr()] as u64).collect();
        raw_cell(c, &refs, rs, stored(c), garbage)
    }).collect();
    let total: usize = raw.iter().map(|r| r.len()).sum();
    let os = if o.offset_size == 0 { nbytes(total as u64) } else { o.offset_size };
    let mut out = vec![0xb5, 0xee, 0x9c, 0x72, rs as u8 | (o.crc as u8) << 6 | (o.index as u8) << 7 | (o.cache_bits as u8) << 5, os as u8];
    out.extend(be(cells.len() as u64, rs));
    out.extend(be(roots.len() as u64, rs));
    out.extend(be(0, rs));
    out.extend(be(total as u64, os));
    for r in ri { out.extend(be(r as u64, rs)) }
    if o.index {
        let mut e = 0u64;
        for r in &raw { e += r.len() as u64; out.extend(be(if o.cache_bits { e * 2 } else { e }, os)) }
    }
    for r in raw { out.extend(r) }
    if o.crc { let c = crc32c_ref(&out); out.extend(c.to_le_bytes()) }
    out
}
pub fn encode(roots: &[MC], crc: bool) -> Vec<u8> { encode_ext(roots, EncOpt { crc, ..Default::default() }, &|_| false, 0) }

pub struct Rd<'a> { pub d: &'a [u8], pub p: usize }
impl<'a> Rd<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let e = self.p.checked_add(n)?;
        let r = self.d.get(self.p..e)?;
        self.p = e;
        Some(r)
    }
    pub fn num(&mut self, n: usize) -> Option<u64> { Some(self.take(n)?.iter().fold(0u64, |a, &x| a << 8 | x as u64)) }
}

pub struct Raw { pub exotic: bool, pub mask: u8, pub bits: B, pub refs: Vec<u64> }
/// One serialized cell.
pub fn read_raw(r: &mut Rd, ref_size: usize) -> Option<Raw> {
    let d = r.take(2)?;
    let (d1, d2) = (d[0], d[1]);
    let n = (d1 & 7) as usize;
    if n > 4 { return None }
    let (exotic, stored, mask) = (d1 & 8 != 0, d1 & 16 != 0, d1 >> 5);
    if stored {
        if exotic && n == 0 && mask != 0 { return None }
        r.take(34 * (level_of(mask) as usize + 1))?;
    }
    let len = (d2 as usize).div_ceil(2);
    let data = r.take(len)?;
    let bits = if d2 & 1 == 0 { from_bytes(data, len * 8) } else {
        let last = *data.last().unwrap();
        if last & 0x7f == 0 { return None }
        from_bytes(data, len * 8 - 1 - last.trailing_zeros() as usize)
    };
    let mut refs = vec![];
    for _ in 0..n { refs.push(r.num(ref_size)?) }
    Some(Raw { exotic, mask, bits, refs })
}

#[derive(Clone, Copy)]
pub struct DecOpt { pub min: usize, pub max: usize }

/// `None` unless the bytes are a well-formed bag with an admissible number of roots.
pub fn decode(d: &[u8], o: DecOpt) -> Option<Vec<MC>> {
    let mut r = Rd { d, p: 0 };
    let tag = r.take(4)?;
    let flags = r.num(1)? as u8;
    let (index, crc, cache, rs, multi) = match tag {
        [0xb5, 0xee, 0x9c, 0x72] => (flags & 0x80 != 0, flags & 0x40 != 0, flags & 0x20 != 0, (flags & 7) as usize, true),
        [0x68, 0xff, 0x65, 0xf3] => (true, false, false, flags as usize, false),
        [0xac, 0xc3, 0xa7, 0x28] => (true, true, false, flags as usize, false),
        _ => return None,
    };
    if cache && !index || rs == 0 || rs > 4 { return None }
    let os = r.num(1)? as usize;
    if os == 0 || os > 8 { return None }
    let cells = r.num(rs)?;
    let roots = r.num(rs)?;
    let absent = r.num(rs)?;
    let total = r.num(os)?;
    if roots == 0 || !multi && roots > 1 || roots + absent > cells || absent > 0 { return None }
    if (roots as usize) < o.min || roots as usize > o.max { return None }
    // every cell other than a root is referenced at least once
    if total < cells * (2 + rs as u64) - roots * rs as u64 { return None }
    let ri: Vec<u64> = if multi { let mut v = vec![]; for _ in 0..roots { v.push(r.num(rs)?) } v } else {
        vec![0]
    };
    if ri.iter().any(|&x| x >= cells) { return None }
    if index { r.take((cells as usize).checked_mul(os)?)?; }
    let start = r.p;
    if (d.len() as u64) < (start as u64).checked_add(total)? { return None }
    let mut raw = vec![];
    for _ in 0..cells { raw.push(read_raw(&mut r, rs)?) }
    if (r.p - start) as u64 != total { return None }
    if crc {
        let c = crc32c_ref(&d[..r.p]);
        if r.take(4)? != c.to_le_bytes() { return None }
    }
    let mut built: Vec<Option<MC>> = vec![None; raw.len()];
    for i in (0..raw.len()).rev() {
        let mut refs = vec![];
        for &x in &raw[i].refs {
            if x >= cells || x <= i as u64 { return None }
            refs.push(built[x as usize].clone().unwrap());
        }
        let m = mk(raw[i].exotic, std::mem::take(&mut raw[i].bits), refs).ok()?;
        if m.mask != raw[i].mask { return None }
        built[i] = Some(m);
    }
    Some(ri.iter().map(|&x| built[x as usize].clone().unwrap()).collect())
}
#[allow(dead_code)]
pub fn same(a: &MC, b: &MC) -> bool { Arc::ptr_eq(a, b) || a.repr() == b.repr() }
