//! Reference model of cells: naive recursive computation of types, level masks, hashes and depths.
use super::bits::*;
use sha2::{Digest, Sha256};
use std::sync::Arc;
use tycho_types::cell::*;

pub type H = [u8; 32];
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K { Ord, Pruned, Lib, Proof, Update }

#[derive(Debug)]
pub struct M {
    pub kind: K,
    pub bits: B,
    pub refs: Vec<Arc<M>>,
    pub mask: u8,
    /// hash and depth for each level 0..=3
    pub hashes: [H; 4],
    pub depths: [u32; 4],
}
pub type MC = Arc<M>;

pub fn level_of(mask: u8) -> u32 { mask.count_ones() }
/// Index of the significant hash for `level`.
pub fn hidx(mask: u8, level: u32) -> u32 { (mask & ((1u8 << level.min(3)) - 1)).count_ones() }

fn be16(b: &[u8]) -> u32 { to_u128(b) as u32 }

/// `Err` when the parts do not form a valid cell.
pub fn mk(exotic: bool, bits: B, refs: Vec<MC>) -> Result<MC, &'static str> {
    if bits.len() > 1023 { return Err("bits") }
    if refs.len() > 4 { return Err("refs") }
    let cm = refs.iter().fold(0u8, |a, r| a | r.mask);
    let (kind, mask) = if !exotic { (K::Ord, cm) } else {
        if bits.len() < 8 { return Err("short exotic") }
        match to_u128(&bits[..8]) {
            1 => {
                if bits.len() < 16 || !refs.is_empty() { return Err("pruned") }
                let m = to_u128(&bits[8..16]) as u32;
                if m == 0 || m > 7 { return Err("pruned mask") }
                if bits.len() != 16 + 272 * level_of(m as u8) as usize { return Err("pruned len") }
                (K::Pruned, m as u8)
            }
            2 => { if bits.len() != 8 + 256 || !refs.is_empty() { return Err("lib") } (K::Lib, 0) }
            3 => { if bits.len() != 8 + 272 || refs.len() != 1 { return Err("proof") } (K::Proof, cm >> 1) }
            4 => { if bits.len() != 8 + 544 || refs.len() != 2 { return Err("update") } (K::Update, cm >> 1) }
            _ => return Err("unknown exotic"),
        }
    };
    let off = matches!(kind, K::Proof | K::Update) as u32;
    let mut hashes = [[0u8; 32]; 4];
    let mut depths = [0u32; 4];
    if kind == K::Pruned {
        let n = level_of(mask) as usize;
        let mut h = Sha256::new();
        h.update([8 + (mask << 5), d2(bits.len())]);
        h.update(pack_tagged(&bits));
        let repr: H = h.finalize().into();
        for l in 0..4u32 {
            let i = hidx(mask, l) as usize;
            if i == n { hashes[l as usize] = repr; depths[l as usize] = 0 } else {
                hashes[l as usize].copy_from_slice(&pack(&bits[16 + i * 256..16 + (i + 1) * 256]));
                let s = 16 + n * 256 + i * 16;
                depths[l as usize] = be16(&bits[s..s + 16]);
            }
        }
    } else {
        for l in 0..4u32 {
            if l > 0 && mask & (1 << (l - 1)) == 0 {
                hashes[l as usize] = hashes[l as usize - 1];
                depths[l as usize] = depths[l as usize - 1];
                continue;
            }
            let lm = ((1u32 << l) - 1) as u8;
            let mut h = Sha256::new();
            h.update([refs.len() as u8 + 8 * (exotic as u8) + (lm << 5), d2(bits.len())]);
            if l == 0 { h.update(pack_tagged(&bits)) } else { h.update(hashes[l as usize - 1]) }
            let mut depth = 0;
            for r in &refs {
                let cl = (l + off).min(3) as usize;
                let d = r.depths[cl];
                h.update([(d >> 8) as u8, d as u8]);
                depth = depth.max(d + 1);
            }
            if depth > 65535 { return Err("depth") }
            for r in &refs { h.update(r.hashes[(l + off).min(3) as usize]) }
            hashes[l as usize] = h.finalize().into();
            depths[l as usize] = depth;
        }
    }
    Ok(Arc::new(M { kind, bits, refs, mask, hashes, depths }))
}
pub fn d2(n: usize) -> u8 { (n / 8 + n.div_ceil(8)) as u8 }

impl M {
    pub fn exotic(&self) -> bool { self.kind != K::Ord }
    pub fn repr(&self) -> &H { &self.hashes[3] }
    pub fn depth(&self) -> u32 { self.depths[3] }
    pub fn level(&self) -> u32 { level_of(self.mask) }
}

pub fn ord(bits: B, refs: Vec<MC>) -> MC { mk(false, bits, refs).unwrap() }
pub fn pruned_raw(mask: u8, hs: &[(H, u16)]) -> MC { try_pruned_raw(mask, hs).unwrap() }
pub fn try_pruned_raw(mask: u8, hs: &[(H, u16)]) -> Result<MC, &'static str> {
    let mut b = uint(1, 8);
    b.extend(uint(mask as u128, 8));
    for (h, _) in hs { b.extend(from_bytes(h, 256)) }
    for (_, d) in hs { b.extend(uint(*d as u128, 16)) }
    mk(true, b, vec![])
}
/// Pruned branch standing for `c`, pruned under `depth` (0-based) Merkle cells.
pub fn prune(c: &MC, depth: u32) -> Result<MC, &'static str> {
    if depth > 2 { return Err("level over 3") }
    let mask = c.mask | (1 << depth);
    let mut hs = vec![];
    // significant levels of c: 0 and each set bit below
    for l in 0..=3u32 {
        if l == 0 || c.mask & (1 << (l - 1)) != 0 { hs.push((c.hashes[l as usize], c.depths[l as usize] as u16)) }
    }
    hs.truncate(level_of(mask) as usize);
    try_pruned_raw(mask, &hs)
}
pub fn lib(h: &H) -> MC { let mut b = uint(2, 8); b.extend(from_bytes(h, 256)); mk(true, b, vec![]).unwrap() }
pub fn proof_bits(c: &MC) -> B {
    let mut b = uint(3, 8);
    b.extend(from_bytes(&c.hashes[0], 256));
    b.extend(uint(c.depths[0] as u128, 16));
    b
}
pub fn proof(c: &MC) -> MC { mk(true, proof_bits(c), vec![c.clone()]).unwrap() }
pub fn update_bits(a: &MC, c: &MC) -> B {
    let mut b = uint(4, 8);
    b.extend(from_bytes(&a.hashes[0], 256));
    b.extend(from_bytes(&c.hashes[0], 256));
    b.extend(uint(a.depths[0] as u128, 16));
    b.extend(uint(c.depths[0] as u128, 16));
    b
}
pub fn update(a: &MC, c: &MC) -> MC { mk(true, update_bits(a, c), vec![a.clone(), c.clone()]).unwrap() }

/// Tries to build the real cell from parts.
pub fn try_real(exotic: bool, bits: &[u8], refs: &[Cell]) -> Result<Cell, tycho_types::error::Error> {
    let mut b = CellBuilder::new();
    b.set_exotic(exotic);
    b.store_raw(&pack(bits), bits.len() as u16)?;
    for r in refs { b.store_reference(r.clone())? }
    b.build()
}
/// Builds the real cell DAG (shared model nodes become shared cells).
pub fn real(m: &MC) -> Cell {
    fn go(m: &MC, memo: &mut std::collections::HashMap<*const M, Cell>) -> Cell {
        if let Some(c) = memo.get(&Arc::as_ptr(m)) { return c.clone() }
        let refs: Vec<Cell> = m.refs.iter().map(|r| go(r, memo)).collect();
        let c = try_real(m.exotic(), &m.bits, &refs).expect("model cell must be buildable");
        memo.insert(Arc::as_ptr(m), c.clone());
        c
    }
    go(m, &mut Default::default())
}

pub fn kind_of(t: CellType) -> K {
    match t { CellType::Ordinary => K::Ord, CellType::PrunedBranch => K::Pruned, CellType::LibraryReference => K::Lib,
        CellType::MerkleProof => K::Proof, CellType::MerkleUpdate => K::Update }
}

/// Re-reads a real cell tree into the model (recomputing everything); `None` when invalid.
pub fn abstract_cell(c: &DynCell) -> Option<MC> {
    let mut memo = std::collections::HashMap::new();
    fn go(c: &DynCell, memo: &mut std::collections::HashMap<H, MC>) -> Option<MC> {
        if let Some(m) = memo.get(c.repr_hash().as_array()) { return Some(m.clone()) }
        let refs: Option<Vec<MC>> = c.references().map(|r| go(r, memo)).collect();
        let m = mk(c.is_exotic(), cell_bits(c), refs?).ok()?;
        memo.insert(*c.repr_hash().as_array(), m.clone());
        Some(m)
    }
    go(c, &mut memo)
}

/// Compares everything observable on a real cell with the model, recursively.
pub fn check_same(c: &DynCell, m: &MC) -> Result<(), String> {
    fn go(c: &DynCell, m: &MC, path: &mut Vec<u8>, seen: &mut std::collections::HashSet<*const M>) -> Result<(), String> {
        let e = |w: String| -> Result<(), String> { Err(format!("at path {path:?}: {w}")) };
        if c.bit_len() as usize != m.bits.len() { return e(format!("bit_len {} != {}", c.bit_len(), m.bits.len())) }
        if c.data() != pack_tagged(&m.bits) { return e(format!("data {} != {}", crate::fw::hx(c.data()), crate::fw::hx(&pack_tagged(&m.bits)))) }
        if kind_of(c.cell_type()) != m.kind { return e(format!("type {:?} != {:?}", c.cell_type(), m.kind)) }
        if c.is_exotic() != m.exotic() { return e("exotic flag".into()) }
        if c.reference_count() as usize != m.refs.len() { return e(format!("refs {} != {}", c.reference_count(), m.refs.len())) }
        let d = c.descriptor();
        if d.level_mask().to_byte() != m.mask || c.level_mask().to_byte() != m.mask { return e(format!("mask {:?} != {:03b}", d.level_mask(), m.mask)) }
        if c.level() as u32 != m.level() { return e("level".into()) }
        if d.d2 != d2(m.bits.len()) || d.byte_len() as usize != m.bits.len().div_ceil(8) || d.is_aligned() != (m.bits.len() % 8 == 0) { return e(format!("d2 {}", d.d2)) }
        if d.d1 & !0x10 != m.refs.len() as u8 + 8 * (m.exotic() as u8) + (m.mask << 5) { return e(format!("d1 {:x}", d.d1)) }
        for l in 0..4usize {
            if c.hash(l as u8).as_array() != &m.hashes[l] { return e(format!("hash({l}) {} != {}", c.hash(l as u8), crate::fw::hx(&m.hashes[l]))) }
            if c.depth(l as u8) as u32 != m.depths[l] { return e(format!("depth({l}) {} != {}", c.depth(l as u8), m.depths[l])) }
        }
        if c.repr_hash().as_array() != m.repr() { return e("repr_hash".into()) }
        if c.repr_depth() as u32 != m.depth() { return e("repr_depth".into()) }
        if !seen.insert(Arc::as_ptr(m)) { return Ok(()) }
        for i in 0..4u8 {
            match (c.reference(i), m.refs.get(i as usize)) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    path.push(i);
                    go(x, y, path, seen)?;
                    let xc = c.reference_cloned(i).ok_or("reference_cloned none")?;
                    if xc.repr_hash() != x.repr_hash() { return Err(format!("at path {path:?}: reference_cloned differs")) }
                    path.pop();
                }
                _ => return Err(format!("at path {path:?}: reference({i}) presence")),
            }
        }
        if c.reference(4).is_some() || c.reference(255).is_some() || c.reference_cloned(4).is_some() { return Err(format!("at path {path:?}: reference beyond")) }
        Ok(())
    }
    go(c, m, &mut vec![], &mut Default::default())
}
