//! Reference model of Merkle proofs: pruning by a filter, computed per cell and Merkle depth.
use super::cells::*;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act { Skip, Include, Subtree }

/// The cell stored in the proof of `root` (`Err` when the result is not a valid cell), and the pruned cells.
pub fn prove(root: &MC, act: &dyn Fn(&H) -> Act, prune_big: bool) -> Result<(MC, Vec<H>), &'static str> {
    fn is_merkle(m: &M) -> u32 { matches!(m.kind, K::Proof | K::Update) as u32 }
    fn node(m: &MC, md: u32, act: &dyn Fn(&H) -> Act, big: bool, memo: &mut HashMap<(H, u32), MC>, pr: &mut Vec<H>) -> Result<MC, &'static str> {
        if let Some(x) = memo.get(&(*m.repr(), md)) { return Ok(x.clone()) }
        let cd = md + is_merkle(m);
        let mut refs = vec![];
        for r in &m.refs {
            refs.push(match act(r.repr()) {
                Act::Subtree => r.clone(),
                Act::Skip if !r.refs.is_empty() || big && r.bits.len() > 288 => { if !pr.contains(r.repr()) { pr.push(*r.repr()) } prune(r, cd)? }
                _ => node(r, cd, act, big, memo, pr)?,
            });
        }
        let same = refs.iter().zip(&m.refs).all(|(a, b)| Arc::ptr_eq(a, b));
        let x = if same { m.clone() } else { mk(m.exotic(), m.bits.clone(), refs)? };
        memo.insert((*m.repr(), md), x.clone());
        Ok(x)
    }
    if act(root.repr()) == Act::Subtree { return Ok((root.clone(), vec![])) }
    let mut pr = vec![];
    let c = node(root, 0, act, prune_big, &mut HashMap::new(), &mut pr)?;
    Ok((c, pr))
}

/// Old cells kept readable in the old side of an update: those from which a cell referenced by the new side is
/// reached through used cells (all cells of an included subtree are used).
pub fn kept(old: &MC, act: &dyn Fn(&H) -> Act, reused: &[H]) -> Vec<H> {
    fn go(m: &MC, whole: bool, act: &dyn Fn(&H) -> Act, reused: &[H], memo: &mut HashMap<(H, bool), bool>, out: &mut Vec<H>) -> bool {
        if let Some(x) = memo.get(&(*m.repr(), whole)) { return *x }
        let a = if whole { Act::Subtree } else { act(m.repr()) };
        let mut below = false;
        if a != Act::Skip { for r in &m.refs { below |= go(r, a == Act::Subtree, act, reused, memo, out) } }
        if below && !out.contains(m.repr()) { out.push(*m.repr()) }
        let x = below || reused.contains(m.repr());
        memo.insert((*m.repr(), whole), x);
        x
    }
    let mut out = vec![];
    if go(old, false, act, reused, &mut HashMap::new(), &mut out) && !out.contains(old.repr()) { out.push(*old.repr()) }
    out
}
