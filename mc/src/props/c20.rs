//! C20: variable-length and narrow integers against exact integer arithmetic.
use crate::fw::*;
use crate::model::bits::*;
use crate::*;
use num_bigint::BigUint;
use std::str::FromStr;
use tycho_types::cell::*;
use tycho_types::dict::*;
use tycho_types::error::*;
use tycho_types::num::*;

pub const META: Meta = Meta {
    id: "C20",
    level: "model_checking",
    rule: "a state is an integer of the type's primitive (all of them for the 9, 12, 15 and 24 bit types and the split depth, a boundary lattice around every power of two and byte boundary for the wider ones, in and out of range) or a pair of them; a transition is one store, load, arithmetic, comparison, conversion, text or serde operation compared with exact arithmetic; loads run over every length prefix, truncation and builder room; non-trivial: the result is not in range or the operands are at a boundary",
    assumptions: &["plain +, -, * operators are those of the primitive and are checked only where the exact result is in range"],
    run,
};

/// boundary lattice of a `w`-bit primitive
pub fn lattice(w: u32, dense: bool) -> Vec<u128> {
    let top = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
    let mut v = vec![0, 1, 2, 3, 5, 7, 10, 255, 256, 257, top, top - 1, top / 2, top / 3, 0x0123456789abcdef0123456789abcdef & top, 1_000_000_007 & top];
    for k in 0..w {
        if !dense && k % 8 > 1 && k % 8 != 7 { continue }
        let p = 1u128 << k;
        v.extend([p, p - 1, p + 1, p.wrapping_add(p >> 1) & top]);
    }
    v.retain(|x| *x <= top);
    v.sort();
    v.dedup();
    v
}

fn enc_var(v: u128, len_bits: usize) -> B {
    let bytes = (128 - v.leading_zeros()).div_ceil(8) as usize;
    let mut b = uint(bytes as u128, len_bits);
    b.extend(uint(v, bytes * 8));
    b
}
fn bigu(v: u128) -> BigUint { BigUint::from(v) }

macro_rules! pair_ops {
    ($t:ident, $p:ty, $a:expr, $b:expr, $l:expr) => {{
        let (a, b): ($p, $p) = ($a, $b);
        let (x, y) = ($t::new(a), $t::new(b));
        let max = $t::MAX.into_inner();
        let c = || format!("{} {a} {b}", stringify!($t));
        let fit = |v: Option<$p>| v.filter(|v| *v <= max);
        // exact results (primitive overflow means out of range as the primitive is wider)
        let add = fit(a.checked_add(b));
        let mul = fit(a.checked_mul(b));
        let sub = a.checked_sub(b);
        let div = a.checked_div(b);
        ckeq!(x.checked_add(y).map(|v| v.into_inner()), add, "checked_add", "{}", c());
        ckeq!(x.checked_mul(y).map(|v| v.into_inner()), mul, "checked_mul", "{}", c());
        ckeq!(x.checked_sub(y).map(|v| v.into_inner()), sub, "checked_sub", "{}", c());
        ckeq!(x.checked_div(y).map(|v| v.into_inner()), div, "checked_div", "{}", c());
        ckeq!(x.saturating_add(y).into_inner(), add.unwrap_or(max), "saturating_add", "{}", c());
        ckeq!(x.saturating_mul(y).into_inner(), mul.unwrap_or(max), "saturating_mul", "{}", c());
        ckeq!(x.saturating_sub(y).into_inner(), sub.unwrap_or(0), "saturating_sub", "{}", c());
        ckeq!((x.cmp(&y), x == y, x < y), (a.cmp(&b), a == b, a < b), "cmp", "{}", c());
        if let Some(r) = add { ckeq!(((x + y).into_inner(), (x + b).into_inner()), (r, r), "add", "{}", c()); let mut z = x; z += y; let mut w = x; w += b; ckeq!((z, w), ($t::new(r), $t::new(r)), "add_assign", "{}", c()); } else { $l.nt() }
        if let Some(r) = mul { ckeq!(((x * y).into_inner(), (x * b).into_inner()), (r, r), "mul", "{}", c()); let mut z = x; z *= y; let mut w = x; w *= b; ckeq!((z, w), ($t::new(r), $t::new(r)), "mul_assign", "{}", c()); }
        if let Some(r) = sub { ckeq!(((x - y).into_inner(), (x - b).into_inner()), (r, r), "sub", "{}", c()); let mut z = x; z -= y; let mut w = x; w -= b; ckeq!((z, w), ($t::new(r), $t::new(r)), "sub_assign", "{}", c()); } else { $l.nt() }
        if let Some(r) = div { ckeq!(((x / y).into_inner(), (x / b).into_inner()), (r, r), "div", "{}", c()); let mut z = x; z /= y; let mut w = x; w /= b; ckeq!((z, w), ($t::new(r), $t::new(r)), "div_assign", "{}", c()); }
        $l.evn(16);
        (x, y, add, sub, mul, div)
    }};
}
macro_rules! assign_ops {
    ($t:ident, $r:expr, $a:expr, $b:expr) => {{
        let (x, y, add, sub, mul, div) = $r;
        for (k, want, f) in [("try_add", add, $t::try_add_assign as fn(&mut $t, $t) -> Result<(), Error>), ("try_sub", sub, $t::try_sub_assign), ("try_mul", mul, $t::try_mul_assign), ("try_div", div, $t::try_div_assign)] {
            let mut z = x;
            let r = f(&mut z, y);
            match want {
                Some(w) => ck!(r == Ok(()) && z.into_inner() == w, k, "{} {} {}: {r:?} {z:?} want {w}", stringify!($t), $a, $b),
                None => ck!(r == Err(Error::IntOverflow) && z == x, k, "{} {} {}: {r:?} {z:?}", stringify!($t), $a, $b),
            }
        }
    }};
}
macro_rules! shifts_text {
    ($t:ident, $p:ty, $a:expr, $l:expr) => {{
        let a: $p = $a;
        let x = $t::new(a);
        let max = $t::MAX.into_inner();
        let valid = a <= max;
        let c = || format!("{} {a}", stringify!($t));
        if !valid { $l.nt() }
        ckeq!((x.is_valid(), x.is_zero(), x.into_inner()), (valid, a == 0, a), "predicates", "{}", c());
        ckeq!(<$p>::from(x), a, "into", "{}", c());
        ck!(x == a && a == x && !(x == a.wrapping_add(1)), "eq-inner", "{}", c());
        ckeq!($t::try_from(a).ok().map(|v| v.into_inner()), valid.then_some(a), "try_from", "{}", c());
        ckeq!(x.to_string(), a.to_string(), "display", "{}", c());
        ckeq!((format!("{x:x}"), format!("{x:#X}"), format!("{x:b}"), format!("{x:>40}")), (format!("{a:x}"), format!("{a:#X}"), format!("{a:b}"), format!("{a:>40}")), "radix", "{}", c());
        ckeq!(num_bigint::BigUint::from(x), bigu(a as u128), "biguint", "{}", c());
        ckeq!(num_bigint::BigInt::from(x), num_bigint::BigInt::from(a), "bigint", "{}", c());
        let s = a.to_string();
        match ($t::from_str(&s), valid) {
            (Ok(v), true) => ckeq!(v.into_inner(), a, "from_str", "{}", c()),
            (Err(ParseIntError::Overflow), false) => {}
            (r, _) => bad!("from_str", "{r:?} {}", c()),
        }
        if valid {
            for k in [0u8, 1, 3, 7, 8] { ckeq!((x >> k).into_inner(), a >> k, "shr", "{} {k}", c()); let mut z = x; z >>= k; ckeq!(z, x >> k, "shr_assign", "{}", c()); }
            for k in [0u8, 1, 3, 7, 8] { if a.leading_zeros() >= k as u32 && (a << k) <= max { ckeq!((x << k).into_inner(), a << k, "shl", "{} {k}", c()); let mut z = x; z <<= k; ckeq!(z, x << k, "shl_assign", "{}", c()); } }
        }
        let j = serde_json::to_string(&x).unwrap();
        match (serde_json::from_str::<$t>(&j), valid) {
            (Ok(v), true) => ckeq!(v, x, "serde", "{}", c()),
            (Err(_), false) => {}
            (r, _) => bad!("serde", "{r:?} {j} {}", c()),
        }
        $l.evn(10);
    }};
}
macro_rules! var_type {
    ($r:expr, $t:ident, $p:ty, $bytes:expr, $lb:expr, $vals:expr, $pairs:expr) => {{
        let r: &Run = $r;
        let vals: Vec<u128> = $vals;
        let name = stringify!($t);
        assert_eq!($t::MAX.into_inner() as u128, (1u128 << ($bytes * 8)) - 1);
        r.section(&format!("{name}-consts"), 1, |_, _l| {
            ckeq!(($t::LEN_BITS, $t::MAX_BITS), ($lb, $lb + $bytes * 8), "consts", "{name}");
            ckeq!(($t::ZERO.into_inner(), $t::ONE.into_inner(), $t::MIN.into_inner()), (0, 1, 0), "consts", "{name}");
            Ok(())
        });
        let chunk = 4096usize;
        r.section(&format!("{name}-store"), vals.len().div_ceil(chunk) as u64, |i, l| {
            let ctx = Cell::empty_context();
            for &a in &vals[i as usize * chunk..((i as usize + 1) * chunk).min(vals.len())] {
                l.st(1);
                l.tr(3);
                let x = $t::new(a as $p);
                let c = || format!("{name} {a}");
                let valid = a <= $t::MAX.into_inner() as u128;
                let want = enc_var(a, $lb);
                let mut b = CellBuilder::new();
                let res = x.store_into(&mut b, ctx);
                if valid {
                    ck!(res.is_ok(), "store", "{res:?} {}", c());
                    ckeq!(x.bit_len().map(|n| n as usize), Some(want.len()), "bit-len", "{}", c());
                    ckeq!(x.unwrap_bit_len() as usize, want.len(), "unwrap-bit-len", "{}", c());
                    ckeq!((x.exact_size().bits as usize, x.exact_size().refs), (want.len(), 0), "exact-size", "{}", c());
                    let s = b.as_data_slice();
                    ckeq!(slice_bits(&s), want, "encoding", "{}", c());
                    let mut s2 = s;
                    ckeq!($t::load_from(&mut s2).ok(), Some(x), "load", "{}", c());
                    ck!(s2.is_data_empty(), "load-rest", "{}", c());
                } else {
                    ck!(res.is_err() && b.size_bits() == 0, "store-out-of-range", "{res:?} bits={} {}", b.size_bits(), c());
                    ckeq!(x.bit_len(), None, "bit-len-out-of-range", "{}", c());
                }
                shifts_text!($t, $p, a as $p, l);
            }
            Ok(())
        });
        // every length prefix, every content boundary, every truncation, every room left in the builder
        r.section(&format!("{name}-load"), 1u64 << $lb, |n, l| {
            let n = n as usize;
            for fill in 0..6u64 {
                let mut body = match fill { 0 => vec![0; n * 8], 1 => vec![1; n * 8], f => pattern(f, n * 8) };
                if fill == 5 && n > 0 { for x in body.iter_mut().take(8) { *x = 0 } }
                let mut bits = uint(n as u128, $lb);
                bits.extend(&body);
                for cut in 0..=bits.len() {
                    for tail in [0usize, 1, 9] {
                        if cut < bits.len() && tail > 0 { continue }
                        l.tr(1); l.ev();
                        let mut full = bits[..cut].to_vec();
                        full.extend(vec![1; tail]);
                        let cell = cell_of(&full);
                        let mut s = cell.as_slice().unwrap();
                        let got = $t::load_from(&mut s);
                        if cut < bits.len() { l.nt(); ck!(got.is_err(), "truncated-accepted", "{name} len={n} cut={cut} {got:?}"); }
                        else { ckeq!(got.ok().map(|v| v.into_inner() as u128), Some(to_u128(&body)), "load", "{name} len={n} fill={fill}"); ckeq!(s.size_bits() as usize, tail, "load-rest", "{name} len={n}"); }
                    }
                }
                let v = to_u128(&body);
                let want = enc_var(v, $lb);
                for room in 0..want.len() + 3 {
                    l.tr(1); l.ev();
                    let pre = pattern(3, 1023 - room);
                    let mut b = builder_of(&pre);
                    let x = $t::new(v as $p);
                    let ok = x.store_into(&mut b, Cell::empty_context()).is_ok();
                    ckeq!(ok, room >= want.len(), "room", "{name} {v} room={room}");
                    let mut w = pre; if ok { w.extend(&want) } else { l.nt() }
                    ckeq!(slice_bits(&b.as_data_slice()), w, "store-atomic", "{name} {v} room={room}");
                }
            }
            Ok(())
        });
        let pairs: Vec<u128> = { let mut v: Vec<u128> = $pairs; v.retain(|x| *x <= $t::MAX.into_inner() as u128); v };
        r.section(&format!("{name}-pairs"), pairs.len() as u64, |i, l| {
            let a = pairs[i as usize] as $p;
            l.st(pairs.len() as u64);
            for &b in &pairs {
                l.tr(1);
                let x = pair_ops!($t, $p, a, b as $p, l);
                assign_ops!($t, x, a, b);
            }
            Ok(())
        });
    }};
}
macro_rules! small_type {
    ($r:expr, $t:ident, $bits:expr, $pairs:expr) => {{
        let r: &Run = $r;
        let name = stringify!($t);
        r.section(&format!("{name}-all"), 256, |hi, l| {
            for lo in 0..256u64 {
                let a = (hi << 8 | lo) as u16;
                l.st(1); l.tr(4);
                let x = $t::new(a);
                let valid = (a as u32) < 1 << $bits;
                let c = || format!("{name} {a}");
                ckeq!(($t::MAX.into_inner() as u32, $t::BITS, $t::ZERO.into_inner(), $t::ONE.into_inner(), $t::MIN.into_inner()), ((1 << $bits) - 1, $bits, 0, 1, 0), "consts", "{name}");
                shifts_text!($t, u16, a, l);
                let mut b = CellBuilder::new();
                let res = x.store_into(&mut b, Cell::empty_context());
                let mut d = CellDataBuilder::new();
                let dres = x.store_into_data(&mut d);
                ckeq!((x.exact_size().bits, x.exact_size().refs), ($bits, 0), "exact-size", "{}", c());
                if valid {
                    ck!(res.is_ok() && dres.is_ok(), "store", "{}", c());
                    let w = uint(a as u128, $bits);
                    ckeq!(slice_bits(&b.as_data_slice()), w, "encoding", "{}", c());
                    ckeq!(slice_bits(&d.as_data_slice()), w, "key-encoding", "{}", c());
                    ckeq!($t::load_from_data(&d), Some(x), "key-load", "{}", c());
                    let mut s = b.as_data_slice();
                    ckeq!($t::load_from(&mut s).ok(), Some(x), "load", "{}", c());
                    ck!(s.is_data_empty(), "load-rest", "{}", c());
                } else {
                    ck!(res.is_err() && dres.is_err() && b.size_bits() == 0 && d.size_bits() == 0, "store-out-of-range", "{}", c());
                }
            }
            Ok(())
        });
        r.section(&format!("{name}-load-short"), $bits as u64, |n, l| {
            let n = n as usize;
            l.ev(); l.tr(1); l.nt();
            let cell = cell_of(&vec![1; n]);
            ck!($t::load_from(&mut cell.as_slice().unwrap()).is_err(), "truncated-accepted", "{name} {n}");
            let mut b = builder_of(&vec![0; 1023 - n]);
            ck!($t::MAX.store_into(&mut b, Cell::empty_context()).is_err() && b.size_bits() as usize == 1023 - n, "store-atomic", "{name} {n}");
            Ok(())
        });
        let pairs: Vec<u16> = $pairs;
        r.section(&format!("{name}-pairs"), pairs.len() as u64, |i, l| {
            l.st(pairs.len() as u64);
            for &b in &pairs { l.tr(1); let _ = pair_ops!($t, u16, pairs[i as usize], b, l); }
            Ok(())
        });
    }};
}

fn run(r: &Run) {
    let q = r.quick();
    let v24: Vec<u128> = if q { let mut v: Vec<u128> = (0..1u128 << 24).step_by(97).chain(0..70000).collect(); v.extend(lattice(32, true)); v.sort(); v.dedup(); v } else { (0..(1u128 << 24) + 70000).chain(lattice(32, true)).collect() };
    var_type!(r, VarUint24, u32, 3, 2, v24.clone(), lattice(32, true));
    var_type!(r, VarUint56, u64, 7, 3, lattice(64, true), lattice(64, true));
    var_type!(r, Tokens, u128, 15, 4, lattice(128, true), lattice(128, true));
    small_type!(r, Uint9, 9, (0..512).collect());
    small_type!(r, Uint12, 12, if q { lattice(12, true).iter().map(|x| *x as u16).chain((0..4096).step_by(13)).collect() } else { (0..4096).collect() });
    small_type!(r, Uint15, 15, { let mut v: Vec<u16> = lattice(15, true).iter().map(|x| *x as u16).chain((0..32768u32).step_by(if q { 61 } else { 7 }).map(|x| x as u16)).collect(); v.sort(); v.dedup(); v });

    // texts which are not numbers of the type
    let texts = ["", " ", "+", "-", "-0", "-1", "+1", "1 ", " 1", "1a", "0x1", "1_0", "１", "00000000000000000000000000000000000000000000000000000007", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "1329227995784915872903807060280344575", "1329227995784915872903807060280344576", "16777215", "16777216", "72057594037927935", "72057594037927936", "511", "512", "4095", "4096", "32767", "32768", "65536", "1e3", "1.0"];
    r.section("texts", texts.len() as u64, |i, l| {
        let t = texts[i as usize];
        // the grammar of unsigned numbers: an optional plus and decimal digits
        let d = t.strip_prefix('+').unwrap_or(t);
        let v: Option<BigUint> = (!d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())).then(|| BigUint::from_str(d).unwrap());
        macro_rules! go { ($($t:ident),*) => { $(
            l.tr(1); l.ev();
            let want = v.clone().filter(|v| *v <= bigu($t::MAX.into_inner() as u128));
            if want.is_none() { l.nt() }
            let got = np("panic", || t.to_string(), || $t::from_str(t))?;
            ckeq!(got.ok().map(|x| bigu(x.into_inner() as u128)), want, "text", "{} {t:?}", stringify!($t));
        )* } }
        go!(VarUint24, VarUint56, Tokens, Uint9, Uint12, Uint15);
        // JSON of tokens is a string
        let want = v.clone().filter(|v| *v <= bigu(Tokens::MAX.into_inner()));
        ckeq!(serde_json::from_value::<Tokens>(serde_json::Value::String(t.into())).ok().map(|x| bigu(x.into_inner())), want, "json", "{t:?}");
        Ok(())
    });
    r.section("split-depth", 256, |v, l| {
        let v = v as u8;
        l.st(1); l.tr(4); l.evn(4);
        let valid = (1..=30).contains(&v);
        if !valid { l.nt() }
        for (k, x) in [("new", SplitDepth::new(v)), ("bit-len", SplitDepth::from_bit_len(v as u16))] {
            ckeq!(x.ok().map(|x| x.into_bit_len()), valid.then_some(v as u16), "split-depth/range", "{k} {v}");
        }
        ckeq!(SplitDepth::from_bit_len(256 + v as u16).ok(), None, "split-depth/range", "256+{v}");
        ckeq!(serde_json::from_str::<SplitDepth>(&v.to_string()).ok().map(|x| x.into_bit_len()), valid.then_some(v as u16), "split-depth/range", "json {v}");
        if let Ok(x) = SplitDepth::new(v) { if valid {
            let c = CellBuilder::build_from(x).unwrap();
            ckeq!(cell_bits(c.as_ref()), uint(v as u128, 5), "split-depth/encoding", "{v}");
            ckeq!((x.exact_size().bits, x.exact_size().refs), (5, 0), "split-depth/size", "{v}");
            ckeq!(serde_json::to_string(&x).unwrap(), v.to_string(), "split-depth/json", "{v}");
        } }
        if v < 32 {
            let c = cell_of(&uint(v as u128, 5));
            ckeq!(c.parse::<SplitDepth>().ok().map(|x| x.into_bit_len()), valid.then_some(v as u16), "split-depth/range", "load {v}");
        }
        Ok(())
    });
}
