//! C21: the 248-bit integer and big integers in cells against exact arithmetic.
use crate::fw::*;
use crate::model::bits::*;
use crate::*;
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Zero};
use std::str::FromStr;
use tycho_types::cell::*;
use tycho_types::num::VarUint248;
use tycho_types::prelude::BigIntExt;

pub const META: Meta = Meta {
    id: "C21",
    level: "model_checking",
    rule: "a state is a pair of 248-bit integers whose 64-bit limbs run over an alphabet of extremes (so that every carry, borrow and quotient correction of the division occurs), or a big integer around every power of two with a field width; a transition is one real operation compared with arbitrary-precision arithmetic; store operations run over builder rooms and must leave the builder unchanged when they fail; texts run over all radixes and digit counts around every boundary; non-trivial: the exact result is out of range",
    assumptions: &["plain operators wrap modulo 2^256, as the documentation says nothing they are checked where the exact result fits 248 bits", "operands of arithmetic are in range (248 bits)"],
    run,
};

fn mk(v: &BigUint) -> VarUint248 {
    let d = v.to_u64_digits();
    let g = |i: usize| *d.get(i).unwrap_or(&0) as u128;
    VarUint248::from_words(g(3) << 64 | g(2), g(1) << 64 | g(0))
}
fn bu(v: VarUint248) -> BigUint { let (h, l) = v.into_words(); (BigUint::from(h) << 128) + BigUint::from(l) }
fn max() -> BigUint { (BigUint::one() << 248u32) - 1u8 }

fn values(limbs: &[u64], top: &[u64]) -> Vec<BigUint> {
    let mut v = vec![];
    for &a in top { for &b in limbs { for &c in limbs { for &d in limbs {
        v.push((BigUint::from(a) << 192u32) + (BigUint::from(b) << 128u32) + (BigUint::from(c) << 64u32) + BigUint::from(d));
    } } } }
    v
}

fn pair(a: &BigUint, b: &BigUint, mx: &BigUint, l: &mut L) -> R {
    let (x, y) = (mk(a), mk(b));
    l.tr(1);
    l.evn(12);
    let fit = |v: BigUint| (v <= *mx).then_some(v);
    let add = fit(a + b);
    let mul = fit(a * b);
    let sub = (a >= b).then(|| a - b);
    if add.is_none() || mul.is_none() || sub.is_none() { l.nt() }
    macro_rules! c { () => { format_args!("a={a:x} b={b:x}") } }
    let add = add.map(|v| mk(&v));
    let mul = mul.map(|v| mk(&v));
    let sub = sub.map(|v| mk(&v));
    let big = VarUint248::MAX;
    ckeq!(x.checked_add(&y), add, "checked_add", "{}", c!());
    // above 248 and below 256 bits: listed finding (pinned by the crate's own test), only when it is the exact product
    let over = { let p = a * b; (p > *mx && p.bits() <= 256).then(|| { let l = &p & ((BigUint::one() << 128u32) - 1u8); VarUint248::from_words((&p >> 128u32).iter_u64_digits().rev().fold(0u128, |x, d| x << 64 | d as u128), l.iter_u64_digits().rev().fold(0u128, |x, d| x << 64 | d as u128)) }) };
    if over.is_some() && x.checked_mul(&y) == over {
        l.fail(V { key: "mul-above-248".into(), detail: format!("checked_mul {} gives a value above 248 bits", c!()) });
    } else {
        ckeq!(x.checked_mul(&y), mul, "checked_mul", "{}", c!());
    }
    ckeq!(x.checked_sub(&y), sub, "checked_sub", "{}", c!());
    ckeq!(x.saturating_add(&y), add.unwrap_or(big), "saturating_add", "{}", c!());
    if over.is_some() && Some(x.saturating_mul(&y)) == over {
        l.fail(V { key: "mul-above-248".into(), detail: format!("saturating_mul {} gives a value above 248 bits", c!()) });
    } else {
        ckeq!(x.saturating_mul(&y), mul.unwrap_or(big), "saturating_mul", "{}", c!());
    }
    ckeq!(x.saturating_sub(&y), sub.unwrap_or(VarUint248::ZERO), "saturating_sub", "{}", c!());
    ckeq!(x.cmp(&y), a.cmp(b), "cmp", "{}", c!());
    if let Some(v) = add { ckeq!((x + y, x + &y), (v, v), "add", "{}", c!()); let mut z = x; z += &y; let mut w = x; w += y; ckeq!((z, w), (v, v), "add_assign", "{}", c!()); }
    if let Some(v) = sub { ckeq!((x - y, x - &y), (v, v), "sub", "{}", c!()); let mut z = x; z -= &y; let mut w = x; w -= y; ckeq!((z, w), (v, v), "sub_assign", "{}", c!()); }
    if let Some(v) = mul { ckeq!((x * y, x * &y), (v, v), "mul", "{}", c!()); let mut z = x; z *= &y; ckeq!(z, v, "mul_assign", "{}", c!()); }
    if !b.is_zero() {
        let (q, m) = (mk(&(a / b)), mk(&(a % b)));
        ckeq!((x / y, x / &y), (q, q), "div", "{}", c!());
        ckeq!((x % y, x % &y), (m, m), "rem", "{}", c!());
        let mut z = x; z /= &y; let mut w = x; w %= &y;
        ckeq!((z, w), (q, m), "div_assign", "{}", c!());
    }
    if y.into_words().0 == 0 {
        let s = y.into_words().1;
        ckeq!((x == s, x.partial_cmp(&s)), (a == b, Some(a.cmp(b))), "cmp-small", "{}", c!());
        if let Some(v) = add { let mut z = x; z += s; ckeq!((x + s, z), (v, v), "add-small", "{}", c!()) }
        if let Some(v) = sub { let mut z = x; z -= s; ckeq!((x - s, z), (v, v), "sub-small", "{}", c!()) }
        if let Some(v) = mul { let mut z = x; z *= s; ckeq!((x * s, z), (v, v), "mul-small", "{}", c!()) }
        if s != 0 { let mut z = x; z /= s; let mut w = x; w %= s; ckeq!((x / s, x % s), (z, w), "div-small", "{}", c!()); ckeq!((z, w), (mk(&(a / b)), mk(&(a % b))), "div-small", "{}", c!()) }
    }
    Ok(())
}

fn single(a: &BigUint, l: &mut L) -> R {
    let x = mk(a);
    let valid = *a <= max();
    if !valid { l.nt() }
    l.tr(1);
    l.evn(10);
    macro_rules! c { () => { format_args!("a={a:x}") } }
    ckeq!((x.is_valid(), x.is_zero()), (valid, a.is_zero()), "predicates", "{}", c!());
    ckeq!(x.leading_zeros() as u64, 256 - a.bits(), "leading-zeros", "{}", c!());
    ckeq!(BigUint::from(x), *a, "into-biguint", "{}", c!());
    ckeq!(BigInt::from(x), BigInt::from(a.clone()), "into-bigint", "{}", c!());
    ckeq!((x.as_usize(), x.as_isize()), (*a.to_u64_digits().first().unwrap_or(&0) as usize, *a.to_u64_digits().first().unwrap_or(&0) as isize), "as-usize", "{}", c!());
    ckeq!(x.to_string(), a.to_string(), "display", "{}", c!());
    ckeq!((format!("{x:>90}"), format!("{x:+}"), format!("{x:085}")), (format!("{a:>90}"), format!("{a:+}"), format!("{a:085}")), "display-pad", "{}", c!());
    let mut want = uint(a.bits().div_ceil(8) as u128, 5);
    want.extend(big(a, a.bits().div_ceil(8) as usize * 8));
    let mut b = CellBuilder::new();
    let r = x.store_into(&mut b, Cell::empty_context());
    if valid {
        ck!(r.is_ok(), "store", "{}", c!());
        ckeq!(slice_bits(&b.as_data_slice()), want, "encoding", "{}", c!());
        ckeq!((x.bit_len().map(|v| v as usize), x.exact_size().bits as usize, x.exact_size().refs), (Some(want.len()), want.len(), 0), "size", "{}", c!());
        let mut s = b.as_data_slice();
        ckeq!(VarUint248::load_from(&mut s).ok(), Some(x), "load", "{}", c!());
        ck!(s.is_data_empty(), "load-rest", "{}", c!());
    } else {
        ck!(r.is_err() && b.size_bits() == 0, "store-out-of-range", "{}", c!());
        ckeq!(x.bit_len(), None, "size", "{}", c!());
    }
    ckeq!(VarUint248::from_str(&a.to_string()).ok(), valid.then_some(x), "from_str", "{}", c!());
    for radix in [2u32, 3, 8, 10, 16, 17, 36] {
        let t = a.to_str_radix(radix);
        for t in [t.clone(), t.to_uppercase(), format!("+{t}"), format!("{}{t}", "0".repeat(70))] {
            ckeq!(np("panic", || t.clone(), || VarUint248::from_str_radix(&t, radix))?.ok(), valid.then_some(x), "from_str_radix", "radix {radix} {t}");
        }
    }
    if valid {
        let j = serde_json::to_string(&x).unwrap();
        ckeq!(j, format!("\"{a}\""), "json", "{}", c!());
        ckeq!(serde_json::from_str::<VarUint248>(&j).ok(), Some(x), "json", "{}", c!());
        for k in 0..256u32 {
            ckeq!((x >> k, x >> k as i32, x >> k as usize), { let v = mk(&(a >> k)); (v, v, v) }, "shr", "{} {k}", c!());
            let s = a << k;
            if s.bits() <= 256 { ckeq!((x << k, x << k as i32, x << k as usize), { let v = mk(&s); (v, v, v) }, "shl", "{} {k}", c!()); }
            let mut z = x; z >>= k as usize; let mut w = x; w <<= k as usize;
            ck!(z == x >> k && w == x << k, "shift-assign", "{} {k}", c!());
        }
    }
    if let Some(v) = a.to_u64_digits().first().filter(|_| a.bits() <= 64) { ckeq!((VarUint248::from(*v), VarUint248::from(*v as usize), VarUint248::from(*v as u128)), (x, x, x), "from", "{}", c!()); }
    Ok(())
}

/// two's complement or plain bits of `v` in `n` bits, if it fits
fn fixed(v: &BigInt, n: usize, signed: bool) -> Option<B> {
    if signed {
        let lim = if n == 0 { BigInt::zero() } else { BigInt::one() << (n - 1) };
        if n == 0 { return v.is_zero().then(Vec::new) }
        if *v >= lim || *v < -lim { return None }
        let m = if v.sign() == Sign::Minus { v + (BigInt::one() << n) } else { v.clone() };
        Some(big(&m.to_biguint().unwrap(), n))
    } else {
        let m = v.to_biguint()?;
        (m.bits() as usize <= n).then(|| big(&m, n))
    }
}
/// fewest bits
fn width(v: &BigInt, signed: bool) -> usize {
    if v.is_zero() { return 0 }
    if !signed { return v.bits() as usize }
    let m = if v.sign() == Sign::Minus { -v - 1 } else { v.clone() };
    m.bits() as usize + 1
}

fn stores(v: &BigInt, bits: &[u16], rooms: &[usize], l: &mut L) -> R {
    for signed in [false, true] {
        let has = signed || v.sign() != Sign::Minus;
        if has { ckeq!(v.bitsize(signed) as usize, width(v, signed).min(u16::MAX as usize), "bitsize", "{v:x} {signed}"); }
        ckeq!(v.has_correct_sign(signed), has, "sign", "{v:x} {signed}");
        for &n in bits {
            let want = fixed(v, n as usize, signed);
            for &room in rooms {
                l.tr(1); l.ev();
                let pre = pattern(2, 1023 - room);
                let ctx = || format!("v={v:x} bits={n} signed={signed} room={room}");
                let ok = want.is_some() && n as usize <= room;
                if !ok { l.nt() }
                let mut w = pre.clone();
                if ok { w.extend(want.as_ref().unwrap()) }
                let mut go = |k: &str, f: &dyn Fn(&mut CellBuilder) -> bool| -> R {
                    let mut b = builder_of(&pre);
                    let r = np("panic", || format!("{k} {}", ctx()), || f(&mut b))?;
                    ck!(r == ok, format!("{k}-accept"), "got {r} want {ok} {}", ctx());
                    ck!(slice_bits(&b.as_data_slice()) == w, format!("{k}-bits"), "{}", ctx());
                    Ok(())
                };
                go("store_bigint", &|b| b.store_bigint(v, n, signed).is_ok())?;
                if let Some(u) = v.to_biguint() { go("store_biguint", &|b| b.store_biguint(&u, n, signed).is_ok())?; }
                // truncated: the low bits, whatever the size
                if has {
                    let m: BigInt = BigInt::one() << n as usize;
                    let low = ((v % &m) + &m) % &m;
                    let fits = n as usize <= room;
                    let mut w = pre.clone();
                    if fits { w.extend(big(&low.to_biguint().unwrap(), n as usize)) }
                    let go = |k: &str, f: &dyn Fn(&mut CellBuilder) -> bool| -> R {
                        let mut b = builder_of(&pre);
                        let r = np("panic", || format!("{k} {}", ctx()), || f(&mut b))?;
                        ck!(r == fits, format!("{k}-accept"), "got {r} want {fits} {}", ctx());
                        ck!(slice_bits(&b.as_data_slice()) == w, format!("{k}-bits"), "{}", ctx());
                        Ok(())
                    };
                    go("store_bigint_truncate", &|b| b.store_bigint_truncate(v, n, signed).is_ok())?;
                    if let Some(u) = v.to_biguint() { go("store_biguint_truncate", &|b| b.store_biguint_truncate(&u, n).is_ok())?; }
                }
                if ok {
                    let c = cell_of(&w);
                    let mut s = c.as_slice().unwrap();
                    s.skip_first(pre.len() as u16, 0).unwrap();
                    ckeq!(np("panic", ctx, || s.load_bigint(n, signed))?.ok(), Some(v.clone()), "load_bigint", "{}", ctx());
                    ck!(s.is_data_empty(), "load_bigint-rest", "{}", ctx());
                    if !signed {
                        let mut s = c.as_slice().unwrap();
                        s.skip_first(pre.len() as u16, 0).unwrap();
                        ckeq!(np("panic", ctx, || s.load_biguint(n))?.ok(), v.to_biguint(), "load_biguint", "{}", ctx());
                    }
                }
                if n > 0 {
                    let c = cell_of(&pre);
                    let mut s = c.as_slice().unwrap();
                    s.skip_first(1023 - room as u16, 0).unwrap();
                    ck!(np("panic", ctx, || s.load_bigint(n, signed))?.is_err() && np("panic", ctx, || s.load_biguint(n))?.is_err(), "load-truncated", "{}", ctx());
                }
            }
        }
        for lb in 0..=18u16 {
            for &room in rooms {
                l.tr(1); l.ev();
                let bytes = width(v, signed).div_ceil(8);
                let body = has.then(|| fixed(v, bytes * 8, signed)).flatten();
                let pre = pattern(2, 1023 - room);
                let ctx = || format!("v={v:x} len_bits={lb} signed={signed} room={room}");
                let ok = body.is_some() && (bytes as u64) < 1u64 << lb && lb as usize + bytes * 8 <= room;
                let mut w = pre.clone();
                if ok { w.extend(uint(bytes as u128, lb as usize)); w.extend(body.as_ref().unwrap()) } else { l.nt() }
                let mut go = |k: &str, f: &dyn Fn(&mut CellBuilder) -> bool| -> R {
                    let mut b = builder_of(&pre);
                    let r = np("panic", || format!("{k} {}", ctx()), || f(&mut b))?;
                    ck!(r == ok, format!("{k}-accept"), "got {r} want {ok} {}", ctx());
                    ck!(slice_bits(&b.as_data_slice()) == w, format!("{k}-bits"), "{}", ctx());
                    Ok(())
                };
                go("store_var_bigint", &|b| b.store_var_bigint(v, lb, signed).is_ok())?;
                if let (Some(u), false) = (v.to_biguint(), signed) { go("store_var_biguint", &|b| b.store_var_biguint(&u, lb).is_ok())?; }
                if ok {
                    let c = cell_of(&w);
                    let mut s = c.as_slice().unwrap();
                    s.skip_first(pre.len() as u16, 0).unwrap();
                    ckeq!(np("panic", ctx, || s.load_var_bigint(lb, signed))?.ok(), Some(v.clone()), "load_var_bigint", "{}", ctx());
                    ck!(s.is_data_empty(), "load_var_bigint-rest", "{}", ctx());
                    if !signed {
                        let mut s = c.as_slice().unwrap();
                        s.skip_first(pre.len() as u16, 0).unwrap();
                        ckeq!(np("panic", ctx, || s.load_var_biguint(lb))?.ok(), v.to_biguint(), "load_var_biguint", "{}", ctx());
                    }
                }
            }
        }
    }
    Ok(())
}

fn run(r: &Run) {
    let q = r.quick();
    ck_consts(r);
    let m = u64::MAX;
    let limbs: Vec<u64> = if q { vec![0, 1, 1 << 63, m - 1, m] } else { vec![0, 1, 2, 1 << 32, (1 << 63) - 1, 1 << 63, m - 1, m] };
    let top: Vec<u64> = if q { vec![0, 1, 1 << 55, (1 << 56) - 1] } else { vec![0, 1, 0xff, 1 << 55, (1 << 56) - 2, (1 << 56) - 1] };
    let vals = values(&limbs, &top);
    let mx = max();
    r.add_extra("values", vals.len() as u64);
    r.section("pairs", vals.len() as u64, |i, l| {
        l.st(vals.len() as u64);
        for b in &vals { pair(&vals[i as usize], b, &mx, l)?; }
        Ok(())
    });
    // dividends q*d + r around every divisor shape: all quotient corrections
    let ds = values(&[0, 1, 1 << 32, 1 << 63, m], &[0, 1, (1 << 56) - 1]);
    r.section("division", ds.len() as u64, |i, l| {
        let d = &ds[i as usize];
        if d.is_zero() { return Ok(()) }
        for sh in 0..=(248 - d.bits().min(248)) {
            for qd in [-1i64, 0, 1] {
                let qv = (BigInt::one() << sh) + qd;
                for rd in [-1i64, 0, 1] {
                    let a = BigInt::from(d.clone()) * &qv + rd;
                    if let Some(a) = a.to_biguint() { if a <= mx { l.st(1); pair(&a, d, &mx, l)?; } }
                }
            }
        }
        Ok(())
    });
    // powers of two, one away from them, all byte lengths, and beyond the range
    let mut s: Vec<BigUint> = (0..256u32).flat_map(|k| { let p = BigUint::one() << k; [p.clone() - 1u8, p.clone(), p + 1u8] }).collect();
    s.extend((0..77u32).flat_map(|k| { let p = BigUint::from(10u8).pow(k); [p.clone() - 1u8, p.clone(), p.clone() + 1u8, p * 9u8] }));
    s.extend(vals.iter().step_by(if q { 7 } else { 1 }).cloned());
    s.retain(|v| v.bits() <= 256);
    r.section("single", s.len() as u64, |i, l| { l.st(1); single(&s[i as usize], l) });
    r.section("loads", 32, |n, l| {
        let n = n as usize;
        for fill in 0..5u64 {
            let body = match fill { 0 => vec![0; n * 8], 1 => vec![1; n * 8], f => pattern(f, n * 8) };
            let mut bits = uint(n as u128, 5);
            bits.extend(&body);
            for cut in 0..=bits.len() {
                l.tr(1); l.ev();
                let c = cell_of(&bits[..cut]);
                let got = VarUint248::load_from(&mut c.as_slice().unwrap()).ok();
                ckeq!(got, (cut == bits.len()).then(|| mk(&to_big(&body))), "load-truncated", "len={n} cut={cut}");
            }
            let v = mk(&to_big(&body));
            let mut want = uint(to_big(&body).bits().div_ceil(8) as u128, 5);
            want.extend(big(&to_big(&body), to_big(&body).bits().div_ceil(8) as usize * 8));
            for room in 0..want.len() + 2 {
                l.tr(1); l.ev();
                let pre = pattern(1, 1023 - room);
                let mut b = builder_of(&pre);
                let ok = v.store_into(&mut b, Cell::empty_context()).is_ok();
                ckeq!(ok, room >= want.len(), "room", "len={n} room={room}");
                let mut w = pre; if ok { w.extend(&want) }
                ckeq!(slice_bits(&b.as_data_slice()), w, "store-atomic", "len={n} room={room}");
            }
        }
        Ok(())
    });
    // malformed texts
    let texts = ["", "+", "-", "-1", "-0", "++1", "+-1", " 1", "1 ", "1_0", "a", "1.0", "１", "é", "0x1", "9".repeat(74).leak(), "9".repeat(75).leak(), "9".repeat(300).leak()];
    r.section("texts", texts.len() as u64 * 35, |i, l| {
        let mut ix = Ix(i);
        let (t, radix) = (texts[ix.us(texts.len())], 2 + ix.us(35) as u32);
        l.tr(1); l.ev(); l.nt();
        let d = t.strip_prefix('+').unwrap_or(t);
        let want = (!d.is_empty() && d.chars().all(|c| c.is_ascii() && c.is_digit(radix))).then(|| BigUint::parse_bytes(d.as_bytes(), radix).unwrap()).filter(|v| *v <= mx);
        ckeq!(np("panic", || t.to_string(), || VarUint248::from_str_radix(t, radix))?.ok().map(bu), want, "text", "{t:?} radix {radix}");
        Ok(())
    });
    // big integers in cells
    let mut bv: Vec<BigInt> = vec![BigInt::zero()];
    let ks: Vec<u32> = if q { (0..70).chain((72..260).step_by(4)).chain([255, 256, 257, 500, 511, 512, 1015, 1016, 1021, 1022, 1023, 1024]).collect() } else { (0..1025).collect() };
    for k in ks { let p = BigInt::one() << k; for s in [1, -1] { for d in [-1, 0, 1] { bv.push((&p + d) * s) } } }
    bv.sort();
    bv.dedup();
    r.section("bigint-cells", bv.len() as u64, |i, l| {
        let v = &bv[i as usize];
        l.st(1);
        let w = v.bits() as u16;
        let mut bits: Vec<u16> = vec![0, 1, 2, 7, 8, 9, 16, 31, 63, 64, 65, 66, 71, 72, 73, 127, 128, 129, 255, 256, 257, 1016, 1022, 1023];
        bits.extend([w.wrapping_sub(1), w, w + 1, w + 2, w + 7, w + 8, w + 9].iter().filter(|x| **x <= 1024));
        bits.sort();
        bits.dedup();
        stores(v, &bits, &[0, 1, 63, 64, 65, 128, 256, 257, 1016, 1021, 1023], l)
    });
    let huge: Vec<BigInt> = [65527u32, 65528, 65534, 65535, 65536, 65537, 131072].iter().flat_map(|k| { let p = BigInt::one() << *k; [p.clone() - 1, p.clone(), p.clone() + 1, -p.clone(), -p.clone() - 1, 1 - p] }).collect();
    r.section("huge", huge.len() as u64, |i, l| { l.st(1); stores(&huge[i as usize], &[0, 1, 8, 64, 65, 256, 1023, 1024, u16::MAX], &[64, 1023], l) });
    // every width: extremes and their neighbours
    r.section("bigint-widths", 1024, |n, l| {
        let n = n as u16;
        for signed in [false, true] {
            let (lo, hi) = if n == 0 { (BigInt::zero(), BigInt::zero()) } else if signed { (-(BigInt::one() << (n - 1)), (BigInt::one() << (n - 1)) - 1) } else { (BigInt::zero(), (BigInt::one() << n) - 1) };
            for v in [lo.clone() - 1, lo.clone(), lo + 1, hi.clone() - 1, hi.clone(), hi + 1] { l.st(1); stores(&v, &[n], &[1023, n as usize, (n as usize).saturating_sub(1)], l)?; }
        }
        Ok(())
    });
    // length prefixes of any width on arbitrary data
    r.section("load-var", 70, |lb, l| {
        for fill in 0..6u64 {
            let c = cell_of(&match fill { 0 => vec![0; 1023], 1 => vec![1; 1023], 2 => { let mut v = vec![0; 1023]; if (1..=1023).contains(&lb) { v[lb as usize - 1] = 1 } v } f => pattern(f, 1023) });
            let bits = cell_bits(c.as_ref());
            let len = to_big(&bits[..lb as usize]);
            let rest = 1023 - lb as u32;
            let want = (lb <= 64 && len.clone() * 8u8 <= BigUint::from(rest)).then(|| { let n = len.to_u64_digits().first().copied().unwrap_or(0) as usize * 8; bits[lb as usize..lb as usize + n].to_vec() });
            for signed in [false, true] {
                l.tr(1); l.ev();
                let w = want.as_ref().map(|b| { let m = BigInt::from(to_big(b)); if signed && b.first() == Some(&1) { m - (BigInt::one() << b.len()) } else { m } });
                ckeq!(np("panic", || format!("len_bits={lb} fill={fill}"), || c.as_slice().unwrap().load_var_bigint(lb as u16, signed))?.ok(), w, "load_var_bigint", "len_bits={lb} fill={fill} {signed}");
            }
            ckeq!(np("panic", || format!("len_bits={lb} fill={fill}"), || c.as_slice().unwrap().load_var_biguint(lb as u16))?.ok(), want.map(|b| to_big(&b)), "load_var_biguint", "len_bits={lb} fill={fill}");
        }
        Ok(())
    });
}

fn ck_consts(r: &Run) {
    r.section("consts", 1, |_, _| {
        ckeq!(bu(VarUint248::MAX), max(), "consts", "MAX");
        ckeq!(bu(VarUint248::ZERO), BigUint::zero(), "consts", "ZERO");
        ckeq!(bu(VarUint248::ONE), BigUint::one(), "consts", "ONE");
        ckeq!(bu(VarUint248::MIN), BigUint::zero(), "consts/MIN", "MIN");
        ckeq!((VarUint248::LEN_BITS, VarUint248::MAX_BITS), (5, 253), "consts", "bits");
        Ok(())
    });
}
