//! Natural numbers, schoolbook.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Nat {
    /// Little-endian limbs, no leading (top) zero limb.
    pub d: Vec<u32>,
}

impl Nat {
    pub fn zero() -> Nat {
        Nat { d: vec![] }
    }
    pub fn one() -> Nat {
        Nat::from_u64(1)
    }
    pub fn norm(mut d: Vec<u32>) -> Nat {
        while let Some(0) = d.last() {
            d.pop();
        }
        Nat { d }
    }
    pub fn from_u64(x: u64) -> Nat {
        Nat::norm(vec![x as u32, (x >> 32) as u32])
    }
    pub fn from_u128(x: u128) -> Nat {
        Nat::norm(vec![x as u32, (x >> 32) as u32, (x >> 64) as u32, (x >> 96) as u32])
    }
    pub fn is_zero(&self) -> bool {
        self.d.is_empty()
    }
    pub fn is_one(&self) -> bool {
        self.d.len() == 1 && self.d[0] == 1
    }
    pub fn is_odd(&self) -> bool {
        !self.d.is_empty() && self.d[0] & 1 == 1
    }
    pub fn bit_len(&self) -> usize {
        match self.d.last() {
            None => 0,
            Some(t) => self.d.len() * 32 - t.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, n: usize) -> bool {
        let i = n / 32;
        i < self.d.len() && (self.d[i] >> (n % 32)) & 1 == 1
    }
    pub fn with_bit(&self, n: usize, v: bool) -> Nat {
        let mut d = self.d.clone();
        let i = n / 32;
        if d.len() <= i {
            if !v {
                return self.clone();
            }
            d.resize(i + 1, 0);
        }
        if v {
            d[i] |= 1 << (n % 32);
        } else {
            d[i] &= !(1 << (n % 32));
        }
        Nat::norm(d)
    }
    pub fn pow2(n: usize) -> Nat {
        let mut d = vec![0u32; n / 32 + 1];
        d[n / 32] = 1 << (n % 32);
        Nat { d }
    }
    pub fn ones(n: usize) -> Nat {
        let mut d = vec![u32::MAX; n / 32];
        if n % 32 != 0 {
            d.push((1u32 << (n % 32)) - 1);
        }
        Nat { d }
    }
    pub fn trailing_zeros(&self) -> Option<usize> {
        for (i, w) in self.d.iter().enumerate() {
            if *w != 0 {
                return Some(i * 32 + w.trailing_zeros() as usize);
            }
        }
        None
    }
    pub fn is_pow2(&self) -> bool {
        !self.is_zero() && self.trailing_zeros().unwrap() + 1 == self.bit_len()
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.d.len() > 4 {
            return None;
        }
        let mut r = 0u128;
        for (i, w) in self.d.iter().enumerate() {
            r |= (*w as u128) << (32 * i);
        }
        Some(r)
    }
    pub fn to_u64(&self) -> Option<u64> {
        if self.d.len() > 2 {
            return None;
        }
        Some(self.to_u128().unwrap() as u64)
    }
    pub fn from_le(b: &[u8]) -> Nat {
        let mut d = Vec::with_capacity(b.len() / 4 + 1);
        for c in b.chunks(4) {
            let mut w = 0u32;
            for (i, x) in c.iter().enumerate() {
                w |= (*x as u32) << (8 * i);
            }
            d.push(w);
        }
        Nat::norm(d)
    }
    pub fn from_be(b: &[u8]) -> Nat {
        let mut v = b.to_vec();
        v.reverse();
        Nat::from_le(&v)
    }
    pub fn to_le(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.d.len() * 4);
        for w in &self.d {
            for i in 0..4 {
                v.push((w >> (8 * i)) as u8);
            }
        }
        while let Some(0) = v.last() {
            v.pop();
        }
        v
    }
    pub fn cmp(&self, o: &Nat) -> Ordering {
        if self.d.len() != o.d.len() {
            return self.d.len().cmp(&o.d.len());
        }
        for i in (0..self.d.len()).rev() {
            if self.d[i] != o.d[i] {
                return self.d[i].cmp(&o.d[i]);
            }
        }
        Ordering::Equal
    }
    pub fn lt(&self, o: &Nat) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn le(&self, o: &Nat) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.d.len().max(o.d.len());
        let mut d = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            let s = c + *self.d.get(i).unwrap_or(&0) as u64 + *o.d.get(i).unwrap_or(&0) as u64;
            d.push(s as u32);
            c = s >> 32;
        }
        d.push(c as u32);
        Nat::norm(d)
    }
    /// self - o, or None if negative.
    pub fn sub(&self, o: &Nat) -> Option<Nat> {
        if self.lt(o) {
            return None;
        }
        let mut d = Vec::with_capacity(self.d.len());
        let mut b = 0i64;
        for i in 0..self.d.len() {
            let mut s = self.d[i] as i64 - *o.d.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if s < 0 {
                s += 1 << 32;
                b = 1;
            }
            d.push(s as u32);
        }
        Some(Nat::norm(d))
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        if self.is_zero() || o.is_zero() {
            return Nat::zero();
        }
        // Pair limbs into u64 where possible to make the schoolbook product 4x cheaper.
        if cfg!(target_pointer_width = "64") && self.d.len() + o.d.len() > 8 {
            return self.mul64(o);
        }
        let mut d = vec![0u32; self.d.len() + o.d.len()];
        for (i, x) in self.d.iter().enumerate() {
            let mut c = 0u64;
            let x = *x as u64;
            for (j, y) in o.d.iter().enumerate() {
                let t = x * *y as u64 + d[i + j] as u64 + c;
                d[i + j] = t as u32;
                c = t >> 32;
            }
            d[i + o.d.len()] = c as u32;
        }
        Nat::norm(d)
    }
    fn to64(&self) -> Vec<u64> {
        self.d
            .chunks(2)
            .map(|c| c[0] as u64 | (*c.get(1).unwrap_or(&0) as u64) << 32)
            .collect()
    }
    fn mul64(&self, o: &Nat) -> Nat {
        let a = self.to64();
        let b = o.to64();
        let mut r = vec![0u64; a.len() + b.len()];
        for (i, x) in a.iter().enumerate() {
            let mut c = 0u64;
            let x = *x as u128;
            for (j, y) in b.iter().enumerate() {
                let t = x * *y as u128 + r[i + j] as u128 + c as u128;
                r[i + j] = t as u64;
                c = (t >> 64) as u64;
            }
            r[i + b.len()] = c;
        }
        let mut d = Vec::with_capacity(r.len() * 2);
        for w in r {
            d.push(w as u32);
            d.push((w >> 32) as u32);
        }
        Nat::norm(d)
    }
    pub fn mul_u32(&self, m: u32) -> Nat {
        let mut d = Vec::with_capacity(self.d.len() + 1);
        let mut c = 0u64;
        for x in &self.d {
            let t = *x as u64 * m as u64 + c;
            d.push(t as u32);
            c = t >> 32;
        }
        d.push(c as u32);
        Nat::norm(d)
    }
    pub fn add_u32(&self, m: u32) -> Nat {
        self.add(&Nat::from_u64(m as u64))
    }
    pub fn div_u32(&self, m: u32) -> (Nat, u32) {
        let mut d = vec![0u32; self.d.len()];
        let mut r = 0u64;
        for i in (0..self.d.len()).rev() {
            let t = (r << 32) | self.d[i] as u64;
            d[i] = (t / m as u64) as u32;
            r = t % m as u64;
        }
        (Nat::norm(d), r as u32)
    }
    pub fn shl(&self, n: usize) -> Nat {
        if self.is_zero() {
            return Nat::zero();
        }
        let (w, b) = (n / 32, n % 32);
        let mut d = vec![0u32; w];
        let mut c = 0u32;
        for x in &self.d {
            let t = (*x as u64) << b;
            d.push(t as u32 | c);
            c = (t >> 32) as u32;
        }
        d.push(c);
        Nat::norm(d)
    }
    pub fn shr(&self, n: usize) -> Nat {
        let (w, b) = (n / 32, n % 32);
        if w >= self.d.len() {
            return Nat::zero();
        }
        let s = &self.d[w..];
        let mut d = Vec::with_capacity(s.len());
        for i in 0..s.len() {
            let hi = *s.get(i + 1).unwrap_or(&0) as u64;
            let t = (hi << 32) | s[i] as u64;
            d.push((t >> b) as u32);
        }
        Nat::norm(d)
    }
    pub fn low_bits_nonzero(&self, n: usize) -> bool {
        match self.trailing_zeros() {
            None => false,
            Some(z) => z < n,
        }
    }
    pub fn low_bits(&self, n: usize) -> Nat {
        let w = n / 32;
        if w >= self.d.len() {
            return self.clone();
        }
        let mut d = self.d[..w].to_vec();
        if n % 32 != 0 {
            d.push(self.d[w] & ((1u32 << (n % 32)) - 1));
        }
        Nat::norm(d)
    }
    fn zip(&self, o: &Nat, f: impl Fn(u32, u32) -> u32) -> Nat {
        let n = self.d.len().max(o.d.len());
        Nat::norm(
            (0..n)
                .map(|i| f(*self.d.get(i).unwrap_or(&0), *o.d.get(i).unwrap_or(&0)))
                .collect(),
        )
    }
    pub fn and(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a & b)
    }
    pub fn or(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a | b)
    }
    pub fn xor(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a ^ b)
    }
    pub fn and_not(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a & !b)
    }
    /// (quotient, remainder), Knuth D. Panics on zero divisor (callers never pass it).
    pub fn divrem(&self, v: &Nat) -> (Nat, Nat) {
        assert!(!v.is_zero(), "reference model: division by zero");
        if self.lt(v) {
            return (Nat::zero(), self.clone());
        }
        if v.d.len() == 1 {
            let (q, r) = self.div_u32(v.d[0]);
            return (q, Nat::from_u64(r as u64));
        }
        let s = v.d.last().unwrap().leading_zeros() as usize;
        let vn = v.shl(s).d;
        let mut un = self.shl(s).d;
        while un.len() <= self.d.len() {
            un.push(0);
        }
        let n = vn.len();
        let m = un.len() - n;
        let mut q = vec![0u32; m];
        let b = 1u64 << 32;
        for j in (0..m).rev() {
            let num = ((un[j + n] as u64) << 32) | un[j + n - 1] as u64;
            let mut qh = num / vn[n - 1] as u64;
            let mut rh = num % vn[n - 1] as u64;
            while qh >= b || qh * vn[n - 2] as u64 > ((rh << 32) | un[j + n - 2] as u64) {
                qh -= 1;
                rh += vn[n - 1] as u64;
                if rh >= b {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * vn[i] as u64 + carry;
                carry = p >> 32;
                let t = un[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                un[i + j] = t as u32;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = un[j + n] as i64 - borrow - carry as i64;
            un[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = un[i + j] as u64 + vn[i] as u64 + c;
                    un[i + j] = t as u32;
                    c = t >> 32;
                }
                un[j + n] = (un[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        un.truncate(n);
        (Nat::norm(q), Nat::norm(un).shr(s))
    }
    pub fn rem(&self, v: &Nat) -> Nat {
        self.divrem(v).1
    }
    pub fn pow(&self, e: usize) -> Nat {
        let mut r = Nat::one();
        for i in (0..usize::BITS - e.leading_zeros()).rev() {
            r = r.mul(&r);
            if (e >> i) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn gcd(&self, o: &Nat) -> Nat {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn modpow(&self, e: &Nat, m: &Nat) -> Nat {
        let mut r = Nat::one().rem(m);
        let base = self.rem(m);
        for i in (0..e.bit_len()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) {
                r = r.mul(&base).rem(m);
            }
        }
        r
    }
    /// Digits in a radix, most significant first, lower case; "0" for zero.
    pub fn to_radix(&self, radix: u32) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut big = radix;
        let mut k = 1;
        while (big as u64) * (radix as u64) <= u32::MAX as u64 {
            big *= radix;
            k += 1;
        }
        let mut out: Vec<u8> = vec![];
        let mut d = self.d.clone();
        let mut n = d.len();
        while n > 0 {
            let mut r = 0u64;
            for i in (0..n).rev() {
                let t = (r << 32) | d[i] as u64;
                d[i] = (t / big as u64) as u32;
                r = t % big as u64;
            }
            while n > 0 && d[n - 1] == 0 {
                n -= 1;
            }
            for _ in 0..k {
                out.push(b"0123456789abcdefghijklmnopqrstuvwxyz"[(r % radix as u64) as usize]);
                r /= radix as u64;
            }
        }
        while let Some(b'0') = out.last() {
            out.pop();
        }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
    /// None when any byte is not a digit (no signs, no underscores); empty string is zero.
    pub fn from_radix(s: &str, radix: u32) -> Option<Nat> {
        let mut d: Vec<u32> = vec![];
        let mut acc = 0u64;
        let mut mul = 1u64;
        let push = |d: &mut Vec<u32>, mul: u64, acc: u64| {
            let mut c = acc;
            for x in d.iter_mut() {
                let t = *x as u64 * mul + c;
                *x = t as u32;
                c = t >> 32;
            }
            if c != 0 {
                d.push(c as u32);
            }
        };
        for ch in s.chars() {
            let v = match ch {
                '0'..='9' => ch as u32 - '0' as u32,
                'a'..='z' => ch as u32 - 'a' as u32 + 10,
                'A'..='Z' => ch as u32 - 'A' as u32 + 10,
                _ => return None,
            };
            if v >= radix {
                return None;
            }
            acc = acc * radix as u64 + v as u64;
            mul *= radix as u64;
            if mul * radix as u64 > u32::MAX as u64 {
                push(&mut d, mul, acc);
                acc = 0;
                mul = 1;
            }
        }
        push(&mut d, mul, acc);
        Some(Nat::norm(d))
    }
    pub fn hex(&self) -> String {
        let mut s = match self.d.last() {
            None => return "0".into(),
            Some(t) => format!("{t:x}"),
        };
        for w in self.d.iter().rev().skip(1) {
            s.push_str(&format!("{w:08x}"));
        }
        s
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::rng::Rng;
    #[test]
    fn identities() {
        let mut r = Rng::new(7);
        for _ in 0..20000 {
            let a = Nat::norm((0..r.usize(12)).map(|_| if r.bool() { r.u32() } else { 0u32.wrapping_sub(r.usize(3) as u32) }).collect());
            let b = Nat::norm((0..r.usize(9)).map(|_| if r.bool() { r.u32() } else { 0u32.wrapping_sub(r.usize(3) as u32) }).collect());
            let s = a.add(&b);
            assert_eq!(s.sub(&b).unwrap(), a);
            if !b.is_zero() {
                let (q, m) = a.divrem(&b);
                assert!(m.lt(&b));
                assert_eq!(q.mul(&b).add(&m), a);
            }
            let k = r.usize(100);
            assert_eq!(a.shl(k).shr(k), a);
            assert_eq!(a.shl(k), a.mul(&Nat::pow2(k)));
            let radix = 2 + r.usize(35) as u32;
            assert_eq!(Nat::from_radix(&a.to_radix(radix), radix).unwrap(), a);
            assert_eq!(Nat::from_le(&a.to_le()), a);
            if let Some(x) = a.to_u128() {
                assert_eq!(format!("{:x}", x), a.hex());
                assert_eq!(format!("{}", x), a.to_radix(10));
            }
        }
    }
}
