//! Offline stand-in for the part of bnum that evmrs uses.
use std::ops::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct BUint<const N: usize>([u64; N]);

pub mod types {
    pub type U256 = crate::BUint<4>;
    pub type U512 = crate::BUint<8>;
}
pub mod cast {
    pub trait CastFrom<T> {
        fn cast_from(from: T) -> Self;
    }
    impl<const M: usize, const N: usize> CastFrom<crate::BUint<M>> for crate::BUint<N> {
        fn cast_from(from: crate::BUint<M>) -> Self {
            let mut r = [0; N];
            for i in 0..M.min(N) {
                r[i] = from.0[i];
            }
            Self(r)
        }
    }
}

impl<const N: usize> BUint<N> {
    pub const ZERO: Self = Self([0; N]);
    pub const fn from_digits(d: [u64; N]) -> Self {
        Self(d)
    }
    pub const fn digits(&self) -> &[u64; N] {
        &self.0
    }
    pub const ONE: Self = {
        let mut d = [0; N];
        d[0] = 1;
        Self(d)
    };
    pub const MAX: Self = Self([u64::MAX; N]);
    pub fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    fn ge(&self, o: &Self) -> bool {
        for i in (0..N).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i] > o.0[i];
            }
        }
        true
    }
    fn sub_wrapping(&mut self, o: &Self) {
        let mut borrow = false;
        for i in 0..N {
            let (a, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (a, b2) = a.overflowing_sub(borrow as u64);
            self.0[i] = a;
            borrow = b1 || b2;
        }
    }
}
impl<const N: usize> Add for BUint<N> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        let (mut r, mut c) = ([0; N], 0u128);
        for i in 0..N {
            let s = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = s as u64;
            c = s >> 64;
        }
        if cfg!(debug_assertions) && c != 0 {
            panic!("attempt to add with overflow");
        }
        Self(r)
    }
}
impl<const N: usize> Mul for BUint<N> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let (mut r, mut over) = ([0u64; N], false);
        for i in 0..N {
            let mut c = 0u128;
            for j in 0..N {
                if i + j >= N {
                    over |= (self.0[i] != 0 && o.0[j] != 0) || c != 0;
                    c = 0;
                    continue;
                }
                let t = self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            over |= c != 0;
        }
        if cfg!(debug_assertions) && over {
            panic!("attempt to multiply with overflow");
        }
        Self(r)
    }
}
impl<const N: usize> Rem for BUint<N> {
    type Output = Self;
    fn rem(self, d: Self) -> Self {
        if d == Self::ZERO {
            panic!("attempt to calculate remainder with a divisor of zero");
        }
        let mut r = Self::ZERO;
        for i in (0..N * 64).rev() {
            let carry = r.0[N - 1] >> 63 == 1;
            for k in (1..N).rev() {
                r.0[k] = r.0[k] << 1 | r.0[k - 1] >> 63;
            }
            r.0[0] = r.0[0] << 1 | (self.0[i / 64] >> (i % 64)) & 1;
            if carry || r.ge(&d) {
                r.sub_wrapping(&d);
            }
        }
        r
    }
}
