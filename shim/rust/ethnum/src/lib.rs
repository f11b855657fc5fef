//! Offline stand-in for the part of ethnum that evmrs uses: 256-bit integers
//! as a pair of 128-bit halves, low half first. Arithmetic is plain schoolbook.
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

#[allow(non_camel_case_types)]
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct U256(pub [u128; 2]);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
#[repr(transparent)]
pub struct I256(pub [i128; 2]);

impl U256 {
    pub const ZERO: Self = Self([0, 0]);
    pub const ONE: Self = Self([1, 0]);
    pub const MIN: Self = Self([0, 0]);
    pub const MAX: Self = Self([u128::MAX, u128::MAX]);
    pub const BITS: u32 = 256;

    fn limbs(self) -> [u64; 4] {
        [self.0[0] as u64, (self.0[0] >> 64) as u64, self.0[1] as u64, (self.0[1] >> 64) as u64]
    }
    fn of(l: [u64; 4]) -> Self {
        Self([l[0] as u128 | (l[1] as u128) << 64, l[2] as u128 | (l[3] as u128) << 64])
    }
    pub const fn new(v: u128) -> Self {
        Self([v, 0])
    }
    pub const fn from_words(hi: u128, lo: u128) -> Self {
        Self([lo, hi])
    }
    pub const fn low(&self) -> &u128 {
        &self.0[0]
    }
    pub const fn high(&self) -> &u128 {
        &self.0[1]
    }
    pub const fn as_u64(self) -> u64 {
        self.0[0] as u64
    }
    pub const fn as_u128(self) -> u128 {
        self.0[0]
    }
    pub const fn as_usize(self) -> usize {
        self.0[0] as usize
    }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) {
        let (a, b) = (self.limbs(), o.limbs());
        let (mut r, mut c) = ([0u64; 4], 0u128);
        for i in 0..4 {
            let s = a[i] as u128 + b[i] as u128 + c;
            r[i] = s as u64;
            c = s >> 64;
        }
        (Self::of(r), c != 0)
    }
    pub fn wrapping_add(self, o: Self) -> Self {
        self.overflowing_add(o).0
    }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
        ((self.wrapping_add(!o)).wrapping_add(Self::ONE), self < o)
    }
    pub fn wrapping_sub(self, o: Self) -> Self {
        self.overflowing_sub(o).0
    }
    pub fn checked_add(self, o: Self) -> Option<Self> {
        let (r, c) = self.overflowing_add(o);
        if c { None } else { Some(r) }
    }
    pub fn checked_sub(self, o: Self) -> Option<Self> {
        let (r, c) = self.overflowing_sub(o);
        if c { None } else { Some(r) }
    }
    pub fn overflowing_mul(self, o: Self) -> (Self, bool) {
        let r = self.wrapping_mul(o);
        (r, self != Self::ZERO && r.wrapping_div(self) != o)
    }
    pub fn checked_mul(self, o: Self) -> Option<Self> {
        let (r, c) = self.overflowing_mul(o);
        if c { None } else { Some(r) }
    }
    pub fn saturating_add(self, o: Self) -> Self {
        self.checked_add(o).unwrap_or(Self::MAX)
    }
    pub fn saturating_sub(self, o: Self) -> Self {
        self.checked_sub(o).unwrap_or(Self::ZERO)
    }
    pub fn saturating_mul(self, o: Self) -> Self {
        self.checked_mul(o).unwrap_or(Self::MAX)
    }
    pub fn overflowing_neg(self) -> (Self, bool) {
        (self.wrapping_neg(), self != Self::ZERO)
    }
    pub fn overflowing_shl(self, n: u32) -> (Self, bool) {
        (self.wrapping_shl(n), n > 255)
    }
    pub fn overflowing_shr(self, n: u32) -> (Self, bool) {
        (self.wrapping_shr(n), n > 255)
    }
    pub fn abs_diff(self, o: Self) -> Self {
        if self > o { self.wrapping_sub(o) } else { o.wrapping_sub(self) }
    }
    pub fn is_power_of_two(self) -> bool {
        self.count_ones() == 1
    }
    pub fn count_zeros(self) -> u32 {
        256 - self.count_ones()
    }
    pub fn leading_ones(self) -> u32 {
        (!self).leading_zeros()
    }
    pub fn trailing_ones(self) -> u32 {
        (!self).trailing_zeros()
    }
    pub const fn into_words(self) -> (u128, u128) {
        (self.0[1], self.0[0])
    }
    pub const fn as_u8(self) -> u8 {
        self.0[0] as u8
    }
    pub const fn as_u16(self) -> u16 {
        self.0[0] as u16
    }
    pub const fn as_u32(self) -> u32 {
        self.0[0] as u32
    }
    pub const fn as_i64(self) -> i64 {
        self.0[0] as i64
    }
    pub fn low_mut(&mut self) -> &mut u128 {
        &mut self.0[0]
    }
    pub fn high_mut(&mut self) -> &mut u128 {
        &mut self.0[1]
    }
    pub fn to_ne_bytes(self) -> [u8; 32] {
        if cfg!(target_endian = "big") { self.to_be_bytes() } else { self.to_le_bytes() }
    }
    pub fn to_le(self) -> Self {
        if cfg!(target_endian = "big") { self.swap_bytes() } else { self }
    }
    pub fn from_le(v: Self) -> Self {
        v.to_le()
    }
    pub fn wrapping_neg(self) -> Self {
        (!self).wrapping_add(Self::ONE)
    }
    pub fn wrapping_mul(self, o: Self) -> Self {
        let (a, b) = (self.limbs(), o.limbs());
        let mut r = [0u64; 4];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 - i {
                let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
        }
        Self::of(r)
    }
    fn bit(&self, i: u32) -> bool {
        (self.0[(i / 128) as usize] >> (i % 128)) & 1 == 1
    }
    pub fn div_rem(self, d: Self) -> (Self, Self) {
        if d == Self::ZERO {
            panic!("attempt to divide by zero");
        }
        if self.0[1] == 0 && d.0[1] == 0 {
            return (Self([self.0[0] / d.0[0], 0]), Self([self.0[0] % d.0[0], 0]));
        }
        let (mut q, mut r) = (Self::ZERO, Self::ZERO);
        let top = 256 - self.leading_zeros();
        for i in (0..top).rev() {
            let carry = r.0[1] >> 127 == 1;
            r = r.wrapping_shl(1);
            if self.bit(i) {
                r.0[0] |= 1;
            }
            if carry || r >= d {
                r = r.wrapping_sub(d);
                q.0[(i / 128) as usize] |= 1 << (i % 128);
            }
        }
        (q, r)
    }
    pub fn wrapping_div(self, o: Self) -> Self {
        self.div_rem(o).0
    }
    pub fn wrapping_rem(self, o: Self) -> Self {
        self.div_rem(o).1
    }
    pub fn checked_div(self, o: Self) -> Option<Self> {
        if o == Self::ZERO { None } else { Some(self.div_rem(o).0) }
    }
    pub fn checked_rem(self, o: Self) -> Option<Self> {
        if o == Self::ZERO { None } else { Some(self.div_rem(o).1) }
    }
    pub fn wrapping_shl(self, n: u32) -> Self {
        let n = n & 255;
        let [lo, hi] = self.0;
        match n {
            0 => self,
            1..=127 => Self([lo << n, hi << n | lo >> (128 - n)]),
            _ => Self([0, lo << (n - 128)]),
        }
    }
    pub fn wrapping_shr(self, n: u32) -> Self {
        let n = n & 255;
        let [lo, hi] = self.0;
        match n {
            0 => self,
            1..=127 => Self([lo >> n | hi << (128 - n), hi >> n]),
            _ => Self([hi >> (n - 128), 0]),
        }
    }
    pub fn checked_shl(self, n: u32) -> Option<Self> {
        if n < 256 { Some(self.wrapping_shl(n)) } else { None }
    }
    pub fn checked_shr(self, n: u32) -> Option<Self> {
        if n < 256 { Some(self.wrapping_shr(n)) } else { None }
    }
    pub fn wrapping_pow(self, mut e: u32) -> Self {
        let (mut b, mut r) = (self, Self::ONE);
        while e > 0 {
            if e & 1 == 1 {
                r = r.wrapping_mul(b);
            }
            b = b.wrapping_mul(b);
            e >>= 1;
        }
        r
    }
    pub fn leading_zeros(self) -> u32 {
        if self.0[1] != 0 { self.0[1].leading_zeros() } else { 128 + self.0[0].leading_zeros() }
    }
    pub fn trailing_zeros(self) -> u32 {
        if self.0[0] != 0 { self.0[0].trailing_zeros() } else { 128 + self.0[1].trailing_zeros() }
    }
    pub fn count_ones(self) -> u32 {
        self.0[0].count_ones() + self.0[1].count_ones()
    }
    pub fn swap_bytes(self) -> Self {
        Self([self.0[1].swap_bytes(), self.0[0].swap_bytes()])
    }
    pub fn to_be(self) -> Self {
        if cfg!(target_endian = "big") { self } else { self.swap_bytes() }
    }
    pub fn from_be(v: Self) -> Self {
        v.to_be()
    }
    pub fn to_le_bytes(self) -> [u8; 32] {
        let mut r = [0; 32];
        r[..16].copy_from_slice(&self.0[0].to_le_bytes());
        r[16..].copy_from_slice(&self.0[1].to_le_bytes());
        r
    }
    pub fn to_be_bytes(self) -> [u8; 32] {
        let mut r = self.to_le_bytes();
        r.reverse();
        r
    }
    pub fn from_le_bytes(b: [u8; 32]) -> Self {
        let mut lo = [0; 16];
        let mut hi = [0; 16];
        lo.copy_from_slice(&b[..16]);
        hi.copy_from_slice(&b[16..]);
        Self([u128::from_le_bytes(lo), u128::from_le_bytes(hi)])
    }
    pub fn from_be_bytes(mut b: [u8; 32]) -> Self {
        b.reverse();
        Self::from_le_bytes(b)
    }
    pub fn as_i256(self) -> I256 {
        I256([self.0[0] as i128, self.0[1] as i128])
    }
}

impl I256 {
    pub const ONE: Self = Self([1, 0]);
    pub const MINUS_ONE: Self = Self([-1, -1]);
    pub fn signum(self) -> Self {
        if self.is_negative() { Self::MINUS_ONE } else if self == Self::ZERO { Self::ZERO } else { Self::ONE }
    }
    pub fn signum128(self) -> i128 {
        self.signum().0[0]
    }
    pub fn wrapping_abs(self) -> Self {
        self.unsigned_abs().as_i256()
    }
    pub const ZERO: Self = Self([0, 0]);
    pub const MIN: Self = Self([0, i128::MIN]);
    pub const MAX: Self = Self([-1, i128::MAX]);
    pub fn as_u256(self) -> U256 {
        U256([self.0[0] as u128, self.0[1] as u128])
    }
    pub fn is_negative(self) -> bool {
        self.0[1] < 0
    }
    pub fn is_positive(self) -> bool {
        !self.is_negative() && self != Self::ZERO
    }
    pub fn unsigned_abs(self) -> U256 {
        if self.is_negative() { self.as_u256().wrapping_neg() } else { self.as_u256() }
    }
    pub fn wrapping_neg(self) -> Self {
        self.as_u256().wrapping_neg().as_i256()
    }
    pub fn wrapping_div(self, o: Self) -> Self {
        let q = self.unsigned_abs().wrapping_div(o.unsigned_abs()).as_i256();
        if self.is_negative() != o.is_negative() { q.wrapping_neg() } else { q }
    }
    pub fn wrapping_rem(self, o: Self) -> Self {
        let r = self.unsigned_abs().wrapping_rem(o.unsigned_abs()).as_i256();
        if self.is_negative() { r.wrapping_neg() } else { r }
    }
    pub fn wrapping_shl(self, n: u32) -> Self {
        self.as_u256().wrapping_shl(n).as_i256()
    }
    pub fn wrapping_shr(self, n: u32) -> Self {
        let n = n & 255;
        let u = self.as_u256().wrapping_shr(n);
        if n > 0 && self.is_negative() { (u | U256::MAX.wrapping_shl(256 - n)).as_i256() } else { u.as_i256() }
    }
}

impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.0[1], self.0[0]).cmp(&(o.0[1], o.0[0]))
    }
}
impl PartialOrd for I256 {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for I256 {
    fn cmp(&self, o: &Self) -> Ordering {
        (self.0[1], self.0[0] as u128).cmp(&(o.0[1], o.0[0] as u128))
    }
}

macro_rules! from {
    ($($t:ty),*) => {$(
        impl From<$t> for U256 { fn from(v: $t) -> Self { Self([v as u128, 0]) } }
    )*};
}
from!(bool, u8, u16, u32, u64, u128);

macro_rules! narrow {
    ($($t:ty),*) => {$(
        impl TryFrom<U256> for $t {
            type Error = std::num::TryFromIntError;
            fn try_from(v: U256) -> Result<$t, Self::Error> {
                <$t>::try_from(if v.0[1] == 0 { v.0[0] } else { u128::MAX }).and_then(|r| if v.0[1] == 0 { Ok(r) } else { Err(u8::try_from(256u32).unwrap_err()) })
            }
        }
    )*};
}
narrow!(u8, u16, u32, u64, usize);
impl TryFrom<U256> for u128 {
    type Error = std::num::TryFromIntError;
    fn try_from(v: U256) -> Result<u128, Self::Error> {
        if v.0[1] == 0 { Ok(v.0[0]) } else { Err(u8::try_from(256u32).unwrap_err()) }
    }
}
impl PartialEq<u128> for U256 {
    fn eq(&self, o: &u128) -> bool {
        self.0 == [*o, 0]
    }
}
impl PartialOrd<u128> for U256 {
    fn partial_cmp(&self, o: &u128) -> Option<Ordering> {
        Some(self.cmp(&U256([*o, 0])))
    }
}
impl From<U256> for I256 {
    fn from(v: U256) -> Self {
        v.as_i256()
    }
}

macro_rules! bitop {
    ($($tr:ident $f:ident $tra:ident $fa:ident $op:tt;)*) => {$(
        impl $tr for U256 { type Output = Self; fn $f(self, o: Self) -> Self { Self([self.0[0] $op o.0[0], self.0[1] $op o.0[1]]) } }
        impl $tra for U256 { fn $fa(&mut self, o: Self) { *self = *self $op o; } }
    )*};
}
bitop! { BitAnd bitand BitAndAssign bitand_assign &; BitOr bitor BitOrAssign bitor_assign |; BitXor bitxor BitXorAssign bitxor_assign ^; }
impl Not for U256 {
    type Output = Self;
    fn not(self) -> Self {
        Self([!self.0[0], !self.0[1]])
    }
}

// as for built-in integers: an error with debug assertions, wrapping without
fn checked(what: &str, r: (U256, bool)) -> U256 {
    if cfg!(debug_assertions) && r.1 {
        panic!("attempt to {what} with overflow");
    }
    r.0
}
macro_rules! arith {
    ($($tr:ident $f:ident $tra:ident $fa:ident $e:expr;)*) => {$(
        impl $tr for U256 { type Output = Self; fn $f(self, o: Self) -> Self { let g: fn(U256, U256) -> U256 = $e; g(self, o) } }
        impl $tra for U256 { fn $fa(&mut self, o: Self) { *self = $tr::$f(*self, o); } }
    )*};
}
arith! {
    Add add AddAssign add_assign |a, b| checked("add", a.overflowing_add(b));
    Sub sub SubAssign sub_assign |a, b| checked("subtract", a.overflowing_sub(b));
    Mul mul MulAssign mul_assign |a, b| { let r = a.wrapping_mul(b); let o = a != U256::ZERO && r.wrapping_div(a) != b; checked("multiply", (r, o)) };
    Div div DivAssign div_assign |a, b| a.wrapping_div(b);
    Rem rem RemAssign rem_assign |a, b| a.wrapping_rem(b);
}
macro_rules! shift {
    ($($t:ty),*) => {$(
        impl Shl<$t> for U256 { type Output = Self; fn shl(self, n: $t) -> Self { let n = n as u128; checked("shift left", (self.wrapping_shl((n & 255) as u32), n >= 256)) } }
        impl Shr<$t> for U256 { type Output = Self; fn shr(self, n: $t) -> Self { let n = n as u128; checked("shift right", (self.wrapping_shr((n & 255) as u32), n >= 256)) } }
        impl ShlAssign<$t> for U256 { fn shl_assign(&mut self, n: $t) { *self = *self << n; } }
        impl ShrAssign<$t> for U256 { fn shr_assign(&mut self, n: $t) { *self = *self >> n; } }
    )*};
}
shift!(i32, u8, u32, u64, usize);

impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut v = *self;
        let mut s = vec![];
        let ten19 = U256::from(10_000_000_000_000_000_000u64);
        while v != U256::ZERO {
            let (q, r) = v.div_rem(ten19);
            s.push(r.as_u64());
            v = q;
        }
        let mut out = s.pop().unwrap_or(0).to_string();
        for d in s.iter().rev() {
            out += &format!("{d:019}");
        }
        f.pad_integral(true, "", &out)
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl fmt::UpperHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:032X}{:032X}", self.0[1], self.0[0])
    }
}
impl fmt::LowerHex for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:032x}{:032x}", self.0[1], self.0[0])
    }
}
