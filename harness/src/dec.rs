//! Serializable inputs and exact views of the crate's decimals.
use crate::num::{Big, Rat};
use hmmcl_sandbox::decimal::Decimal;
use proptest::prelude::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// u128 that survives JSON (written as a decimal string).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct U(pub u128);
impl Serialize for U {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.to_string())
    }
}
impl<'de> Deserialize<'de> for U {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<U, D::Error> {
        let s = String::deserialize(d)?;
        s.parse::<u128>().map(U).map_err(serde::de::Error::custom)
    }
}
impl fmt::Debug for U {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// A decimal input: (value, scale, negative).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct D {
    pub v: U,
    pub s: u8,
    pub n: bool,
}
impl fmt::Debug for D {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}{}e-{}", if self.n { "-" } else { "" }, self.v.0, self.s)
    }
}
impl D {
    pub fn d(&self) -> Decimal {
        Decimal::new(self.v.0, self.s, self.n)
    }
    pub fn big(&self) -> Big {
        Big::signed(self.n, self.v.0)
    }
    pub fn rat(&self) -> Rat {
        Rat::new(self.big(), Big::pow10(self.s as u32))
    }
}
/// signed unscaled value
pub fn big(d: Decimal) -> Big {
    Big::signed(d.negative, d.value)
}
pub fn rat(d: Decimal) -> Rat {
    Rat::new(big(d), Big::pow10(d.scale as u32))
}
pub fn show(d: Decimal) -> String {
    format!("{}{}e-{}", if d.negative { "-" } else { "" }, d.value, d.scale)
}

/// u128 values spread over all magnitudes, with the boundary values people get wrong.
pub fn any_u128(max_bits: u32) -> BoxedStrategy<u128> {
    let mask = if max_bits >= 128 { u128::MAX } else { (1u128 << max_bits) - 1 };
    prop_oneof![
        3 => 0u128..1000,
        8 => (0u32..=max_bits, any::<u128>()).prop_map(|(b, v)| if b == 0 { 0 } else { v >> (128 - b) }),
        2 => (0u32..39, 0u128..3, any::<bool>()).prop_map(move |(p, k, up)| {
            let b = 10u128.pow(p);
            (if up { b.saturating_add(k) } else { b.saturating_sub(k) }) & mask
        }),
        1 => (0u32..max_bits, 0u128..3, any::<bool>()).prop_map(move |(p, k, up)| {
            let b = 1u128 << p;
            (if up { b.saturating_add(k) } else { b.saturating_sub(k) }) & mask
        }),
        1 => (0u128..3).prop_map(move |k| mask - k),
        1 => (0u128..1_000_000, 0u32..20).prop_map(move |(v, p)| v.saturating_mul(10u128.pow(p)) & mask),
    ]
    .boxed()
}
pub fn any_d(max_bits: u32, smax: u8) -> BoxedStrategy<D> {
    let scale = prop_oneof![4 => 0u8..=smax, 3 => Just(smax.min(12)), 2 => Just(smax.min(6)), 1 => Just(0u8)];
    (any_u128(max_bits), scale, any::<bool>()).prop_map(|(v, s, n)| D { v: U(v), s, n }).boxed()
}
pub fn pos_d(max_bits: u32, smax: u8) -> BoxedStrategy<D> {
    any_d(max_bits, smax).prop_map(|d| D { n: false, ..d }).boxed()
}
