//! Small arbitrary-precision signed integer, written for the oracles so that they share no
//! arithmetic with the code under test.
use std::cmp::Ordering;
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Big {
    neg: bool,
    mag: Vec<u32>, // little endian, no trailing zero limbs; zero is empty and not negative
}

fn trim(v: &mut Vec<u32>) {
    while let Some(&0) = v.last() {
        v.pop();
    }
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + if i < b.len() { b[i] as u64 } else { 0 } + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - if i < b.len() { b[i] as i64 } else { 0 } - br;
        if s < 0 {
            s += 1 << 32;
            br = 1;
        } else {
            br = 0;
        }
        r.push(s as u32);
    }
    assert_eq!(br, 0);
    trim(&mut r);
    r
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(&mut r);
    r
}
fn shl_bits(a: &[u32], s: u32) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u32;
    for &x in a {
        if s == 0 {
            r.push(x);
        } else {
            r.push((x << s) | c);
            c = x >> (32 - s);
        }
    }
    if c > 0 {
        r.push(c);
    }
    r
}
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty(), "oracle division by zero");
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let cur = (r << 32) | a[i] as u64;
            q[i] = (cur / d) as u32;
            r = cur % d;
        }
        trim(&mut q);
        let mut rv = vec![r as u32];
        trim(&mut rv);
        return (q, rv);
    }
    let s = b[b.len() - 1].leading_zeros();
    let v = shl_bits(b, s);
    let mut u = shl_bits(a, s);
    if u.len() == a.len() {
        u.push(0);
    }
    let n = v.len();
    let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qhat = num / v[n - 1] as u64;
        let mut rhat = num % v[n - 1] as u64;
        while qhat >= 1 << 32 || qhat * v[n - 2] as u64 > ((rhat << 32) | u[j + n - 2] as u64) {
            qhat -= 1;
            rhat += v[n - 1] as u64;
            if rhat >= 1 << 32 {
                break;
            }
        }
        let mut borrow = 0i64;
        let mut carry = 0u64;
        for i in 0..n {
            let p = qhat * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qhat -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let s2 = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = s2 as u32;
                c = s2 >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qhat as u32;
    }
    trim(&mut q);
    u.truncate(n);
    // unnormalise the remainder
    let mut r = vec![0u32; n];
    for i in 0..n {
        r[i] = if s == 0 {
            u[i]
        } else {
            (u[i] >> s) | if i + 1 < n { u[i + 1] << (32 - s) } else { 0 }
        };
    }
    trim(&mut r);
    (q, r)
}

impl Big {
    fn from_parts(neg: bool, mut mag: Vec<u32>) -> Big {
        trim(&mut mag);
        let neg = neg && !mag.is_empty();
        Big { neg, mag }
    }
    pub fn zero() -> Big {
        Big { neg: false, mag: vec![] }
    }
    pub fn one() -> Big {
        Big::from(1u128)
    }
    pub fn signed(neg: bool, v: u128) -> Big {
        let b = Big::from(v);
        if neg {
            b.neg()
        } else {
            b
        }
    }
    pub fn pow10(n: u32) -> Big {
        let mut r = Big::one();
        let ten9 = Big::from(1_000_000_000u128);
        for _ in 0..n / 9 {
            r = r.mul(&ten9);
        }
        r.mul(&Big::from(10u128.pow(n % 9)))
    }
    pub fn pow(&self, mut e: u128) -> Big {
        let mut r = Big::one();
        let mut b = self.clone();
        while e > 0 {
            if e & 1 == 1 {
                r = r.mul(&b);
            }
            e >>= 1;
            if e > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn is_neg(&self) -> bool {
        self.neg
    }
    pub fn neg(&self) -> Big {
        Big::from_parts(!self.neg, self.mag.clone())
    }
    pub fn abs(&self) -> Big {
        Big::from_parts(false, self.mag.clone())
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big::from_parts(self.neg, add_mag(&self.mag, &o.mag));
        }
        match cmp_mag(&self.mag, &o.mag) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big::from_parts(self.neg, sub_mag(&self.mag, &o.mag)),
            Ordering::Less => Big::from_parts(o.neg, sub_mag(&o.mag, &self.mag)),
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        Big::from_parts(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }
    /// quotient truncated toward zero, remainder with the sign of self
    pub fn divrem(&self, o: &Big) -> (Big, Big) {
        let (q, r) = divrem_mag(&self.mag, &o.mag);
        (Big::from_parts(self.neg != o.neg, q), Big::from_parts(self.neg, r))
    }
    pub fn div(&self, o: &Big) -> Big {
        self.divrem(o).0
    }
    /// quotient rounded away from zero
    pub fn div_away(&self, o: &Big) -> Big {
        let (q, r) = divrem_mag(&self.mag, &o.mag);
        let q = Big::from_parts(false, q);
        let q = if r.is_empty() { q } else { q.add(&Big::one()) };
        if self.neg != o.neg {
            q.neg()
        } else {
            q
        }
    }
    /// floor of the square root
    pub fn isqrt(&self) -> Big {
        assert!(!self.neg);
        if self.is_zero() {
            return Big::zero();
        }
        let bits = self.bits();
        let mut x = Big::one().shl((bits + 1) / 2 + 1);
        loop {
            let y = x.add(&self.div(&x)).shr1();
            if y.cmp(&x) != Ordering::Less {
                return x;
            }
            x = y;
        }
    }
    pub fn bits(&self) -> u32 {
        match self.mag.last() {
            None => 0,
            Some(&t) => self.mag.len() as u32 * 32 - t.leading_zeros(),
        }
    }
    pub fn shl(&self, n: u32) -> Big {
        let mut v = vec![0u32; (n / 32) as usize];
        v.extend(shl_bits(&self.mag, n % 32));
        Big::from_parts(self.neg, v)
    }
    fn shr1(&self) -> Big {
        let mut v = self.mag.clone();
        let mut c = 0;
        for x in v.iter_mut().rev() {
            let n = *x & 1;
            *x = (*x >> 1) | (c << 31);
            c = n;
        }
        Big::from_parts(self.neg, v)
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.neg || self.mag.len() > 4 {
            return None;
        }
        let mut r = 0u128;
        for (i, &l) in self.mag.iter().enumerate() {
            r |= (l as u128) << (32 * i);
        }
        Some(r)
    }
    pub fn fits_u128(&self) -> bool {
        self.mag.len() <= 4
    }
    pub fn to_f64(&self) -> f64 {
        let mut r = 0f64;
        for &l in self.mag.iter().rev() {
            r = r * 4294967296.0 + l as f64;
        }
        if self.neg {
            -r
        } else {
            r
        }
    }
    /// |self - o|
    pub fn dist(&self, o: &Big) -> Big {
        self.sub(o).abs()
    }
    pub fn parse(s: &str) -> Option<Big> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let ten = Big::from(10u128);
        let mut r = Big::zero();
        for b in d.bytes() {
            r = r.mul(&ten).add(&Big::from((b - b'0') as u128));
        }
        Some(if neg { r.neg() } else { r })
    }
}
impl From<u128> for Big {
    fn from(v: u128) -> Big {
        Big::from_parts(false, vec![v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32])
    }
}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
}
impl fmt::Display for Big {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.mag.is_empty() {
            return write!(f, "0");
        }
        let mut parts = vec![];
        let mut v = self.mag.clone();
        let d = vec![1_000_000_000u32];
        while !v.is_empty() {
            let (q, r) = divrem_mag(&v, &d);
            parts.push(r.first().copied().unwrap_or(0));
            v = q;
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s += &parts.pop().unwrap().to_string();
        for p in parts.iter().rev() {
            s += &format!("{:09}", p);
        }
        write!(f, "{}", s)
    }
}
impl fmt::Debug for Big {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self)
    }
}

/// Exact rational with a positive denominator (not reduced).
#[derive(Clone, Debug)]
pub struct Rat {
    pub n: Big,
    pub d: Big,
}
impl Rat {
    pub fn new(n: Big, d: Big) -> Rat {
        assert!(!d.is_zero());
        if d.is_neg() {
            Rat { n: n.neg(), d: d.neg() }
        } else {
            Rat { n, d }
        }
    }
    pub fn int(n: Big) -> Rat {
        Rat { n, d: Big::one() }
    }
    pub fn zero() -> Rat {
        Rat::int(Big::zero())
    }
    pub fn add(&self, o: &Rat) -> Rat {
        Rat { n: self.n.mul(&o.d).add(&o.n.mul(&self.d)), d: self.d.mul(&o.d) }
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        Rat { n: self.n.mul(&o.d).sub(&o.n.mul(&self.d)), d: self.d.mul(&o.d) }
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        Rat { n: self.n.mul(&o.n), d: self.d.mul(&o.d) }
    }
    pub fn div(&self, o: &Rat) -> Rat {
        Rat::new(self.n.mul(&o.d), self.d.mul(&o.n))
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        self.n.mul(&o.d).cmp(&o.n.mul(&self.d))
    }
    pub fn abs(&self) -> Rat {
        Rat { n: self.n.abs(), d: self.d.clone() }
    }
    pub fn to_f64(&self) -> f64 {
        // scale so the quotient keeps ~53+ significant bits
        let shift = (self.d.bits() as i64 - self.n.bits() as i64 + 70).max(0) as u32;
        let q = self.n.shl(shift).div(&self.d);
        q.to_f64() / 2f64.powi(shift as i32)
    }
}

/// Algebraic self-check of the oracle arithmetic (u128 cross-check and q*b+r=a identities).
pub fn selftest(real: &crate::core::Real) {
    let mut s = 0x9e3779b97f4a7c15u64;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut big = |limbs: u64| {
        let n = 1 + rnd() % limbs;
        let mut v = vec![];
        for _ in 0..n {
            v.push(match rnd() % 4 {
                0 => 0,
                1 => u32::MAX,
                _ => rnd() as u32,
            });
        }
        Big::from_parts(rnd() % 2 == 0, v)
    };
    for _ in 0..300_000 {
        let (a, b, c) = (big(14), big(8), big(4));
        if !b.is_zero() {
            let (q, r) = a.divrem(&b);
            assert_eq!(q.mul(&b).add(&r), a);
            assert!(r.abs() < b.abs());
        }
        assert_eq!(a.add(&b).sub(&b), a);
        assert_eq!(a.mul(&b).add(&a.mul(&c)), a.mul(&b.add(&c)));
        let r = a.abs().isqrt();
        assert!(r.mul(&r) <= a.abs() && r.add(&Big::one()).mul(&r.add(&Big::one())) > a.abs());
        if let (Some(x), Some(y)) = (c.abs().to_u128(), b.abs().to_u128()) {
            if y != 0 {
                assert_eq!(c.abs().div(&b.abs()), Big::from(x / y));
            }
            assert_eq!(x.checked_mul(y).is_some(), Big::from(x).mul(&Big::from(y)).fits_u128());
        }
        assert_eq!(Big::parse(&a.to_string()).unwrap(), a);
    }
    real.say("selftest ok");
}
