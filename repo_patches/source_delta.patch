From a239d11ef9bb4c41dde5815fd5fe37c9a5b2f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 01/46] fix: integer power of a negative decimal has the wrong
 sign

---
 programs/hmmcl-sandbox/src/decimal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 8ee79bd..dea6c86 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -500,7 +500,7 @@ impl Pow<u128> for Decimal {
         let one = Decimal {
             value: self.denominator(),
             scale: self.scale,
-            negative: self.negative,
+            negative: false,
         };
 
         if exp == 0 {
-- 
2.43.0


From bd32880544ada68947affbb017f8ff9c0b8bb272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 02/46] fix: integer power aborts on an unused final squaring
 that overflows

---
 programs/hmmcl-sandbox/src/decimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index dea6c86..2b747ee 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -516,7 +516,10 @@ impl Pow<u128> for Decimal {
                 result = result.mul(base);
             }
             current_exp /= 2;
-            base = base.mul(base);
+            // the square after the last bit is never used, and may not be representable
+            if current_exp > 0 {
+                base = base.mul(base);
+            }
         }
         return result;
     }
-- 
2.43.0


From 43d148dd61a3b35045a4e8f82fe2a810fe6cbf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 03/46] fix: rounding up the scale of a negative decimal drops
 its sign

---
 programs/hmmcl-sandbox/src/decimal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 2b747ee..055a8ff 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -145,13 +145,13 @@ impl Decimal {
             decimal.div_up(Self::new(
                 10u128.pow((self.scale.checked_sub(scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         } else {
             decimal.mul_up(Self::new(
                 10u128.pow((scale.checked_sub(self.scale).unwrap()).try_into().unwrap()),
                 0,
-                self.negative,
+                false,
             ))
         }
     }
-- 
2.43.0


From ce725f12f0489138248539798bb59e4e691e5b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 04/46] fix: comparisons treat negative zero as less than zero

---
 programs/hmmcl-sandbox/src/decimal.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 055a8ff..e68a184 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -570,7 +570,7 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            Ok(self.value == other.value && self.negative == other.negative)
+            Ok(self.value == other.value && self.is_negative() == other.is_negative())
         }
     }
 
@@ -579,11 +579,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value > other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value < other.value)
@@ -596,11 +596,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value < other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value > other.value)
@@ -613,11 +613,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value <= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(false)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(true)
             } else {
                 Ok(self.value >= other.value)
@@ -630,11 +630,11 @@ impl Compare<Decimal> for Decimal {
         if !(self.scale == other.scale) {
             return Err(ErrorCode::DifferentScale.into());
         } else {
-            if self.negative && other.negative {
+            if self.is_negative() && other.is_negative() {
                 Ok(self.value >= other.value)
-            } else if self.negative && !other.negative {
+            } else if self.is_negative() && !other.is_negative() {
                 Ok(true)
-            } else if !self.negative && other.negative {
+            } else if !self.is_negative() && other.is_negative() {
                 Ok(false)
             } else {
                 Ok(self.value <= other.value)
-- 
2.43.0


From 4b8311537cbad9f755c4affaa2d0eb55fd9a100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 05/46] fix: conversion to i32 silently truncates large values

---
 programs/hmmcl-sandbox/src/decimal.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index e68a184..91a5d7d 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -557,9 +557,8 @@ impl Into<f64> for Decimal {
 impl Into<i32> for Decimal {
     fn into(self) -> i32 {
         let sign = if self.negative { -1i32 } else { 1i32 };
-        (self.value as i32)
-            .checked_mul(sign)
-            .expect("signed integer")
+        let value: i32 = self.value.try_into().expect("signed integer");
+        value.checked_mul(sign).expect("signed integer")
     }
 }
 
-- 
2.43.0


From 8711fea80e1e2d65e96750710dbd661c578b58e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 06/46] fix: parsing malformed text aborts instead of returning
 an error

---
 programs/hmmcl-sandbox/src/decimal.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 91a5d7d..2586edf 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -209,7 +209,7 @@ impl Decimal {
             Some(loc) => {
                 // slice up to `loc` and 1 after to skip the 'e' char
                 let (base, exp) = (&s[..loc], &s[loc + 1..]);
-                (base, i64::from_str(exp).unwrap())
+                (base, i64::from_str(exp).map_err(|_| ErrorCode::ParseError)?)
             }
         };
 
@@ -251,12 +251,17 @@ impl Decimal {
             }
         };
 
+        // signs and separators were handled above, only digits may be left
+        if digits.is_empty() || !digits.bytes().all(|digit| digit.is_ascii_digit()) {
+            return Err(ErrorCode::ParseError.into());
+        }
+        let value = u128::from_str_radix(&digits, radix).map_err(|_| ErrorCode::ExceedsRange)?;
+
         let scale = (decimal_offset - exp).abs() as u8;
 
         if exp.is_positive() {
             Ok(Decimal::new(
-                Decimal::from_str(base.as_str())
-                    .expect("decimal of base")
+                Decimal::new(value, decimal_offset as u8, false)
                     .to_scale(exp.abs() as u8)
                     .value,
                 0,
@@ -264,11 +269,7 @@ impl Decimal {
             )
             .to_scale(exp.abs() as u8))
         } else {
-            Ok(Decimal::new(
-                u128::from_str_radix(&digits, radix).unwrap(),
-                scale,
-                negative,
-            ))
+            Ok(Decimal::new(value, scale, negative))
         }
     }
 }
-- 
2.43.0


From 164e2197172df9cbef906a0fddd59ca6526235f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 07/46] fix: parsing loses digits or wraps the scale for some
 exponents

---
 programs/hmmcl-sandbox/src/decimal.rs | 29 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 2586edf..f951b3c 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -257,18 +257,27 @@ impl Decimal {
         }
         let value = u128::from_str_radix(&digits, radix).map_err(|_| ErrorCode::ExceedsRange)?;
 
-        let scale = (decimal_offset - exp).abs() as u8;
-
         if exp.is_positive() {
-            Ok(Decimal::new(
-                Decimal::new(value, decimal_offset as u8, false)
-                    .to_scale(exp.abs() as u8)
-                    .value,
-                0,
-                negative,
-            )
-            .to_scale(exp.abs() as u8))
+            // keep enough decimal places for all the digits of the base
+            let scale = exp.max(decimal_offset);
+            let zeros = exp
+                .checked_sub(decimal_offset)
+                .and_then(|shift| shift.checked_add(scale))
+                .and_then(|zeros| zeros.try_into().ok())
+                .ok_or(ErrorCode::ExceedsRange)?;
+            let value = 10u128
+                .checked_pow(zeros)
+                .and_then(|shift| value.checked_mul(shift))
+                .ok_or(ErrorCode::ExceedsRange)?;
+            let scale = scale
+                .try_into()
+                .map_err(|_| ErrorCode::ExceedsPrecisionRange)?;
+            Ok(Decimal::new(value, scale, negative))
         } else {
+            let scale = decimal_offset
+                .checked_sub(exp)
+                .and_then(|scale| scale.try_into().ok())
+                .ok_or(ErrorCode::ExceedsPrecisionRange)?;
             Ok(Decimal::new(value, scale, negative))
         }
     }
-- 
2.43.0


From 0b2e556b4b0c066301e437d95754b2085e819aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 08/46] fix: square root of a negative decimal is not refused

---
 programs/hmmcl-sandbox/src/decimal.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index f951b3c..6565036 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -265,10 +265,13 @@ impl Decimal {
                 .and_then(|shift| shift.checked_add(scale))
                 .and_then(|zeros| zeros.try_into().ok())
                 .ok_or(ErrorCode::ExceedsRange)?;
-            let value = 10u128
-                .checked_pow(zeros)
-                .and_then(|shift| value.checked_mul(shift))
-                .ok_or(ErrorCode::ExceedsRange)?;
+            let value = match value {
+                0 => 0,
+                value => 10u128
+                    .checked_pow(zeros)
+                    .and_then(|shift| value.checked_mul(shift))
+                    .ok_or(ErrorCode::ExceedsRange)?,
+            };
             let scale = scale
                 .try_into()
                 .map_err(|_| ErrorCode::ExceedsPrecisionRange)?;
@@ -1013,6 +1016,10 @@ impl Sqrt<Decimal> for Decimal {
             return Err(ErrorCode::ExceedsRange.into());
         }
 
+        if self.is_negative() {
+            return Err(ErrorCode::SignedDecimalsNotSupported.into());
+        }
+
         if self.eq(zero).unwrap() || self.eq(one).unwrap() {
             return Ok(self.clone());
         }
-- 
2.43.0


From eb04286e8a5e56d03a745d6dcf41ecd67729c5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 09/46] fix: a swap ending between ticks leaves the tick off
 the spacing grid

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index ef9d991..2358d7d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -699,7 +699,7 @@ impl<'a> Pool<'a> {
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, goal_tick - 1);
+            end_t = self.rp_to_possible_tick(end_rp, false, goal_tick - 1);
             // * this loop happens only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after 'log')
 
@@ -963,7 +963,7 @@ impl<'a> Pool<'a> {
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
             // start seeking the goal from tick under current tick, that can be initialized
             let seek_start = self.tick_to_possible_tick(self.glbl_tick() - 1, false);
-            end_t = Pool::rp_to_tick_loop(end_rp, false, seek_start);
+            end_t = self.rp_to_possible_tick(end_rp, false, seek_start);
             // * this log is take only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From 280348ce90c4738a253d042d818b6dab5e65b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 10/46] fix: a swap ending exactly on an active tick skips its
 crossing

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 2358d7d..690f33b 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -699,7 +699,8 @@ impl<'a> Pool<'a> {
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = self.rp_to_possible_tick(end_rp, false, goal_tick - 1);
+            // the goal tick is not crossed, so seek from there
+            end_t = self.rp_to_possible_tick(end_rp, false, goal_tick);
             // * this loop happens only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after 'log')
 
@@ -961,9 +962,10 @@ impl<'a> Pool<'a> {
             fee_y = dy.sub(dy_max).unwrap(); // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            // start seeking the goal from tick under current tick, that can be initialized
-            let seek_start = self.tick_to_possible_tick(self.glbl_tick() - 1, false);
-            end_t = self.rp_to_possible_tick(end_rp, false, seek_start);
+            // start seeking from current tick; the goal tick is not crossed, so stay under it
+            end_t = self
+                .rp_to_possible_tick(end_rp, false, self.glbl_tick())
+                .min(self.tick_to_possible_tick(goal_tick - 1, false));
             // * this log is take only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From 0f822b8a439b83a0e3778e5ffb52c50b52a97346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 11/46] fix: tick found for a price drifts from the price of
 that tick

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index 0212fb2..fbe420c 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -50,17 +50,24 @@ pub trait PoolMath {
         let m = Self::tick_base_root();
         let mut rez = m.pow(start);
         let mut x = start;
-        let result = loop {
+        loop {
             rez = rez.mul(m);
             if rez.gte(rp).unwrap() {
-                match left_to_right {
-                    true => break x.checked_add(1).unwrap(),
-                    false => break x,
-                }
+                break;
             }
             x = x.checked_add(1).unwrap();
-        };
-        result
+        }
+        // the running product loses digits at every step, settle on what tick_to_rp gives
+        while x > start && Self::tick_to_rp(x).gte(rp).unwrap() {
+            x -= 1;
+        }
+        while Self::tick_to_rp(x.checked_add(1).unwrap()).lt(rp).unwrap() {
+            x = x.checked_add(1).unwrap();
+        }
+        match left_to_right {
+            true => x.checked_add(1).unwrap(),
+            false => x,
+        }
     }
 
     fn tk_to_possible_tk(tick: u128, spacing: u128, left_to_right: bool) -> u128 {
-- 
2.43.0


From 3dee2ab70891326aad364b1e1bd9f8e35da630cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 12/46] fix: price after an x swap is rounded in the trader's
 favour

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 5 +++--
 programs/hmmcl-sandbox/src/cl_pool/mod.rs     | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index fbe420c..d630c87 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -369,13 +369,14 @@ pub trait PoolMath {
         // drp_inv = dx / l = (1/rp_new - 1/rp_old)
         // after solving for rp_new: rp_new = (l * rp_old) / (dx*rp_old + l)
 
-        let numerator = l.mul(rp_old);
+        // round up, so that the price never moves further than what dx pays for
+        let numerator = l.mul_up(rp_old);
         let denom = dx.mul(rp_old).add(l).unwrap();
         if denom.is_zero() {
             panic!("rp_new_from_l_dx : (dx*rp_old + l) should not be nil");
         }
 
-        let rez = numerator.div(denom);
+        let rez = numerator.div_up(denom);
         if rez.is_negative() {
             panic!("rp_new_from_l_dx : result rp should always be positive");
         }
diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 690f33b..7328aae 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -698,7 +698,7 @@ impl<'a> Pool<'a> {
             done_dx = dx_max;
             fee_x = dx.sub(dx_max).unwrap(); // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
+            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx).min(start_rp);
             // the goal tick is not crossed, so seek from there
             end_t = self.rp_to_possible_tick(end_rp, false, goal_tick);
             // * this loop happens only once per trade if price ends in-between ticks
-- 
2.43.0


From 41d67289523c26560a11e43f64697d8f5ed59d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 13/46] fix: x amounts are inflated by the rounding of their
 denominator

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index d630c87..e4d2d2e 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -157,10 +157,8 @@ pub trait PoolMath {
         let rp = rp.min(rpb).max(rpa);
 
         let rpb_minus_rp = rpb.sub(rp).unwrap();
-        let rp_mul_rpb = rp.mul(rpb);
-
-        // l * (rpb - rp) / (rp * rpb)
-        l.mul(rpb_minus_rp).div(rp_mul_rpb)
+        // l * (rpb - rp) / (rp * rpb) //* a rounded down product would round the result up
+        l.mul(rpb_minus_rp).div(rp).div(rpb)
     }
 
     fn x_from_l_tick_rng(l: Decimal, t: u128, ta: u128, tb: u128) -> Decimal {
@@ -268,9 +266,7 @@ pub trait PoolMath {
             panic!("root price should not be nil");
         }
         let diff = rp_old.sub(rp_new).unwrap();
-        let old_mul_new = rp_old.mul(rp_new);
-
-        l.mul(diff).div(old_mul_new)
+        l.mul(diff).div(rp_old).div(rp_new)
     }
 
     fn dy_from_l_drp(l: Decimal, rp_old: Decimal, rp_new: Decimal) -> Decimal {
-- 
2.43.0


From ef8e1a0d700091332f43a3f670c1b112fc0f513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 14/46] fix: last withdrawal or swap aborts when rounding left
 the reserve short

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 16 ++++++++++++++++
 programs/hmmcl-sandbox/src/cl_pool/mod.rs     |  6 ++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index e4d2d2e..aec4b58 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -15,6 +15,12 @@ pub trait PoolMath {
         negative: false,
     }; //* still NEEDED for rounding down withdrawals, avoid out_qty > reserve by tiny amt
 
+    const ROUNDING_DUST: Decimal = Decimal {
+        value: 1000,
+        scale: COMPUTE_SCALE,
+        negative: false,
+    }; //* more than what rounding alone makes reserves fall short by
+
     fn zero() -> Decimal {
         Decimal::default().to_compute_scale()
     }
@@ -25,6 +31,16 @@ pub trait PoolMath {
         Decimal::two().to_compute_scale()
     }
 
+    fn cap_rounding_dust(payout: Decimal, reserve: Decimal) -> Decimal {
+        // deposits and swaps are rounded one by one, so their sum may be short of the last payout
+        // by rounding dust. Pay out the reserve in that case, leave the payout alone otherwise
+        let short = payout.sub(reserve).unwrap();
+        match short.is_positive() && short.lte(Self::ROUNDING_DUST).unwrap() {
+            true => reserve,
+            false => payout,
+        }
+    }
+
     fn tick_base() -> Decimal {
         Decimal::new(10001_u128, 4_u8, false).to_compute_scale()
     }
diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 7328aae..ebf2a95 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -615,8 +615,8 @@ impl<'a> Pool<'a> {
 
         // round down amount withdrawn if necessary, as precation
         let adj_factor = Self::one().sub(Self::ADJ_WITHDRAWAL).unwrap();
-        x_out = x_out.mul(adj_factor);
-        y_out = y_out.mul(adj_factor);
+        x_out = Self::cap_rounding_dust(x_out.mul(adj_factor), self.x);
+        y_out = Self::cap_rounding_dust(y_out.mul(adj_factor), self.y);
 
         // add fees on top of what user will receive
         let x_sent = x_out.add(fees_x).unwrap().add(adj_x).unwrap();
@@ -713,6 +713,7 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dY ( done Y quantity) and hmm_adj_Y (hmm related fee)
         let done_dy_cpmm = Pool::dy_from_l_drp(liq, start_rp, end_rp);
+        let done_dy_cpmm = Self::cap_rounding_dust(done_dy_cpmm.neg(), self.y).neg();
         if self.c.is_zero() || rp_oracle.is_zero() || rp_oracle.gte(start_rp).unwrap() {
             // also when rP_oracle is None (zero)
             // in cases where no oracle or no hmm c=0, we cannot adjust so we fall back to amm
@@ -978,6 +979,7 @@ impl<'a> Pool<'a> {
         }
         // now figure out how much done_dX and hmm_adj_X
         let done_dx_cpmm = Pool::dx_from_l_drp(liq, start_rp, end_rp);
+        let done_dx_cpmm = Self::cap_rounding_dust(done_dx_cpmm.neg(), self.x).neg();
 
         if self.c.is_zero() || rp_oracle.is_zero() || rp_oracle.lte(start_rp).unwrap() {
             // also also rP_oracle is None (zero)
-- 
2.43.0


From e2d32bd09aae5c379f1b791ad7245ac7c0811d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:14 +0000
Subject: [PATCH 15/46] fix: a new position collects fees earned before it
 existed

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index ebf2a95..f196bc9 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -407,7 +407,7 @@ impl<'a> Pool<'a> {
         let new_hr_y = self.fee_rng(lower_tick, upper_tick, 'y', 'h');
 
         // then get old fee value from when position was last touched.(set below)
-        // set to 0 as default for when new position
+        // (the new one for a new position)
         let mut old_fr_x = Self::zero();
         let mut old_fr_y = Self::zero();
         let mut old_hr_x = Self::zero();
@@ -427,14 +427,13 @@ impl<'a> Pool<'a> {
                 }
                 self.positions.insert(
                     key,
-                    PositionState::new(
-                        liq_delta,
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                        Self::zero(),
-                    ),
+                    PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
                 );
+                // nothing earned before the position existed
+                old_fr_x = new_fr_x;
+                old_fr_y = new_fr_y;
+                old_hr_x = new_hr_x;
+                old_hr_y = new_hr_y;
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
-- 
2.43.0


From 5651d3d146009cd9b523bb259fd7032fba1bfea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 16/46] fix: deposit aborts on a range whose fee growth reads
 negative

---
 programs/hmmcl-sandbox/src/cl_pool/cl_components.rs | 4 +---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs           | 9 +++------
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
index fef37b5..a3384f6 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_components.rs
@@ -196,9 +196,7 @@ impl PositionState {
         if liq.is_negative() {
             panic!("position liquidity cannot be negative");
         }
-        if fr_x.is_negative() || fr_y.is_negative() || hr_x.is_negative() || hr_y.is_negative() {
-            panic!("fee cannot be negative");
-        }
+        // fee growths inside a range are relative, they can be negative
         Self {
             liq,
             fr_x,
diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index f196bc9..0ec68bd 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -382,12 +382,9 @@ impl<'a> Pool<'a> {
         assert_eq!(sum_lwr, sum_upr);
         let fg = sum_lwr;
 
-        let fee_earned = fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap();
-        if fee_earned.is_negative() {
-            panic!("fees earned cannot be negative");
-        }
-
-        fee_earned
+        // only differences between two readings of this mean something. It can be negative, when
+        // the lower tick was initialized after fees had accrued above the upper tick
+        fg.sub(f_blw_lwr).unwrap().sub(f_abv_upr).unwrap()
     }
 
     fn _set_position(
-- 
2.43.0


From 60d81b2f7281075bbcc38b1061675df1d6381fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 17/46] fix: hmm swap aborts over a tiny price move

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 0ec68bd..2f104d6 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -721,17 +721,21 @@ impl<'a> Pool<'a> {
             // it is left in for precision and readability
             // * when oracle is in between start_rP and end_rP prices, use hmm
             // * till we reach oracle price then use unadjusted amm till we reach end_rP
-            let done_dy_1 = Pool::dy_from_l_drp_hmm(liq, start_rp, rp_oracle, self.c, rp_oracle);
+            let done_dy_1 = Pool::dy_from_l_drp_hmm(liq, start_rp, rp_oracle, self.c, rp_oracle)
+                .min(Self::zero());
             let done_dy_2 = Pool::dy_from_l_drp(liq, rp_oracle, end_rp);
             if done_dy_1.is_positive() || done_dy_2.is_positive() {
                 panic!("expect (each component of) done_dY < 0 when X supplied to pool")
             }
-            done_dy = done_dy_1.add(done_dy_2).unwrap();
+            // log and pow are approximate: over a tiny move hmm can come out above amm, or below 0
+            done_dy = done_dy_1.add(done_dy_2).unwrap().max(done_dy_cpmm);
         } else if rp_oracle.lt(end_rp).unwrap() {
             // * when trade will make pool price converge to oracle price
             // * and end_rP won't reach the oracle price
             // * then use hmm all the way
-            done_dy = Pool::dy_from_l_drp_hmm(liq, start_rp, end_rp, self.c, rp_oracle);
+            done_dy = Pool::dy_from_l_drp_hmm(liq, start_rp, end_rp, self.c, rp_oracle)
+                .min(Self::zero())
+                .max(done_dy_cpmm);
         } else {
             // we don't expect to hit this. raise error if we do hit
             panic!("HMM adjstment: possibilities should have been exhausted by now");
@@ -988,16 +992,20 @@ impl<'a> Pool<'a> {
             // it is added for precision and readability
             // * when oracle is in between start_rP and end_rP prices, use hmm
             // * till we reach oracle price then use unadjusted amm till end_rP
-            let done_dx_1 = Pool::dx_from_l_drp_hmm(liq, start_rp, rp_oracle, self.c, rp_oracle);
+            let done_dx_1 = Pool::dx_from_l_drp_hmm(liq, start_rp, rp_oracle, self.c, rp_oracle)
+                .min(Self::zero());
             let done_dx_2 = Pool::dx_from_l_drp(liq, rp_oracle, end_rp);
             if done_dx_1.is_positive() || done_dx_2.is_positive() {
                 panic!("expect (each component of) done_dX < 0 when Y supplied to pool")
             }
-            done_dx = done_dx_1.add(done_dx_2).unwrap();
+            // log and pow are approximate: over a tiny move hmm can come out above amm, or below 0
+            done_dx = done_dx_1.add(done_dx_2).unwrap().max(done_dx_cpmm);
         } else if rp_oracle.gt(end_rp).unwrap() {
             // * when trade will make pool price converge to oracle price
             // * and end_rP won't reach the oracle price then use hmm all the way
-            done_dx = Pool::dx_from_l_drp_hmm(liq, start_rp, end_rp, self.c, rp_oracle);
+            done_dx = Pool::dx_from_l_drp_hmm(liq, start_rp, end_rp, self.c, rp_oracle)
+                .min(Self::zero())
+                .max(done_dx_cpmm);
         } else {
             //we don't expect to hit this branch raise error if we do hit
             panic!("HMM adjstment: possibilities should have been exhausted by now");
-- 
2.43.0


From 1bcfc27105683c8c640c9702d248d8c4b2a35125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 18/46] fix: tiny x swap to a tick aborts on the rounding of
 its average price

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 2f104d6..9a1635f 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -756,7 +756,9 @@ impl<'a> Pool<'a> {
         }
         // avoid numerical noise for very small trades relative to liquidity
         if !done_dx.is_zero() && !done_dy.is_zero() {
-            let avg_price = done_dy.neg().div(done_dx.add(fee_x).unwrap());
+            // (done_dX was rounded down when it is all that is doable)
+            let recv = done_dx.add(fee_x).unwrap().add(Self::ROUNDING_DUST).unwrap();
+            let avg_price = done_dy.neg().div(recv);
             if avg_price.gt(start_rp.pow(2)).unwrap() {
                 panic!("pool cannot buy X at a greater avg price than starting price");
             }
-- 
2.43.0


From 648173c4843b17660ff3ffdc89c0eb085b74b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 19/46] fix: hmm payout in y has the wrong sign when c is 1

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs       | 4 ++--
 programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs | 2 +-
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index aec4b58..edbd2fc 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -351,10 +351,10 @@ pub trait PoolMath {
             panic!("root-prices should not be nil");
         }
         if c.to_compute_scale().eq(one).unwrap() {
-            // l * rp_oracle * (rp_old / rp_new).ln()
+            // l * rp_oracle * (rp_new / rp_old).ln()
             let ln_rp_old = rp_old.ln().unwrap();
             let ln_rp_new = rp_new.ln().unwrap();
-            let log_of_ratio = ln_rp_old.sub(ln_rp_new).unwrap();
+            let log_of_ratio = ln_rp_new.sub(ln_rp_old).unwrap();
 
             return l.mul(rp_oracle).mul(log_of_ratio);
         } else {
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index f7dc987..e21be1d 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -152,7 +152,7 @@ pub trait PoolMath {
     fn dy_from_l_drp_hmm(l: f64, rp_old: f64, rp_new: f64, c: f64, rp_oracle: f64) -> f64 {
         // chg of reserve y based of chg of price with hmm adj
         if c == 1.0 {
-            l * rp_oracle * (rp_old / rp_new).ln()
+            l * rp_oracle * (rp_new / rp_old).ln()
         } else {
             let omc = 1.0 - c; // one minus c
             l * rp_oracle.powf(c) * (rp_new.powf(omc) - rp_old.powf(omc)) / omc
diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index ebe0968..93b0f51 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -264,7 +264,7 @@ class Pool:
     def dY_from_L_drP_hmm(L, rP_old, rP_new, C, rP_oracle):
         """Chg of reserve Y based of chg of price with HMM adj"""
         if C == 1.0:
-            return L * rP_oracle * math.log(rP_old / rP_new)
+            return L * rP_oracle * math.log(rP_new / rP_old)
         else:
             omc = 1.0 - C  # one minus C
             return L * (rP_oracle ** C) * (rP_new ** omc - rP_old ** omc) / omc
-- 
2.43.0


From 02e45cfc9be32cf76ed066a72622c6ea4e0ac362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:23 +0000
Subject: [PATCH 20/46] fix: float swap ending between ticks leaves the tick
 off the spacing grid

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 4b13b2c..6609df4 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -564,7 +564,7 @@ impl<'a> Pool<'a> {
             fee_x = dx - dx_max; // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            end_t = self.rp_to_possible_tick(end_rp, false);
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
@@ -803,7 +803,7 @@ impl<'a> Pool<'a> {
             fee_y = dy - dy_max; // fee as expected
             cross = false;
             end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            end_t = Pool::rp_to_tick(end_rp, false);
+            end_t = self.rp_to_possible_tick(end_rp, false);
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From 3f3f711428553556e7dd5fcf7570f1f26d8cb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 21/46] fix: float swap ending exactly on an active tick skips
 its crossing

---
 .../hmmcl-sandbox/src/cl_pool_float/mod.rs    | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 6609df4..dcfe13b 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -563,8 +563,15 @@ impl<'a> Pool<'a> {
             done_dx = dx_max;
             fee_x = dx - dx_max; // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx);
-            end_t = self.rp_to_possible_tick(end_rp, false);
+            // rounding must not take it out of [goal, start]
+            end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx)
+                .min(start_rp)
+                .max(rp_goal);
+            // the log is approximate; neither the goal nor the current tick's upper end is crossed
+            end_t = self
+                .rp_to_possible_tick(end_rp, false)
+                .max(goal_tick)
+                .min(self.glbl_tick());
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
@@ -802,8 +809,15 @@ impl<'a> Pool<'a> {
             done_dy = dy_max;
             fee_y = dy - dy_max; // fee as expected
             cross = false;
-            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy);
-            end_t = self.rp_to_possible_tick(end_rp, false);
+            // rounding must not take it out of [start, goal]
+            end_rp = Pool::rp_new_from_l_dy(liq, start_rp, done_dy)
+                .max(start_rp)
+                .min(rp_goal);
+            // the log is approximate; the goal tick is not crossed, so stay under it
+            end_t = self
+                .rp_to_possible_tick(end_rp, false)
+                .max(self.glbl_tick())
+                .min(self.tick_to_possible_tick(goal_tick - 1, false));
             // * this log is take only once per trade if end between ticks
             // * tick is always on the left (round down after log)
 
-- 
2.43.0


From 28f3b0f08152edc66c89da0d809f5d7821d270af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:06 +0000
Subject: [PATCH 22/46] fix: a new position in the float pool collects earlier
 fees

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index dcfe13b..e613f8a 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -358,7 +358,7 @@ impl<'a> Pool<'a> {
         let new_hr_y = self.fee_rng(lower_tick, upper_tick, 'y', 'h');
 
         // then get old value from when position was last touched.(set below)
-        // set to 0 as default for when new position
+        // (the new one for a new position)
         let (mut old_fr_x, mut old_fr_y, mut old_hr_x, mut old_hr_y) = (0.0, 0.0, 0.0, 0.0);
         // liquidity to use for computing fee amounts (set below)
         let mut base = 0.0;
@@ -373,8 +373,15 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
-                self.positions
-                    .insert(key, PositionState::new(liq_delta, 0.0, 0.0, 0.0, 0.0));
+                self.positions.insert(
+                    key,
+                    PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
+                );
+                // nothing earned before the position existed
+                old_fr_x = new_fr_x;
+                old_fr_y = new_fr_y;
+                old_hr_x = new_hr_x;
+                old_hr_y = new_hr_y;
             }
             Some(poz) => {
                 // get old value for feed from when position was last touched
-- 
2.43.0


From 0acc0707161339100a3226f2e11f66eeee66a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 23/46] fix: float deposits and withdrawals abort on the
 rounding of fee growth

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index e613f8a..c533982 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -331,14 +331,10 @@ impl<'a> Pool<'a> {
 
     fn fee_rng(&self, lower_tick: u32, upper_tick: u32, token: char, f_or_h: char) -> f64 {
         // Fees earned (per unit of liq) within a range of ticks (e.g. by a position)
-        let (f_blw_lwr, f_abv_lwr) = self.fee_below_above(lower_tick, token, f_or_h);
-        let (f_blw_upr, f_abv_upr) = self.fee_below_above(upper_tick, token, f_or_h);
+        let (f_blw_lwr, _) = self.fee_below_above(lower_tick, token, f_or_h);
+        let (_, f_abv_upr) = self.fee_below_above(upper_tick, token, f_or_h);
 
-        // retrieve fg by summing up either tuple, they should match
-        assert_eq!(f_blw_lwr + f_abv_lwr, f_blw_upr + f_abv_upr);
-        let fg = f_blw_lwr + f_abv_lwr;
-
-        fg - f_blw_lwr - f_abv_upr
+        self.glbl_fee(token, f_or_h) - f_blw_lwr - f_abv_upr
     }
 
     fn _set_position(
@@ -410,9 +406,9 @@ impl<'a> Pool<'a> {
             }
         }
         // now calulate uncollected fees to be applied
-        let (f_u_x, f_u_y) = (new_fr_x - old_fr_x, new_fr_y - old_fr_y);
-        let (h_u_x, h_u_y) = (new_hr_x - old_hr_x, new_hr_y - old_hr_y);
-        assert!(f_u_x >= 0.0 && f_u_y >= 0.0 && h_u_x >= 0.0 && h_u_y >= 0.0);
+        // (never negative, but for rounding)
+        let (f_u_x, f_u_y) = ((new_fr_x - old_fr_x).max(0.0), (new_fr_y - old_fr_y).max(0.0));
+        let (h_u_x, h_u_y) = ((new_hr_x - old_hr_x).max(0.0), (new_hr_y - old_hr_y).max(0.0));
 
         // update tick states for lower and upper
         self.update_tick(lower_tick, liq_delta, false);
-- 
2.43.0


From 8b2db80c9369c6459269ea5c2c8c0f8ae9dd7b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 24/46] fix: float deposit aborts on the rounding of the amount
 used

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index c533982..5264cb2 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -447,12 +447,14 @@ impl<'a> Pool<'a> {
 
         let x_in = Pool::x_from_l_rp_rng(liq, rp_used, rpa_used, rpb_used);
         let y_in = Pool::y_from_l_rp_rng(liq, rp_used, rpa_used, rpb_used);
-        if x_in > x {
+        if x_in > x * (1.0 + Self::ADJ_WHOLE_FILL) {
             panic!("used x amt cannot exceed provided amount");
         }
-        if y_in > y {
+        if y_in > y * (1.0 + Self::ADJ_WHOLE_FILL) {
             panic!("used y amt cannot exceed provided amount");
         }
+        // (but for rounding)
+        let (x_in, y_in) = (x_in.min(x), y_in.min(y));
 
         let (fees_x, fees_y, adj_x, adj_y) =
             self._set_position(user_id, lower_tick, upper_tick, liq);
-- 
2.43.0


From 84a1f38df3d00f415e95f88efcf569bfca31c714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 25/46] fix: last float withdrawal or swap aborts when rounding
 left the reserve short

---
 .../hmmcl-sandbox/src/cl_pool_float/cl_math.rs   | 13 +++++++++++++
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs  | 16 ++++++++++++----
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index e21be1d..98efc98 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -4,8 +4,21 @@ pub trait PoolMath {
     const TICK_BASE: f64 = 1.0001;
     const ADJ_WHOLE_FILL: f64 = 1.0e-12;
     const ADJ_WITHDRAWAL: f64 = 1.0e-12;
+    // what the rounding of many deposits and swaps may leave a reserve short by
+    // (absolute, and relative to the payout)
+    const ROUNDING_DUST: f64 = 1.0e-6;
+    const ROUNDING_DUST_REL: f64 = 1.0e-9;
     const FLOOR_LIQ: bool = true;
 
+    fn cap_rounding_dust(payout: f64, reserve: f64) -> f64 {
+        // pay out the reserve when it is short by no more than rounding dust
+        let dust = Self::ROUNDING_DUST + payout * Self::ROUNDING_DUST_REL;
+        match payout > reserve && payout - reserve <= dust {
+            true => reserve,
+            false => payout,
+        }
+    }
+
     fn tick_to_rp(tick: u32) -> f64 {
         Self::TICK_BASE.sqrt().powf(tick as f64)
     }
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 5264cb2..2d8d7b0 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -503,6 +503,8 @@ impl<'a> Pool<'a> {
         // round down amount withdrawn if necessary, as precation
         x_out *= 1.0 - Pool::ADJ_WITHDRAWAL;
         y_out *= 1.0 - Pool::ADJ_WITHDRAWAL;
+        x_out = Self::cap_rounding_dust(x_out, self.x);
+        y_out = Self::cap_rounding_dust(y_out, self.y);
 
         // add fees on to what user will receive
         let x_sent = x_out + fees_x + adj_x;
@@ -615,6 +617,8 @@ impl<'a> Pool<'a> {
         // adjust conservatively to avoid rounding issues.
         done_dy *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dy_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
+        done_dy_cpmm = -Self::cap_rounding_dust(-done_dy_cpmm, self.y);
+        done_dy = done_dy.max(done_dy_cpmm);
 
         hmm_adj_y = done_dy - done_dy_cpmm;
 
@@ -711,7 +715,8 @@ impl<'a> Pool<'a> {
                     cross = rez.cross();
                     hmm_adj_y = rez.send_hmm_adj();
                     fee_x = rez.recv_fee();
-                    assert!(self.y + done_dy - hmm_adj_y >= 0.0);
+                    let new_y = self.y + (done_dy - hmm_adj_y); // adj out of reserves into fees
+                    assert!(new_y >= -Pool::ROUNDING_DUST);
                     assert!(dx - swpd_dx >= done_dx + fee_x);
 
                     // update local totals
@@ -726,7 +731,7 @@ impl<'a> Pool<'a> {
                     self.set_glbl_tick(curr_t);
                     self.set_glbl_rp(curr_rp);
                     self.x += done_dx;
-                    self.y += done_dy - hmm_adj_y; // adj out of reserves into fees
+                    self.y = new_y.max(0.0);
                     self.x_fee += fee_x;
                     self.y_adj += hmm_adj_y;
 
@@ -861,6 +866,8 @@ impl<'a> Pool<'a> {
         // adjust to prevent rounding issues
         done_dx_cpmm *= 1.0 - Pool::ADJ_WHOLE_FILL;
         done_dx *= 1.0 - Pool::ADJ_WHOLE_FILL;
+        done_dx_cpmm = -Self::cap_rounding_dust(-done_dx_cpmm, self.x);
+        done_dx = done_dx.max(done_dx_cpmm);
 
         hmm_adj_x = done_dx - done_dx_cpmm;
 
@@ -958,7 +965,8 @@ impl<'a> Pool<'a> {
                     cross = rez.cross();
                     hmm_adj_x = rez.send_hmm_adj();
                     fee_y = rez.recv_fee();
-                    assert!(self.x + done_dx - hmm_adj_x >= 0.0);
+                    let new_x = self.x + (done_dx - hmm_adj_x); // adj out of reserves into fees
+                    assert!(new_x >= -Pool::ROUNDING_DUST);
                     assert!(dy - swpd_dy >= done_dy + fee_y);
 
                     // update local totals
@@ -972,7 +980,7 @@ impl<'a> Pool<'a> {
                     // update global state to reflect price change (if any) & reserves
                     self.set_glbl_tick(curr_t);
                     self.set_glbl_rp(curr_rp);
-                    self.x += done_dx - hmm_adj_x; // adj out of reserves into fees
+                    self.x = new_x.max(0.0);
                     self.y += done_dy;
                     self.x_adj += hmm_adj_x;
                     self.y_fee += fee_y;
-- 
2.43.0


From 114661a2f6404c81e10168f30f02836b761b0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:48 +0000
Subject: [PATCH 26/46] fix: a swap down to tick 0 aborts below it instead of
 ending there

---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 8 ++++++--
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 9a1635f..22b4035 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -686,7 +686,7 @@ impl<'a> Pool<'a> {
             done_dx = doable_dx;
             // reverse engineer how much fees charged based on how much done_dX
             fee_x = done_dx.div(fee_factor).mul(self.fee_rate);
-            cross = true; // because we'll need to cross and do extra swap_withins
+            cross = goal_tick > 0; // because we'll need to cross and do extra swap_withins
             end_t = goal_tick; // swap so far moves price to level at this tick
             end_rp = rp_goal; // ensure use same rP at tick borders, avoid log
         } else {
@@ -795,7 +795,11 @@ impl<'a> Pool<'a> {
             let (end_t, cross);
 
             if self.glbl_liq().is_positive() {
-                goal_tick = self.get_left_limit_of_swap_within(curr_t);
+                // tick 0 is the lowest price there is, it is never crossed
+                goal_tick = match curr_rp.gt(Self::tick_to_rp(0)).unwrap() {
+                    true => self.get_left_limit_of_swap_within(curr_t),
+                    false => None,
+                };
             } else {
                 // try move into range; if not possible then break out to end swap
                 println!("Gap in liquidity... trying to get in range...");
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 2d8d7b0..8651d75 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -562,7 +562,7 @@ impl<'a> Pool<'a> {
             done_dx = doable_dx;
             // reverse engineer how much fees charged based on how much done_dX
             fee_x = done_dx / (1.0 - self.fee_rate) * self.fee_rate;
-            cross = true; // because we'll need to cross and do extra swaps
+            cross = goal_tick > 0; // because we'll need to cross and do extra swaps
             end_t = goal_tick; // swap so far moves price to level at this tick
             end_rp = rp_goal; // ensure use same rP at tick borders, avoid log
         } else {
@@ -662,7 +662,11 @@ impl<'a> Pool<'a> {
             let (end_t, cross);
 
             if self.glbl_liq() > 0.0 {
-                goal_tick = self.get_left_limit_of_swap_within(curr_t);
+                // tick 0 is the lowest price there is, it is never crossed
+                goal_tick = match curr_rp > Self::tick_to_rp(0) {
+                    true => self.get_left_limit_of_swap_within(curr_t),
+                    false => None,
+                };
             } else {
                 // try move into range, if cannot then break out to end swap
                 println!("Gap in liquidity... trying to get in range...");
-- 
2.43.0


From 990dec7e87116f9a80542e13541af2f8d07d83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:57 +0000
Subject: [PATCH 27/46] fix: the price of a tick is mapped to the tick below it

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 10 ++++++++--
 programs/hmmcl-sandbox/src/cl_pool/mod.rs     |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index edbd2fc..cb7b754 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -80,8 +80,14 @@ pub trait PoolMath {
         while Self::tick_to_rp(x.checked_add(1).unwrap()).lt(rp).unwrap() {
             x = x.checked_add(1).unwrap();
         }
-        match left_to_right {
-            true => x.checked_add(1).unwrap(),
+        // now tick_to_rp(x) < rp <= tick_to_rp(x + 1), or x is where the search started.
+        // the price of a tick belongs to that tick, whichever way we round
+        let up = x.checked_add(1).unwrap();
+        if Self::tick_to_rp(up).eq(rp).unwrap() {
+            return up;
+        }
+        match left_to_right && Self::tick_to_rp(x).lt(rp).unwrap() {
+            true => up,
             false => x,
         }
     }
diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 22b4035..0400a84 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -696,7 +696,9 @@ impl<'a> Pool<'a> {
             cross = false;
             end_rp = Pool::rp_new_from_l_dx(liq, start_rp, done_dx).min(start_rp);
             // the goal tick is not crossed, so seek from there
-            end_t = self.rp_to_possible_tick(end_rp, false, goal_tick);
+            end_t = self
+                .rp_to_possible_tick(end_rp, false, goal_tick)
+                .min(self.glbl_tick());
             // * this loop happens only once per trade if price ends in-between ticks
             // * tick is always on the left (round down after 'log')
 
-- 
2.43.0


From 0745e4b8e7357cc612648fe7d1cb52d6e83eb74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:59 +0000
Subject: [PATCH 28/46] fix: float log maps the price of a tick to the tick
 below it

---
 .../hmmcl-sandbox/src/cl_pool_float/cl_math.rs     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
index 98efc98..4dfdc46 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/cl_math.rs
@@ -25,9 +25,17 @@ pub trait PoolMath {
 
     fn rp_to_tick(rp: f64, left_to_right: bool) -> u32 {
         let base = Self::TICK_BASE.sqrt();
-        match left_to_right {
-            true => rp.log(base).ceil() as u32,
-            false => rp.log(base).floor() as u32,
+        let mut tick = rp.log(base).floor() as u32;
+        // the log is approximate, settle on what tick_to_rp gives
+        while tick > 0 && Self::tick_to_rp(tick) > rp {
+            tick -= 1;
+        }
+        while tick < u32::MAX && Self::tick_to_rp(tick + 1) <= rp {
+            tick += 1;
+        }
+        match left_to_right && Self::tick_to_rp(tick) < rp {
+            true => tick + 1,
+            false => tick,
         }
     }
 
-- 
2.43.0


From 54b538441da4fba8d6dac0f2f1fd79cca6ca1ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:57 +0000
Subject: [PATCH 29/46] fix: logarithm of small decimals loses its digits

---
 programs/hmmcl-sandbox/src/decimal.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 6565036..670c0ec 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -961,9 +961,15 @@ impl Ln<Decimal> for Decimal {
         // TODO: calculate with higher compute scale when big_mul is implemented otherwise overflow
         let max = Decimal::from_u64(2)
             .to_scale(6)
-            .pow(bit_length_decimal.to_scale(6))
+            .pow(Decimal::new(bit_length_decimal.value, 0, false).to_scale(6))
             .to_compute_scale();
 
+        // a negative power of two would lose its digits, multiply by the positive one instead
+        let (scaled_out, max) = match bit_length_decimal.negative {
+            true => (scaled_out.mul(max), Decimal::one().to_compute_scale()),
+            false => (scaled_out, max),
+        };
+
         let (s_0, t_0, lx_0) = log_table_value(scaled_out, max, 0);
         let (s_1, t_1, lx_1) = log_table_value(s_0, t_0, 1);
         let (s_2, t_2, lx_2) = log_table_value(s_1, t_1, 2);
-- 
2.43.0


From e5a79ae26b06560dabedbd079ca92b9907564d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:15 +0000
Subject: [PATCH 30/46] fix: upper tick of a price from its logarithm is
 rounded down

---
 programs/hmmcl-sandbox/src/cl_pool/cl_math.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
index cb7b754..431c550 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/cl_math.rs
@@ -55,11 +55,15 @@ pub trait PoolMath {
 
     fn rp_to_tick(rp: Decimal, left_to_right: bool) -> u128 {
         let base = Self::tick_base_root();
-        let tick_decimal = match left_to_right {
-            true => rp.ln().unwrap().div_up(base.ln().unwrap()),
-            false => rp.ln().unwrap().div(base.ln().unwrap()),
-        };
-        tick_decimal.to_scale(0).value as u128
+        match left_to_right {
+            true => rp
+                .ln()
+                .unwrap()
+                .div_up(base.ln().unwrap())
+                .to_scale_up(0)
+                .value as u128,
+            false => rp.ln().unwrap().div(base.ln().unwrap()).to_scale(0).value as u128,
+        }
     }
 
     fn rp_to_tick_loop(rp: Decimal, left_to_right: bool, start: u128) -> u128 {
-- 
2.43.0


From ee2c30fc0864fa64ca8e4b5f0af10c7808cb33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:37 +0000
Subject: [PATCH 31/46] fix: logarithm of a number just below a power of two

---
 programs/hmmcl-sandbox/src/decimal.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/decimal.rs b/programs/hmmcl-sandbox/src/decimal.rs
index 670c0ec..9e93987 100644
--- a/programs/hmmcl-sandbox/src/decimal.rs
+++ b/programs/hmmcl-sandbox/src/decimal.rs
@@ -970,6 +970,15 @@ impl Ln<Decimal> for Decimal {
             false => (scaled_out, max),
         };
 
+        // the bit length is rounded up just below a power of two
+        let (scaled_out, bit_length_decimal) = match scaled_out.value < max.value {
+            true => (
+                scaled_out.add(scaled_out).unwrap(),
+                bit_length_decimal.sub(Decimal::from_u64(1)).unwrap(),
+            ),
+            false => (scaled_out, bit_length_decimal),
+        };
+
         let (s_0, t_0, lx_0) = log_table_value(scaled_out, max, 0);
         let (s_1, t_1, lx_1) = log_table_value(s_0, t_0, 1);
         let (s_2, t_2, lx_2) = log_table_value(s_1, t_1, 2);
-- 
2.43.0


From 9bb8829e63e4556f0311bc39982cf54656a666d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 32/46] fix: deposits and withdrawals with a bound at the
 current tick lost the tick's update

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs  | 3 ++-
 programs/hmmcl-sandbox/src/instructions/withdraw.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index 3c6dbcc..de7a62d 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -65,8 +65,9 @@ pub struct Deposit<'info> {
     )]
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
+    // read only: it may be the same account as lower_ or upper_tick_state, whose update
+    // writing back this stale copy would undo
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
diff --git a/programs/hmmcl-sandbox/src/instructions/withdraw.rs b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
index 4af12c6..b4549e1 100644
--- a/programs/hmmcl-sandbox/src/instructions/withdraw.rs
+++ b/programs/hmmcl-sandbox/src/instructions/withdraw.rs
@@ -67,8 +67,9 @@ pub struct Withdraw<'info> {
     )]
     pub upper_tick_state: Box<Account<'info, TickState>>,
 
+    // read only: it may be the same account as lower_ or upper_tick_state, whose update
+    // writing back this stale copy would undo
     #[account(
-        mut,
         seeds = [b"tick", pool_state.key().as_ref(), current_tick.to_le_bytes().as_ref()],
         bump = current_tick_state.bump,
         constraint = current_tick_state.tick == current_tick,
-- 
2.43.0


From 5d809ee753cdf2ba51f2ca4ccc2ef295b3500baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 33/46] fix: deposits rounded the amounts paid in down, giving
 away liquidity the vaults did not cover

---
 programs/hmmcl-sandbox/src/instructions/deposit.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/instructions/deposit.rs b/programs/hmmcl-sandbox/src/instructions/deposit.rs
index de7a62d..b62c1fc 100644
--- a/programs/hmmcl-sandbox/src/instructions/deposit.rs
+++ b/programs/hmmcl-sandbox/src/instructions/deposit.rs
@@ -303,21 +303,21 @@ pub fn handle(
         liquidity_delta.abs(),
     )?;
 
-    // transfer to vault
+    // transfer to vault, rounding up so that the vault always covers what it owes
     token::transfer(
         ctx.accounts.transfer_user_token_x_to_vault(),
-        x_debited.abs(),
+        x_debited.abs_up(),
     )?;
 
     // transfer to vault
     token::transfer(
         ctx.accounts.transfer_user_token_y_to_vault(),
-        y_debited.abs(),
+        y_debited.abs_up(),
     )?;
 
     emit!(LiquidityAdded {
-        tokens_x_transferred: x_debited.abs(),
-        tokens_y_transferred: y_debited.abs(),
+        tokens_x_transferred: x_debited.abs_up(),
+        tokens_y_transferred: y_debited.abs_up(),
         lp_tokens_minted: liquidity_delta.abs(),
     });
 
-- 
2.43.0


From 9d01cda6cd19906da302a3c148a4e8c9a734b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 34/46] fix: a deposit or withdrawal of nothing creates no
 position

Both pools recorded a position without liquidity (and a fee snapshot at
that moment) for a zero deposit, a deposit too small to be granted any
liquidity, or a zero withdrawal over a range the user does not hold.
---
 programs/hmmcl-sandbox/src/cl_pool/mod.rs       | 4 ++++
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool/mod.rs b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
index 0400a84..3fd66fb 100644
--- a/programs/hmmcl-sandbox/src/cl_pool/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool/mod.rs
@@ -422,6 +422,10 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
+                if liq_delta.is_zero() {
+                    // nothing provided, nothing to claim
+                    return (Self::zero(), Self::zero(), Self::zero(), Self::zero());
+                }
                 self.positions.insert(
                     key,
                     PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index 8651d75..ea3a36e 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -369,6 +369,10 @@ impl<'a> Pool<'a> {
                     // abort if withdrawal liq exceeds position liquidity
                     panic!("cannot newly provide negative liquidity");
                 }
+                if liq_delta == 0.0 {
+                    // nothing provided, nothing to claim
+                    return (0.0, 0.0, 0.0, 0.0);
+                }
                 self.positions.insert(
                     key,
                     PositionState::new(liq_delta, new_fr_x, new_fr_y, new_hr_x, new_hr_y),
-- 
2.43.0


From 45f438269cfd43faf46afcb1a4eca3503e393188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 35/46] fix: float pool refuses deposits and withdrawals over
 an empty or inverted range

As the decimal pool does. A deposit over an empty range divided by zero
and recorded a position with infinite liquidity.
---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index ea3a36e..e1e2339 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -435,6 +435,9 @@ impl<'a> Pool<'a> {
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
         let upper_tick = self.rp_to_possible_tick(rpb, false);
+        if upper_tick <= lower_tick {
+            panic!("upper bound needs to be above lower bound");
+        }
         let rpa_used = Pool::tick_to_rp(lower_tick);
         let rpb_used = Pool::tick_to_rp(upper_tick);
         let rp_used = self.glbl_rp();
@@ -492,6 +495,9 @@ impl<'a> Pool<'a> {
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
         let upper_tick = self.rp_to_possible_tick(rpb, false);
+        if upper_tick <= lower_tick {
+            panic!("upper bound needs to be above lower bound");
+        }
         let rpa_used = Pool::tick_to_rp(lower_tick);
         let rpb_used = Pool::tick_to_rp(upper_tick);
 
-- 
2.43.0


From 92c791eb7af4ea7770c795ef88461347947864f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 36/46] fix: python pool prices deposits and withdrawals at the
 tick instead of the pool price

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py     | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 93b0f51..09b7599 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -605,17 +605,19 @@ class Pool:
         lower_tick = self.rP_to_possible_tick(rPa, left_to_right=False)
         upper_tick = self.rP_to_possible_tick(rPb, left_to_right=False)
 
-        tk = self.global_state.tick
+        rPa_used = Pool.tick_to_rP(lower_tick)
+        rPb_used = Pool.tick_to_rP(upper_tick)
+        rP_used = self.global_state.rP
         # TODO should we use Oracle price here instead? or real price as param
         # ? only when no liquidity in range?
 
-        liq = Pool._liq_from_x_y_rP_rng(x, y, tk, lower_tick, upper_tick)
+        liq = Pool.liq_from_x_y_rP_rng(x, y, rP_used, rPa_used, rPb_used)
         # round down to avoid float rounding vulnerabilities
         # TODO choose what precision to round down to.
         liq = math.floor(liq)
 
-        x_in = Pool._x_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
-        y_in = Pool._y_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
+        x_in = Pool.x_from_L_rP_rng(liq, rP_used, rPa_used, rPb_used)
+        y_in = Pool.y_from_L_rP_rng(liq, rP_used, rPa_used, rPb_used)
         assert x_in <= x, "used x amt cannot excess provided amount"
         assert y_in <= y, "used y amt cannot excess provided amount"
 
@@ -650,12 +652,14 @@ class Pool:
             user_id, lower_tick, upper_tick, liq_delta=-liq
         )
 
-        tk = self.global_state.tick
+        rPa_used = Pool.tick_to_rP(lower_tick)
+        rPb_used = Pool.tick_to_rP(upper_tick)
+        rP_used = self.global_state.rP
         # TODO should we use Oracle price here instead? or real price as param
         # ? only when no liquidity in range?
 
-        x_out = Pool._x_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
-        y_out = Pool._y_from_L_rP_rng(liq, tk, lower_tick, upper_tick)
+        x_out = Pool.x_from_L_rP_rng(liq, rP_used, rPa_used, rPb_used)
+        y_out = Pool.y_from_L_rP_rng(liq, rP_used, rPa_used, rPb_used)
         # round down amount withdrawn if necessary, as precation
         x_out *= 1 - Pool.ADJ_WITHDRAWAL
         y_out *= 1 - Pool.ADJ_WITHDRAWAL
-- 
2.43.0


From ef02b5a273599169ec0f811dd09a2dfb9af5b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 37/46] fix: python pool: a deposit or withdrawal of nothing
 creates no position

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 09b7599..8eef093 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -548,6 +548,9 @@ class Pool:
             if liq_delta < 0.0:
                 # abort if withdrawal liq exceeds position liquidity
                 raise Exception("cannot newly provide negative liquidity")
+            if liq_delta == 0.0:
+                # nothing provided, nothing to claim
+                return 0.0, 0.0, 0.0, 0.0
             # creates a new position
             self.positions[key] = PositionState(
                 liq=liq_delta, fr_x=0.0, fr_y=0.0, hr_x=0.0, hr_y=0.0
-- 
2.43.0


From 0af354cb926b64102ae75ce629ee3486e9699f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 38/46] fix: python pool: a new position collects earlier fees

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 8eef093..cbebea9 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -533,7 +533,7 @@ class Pool:
         new_hr_y = self.fee_rng(lower_tick, upper_tick, for_x=False, swp=False)
 
         # then get old value from when position was last touched.(set below)
-        # set to 0 as default for when new position
+        # (the new one for a new position)
         old_fr_x, old_fr_y = 0.0, 0.0
         old_hr_x, old_hr_y = 0.0, 0.0
         # liquidity to use for computing fee amounts (set below)
@@ -553,8 +553,15 @@ class Pool:
                 return 0.0, 0.0, 0.0, 0.0
             # creates a new position
             self.positions[key] = PositionState(
-                liq=liq_delta, fr_x=0.0, fr_y=0.0, hr_x=0.0, hr_y=0.0
+                liq=liq_delta,
+                fr_x=new_fr_x,
+                fr_y=new_fr_y,
+                hr_x=new_hr_x,
+                hr_y=new_hr_y,
             )
+            # nothing earned before the position existed
+            old_fr_x, old_fr_y = new_fr_x, new_fr_y
+            old_hr_x, old_hr_y = new_hr_x, new_hr_y
         else:
             # get old value for feed from when position was last touched
             old_fr_x, old_fr_y = poz.fr_x, poz.fr_y
-- 
2.43.0


From 1d87c45affefc69e025e7d31ba1dfa662ddaceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:02 +0000
Subject: [PATCH 39/46] fix: python pool: swap ending between ticks leaves the
 tick off the spacing grid

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index cbebea9..85a5260 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -731,7 +731,7 @@ class Pool:
             fee_X = dX - dX_max  # fee as expected
             cross = False
             end_rP = Pool.rP_new_from_L_dX(L, start_rP, done_dX)
-            end_t = Pool.rP_to_tick(end_rP, False)
+            end_t = self.rP_to_possible_tick(end_rP, False)
             # * this log is take only once per trade if end between ticks
             # * tick is always on the left (round down after log)
 
@@ -943,7 +943,7 @@ class Pool:
             fee_Y = dY - dY_max  # fee as expected
             cross = False
             end_rP = Pool.rP_new_from_L_dY(L, start_rP, done_dY)
-            end_t = Pool.rP_to_tick(end_rP, False)
+            end_t = self.rP_to_possible_tick(end_rP, False)
             # * this log is take only once per trade if end between ticks
             # * tick is always on the left (round down after log)
 
-- 
2.43.0


From f37a50be7973fe76c866611182f7f605d6585008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:13 +0000
Subject: [PATCH 40/46] fix: python pool: swap ending exactly on an active tick
 skips its crossing

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 85a5260..cf5a906 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -731,7 +731,12 @@ class Pool:
             fee_X = dX - dX_max  # fee as expected
             cross = False
             end_rP = Pool.rP_new_from_L_dX(L, start_rP, done_dX)
+            # rounding must not take it out of [goal, start]
+            end_rP = max(min(end_rP, start_rP), rP_goal)
+            # the log is approximate; neither the goal nor the current tick's
+            # upper end is crossed
             end_t = self.rP_to_possible_tick(end_rP, False)
+            end_t = min(max(end_t, goal_tick), self.global_state.tick)
             # * this log is take only once per trade if end between ticks
             # * tick is always on the left (round down after log)
 
@@ -943,7 +948,13 @@ class Pool:
             fee_Y = dY - dY_max  # fee as expected
             cross = False
             end_rP = Pool.rP_new_from_L_dY(L, start_rP, done_dY)
+            # rounding must not take it out of [start, goal]
+            end_rP = min(max(end_rP, start_rP), rP_goal)
+            # the log is approximate; the goal tick is not crossed, so stay
+            # under it
             end_t = self.rP_to_possible_tick(end_rP, False)
+            under_goal = self.tick_to_possible_tick(goal_tick - 1, False)
+            end_t = min(max(end_t, self.global_state.tick), under_goal)
             # * this log is take only once per trade if end between ticks
             # * tick is always on the left (round down after log)
 
-- 
2.43.0


From ee7960c1061395e7d8474b741dad49f79ef696cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 41/46] fix: python pool: deposits and withdrawals abort on the
 rounding of fee growth

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py    | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index cf5a906..14b9590 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -511,12 +511,12 @@ class Pool:
         return (f_below, f_above)
 
     def fee_rng(self, lower_tick, upper_tick, for_x=True, swp=True):
-        f_blw_lwr, f_abv_lwr = self.fee_below_above(lower_tick, for_x, swp)
-        f_blw_upr, f_abv_upr = self.fee_below_above(upper_tick, for_x, swp)
+        f_blw_lwr, _ = self.fee_below_above(lower_tick, for_x, swp)
+        _, f_abv_upr = self.fee_below_above(upper_tick, for_x, swp)
 
-        # retrieve fg by summing up either tuple, they should match
-        assert f_blw_lwr + f_abv_lwr == f_blw_upr + f_abv_upr
-        fg = f_blw_lwr + f_abv_lwr
+        token = "x" if for_x else "y"
+        which = "f" if swp else "h"
+        fg = getattr(self.global_state, f"{which}g_{token}")
 
         return fg - f_blw_lwr - f_abv_upr
 
@@ -585,12 +585,11 @@ class Pool:
                     hr_y=new_hr_y,
                 )
         # now calulate uncollected fees to be applied
-        f_u_x = new_fr_x - old_fr_x
-        f_u_y = new_fr_y - old_fr_y
-        h_u_x = new_hr_x - old_hr_x
-        h_u_y = new_hr_y - old_hr_y
-        assert f_u_x >= 0.0 and f_u_y >= 0.0
-        assert h_u_x >= 0.0 and h_u_y >= 0.0
+        # (never negative, but for rounding)
+        f_u_x = max(new_fr_x - old_fr_x, 0.0)
+        f_u_y = max(new_fr_y - old_fr_y, 0.0)
+        h_u_x = max(new_hr_x - old_hr_x, 0.0)
+        h_u_y = max(new_hr_y - old_hr_y, 0.0)
 
         # update tick states for lower and upper
         self.update_tick(lower_tick, liq_delta, upper=False)
-- 
2.43.0


From f6778e0e88f674ea4bf9827b52b0c0b62d004af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 42/46] fix: python pool: last withdrawal or swap fails when
 rounding left the reserve short

---
 .../hmmcl-sandbox/src/cl_python/v3_pool.py    | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 14b9590..75e8a67 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -68,6 +68,10 @@ class Pool:
     TICK_BASE = 1.0001
     ADJ_WHOLE_FILL = 1e-12
     ADJ_WITHDRAWAL = 0e-8
+    # what the rounding of many deposits and swaps may leave a reserve short by
+    # (absolute, and relative to the payout)
+    ROUNDING_DUST = 1e-6
+    ROUNDING_DUST_REL = 1e-9
 
     def __init__(
         self,
@@ -144,6 +148,14 @@ class Pool:
             for k, v in self.positions.items():
                 print(f"poz '{k}': {v}")
 
+    @staticmethod
+    def cap_rounding_dust(payout, reserve):
+        """pay out the reserve when it is short by no more than rounding dust"""
+        dust = Pool.ROUNDING_DUST + payout * Pool.ROUNDING_DUST_REL
+        if payout > reserve and payout - reserve <= dust:
+            return reserve
+        return payout
+
     @staticmethod
     def liq_x_only(x, rPa, rPb):
         """Lx : liquidity amount when liquidity fully composed of  token x
@@ -672,6 +684,8 @@ class Pool:
         # round down amount withdrawn if necessary, as precation
         x_out *= 1 - Pool.ADJ_WITHDRAWAL
         y_out *= 1 - Pool.ADJ_WITHDRAWAL
+        x_out = Pool.cap_rounding_dust(x_out, self.X)
+        y_out = Pool.cap_rounding_dust(y_out, self.Y)
 
         # add fees on to what user will receive
         x_sent = x_out + fees_x + adj_x
@@ -787,6 +801,8 @@ class Pool:
         # adjust conservatively to avoid rounding issues.
         done_dY *= 1 - Pool.ADJ_WHOLE_FILL
         done_dY_amm *= 1 - Pool.ADJ_WHOLE_FILL
+        done_dY_amm = -Pool.cap_rounding_dust(-done_dY_amm, self.Y)
+        done_dY = max(done_dY, done_dY_amm)
 
         hmm_adj_Y = done_dY - done_dY_amm
 
@@ -861,7 +877,8 @@ class Pool:
                 dX=dX - swpd_dX,
                 rP_oracle=rP_oracle,
             )
-            assert self.Y + done_dY - hmm_adj_Y >= 0.0
+            new_Y = self.Y + (done_dY - hmm_adj_Y)  # adj out of reserves into fees
+            assert new_Y >= -Pool.ROUNDING_DUST
             assert dX - swpd_dX >= done_dX + fee_X
 
             swpd_dX += done_dX + fee_X  # gross for input token
@@ -875,7 +892,7 @@ class Pool:
             self.global_state.tick = curr_t
             self.global_state.rP = curr_rP
             self.X += done_dX
-            self.Y += done_dY - hmm_adj_Y  # adj out of reserves into fees
+            self.Y = max(new_Y, 0.0)
             self.X_fee += fee_X
             self.Y_adj += hmm_adj_Y
             if self.global_state.L > 0.0:
@@ -1005,6 +1022,8 @@ class Pool:
         # adjust to prevent rounding issues
         done_dX_amm *= 1 - Pool.ADJ_WHOLE_FILL
         done_dX *= 1 - Pool.ADJ_WHOLE_FILL
+        done_dX_amm = -Pool.cap_rounding_dust(-done_dX_amm, self.X)
+        done_dX = max(done_dX, done_dX_amm)
 
         hmm_adj_X = done_dX - done_dX_amm
 
@@ -1082,7 +1101,8 @@ class Pool:
                 dY=dY - swpd_dY,
                 rP_oracle=rP_oracle,
             )
-            assert self.X + done_dX - hmm_adj_X >= 0.0
+            new_X = self.X + (done_dX - hmm_adj_X)  # adj out of reserves into fees
+            assert new_X >= -Pool.ROUNDING_DUST
             assert dY - swpd_dY >= done_dY + fee_Y
 
             swpd_dX += done_dX  # net for output token
@@ -1095,7 +1115,7 @@ class Pool:
             # update global state to reflect price change (if any) & reserves
             self.global_state.tick = curr_t
             self.global_state.rP = curr_rP
-            self.X += done_dX - hmm_adj_X  # adj out of reserves into fees
+            self.X = max(new_X, 0.0)
             self.Y += done_dY
             self.X_adj += hmm_adj_X
             self.Y_fee += fee_Y
-- 
2.43.0


From ef396271119e87ff3de066a244222d40b3d1f6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 43/46] fix: python pool: deposit aborts on the rounding of the
 amount used

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 75e8a67..e2c2b2e 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -639,8 +639,11 @@ class Pool:
 
         x_in = Pool.x_from_L_rP_rng(liq, rP_used, rPa_used, rPb_used)
         y_in = Pool.y_from_L_rP_rng(liq, rP_used, rPa_used, rPb_used)
-        assert x_in <= x, "used x amt cannot excess provided amount"
-        assert y_in <= y, "used y amt cannot excess provided amount"
+        # (but for rounding)
+        whole = 1 + Pool.ADJ_WHOLE_FILL
+        assert x_in <= x * whole, "used x amt cannot excess provided amount"
+        assert y_in <= y * whole, "used y amt cannot excess provided amount"
+        x_in, y_in = min(x_in, x), min(y_in, y)
 
         fees_x, fees_y, adj_x, adj_y = self._set_position(
             user_id, lower_tick, upper_tick, liq_delta=liq
-- 
2.43.0


From 5978bf18b95bcb8b7d3ec496d343f300b6d75111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:44 +0000
Subject: [PATCH 44/46] fix: python pool: the log maps a price next to that of
 a tick to the wrong side

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index e2c2b2e..5e270c3 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -299,10 +299,16 @@ class Pool:
     @staticmethod
     def rP_to_tick(rP, left_to_right=False):
         d = math.pow(Pool.TICK_BASE, 1 / 2)
-        if left_to_right is True:
-            return math.ceil(math.log(rP, d))
+        tick = math.floor(math.log(rP, d))
+        # the log is approximate, settle on what tick_to_rP gives
+        while Pool.tick_to_rP(tick) > rP:
+            tick -= 1
+        while Pool.tick_to_rP(tick + 1) <= rP:
+            tick += 1
+        if left_to_right is True and Pool.tick_to_rP(tick) < rP:
+            return tick + 1
         else:
-            return math.floor(math.log(rP, d))
+            return tick
 
     # TODO add memo() method which saves states b4 swap/deposit etc
     # + and reinstates them if exception raised at any point during op
-- 
2.43.0


From 9edf67788d421ca25fce8135e35ccc75b7010ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 45/46] fix: fractional float withdrawals leave liquidity
 behind or abort the last one

---
 programs/hmmcl-sandbox/src/cl_pool_float/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
index e1e2339..620b161 100644
--- a/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
+++ b/programs/hmmcl-sandbox/src/cl_pool_float/mod.rs
@@ -491,6 +491,8 @@ impl<'a> Pool<'a> {
         if liq < 0.0 {
             panic!("can only withdraw positive amounts")
         }
+        // whole units, as in deposits: fractions added up do not cancel out exactly
+        let liq = if Self::FLOOR_LIQ { liq.ceil() } else { liq };
 
         // calculate ticks that will be used to track position
         let lower_tick = self.rp_to_possible_tick(rpa, false);
-- 
2.43.0


From 6c3a1173edf16b7323bfe2dde79991cc9dc81059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 46/46] fix: python pool: fractional withdrawals leave
 liquidity behind or abort the last one

---
 programs/hmmcl-sandbox/src/cl_python/v3_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
index 5e270c3..24ca658 100644
--- a/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
+++ b/programs/hmmcl-sandbox/src/cl_python/v3_pool.py
@@ -673,6 +673,8 @@ class Pool:
     def withdraw(self, user_id, liq, rPa, rPb):
         """interface to withdraw liquidity from pool"""
         assert liq >= 0.0
+        # whole units, as in deposits: fractions added up do not cancel out exactly
+        liq = math.ceil(liq)
 
         # calculate ticks that will be used to track position
         lower_tick = self.rP_to_possible_tick(rPa, left_to_right=False)
-- 
2.43.0

