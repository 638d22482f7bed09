From 2d51da86bea7f0e0f257b251659b166c971f55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:07 +0000
Subject: [PATCH 01/27] fix: Ema2 has a value once it reports maturity

The first value was assigned one update after mature() turned true and skipped
the first price of the series.
---
 juno/src/indicators/ema2.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/juno/src/indicators/ema2.rs b/juno/src/indicators/ema2.rs
index d834e41..6a0dd4d 100644
--- a/juno/src/indicators/ema2.rs
+++ b/juno/src/indicators/ema2.rs
@@ -47,17 +47,17 @@ impl MA for Ema2 {
     }
 
     fn update(&mut self, price: f64) {
+        self.t = min(self.t + 1, self.t2);
+
         if self.t <= self.t1 {
             self.sma.update(price);
         }
 
         if self.t == self.t1 {
-            self.value = self.sma.value
+            self.value = self.sma.value;
         } else if self.t >= self.t2 {
             self.value = (price - self.value) * self.a + self.value;
         }
-
-        self.t = min(self.t + 1, self.t2)
     }
 
     fn value(&self) -> f64 {
-- 
2.43.0


From 927d3071e24d61c8d5e9987c3bdacf8afd1b06b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:07 +0000
Subject: [PATCH 02/27] fix: Adx announces the maturity it reaches and averages
 zero DX values

maturity() ignored that smoothing only starts once DX is mature, and bars with
DX zero were left out of the average, delaying maturity further.
---
 juno/src/indicators/adx.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/juno/src/indicators/adx.rs b/juno/src/indicators/adx.rs
index 8747c9f..ee842e3 100644
--- a/juno/src/indicators/adx.rs
+++ b/juno/src/indicators/adx.rs
@@ -3,7 +3,6 @@ use super::{
     smma::{Smma, SmmaParams},
     MA,
 };
-use std::cmp::max;
 
 pub struct Adx {
     pub value: f64,
@@ -21,20 +20,18 @@ impl Adx {
     }
 
     pub fn maturity(&self) -> u32 {
-        max(self.dx.maturity(), self.smma.maturity())
+        self.dx.maturity() + self.smma.maturity() - 1
     }
 
     pub fn mature(&self) -> bool {
-        self.dx.mature() && self.smma.mature()
+        self.smma.mature()
     }
 
     pub fn update(&mut self, high: f64, low: f64) {
         self.dx.update(high, low);
-        self.value = if self.dx.value == 0.0 {
-            0.0
-        } else {
+        if self.dx.mature() {
             self.smma.update(self.dx.value);
-            self.smma.value
+            self.value = self.smma.value;
         }
     }
 }
-- 
2.43.0


From cc7740792e6b1de5ca9583bab78d506f0522780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 03/27] fix: flat price windows no longer turn DX and Stoch
 into NaN for good

0 / 0 went into the running sums of the moving averages and never left them.
---
 juno/src/indicators/dx.rs    | 8 +++++++-
 juno/src/indicators/stoch.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/dx.rs b/juno/src/indicators/dx.rs
index 90d2080..aac72ba 100644
--- a/juno/src/indicators/dx.rs
+++ b/juno/src/indicators/dx.rs
@@ -32,7 +32,13 @@ impl DX {
         self.dm.update(high, low);
 
         if self.t >= self.t1 {
-            self.value = self.dm.diff() / self.dm.sum() * 100.0;
+            let sum = self.dm.sum();
+            // No directional movement at all; avoid dividing by zero.
+            self.value = if sum == 0.0 {
+                0.0
+            } else {
+                self.dm.diff() / sum * 100.0
+            };
         }
     }
 }
diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index 874f630..186d9d7 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -58,7 +58,13 @@ impl Stoch {
         if self.t >= self.t1 {
             let max_high = self.k_high_window.iter().cloned().fold(f64::MIN, f64::max);
             let min_low = self.k_low_window.iter().cloned().fold(f64::MAX, f64::min);
-            let fast_k = 100.0 * (close - min_low) / (max_high - min_low);
+            let range = max_high - min_low;
+            // A flat window has no range; avoid dividing by zero.
+            let fast_k = if range == 0.0 {
+                0.0
+            } else {
+                100.0 * (close - min_low) / range
+            };
 
             self.k_sma.update(fast_k);
 
-- 
2.43.0


From 9aa91a6e2b8c04474af49545f04d73fe3286ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:15 +0000
Subject: [PATCH 04/27] fix: FourWeekRule waits for its moving average to
 mature

---
 juno/src/strategies/four_week_rule.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index ba83253..bae4a06 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -10,7 +10,7 @@ use indicators::EmaParams;
 use juno_derive::*;
 use rand::prelude::*;
 use serde::{Deserialize, Serialize};
-use std::cmp::min;
+use std::cmp::{max, min};
 
 #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
 pub struct FourWeekRuleParams {
@@ -51,12 +51,13 @@ pub struct FourWeekRule {
 
 impl FourWeekRule {
     pub fn new(params: &FourWeekRuleParams, _meta: &StrategyMeta) -> Self {
+        let ma = params.ma.construct();
         Self {
             prices: BoundedVecDeque::new(params.period as usize),
-            ma: params.ma.construct(),
             advice: Advice::None,
             t: 0,
-            t1: params.period + 1,
+            t1: max(params.period + 1, ma.maturity()),
+            ma,
         }
     }
 }
-- 
2.43.0


From a7fccba9f5da0cc341aefa707a3b938e6868bbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 05/27] fix: ceil_multiple is exact for all 64-bit values

---
 juno/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index ff83f03..4450ebf 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -1,5 +1,5 @@
 pub fn ceil_multiple(value: u64, multiple: u64) -> u64 {
-    f64::ceil(value as f64 / multiple as f64) as u64 * multiple
+    value.div_ceil(multiple) * multiple
 }
 
 pub fn ceil_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
-- 
2.43.0


From 59ea699f3e81f25dfc7434cc626ece61a01ee7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 06/27] fix: ceiling to a week works before the first Monday
 since the epoch

---
 juno/src/math.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index 4450ebf..88c51a7 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -3,7 +3,12 @@ pub fn ceil_multiple(value: u64, multiple: u64) -> u64 {
 }
 
 pub fn ceil_multiple_offset(value: u64, multiple: u64, offset: u64) -> u64 {
-    ceil_multiple(value - offset, multiple) + offset
+    let offset = offset % multiple;
+    if value <= offset {
+        offset
+    } else {
+        ceil_multiple(value - offset, multiple) + offset
+    }
 }
 
 pub fn floor_multiple(value: u64, multiple: u64) -> u64 {
-- 
2.43.0


From 8ca7a63cf421e4e337719bf2a35bf86c57a3d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 07/27] fix: rounding to ten or more decimals no longer
 overflows

---
 juno/src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index 88c51a7..6556940 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -50,12 +50,12 @@ pub fn std_deviation(data: &[f64]) -> f64 {
 }
 
 pub fn round_down(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).floor() / factor
 }
 
 pub fn round_half_up(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).round() / factor
 }
 
-- 
2.43.0


From 694a80a0b5d5f2b22298e9b13fc9584ebd76d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 08/27] fix: the first instant of a month is its own ceiling

---
 juno/src/primitives/timestamp.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index c57e649..8b12e79 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -72,6 +72,9 @@ impl Timestamp {
             return Self(ceil_multiple_offset(self.0, interval.0, WEEK_OFFSET_MS));
         }
         if interval == Interval::MONTH_MS {
+            if self.floor(interval) == *self {
+                return *self;
+            }
             let dt = datetime_utcfromtimestamp_ms(self.0);
             let (mut year, mut month, _) = dt.to_calendar_date();
             if month == Month::December {
-- 
2.43.0


From ffea86f4a2b942258290873e40465f2803dc72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 09/27] fix: instants before the epoch are a parse error

---
 juno/src/primitives/timestamp.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index 8b12e79..a899abb 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -105,20 +105,11 @@ impl FromStr for Timestamp {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Err(())
-            .or_else(|_| {
-                OffsetDateTime::parse(s, &Rfc3339)
-                    .map(|x| (x.unix_timestamp_nanos() / 1_000_000) as u64)
-            })
-            .or_else(|_| {
-                Date::parse(s, &DATE_FORMAT).map(|x| {
-                    (x.with_hms(0, 0, 0)
-                        .unwrap()
-                        .assume_offset(UtcOffset::UTC)
-                        .unix_timestamp_nanos()
-                        / 1_000_000) as u64
-                })
-            })
+        let dt = OffsetDateTime::parse(s, &Rfc3339)
+            .or_else(|_| Date::parse(s, &DATE_FORMAT).map(|x| x.midnight().assume_utc()))
+            .map_err(|_| Self::Err {})?;
+        // Instants before the epoch cannot be represented.
+        u64::try_from(dt.unix_timestamp_nanos().div_euclid(1_000_000))
             .map(Self)
             .map_err(|_| Self::Err {})
     }
-- 
2.43.0


From 32bb5c8bfd84c7dd090e0be1c42591387e067e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 10/27] fix: malformed intervals are a parse error instead of
 zero or a panic

---
 juno/src/primitives/interval.rs | 35 +++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/juno/src/primitives/interval.rs b/juno/src/primitives/interval.rs
index 733750a..b590d16 100644
--- a/juno/src/primitives/interval.rs
+++ b/juno/src/primitives/interval.rs
@@ -1,5 +1,4 @@
 use once_cell::sync::Lazy;
-use regex::Regex;
 use serde::{de, Deserialize, Deserializer, Serialize};
 use std::{
     collections::HashMap,
@@ -33,15 +32,29 @@ const INTERVAL_FACTORS: [(&str, u64); 8] = [
 static INTERVAL_FACTOR_MAP: Lazy<HashMap<&'static str, u64>> =
     Lazy::new(|| INTERVAL_FACTORS.iter().cloned().collect());
 
-static INTERVAL_GROUP_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\d+[a-zA-Z]+)").unwrap());
+fn calc_interval_group(value: &str, unit: &str) -> Option<u64> {
+    value
+        .parse::<u64>()
+        .ok()?
+        .checked_mul(*INTERVAL_FACTOR_MAP.get(unit)?)
+}
 
-fn calc_interval_group(group: &str) -> u64 {
-    for (i, c) in group.chars().enumerate() {
-        if c.is_alphabetic() {
-            return group[0..i].parse::<u64>().unwrap() * INTERVAL_FACTOR_MAP[&group[i..]];
-        }
+fn calc_interval(mut s: &str) -> Option<u64> {
+    let mut result = None;
+    while !s.is_empty() {
+        let (value, rest) = s.split_at(s.find(|c: char| !c.is_ascii_digit())?);
+        let (unit, rest) = rest.split_at(
+            rest.find(|c: char| c.is_ascii_digit())
+                .unwrap_or(rest.len()),
+        );
+        result = Some(
+            result
+                .unwrap_or(0_u64)
+                .checked_add(calc_interval_group(value, unit)?)?,
+        );
+        s = rest;
     }
-    panic!("Invalid interval group: {group}");
+    result
 }
 
 #[derive(Debug, Default, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize)]
@@ -87,11 +100,7 @@ impl FromStr for Interval {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(
-            INTERVAL_GROUP_RE
-                .find_iter(s)
-                .fold(0, |acc, group| acc + calc_interval_group(group.as_str())),
-        ))
+        calc_interval(s).map(Self).ok_or(Self::Err {})
     }
 }
 
-- 
2.43.0


From 1a612a98ddf7a6594d3647014ea493c557d1e531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 11/27] fix: a zero maximum or step disables that size limit
 everywhere

---
 juno/src/filters.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/juno/src/filters.rs b/juno/src/filters.rs
index 2ba584e..5003539 100644
--- a/juno/src/filters.rs
+++ b/juno/src/filters.rs
@@ -57,12 +57,20 @@ impl Size {
         if size < self.min {
             return 0.0;
         }
-        size = f64::min(size, self.max);
-        (size / self.step).ceil() * self.step
+        if self.max > 0.0 {
+            size = f64::min(size, self.max);
+        }
+        if self.step > 0.0 {
+            size = (size / self.step).ceil() * self.step;
+        }
+
+        size
     }
 
     pub fn valid(&self, size: f64) -> bool {
-        size >= self.min && size <= self.max && (size - self.min) % self.step == 0.0
+        (self.min == 0.0 || size >= self.min)
+            && (self.max == 0.0 || size <= self.max)
+            && (self.step == 0.0 || (size - self.min) % self.step == 0.0)
     }
 }
 
-- 
2.43.0


From 3ece70b30185fa2b4d4073de20e58b129c2aede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 12/27] fix: an aggregate candle after a gap starts at its
 interval

---
 juno/src/utils/buffered_candle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/juno/src/utils/buffered_candle.rs b/juno/src/utils/buffered_candle.rs
index b50ef9a..59b12ca 100644
--- a/juno/src/utils/buffered_candle.rs
+++ b/juno/src/utils/buffered_candle.rs
@@ -66,7 +66,10 @@ impl BufferedCandle {
             if is_last {
                 panic!("too many missing candles");
             }
-            self.buffer_candle = Some(*candle);
+            self.buffer_candle = Some(Candle {
+                time: candle.time.floor(self.buffer_interval),
+                ..*candle
+            });
             Some(Cow::Owned(ret))
         } else if is_last {
             Some(Cow::Owned(self.buffer_candle.take().unwrap()))
-- 
2.43.0


From 53ae5516a2e9d3107f324b0beee397bcf375e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:52 +0000
Subject: [PATCH 13/27] fix: pages cover a range that is not a whole number of
 intervals

---
 juno/src/utils/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index 3e2e436..a43acdc 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -74,9 +74,8 @@ pub fn generate_missing_spans(
 }
 
 pub fn page(start: u64, end: u64, interval: u64, limit: u64) -> impl Iterator<Item = (u64, u64)> {
-    let total_size = (end - start) / interval;
     let max_count = limit * interval;
-    let page_size = (total_size as f64 / limit as f64).ceil() as u64;
+    let page_size = (end - start).div_ceil(max_count);
     (0..page_size).map(move |i| {
         let page_start = start + i * max_count;
         let page_end = u64::min(page_start + max_count, end);
-- 
2.43.0


From f58a6b4ee832c05b8d78704750e74c9bf460148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:00 +0000
Subject: [PATCH 14/27] fix: missing spans stay within the requested range

---
 juno/src/utils/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/juno/src/utils/mod.rs b/juno/src/utils/mod.rs
index a43acdc..ad9a134 100644
--- a/juno/src/utils/mod.rs
+++ b/juno/src/utils/mod.rs
@@ -60,10 +60,11 @@ pub fn generate_missing_spans(
 
     // Spans are ordered by start_date. Spans do not overlap with each other.
     for &(existing_start, existing_end) in existing_spans {
-        if existing_start > missing_start {
-            result.push((missing_start, existing_start));
+        let gap_end = u64::min(existing_start, missing_end);
+        if gap_end > missing_start {
+            result.push((missing_start, gap_end));
         }
-        missing_start = existing_end;
+        missing_start = u64::max(missing_start, existing_end);
     }
 
     if missing_start < missing_end {
-- 
2.43.0


From 6ecdee7516df3be991eef47aed8d353058a2fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:15 +0000
Subject: [PATCH 15/27] fix: risk ratios of a run without risk are zero instead
 of infinite, NaN or a panic

---
 juno/src/statistics/extended.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 0964c04..7ed954b 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -160,6 +160,17 @@ fn get_asset_performances_from_holdings(
     asset_performances
 }
 
+// Without risk (e.g. constant returns or no neg returns), a ratio becomes infinite or undefined. We
+// will consider it to be 0.0 instead because that is usually a bad run anyway.
+fn risk_ratio(annualized_return: f64, annualized_risk: f64) -> f64 {
+    let ratio = annualized_return / annualized_risk;
+    if ratio.is_finite() {
+        ratio
+    } else {
+        0.0
+    }
+}
+
 fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
     let mut a_returns = Vec::with_capacity(performance.len() - 1);
     for i in 0..a_returns.capacity() {
@@ -177,7 +188,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         0.0
     } else {
         let annualized_volatility = SQRT_365 * std_deviation(&g_returns);
-        annualized_return / annualized_volatility
+        risk_ratio(annualized_return, annualized_volatility)
     };
 
     // Sortino ratio.
@@ -190,13 +201,7 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
             .filter(|&v| v < 0.0)
             .collect::<Vec<f64>>();
         let annualized_downside_risk = SQRT_365 * std_deviation(&neg_g_returns);
-        // If there are no neg returns, sortino ratio becomes infinite. We will consider it to be
-        // 0.0 instead because that is usually a bad run anyway.
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        risk_ratio(annualized_return, annualized_downside_risk)
     };
 
     assert!(sharpe_ratio.is_finite());
@@ -295,7 +300,7 @@ pub fn get_sharpe_ratio(
             / length as f64;
         let std_dev = variance.sqrt();
         let annualized_volatility = SQRT_365 * std_dev;
-        annualized_return / annualized_volatility
+        risk_ratio(annualized_return, annualized_volatility)
     };
 
     debug_assert!(sharpe_ratio.is_finite());
@@ -373,11 +378,7 @@ pub fn get_sortino_ratio(
             / len_neg_g_returns as f64;
         let std_dev = variance.sqrt();
         let annualized_downside_risk = SQRT_365 * std_dev;
-        if annualized_downside_risk == 0.0 {
-            0.0
-        } else {
-            annualized_return / annualized_downside_risk
-        }
+        risk_ratio(annualized_return, annualized_downside_risk)
     };
 
     debug_assert!(sortino_ratio.is_finite());
-- 
2.43.0


From 3d6e60286dfec0b254890f1f4552f50a4db81b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:15 +0000
Subject: [PATCH 16/27] fix: count returns by length, not by the capacity of a
 vector

---
 juno/src/statistics/extended.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 7ed954b..30385c2 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -172,8 +172,9 @@ fn risk_ratio(annualized_return: f64, annualized_risk: f64) -> f64 {
 }
 
 fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
-    let mut a_returns = Vec::with_capacity(performance.len() - 1);
-    for i in 0..a_returns.capacity() {
+    let length = performance.len() - 1;
+    let mut a_returns = Vec::with_capacity(length);
+    for i in 0..length {
         a_returns.push(performance[i + 1] / performance[i] - 1.0);
     }
 
-- 
2.43.0


From c602c4a2768b561e83a04bc8abbb7bb7a30e3659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:14 +0000
Subject: [PATCH 17/27] fix: easings are drawn in a fixed order, not the one of
 a hash map

---
 juno/src/easing.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/juno/src/easing.rs b/juno/src/easing.rs
index ea73c10..ed6d767 100644
--- a/juno/src/easing.rs
+++ b/juno/src/easing.rs
@@ -48,8 +48,9 @@ pub enum Easing {
 
 type EasingMap = HashMap<Easing, fn(f64) -> f64>;
 
-static EASINGS: Lazy<EasingMap> = Lazy::new(|| {
-    [
+// Keeps a fixed order, so that choices depend on nothing but the seed.
+static EASING_FNS: Lazy<Vec<(Easing, fn(f64) -> f64)>> = Lazy::new(|| {
+    vec![
         (Easing::Linear, linear as fn(f64) -> f64),
         (Easing::QuadIn, ezing::quad_in::<f64> as fn(f64) -> f64),
         (Easing::QuadOut, ezing::quad_out::<f64>),
@@ -82,12 +83,12 @@ static EASINGS: Lazy<EasingMap> = Lazy::new(|| {
         (Easing::BounceOut, ezing::bounce_out::<f64>),
         (Easing::BounceInout, ezing::bounce_inout::<f64>),
     ]
-    .iter()
-    .cloned()
-    .collect()
 });
 
-static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| EASINGS.keys().copied().collect());
+static EASINGS: Lazy<EasingMap> = Lazy::new(|| EASING_FNS.iter().cloned().collect());
+
+static EASING_CHOICES: Lazy<Vec<Easing>> =
+    Lazy::new(|| EASING_FNS.iter().map(|(easing, _)| *easing).collect());
 
 pub trait EasingExt {
     fn gen_easing(&mut self) -> Easing;
-- 
2.43.0


From a89d3163d0f77a38db2d20b1d6b0ac6f8dfb3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:14 +0000
Subject: [PATCH 18/27] fix: a generated DoubleMA2 threshold is always one its
 constructor accepts

---
 juno/src/strategies/double_ma_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/strategies/double_ma_2.rs b/juno/src/strategies/double_ma_2.rs
index a705660..50bd398 100644
--- a/juno/src/strategies/double_ma_2.rs
+++ b/juno/src/strategies/double_ma_2.rs
@@ -25,7 +25,7 @@ fn mas(rng: &mut StdRng) -> (MAParams, MAParams) {
     }
 }
 fn neg_threshold(rng: &mut StdRng) -> f64 {
-    rng.gen_range(-1.0..-0.1)
+    -rng.gen_range(0.1..1.0)
 }
 fn pos_threshold(rng: &mut StdRng) -> f64 {
     rng.gen_range(0.1..1.0)
-- 
2.43.0


From 1131019771b8a6af21fa94de8f24e40412821b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:14 +0000
Subject: [PATCH 19/27] fix: run the number of generations asked for, also when
 it is zero

---
 juno/src/genetics/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5898ad2..be195cc 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -67,7 +67,9 @@ where
 
         let mut rng = StdRng::seed_from_u64(seed);
 
-        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::with_capacity(generations);
+        let num_generations = generations;
+        let mut generations: Vec<Generation<TE::Chromosome>> =
+            Vec::with_capacity(num_generations + 1);
 
         let mut timings = Timings::default();
 
@@ -84,7 +86,7 @@ where
 
         let mut offsprings = Vec::with_capacity(population_size);
 
-        for gen in 1..=generations.capacity() {
+        for gen in 1..=num_generations {
             let mut timings = Timings::default();
 
             self.run_generation(
-- 
2.43.0


From 5fb98855cd142cf300f7414e6c75ae15cf8f7b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:32 +0000
Subject: [PATCH 20/27] fix: a single offspring is mutated instead of a panic

---
 juno/src/genetics/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index be195cc..5c93de4 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -138,6 +138,11 @@ where
             // TODO: Ugly.
             // If is last, we wrap around and take the first offspring to pair.
             let is_last = i == offsprings.len() - 1;
+            if is_last && i == 0 {
+                // No other offspring to pair with.
+                self.mutation.mutate(rng, &mut offsprings[0].chromosome, ctx);
+                continue;
+            }
             let (chromosome1, chromosome2) = if is_last {
                 let (a, b) = offsprings.split_at_mut(i);
                 (&mut b[0].chromosome, &mut a[0].chromosome)
-- 
2.43.0


From 6a7ea387b84b469a98119e94696eed837515d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:32 +0000
Subject: [PATCH 21/27] fix: individuals generated by reinsertion are evaluated

---
 juno/src/genetics/algorithm.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5c93de4..b61d229 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -170,7 +170,13 @@ where
         self.evaluate_and_sort_by_fitness_desc(offsprings, timings);
         // reinsert
         self.reinsertion
-            .reinsert(rng, parents, offsprings, population_size, ctx)
+            .reinsert(rng, parents, offsprings, population_size, ctx);
+        // Newly generated individuals come last and have no fitness yet.
+        let evaluated = offsprings.partition_point(|ind| ind.fitness > f64::MIN);
+        if evaluated < offsprings.len() {
+            self.evaluation.evaluate(&mut offsprings[evaluated..]);
+            offsprings.sort_by(Individual::fitness_desc);
+        }
     }
 
     fn evaluate_and_sort_by_fitness_desc(
-- 
2.43.0


From ee1cf14575143590f3df2b052406cb2744fae12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:32 +0000
Subject: [PATCH 22/27] fix: TournamentSelection::new accepts the rates it is
 meant for

---
 juno/src/genetics/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index 625b786..9ee29a5 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -51,7 +51,7 @@ pub struct TournamentSelection {
 
 impl TournamentSelection {
     pub fn new(tournament_size_rate: f32, allow_winner_compete_next_tournament: bool) -> Self {
-        assert!(0.0 > tournament_size_rate && tournament_size_rate < 1.0);
+        assert!(0.0 < tournament_size_rate && tournament_size_rate < 1.0);
         // TODO: Implement.
         assert!(allow_winner_compete_next_tournament);
         Self {
-- 
2.43.0


From ea666b9fef745cb2149231c7d8259619b73bf2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:32 +0000
Subject: [PATCH 23/27] fix: the fittest individual wins a tournament

---
 juno/src/genetics/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index 9ee29a5..d90511e 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -87,7 +87,7 @@ impl Selection for TournamentSelection {
         for _ in 0..count {
             let tournament = parents.choose_multiple(rng, tournament_size);
             let winner = tournament
-                .max_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
+                .min_by(|ind1, ind2| Individual::fitness_desc(ind1, ind2))
                 .unwrap();
             offsprings.push(winner.clone());
         }
-- 
2.43.0


From af884bcbc6dfe32fed067be96169dbb8fb50fd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:32 +0000
Subject: [PATCH 24/27] fix: a tournament has at least one participant

---
 juno/src/genetics/selection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/juno/src/genetics/selection.rs b/juno/src/genetics/selection.rs
index d90511e..91c9df9 100644
--- a/juno/src/genetics/selection.rs
+++ b/juno/src/genetics/selection.rs
@@ -81,7 +81,8 @@ impl Selection for TournamentSelection {
     ) {
         debug_assert!(self.allow_winner_compete_next_tournament || rate <= 1.0);
 
-        let tournament_size = (parents.len() as f32 * self.tournament_size_rate) as usize;
+        let tournament_size =
+            usize::max(1, (parents.len() as f32 * self.tournament_size_rate) as usize);
 
         let count = (parents.len() as f32 * rate) as usize;
         for _ in 0..count {
-- 
2.43.0


From 56bd6844841a934b1b975489d4722987e01d8b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:32 +0000
Subject: [PATCH 25/27] fix: a reported generation carries its own number

---
 juno_axum/src/routes/optimize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 9d75a2c..24003bf 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -157,7 +157,8 @@ fn par_optimize(
     let gen_stats = evolution
         .generations
         .into_iter()
-        .filter(|gen| {
+        .enumerate()
+        .filter(|(_, gen)| {
             let mut pass = false;
             for (best_ind, best_fitness) in gen.hall_of_fame.iter().zip(best_fitnesses.iter_mut()) {
                 if best_fitness.is_nan() || best_ind.fitness > *best_fitness {
@@ -167,7 +168,6 @@ fn par_optimize(
             }
             pass
         })
-        .enumerate()
         .map(|(nr, gen)| {
             let hall_of_fame: Vec<_> = gen
                 .hall_of_fame
-- 
2.43.0


From 75e2bab628e5935ebf4c8a3569201dbde0bed44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:16 +0000
Subject: [PATCH 26/27] fix: aggregate candles to weeks and months at their own
 boundaries

The end of a larger interval was taken to be a multiple since the epoch, so
weeks (which start on Mondays) came out as two candles with the same time and
candles of one month went to another.
---
 juno/src/utils/buffered_candle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/juno/src/utils/buffered_candle.rs b/juno/src/utils/buffered_candle.rs
index 59b12ca..9e11c0b 100644
--- a/juno/src/utils/buffered_candle.rs
+++ b/juno/src/utils/buffered_candle.rs
@@ -51,7 +51,7 @@ impl BufferedCandle {
                 None
             }
             Some(ref mut buffer_candle) => {
-                if candle.time >= buffer_candle.time + self.buffer_interval {
+                if candle.time.floor(self.buffer_interval) > buffer_candle.time {
                     Some(*buffer_candle)
                 } else {
                     *buffer_candle += candle;
@@ -60,7 +60,8 @@ impl BufferedCandle {
             }
         };
 
-        let is_last = (candle.time + self.interval) % self.buffer_interval == 0;
+        let end = candle.time + self.interval;
+        let is_last = end == end.floor(self.buffer_interval);
 
         if let Some(ret) = ret {
             if is_last {
-- 
2.43.0


From 56d24608ba28b81e35e081be8867d4ddde7050f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:29 +0000
Subject: [PATCH 27/27] fix: fast risk ratios cover the same periods as the
 full statistics for calendar intervals

---
 juno/src/statistics/extended.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 30385c2..c236ae1 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -262,8 +262,9 @@ pub fn get_sharpe_ratio(
     let mut g_returns = Vec::with_capacity(length);
     let mut sum_g_returns = 0.0;
 
-    for (i, time) in (start.0..end.0).step_by(interval.0 as usize).enumerate() {
-        let deltas = period_deltas.get(&time.into());
+    for i in 0..length {
+        let time = start + i as u64 * interval;
+        let deltas = period_deltas.get(&time);
         if let Some(deltas) = deltas {
             for (asset, size) in deltas {
                 match asset {
@@ -333,8 +334,9 @@ pub fn get_sortino_ratio(
     let mut len_neg_g_returns = 0;
     let mut sum_neg_g_returns = 0.0;
 
-    for (i, time) in (start.0..end.0).step_by(interval.0 as usize).enumerate() {
-        let deltas = period_deltas.get(&time.into());
+    for i in 0..length {
+        let time = start + i as u64 * interval;
+        let deltas = period_deltas.get(&time);
         if let Some(deltas) = deltas {
             for (asset, size) in deltas {
                 match asset {
-- 
2.43.0

