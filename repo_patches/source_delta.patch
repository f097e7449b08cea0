From 4b2ae6099d765d7a45112f59bf882cb1cccbf1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 01/22] fix: 30/360 day count no longer underflows when the
 second month or day is smaller

---
 crates/qlab-time/src/day_count/thirty_360.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/qlab-time/src/day_count/thirty_360.rs b/crates/qlab-time/src/day_count/thirty_360.rs
index 690c7b0..c0276bb 100644
--- a/crates/qlab-time/src/day_count/thirty_360.rs
+++ b/crates/qlab-time/src/day_count/thirty_360.rs
@@ -8,17 +8,18 @@ use qlab_math::value::Value;
 pub struct Thirty360;
 
 impl Thirty360 {
-    #[allow(clippy::cast_sign_loss)] // validation deals with it
-    fn date_diff(date1: Date, date2: Date) -> QLabResult<u32> {
+    fn date_diff(date1: Date, date2: Date) -> QLabResult<i64> {
         if date1 > date2 {
             return Err(
                 InvalidInput(format!("date1: {date1} must precede date2: {date2}").into()).into(),
             );
         }
-        let d1 = date1.day().min(30);
-        let d2 = date2.day().min(30);
+        let d1 = i64::from(date1.day().min(30));
+        let d2 = i64::from(date2.day().min(30));
         Ok(
-            360 * (date2.year() - date1.year()) as u32 + 30 * (date2.month() - date1.month()) + d2
+            360 * (i64::from(date2.year()) - i64::from(date1.year()))
+                + 30 * (i64::from(date2.month()) - i64::from(date1.month()))
+                + d2
                 - d1,
         )
     }
@@ -27,7 +28,7 @@ impl Thirty360 {
 impl DayCount for Thirty360 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = Self::date_diff(date1, date2)?;
-        let date_diff = V::from_u32(date_diff)
+        let date_diff = V::from_i64(date_diff)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{date_diff}").into()))?;
         let denomination =
             V::from_i32(360).ok_or_else(|| ComputeError::CastNumberError("360".into()))?;
-- 
2.43.0


From 900120c24e6ffe868c42c83e125a4cffc0de4c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 02/22] fix: back substitution of the tridiagonal solver covers
 the second-to-last unknown

---
 crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
index 81b613b..5803b1b 100644
--- a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
+++ b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
@@ -95,7 +95,7 @@ fn solve_with_thomas_algorithm_unchecked<V: Value>(
     }
 
     /* loop from X - 2 to 0 inclusive */
-    for ix in (0..matrix_size - 2).rev() {
+    for ix in (0..matrix_size - 1).rev() {
         let temp = scratch[ix] * x[ix + 1];
         x[ix] -= temp;
     }
-- 
2.43.0


From a34dde433c2d1b4f8ccd5eb2f391e28fb99ec588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 03/22] fix: Catmull-Rom spline reaches the last point of its
 data

---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 8f3202a..c2e2f05 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -111,7 +111,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 Matrix4::new(
                     -alpha,
                     V::one(),
-                    -V::one() * alpha,
+                    -V::one() + alpha,
                     V::zero(),
                     V::from_i8(2).unwrap() * alpha,
                     V::from_i8(-2).unwrap(),
-- 
2.43.0


From 188ac49afba34057d85eb78003a7589b8d769bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 04/22] fix: a bond without a regular coupon is rejected
 instead of panicking

---
 crates/qlab-instrument/src/bond.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 79f8fa2..49f2692 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -108,19 +108,20 @@ impl<V: Value> Bond<V> {
         regular_coupon_payment: V,
         bond_cash_flows: &mut [BondCashFlow<V>],
     ) -> Option<()> {
+        let first_cash_flow = bond_cash_flows.first_mut()?;
         let first_prior = first_coupon_date.checked_sub_months(months_in_regular_coupon_period)?;
         match first_prior.cmp(&issue_date) {
             Ordering::Less => {
                 let coupon_fraction = V::from_i64(first_coupon_date - issue_date)?
                     / V::from_i64(first_coupon_date - first_prior)?;
-                bond_cash_flows[0].payment_amount *= coupon_fraction;
+                first_cash_flow.payment_amount *= coupon_fraction;
             }
             Ordering::Greater => {
                 let second_prior =
                     first_prior.checked_sub_months(months_in_regular_coupon_period)?;
                 let coupon_fraction = V::from_i64(first_prior - issue_date)?
                     / V::from_i64(first_prior - second_prior)?;
-                bond_cash_flows[0].payment_amount += coupon_fraction * regular_coupon_payment;
+                first_cash_flow.payment_amount += coupon_fraction * regular_coupon_payment;
             }
             Ordering::Equal => {}
         }
-- 
2.43.0


From ae5125ada556c38e3a9e05a9555bdbf02f570b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 05/22] fix: bond coupon dates are counted from their anchor
 and keep the month end

---
 crates/qlab-instrument/src/bond.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 49f2692..4fbcad5 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -64,10 +64,11 @@ impl<V: Value> Bond<V> {
         coupon_rate: V,
         face_value: V,
     ) -> Option<Self> {
-        let months_in_regular_coupon_period = Months::new(12 / coupon_frequency as u32);
+        let months_in_regular_coupon_period = 12 / coupon_frequency as u32;
         let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;
 
         let mut regular_due_date = first_coupon_date;
+        let mut months_from_first_coupon = 0;
         let mut bond_cash_flows = Vec::new();
 
         while regular_due_date <= penultimate_coupon_date {
@@ -77,8 +78,10 @@ impl<V: Value> Bond<V> {
                 payment_date,
                 payment_amount: regular_coupon_payment,
             });
+            // counted from the first coupon date, so that month ends do not drift
+            months_from_first_coupon += months_in_regular_coupon_period;
             regular_due_date =
-                regular_due_date.checked_add_months(months_in_regular_coupon_period)?;
+                first_coupon_date.checked_add_months(Months::new(months_from_first_coupon))?;
         }
         Self::first_cash_flow(
             issue_date,
@@ -104,12 +107,13 @@ impl<V: Value> Bond<V> {
     fn first_cash_flow(
         issue_date: Date,
         first_coupon_date: Date,
-        months_in_regular_coupon_period: Months,
+        months_in_regular_coupon_period: u32,
         regular_coupon_payment: V,
         bond_cash_flows: &mut [BondCashFlow<V>],
     ) -> Option<()> {
         let first_cash_flow = bond_cash_flows.first_mut()?;
-        let first_prior = first_coupon_date.checked_sub_months(months_in_regular_coupon_period)?;
+        let first_prior =
+            first_coupon_date.checked_sub_months(Months::new(months_in_regular_coupon_period))?;
         match first_prior.cmp(&issue_date) {
             Ordering::Less => {
                 let coupon_fraction = V::from_i64(first_coupon_date - issue_date)?
@@ -117,8 +121,8 @@ impl<V: Value> Bond<V> {
                 first_cash_flow.payment_amount *= coupon_fraction;
             }
             Ordering::Greater => {
-                let second_prior =
-                    first_prior.checked_sub_months(months_in_regular_coupon_period)?;
+                let second_prior = first_coupon_date
+                    .checked_sub_months(Months::new(2 * months_in_regular_coupon_period))?;
                 let coupon_fraction = V::from_i64(first_prior - issue_date)?
                     / V::from_i64(first_prior - second_prior)?;
                 first_cash_flow.payment_amount += coupon_fraction * regular_coupon_payment;
@@ -132,12 +136,12 @@ impl<V: Value> Bond<V> {
         penultimate_coupon_date: Date,
         maturity_date: Date,
         face_value: V,
-        months_in_regular_coupon_period: Months,
+        months_in_regular_coupon_period: u32,
         regular_coupon_payment: V,
     ) -> Option<BondCashFlow<V>> {
         let mut final_coupon = regular_coupon_payment;
-        let maturity_regular_date =
-            penultimate_coupon_date.checked_add_months(months_in_regular_coupon_period)?;
+        let maturity_regular_date = penultimate_coupon_date
+            .checked_add_months(Months::new(months_in_regular_coupon_period))?;
         match maturity_date.cmp(&maturity_regular_date) {
             Ordering::Less => {
                 let coupon_fraction = V::from_i64(maturity_date - penultimate_coupon_date)?
@@ -145,8 +149,8 @@ impl<V: Value> Bond<V> {
                 final_coupon *= coupon_fraction;
             }
             Ordering::Greater => {
-                let next_regular_date =
-                    maturity_regular_date.checked_add_months(months_in_regular_coupon_period)?;
+                let next_regular_date = penultimate_coupon_date
+                    .checked_add_months(Months::new(2 * months_in_regular_coupon_period))?;
                 let extra_coupon_fraction = V::from_i64(maturity_date - maturity_regular_date)?
                     / V::from_i64(next_regular_date - maturity_regular_date)?;
                 final_coupon += extra_coupon_fraction * regular_coupon_payment;
-- 
2.43.0


From aac3d611d43d90f1f3f9d66565e03c9f57868fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 06/22] fix: modified rolling compares with the month of the
 unadjusted date

---
 crates/qlab-time/src/date.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 81999ba..5b97f8e 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -273,8 +273,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedFollowing => {
+                let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == self.month() {
+                if (ret.year(), ret.month()) == (unadjusted.year(), unadjusted.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -288,8 +289,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedPreceding => {
+                let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == self.month() {
+                if (ret.year(), ret.month()) == (unadjusted.year(), unadjusted.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From 4eb349385b5a047eb390b4ca8f0c857e11e4e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 07/22] fix: adding a huge number of years to a date gives none
 instead of overflowing

---
 crates/qlab-time/src/date.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 5b97f8e..e682b2a 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -70,12 +70,12 @@ impl Date {
     /// `None` if the resulting date is not valid.
     #[must_use]
     pub fn checked_add_years(self, rhs_years: Years) -> Option<Self> {
-        self.0.with_year(self.0.year() + rhs_years.0).map_or_else(
+        let year = self.0.year().checked_add(rhs_years.0)?;
+        self.0.with_year(year).map_or_else(
             || {
-                self.0.with_day(28).and_then(|date| {
-                    date.with_year(self.0.year() + rhs_years.0)
-                        .map(std::convert::Into::into)
-                })
+                self.0
+                    .with_day(28)
+                    .and_then(|date| date.with_year(year).map(std::convert::Into::into))
             },
             |date| Some(date.into()),
         )
-- 
2.43.0


From 2e2b1d4532963304b2fb5e6c87eb4ee73c7b3fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 08/22] fix: business day counts include the first day when
 asked and never panic on equal dates

---
 third-parties/calendar/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 641192d..dd74b38 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -212,12 +212,11 @@ pub trait Calendar: Debug {
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
-        let day_diff = ((to + Duration::days(i64::from(include_last)))
-            - (from + Duration::days(i64::from(include_first))))
-        .num_days();
-        for date in (from + Duration::days(i64::from(include_first)))
+        let first = from + Duration::days(i64::from(!include_first));
+        let day_diff = ((to + Duration::days(i64::from(include_last))) - first).num_days();
+        for date in first
             .iter_days()
-            .take(usize::try_from(day_diff).unwrap())
+            .take(usize::try_from(day_diff).unwrap_or(0))
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From 773e9cbdb29fc5690b0b7445fdac693fdda4c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 09/22] fix: Hermite spline rejects fewer than three points as
 documented

---
 crates/qlab-math/src/interpolation/spline/hermite.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index 035818d..e63c9d3 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -31,6 +31,11 @@ impl<V: Value> Hermite<V> {
     /// # Panics
     /// Will panic if `V` fail to cast constants.
     pub fn try_new(raw_points: &[(V, V, V)]) -> Result<Self, InterpolationError<V>> {
+        if raw_points.len() < 3 {
+            return Err(InterpolationError::InsufficientPointsError(
+                raw_points.len(),
+            ));
+        }
         let mut temp = raw_points[0].0;
 
         let mut points = Vec::new();
-- 
2.43.0


From 8a872d98e4dc2ac9047e6b41353701d78503a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 10/22] fix: linear interpolation rejects points that are not
 in ascending order

---
 crates/qlab-math/src/interpolation/linear.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index 3f24735..a4d1109 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -48,8 +48,11 @@ impl<V: Real> Linear<V> {
 impl<V: Value> Interpolator for Linear<V> {
     type Value = V;
     fn try_fit(mut self, raw_points: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
-        let mut points = Vec::with_capacity(raw_points.len());
+        let mut points: Vec<Point2D<V>> = Vec::with_capacity(raw_points.len());
         for &(x, y) in raw_points {
+            if points.last().is_some_and(|last| x < last.x) {
+                return Err(InterpolationError::PointOrderError);
+            }
             points.push(Point2D { x, y });
         }
         self.points = points;
-- 
2.43.0


From dffaa74732b5e41697a67c9d11ff36fe0fa96e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 11/22] fix: linear interpolation of a single point no longer
 panics at that point

---
 crates/qlab-math/src/interpolation/linear.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index a4d1109..cef9ed9 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -77,6 +77,9 @@ impl<V: Value> Interpolator for Linear<V> {
     /// * `InvalidInput` - Represents an error when the input is invalid or out-of-bounds.
     fn try_value(&self, x: V) -> Result<V, InterpolationError<V>> {
         let pos = find_index_at_left_boundary(&self.points, x)?;
+        if self.points.len() == 1 {
+            return Ok(self.points[pos].y);
+        }
 
         Ok(self.points[pos].y
             + (self.points[pos + 1].y - self.points[pos].y)
-- 
2.43.0


From a98ca532268d85fd7262c0343d73fcb8943699ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 12/22] fix: Ukraine follows the Orthodox Easter

---
 third-parties/calendar/src/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/ukraine.rs b/third-parties/calendar/src/ukraine.rs
index 8fbb269..18a2df8 100644
--- a/third-parties/calendar/src/ukraine.rs
+++ b/third-parties/calendar/src/ukraine.rs
@@ -10,7 +10,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From f5336c319048a15eefcf522361748e8daf0007f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 13/22] fix: Singapore Chinese New Year 2010 is in February

---
 third-parties/calendar/src/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/singapore.rs b/third-parties/calendar/src/singapore.rs
index 2df67cc..d7a15da 100644
--- a/third-parties/calendar/src/singapore.rs
+++ b/third-parties/calendar/src/singapore.rs
@@ -30,7 +30,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
-- 
2.43.0


From 43c7fb49250c2f69dfffe891e2bbbc3d2c2a1460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 14/22] fix: Taiwan Lunar New Year 2010 is in February and
 Dragon Boat Festival in June

---
 third-parties/calendar/src/taiwan.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/taiwan.rs b/third-parties/calendar/src/taiwan.rs
index d7114f0..f13a45c 100644
--- a/third-parties/calendar/src/taiwan.rs
+++ b/third-parties/calendar/src/taiwan.rs
@@ -105,11 +105,11 @@ impl Calendar for Taiwan {
             return false;
         }
         // Year 2010
-        // Lunar New Year 01-13 to 01-21
-        // Dragon Boat Festival 05-16
+        // Lunar New Year 02-13 to 02-21
+        // Dragon Boat Festival 06-16
         // Moon Festival 09-22
         if (y == 2010)
-            && (((13..=21).contains(&d) && m == 1) || (d == 16 && m == 5) || (d == 22 && m == 9))
+            && (((13..=21).contains(&d) && m == 2) || (d == 16 && m == 6) || (d == 22 && m == 9))
         {
             return false;
         }
-- 
2.43.0


From af4bebb978ac317cb1546eaab28c5f9e36ad0469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 15/22] fix: Israel Independence Day 2038 falls on a Monday and
 is kept on the Tuesday

---
 third-parties/calendar/src/israel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/israel.rs b/third-parties/calendar/src/israel.rs
index 20cedb5..faa3444 100644
--- a/third-parties/calendar/src/israel.rs
+++ b/third-parties/calendar/src/israel.rs
@@ -104,7 +104,7 @@ impl Calendar for Israel {
             || ((d == 14 || d == 15) && m == 5 && y == 2035)
             || (((d == 30 && m == 4) || (d == 1 && m == 5)) && y == 2036)
             || ((d == 20 || d == 21) && m == 4 && y == 2037)
-            || ((d == 9 || d == 10) && m == 5 && y == 2038)
+            || ((d == 10 || d == 11) && m == 5 && y == 2038)
             || ((d == 27 || d == 28) && m == 4 && y == 2039)
             || ((d == 17 || d == 18) && m == 4 && y == 2040)
             || ((d == 6 || d == 7) && m == 5 && y == 2041)
-- 
2.43.0


From 5b34e70224fb248c8c30a3ff2f4d372be01d6608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 16/22] fix: Turkey Kurban feast 2015 is 24-27 September, not
 October

---
 third-parties/calendar/src/turkey.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/turkey.rs b/third-parties/calendar/src/turkey.rs
index 83ba4c2..5a3628c 100644
--- a/third-parties/calendar/src/turkey.rs
+++ b/third-parties/calendar/src/turkey.rs
@@ -129,7 +129,7 @@ impl Calendar for Turkey {
             // Ramadan
             if (m == 7 && (17..=19).contains(&d))
                 // Kurban
-                || (m == 10 && (24..=27).contains(&d))
+                || (m == 9 && (24..=27).contains(&d))
             {
                 return false;
             }
-- 
2.43.0


From 2c4be174eb27eeb38aa0d7c3972e8b782e614075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 17/22] fix: Turkey feasts of 2011 (30 August - 1 September,
 6-9 November)

---
 third-parties/calendar/src/turkey.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/third-parties/calendar/src/turkey.rs b/third-parties/calendar/src/turkey.rs
index 5a3628c..a1763c8 100644
--- a/third-parties/calendar/src/turkey.rs
+++ b/third-parties/calendar/src/turkey.rs
@@ -93,8 +93,12 @@ impl Calendar for Turkey {
                 return false;
             }
         } else if y == 2011 {
-            // not clear from borsainstanbul.com
-            if (m == 10 && d == 1) || (m == 11 && (9..=13).contains(&d)) {
+            // Ramadan
+            if (m == 8 && (30..=31).contains(&d))
+                || (m == 9 && d == 1)
+                // Kurban
+                || (m == 11 && (6..=9).contains(&d))
+            {
                 return false;
             }
         } else if y == 2012 {
-- 
2.43.0


From ef0c4cafb3bc32718c70f4f979eda076787fc21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 18/22] fix: NYSE presidential election days are the Tuesday
 after the first Monday of November

---
 third-parties/calendar/src/unitedstates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/unitedstates.rs b/third-parties/calendar/src/unitedstates.rs
index 78103cf..2b9e404 100644
--- a/third-parties/calendar/src/unitedstates.rs
+++ b/third-parties/calendar/src/unitedstates.rs
@@ -147,7 +147,7 @@ impl UnitedStates {
         }
 
         // Presidential election days
-        if (y <= 1968 || (y <= 1980 && y % 4 == 0)) && m == 11 && d <= 7 && w == Weekday::Tue {
+        if (y <= 1968 || (y <= 1980 && y % 4 == 0)) && m == 11 && (2..=8).contains(&d) && w == Weekday::Tue {
             return false;
         }
 
-- 
2.43.0


From cee32853f6a721a7e4942380165f9da69206322c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 19/22] fix: Japanese equinox holidays of the years outside the
 typed-in list

---
 third-parties/calendar/src/japan.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/third-parties/calendar/src/japan.rs b/third-parties/calendar/src/japan.rs
index e37e048..4bbec20 100644
--- a/third-parties/calendar/src/japan.rs
+++ b/third-parties/calendar/src/japan.rs
@@ -8,17 +8,22 @@ use chrono::{NaiveDate, Weekday};
 pub struct Japan;
 
 impl Japan {
+    /// Day of the month of an equinox by the standard approximation (arguments in millionths of a
+    /// day, for 1900-1979, 1980-2099 and 2100-2199).
+    fn equinox_day(&self, y: i32, until_1979: i32, until_2099: i32, from_2100: i32) -> u32 {
+        let (base, leap_days) = match y {
+            ..=1979 => (until_1979, -((1983 - y) / 4)),
+            1980..=2099 => (until_2099, (y - 1980) / 4),
+            2100.. => (from_2100, (y - 1980) / 4),
+        };
+        let drift = (i64::from(base) + 242_194 * i64::from(y - 1980)).div_euclid(1_000_000);
+        u32::try_from(drift - i64::from(leap_days)).unwrap_or(0)
+    }
     fn vernal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
-        }
+        self.equinox_day(y, 20_835_700, 20_843_100, 21_851_000)
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
-        match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
-        }
+        self.equinox_day(y, 23_258_800, 23_248_800, 24_248_800)
     }
 }
 
-- 
2.43.0


From 6ccb0e09e52405b70123309a7bf10ab80cfcc0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 20/22] fix: natural cubic spline through three points uses
 both outer ordinates

---
 .../src/interpolation/spline/natural_cubic.rs        | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index 093321f..73654f0 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -55,13 +55,15 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
                 b_upper_diagonals.push(h_next / V::from_i8(6).unwrap());
                 c_upper_diagonals.push(h_next.recip());
             }
+            // the two outermost ordinates; with three points both belong to the only row
+            let mut outer = V::zero();
             if i == 1 {
-                m.push(raw_points[i - 1].1 / h);
-            } else if i + 2 == raw_points.len() {
-                m.push(raw_points[i + 1].1 / h_next);
-            } else {
-                m.push(V::zero());
+                outer += raw_points[i - 1].1 / h;
             }
+            if i + 2 == raw_points.len() {
+                outer += raw_points[i + 1].1 / h_next;
+            }
+            m.push(outer);
             b_diagonals.push((h + h_next) / V::from_i8(3).unwrap());
             c_diagonals.push(-(h.recip() + h_next.recip()));
         }
-- 
2.43.0


From 43682ef861309d5d0c45731744313ce5a6b03585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 21/22] fix: Act360 and Act365 panicked for a value type that
 cannot hold the denominator

---
 crates/qlab-time/src/day_count/act_360.rs | 3 ++-
 crates/qlab-time/src/day_count/act_365.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/day_count/act_360.rs b/crates/qlab-time/src/day_count/act_360.rs
index 6ec187a..e8146f0 100644
--- a/crates/qlab-time/src/day_count/act_360.rs
+++ b/crates/qlab-time/src/day_count/act_360.rs
@@ -10,7 +10,8 @@ impl DayCount for Act360 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = V::from_i64(date2 - date1)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{}", date2 - date1).into()))?;
-        let denomination = V::from_i32(360).unwrap();
+        let denomination =
+            V::from_i32(360).ok_or_else(|| ComputeError::CastNumberError("360".into()))?;
 
         Ok(date_diff.div(denomination))
     }
diff --git a/crates/qlab-time/src/day_count/act_365.rs b/crates/qlab-time/src/day_count/act_365.rs
index 3222f58..0eb3f58 100644
--- a/crates/qlab-time/src/day_count/act_365.rs
+++ b/crates/qlab-time/src/day_count/act_365.rs
@@ -10,7 +10,8 @@ impl DayCount for Act365 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = V::from_i64(date2 - date1)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{}", date2 - date1).into()))?;
-        let denomination = V::from_i32(365).unwrap();
+        let denomination =
+            V::from_i32(365).ok_or_else(|| ComputeError::CastNumberError("365".into()))?;
 
         Ok(date_diff.div(denomination))
     }
-- 
2.43.0


From 588d2d66911243e905bc7262ea9b071f3a8e8d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 22/22] fix: counting business days up to the last
 representable date no longer panics

---
 third-parties/calendar/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index dd74b38..04d43ca 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -211,13 +211,13 @@ pub trait Calendar: Debug {
         }
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
-        let mut day_count = 0;
-        let first = from + Duration::days(i64::from(!include_first));
-        let day_diff = ((to + Duration::days(i64::from(include_last))) - first).num_days();
-        for date in first
-            .iter_days()
-            .take(usize::try_from(day_diff).unwrap_or(0))
-        {
+        if from == to {
+            return i64::from(include_first && include_last && self.is_business_day(from));
+        }
+        let mut day_count = i64::from(include_first && self.is_business_day(from))
+            + i64::from(include_last && self.is_business_day(to));
+        // the days strictly between; no day after `to` is ever formed
+        for date in from.iter_days().skip(1).take_while(|date| *date < to) {
             if self.is_business_day(date) {
                 day_count += 1;
             }
-- 
2.43.0

