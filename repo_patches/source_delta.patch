From 9964a2d56c05846b2d361e49e32b6717fc25efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 01/13] fix: TAI-UTC changes take effect at the start of their
 month

The table lookup excluded the month of the change itself, so e.g. all of
January 2017 still got 36 s.  dat.for uses M >= 12*year + month.
---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index e02c44c..93592bc 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -84,7 +84,7 @@ impl DeltaAt for GregorianDate {
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month < m)
+	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From 8896f09cd61347d402d17c0a1ec4e4e899a9dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 02/13] fix: delta_at no longer overflows for far-future years

---
 crates/tofas/src/delta_at.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 93592bc..252d495 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -79,12 +79,12 @@ impl DeltaAt for GregorianDate {
 	    return Ok(None);
 	}
 
-	let m = 12*iy + im;
+	let m = 12*(iy as i64) + im as i64;
 
 	let idat =
 	    DAT_DATA
 	    .iter()
-	    .rposition(|DatData { year,month,.. }| 12*year + month <= m)
+	    .rposition(|DatData { year,month,.. }| (12*year + month) as i64 <= m)
 	    .unwrap_or(0);
 
 	let DatData { dat,drift,.. } = DAT_DATA[idat];
-- 
2.43.0


From 1190d02cd9110cec315e51a65ba154632e3a31ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 03/13] fix: delta_at refuses a NaN fraction of day

---
 crates/tofas/src/delta_at.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/delta_at.rs b/crates/tofas/src/delta_at.rs
index 252d495..109f82f 100644
--- a/crates/tofas/src/delta_at.rs
+++ b/crates/tofas/src/delta_at.rs
@@ -71,7 +71,7 @@ impl DeltaAt for GregorianDate {
 	let iy = self.year;
 	let im = self.month;
 	
-	if fd < 0.0 || fd > 1.0 {
+	if !(fd >= 0.0 && fd <= 1.0) {
 	    return Err(DeltaAtError::BadFract);
 	}
 
-- 
2.43.0


From 12d0f365fd0a3a6666c3fcd84b91715211d04dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 04/13] fix: to_julian no longer overflows for years beyond 1.4
 million

---
 crates/tofas/src/calendar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index f34a449..bc4d3c7 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -73,6 +73,7 @@ impl GregorianDate {
     /// Source: cal2jd.for
     pub fn to_julian(&self)->(R,R) {
 	let &Self{ year,month,day } = self;
+	let (year,month,day) = (year as i64,month as i64,day as i64);
 	let my = ( month - 14 ) / 12;
 	let iypmy = year + my;
 	let djm = ( 1461 * ( iypmy + 4800 ) ) / 4
-- 
2.43.0


From 1f00660f964686c3db8485cac27cc123cb3ce3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 05/13] fix: from_julian no longer overflows for Julian dates
 beyond 5.3e8

DJ_MAX allows dates up to 1e9, but 4*l exceeded 32 bits.
---
 crates/tofas/src/calendar.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index bc4d3c7..ecde49d 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -107,7 +107,7 @@ impl GregorianDate {
 	    f += 1.0;
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
-	let jd = d as i32 + 1;
+	let jd = d as i64 + 1;
 
 	let l = jd + 68569;
 	let n = ( 4*l ) / 146097;
@@ -122,9 +122,9 @@ impl GregorianDate {
 	let fd = f;
 
 	Ok((Self {
-	    year:iy,
-	    month:im,
-	    day:id },
+	    year:iy as i32,
+	    month:im as i32,
+	    day:id as i32 },
 	    fd))
     }
 }
-- 
2.43.0


From d82e317b88e77101f2e10260c71bbe07506c5c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 06/13] fix: from_julian returns a fraction of day below 1 just
 before midnight

A tiny negative fraction plus 1 rounds to 1; the instant then belongs to
the start of the next day.
---
 crates/tofas/src/calendar.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index ecde49d..ca71d9d 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -105,6 +105,9 @@ impl GregorianDate {
 	let mut f = (f1 + f2) % 1.0;
 	if f < 0.0 {
 	    f += 1.0;
+	    if f >= 1.0 {
+		f = 0.0;
+	    }
 	}
 	let d = round(d1 - f1) + round(d2 - f2) + round(f1 + f2 - f);
 	let jd = d as i64 + 1;
-- 
2.43.0


From 1d177277f674923ef565ed2c6101d89e5b13f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 07/13] fix: from_julian refuses NaN

---
 crates/tofas/src/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index ca71d9d..cbbc159 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -88,7 +88,7 @@ impl GregorianDate {
     /// Source: jd2cal.for
     pub fn from_julian(dj1:R,dj2:R)->Result<(Self,R),CalendarError> {
 	let dj = dj1 + dj2;
-	if dj < DJ_MIN || dj > DJ_MAX {
+	if !(dj >= DJ_MIN && dj <= DJ_MAX) {
 	    return Err(CalendarError::BadJulian);
 	}
 
-- 
2.43.0


From 1c9bb9d19389d57e69916f2c29e8015e87f19455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 08/13] fix: HMS::from_fraction_of_day refuses NaN

---
 crates/tofas/src/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/calendar.rs b/crates/tofas/src/calendar.rs
index cbbc159..8249c2b 100644
--- a/crates/tofas/src/calendar.rs
+++ b/crates/tofas/src/calendar.rs
@@ -144,7 +144,7 @@ impl HMS {
     }
     
     pub fn from_fraction_of_day(f:f64)->Result<Self,CalendarError> {
-	if f < 0.0 || f > 1.0 {
+	if !(f >= 0.0 && f <= 1.0) {
 	    return Err(CalendarError::BadFract)
 	}
 	let s = 86400.0 * f;
-- 
2.43.0


From d0b9fbd57b0951b71654e13b35363d9a3d93e273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 09/13] fix: anp stays below 2pi for tiny negative angles

---
 crates/tofas/src/common.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 318334f..2da0d9e 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -31,6 +31,9 @@ pub fn anp(a:R)->R {
     let mut w = a % TWO_PI;
     if w < 0.0 {
 	w += TWO_PI;
+	if w >= TWO_PI {
+	    w = 0.0;
+	}
     }
     w
 }
-- 
2.43.0


From ffa64d7657aab7a6724a9122e2a30223190cab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 10/13] fix: angle between parallel vectors is no longer NaN

The dot product of two normalized vectors can exceed 1 by rounding.
---
 crates/tofas/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tofas/src/common.rs b/crates/tofas/src/common.rs
index 2da0d9e..7d482a1 100644
--- a/crates/tofas/src/common.rs
+++ b/crates/tofas/src/common.rs
@@ -87,7 +87,7 @@ impl Vector for Vec3 {
     }
 
     fn angle(self,b:Self)->R {
-	acos(self.normalize().dot(b.normalize()))
+	acos(self.normalize().dot(b.normalize()).clamp(-1.0,1.0))
     }
 }
 
-- 
2.43.0


From 1ca0a8447ef3600aa461e22684c0a2fc602e95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 11/13] fix: the north pole no longer converts to latitude -90
 degrees

---
 crates/tofas/src/ellipsoid.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 78968b0..5d0a33b 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -54,7 +54,13 @@ impl From<Geodetic> for Geodetic360 {
 impl From<&Geodetic> for Geodetic360 {
     fn from(gd:&Geodetic)->Self {
 	let lon = (gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0;
-	let lat = (gd.phi/DEGREE + 90.0).rem_euclid(180.0) - 90.0;
+	let lat = gd.phi/DEGREE;
+	let lat =
+	    if abs(lat) <= 90.0 {
+		lat
+	    } else {
+		(lat + 90.0).rem_euclid(180.0) - 90.0
+	    };
 	debug_assert!(-180.0 <= lon && lon <= 180.0);
 	debug_assert!(-90.0 <= lat && lat <= 90.0);
 	Self {
-- 
2.43.0


From 228130d4c966fe7953901ad65e024ad5ce7a3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 12/13] fix: longitudes just below -180 degrees no longer
 normalize to +180

---
 crates/tofas/src/ellipsoid.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 5d0a33b..50064cf 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -54,6 +54,7 @@ impl From<Geodetic> for Geodetic360 {
 impl From<&Geodetic> for Geodetic360 {
     fn from(gd:&Geodetic)->Self {
 	let lon = (gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0;
+	let lon = if lon >= 180.0 { -180.0 } else { lon };
 	let lat = gd.phi/DEGREE;
 	let lat =
 	    if abs(lat) <= 90.0 {
-- 
2.43.0


From c9ef94c5877020915fa6302505cea3219adba26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 13/13] fix: refuse zero and NaN ellipsoid radius and NaN
 flattening

A zero radius gives NaN coordinates; gd2gce.for refuses A <= 0.
---
 crates/tofas/src/ellipsoid.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tofas/src/ellipsoid.rs b/crates/tofas/src/ellipsoid.rs
index 50064cf..c0543b6 100644
--- a/crates/tofas/src/ellipsoid.rs
+++ b/crates/tofas/src/ellipsoid.rs
@@ -132,11 +132,11 @@ impl EllipsoidConverter {
     pub fn new(ellipsoid:&Ellipsoid)->Result<Self,EllipsoidError> {
 	let &Ellipsoid{ a,f } = ellipsoid;
 
-	if f < 0.0 || f >= 1.0 {
+	if !(f >= 0.0 && f < 1.0) {
 	    return Err(EllipsoidError::InvalidFlattening);
 	}
 
-	if a < 0.0 {
+	if !(a > 0.0) {
 	    return Err(EllipsoidError::InvalidRadius);
 	}
 
-- 
2.43.0

