From fbf32fb7b7223d013f458dccf250ec8a8a4f14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:35 +0000
Subject: [PATCH 01/29] fix: report a VALARM without ACTION as an error instead
 of panicking

---
 src/components/valarm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 8f593b8..833d215 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -12,7 +12,10 @@ impl TryFrom<Vec<crate::ContentLine>> for VAlarm {
     type Error = crate::Error;
 
     fn try_from(properties: Vec<crate::ContentLine>) -> crate::Result<Self> {
-        let action = properties.iter().find(|x| x.key == "ACTION").unwrap();
+        let action = properties
+            .iter()
+            .find(|x| x.key == "ACTION")
+            .ok_or_else(|| crate::Error::Parser("Missing field ACTION".to_string()))?;
 
         let component = match action.value.as_str() {
             "AUDIO" => Self::Audio(Audio::try_from(properties)?),
-- 
2.43.0


From 5986564e93a34b9133381cbcb892c5dd48f3ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 02/29] fix: report a PERIOD without a slash as an error
 instead of panicking

---
 src/parser/datatype.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index f80c8a0..2d8f6e4 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -156,19 +156,21 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
  * See [3.3.9. Period of Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.9)
  */
 pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
-    let tokens = input.splitn(2, '/').collect::<Vec<_>>();
+    let (start, end) = input
+        .split_once('/')
+        .ok_or_else(|| crate::Error::Parser(format!("Invalid period: {input}")))?;
 
-    let start = date_time(tokens[0])?.1;
+    let start = date_time(start)?.1;
 
-    let period = if tokens[1].starts_with('P') {
+    let period = if end.starts_with('P') {
         crate::Period::StartDur(crate::period::StartDur {
             start,
-            duration: super::duration(tokens[1].into())?,
+            duration: super::duration(end.into())?,
         })
     } else {
         crate::Period::StartEnd(crate::period::StartEnd {
             start,
-            end: date_time(tokens[1])?.1,
+            end: date_time(end)?.1,
         })
     };
 
-- 
2.43.0


From 6ef9ad0deb500caa51765b763417de0bab46368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:52 +0000
Subject: [PATCH 03/29] fix: report an RRULE without FREQ as an error instead
 of panicking

---
 src/parser/recurrence.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 9a3d6d3..256497f 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -86,7 +86,10 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
                 .collect::<std::collections::BTreeMap<_, _>>();
 
             let recur = crate::Recur {
-                freq: map["FREQ"].parse()?,
+                freq: map
+                    .get("FREQ")
+                    .ok_or_else(|| crate::Error::Parser("Missing part FREQ".to_string()))?
+                    .parse()?,
                 until: map
                     .get("UNTIL")
                     .map(|x| {
-- 
2.43.0


From af01405212ed14d0f849814463bb8cca642bc23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 04/29] fix: report an out of range duration as an error
 instead of panicking

---
 src/lib.rs             | 22 +++++++++++++++-------
 src/parser/datatype.rs | 27 +++++++++++++++------------
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ea8db47..18a5909 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -157,12 +157,18 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         };
 
         let part = match (time, ty) {
-            (false, 'Y') => chrono::TimeDelta::days(365 * interval.parse::<i64>()?),
-            (false, 'M') => chrono::TimeDelta::days(30 * interval.parse::<i64>()?),
-            (false, 'D') => chrono::TimeDelta::days(interval.parse()?),
-            (true, 'H') => chrono::TimeDelta::hours(interval.parse()?),
-            (true, 'M') => chrono::TimeDelta::minutes(interval.parse()?),
-            (true, 'S') => chrono::TimeDelta::seconds(interval.parse()?),
+            (false, 'Y') => interval
+                .parse::<i64>()?
+                .checked_mul(365)
+                .and_then(chrono::TimeDelta::try_days),
+            (false, 'M') => interval
+                .parse::<i64>()?
+                .checked_mul(30)
+                .and_then(chrono::TimeDelta::try_days),
+            (false, 'D') => chrono::TimeDelta::try_days(interval.parse()?),
+            (true, 'H') => chrono::TimeDelta::try_hours(interval.parse()?),
+            (true, 'M') => chrono::TimeDelta::try_minutes(interval.parse()?),
+            (true, 'S') => chrono::TimeDelta::try_seconds(interval.parse()?),
             _ => {
                 return Err(crate::Error::ParseDuration(format!(
                     "Invalid duration: {interval}"
@@ -170,7 +176,9 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
             }
         };
 
-        duration += part;
+        duration = part.and_then(|x| duration.checked_add(&x)).ok_or_else(|| {
+            crate::Error::ParseDuration(format!("Duration out of range: {value}"))
+        })?;
     }
 
     if negative {
diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 2d8f6e4..ed72906 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -129,23 +129,26 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
 
     context(
         "duration",
-        map(
+        map_res(
             pair(
                 opt(tag("-")),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
             |(neg, (w, d, t))| {
-                let mut duration = chrono::Duration::weeks(w.unwrap_or_default())
-                    + chrono::Duration::days(d.unwrap_or_default());
-
-                if let Some((h, i, s)) = t {
-                    duration = duration
-                        + chrono::Duration::hours(h)
-                        + chrono::Duration::minutes(i)
-                        + chrono::Duration::seconds(s);
-                }
-
-                if neg.is_some() { -duration } else { duration }
+                let (h, i, s) = t.unwrap_or_default();
+
+                let duration = chrono::Duration::try_weeks(w.unwrap_or_default())
+                    .and_then(|x| {
+                        x.checked_add(&chrono::Duration::try_days(d.unwrap_or_default())?)
+                    })
+                    .and_then(|x| x.checked_add(&chrono::Duration::try_hours(h)?))
+                    .and_then(|x| x.checked_add(&chrono::Duration::try_minutes(i)?))
+                    .and_then(|x| x.checked_add(&chrono::Duration::try_seconds(s)?))
+                    .ok_or_else(|| {
+                        crate::Error::ParseDuration(format!("Duration out of range: {input}"))
+                    })?;
+
+                Ok::<_, crate::Error>(if neg.is_some() { -duration } else { duration })
             },
         ),
     )
-- 
2.43.0


From 5f6b540dd7140066dc5754c3d855245830737bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 05/29] fix: do not carry the digits of a duration part over to
 the next one

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 18a5909..94b3fd1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -179,6 +179,7 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         duration = part.and_then(|x| duration.checked_add(&x)).ok_or_else(|| {
             crate::Error::ParseDuration(format!("Duration out of range: {value}"))
         })?;
+        interval.clear();
     }
 
     if negative {
-- 
2.43.0


From 033034ce460c7cbb3364f51089717f6946436535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 06/29] fix: accept weeks in textual durations

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 94b3fd1..02fcb48 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -165,6 +165,7 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
                 .parse::<i64>()?
                 .checked_mul(30)
                 .and_then(chrono::TimeDelta::try_days),
+            (false, 'W') => chrono::TimeDelta::try_weeks(interval.parse()?),
             (false, 'D') => chrono::TimeDelta::try_days(interval.parse()?),
             (true, 'H') => chrono::TimeDelta::try_hours(interval.parse()?),
             (true, 'M') => chrono::TimeDelta::try_minutes(interval.parse()?),
-- 
2.43.0


From af941e9c4f04396cd66abf76e879d7ea49326ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 07/29] fix: refuse a duration that ends with a number without
 designator

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 02fcb48..88d2ea8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -183,6 +183,12 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
         interval.clear();
     }
 
+    if !interval.is_empty() {
+        return Err(crate::Error::ParseDuration(format!(
+            "Invalid duration: {value}"
+        )));
+    }
+
     if negative {
         duration = -duration;
     }
-- 
2.43.0


From 6cfaa11e9bbd3f0d1ed14f811ad20cf01c5fdeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 08/29] fix: parse audio, display and email alarms instead of
 panicking

---
 src/parser/components.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/parser/components.rs b/src/parser/components.rs
index f13cd9a..f100dcc 100644
--- a/src/parser/components.rs
+++ b/src/parser/components.rs
@@ -1,7 +1,7 @@
 use nom::Parser as _;
 use nom::branch::alt;
 use nom::bytes::complete::tag;
-use nom::combinator::{map, map_res};
+use nom::combinator::{map, map_opt, map_res};
 use nom::error::{FromExternalError, context};
 use nom::multi::many0;
 use nom::sequence::delimited;
@@ -31,16 +31,28 @@ component!(vjournal, crate::VJournal);
 component!(standard, crate::vtimezone::Standard);
 component!(daylight, crate::vtimezone::Daylight);
 
-pub(crate) fn audio(_: &str) -> super::NomResult<&str, crate::valarm::Audio> {
-    unreachable!()
+pub(crate) fn audio(input: &str) -> super::NomResult<&str, crate::valarm::Audio> {
+    map_opt(valarm, |alarm| match alarm {
+        crate::VAlarm::Audio(audio) => Some(audio),
+        _ => None,
+    })
+    .parse(input)
 }
 
-pub(crate) fn display(_: &str) -> super::NomResult<&str, crate::valarm::Display> {
-    unreachable!()
+pub(crate) fn display(input: &str) -> super::NomResult<&str, crate::valarm::Display> {
+    map_opt(valarm, |alarm| match alarm {
+        crate::VAlarm::Display(display) => Some(display),
+        _ => None,
+    })
+    .parse(input)
 }
 
-pub(crate) fn email(_: &str) -> super::NomResult<&str, crate::valarm::Email> {
-    unreachable!()
+pub(crate) fn email(input: &str) -> super::NomResult<&str, crate::valarm::Email> {
+    map_opt(valarm, |alarm| match alarm {
+        crate::VAlarm::Email(email) => Some(email),
+        _ => None,
+    })
+    .parse(input)
 }
 
 pub(crate) fn vevent(input: &str) -> super::NomResult<&str, crate::VEvent> {
-- 
2.43.0


From 55abc264ab333b2917ce51442554993e0f523e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 09/29] fix: report a date missing in the local timezone as an
 error instead of panicking

---
 src/properties/date.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/properties/date.rs b/src/properties/date.rs
index cd2c735..c15ee24 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -116,9 +116,11 @@ impl std::str::FromStr for DateTime {
         } else {
             let naive = chrono::NaiveDateTime::parse_from_str(s, "%Y%m%dT%H%M%SZ")?;
 
-            Ok(Self::Local(
-                naive.and_local_timezone(chrono::Local).unwrap(),
-            ))
+            naive
+                .and_local_timezone(chrono::Local)
+                .earliest()
+                .map(Self::Local)
+                .ok_or(crate::Error::Local(Self::Naive(naive)))
         }
     }
 }
-- 
2.43.0


From 95a9e89f7372fb861995215b7a422f57e234fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 10/29] fix: fold long lines between characters instead of
 panicking inside one

---
 src/ser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index f5fc486..2695988 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -159,7 +159,13 @@ fn split(s: &str, sub_size: usize) -> Vec<&str> {
     let mut cur = s;
 
     while !cur.is_empty() {
-        let (chunk, rest) = cur.split_at(std::cmp::min(sub_size, cur.len()));
+        let mut size = std::cmp::min(sub_size, cur.len());
+
+        while !cur.is_char_boundary(size) {
+            size -= 1;
+        }
+
+        let (chunk, rest) = cur.split_at(size);
         v.push(chunk);
         cur = rest;
     }
-- 
2.43.0


From c0b03e888e639211fedc6737fddf7036ceff4cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 11/29] fix: do not fold a line inside its line ending

---
 src/ser.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 2695988..2233b8a 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -142,12 +142,13 @@ pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String
             }
             s.push(':');
             s.push_str(&ical);
-            s.push_str("\r\n");
-        }
 
-        if s.len() > 75 {
-            let lines = split(&s, 75);
-            s = lines.join("\r\n ");
+            if s.len() > 75 {
+                let lines = split(&s, 75);
+                s = lines.join("\r\n ");
+            }
+
+            s.push_str("\r\n");
         }
     }
 
-- 
2.43.0


From 64a08cc0fa320e5e8e57bd3b9a5508d0e77a6300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 12/29] fix: end the recurrence instead of panicking on a date
 that does not exist

---
 src/iter.rs             |  20 ++++---
 src/properties/recur.rs | 112 +++++++++++++++++++++++++---------------
 2 files changed, 83 insertions(+), 49 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 89c08c9..2f4b9bc 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -106,12 +106,14 @@ impl Recurring for crate::VTodo {
 }
 
 pub struct Recur<T: Recurring> {
-    item: T,
+    item: Option<T>,
 }
 
 impl<T: Recurring> Recur<T> {
     pub(crate) fn from(item: &T) -> Self {
-        Self { item: item.clone() }
+        Self {
+            item: Some(item.clone()),
+        }
     }
 
     pub fn between<D: Into<crate::Date> + Copy>(self, start: D, end: D) -> impl Iterator<Item = T> {
@@ -133,9 +135,9 @@ impl<T: Recurring> Iterator for Recur<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let current = self.item.clone();
+        let current = self.item.take()?;
 
-        let mut next = self.item.clone();
+        let mut next = current.clone();
 
         loop {
             let dtstart = next.dtstart()?;
@@ -147,11 +149,15 @@ impl<T: Recurring> Iterator for Recur<T> {
                 }
             }
 
-            let dtstart = rrule.clone() + *dtstart;
+            let Some(dtstart) = rrule.checked_add(*dtstart) else {
+                return Some(current);
+            };
             next.set_dtstart(dtstart);
 
             if let Some(dtend) = next.dtend() {
-                let dtend = rrule.clone() + *dtend;
+                let Some(dtend) = rrule.checked_add(*dtend) else {
+                    return Some(current);
+                };
                 next.set_dtend(dtend);
             }
 
@@ -169,7 +175,7 @@ impl<T: Recurring> Iterator for Recur<T> {
             break;
         }
 
-        self.item = next;
+        self.item = Some(next);
 
         Some(current)
     }
diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index c57147f..85b034d 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -1,5 +1,3 @@
-use chrono::Datelike as _;
-
 /**
  * See [3.3.10. Recurrence Rule](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.5.3)
  */
@@ -54,87 +52,117 @@ impl std::str::FromStr for Recur {
     }
 }
 
-impl std::ops::Add<crate::Date> for crate::Recur {
-    type Output = crate::Date;
-
-    fn add(self, rhs: crate::Date) -> Self::Output {
+impl Recur {
+    /**
+     * Same as `recur + date`, but returns `None` instead of panicking when the result doesn’t exist.
+     */
+    #[must_use]
+    pub fn checked_add(&self, rhs: crate::Date) -> Option<crate::Date> {
         match rhs {
             crate::Date::Date(date) => {
                 if self.freq >= Freq::Daily {
-                    crate::Date::Date(self + date)
+                    self.checked_add_date(date).map(crate::Date::Date)
                 } else {
-                    crate::DateTime::Naive(self + date.and_hms_opt(0, 0, 0).unwrap()).into()
+                    let date = date.and_hms_opt(0, 0, 0)?;
+                    self.checked_add_naive(date).map(crate::Date::from)
                 }
             }
-            crate::Date::DateTime(dt) => (self + dt).into(),
+            crate::Date::DateTime(dt) => self.checked_add_datetime(dt).map(crate::Date::from),
         }
     }
-}
-impl std::ops::Add<chrono::NaiveDate> for crate::Recur {
-    type Output = chrono::NaiveDate;
 
-    fn add(self, rhs: chrono::NaiveDate) -> Self::Output {
+    fn checked_add_date(&self, rhs: chrono::NaiveDate) -> Option<chrono::NaiveDate> {
         let interval = match self.freq {
-            Freq::Secondly => return rhs,
-            Freq::Minutely => return rhs,
-            Freq::Hourly => return rhs,
+            Freq::Secondly => return Some(rhs),
+            Freq::Minutely => return Some(rhs),
+            Freq::Hourly => return Some(rhs),
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly => {
+                return rhs.checked_add_months(chrono::Months::new(self.interval.into()));
+            }
+            Freq::Yearly => {
+                return rhs.checked_add_months(chrono::Months::new(12 * u32::from(self.interval)));
+            }
         };
 
-        rhs + interval
+        rhs.checked_add_signed(interval)
     }
-}
 
-impl std::ops::Add<crate::DateTime> for crate::Recur {
-    type Output = crate::DateTime;
-
-    fn add(self, rhs: crate::DateTime) -> Self::Output {
+    fn checked_add_datetime(&self, rhs: crate::DateTime) -> Option<crate::DateTime> {
         match rhs {
-            crate::DateTime::Naive(date) => crate::DateTime::Naive(self + date),
-            crate::DateTime::Local(date) => crate::DateTime::Local(self + date),
+            crate::DateTime::Naive(date) => {
+                self.checked_add_naive(date).map(crate::DateTime::Naive)
+            }
+            crate::DateTime::Local(date) => {
+                self.checked_add_local(date).map(crate::DateTime::Local)
+            }
         }
     }
-}
-
-impl std::ops::Add<chrono::DateTime<chrono::Local>> for crate::Recur {
-    type Output = chrono::DateTime<chrono::Local>;
 
-    fn add(self, rhs: chrono::DateTime<chrono::Local>) -> Self::Output {
+    fn checked_add_local(
+        &self,
+        rhs: chrono::DateTime<chrono::Local>,
+    ) -> Option<chrono::DateTime<chrono::Local>> {
         let interval = match self.freq {
             Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
             Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
             Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly => {
+                return rhs.checked_add_months(chrono::Months::new(self.interval.into()));
+            }
+            Freq::Yearly => {
+                return rhs.checked_add_months(chrono::Months::new(12 * u32::from(self.interval)));
+            }
         };
 
-        rhs + interval
+        rhs.checked_add_signed(interval)
     }
-}
 
-impl std::ops::Add<chrono::NaiveDateTime> for crate::Recur {
-    type Output = chrono::NaiveDateTime;
-
-    fn add(self, rhs: chrono::NaiveDateTime) -> Self::Output {
+    fn checked_add_naive(&self, rhs: chrono::NaiveDateTime) -> Option<chrono::NaiveDateTime> {
         let interval = match self.freq {
             Freq::Secondly => chrono::TimeDelta::seconds(self.interval.into()),
             Freq::Minutely => chrono::TimeDelta::minutes(self.interval.into()),
             Freq::Hourly => chrono::TimeDelta::hours(self.interval.into()),
             Freq::Daily => chrono::TimeDelta::days(self.interval.into()),
             Freq::Weekly => chrono::TimeDelta::weeks(self.interval.into()),
-            Freq::Monthly => return rhs + chrono::Months::new(self.interval.into()),
-            Freq::Yearly => return rhs.with_year(rhs.year() + self.interval as i32).unwrap(),
+            Freq::Monthly => {
+                return rhs.checked_add_months(chrono::Months::new(self.interval.into()));
+            }
+            Freq::Yearly => {
+                return rhs.checked_add_months(chrono::Months::new(12 * u32::from(self.interval)));
+            }
         };
 
-        rhs + interval
+        rhs.checked_add_signed(interval)
     }
 }
 
+macro_rules! add {
+    ($ty:ty, $checked_add:ident) => {
+        impl std::ops::Add<$ty> for Recur {
+            type Output = $ty;
+
+            /**
+             * # Panics
+             *
+             * Panics if the result doesn’t exist, see [`Recur::checked_add`].
+             */
+            fn add(self, rhs: $ty) -> Self::Output {
+                self.$checked_add(rhs).expect("no such date")
+            }
+        }
+    };
+}
+
+add!(crate::Date, checked_add);
+add!(chrono::NaiveDate, checked_add_date);
+add!(crate::DateTime, checked_add_datetime);
+add!(chrono::DateTime<chrono::Local>, checked_add_local);
+add!(chrono::NaiveDateTime, checked_add_naive);
+
 #[derive(Clone, Debug, Default, Eq, PartialEq, PartialOrd, Ord)]
 pub enum Freq {
     Secondly,
-- 
2.43.0


From 88c69c5a37cc06a648588335a72790481d395bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 13/29] fix: apply EXDATE to the first occurrence and keep the
 one before an excluded end

---
 src/iter.rs | 48 +++++++++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 2f4b9bc..0f875ca 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -135,13 +135,10 @@ impl<T: Recurring> Iterator for Recur<T> {
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let current = self.item.take()?;
-
-        let mut next = current.clone();
-
         loop {
-            let dtstart = next.dtstart()?;
-            let mut rrule = next.rrule()?.clone();
+            let current = self.item.take()?;
+            let dtstart = current.dtstart()?;
+            let mut rrule = current.rrule()?.clone();
 
             if let Some(until) = &rrule.until {
                 if dtstart.date_naive() > until.date_naive() {
@@ -149,36 +146,37 @@ impl<T: Recurring> Iterator for Recur<T> {
                 }
             }
 
-            let Some(dtstart) = rrule.checked_add(*dtstart) else {
-                return Some(current);
-            };
-            next.set_dtstart(dtstart);
-
-            if let Some(dtend) = next.dtend() {
-                let Some(dtend) = rrule.checked_add(*dtend) else {
-                    return Some(current);
-                };
-                next.set_dtend(dtend);
-            }
-
-            next.set_rrule(rrule.clone());
-
-            if next.exdate().contains(&dtstart) {
+            if current.exdate().contains(dtstart) {
+                // A rule that doesn’t move forward would be excluded for ever.
+                self.item = following(&current, rrule).filter(|x| x.dtstart() != Some(dtstart));
                 continue;
             }
 
             if let Some(count) = rrule.count.as_mut() {
                 *count = count.checked_sub(1)?;
-                next.set_rrule(rrule.clone());
             }
 
-            break;
+            self.item = following(&current, rrule);
+
+            return Some(current);
         }
+    }
+}
 
-        self.item = Some(next);
+fn following<T: Recurring>(item: &T, rrule: crate::Recur) -> Option<T> {
+    let mut next = item.clone();
 
-        Some(current)
+    let dtstart = rrule.checked_add(*item.dtstart()?)?;
+    next.set_dtstart(dtstart);
+
+    if let Some(dtend) = item.dtend() {
+        let dtend = rrule.checked_add(*dtend)?;
+        next.set_dtend(dtend);
     }
+
+    next.set_rrule(rrule);
+
+    Some(next)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 33ec47428749326f529d8a0951572a1884a958c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 14/29] fix: move the due date of a recurrent VTODO along with
 its start

---
 src/iter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index 0f875ca..9f24ae6 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -174,6 +174,11 @@ fn following<T: Recurring>(item: &T, rrule: crate::Recur) -> Option<T> {
         next.set_dtend(dtend);
     }
 
+    if let Some(due) = item.due() {
+        let due = rrule.checked_add(*due)?;
+        next.set_due(due);
+    }
+
     next.set_rrule(rrule);
 
     Some(next)
-- 
2.43.0


From 3e027b3636e878371e9b07fb14d1dc92fe9ccc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 15/29] fix: take the time of UNTIL into account

---
 src/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index 9f24ae6..afb6816 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -141,7 +141,7 @@ impl<T: Recurring> Iterator for Recur<T> {
             let mut rrule = current.rrule()?.clone();
 
             if let Some(until) = &rrule.until {
-                if dtstart.date_naive() > until.date_naive() {
+                if dtstart > until {
                     return None;
                 }
             }
-- 
2.43.0


From dfaa117f212d2c9a949e2598066ded4e3718fc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 16/29] fix: write each sub-component and each value of a
 repeated property on its own

---
 derive/src/component.rs  | 7 +++----
 src/components/valarm.rs | 4 ++++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 6215028..186d08f 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -43,11 +43,10 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             .replace('_', "-");
 
         let ser_part = if crate::is_vec(ty) {
+            let append = field_params.append;
+
             quote::quote! {
-                if self.#name.len() == 1 {
-                    s.push_str(&crate::ser::field(#field_name, &self.#name[0])?);
-                }
-                else if self.#name.attr().is_none() {
+                if #append && self.#name.iter().all(|x| x.attr().is_none()) {
                     s.push_str(&crate::ser::field(#field_name, &self.#name)?);
                 } else {
                     for v in &self.#name {
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 833d215..30773eb 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -56,6 +56,10 @@ impl std::str::FromStr for VAlarm {
 }
 
 impl crate::ser::Serialize for VAlarm {
+    fn component() -> Option<String> {
+        Some("VALARM".to_string())
+    }
+
     fn ical(&self) -> crate::Result<String> {
         let s = match self {
             Self::Audio(audio) => audio.ical(),
-- 
2.43.0


From a3f2e23821f2fa722d903e1be59ca2fd23989933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 17/29] fix: write non-standard and IANA properties under their
 own name

---
 derive/src/component.rs | 6 ++++++
 derive/src/lib.rs       | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 186d08f..6b02be7 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -54,6 +54,12 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
                     }
                 }
             }
+        } else if crate::is_map(ty) {
+            quote::quote! {
+                for (k, v) in &self.#name {
+                    s.push_str(&crate::ser::field(k, v)?);
+                }
+            }
         } else {
             quote::quote! {
                 s.push_str(&crate::ser::field(#field_name, &self.#name)?);
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 4732cea..bd57dc3 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -52,6 +52,12 @@ fn is_vec(ty: &syn::Type) -> bool {
     tyname(ty) == "Vec"
 }
 
+fn is_map(ty: &syn::Type) -> bool {
+    let tyname = tyname(ty);
+
+    tyname == "BTreeMap" || tyname == "std::collections::BTreeMap"
+}
+
 fn tyname(ty: &syn::Type) -> String {
     let syn::Type::Path(typepath) = ty else {
         return String::new();
-- 
2.43.0


From 26b335489aa10d1b90a9356566112bd033d7a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 18/29] fix: do not escape URI and unknown properties as if
 they were texts

---
 src/content_line.rs   |  2 +-
 src/properties/uri.rs |  2 +-
 src/ser.rs            | 11 +++++++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/content_line.rs b/src/content_line.rs
index 80d74ce..52d8b4d 100644
--- a/src/content_line.rs
+++ b/src/content_line.rs
@@ -55,7 +55,7 @@ impl std::fmt::Display for ContentLine {
 
 impl crate::ser::Serialize for ContentLine {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        crate::ser::raw(&self.value)
     }
 
     fn attr(&self) -> Option<String> {
diff --git a/src/properties/uri.rs b/src/properties/uri.rs
index 78386de..ceedecc 100644
--- a/src/properties/uri.rs
+++ b/src/properties/uri.rs
@@ -52,7 +52,7 @@ impl From<&str> for Uri {
 
 impl crate::ser::Serialize for Uri {
     fn ical(&self) -> crate::Result<String> {
-        self.to_string().ical()
+        crate::ser::raw(&self.uri)
     }
 
     fn attr(&self) -> Option<String> {
diff --git a/src/ser.rs b/src/ser.rs
index 2233b8a..2bd2d21 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -125,6 +125,17 @@ pub(crate) fn escape(s: &str) -> String {
         .replace('\n', "\\n")
 }
 
+/**
+ * A value written as is, that can’t be continued on another line.
+ */
+pub(crate) fn raw(s: &str) -> crate::Result<String> {
+    if s.contains(['\r', '\n']) {
+        return Err(crate::Error::Serialize(format!("Invalid value: {s:?}")));
+    }
+
+    Ok(s.to_string())
+}
+
 pub(crate) fn field<S: Serialize>(name: &str, value: &S) -> crate::Result<String> {
     let mut s = String::new();
 
-- 
2.43.0


From ec0c58f405e595253d9716725ade77238370280b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:21 +0000
Subject: [PATCH 19/29] fix: do not let a text or a class start a new line in
 the output

---
 src/properties/class.rs | 6 +++++-
 src/ser.rs              | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/properties/class.rs b/src/properties/class.rs
index ea17c28..3ecbd60 100644
--- a/src/properties/class.rs
+++ b/src/properties/class.rs
@@ -54,7 +54,11 @@ impl std::fmt::Display for Class {
     }
 }
 
-crate::ser::ical_for_tostring!(Class);
+impl crate::ser::Serialize for Class {
+    fn ical(&self) -> crate::Result<String> {
+        Ok(crate::ser::escape(&self.to_string()))
+    }
+}
 
 #[cfg(test)]
 mod test {
diff --git a/src/ser.rs b/src/ser.rs
index 2bd2d21..8b653dc 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -122,7 +122,8 @@ impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
 pub(crate) fn escape(s: &str) -> String {
     s.replace(';', "\\;")
         .replace(',', "\\,")
-        .replace('\n', "\\n")
+        .replace("\r\n", "\\n")
+        .replace(['\r', '\n'], "\\n")
 }
 
 /**
-- 
2.43.0


From 6349482ebdc75ac23b5e2b7bfdf976c28c28bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 20/29] fix: quote the value of a parameter instead of escaping
 it

---
 src/ser.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ser.rs b/src/ser.rs
index 8b653dc..535bc92 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -103,14 +103,14 @@ impl<T: Serialize> Serialize for Option<T> {
     }
 }
 
-impl<K: ToString, V: Serialize> Serialize for std::collections::BTreeMap<K, V> {
+impl<K: ToString, V: ToString> Serialize for std::collections::BTreeMap<K, V> {
     fn ical(&self) -> crate::Result<String> {
         let mut s = String::new();
 
         for (k, v) in self {
             s.push_str(&k.to_string());
             s.push('=');
-            s.push_str(&v.ical()?);
+            s.push_str(&param(&v.to_string()));
             s.push(';');
         }
         s.pop();
@@ -126,6 +126,19 @@ pub(crate) fn escape(s: &str) -> String {
         .replace(['\r', '\n'], "\\n")
 }
 
+/**
+ * See [3.2. Property Parameters](https://datatracker.ietf.org/doc/html/rfc5545#section-3.2)
+ */
+fn param(s: &str) -> String {
+    let s = s.replace(['\r', '\n', '"'], "");
+
+    if s.contains([':', ';', ',']) {
+        format!("\"{s}\"")
+    } else {
+        s
+    }
+}
+
 /**
  * A value written as is, that can’t be continued on another line.
  */
-- 
2.43.0


From d49987b3bf499e80fe9f58c982c993f11c894552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 21/29] fix: unfold the lines continued with a tab

---
 derive/src/component.rs  | 2 +-
 src/components/valarm.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index 6b02be7..a5224b5 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -153,7 +153,7 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
             type Err = crate::Error;
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
-                crate::parser::#parser(&s.replace("\r\n ", ""))
+                crate::parser::#parser(&s.replace("\r\n ", "").replace("\r\n\t", ""))
                     .map_err(crate::Error::from)
                     .map(|(_, x)| x)
             }
diff --git a/src/components/valarm.rs b/src/components/valarm.rs
index 30773eb..e2b6896 100644
--- a/src/components/valarm.rs
+++ b/src/components/valarm.rs
@@ -49,7 +49,7 @@ impl std::str::FromStr for VAlarm {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::valarm(&s.replace("\r\n ", ""))
+        crate::parser::valarm(&s.replace("\r\n ", "").replace("\r\n\t", ""))
             .map_err(crate::Error::from)
             .map(|(_, x)| x)
     }
-- 
2.43.0


From 9e785474ee15ba1fe365bcd8aea82a13248366a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:40 +0000
Subject: [PATCH 22/29] fix: read and write the request status under its own
 name, REQUEST-STATUS

---
 derive/src/component.rs     | 14 ++++++++------
 src/components/vevent.rs    |  1 +
 src/components/vfreebusy.rs |  1 +
 src/components/vjournal.rs  |  1 +
 src/components/vtodo.rs     |  1 +
 5 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/derive/src/component.rs b/derive/src/component.rs
index a5224b5..c2c14df 100644
--- a/derive/src/component.rs
+++ b/derive/src/component.rs
@@ -8,6 +8,7 @@ pub(crate) struct Field {
     pub append: bool,
     #[darling(default)]
     pub ignore: bool,
+    pub rename: Option<String>,
 }
 
 pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::TokenStream> {
@@ -35,12 +36,13 @@ pub(crate) fn impl_macro(ast: &syn::DeriveInput) -> syn::Result<proc_macro2::Tok
         let ty = &field.ty;
         let field_params = Field::from_field(field)?;
 
-        let field_name = name
-            .as_ref()
-            .unwrap()
-            .to_string()
-            .to_uppercase()
-            .replace('_', "-");
+        let field_name = field_params.rename.clone().unwrap_or_else(|| {
+            name.as_ref()
+                .unwrap()
+                .to_string()
+                .to_uppercase()
+                .replace('_', "-")
+        });
 
         let ser_part = if crate::is_vec(ty) {
             let append = field_params.append;
diff --git a/src/components/vevent.rs b/src/components/vevent.rs
index 3e9b1c9..abbe406 100644
--- a/src/components/vevent.rs
+++ b/src/components/vevent.rs
@@ -31,6 +31,7 @@ pub struct VEvent {
     pub contact: Vec<crate::Text>,
     #[component(append)]
     pub exdate: Vec<crate::Date>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     pub related_to: Vec<crate::Text>,
     #[component(append)]
diff --git a/src/components/vfreebusy.rs b/src/components/vfreebusy.rs
index 3057da6..4385772 100644
--- a/src/components/vfreebusy.rs
+++ b/src/components/vfreebusy.rs
@@ -14,6 +14,7 @@ pub struct VFreebusy {
     pub comment: Vec<crate::Text>,
     #[component(append)]
     pub freebusy: Vec<crate::Period>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vjournal.rs b/src/components/vjournal.rs
index 0d07251..214d0e0 100644
--- a/src/components/vjournal.rs
+++ b/src/components/vjournal.rs
@@ -27,6 +27,7 @@ pub struct VJournal {
     pub exdate: Vec<crate::Date>,
     pub related_to: Vec<crate::Text>,
     pub rdate: Vec<crate::RDate>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     #[component(ignore)]
     pub x_prop: std::collections::BTreeMap<String, crate::ContentLine>,
diff --git a/src/components/vtodo.rs b/src/components/vtodo.rs
index 84a9cbd..9b867cb 100644
--- a/src/components/vtodo.rs
+++ b/src/components/vtodo.rs
@@ -31,6 +31,7 @@ pub struct VTodo {
     pub contact: Vec<crate::Text>,
     #[component(append)]
     pub exdate: Vec<crate::Date>,
+    #[component(rename = "REQUEST-STATUS")]
     pub rstatus: Vec<crate::RequestStatus>,
     pub related_to: Vec<crate::Text>,
     #[component(append)]
-- 
2.43.0


From 83645aac2e02a94cd9993bf5438187c912ef0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 23/29] fix: refuse a date-time followed by several Z

---
 src/parser/datatype.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index ed72906..661332c 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -34,18 +34,17 @@ pub(crate) fn date(input: &str) -> super::NomResult<&str, chrono::NaiveDate> {
  * See [3.3.5. Date-Time](https://datatracker.ietf.org/doc/html/rfc5545#section-3.3.5)
  */
 pub(crate) fn date_time(input: &str) -> super::NomResult<&str, crate::DateTime> {
-    let date = input.to_string();
-
-    let dt = chrono::NaiveDateTime::parse_from_str(date.trim_end_matches('Z'), "%Y%m%dT%H%M%S")
-        .map_err(|e| {
-            nom::Err::Error(nom_language::error::VerboseError::from_external_error(
-                input,
-                nom::error::ErrorKind::Fail,
-                e,
-            ))
-        })?;
-
-    if date.ends_with('Z') {
+    let date = input.strip_suffix('Z').unwrap_or(input);
+
+    let dt = chrono::NaiveDateTime::parse_from_str(date, "%Y%m%dT%H%M%S").map_err(|e| {
+        nom::Err::Error(nom_language::error::VerboseError::from_external_error(
+            input,
+            nom::error::ErrorKind::Fail,
+            e,
+        ))
+    })?;
+
+    if input.ends_with('Z') {
         Ok((
             "",
             crate::DateTime::Local(dt.and_utc().with_timezone(&chrono::Local)),
-- 
2.43.0


From 88dc964eef9c253fd50f486ea8563598d85dc312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 24/29] fix: refuse what follows a value instead of dropping it

---
 src/parser/alarm.rs       |  8 ++++----
 src/parser/datetime.rs    |  4 +---
 src/parser/descriptive.rs |  8 ++++----
 src/parser/mod.rs         | 13 +++++++++++++
 src/parser/recurrence.rs  |  8 ++++----
 src/properties/recur.rs   |  8 ++------
 6 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/parser/alarm.rs b/src/parser/alarm.rs
index fe8f3cc..4f06e11 100644
--- a/src/parser/alarm.rs
+++ b/src/parser/alarm.rs
@@ -24,11 +24,11 @@ pub(crate) fn trigger(input: crate::ContentLine) -> crate::Result<crate::Trigger
     use nom::branch::alt;
     use nom::combinator::map;
 
-    alt((
+    let result = alt((
         map(super::datatype::duration, crate::Trigger::Duration),
         map(super::datatype::date_time, crate::Trigger::DateTime),
     ))
-    .parse(input.value.as_str())
-    .map_err(crate::Error::from)
-    .map(|(_, x)| x)
+    .parse(input.value.as_str());
+
+    super::finish(result)
 }
diff --git a/src/parser/datetime.rs b/src/parser/datetime.rs
index 07566c5..151f152 100644
--- a/src/parser/datetime.rs
+++ b/src/parser/datetime.rs
@@ -42,9 +42,7 @@ pub(crate) fn dtstart(input: crate::ContentLine) -> crate::Result<crate::Date> {
  * See [3.8.2.5. Duration](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.2.5)
  */
 pub(crate) fn duration(input: crate::ContentLine) -> crate::Result<chrono::Duration> {
-    super::datatype::duration(&input.value)
-        .map_err(crate::Error::from)
-        .map(|(_, x)| x)
+    super::finish(super::datatype::duration(&input.value))
 }
 
 /**
diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index f8e884f..c120bbe 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -47,12 +47,12 @@ pub(crate) fn geo(input: crate::ContentLine) -> crate::Result<crate::Geo> {
     use nom::number::complete::float;
     use nom::sequence::separated_pair;
 
-    map(separated_pair(float, char(';'), float), |(lat, lon)| {
+    let result = map(separated_pair(float, char(';'), float), |(lat, lon)| {
         crate::Geo { lat, lon }
     })
-    .parse(input.value.as_str())
-    .map_err(crate::Error::from)
-    .map(|(_, x)| x)
+    .parse(input.value.as_str());
+
+    super::finish(result)
 }
 
 /**
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 971907a..efe3d14 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -33,6 +33,19 @@ use std::collections::BTreeMap;
 
 pub(crate) type NomResult<I, O> = nom::IResult<I, O, nom_language::error::VerboseError<I>>;
 
+/**
+ * Refuses what is left, if any, after a whole value.
+ */
+pub(crate) fn finish<T>(result: NomResult<&str, T>) -> crate::Result<T> {
+    let (rest, value) = result?;
+
+    if rest.trim_end().is_empty() {
+        Ok(value)
+    } else {
+        Err(crate::Error::Parser(format!("Unexpected value: {rest}")))
+    }
+}
+
 fn is_alphabetic(chr: char) -> bool {
     nom::AsChar::is_alpha(chr)
 }
diff --git a/src/parser/recurrence.rs b/src/parser/recurrence.rs
index 256497f..c2f0d0b 100644
--- a/src/parser/recurrence.rs
+++ b/src/parser/recurrence.rs
@@ -77,7 +77,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
         input.split(',').map(str::parse).collect::<Result<_, _>>()
     }
 
-    context(
+    let result = context(
         "rrule",
         map_res(many1(item), |items| {
             let map = items
@@ -131,7 +131,7 @@ pub(crate) fn rrule(input: crate::ContentLine) -> crate::Result<crate::Recur> {
             Ok::<_, crate::Error>(recur)
         }),
     )
-    .parse(input.value.as_str())
-    .map(|(_, x)| x)
-    .map_err(crate::Error::from)
+    .parse(input.value.as_str());
+
+    super::finish(result)
 }
diff --git a/src/properties/recur.rs b/src/properties/recur.rs
index 85b034d..5c02590 100644
--- a/src/properties/recur.rs
+++ b/src/properties/recur.rs
@@ -255,9 +255,7 @@ impl std::str::FromStr for WeekdayNum {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekdaynum(s)
-            .map_err(crate::Error::from)
-            .map(|(_, x)| x)
+        crate::parser::finish(crate::parser::weekdaynum(s))
     }
 }
 
@@ -304,9 +302,7 @@ impl std::str::FromStr for Weekday {
     type Err = crate::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        crate::parser::weekday(s)
-            .map_err(crate::Error::from)
-            .map(|(_, x)| x)
+        crate::parser::finish(crate::parser::weekday(s))
     }
 }
 
-- 
2.43.0


From 2b02d80a5fc61745b4955e5eaad1d5df6a9832c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 25/29] fix: keep the parameters of CATEGORIES and RESOURCES

---
 src/parser/descriptive.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/parser/descriptive.rs b/src/parser/descriptive.rs
index c120bbe..933dbec 100644
--- a/src/parser/descriptive.rs
+++ b/src/parser/descriptive.rs
@@ -13,7 +13,16 @@ pub(crate) fn attach(input: crate::ContentLine) -> crate::Result<crate::Text> {
  * See [3.8.1.2. Categories](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.2)
  */
 pub(crate) fn categories(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    let params = input.params;
+
+    Ok(input
+        .value
+        .split(',')
+        .map(|x| crate::Text {
+            params: params.clone(),
+            text: x.to_string(),
+        })
+        .collect())
 }
 
 /**
@@ -86,7 +95,16 @@ pub(crate) fn priority(input: crate::ContentLine) -> crate::Result<u8> {
  * See [3.8.1.10. Resources](https://datatracker.ietf.org/doc/html/rfc5545#section-3.8.1.10)
  */
 pub(crate) fn resources(input: crate::ContentLine) -> crate::Result<Vec<crate::Text>> {
-    Ok(input.value.split(',').map(crate::Text::from).collect())
+    let params = input.params;
+
+    Ok(input
+        .value
+        .split(',')
+        .map(|x| crate::Text {
+            params: params.clone(),
+            text: x.to_string(),
+        })
+        .collect())
 }
 
 /**
-- 
2.43.0


From 34115eb737d16af806966efa66d624aee2792e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:46 +0000
Subject: [PATCH 26/29] fix: compare periods by duration instead of panicking
 on a date out of range

---
 src/properties/period.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/properties/period.rs b/src/properties/period.rs
index e361c76..c70b9d5 100644
--- a/src/properties/period.rs
+++ b/src/properties/period.rs
@@ -109,10 +109,7 @@ impl std::cmp::PartialOrd for StartDur {
 
 impl std::cmp::Ord for StartDur {
     fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-        let a = self.start - self.duration;
-        let b = other.start - other.duration;
-
-        a.cmp(&b)
+        self.duration.cmp(&other.duration)
     }
 }
 
-- 
2.43.0


From edd79296fd161bd52a71aa5757ef5c0af0adac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 27/29] fix: accept the last representable day in Recur::at
 instead of panicking

---
 src/iter.rs            | 5 ++++-
 src/properties/date.rs | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/iter.rs b/src/iter.rs
index afb6816..865098e 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -123,7 +123,10 @@ impl<T: Recurring> Recur<T> {
 
     pub fn at<D: Into<crate::Date> + Copy>(self, date: D) -> impl Iterator<Item = T> {
         let delta = chrono::TimeDelta::days(1);
-        self.between(date.into(), date.into() + delta)
+        let end = date.into().checked_add(delta);
+
+        self.after(date)
+            .take_while(move |x| end.is_none_or(|end| x.dtstart().unwrap() < &end))
     }
 
     pub fn after<D: Into<crate::Date> + Copy>(self, date: D) -> impl Iterator<Item = T> {
diff --git a/src/properties/date.rs b/src/properties/date.rs
index c15ee24..c6d3b39 100644
--- a/src/properties/date.rs
+++ b/src/properties/date.rs
@@ -180,6 +180,14 @@ impl Date {
     pub fn has_time(&self) -> bool {
         matches!(self, Self::DateTime(_))
     }
+
+    pub(crate) fn checked_add(self, rhs: chrono::TimeDelta) -> Option<Self> {
+        match self {
+            Self::Date(date) => date.checked_add_signed(rhs).map(Self::Date),
+            Self::DateTime(DateTime::Naive(naive)) => naive.checked_add_signed(rhs).map(Into::into),
+            Self::DateTime(DateTime::Local(local)) => local.checked_add_signed(rhs).map(Into::into),
+        }
+    }
 }
 
 impl Default for Date {
-- 
2.43.0


From 94d454539e27f3536823d077a8a8ade944a241e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:33 +0000
Subject: [PATCH 28/29] fix: accept durations with an explicit plus sign

---
 src/lib.rs             |  2 ++
 src/parser/datatype.rs | 13 +++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 88d2ea8..fff0223 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -133,6 +133,8 @@ pub fn parse_duration(value: &str) -> crate::Result<chrono::TimeDelta> {
 
     if it.next_if(|x| *x == '-').is_some() {
         negative = true;
+    } else {
+        it.next_if(|x| *x == '+');
     }
 
     if it.next_if(|x| *x == 'P').is_none() {
diff --git a/src/parser/datatype.rs b/src/parser/datatype.rs
index 661332c..ec2b04d 100644
--- a/src/parser/datatype.rs
+++ b/src/parser/datatype.rs
@@ -3,6 +3,7 @@
  */
 
 use nom::Parser as _;
+use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::combinator::{map, map_res, opt};
 use nom::error::{FromExternalError, context};
@@ -130,10 +131,10 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
         "duration",
         map_res(
             pair(
-                opt(tag("-")),
+                opt(alt((tag("+"), tag("-")))),
                 preceded(tag("P"), (opt(week), opt(day), opt(time))),
             ),
-            |(neg, (w, d, t))| {
+            |(sign, (w, d, t))| {
                 let (h, i, s) = t.unwrap_or_default();
 
                 let duration = chrono::Duration::try_weeks(w.unwrap_or_default())
@@ -147,7 +148,11 @@ pub(crate) fn duration(input: &str) -> super::NomResult<&str, chrono::Duration>
                         crate::Error::ParseDuration(format!("Duration out of range: {input}"))
                     })?;
 
-                Ok::<_, crate::Error>(if neg.is_some() { -duration } else { duration })
+                Ok::<_, crate::Error>(if sign == Some("-") {
+                    -duration
+                } else {
+                    duration
+                })
             },
         ),
     )
@@ -164,7 +169,7 @@ pub(crate) fn period(input: &str) -> crate::Result<crate::Period> {
 
     let start = date_time(start)?.1;
 
-    let period = if end.starts_with('P') {
+    let period = if end.starts_with('P') || end.starts_with('+') {
         crate::Period::StartDur(crate::period::StartDur {
             start,
             duration: super::duration(end.into())?,
-- 
2.43.0


From 9e93862db060458e7e952a50a6355ce10a49bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:14 +0000
Subject: [PATCH 29/29] fix: accept the remaining vcalendar properties in
 vcalendar!

`calscale` and `method` were not wrapped in `Some`, and a nested
`freebusy`, `journals`, `timezones` or `todo` object made the macro panic.
---
 derive/src/macros.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/derive/src/macros.rs b/derive/src/macros.rs
index 327d4c6..3f5b3c4 100644
--- a/derive/src/macros.rs
+++ b/derive/src/macros.rs
@@ -209,10 +209,14 @@ impl quote::ToTokens for TypedValue {
                     (_, "alarms") => "VAlarm".to_string(),
                     (_, "daylight") => "vtimezone::Daylight".to_string(),
                     (_, "events") => "VEvent".to_string(),
+                    (_, "freebusy") => "VFreebusy".to_string(),
                     (_, "geo") => "Geo".to_string(),
+                    (_, "journals") => "VJournal".to_string(),
                     (_, "rrule") => "Recur".to_string(),
                     (_, "rstatus") => "RequestStatus".to_string(),
                     (_, "standard") => "vtimezone::Standard".to_string(),
+                    (_, "timezones") => "VTimezone".to_string(),
+                    (_, "todo") => "VTodo".to_string(),
                     (ty, field) => todo!("{ty}.{field}"),
                 };
 
@@ -237,7 +241,8 @@ impl Type {
             || (ty == "VTodo" && field == "dtstart")
             || matches!(
                 field,
-                "class"
+                "calscale"
+                    | "class"
                     | "completed"
                     | "created"
                     | "dtend"
@@ -247,6 +252,7 @@ impl Type {
                     | "geo"
                     | "last_modified"
                     | "location"
+                    | "method"
                     | "organizer"
                     | "priority"
                     | "recurid"
-- 
2.43.0

