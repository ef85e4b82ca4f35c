From 3a3b178248e1c79b3b927ed3ff2d9e21334b2898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 001/131] fix: apply the century rule when counting leap days
 since 1970

---
 src/pycalendar/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 4c28681..18b50ed 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -402,14 +402,15 @@ def leapDaysSince1970(year_offset):
     try:
         return cachedLeapDaysSince1970[year_offset]
     except KeyError:
-        if year_offset > 2:
-            result = (year_offset + 1) / 4
-        elif year_offset < -1:
-            # Python will round down negative numbers (i.e. -5/4 = -2, but we want -1), so
-            # what is (year_offset - 2) in C code is actually (year_offset - 2 + 3) in Python.
-            result = (year_offset + 1) / 4
-        else:
-            result = 0
+        # Count leap days in all years before the requested one, using the same rules
+        # as isLeapYear (every fourth year up to 1752, Gregorian after that)
+        prior_year = 1970 + year_offset - 1
+        result = prior_year / 4
+        if prior_year > 1752:
+            result -= (prior_year / 100 - 17) - (prior_year / 400 - 4)
+
+        # There are 490 up to the start of 1970
+        result -= 490
         cachedLeapDaysSince1970[year_offset] = result
         return result
 
-- 
2.43.0


From dcecd7d5ee8f5287c482faacfa22eeb76a1fc5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 002/131] fix: set the ISO week number correctly for Sundays
 and for years starting on Sunday

---
 src/pycalendar/datetime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 4635a39..b30642b 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -377,9 +377,14 @@ class DateTime(ValueMixin):
             return
 
         # What day does the current year start on, and diff that with the current day
+        # (using the ISO day of week, 1-7, where Sunday is last)
         temp = DateTime(year=self.mYear, month=1, day=1)
         first_day = temp.getDayOfWeek()
+        if first_day == 0:
+            first_day = 7
         current_day = self.getDayOfWeek()
+        if current_day == 0:
+            current_day = 7
 
         # Calculate and set yearday for start of week. The first week is the one that contains at least
         # four days (with week start defaulting to MONDAY), so that means the 1st of January would fall
-- 
2.43.0


From d8e2c407b7b7bb8a95eb1ef3b893f8cfd808409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 003/131] fix: count each instance of a recurrence rule only
 once

---
 src/pycalendar/icalendar/recurrence.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a186af8..0b0ab90 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -961,7 +961,7 @@ class Recurrence(ValueMixin):
 
             # Always sort the set as BYxxx rules may not be sorted
             # set_items.sort(cmp=DateTime.sort)
-            set_items.sort(key=lambda x: x.getPosixTime())
+            self.sortUnique(set_items)
 
             # Process each one in the generated set
             for iter in set_items:
@@ -1008,6 +1008,16 @@ class Recurrence(ValueMixin):
             # Get next item
             start_iter.recur(self.mFreq, self.mInterval, allow_invalid=True)
 
+    def sortUnique(self, dates):
+        # Different BYxxx values can produce the same date-time (e.g. BYMONTHDAY=31,-1),
+        # but a recurrence set only ever contains it once
+        dates.sort(key=lambda x: x.getPosixTime())
+        unique = []
+        for iter in dates:
+            if not unique or iter != unique[-1]:
+                unique.append(iter)
+        dates[:] = unique
+
     def clear(self):
         self.mCached = False
         self.mFullyCached = False
@@ -1651,7 +1661,7 @@ class Recurrence(ValueMixin):
     def bySetPosLimit(self, dates):
         # The input dates MUST be sorted in order for this to work properly
         # dates.sort(cmp=DateTime.sort)
-        dates.sort(key=lambda x: x.getPosixTime())
+        self.sortUnique(dates)
 
         # Loop over each BYSETPOS and extract the relevant component from the
         # input array and add to the output
-- 
2.43.0


From b695270d44689b94a0385bce8df31311fa5daa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 004/131] fix: apply BYMONTH in a weekly rule to the days of
 the week, not its first instance

---
 src/pycalendar/icalendar/recurrence.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 0b0ab90..ebdf082 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1158,12 +1158,6 @@ class Recurrence(ValueMixin):
         # Start with initial date-time
         items.append(start.duplicate())
 
-        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
-            # BYMONTH limits the range of possible values
-            items[:] = self.byMonthLimit(items)
-            if (len(items) == 0):
-                return
-
         if (self.mByWeekNo is not None) and (len(self.mByWeekNo) != 0):
             items[:] = self.byWeekNoLimit(items)
             if (len(items) == 0):
@@ -1176,6 +1170,13 @@ class Recurrence(ValueMixin):
         if (self.mByDay is not None) and (len(self.mByDay) != 0):
             items[:] = self.byDayExpandWeekly(items)
 
+        if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
+            # BYMONTH limits the range of possible values - a week can span two months so
+            # this applies to the actual days
+            items[:] = self.byMonthLimit(items)
+            if (len(items) == 0):
+                return
+
         if (self.mByHours is not None) and (len(self.mByHours) != 0):
             items[:] = self.byHourExpand(items)
 
-- 
2.43.0


From c21d75ba1580f4d5589a2ce1181597d04fdd98c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 005/131] fix: expand BYMONTHDAY in a yearly rule over every
 month

---
 src/pycalendar/icalendar/recurrence.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index ebdf082..403192b 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1062,7 +1062,11 @@ class Recurrence(ValueMixin):
         items.append(start.duplicate())
 
         if (self.mByMonth is not None) and (len(self.mByMonth) != 0):
-            items[:] = self.byMonthExpand(items)
+            items[:] = self.byMonthExpand(items, self.mByMonth)
+        elif (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0) \
+                and not self.mByWeekNo and not self.mByYearDay:
+            # BYMONTHDAY on its own applies to every month in the year
+            items[:] = self.byMonthExpand(items, range(1, 13))
 
         if (self.mByWeekNo is not None) and (len(self.mByWeekNo) != 0):
             items[:] = self.byWeekNoExpand(items)
@@ -1380,13 +1384,13 @@ class Recurrence(ValueMixin):
         if (self.mBySetPos is not None) and (len(self.mBySetPos) != 0):
             items[:] = self.bySetPosLimit(items)
 
-    def byMonthExpand(self, dates):
+    def byMonthExpand(self, dates, months):
         # Loop over all input items
         output = []
         for iter1 in dates:
             # Loop over each BYMONTH and generating a new date-time for it and
             # insert into output
-            for iter2 in self.mByMonth:
+            for iter2 in months:
                 temp = iter1.duplicate()
                 temp.setMonth(iter2)
                 output.append(temp)
-- 
2.43.0


From bffd9aad4d02ff6089e6090e47bdf62f06db7b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 006/131] fix: do not lose BYYEARDAY instances outside January
 and December

---
 src/pycalendar/icalendar/recurrence.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 403192b..27959b3 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1418,8 +1418,10 @@ class Recurrence(ValueMixin):
             # and insert into output
             for iter2 in self.mByYearDay:
                 temp = iter1.duplicate()
-                temp.setYearDay(iter2, allow_invalid=True)
-                output.append(temp)
+                temp.setYearDay(iter2)
+                # Day 366 (or -366) only exists in a leap year
+                if temp.getYear() == iter1.getYear():
+                    output.append(temp)
 
         return output
 
-- 
2.43.0


From 6c53b80126baf4ad1b872c76ab41750c6629c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:02 +0000
Subject: [PATCH 007/131] fix: do not let a missing 53rd weekday run into the
 next year

---
 src/pycalendar/icalendar/recurrence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 27959b3..7cb927d 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1449,7 +1449,9 @@ class Recurrence(ValueMixin):
                 if iter2[0] != 0:
                     temp = iter1.duplicate()
                     temp.setDayOfWeekInYear(iter2[0], iter2[1])
-                    output.append(temp)
+                    # There is not always a 53rd one in the year
+                    if temp.getYear() == iter1.getYear():
+                        output.append(temp)
                 else:
                     # Every matching day in the year
                     for i in range(1, 54):
-- 
2.43.0


From 66dfeff02aebdda25b0d68785789e24acd9cdf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 008/131] fix: honour negative BYWEEKNO, 53-week years and WKST

---
 src/pycalendar/icalendar/recurrence.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 7cb927d..4dad321 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1397,15 +1397,31 @@ class Recurrence(ValueMixin):
 
         return output
 
+    def firstWeekOfYear(self, date, year):
+        # The first week, starting on WKST, with at least four days in the year, always
+        # contains January 4th
+        temp = date.duplicate()
+        temp.setYYMMDD(year, 1, 4)
+        temp.offsetDay(-((temp.getDayOfWeek() - self.mWeekstart) % 7))
+        return temp
+
     def byWeekNoExpand(self, dates):
         # Loop over all input items
         output = []
         for iter1 in dates:
-            # Loop over each BYWEEKNO and generating a new date-time for it and
-            # insert into output
+            # Determine how many weeks there are in the year
+            first_week = self.firstWeekOfYear(iter1, iter1.getYear())
+            next_first_week = self.firstWeekOfYear(iter1, iter1.getYear() + 1)
+            weeks_in_year = (next_first_week.daysSince1970() - first_week.daysSince1970()) / 7
+
+            # Loop over each BYWEEKNO and generating a new date-time, on the same day of the
+            # week as the input item, for it and insert into output
             for iter2 in self.mByWeekNo:
-                temp = iter1.duplicate()
-                temp.setWeekNo(iter2)
+                weekno = iter2 if iter2 > 0 else weeks_in_year + 1 + iter2
+                if weekno < 1 or weekno > weeks_in_year:
+                    continue
+                temp = first_week.duplicate()
+                temp.offsetDay((weekno - 1) * 7 + (iter1.getDayOfWeek() - self.mWeekstart) % 7)
                 output.append(temp)
 
         return output
-- 
2.43.0


From 05287e4f17b1c344171bdb8afae91c9356102ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:20 +0000
Subject: [PATCH 009/131] fix: apply BYYEARDAY in hourly, minutely and secondly
 rules

---
 src/pycalendar/icalendar/recurrence.py | 36 +++++++++++++++++++-------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 4dad321..a254b88 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -14,7 +14,7 @@
 #    limitations under the License.
 ##
 
-from pycalendar import xmlutils
+from pycalendar import utils, xmlutils
 from pycalendar.datetime import DateTime
 from pycalendar.icalendar import definitions, xmldefinitions
 from pycalendar.icalendar.exceptions import TooManyInstancesError
@@ -1241,8 +1241,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateHourlySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1257,7 +1255,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1287,8 +1288,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateMinutelySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1303,7 +1302,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1335,8 +1337,6 @@ class Recurrence(ValueMixin):
             items[:] = self.bySetPosLimit(items)
 
     def generateSecondlySet(self, start, items):
-        # Cannot have BYYEARDAY
-
         # Start with initial date-time
         items.append(start.duplicate())
 
@@ -1351,7 +1351,10 @@ class Recurrence(ValueMixin):
             if (len(items) == 0):
                 return
 
-        # No BYYEARDAY
+        if (self.mByYearDay is not None) and (len(self.mByYearDay) != 0):
+            items[:] = self.byYearDayLimit(items)
+            if (len(items) == 0):
+                return
 
         if (self.mByMonthDay is not None) and (len(self.mByMonthDay) != 0):
             items[:] = self.byMonthDayLimit(items)
@@ -1602,6 +1605,19 @@ class Recurrence(ValueMixin):
 
         return output
 
+    def byYearDayLimit(self, dates):
+        # Loop over all input items
+        output = []
+        for iter1 in dates:
+            # Keep if input day of the year matches one of the BYYEARDAYs, counted from
+            # the start or the end of the year
+            year_day = iter1.getYearDay()
+            days_in_year = 366 if utils.isLeapYear(iter1.getYear()) else 365
+            if year_day in self.mByYearDay or year_day - days_in_year - 1 in self.mByYearDay:
+                output.append(iter1)
+
+        return output
+
     def byMonthDayLimit(self, dates):
         # Loop over all input items
         output = []
-- 
2.43.0


From 3767d9d51bfa90c53b7f9117130a589dded6a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 010/131] fix: do not end a recurrence expansion before the
 last instances in the range

---
 src/pycalendar/icalendar/recurrence.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a254b88..a4b722f 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1001,9 +1001,16 @@ class Recurrence(ValueMixin):
                     if ctr >= self.mCount:
                         return True
 
-            # Exit if after period we want
-            if range.isDateAfterPeriod(start_iter):
-                return False
+            # Exit if after period we want. The next set never starts before the current date
+            # except that the first week of a year can start in the previous one. Dates that do
+            # not exist (e.g. February 31st) cannot be used here as they match a later day.
+            if not start_iter.invalid():
+                earliest = start_iter
+                if self.mFreq == definitions.eRecurrence_YEARLY and self.mByWeekNo:
+                    earliest = start_iter.duplicate()
+                    earliest.offsetDay(-7)
+                if range.isDateAfterPeriod(earliest):
+                    return False
 
             # Get next item
             start_iter.recur(self.mFreq, self.mInterval, allow_invalid=True)
-- 
2.43.0


From 57ec24c4bcea8edc7f78bd5ba208edd13da41267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 011/131] fix: give equal recurrence rules equal hash values

---
 src/pycalendar/icalendar/recurrence.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index a4b722f..aba7c78 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -177,15 +177,15 @@ class Recurrence(ValueMixin):
             self.mUseUntil,
             self.mUntil,
             self.mInterval,
-            tuple(self.mBySeconds) if self.mBySeconds else None,
-            tuple(self.mByMinutes) if self.mByMinutes else None,
-            tuple(self.mByHours) if self.mByHours else None,
-            tuple(self.mByDay) if self.mByDay else None,
-            tuple(self.mByMonthDay) if self.mByMonthDay else None,
-            tuple(self.mByYearDay) if self.mByYearDay else None,
-            tuple(self.mByWeekNo) if self.mByWeekNo else None,
-            tuple(self.mByMonth) if self.mByMonth else None,
-            tuple(self.mBySetPos) if self.mBySetPos else None,
+            tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
+            tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
+            tuple(sorted(self.mByHours)) if self.mByHours else None,
+            tuple(sorted(self.mByDay)) if self.mByDay else None,
+            tuple(sorted(self.mByMonthDay)) if self.mByMonthDay else None,
+            tuple(sorted(self.mByYearDay)) if self.mByYearDay else None,
+            tuple(sorted(self.mByWeekNo)) if self.mByWeekNo else None,
+            tuple(sorted(self.mByMonth)) if self.mByMonth else None,
+            tuple(sorted(self.mBySetPos)) if self.mBySetPos else None,
             self.mWeekstart,
         ))
 
-- 
2.43.0


From 72d1372937bbf102343e99f5b97d58a0ed7b1712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 012/131] fix: keep the recurrence cache valid after a failed
 expansion and caller changes

---
 src/pycalendar/icalendar/recurrence.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index aba7c78..8e9a03b 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -858,6 +858,8 @@ class Recurrence(ValueMixin):
             # Always wipe the existing cached items as we always start from the very first instance
             # so we can properly track the count limit
             self.mRecurrences = []
+            self.mCached = False
+            self.mFullyCached = False
 
             # Simple expansion is one where there is no BYXXX rule part
             if not self.hasBy():
@@ -865,16 +867,16 @@ class Recurrence(ValueMixin):
             else:
                 self.mFullyCached = self.complexExpand(start, range, self.mRecurrences, float_offset, maxInstances=maxInstances)
 
-            # Set cache values
+            # Set cache values - these must not change when the caller changes its own objects
             self.mCached = True
-            self.mCacheStart = start
-            self.mCacheUpto = range.getEnd()
+            self.mCacheStart = start.duplicate()
+            self.mCacheUpto = range.getEnd().duplicate()
 
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
         for iter in self.mRecurrences:
             if range.isDateWithinPeriod(iter):
-                items.append(iter)
+                items.append(iter.duplicate())
             else:
                 limited = True
         return limited
-- 
2.43.0


From be2e942300c16401d9000a1955ed4715c0b5dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 013/131] fix: make excludeFutureRecurrence work

---
 src/pycalendar/icalendar/recurrence.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 8e9a03b..c9f2054 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1043,8 +1043,7 @@ class Recurrence(ValueMixin):
     def excludeFutureRecurrence(self, exclude):
         # Expand the rule up to the exclude date
         items = []
-        period = Period()
-        period.init(self.mCacheStart, exclude)
+        period = Period(self.mCacheStart.duplicate(), exclude)
         self.expand(self.mCacheStart, period, items)
 
         # Adjust UNTIL or add one if no COUNT
@@ -1057,7 +1056,10 @@ class Recurrence(ValueMixin):
 
         # Adjust COUNT
         elif self.getUseCount():
-            # The last one is just less than the exclude date
+            # The last one is just less than the exclude date. The start is always counted
+            # even when it is not one of the items.
+            if len(items) == 0 or items[0] != self.mCacheStart:
+                items.insert(0, self.mCacheStart)
             self.mUseCount = True
             self.mCount = len(items)
 
-- 
2.43.0


From d12179de620d62879e8c274f8afd1b9e60129050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:45 +0000
Subject: [PATCH 014/131] fix: return the rule text from
 Recurrence.getUIDescription

---
 src/pycalendar/icalendar/recurrence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index c9f2054..90d2be1 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -827,7 +827,7 @@ class Recurrence(ValueMixin):
     def getUIDescription(self):
         try:
             # For now just use iCal item
-            sout = StringIO()
+            sout = StringIO.StringIO()
             self.generate(sout)
             result = sout.getvalue()
         except:
-- 
2.43.0


From 290fe7cc5e2292f6583f6d846c8701c3f23da1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 015/131] fix: apply maxInstances to cached recurrence
 expansions too

---
 src/pycalendar/icalendar/recurrence.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 90d2be1..f84e178 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -874,7 +874,14 @@ class Recurrence(ValueMixin):
 
         # Just return the cached items in the requested range
         limited = not self.mFullyCached
+        ctr = 0
         for iter in self.mRecurrences:
+            # The instance limit applies no matter whether the cache was used
+            if maxInstances and not range.isDateAfterPeriod(iter):
+                ctr += 1
+                if ctr > maxInstances:
+                    raise TooManyInstancesError("Too many instances")
+
             if range.isDateWithinPeriod(iter):
                 items.append(iter.duplicate())
             else:
-- 
2.43.0


From 716745a2f792f204c7ebcaa6ca637736c9ddd13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 016/131] fix: keep recurrence instances in order when some are
 excluded

---
 src/pycalendar/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 18b50ed..b35ca09 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -515,7 +515,6 @@ def set_difference(v1, v2):
     if len(v1) == 0 or len(v2) == 0:
         return v1
 
-    s1 = set(v1)
+    # Keep the order of the first one
     s2 = set(v2)
-    s3 = s1.difference(s2)
-    return list(s3)
+    return [i for i in v1 if i not in s2]
-- 
2.43.0


From 64e7be61500e328a6ddfd513fe900c1c10c75318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 017/131] fix: give expanded instances of events with a
 DURATION or no end the right length

---
 src/pycalendar/icalendar/componentexpanded.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 63bf1cb..d73791a 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -120,10 +120,7 @@ class ComponentExpanded(object):
             self.mInstanceStart = rid
 
             # End is based on original events settings
-            if self.mOwner.hasEnd():
-                self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
-            else:
-                self.mInstanceEnd = self.mInstanceStart.duplicate()
+            self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
 
             self.mRecurring = True
 
-- 
2.43.0


From 507b8b59d8e6df62b448ae834dfe56d340f54a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 018/131] fix: expand RDATE periods instead of failing on them

---
 src/pycalendar/componentbase.py               | 4 ++--
 src/pycalendar/icalendar/componentexpanded.py | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 6adc521..3888027 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -538,9 +538,9 @@ class ComponentBase(object):
                                 value.subtractDT(obj.getValue())
                         elif isinstance(obj, PeriodValue):
                             if add:
-                                value.addPeriod(obj.getValue().getStart())
+                                value.addPeriod(obj.getValue())
                             else:
-                                value.subtractPeriod(obj.getValue().getStart())
+                                value.subtractPeriod(obj.getValue())
 
             return True
         else:
diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index d73791a..4629262 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -122,6 +122,11 @@ class ComponentExpanded(object):
             # End is based on original events settings
             self.mInstanceEnd = self.mInstanceStart + (self.mOwner.getEnd() - self.mOwner.getStart())
 
+            # An RDATE with a period has its own end
+            for period in self.mOwner.getRecurrenceSet().getPeriods():
+                if period.getStart() == rid:
+                    self.mInstanceEnd = period.getEnd().duplicate()
+
             self.mRecurring = True
 
         # If the owner is a recurrence item and the passed in rid is the same
-- 
2.43.0


From 018dc883500c55d647e27b0be54dc35709e57f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 019/131] fix: list expanded events in start order

---
 src/pycalendar/icalendar/componentexpanded.py | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/pycalendar/icalendar/componentexpanded.py b/src/pycalendar/icalendar/componentexpanded.py
index 4629262..18dc165 100644
--- a/src/pycalendar/icalendar/componentexpanded.py
+++ b/src/pycalendar/icalendar/componentexpanded.py
@@ -19,37 +19,34 @@ from pycalendar.datetime import DateTime
 
 class ComponentExpanded(object):
 
+    # These are used as comparison functions, so must return negative, zero or positive
+
     @staticmethod
     def sort_by_dtstart_allday(e1, e2):
 
         if e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly():
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
         elif e1.mInstanceStart.isDateOnly():
-            return True
+            return -1
         elif e2.mInstanceStart.isDateOnly():
-            return False
+            return 1
         elif e1.mInstanceStart == e2.mInstanceStart:
             if e1.mInstanceEnd == e2.mInstanceEnd:
                 # Put ones created earlier in earlier columns in day view
-                return e1.getOwner().getStamp() < e2.getOwner().getStamp()
+                return cmp(e1.getOwner().getStamp(), e2.getOwner().getStamp())
             else:
                 # Put ones that end later in earlier columns in day view
-                return e1.mInstanceEnd > e2.mInstanceEnd
+                return cmp(e2.mInstanceEnd, e1.mInstanceEnd)
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
 
     @staticmethod
     def sort_by_dtstart(e1, e2):
         if e1.mInstanceStart == e2.mInstanceStart:
-            if (
-                e1.mInstanceStart.isDateOnly() and not e2.mInstanceStart.isDateOnly() or
-                not e1.mInstanceStart.isDateOnly() and e2.mInstanceStart.isDateOnly()
-            ):
-                return e1.mInstanceStart.isDateOnly()
-            else:
-                return False
+            # Put all day ones first
+            return cmp(e2.mInstanceStart.isDateOnly(), e1.mInstanceStart.isDateOnly())
         else:
-            return e1.mInstanceStart < e2.mInstanceStart
+            return cmp(e1.mInstanceStart, e2.mInstanceStart)
 
     def __init__(self, owner, rid):
 
-- 
2.43.0


From 01818a393d107d09fd99f14e5475473770d040a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 020/131] fix: apply overrides with RANGE to the instances
 before or after them

---
 src/pycalendar/icalendar/componentrecur.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index c3feef0..6f63032 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -428,8 +428,8 @@ class ComponentRecur(Component):
                             results.append(self.createExpanded(self, iter))
                     else:
                         # Sort each list first
-                        prior.sort(self.sort_by_dtstart)
-                        future.sort(self.sort_by_dtstart)
+                        prior.sort(key=lambda x: x.getRecurrenceID().getPosixTime())
+                        future.sort(key=lambda x: x.getRecurrenceID().getPosixTime())
 
                         # Add each expanded item
                         for iter1 in items:
@@ -439,16 +439,14 @@ class ComponentRecur(Component):
                             slave = None
 
                             # Find most appropriate THISANDPRIOR item
-                            for i in range(len(prior) - 1, 0, -1):
-                                riter2 = prior[i]
-                                if riter2.getStart() > iter1:
+                            for riter2 in prior:
+                                if riter2.getRecurrenceID() > iter1:
                                     slave = riter2
                                     break
 
                             # Find most appropriate THISANDFUTURE item
-                            for i in range(len(future) - 1, 0, -1):
-                                riter2 = future.elementAt(i)
-                                if riter2.getStart() < iter1:
+                            for riter2 in reversed(future):
+                                if riter2.getRecurrenceID() < iter1:
                                     slave = riter2
                                     break
 
-- 
2.43.0


From 5a45d4a04f786952bc89608fdb6bb5036546d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 021/131] fix: apply TZID to RDATE periods

---
 src/pycalendar/icalendar/property.py | 4 ++--
 src/pycalendar/period.py             | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 02a42ff..dd19f41 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -266,7 +266,7 @@ class Property(PropertyBase):
         """
 
         # Look for TZID parameter
-        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME) and self.hasParameter(definitions.cICalParameter_TZID):
+        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME, Value.VALUETYPE_PERIOD) and self.hasParameter(definitions.cICalParameter_TZID):
             tzid = self.getParameterValue(definitions.cICalParameter_TZID)
 
             if isinstance(self.mValue, DateTimeValue):
@@ -274,7 +274,7 @@ class Property(PropertyBase):
 
             elif isinstance(self.mValue, MultiValue):
                 for item in self.mValue.getValues():
-                    if isinstance(item, DateTimeValue):
+                    if isinstance(item, (DateTimeValue, PeriodValue)):
                         item.getValue().setTimezoneID(tzid)
 
     # Creation
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 8e47e4c..487a3a6 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -172,6 +172,14 @@ class Period(ValueMixin):
         # Inclusive start, exclusive end
         return not (self.mStart >= p.getEnd() or self.getEnd() <= p.mStart)
 
+    def setTimezoneID(self, tzid):
+        self.mStart.setTimezoneID(tzid)
+        if self.mUseDuration:
+            # Will be derived from the start again
+            self.mEnd = None
+        else:
+            self.mEnd.setTimezoneID(tzid)
+
     def adjustToUTC(self):
         self.mStart.adjustToUTC()
         self.getEnd().adjustToUTC()
-- 
2.43.0


From 1f348896b002fa3566127bdaedb4fdc6da51a9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:13 +0000
Subject: [PATCH 022/131] fix: derive DUE for to-dos, and an end only for items
 that have one

---
 src/pycalendar/icalendar/calendar.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 50a9615..f0b5a17 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -375,12 +375,14 @@ class Calendar(ContainerBase):
             newdtstartValue.setDateOnly(True)
 
         newcomp.removeProperties(definitions.cICalProperty_DTSTART)
-        newcomp.removeProperties(definitions.cICalProperty_DTEND)
         prop = Property(definitions.cICalProperty_DTSTART, newdtstartValue)
         newcomp.addProperty(prop)
-        if not newcomp.useDuration():
-            prop = Property(definitions.cICalProperty_DTEND, newdtstartValue + oldduration)
-            newcomp.addProperty(prop)
+
+        # Move the end the original has, if any: DTEND for an event, DUE for a to-do
+        for endname in (definitions.cICalProperty_DTEND, definitions.cICalProperty_DUE,):
+            if newcomp.hasProperty(endname):
+                newcomp.removeProperties(endname)
+                newcomp.addProperty(Property(endname, newdtstartValue + oldduration))
 
         newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue))
 
-- 
2.43.0


From f6fbdfb44c679a9b21b1dd53f125e573732ba491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 023/131] fix: do not share one date-time between DTSTART and
 RECURRENCE-ID of a derived component

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index f0b5a17..19e9ca2 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -384,7 +384,7 @@ class Calendar(ContainerBase):
                 newcomp.removeProperties(endname)
                 newcomp.addProperty(Property(endname, newdtstartValue + oldduration))
 
-        newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue))
+        newcomp.addProperty(Property("RECURRENCE-ID", newdtstartValue.duplicate()))
 
         # After creating/changing a component we need to do this to keep PyCalendar happy
         newcomp.finalise()
-- 
2.43.0


From f8d1f2b0b916529d3a7066288377e2253e9db916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 024/131] fix: derive the start of a UTC item in UTC whatever
 zone the recurrence-id is in

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 19e9ca2..603deb5 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -369,7 +369,7 @@ class Calendar(ContainerBase):
 
         newdtstartValue = recurrenceID.duplicate()
         if not dtstart.isDateOnly():
-            if dtstart.local():
+            if not dtstart.floating():
                 newdtstartValue.adjustTimezone(dtstart.getTimezone())
         else:
             newdtstartValue.setDateOnly(True)
-- 
2.43.0


From bca7fce8630329e6de6e9b67d22a309e2998d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 025/131] fix: expand time zone onsets over the whole year of
 the time asked for

---
 src/pycalendar/icalendar/vtimezoneelement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index bf32810..b56fdde 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -124,7 +124,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(below.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(below.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -184,7 +184,7 @@ class VTimezoneElement(Component):
             # that the recurrence
             # cache is invalidated less frequently
 
-            temp = DateTime(end.getYear(), 1, 1, 0, 0, 0)
+            temp = DateTime(end.getYear() + 1, 1, 1, 0, 0, 0)
 
             # Use cache of expansion
             if self.mCachedExpandBelowItems is None:
@@ -193,7 +193,7 @@ class VTimezoneElement(Component):
                 self.mCachedExpandBelow = self.mStart.duplicate()
             if temp > self.mCachedExpandBelow:
                 self.mCachedExpandBelowItems = []
-                period = Period(self.mStart, end)
+                period = Period(self.mStart, temp)
                 self.mRecurrences.expand(self.mStart, period, self.mCachedExpandBelowItems, float_offset=self.mUTCOffsetFrom)
                 self.mCachedExpandBelow = temp
 
-- 
2.43.0


From f8441593e8b60f16db9a93853dfd86fab900fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 026/131] fix: do not answer a time zone query from the cached
 answer for another second

---
 src/pycalendar/icalendar/vtimezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index ab7aceb..7274e46 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -163,7 +163,7 @@ class VTimezone(Component):
 
         # Now search for the transition just below the time we want
         if len(self.mCachedExpandAll):
-            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, relative_to_utc)
+            cacheKey = (temp.mYear, temp.mMonth, temp.mDay, temp.mHours, temp.mMinutes, temp.mSeconds, relative_to_utc)
             i = self.mCachedOffsets.get(cacheKey)
             if i is None:
                 i = VTimezone.tuple_bisect_right(self.mCachedExpandAll, temp, relative_to_utc)
-- 
2.43.0


From fb3a9ea0e1ca6cda927e7d248934ead09cc49945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 027/131] fix: leave the onset at the end of the range out of
 the list of transitions

---
 src/pycalendar/icalendar/vtimezoneelement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/vtimezoneelement.py b/src/pycalendar/icalendar/vtimezoneelement.py
index b56fdde..7b073fe 100644
--- a/src/pycalendar/icalendar/vtimezoneelement.py
+++ b/src/pycalendar/icalendar/vtimezoneelement.py
@@ -161,7 +161,7 @@ class VTimezoneElement(Component):
 #            return ()
 
         # Look for recurrences
-        if self.mStart > end:
+        if self.mStart >= end:
             # Return nothing
             return ()
         elif not self.mRecurrences.hasRecurrence():
-- 
2.43.0


From af84372809638faebeb807c7bf2f27b45b653a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 028/131] fix: make all comparisons of durations and periods
 work

---
 src/pycalendar/duration.py |  9 +++++++++
 src/pycalendar/period.py   | 12 +++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 36f4aed..1ce23b3 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -54,6 +54,15 @@ class Duration(ValueMixin):
     def __eq__(self, comp):
         return self.getTotalSeconds() == comp.getTotalSeconds()
 
+    def __ne__(self, comp):
+        return self.getTotalSeconds() != comp.getTotalSeconds()
+
+    def __ge__(self, comp):
+        return self.getTotalSeconds() >= comp.getTotalSeconds()
+
+    def __le__(self, comp):
+        return self.getTotalSeconds() <= comp.getTotalSeconds()
+
     def __gt__(self, comp):
         return self.getTotalSeconds() > comp.getTotalSeconds()
 
diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 487a3a6..43e03db 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -59,8 +59,18 @@ class Period(ValueMixin):
     def __eq__(self, comp):
         return self.mStart == comp.mStart and self.getEnd() == comp.getEnd()
 
+    def __ne__(self, comp):
+        return not self == comp
+
+    def __ge__(self, comp):
+        return not self < comp
+
+    def __le__(self, comp):
+        return not self > comp
+
     def __gt__(self, comp):
-        return self.mStart > comp
+        return self.mStart > comp.mStart  \
+            or (self.mStart == comp.mStart) and self.getEnd() > comp.getEnd()
 
     def __lt__(self, comp):
         return self.mStart < comp.mStart  \
-- 
2.43.0


From c0c590f45991d9382e215aedd60cfe1cfdccf068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 029/131] fix: do not keep parts of an earlier value when
 parsing a duration

---
 src/pycalendar/duration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/duration.py b/src/pycalendar/duration.py
index 1ce23b3..70b6fd1 100644
--- a/src/pycalendar/duration.py
+++ b/src/pycalendar/duration.py
@@ -132,6 +132,9 @@ class Duration(ValueMixin):
     def parse(self, data):
         # parse format ([+]/-) "P" (dur-date / dur-time / dur-week)
 
+        # Nothing of an earlier value may remain
+        self.mWeeks = self.mDays = self.mHours = self.mMinutes = self.mSeconds = 0
+
         try:
             offset = 0
             maxoffset = len(data)
-- 
2.43.0


From 65ffc823c5ed0b794b7dc76e5cae00a5d80b6937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:51 +0000
Subject: [PATCH 030/131] fix: parse a period with a signed duration, and into
 a period that had a duration

---
 src/pycalendar/period.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/period.py b/src/pycalendar/period.py
index 43e03db..4a573d7 100644
--- a/src/pycalendar/period.py
+++ b/src/pycalendar/period.py
@@ -90,11 +90,12 @@ class Period(ValueMixin):
                 end = splits[1]
 
                 self.mStart.parse(start, fullISO)
-                if end[0] == 'P':
+                if end[0] in ('P', '+'):
                     self.mDuration = Duration.parseText(end)
                     self.mUseDuration = True
                     self.mEnd = None
                 else:
+                    self.mEnd = DateTime()
                     self.mEnd.parse(end, fullISO)
                     self.mUseDuration = False
                     self.mDuration = None
-- 
2.43.0


From 4e2f748ce6fa24a951fb488e21502c8f44b61fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:52 +0000
Subject: [PATCH 031/131] fix: keep a VALUE parameter that alone tells the
 value type

---
 src/pycalendar/property.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index a1544c6..6fbde11 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -573,6 +573,7 @@ class PropertyBase(object):
         self._postCreateValue(value_type)
 
     def setupValueParameter(self):
+        given = self.mParameters.get(self.sValue)
         if self.sValue in self.mParameters:
             del self.mParameters[self.sValue]
 
@@ -590,6 +591,15 @@ class PropertyBase(object):
             actual_type = self.mValue.getType()
         if default_type is None or default_type != actual_type or self.mName.upper() in self.sAlwaysValueTypes:
             actual_value = self.sTypeValueMap.get(actual_type)
+
+            # Keep what was given when that is the only record of the type: TEXT for a property without a
+            # default, or a type for which there is no class
+            if given and default_type is None:
+                given_type = self.sValueTypeMap.get(given[0].getFirstValue().upper())
+                if given_type == actual_type or actual_value is None and given_type not in Value._typeMap:
+                    self.mParameters[self.sValue] = given
+                    return
+
             if actual_value is not None and (default_type is not None or actual_type != Value.VALUETYPE_TEXT):
                 self.mParameters.setdefault(self.sValue, []).append(Parameter(name=self.sValue, value=actual_value))
 
-- 
2.43.0


From 67bb5d4a6db970fd2b32fce016d00176591e46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 032/131] fix: write floats with all their digits

---
 src/pycalendar/floatvalue.py | 4 ++--
 src/pycalendar/geovalue.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/floatvalue.py b/src/pycalendar/floatvalue.py
index 33d73d8..e15d656 100644
--- a/src/pycalendar/floatvalue.py
+++ b/src/pycalendar/floatvalue.py
@@ -37,13 +37,13 @@ class FloatValue(Value):
     # os - StringIO object
     def generate(self, os):
         try:
-            os.write(str(self.mValue))
+            os.write(repr(self.mValue))
         except:
             pass
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = str(self.mValue)
+        value.text = repr(self.mValue)
 
     def parseJSONValue(self, jobject):
         self.mValue = float(jobject)
diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 5800fe5..c072240 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -59,7 +59,7 @@ class GeoValue(Value):
 
     # os - StringIO object
     def generate(self, os):
-        os.write("%s;%s" % (self.mValue[0], self.mValue[1],))
+        os.write("%r;%r" % (self.mValue[0], self.mValue[1],))
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-- 
2.43.0


From d8cef7cdc4759a9e12ffcc3744f9ae60e249ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 033/131] fix: VALUE parameter values are case-insensitive

---
 src/pycalendar/property.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 6fbde11..38520a0 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -508,7 +508,7 @@ class PropertyBase(object):
         # Check whether custom value is set
         if self.sValue in self.mParameters:
             attr = self.getParameterValue(self.sValue)
-            value_type = self.sValueTypeMap.get(attr, value_type)
+            value_type = self.sValueTypeMap.get(attr.upper(), value_type)
 
         # Check for specials
         if self.mName.upper() in self.sSpecialVariants:
@@ -558,7 +558,7 @@ class PropertyBase(object):
 
         # Check whether custom value is set
         if self.sValue in self.mParameters:
-            value_type = self.sValueTypeMap.get(self.getParameterValue(self.sValue), value_type)
+            value_type = self.sValueTypeMap.get(self.getParameterValue(self.sValue).upper(), value_type)
 
         # Check for multivalued
         if self.mName.upper() in self.sMultiValues:
-- 
2.43.0


From cac22af54adc68ab8c752cb32613cdee4e84a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 034/131] fix: compare parameter values in the order they are
 written

---
 src/pycalendar/parameter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 652b4d6..1f23ca4 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -42,7 +42,8 @@ class Parameter(object):
         return other
 
     def __hash__(self):
-        return hash((self.mName.upper(), tuple(self.mValues)))
+        # Values are written out in sorted order, so that is how they compare too
+        return hash((self.mName.upper(), tuple(sorted(self.mValues))))
 
     def __ne__(self, other):
         return not self.__eq__(other)
@@ -50,7 +51,7 @@ class Parameter(object):
     def __eq__(self, other):
         if not isinstance(other, Parameter):
             return False
-        return self.mName.upper() == other.mName.upper() and self.mValues == other.mValues
+        return self.mName.upper() == other.mName.upper() and sorted(self.mValues) == sorted(other.mValues)
 
     def getName(self):
         return self.mName
-- 
2.43.0


From c51673056ec464c958df161fbac456d92b7d1a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 035/131] fix: quote parameter values that start with a space

---
 src/pycalendar/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 1f23ca4..10ea120 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -102,8 +102,8 @@ class Parameter(object):
         # ^-escaping
         str = encodeParameterValue(str)
 
-        # Look for quoting
-        if str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1:
+        # Look for quoting - leading space is ignored outside of quotes
+        if str.startswith(" ") or str.find(":") != -1 or str.find(";") != -1 or str.find(",") != -1:
             os.write("\"%s\"" % (str,))
         else:
             os.write(str)
-- 
2.43.0


From 14f8d31c2142b8c82e234835ff6e91ae3baa2921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:59 +0000
Subject: [PATCH 036/131] fix: components without a UID are written in the
 order they have, not at random

---
 src/pycalendar/icalendar/component.py      | 9 +++++++--
 src/pycalendar/icalendar/componentrecur.py | 3 ++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 3d9defd..7c39349 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -30,6 +30,9 @@ class Component(ComponentBase):
 
     mapper = {}
 
+    # The map key, if it had to be made up
+    mRandomKey = None
+
     sComponentType = None
     sPropertyType = Property
 
@@ -75,11 +78,13 @@ class Component(ComponentBase):
         elif self.mUID:
             return self.mUID
         else:
-            self.mMapKey = str(uuid.uuid4())
+            self.mMapKey = self.mRandomKey = str(uuid.uuid4())
             return self.mMapKey
 
     def getSortKey(self):
-        return self.getMapKey()
+        # A random key must not decide the order things are written in
+        key = self.getMapKey()
+        return key if key != self.mRandomKey else ""
 
     def getMasterKey(self):
         return self.mUID
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 6f63032..364ebb0 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -103,6 +103,7 @@ class ComponentRecur(Component):
         other.mMaster = self.mMaster if self.recurring() else self
 
         other.mMapKey = self.mMapKey
+        other.mRandomKey = self.mRandomKey
 
         other.mSummary = self.mSummary
 
@@ -142,7 +143,7 @@ class ComponentRecur(Component):
     def getMapKey(self):
 
         if self.mMapKey is None:
-            self.mMapKey = str(uuid.uuid4())
+            self.mMapKey = self.mRandomKey = str(uuid.uuid4())
         return self.mMapKey
 
     def getMasterKey(self):
-- 
2.43.0


From 3903aacb231a8d14df8f5be7bcdc79266bc60936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:19 +0000
Subject: [PATCH 037/131] fix: a property parsed with a redundant VALUE
 parameter changed what it was equal to when written

---
 src/pycalendar/property.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 38520a0..1177ce6 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -269,6 +269,9 @@ class PropertyBase(object):
 
             prop._postCreateValue(value_type)
 
+            # Writing will do this, and it must not change what the property is equal to
+            prop.setupValueParameter()
+
             return prop
 
         except Exception as e:
-- 
2.43.0


From 7b55b86189a52efc84e037a8cedc66af1778558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 038/131] fix: split lists of text at separators that are not
 escaped, and only there

---
 src/pycalendar/multivalue.py | 11 ++++---
 src/pycalendar/utils.py      | 60 ++++++++++++++----------------------
 2 files changed, 30 insertions(+), 41 deletions(-)

diff --git a/src/pycalendar/multivalue.py b/src/pycalendar/multivalue.py
index 5fd9db9..815fa7b 100644
--- a/src/pycalendar/multivalue.py
+++ b/src/pycalendar/multivalue.py
@@ -14,6 +14,7 @@
 #    limitations under the License.
 ##
 
+from pycalendar.utils import splitEscaped
 from pycalendar.value import Value
 
 
@@ -56,11 +57,13 @@ class MultiValue(Value):
         self.mValues = newValues
 
     def parse(self, data, variant):
-        # Tokenize on comma
-        if "," in data:
-            tokens = data.split(",")
-        else:
+        # Tokenize on comma, but not on an escaped one in text
+        if "," not in data:
             tokens = (data,)
+        elif self.mType == Value.VALUETYPE_TEXT and "\\" in data:
+            tokens = splitEscaped(data, ",")
+        else:
+            tokens = data.split(",")
         for token in tokens:
             # Create single value, and parse data
             value = Value.createFromType(self.mType)
diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index b35ca09..7644add 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -259,23 +259,31 @@ def decodeParameterValue(value):
         return value
 
 
+def splitEscaped(data, sep):
+    """
+    Split text at each separator that is not escaped. The pieces are still escaped.
+    """
+    results = []
+    start = 0
+    escaped = False
+    for ctr, s in enumerate(data):
+        if escaped:
+            escaped = False
+        elif s == '\\':
+            escaped = True
+        elif s == sep:
+            results.append(data[start:ctr])
+            start = ctr + 1
+    results.append(data[start:])
+    return results
+
+
 # vCard text list parsing/generation
 def parseTextList(data, sep=';', always_list=False):
     """
     Each element of the list has to be separately un-escaped
     """
-    results = []
-    item = []
-    pre_s = ''
-    for s in data:
-        if s == sep and pre_s != '\\':
-            results.append(decodeTextValue("".join(item)))
-            item = []
-        else:
-            item.append(s)
-        pre_s = s
-
-    results.append(decodeTextValue("".join(item)))
+    results = [decodeTextValue(item) for item in splitEscaped(data, sep)]
 
     return tuple(results) if len(results) > 1 or always_list else (results[0] if len(results) else "")
 
@@ -296,31 +304,9 @@ def generateTextList(os, data, sep=';'):
 # vCard double-nested list parsing/generation
 def parseDoubleNestedList(data, maxsize):
     results = []
-    items = [""]
-    pre_s = ''
-    for s in data:
-        if s == ';' and pre_s != '\\':
-
-            if len(items) > 1:
-                results.append(tuple([decodeTextValue(item) for item in items]))
-            elif len(items) == 1:
-                results.append(decodeTextValue(items[0]))
-            else:
-                results.append("")
-
-            items = [""]
-        elif s == ',' and pre_s != '\\':
-            items.append("")
-        else:
-            items[-1] += s
-        pre_s = s
-
-    if len(items) > 1:
-        results.append(tuple([decodeTextValue(item) for item in items]))
-    elif len(items) == 1:
-        results.append(decodeTextValue(items[0]))
-    else:
-        results.append("")
+    for element in splitEscaped(data, ';'):
+        items = [decodeTextValue(item) for item in splitEscaped(element, ',')]
+        results.append(tuple(items) if len(items) > 1 else items[0])
 
     for _ignore in range(maxsize - len(results)):
         results.append("")
-- 
2.43.0


From cc6409dce1acd8465d06e9d17cc05ff664cc67e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 039/131] fix: make the setters of structured names and
 addresses work

---
 src/pycalendar/vcard/adr.py | 19 ++++++++++++-------
 src/pycalendar/vcard/n.py   | 15 ++++++++++-----
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 07cf79d..7f97aea 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -51,47 +51,52 @@ class Adr(ValueMixin):
     def __eq__(self, comp):
         return self.mValue == comp.mValue
 
+    def _setItem(self, index, value):
+        values = list(self.mValue)
+        values[index] = value
+        self.mValue = tuple(values)
+
     def getPobox(self):
         return self.mValue[Adr.POBOX]
 
     def setPobox(self, value):
-        self.mValue[Adr.POBOX] = value
+        self._setItem(Adr.POBOX, value)
 
     def getExtended(self):
         return self.mValue[Adr.EXTENDED]
 
     def setExtended(self, value):
-        self.mValue[Adr.EXTENDED] = value
+        self._setItem(Adr.EXTENDED, value)
 
     def getStreet(self):
         return self.mValue[Adr.STREET]
 
     def setStreet(self, value):
-        self.mValue[Adr.STREET] = value
+        self._setItem(Adr.STREET, value)
 
     def getLocality(self):
         return self.mValue[Adr.LOCALITY]
 
     def setLocality(self, value):
-        self.mValue[Adr.LOCALITY] = value
+        self._setItem(Adr.LOCALITY, value)
 
     def getRegion(self):
         return self.mValue[Adr.REGION]
 
     def setRegion(self, value):
-        self.mValue[Adr.REGION] = value
+        self._setItem(Adr.REGION, value)
 
     def getPostalCode(self):
         return self.mValue[Adr.POSTALCODE]
 
     def setPostalCode(self, value):
-        self.mValue[Adr.POSTALCODE] = value
+        self._setItem(Adr.POSTALCODE, value)
 
     def getCountry(self):
         return self.mValue[Adr.COUNTRY]
 
     def setCountry(self, value):
-        self.mValue[Adr.COUNTRY] = value
+        self._setItem(Adr.COUNTRY, value)
 
     def parse(self, data):
         self.mValue = utils.parseDoubleNestedList(data, Adr.MAXITEMS)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index cda6409..3d0537c 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -49,35 +49,40 @@ class N(ValueMixin):
     def __eq__(self, comp):
         return self.mValue == comp.mValue
 
+    def _setItem(self, index, value):
+        values = list(self.mValue)
+        values[index] = value
+        self.mValue = tuple(values)
+
     def getFirst(self):
         return self.mValue[N.FIRST]
 
     def setFirst(self, value):
-        self.mValue[N.FIRST] = value
+        self._setItem(N.FIRST, value)
 
     def getLast(self):
         return self.mValue[N.LAST]
 
     def setLast(self, value):
-        self.mValue[N.LAST] = value
+        self._setItem(N.LAST, value)
 
     def getMiddle(self):
         return self.mValue[N.MIDDLE]
 
     def setMiddle(self, value):
-        self.mValue[N.MIDDLE] = value
+        self._setItem(N.MIDDLE, value)
 
     def getPrefix(self):
         return self.mValue[N.PREFIX]
 
     def setPrefix(self, value):
-        self.mValue[N.PREFIX] = value
+        self._setItem(N.PREFIX, value)
 
     def getSuffix(self):
         return self.mValue[N.SUFFIX]
 
     def setSuffix(self, value):
-        self.mValue[N.SUFFIX] = value
+        self._setItem(N.SUFFIX, value)
 
     def getFullName(self):
 
-- 
2.43.0


From 6e9194827ef66d928abb5fa5bd1a3f646220cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:56 +0000
Subject: [PATCH 040/131] fix: make lists of text and positions usable as
 values of new vCard properties

---
 src/pycalendar/vcard/property.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 52b7471..08c76bb 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -18,6 +18,8 @@ from pycalendar import stringutils
 from pycalendar.parameter import Parameter
 from pycalendar.datetime import DateTime
 from pycalendar.exceptions import InvalidProperty
+from pycalendar.geovalue import GeoValue
+from pycalendar.multivalue import MultiValue
 from pycalendar.parser import ParserContext
 from pycalendar.property import PropertyBase
 from pycalendar.utcoffsetvalue import UTCOffsetValue
@@ -318,6 +320,21 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+    def _init_attr_value_geo(self, geo):
+        # Value
+        self.mValue = GeoValue(geo)
+
+        # Parameters
+        self.setupValueParameter()
+
+    def _init_attr_value_text_list(self, txtlist):
+        # Value
+        self.mValue = MultiValue(Value.VALUETYPE_TEXT)
+        self.mValue.setValue(txtlist)
+
+        # Parameters
+        self.setupValueParameter()
+
     def _init_attr_value_org(self, reqstatus):
         # Value
         self.mValue = OrgValue(reqstatus)
-- 
2.43.0


From 3b433d91f3abceb0a433db6357712308028386e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:02 +0000
Subject: [PATCH 041/131] fix: a new line in a value without escapes must not
 end the property

---
 src/pycalendar/plaintextvalue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/plaintextvalue.py b/src/pycalendar/plaintextvalue.py
index f2c22ad..7ae3f68 100644
--- a/src/pycalendar/plaintextvalue.py
+++ b/src/pycalendar/plaintextvalue.py
@@ -34,8 +34,8 @@ class PlainTextValue(Value):
     # os - StringIO object
     def generate(self, os):
         try:
-            # No encoding required
-            os.write(self.mValue)
+            # No encoding required, but a new line must not end the property early
+            os.write(self.mValue.replace("\n", "\\n") if "\n" in self.mValue else self.mValue)
         except:
             pass
 
-- 
2.43.0


From 1704934c326d7c404025cb5b80ef5caf1c7ee8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 042/131] fix: fold the parameters of binary PHOTO properties

---
 src/pycalendar/property.py       | 7 +++++--
 src/pycalendar/vcard/property.py | 5 ++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 1177ce6..4a1203c 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -362,6 +362,11 @@ class PropertyBase(object):
         temp = sout.getvalue()
         sout.close()
 
+        self.writeFolded(os, temp)
+        os.write("\r\n")
+
+    def writeFolded(self, os, temp):
+
         # Look for line length exceed
         if len(temp) < 75:
             os.write(temp)
@@ -390,8 +395,6 @@ class PropertyBase(object):
                     written += offset - start
                     start = offset
 
-        os.write("\r\n")
-
     def writeXML(self, node, namespace):
 
         # Write it out always with value
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 08c76bb..28a60ec 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -285,8 +285,11 @@ class Property(PropertyBase):
                     sout.write(";")
                     attr.generate(sout)
 
-            # Write value
             sout.write(":")
+            self.writeFolded(os, sout.getvalue())
+
+            # Write value
+            sout = StringIO.StringIO()
             sout.write("\r\n")
 
             value = self.mValue.getText()
-- 
2.43.0


From f4a78048da0631ec2b48544e14d587bd6df77859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 043/131] fix: read jCal parameters that have several values

---
 src/pycalendar/property.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 4a1203c..f6bbfbd 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -446,7 +446,11 @@ class PropertyBase(object):
                 for name, value in jobject[1].items():
                     # Now add parameter value
                     name = name.upper()
-                    attrvalue = Parameter(name=name.encode("utf-8"), value=value.encode("utf-8"))
+                    if isinstance(value, list):
+                        value = [v.encode("utf-8") for v in value]
+                    else:
+                        value = value.encode("utf-8")
+                    attrvalue = Parameter(name=name.encode("utf-8"), value=value)
                     prop.mParameters.setdefault(name, []).append(attrvalue)
 
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
-- 
2.43.0


From dc2ff6c8a54268745b04a0459ba965fe23873e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 044/131] fix: keep value types that have no class in jCal

---
 src/pycalendar/property.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index f6bbfbd..dcddbfb 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -456,7 +456,7 @@ class PropertyBase(object):
             # Get default value type from property name and insert a VALUE parameter if current value type is not default
             value_type = cls.sValueTypeMap.get(jobject[2].upper(), Value.VALUETYPE_UNKNOWN)
             default_type = cls.sDefaultValueTypeMap.get(prop.mName.upper(), Value.VALUETYPE_UNKNOWN)
-            if default_type != value_type:
+            if default_type != value_type or jobject[2].upper() not in cls.sValueTypeMap and jobject[2] != xmldefinitions.value_unknown:
                 attrvalue = Parameter(name=cls.sValue, value=jobject[2].encode("utf-8").upper())
                 prop.mParameters.setdefault(cls.sValue, []).append(attrvalue)
 
@@ -511,6 +511,10 @@ class PropertyBase(object):
         if self.mValue and not novalue:
             self.mValue.writeJSON(prop)
 
+            # A type for which there is no class is only known from the parameter
+            if self.mValue.getType() == Value.VALUETYPE_UNKNOWN and self.hasParameter(self.sValue):
+                prop[2] = self.getParameterValue(self.sValue).lower()
+
     def determineValueType(self):
         # Get value type from property name
         value_type = self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_UNKNOWN)
-- 
2.43.0


From 0a6b1fa6d028eddec0dc872eef57cb4029056f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 045/131] fix: write durations and periods as XML

---
 src/pycalendar/valueutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/valueutils.py b/src/pycalendar/valueutils.py
index 6dc8694..99a2c31 100644
--- a/src/pycalendar/valueutils.py
+++ b/src/pycalendar/valueutils.py
@@ -79,7 +79,7 @@ class WrapperValue(object):
 
     def writeXML(self, node, namespace):
         value = self.getXMLNode(node, namespace)
-        value.text = self.mValue.writeXML()
+        self.mValue.writeXML(value, namespace)
 
     def parseJSONValue(self, jobject):
         self.mValue.parseJSON(jobject)
-- 
2.43.0


From 0274656757ac644f442c801617f9b2a28cb7e7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 046/131] fix: write non-ASCII text as XML

---
 src/pycalendar/xmlutils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/xmlutils.py b/src/pycalendar/xmlutils.py
index de41dcc..a5830de 100644
--- a/src/pycalendar/xmlutils.py
+++ b/src/pycalendar/xmlutils.py
@@ -27,6 +27,11 @@ def toString(root):
 
     INDENT = 2
 
+    # Values are utf-8 strings
+    for node in root.getiterator():
+        if isinstance(node.text, str):
+            node.text = node.text.decode("utf-8")
+
     # Generate indentation
     def _indentNode(node, level=0):
 
-- 
2.43.0


From 7bc022a99e74e2a371e376d0ee51296db172a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:15 +0000
Subject: [PATCH 047/131] fix: write positions and request statuses as XML

---
 src/pycalendar/geovalue.py                     | 11 +++++------
 src/pycalendar/icalendar/requeststatusvalue.py |  9 ++++-----
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index c072240..017691f 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -62,13 +62,12 @@ class GeoValue(Value):
         os.write("%r;%r" % (self.mValue[0], self.mValue[1],))
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
+        # These go directly into the property element
+        latitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
+        latitude.text = repr(self.mValue[0])
 
-        latitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_latitude))
-        latitude.text = self.mValue[0]
-
-        longitude = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
-        longitude.text = self.mValue[1]
+        longitude = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.geo_longitude))
+        longitude.text = repr(self.mValue[1])
 
     def parseJSONValue(self, jobject):
         self.mValue = jobject
diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 20abc8a..d7e650f 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -78,16 +78,15 @@ class RequestStatusValue(Value):
         utils.generateTextList(os, self.mValue if len(self.mValue) < 3 or self.mValue[2] else self.mValue[:2])
 
     def writeXML(self, node, namespace):
-        value = self.getXMLNode(node, namespace)
-
-        code = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
+        # These go directly into the property element
+        code = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_code))
         code.text = self.mValue[0]
 
-        description = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
+        description = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_description))
         description.text = self.mValue[1]
 
         if len(self.mValue) == 3 and self.mValue[2]:
-            data = XML.SubElement(value, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
+            data = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.req_status_data))
             data.text = self.mValue[2]
 
     def parseJSONValue(self, jobject):
-- 
2.43.0


From 7a0757fbdc91c0ffa6ca012fb5a4be9c59df4ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 048/131] fix: write UTC offsets with seconds as XML

---
 src/pycalendar/utcoffsetvalue.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 76b58b6..337aa50 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -89,9 +89,8 @@ class UTCOffsetValue(Value):
     def writeXML(self, node, namespace):
 
         os = StringIO()
-        self.generate(os)
+        self.generate(os, fullISO=True)
         text = os.getvalue()
-        text = text[:-2] + ":" + text[-2:]
 
         value = self.getXMLNode(node, namespace)
         value.text = text
-- 
2.43.0


From 66f9dca7949dab0b0240bd979aa7801c2f7afb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 049/131] fix: keep value types that have no class in XML

---
 src/pycalendar/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index dcddbfb..d510deb 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -424,6 +424,10 @@ class PropertyBase(object):
         if self.mValue and not novalue:
             self.mValue.writeXML(prop, namespace)
 
+            # A type for which there is no class is only known from the parameter
+            if self.mValue.getType() == Value.VALUETYPE_UNKNOWN and self.hasParameter(self.sValue):
+                prop[-1].tag = xmlutils.makeTag(namespace, self.getParameterValue(self.sValue))
+
     @classmethod
     def parseJSON(cls, jobject):
         """
-- 
2.43.0


From 9d63fd951416f3904d305499fff085457c0d8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 050/131] fix: write XML in the encoding its declaration names,
 so that no character is split

---
 src/pycalendar/xmlutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/xmlutils.py b/src/pycalendar/xmlutils.py
index a5830de..7436de0 100644
--- a/src/pycalendar/xmlutils.py
+++ b/src/pycalendar/xmlutils.py
@@ -47,6 +47,6 @@ def toString(root):
                 node.getchildren()[-1].tail = "\n" + " " * level * INDENT
 
     _indentNode(root, 0)
-    data += XML.tostring(root) + "\n"
+    data += XML.tostring(root, "utf-8") + "\n"
 
     return data
-- 
2.43.0


From 1ba808ed2765758309cb8dbdcb1871e47c07e87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 051/131] fix: each of several equal properties counts when
 components are compared

---
 src/pycalendar/componentbase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 3888027..9be0af1 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -14,6 +14,7 @@
 #    limitations under the License.
 ##
 
+from collections import Counter
 from cStringIO import StringIO
 from pycalendar import xmldefinitions, xmlutils
 from pycalendar.datetimevalue import DateTimeValue
@@ -148,10 +149,11 @@ class ComponentBase(object):
         return ()
 
     def compareProperties(self, other):
-        mine = set()
+        # Order does not matter, but each property counts
+        mine = Counter()
         for props in self.mProperties.values():
             mine.update(props)
-        theirs = set()
+        theirs = Counter()
         for props in other.mProperties.values():
             theirs.update(props)
         return mine == theirs
-- 
2.43.0


From 90eccb79685497d34e8401f4176051aff6bed316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:31 +0000
Subject: [PATCH 052/131] fix: compare the groups of vCard properties

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 28a60ec..f15eeeb 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -199,7 +199,7 @@ class Property(PropertyBase):
         if not isinstance(other, Property):
             return False
         return (
-            self.mGroup == self.mGroup and
+            self.mGroup == other.mGroup and
             self.mName == other.mName and
             self.mValue == other.mValue and
             self.mParameters == other.mParameters
-- 
2.43.0


From 97df6cb592cf9f2eea9485bd7d06306801419da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 053/131] fix: make structured names and addresses that are
 equal not unequal

---
 src/pycalendar/vcard/adr.py | 5 +++++
 src/pycalendar/vcard/n.py   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 7f97aea..938ac23 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -48,7 +48,12 @@ class Adr(ValueMixin):
     def __repr__(self):
         return "ADR %s" % (self.getText(),)
 
+    def __ne__(self, other):
+        return not self.__eq__(other)
+
     def __eq__(self, comp):
+        if not isinstance(comp, Adr):
+            return False
         return self.mValue == comp.mValue
 
     def _setItem(self, index, value):
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index 3d0537c..ef0be97 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -46,7 +46,12 @@ class N(ValueMixin):
     def __repr__(self):
         return "N %s" % (self.getText(),)
 
+    def __ne__(self, other):
+        return not self.__eq__(other)
+
     def __eq__(self, comp):
+        if not isinstance(comp, N):
+            return False
         return self.mValue == comp.mValue
 
     def _setItem(self, index, value):
-- 
2.43.0


From cdf14ad052dd23413832881c323324a9edecb3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 054/131] fix: write vCard time zone offsets in the form they
 are read in

---
 src/pycalendar/utcoffsetvalue.py | 12 +++++++++---
 src/pycalendar/vcard/property.py |  7 +++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 337aa50..7396fee 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -23,11 +23,12 @@ from pycalendar.value import Value
 
 class UTCOffsetValue(Value):
 
-    def __init__(self, value=0):
+    def __init__(self, value=0, fullISO=False):
         self.mValue = value
+        self.mFullISO = fullISO     # how to write it as text
 
     def duplicate(self):
-        return UTCOffsetValue(self.mValue)
+        return UTCOffsetValue(self.mValue, self.mFullISO)
 
     def getType(self):
         return Value.VALUETYPE_UTC_OFFSET
@@ -35,6 +36,7 @@ class UTCOffsetValue(Value):
     def parse(self, data, variant):
 
         fullISO = (variant == "vcard")
+        self.mFullISO = fullISO
 
         # Must be of specific lengths
         datalen = len(data)
@@ -65,8 +67,10 @@ class UTCOffsetValue(Value):
             self.mValue = -self.mValue
 
     # os - StringIO object
-    def generate(self, os, fullISO=False):
+    def generate(self, os, fullISO=None):
         try:
+            if fullISO is None:
+                fullISO = self.mFullISO
             abs_value = self.mValue
             if abs_value < 0:
                 sign = "-"
@@ -96,7 +100,9 @@ class UTCOffsetValue(Value):
         value.text = text
 
     def parseJSONValue(self, jobject):
+        fullISO = self.mFullISO
         self.parse(str(jobject), variant="vcard")
+        self.mFullISO = fullISO
 
     def writeJSONValue(self, jobject):
 
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index f15eeeb..b553e28 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -338,6 +338,13 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+    def _init_attr_value_utcoffset(self, utcoffset):
+        # Value
+        self.mValue = UTCOffsetValue(utcoffset.getValue(), fullISO=True)
+
+        # Parameters
+        self.setupValueParameter()
+
     def _init_attr_value_org(self, reqstatus):
         # Value
         self.mValue = OrgValue(reqstatus)
-- 
2.43.0


From 7fca6e4eae32146c15e212d5ca79d6c347146e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 055/131] fix: give a new card a PRODID and a VERSION, not
 groups of these names

---
 src/pycalendar/vcard/card.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 8a3f1d8..c6a834f 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -170,8 +170,8 @@ class Card(ContainerBase):
         return results
 
     def addDefaultProperties(self):
-        self.addProperty(Property(definitions.Property_PRODID, Card.sProdID))
-        self.addProperty(Property(definitions.Property_VERSION, "3.0"))
+        self.addProperty(Property(None, definitions.Property_PRODID, Card.sProdID))
+        self.addProperty(Property(None, definitions.Property_VERSION, "3.0"))
 
     def validProperty(self, prop):
         if prop.getName() == definitions.Property_VERSION:
-- 
2.43.0


From f73c33c73b71d84801ff3f819b89e04c3dd49583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 056/131] fix: stop at data after a quoted vCard parameter
 value instead of looping

---
 src/pycalendar/vcard/property.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index b553e28..caaa961 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -262,6 +262,9 @@ class Property(PropertyBase):
                     if stripValueSpaces:
                         txt = txt.replace(" ", "")
                     return txt
+                else:
+                    # We should never get here but if we do we need to terminate the loop
+                    raise InvalidProperty("Invalid property: missing value separator", data)
 
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
-- 
2.43.0


From f294349e7849a8a0beb6d1f433ae5a6160001974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:14 +0000
Subject: [PATCH 057/131] fix: leave out vCard 2 parameters without values when
 asked to

---
 src/pycalendar/vcard/property.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index caaa961..69f9a9e 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -228,17 +228,16 @@ class Property(PropertyBase):
 
                     if txt[0] != "=":
                         # Deal with parameters without values
-                        if ParserContext.VCARD_2_NO_PARAMETER_VALUES == ParserContext.PARSER_RAISE:
+                        if parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
+                            parameter_name = definitions.Parameter_ENCODING
+                            parameter_value = definitions.Parameter_Value_ENCODING_B
+                            stripValueSpaces = True
+                        elif ParserContext.VCARD_2_NO_PARAMETER_VALUES == ParserContext.PARSER_RAISE:
                             raise InvalidProperty("Invalid property parameter", data)
                         elif ParserContext.VCARD_2_NO_PARAMETER_VALUES == ParserContext.PARSER_ALLOW:
                             parameter_value = None
                         else:  # PARSER_IGNORE and PARSER_FIX
                             parameter_name = None
-
-                        if parameter_name.upper() == "BASE64" and ParserContext.VCARD_2_BASE64 == ParserContext.PARSER_FIX:
-                            parameter_name = definitions.Parameter_ENCODING
-                            parameter_value = definitions.Parameter_Value_ENCODING_B
-                            stripValueSpaces = True
                     else:
                         txt = txt[1:]
                         parameter_value, txt = stringutils.strduptokenstr(txt, ":;,")
-- 
2.43.0


From d555c638cfb0fde27867f89cc399bea2713b3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:27 +0000
Subject: [PATCH 058/131] fix: keep the sort key of alarms when they are
 duplicated

---
 src/pycalendar/icalendar/component.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 7c39349..de472a7 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -64,6 +64,11 @@ class Component(ComponentBase):
 
         other.mChanged = self.mChanged
 
+        # The key decides the order things are written in
+        if hasattr(self, "mMapKey"):
+            other.mMapKey = self.mMapKey
+            other.mRandomKey = self.mRandomKey
+
         return other
 
     def __repr__(self):
-- 
2.43.0


From 076578d527567844944bc884c24d169e1891d2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:04 +0000
Subject: [PATCH 059/131] fix: compare UTC and floating times, and dates and
 times, as different values

---
 src/pycalendar/datetime.py             | 11 +++++++++++
 src/pycalendar/datetimevalue.py        |  3 +++
 src/pycalendar/icalendar/recurrence.py |  1 +
 src/pycalendar/periodvalue.py          |  7 +++++++
 4 files changed, 22 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index b30642b..18c9992 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -219,6 +219,17 @@ class DateTime(ValueMixin):
         else:
             return cmp(self.getPosixTime(), comp.getPosixTime())
 
+    def sameValue(self, comp):
+        """
+        Whether two date-times have the same content: L{compareDateTime} takes floating times to match
+        any time zone, and dates to match any time of that day, which is not enough for that.
+        """
+        return (
+            self.mDateOnly == comp.mDateOnly and
+            self.mTZUTC == comp.mTZUTC and self.mTZID == comp.mTZID and
+            self.compareDateTime(comp) == 0
+        )
+
     def compareDate(self, comp):
         return (self.mYear == comp.mYear) and (self.mMonth == comp.mMonth) and (self.mDay == comp.mDay)
 
diff --git a/src/pycalendar/datetimevalue.py b/src/pycalendar/datetimevalue.py
index cd502f8..419b8c6 100644
--- a/src/pycalendar/datetimevalue.py
+++ b/src/pycalendar/datetimevalue.py
@@ -28,6 +28,9 @@ class DateTimeValue(WrapperValue, Value):
     def getType(self):
         return (Value.VALUETYPE_DATETIME, Value.VALUETYPE_DATE)[self.mValue.isDateOnly()]
 
+    def __eq__(self, other):
+        return super(DateTimeValue, self).__eq__(other) and self.mValue.sameValue(other.mValue)
+
     def parse(self, data, variant):
         self.mValue.parse(data, fullISO=(variant == "vcard"))
 
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index f84e178..9fdb30a 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -202,6 +202,7 @@ class Recurrence(ValueMixin):
             (self.mFreq == comp.mFreq) and
             (self.mUseCount == comp.mUseCount) and (self.mCount == comp.mCount) and
             (self.mUseUntil == comp.mUseUntil) and (self.mUntil == comp.mUntil) and
+            (self.mUntil is None or comp.mUntil is None or self.mUntil.sameValue(comp.mUntil)) and
             (self.mInterval == comp.mInterval) and
             self.equalsNum(self.mBySeconds, comp.mBySeconds) and
             self.equalsNum(self.mByMinutes, comp.mByMinutes) and
diff --git a/src/pycalendar/periodvalue.py b/src/pycalendar/periodvalue.py
index 99bd447..5d132b9 100644
--- a/src/pycalendar/periodvalue.py
+++ b/src/pycalendar/periodvalue.py
@@ -25,4 +25,11 @@ class PeriodValue(WrapperValue, Value):
     _wrappedClass = Period
     _wrappedType = Value.VALUETYPE_PERIOD
 
+    def __eq__(self, other):
+        return (
+            super(PeriodValue, self).__eq__(other) and
+            self.mValue.getStart().sameValue(other.mValue.getStart()) and
+            self.mValue.getEnd().sameValue(other.mValue.getEnd())
+        )
+
 Value.registerType(Value.VALUETYPE_PERIOD, PeriodValue, xmldefinitions.value_period)
-- 
2.43.0


From 7ba365e4d44367f58caf792c9da499e35632fb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 060/131] fix: do not make the original the master of its copy

---
 src/pycalendar/icalendar/componentrecur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 364ebb0..83f4e57 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -100,7 +100,7 @@ class ComponentRecur(Component):
         other = super(ComponentRecur, self).duplicate(parent=parent)
 
         # Special determination of master
-        other.mMaster = self.mMaster if self.recurring() else self
+        other.mMaster = self.mMaster if self.recurring() else other
 
         other.mMapKey = self.mMapKey
         other.mRandomKey = self.mRandomKey
-- 
2.43.0


From 6018d9eb942cf997fc8abb2217e025bf49619fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 061/131] fix: keep time zone lookups inside the database
 directory, however its path is spelled

---
 src/pycalendar/timezonedb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 55b64ae..a174250 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -114,9 +114,10 @@ class TimezoneDatabase(object):
         if self.dbpath is None:
             return
 
-        tzpath = os.path.join(self.dbpath, "%s.ics" % (tzid,))
-        tzpath = os.path.normpath(tzpath)
-        if tzpath.startswith(self.dbpath) and os.path.isfile(tzpath):
+        # Never look outside of the database directory, whatever the timezone identifier is
+        dbpath = os.path.abspath(self.dbpath)
+        tzpath = os.path.abspath(os.path.join(dbpath, "%s.ics" % (tzid,)))
+        if tzpath.startswith(os.path.join(dbpath, "")) and os.path.isfile(tzpath):
             try:
                 with open(tzpath) as f:
                     self.calendar.parseComponent(f)
-- 
2.43.0


From e0205fc47d8c2d882dbd771362829c4dd71467ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:42 +0000
Subject: [PATCH 062/131] fix: treat time zone identifiers that cannot be file
 names as unknown

---
 src/pycalendar/timezonedb.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index a174250..9c28aae 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -117,13 +117,13 @@ class TimezoneDatabase(object):
         # Never look outside of the database directory, whatever the timezone identifier is
         dbpath = os.path.abspath(self.dbpath)
         tzpath = os.path.abspath(os.path.join(dbpath, "%s.ics" % (tzid,)))
-        if tzpath.startswith(os.path.join(dbpath, "")) and os.path.isfile(tzpath):
-            try:
-                with open(tzpath) as f:
-                    self.calendar.parseComponent(f)
-            except (IOError, InvalidData):
+        try:
+            if not tzpath.startswith(os.path.join(dbpath, "")) or not os.path.isfile(tzpath):
                 raise NoTimezoneInDatabase(self.dbpath, tzid)
-        else:
+            with open(tzpath) as f:
+                self.calendar.parseComponent(f)
+        except (IOError, TypeError, ValueError, InvalidData):
+            # Includes timezone identifiers that can't be file names
             raise NoTimezoneInDatabase(self.dbpath, tzid)
 
     def addTimezone(self, tz):
-- 
2.43.0


From ca9cf4b90f30560c36b3c89a9fb5b6fb6004d6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 063/131] fix: an added time zone is not a standard one, also
 when the standard one was in use

---
 src/pycalendar/timezonedb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index 9c28aae..a6c6110 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -137,6 +137,8 @@ class TimezoneDatabase(object):
         copy = tz.duplicate(self.calendar)
         self.calendar.addComponent(copy)
         self.tzcache[copy.getID()] = copy
+        self.stdtzcache.discard(copy.getID())
+        self.notstdtzcache.add(copy.getID())
 
     def _addStandardTimezone(self, tz):
         """
-- 
2.43.0


From 24c7a14a36e36bb10fde3ca223f1a1114644d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 064/131] fix: treat time zones whose file has a broken
 property as unknown

---
 src/pycalendar/timezonedb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/timezonedb.py b/src/pycalendar/timezonedb.py
index a6c6110..bb476bc 100644
--- a/src/pycalendar/timezonedb.py
+++ b/src/pycalendar/timezonedb.py
@@ -15,7 +15,7 @@
 ##
 
 from pycalendar.exceptions import NoTimezoneInDatabase, \
-    InvalidData
+    ErrorBase
 import os
 
 
@@ -122,7 +122,7 @@ class TimezoneDatabase(object):
                 raise NoTimezoneInDatabase(self.dbpath, tzid)
             with open(tzpath) as f:
                 self.calendar.parseComponent(f)
-        except (IOError, TypeError, ValueError, InvalidData):
+        except (IOError, TypeError, ValueError, ErrorBase):
             # Includes timezone identifiers that can't be file names
             raise NoTimezoneInDatabase(self.dbpath, tzid)
 
-- 
2.43.0


From 16aefad39ec8a72ab7dc75941698803ed3e472fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 065/131] fix: reject property lines that have no value
 separator

---
 src/pycalendar/property.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index d510deb..2ffef5c 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -316,6 +316,9 @@ class PropertyBase(object):
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            # The line ended before there was any value
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: 'parameter index error'", data)
 
-- 
2.43.0


From 553174ef3d97914e7483702d0bee9c92eb7ab558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 066/131] fix: reject vCard property lines that have no value
 separator

---
 src/pycalendar/vcard/property.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 69f9a9e..73c8764 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -265,6 +265,9 @@ class Property(PropertyBase):
                     # We should never get here but if we do we need to terminate the loop
                     raise InvalidProperty("Invalid property: missing value separator", data)
 
+            # The line ended before there was any value
+            raise InvalidProperty("Invalid property: missing value separator", data)
+
         except IndexError:
             raise InvalidProperty("Invalid property: index error", data)
 
-- 
2.43.0


From 40e70e13283a8ad2467d624a9314bea124357d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 067/131] fix: make included time zones belong to the calendar

---
 src/pycalendar/icalendar/calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 603deb5..fe20453 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -673,7 +673,7 @@ class Calendar(ContainerBase):
                 # Find it in the static object
                 tz = TimezoneDatabase.getTimezone(tzid)
                 if tz is not None:
-                    dup = tz.duplicate()
+                    dup = tz.duplicate(parent=self)
                     self.addComponent(dup)
 
     def stripStandardTimezones(self):
-- 
2.43.0


From 40af01f3922c21315aee84fd271abf4dfcf553f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 068/131] fix: include the time zones of multi-valued dates and
 of periods

---
 src/pycalendar/icalendar/component.py | 18 +++++++++++++-----
 src/pycalendar/icalendar/property.py  |  2 +-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index de472a7..56c5d6e 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -17,8 +17,10 @@
 from pycalendar import stringutils
 from pycalendar.componentbase import ComponentBase
 from pycalendar.datetime import DateTime
+from pycalendar.datetimevalue import DateTimeValue
 from pycalendar.icalendar import definitions
 from pycalendar.icalendar.property import Property
+from pycalendar.periodvalue import PeriodValue
 import os
 import time
 import uuid
@@ -191,11 +193,17 @@ class Component(ComponentBase):
         # Look for all date-time properties
         for props in self.mProperties.itervalues():
             for prop in props:
-                # Try to get a date-time value from the property
-                dtv = prop.getDateTimeValue()
-                if dtv is not None:
+                # Try to get date-time or period values from the property
+                mv = prop.getMultiValue()
+                for value in (mv.getValues() if mv is not None else (prop.getValue(),)):
+                    if isinstance(value, DateTimeValue):
+                        dt = value.getValue()
+                    elif isinstance(value, PeriodValue):
+                        dt = value.getValue().getStart()
+                    else:
+                        continue
                     # Add timezone id if appropriate
-                    if dtv.getValue().getTimezoneID():
-                        tzids.add(dtv.getValue().getTimezoneID())
+                    if dt.getTimezoneID():
+                        tzids.add(dt.getTimezoneID())
 
 Component.sComponentType = Component
diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index dd19f41..16f4c64 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -269,7 +269,7 @@ class Property(PropertyBase):
         if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME, Value.VALUETYPE_PERIOD) and self.hasParameter(definitions.cICalParameter_TZID):
             tzid = self.getParameterValue(definitions.cICalParameter_TZID)
 
-            if isinstance(self.mValue, DateTimeValue):
+            if isinstance(self.mValue, (DateTimeValue, PeriodValue)):
                 self.mValue.getValue().setTimezoneID(tzid)
 
             elif isinstance(self.mValue, MultiValue):
-- 
2.43.0


From 0d84ae323f04c82d7b0946788a1a1120d2aade89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 069/131] fix: include the time zones of sub-components

---
 src/pycalendar/icalendar/component.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 56c5d6e..9726140 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -206,4 +206,8 @@ class Component(ComponentBase):
                     if dt.getTimezoneID():
                         tzids.add(dt.getTimezoneID())
 
+        # And in all sub-components
+        for component in self.mComponents:
+            component.getTimezones(tzids)
+
 Component.sComponentType = Component
-- 
2.43.0


From d4a8e689be7a69bc2a33f5c5b9573998c15823b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 070/131] fix: Alarm ACTION values are case-insensitive

---
 src/pycalendar/icalendar/valarm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index e1876ff..8162862 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -417,7 +417,7 @@ class VAlarm(Component):
         # Get the ACTION
         temp = self.loadValueString(definitions.cICalProperty_ACTION)
         if temp is not None:
-            self.mAction = VAlarm.sActionMap.get(temp, definitions.eAction_VAlarm_Unknown)
+            self.mAction = VAlarm.sActionMap.get(temp.upper(), definitions.eAction_VAlarm_Unknown)
             self.loadAction()
 
         # Get the trigger
-- 
2.43.0


From de57222c5febbd52e91e66ac0cf7592e04719eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 071/131] fix: A date UNTIL is fixed to the start's own date
 and time, then converted to UTC

---
 src/pycalendar/icalendar/componentrecur.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 83f4e57..d1df0a6 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -306,7 +306,6 @@ class ComponentRecur(Component):
 
         # Check that any UNTIL value matches that for DTSTART
         if self.mHasStart and self.mRecurrences:
-            dtutc = self.mStart.duplicateAsUTC()
             for rrule in self.mRecurrences.getRules():
                 if rrule.getUseUntil():
                     if rrule.getUntil().isDateOnly() ^ self.mStart.isDateOnly():
@@ -318,7 +317,10 @@ class ComponentRecur(Component):
                         if doFix:
                             rrule.getUntil().setDateOnly(self.mStart.isDateOnly())
                             if not self.mStart.isDateOnly():
-                                rrule.getUntil().setHHMMSS(dtutc.getHours(), dtutc.getMinutes(), dtutc.getSeconds())
+                                # Use the start's time of day on the UNTIL date, then convert to UTC
+                                rrule.getUntil().setHHMMSS(self.mStart.getHours(), self.mStart.getMinutes(), self.mStart.getSeconds())
+                                rrule.getUntil().setTimezone(self.mStart.getTimezone())
+                                rrule.getUntil().adjustToUTC()
                                 rrule.getUntil().setTimezone(Timezone(utc=True))
                             self.mRecurrences.changed()
                             fixed.append(logProblem)
-- 
2.43.0


From 453f18d7186ee4c4b0efad3b015b66e0372dec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 072/131] fix: recompute cached start and end after validate
 removes one of two conflicting properties

---
 src/pycalendar/icalendar/available.py | 3 +++
 src/pycalendar/icalendar/vevent.py    | 3 +++
 src/pycalendar/icalendar/vtodo.py     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/pycalendar/icalendar/available.py b/src/pycalendar/icalendar/available.py
index 1b173c8..19548d1 100644
--- a/src/pycalendar/icalendar/available.py
+++ b/src/pycalendar/icalendar/available.py
@@ -72,6 +72,9 @@ class Available(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DTEND)
+
+                # Cached values may have come from the property just removed
+                self.finalise()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 1ed908b..5dfd30e 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -118,6 +118,9 @@ class VEvent(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DTEND)
+
+                # Cached values may have come from the property just removed
+                self.finalise()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 4377922..a3fc34e 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -282,6 +282,9 @@ class VToDo(ComponentRecur):
             )
             if doFix:
                 self.removeProperties(definitions.cICalProperty_DURATION)
+
+                # Cached values may have come from the property just removed
+                self.finalise()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
-- 
2.43.0


From aba9a217e885eb90dd2dba27d124b40ca8bcdf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 073/131] fix: recompute the cached status after validate keeps
 only STATUS:CANCELLED

---
 src/pycalendar/icalendar/componentrecur.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index d1df0a6..21e10d0 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -343,6 +343,9 @@ class ComponentRecur(Component):
                         if prop.getTextValue().getValue().upper() == definitions.cICalProperty_STATUS_CANCELLED:
                             self.removeProperties(propname)
                             self.addProperty(Property(propname, definitions.cICalProperty_STATUS_CANCELLED))
+
+                            # Cached status may have come from one of the properties just removed
+                            self.finalise()
                             fixed.append(logProblem)
                             break
                     else:
-- 
2.43.0


From b36a34764beb614c4ba9bf6684255b8c8299c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 074/131] fix: reject text whose BEGIN and END lines do not
 match

---
 src/pycalendar/containerbase.py      | 33 ++++++++++++++++++----------
 src/pycalendar/icalendar/calendar.py | 23 ++++++++++++++-----
 src/pycalendar/vcard/card.py         |  4 ++++
 3 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 9858774..982779d 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -151,7 +151,11 @@ class ContainerBase(ComponentBase):
             elif state == GET_PROPERTY_OR_COMPONENT:
 
                 # Parse property or look for start of component
-                if line.startswith("BEGIN:") and self.sComponentType is not None:
+                if line.startswith("BEGIN:"):
+
+                    # Not all containers have components
+                    if self.sComponentType is None:
+                        raise InvalidData("%s data not complete" % (self.sContainerDescriptor,), line)
 
                     # Push previous details to stack
                     componentstack.append((comp, compend,))
@@ -160,15 +164,6 @@ class ContainerBase(ComponentBase):
                     comp = self.sComponentType.makeComponent(line[6:], comp)
                     compend = comp.getEndDelimiter()
 
-                # Look for end of object
-                elif line == self.getEndDelimiter():
-
-                    # Finalise the current calendar
-                    self.finalise()
-
-                    # Change state
-                    state = LOOK_FOR_CONTAINER
-
                 # Look for end of current component
                 elif line == compend:
 
@@ -176,9 +171,25 @@ class ContainerBase(ComponentBase):
                     comp.finalise()
 
                     # Embed component in parent and reset to use parent
-                    componentstack[-1][0].addComponent(comp)
+                    try:
+                        componentstack[-1][0].addComponent(comp)
+                    except ValueError as e:
+                        raise InvalidData("%s data has invalid component: %s" % (self.sContainerDescriptor, e,), line)
                     comp, compend = componentstack.pop()
 
+                # Look for end of object
+                elif line == self.getEndDelimiter() and comp is self:
+
+                    # Finalise the current calendar
+                    self.finalise()
+
+                    # Change state
+                    state = LOOK_FOR_CONTAINER
+
+                # End of something that was not begun, or with a component still open
+                elif line.startswith("END:"):
+                    raise InvalidData("%s data not complete" % (self.sContainerDescriptor,), line)
+
                 # Blank line
                 elif len(line) == 0:
                     # Raise if requested, otherwise just ignore
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index fe20453..1e8d844 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -258,11 +258,6 @@ class Calendar(ContainerBase):
                     if comp.getType() == definitions.cICalComponent_VTIMEZONE:
                         got_timezone = True
 
-                elif line == self.getEndDelimiter():
-
-                    # Change state
-                    state = GOT_VCALENDAR
-
                 # Look for end of current component
                 elif line == compend:
 
@@ -270,9 +265,21 @@ class Calendar(ContainerBase):
                     comp.finalise()
 
                     # Embed component in parent and reset to use parent
-                    componentstack[-1][0].addComponent(comp)
+                    try:
+                        componentstack[-1][0].addComponent(comp)
+                    except ValueError as e:
+                        raise InvalidData("iCalendar data has invalid component: %s" % (e,), line)
                     comp, compend = componentstack.pop()
 
+                elif line == self.getEndDelimiter() and comp is self:
+
+                    # Change state
+                    state = GOT_VCALENDAR
+
+                # End of something that was not begun, or with a component still open
+                elif line.startswith("END:"):
+                    raise InvalidData("iCalendar data not complete", line)
+
                 # Blank line
                 elif len(line) == 0:
                     # Raise if requested, otherwise just ignore
@@ -297,6 +304,10 @@ class Calendar(ContainerBase):
             if state == GOT_VCALENDAR:
                 break
 
+        # Check for truncated data
+        if state == GET_PROPERTY_OR_COMPONENT:
+            raise InvalidData("iCalendar data not complete")
+
         # We need to store all timezones in the static object so they can be accessed by any date object
         # Only do this if we read in a timezone
         if got_timezone:
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index c6a834f..4a9eea9 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -137,6 +137,10 @@ class Card(ContainerBase):
                     if ParserContext.BLANK_LINES_IN_DATA == ParserContext.PARSER_RAISE:
                         raise InvalidData("vCard data has blank lines")
 
+                # Start or end of something else, or of another card before this one ended
+                elif line.startswith("BEGIN:") or line.startswith("END:"):
+                    raise InvalidData("vCard data not complete", line)
+
                 # Must be a property
                 else:
 
-- 
2.43.0


From 4ce4564705fcafd7ce05562636c3002e57871c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 075/131] fix: BEGIN and END lines are case-insensitive

---
 src/pycalendar/containerbase.py       | 15 +++++++++------
 src/pycalendar/icalendar/calendar.py  | 15 +++++++++------
 src/pycalendar/icalendar/component.py |  2 +-
 src/pycalendar/vcard/card.py          |  9 ++++++---
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 982779d..9f92ac1 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -128,10 +128,13 @@ class ContainerBase(ComponentBase):
 
             line = lines[0]
 
+            # Component names, and BEGIN and END, are case-insensitive
+            uline = line.upper()
+
             if state == LOOK_FOR_CONTAINER:
 
                 # Look for start
-                if line == self.getBeginDelimiter():
+                if uline == self.getBeginDelimiter():
                     # Next state
                     state = GET_PROPERTY_OR_COMPONENT
 
@@ -151,7 +154,7 @@ class ContainerBase(ComponentBase):
             elif state == GET_PROPERTY_OR_COMPONENT:
 
                 # Parse property or look for start of component
-                if line.startswith("BEGIN:"):
+                if uline.startswith("BEGIN:"):
 
                     # Not all containers have components
                     if self.sComponentType is None:
@@ -162,10 +165,10 @@ class ContainerBase(ComponentBase):
 
                     # Start a new component
                     comp = self.sComponentType.makeComponent(line[6:], comp)
-                    compend = comp.getEndDelimiter()
+                    compend = comp.getEndDelimiter().upper()
 
                 # Look for end of current component
-                elif line == compend:
+                elif uline == compend:
 
                     # Finalise the component (this caches data from the properties)
                     comp.finalise()
@@ -178,7 +181,7 @@ class ContainerBase(ComponentBase):
                     comp, compend = componentstack.pop()
 
                 # Look for end of object
-                elif line == self.getEndDelimiter() and comp is self:
+                elif uline == self.getEndDelimiter() and comp is self:
 
                     # Finalise the current calendar
                     self.finalise()
@@ -187,7 +190,7 @@ class ContainerBase(ComponentBase):
                     state = LOOK_FOR_CONTAINER
 
                 # End of something that was not begun, or with a component still open
-                elif line.startswith("END:"):
+                elif uline.startswith("END:"):
                     raise InvalidData("%s data not complete" % (self.sContainerDescriptor,), line)
 
                 # Blank line
diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 1e8d844..cda11b1 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -221,10 +221,13 @@ class Calendar(ContainerBase):
 
             line = lines[0]
 
+            # Component names, and BEGIN and END, are case-insensitive
+            uline = line.upper()
+
             if state == LOOK_FOR_VCALENDAR:
 
                 # Look for start
-                if line == self.getBeginDelimiter():
+                if uline == self.getBeginDelimiter():
                     # Next state
                     state = GET_PROPERTY_OR_COMPONENT
 
@@ -241,14 +244,14 @@ class Calendar(ContainerBase):
             elif state == GET_PROPERTY_OR_COMPONENT:
 
                 # Parse property or look for start of component
-                if line.startswith("BEGIN:"):
+                if uline.startswith("BEGIN:"):
 
                     # Push previous details to stack
                     componentstack.append((comp, compend,))
 
                     # Start a new component
                     comp = self.sComponentType.makeComponent(line[6:], comp)
-                    compend = comp.getEndDelimiter()
+                    compend = comp.getEndDelimiter().upper()
 
                     # Cache as result - but only the first one, we ignore the rest
                     if result is None:
@@ -259,7 +262,7 @@ class Calendar(ContainerBase):
                         got_timezone = True
 
                 # Look for end of current component
-                elif line == compend:
+                elif uline == compend:
 
                     # Finalise the component (this caches data from the properties)
                     comp.finalise()
@@ -271,13 +274,13 @@ class Calendar(ContainerBase):
                         raise InvalidData("iCalendar data has invalid component: %s" % (e,), line)
                     comp, compend = componentstack.pop()
 
-                elif line == self.getEndDelimiter() and comp is self:
+                elif uline == self.getEndDelimiter() and comp is self:
 
                     # Change state
                     state = GOT_VCALENDAR
 
                 # End of something that was not begun, or with a component still open
-                elif line.startswith("END:"):
+                elif uline.startswith("END:"):
                     raise InvalidData("iCalendar data not complete", line)
 
                 # Blank line
diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 9726140..9c96b3c 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -45,7 +45,7 @@ class Component(ComponentBase):
     @classmethod
     def makeComponent(cls, compname, parent):
         try:
-            return cls.mapper[compname](parent=parent)
+            return cls.mapper[compname.upper()](parent=parent)
         except KeyError:
             return cls.mapper[definitions.cICalComponent_UNKNOWN](parent=parent, comptype=compname)
 
diff --git a/src/pycalendar/vcard/card.py b/src/pycalendar/vcard/card.py
index 4a9eea9..567765d 100644
--- a/src/pycalendar/vcard/card.py
+++ b/src/pycalendar/vcard/card.py
@@ -96,10 +96,13 @@ class Card(ContainerBase):
         while readFoldedLine(ins, lines):
 
             line = lines[0]
+
+            # Component names, and BEGIN and END, are case-insensitive
+            uline = line.upper()
             if state == LOOK_FOR_VCARD:
 
                 # Look for start
-                if line == card.getBeginDelimiter():
+                if uline == card.getBeginDelimiter():
                     # Next state
                     state = GET_PROPERTY
 
@@ -116,7 +119,7 @@ class Card(ContainerBase):
             elif state == GET_PROPERTY:
 
                 # Look for end of object
-                if line == card.getEndDelimiter():
+                if uline == card.getEndDelimiter():
 
                     # Finalise the current calendar
                     card.finalise()
@@ -138,7 +141,7 @@ class Card(ContainerBase):
                         raise InvalidData("vCard data has blank lines")
 
                 # Start or end of something else, or of another card before this one ended
-                elif line.startswith("BEGIN:") or line.startswith("END:"):
+                elif uline.startswith("BEGIN:") or uline.startswith("END:"):
                     raise InvalidData("vCard data not complete", line)
 
                 # Must be a property
-- 
2.43.0


From cb347deccc310df71619671374ee3fb30b82e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 076/131] fix: folding a line with a run of invalid utf-8 ends

---
 src/pycalendar/property.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 2ffef5c..5b1de1d 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -391,6 +391,10 @@ class PropertyBase(object):
                         # Step back until we have a valid char
                         offset -= 1
 
+                    # Not valid utf8 if there is no lead byte within reach, so break anywhere
+                    if offset < start + lineWrap - 3:
+                        offset = start + lineWrap
+
                     line = temp[start:offset]
                     os.write(line)
                     os.write("\r\n ")
-- 
2.43.0


From dee7c159d7fb39bfdca4c7e43dcf491d90dcf02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 077/131] fix: parse errors about non-ascii data can be shown

---
 src/pycalendar/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/exceptions.py b/src/pycalendar/exceptions.py
index 6fe5a6a..0939aea 100644
--- a/src/pycalendar/exceptions.py
+++ b/src/pycalendar/exceptions.py
@@ -22,7 +22,8 @@ class ErrorBase(Exception):
         self.mData = data
 
     def __str__(self):
-        return "{}: {}".format(self.mReason, self.mData) if self.mData else self.mReason
+        data = self.mData.encode("utf-8") if isinstance(self.mData, unicode) else self.mData
+        return "{}: {}".format(self.mReason, data) if data else self.mReason
 
 
 class InvalidData(ErrorBase):
-- 
2.43.0


From c10bb5ba56df0a9def044b5a9a92c92e11346156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 078/131] fix: reject jCal and jCard of another kind or without
 VERSION

---
 src/pycalendar/containerbase.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/pycalendar/containerbase.py b/src/pycalendar/containerbase.py
index 9f92ac1..f233bd6 100644
--- a/src/pycalendar/containerbase.py
+++ b/src/pycalendar/containerbase.py
@@ -234,6 +234,22 @@ class ContainerBase(ComponentBase):
             raise InvalidData("JSON parse: {}".format(e), data)
         return cls.parseJSON(jobject, None, cls(add_defaults=False))
 
+    @classmethod
+    def parseJSON(cls, jobject, parent, comp=None):
+        result = super(ContainerBase, cls).parseJSON(jobject, parent, comp)
+
+        # Validate the same things as for text
+        if not isinstance(jobject[0], basestring) or jobject[0].upper() != result.getType():
+            raise InvalidData("%s data not recognized" % (cls.sContainerDescriptor,), jobject)
+        for props in result.getProperties().itervalues():
+            for prop in props:
+                if not result.validProperty(prop):
+                    raise InvalidData("Invalid property", str(prop))
+        if not result.hasProperty("VERSION"):
+            raise InvalidData("%s missing VERSION" % (cls.sContainerDescriptor,), jobject)
+
+        return result
+
     def getText(self, format=None):
 
         if format is None or format == self.sFormatText:
-- 
2.43.0


From c477d13433fbeccf85e2d79e6931c44b65b1a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 079/131] fix: reject names in jCal that text cannot carry

---
 src/pycalendar/componentbase.py | 2 ++
 src/pycalendar/property.py      | 4 ++++
 src/pycalendar/stringutils.py   | 7 +++++++
 3 files changed, 13 insertions(+)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 9be0af1..48fa391 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -332,6 +332,8 @@ class ComponentBase(object):
         # [name, properties, subcomponents]
 
         try:
+            if "\r" in jobject[0] or "\n" in jobject[0]:
+                raise ValueError("invalid name")
             if comp is None:
                 comp = cls.sComponentType.makeComponent(jobject[0].upper(), parent)
             for prop in jobject[1]:
diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 5b1de1d..6c69d2b 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -451,12 +451,16 @@ class PropertyBase(object):
 
             # Get the name
             prop.mName = jobject[0].encode("utf-8").upper()
+            if prop.mName in ("BEGIN", "END") or not stringutils.isname(prop.mName, ":;"):
+                raise ValueError("invalid name")
 
             # Get the parameters
             if jobject[1]:
                 for name, value in jobject[1].items():
                     # Now add parameter value
                     name = name.upper()
+                    if not stringutils.isname(name, "="):
+                        raise ValueError("invalid parameter name")
                     if isinstance(value, list):
                         value = [v.encode("utf-8") for v in value]
                     else:
diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index a1c8933..9d38b08 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -17,6 +17,13 @@
 from hashlib import md5
 
 
+def isname(txt, tokens):
+    """
+    Whether text can be the name of a property or parameter in text data, where one of the tokens follows it.
+    """
+    return len(txt) != 0 and not txt[0].isspace() and not any(c in txt for c in tokens + "\"\r\n")
+
+
 def strduptokenstr(txt, tokens):
 
     # First punt over any leading space - this is not common so test the
-- 
2.43.0


From 1a03f5b6101ae6a161ef1590f5a955d7ed5a28f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 080/131] fix: reject jCal values of the wrong shape

---
 src/pycalendar/geovalue.py                     | 4 +++-
 src/pycalendar/icalendar/requeststatusvalue.py | 2 ++
 src/pycalendar/multivalue.py                   | 2 ++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/geovalue.py b/src/pycalendar/geovalue.py
index 017691f..44d52ba 100644
--- a/src/pycalendar/geovalue.py
+++ b/src/pycalendar/geovalue.py
@@ -70,7 +70,9 @@ class GeoValue(Value):
         longitude.text = repr(self.mValue[1])
 
     def parseJSONValue(self, jobject):
-        self.mValue = jobject
+        if not isinstance(jobject, list) or len(jobject) != 2:
+            raise ValueError("GEO value incorrect")
+        self.mValue = map(float, jobject)
 
     def writeJSONValue(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index d7e650f..3d83933 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -90,6 +90,8 @@ class RequestStatusValue(Value):
             data.text = self.mValue[2]
 
     def parseJSONValue(self, jobject):
+        if not isinstance(jobject, list) or len(jobject) not in (2, 3):
+            raise ValueError("RequestStatus: wrong number of value components")
         self.mValue = map(lambda x: x.encode("utf-8"), jobject)
 
     def writeJSONValue(self, jobject):
diff --git a/src/pycalendar/multivalue.py b/src/pycalendar/multivalue.py
index 815fa7b..22007bb 100644
--- a/src/pycalendar/multivalue.py
+++ b/src/pycalendar/multivalue.py
@@ -87,6 +87,8 @@ class MultiValue(Value):
             iter.writeXML(node, namespace)
 
     def parseJSONValue(self, jobject):
+        if not jobject:
+            raise ValueError("MultiValue: no values")
         for jvalue in jobject:
             value = Value.createFromType(self.mType)
             value.parseJSONValue(jvalue)
-- 
2.43.0


From dec49a89fd37e0c0bd6c648232038824efb9f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 081/131] fix: reject dates whose month is out of range

---
 src/pycalendar/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 18c9992..aba84cc 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -912,6 +912,8 @@ class DateTime(ValueMixin):
             raise ValueError("DateTime: spaces not allowed at start")
         if self.mYear < 0 or self.mMonth < 0 or self.mDay < 0:
             raise ValueError("DateTime: negative date components not allowed")
+        if not 1 <= self.mMonth <= 12:
+            raise ValueError("DateTime: month out of range")
         return index
 
     def parseTime(self, data, index, fullISO):
-- 
2.43.0


From 5dc9d9c99cf64d477c903b77744685189fd6ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 082/131] fix: escape sequences are passed through when the
 setting is to allow them

---
 src/pycalendar/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 7644add..b8bff7d 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -169,12 +169,16 @@ def decodeTextValue(value):
                     raise ValueError("TextValue: '\\:' not allowed")
                 elif ParserContext.INVALID_COLON_ESCAPE_SEQUENCE == ParserContext.PARSER_FIX:
                     os.write(':')
+                elif ParserContext.INVALID_COLON_ESCAPE_SEQUENCE == ParserContext.PARSER_ALLOW:
+                    os.write('\\:')
 
             # Other escaped chars normally not allowed
             elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_RAISE:
                 raise ValueError("TextValue: '\\{}' not allowed".format(c))
             elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_FIX:
                 os.write(c)
+            elif ParserContext.INVALID_ESCAPE_SEQUENCES == ParserContext.PARSER_ALLOW:
+                os.write('\\' + c)
 
             # Bump past escapee and look for next segment (not past the end)
             start_pos = end_pos + 1
-- 
2.43.0


From 52f893334432e9b27a64eb726e2562787f3e7a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 083/131] fix: sound REQUEST-STATUS values are not rejected
 when the setting is to raise

---
 src/pycalendar/icalendar/requeststatusvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/requeststatusvalue.py b/src/pycalendar/icalendar/requeststatusvalue.py
index 3d83933..d69939c 100644
--- a/src/pycalendar/icalendar/requeststatusvalue.py
+++ b/src/pycalendar/icalendar/requeststatusvalue.py
@@ -67,7 +67,7 @@ class RequestStatusValue(Value):
 
         if "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE in (ParserContext.PARSER_IGNORE, ParserContext.PARSER_FIX):
             code = code.replace("\\", "")
-        elif ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
+        elif "\\" in code and ParserContext.INVALID_REQUEST_STATUS_VALUE == ParserContext.PARSER_RAISE:
             raise ValueError("RequestStatus: cannot have '\\' in value")
 
         # Decoding required
-- 
2.43.0


From 9f4515819c0701d050df9541371e81ebaf567196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 084/131] fix: reject parameters without a name

---
 src/pycalendar/property.py       | 2 +-
 src/pycalendar/vcard/property.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 6c69d2b..08e01a4 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -292,7 +292,7 @@ class PropertyBase(object):
 
                     # Get quoted string or token
                     parameter_name, txt = stringutils.strduptokenstr(txt, "=")
-                    if parameter_name is None:
+                    if not parameter_name:
                         raise InvalidProperty("Invalid property: empty parameter name", data)
                     txt = txt[1:]
                     parameter_value, txt = stringutils.strduptokenstr(txt, ":;,")
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 73c8764..6cb3e50 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -223,7 +223,7 @@ class Property(PropertyBase):
                     # but for "broken" vCard BASE64 property we need to also terminate on
                     # ":;"
                     parameter_name, txt = stringutils.strduptokenstr(txt, "=:;")
-                    if parameter_name is None:
+                    if not parameter_name:
                         raise InvalidProperty("Invalid property: empty parameter name", data)
 
                     if txt[0] != "=":
-- 
2.43.0


From 5afeccd99f7838cfa187d0ee7e266fe43cc67476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 085/131] fix: TZID applies to date-time values, whatever the
 VALUE parameter says

---
 src/pycalendar/icalendar/property.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index 16f4c64..b4d58b8 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -266,16 +266,13 @@ class Property(PropertyBase):
         """
 
         # Look for TZID parameter
-        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATETIME, Value.VALUETYPE_PERIOD) and self.hasParameter(definitions.cICalParameter_TZID):
+        if value_type in (Value.VALUETYPE_TIME, Value.VALUETYPE_DATE, Value.VALUETYPE_DATETIME, Value.VALUETYPE_PERIOD) and self.hasParameter(definitions.cICalParameter_TZID):
             tzid = self.getParameterValue(definitions.cICalParameter_TZID)
 
-            if isinstance(self.mValue, (DateTimeValue, PeriodValue)):
-                self.mValue.getValue().setTimezoneID(tzid)
-
-            elif isinstance(self.mValue, MultiValue):
-                for item in self.mValue.getValues():
-                    if isinstance(item, (DateTimeValue, PeriodValue)):
-                        item.getValue().setTimezoneID(tzid)
+            # The type a value is written as comes from the value itself, so that decides here too
+            for item in self.mValue.getValues() if isinstance(self.mValue, MultiValue) else (self.mValue,):
+                if isinstance(item, PeriodValue) or isinstance(item, DateTimeValue) and not item.getValue().isDateOnly():
+                    item.getValue().setTimezoneID(tzid)
 
     # Creation
     def _init_attr_value_requeststatus(self, reqstatus):
-- 
2.43.0


From 3da885c4b43e5e617a42feec3906a847c26d224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 086/131] fix: backslashes in URI values are escaped when
 written, as they are decoded when read

---
 src/pycalendar/urivalue.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/urivalue.py b/src/pycalendar/urivalue.py
index 58fdc64..b071bde 100644
--- a/src/pycalendar/urivalue.py
+++ b/src/pycalendar/urivalue.py
@@ -42,10 +42,13 @@ class URIValue(PlainTextValue):
         Handle a client bug where it sometimes includes a \n in the value and we need
         to make sure that gets encoded rather than included literally which would break syntax.
         """
-        if '\n' in self.mValue:
+        if '\n' in self.mValue or '\\' in self.mValue:
             try:
-                # No encoding required
-                os.write(self.mValue.replace("\n", "\\n"))
+                value = self.mValue
+                if ParserContext.BACKSLASH_IN_URI_VALUE == ParserContext.PARSER_FIX:
+                    # Decoded when parsed
+                    value = value.replace("\\", "\\\\")
+                os.write(value.replace("\n", "\\n"))
             except:
                 pass
         else:
-- 
2.43.0


From 61e674e180848817ba1e41fb28b8b190c7d1e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 087/131] fix: reject quoted property and parameter names that
 cannot be written

---
 src/pycalendar/property.py       | 5 +++++
 src/pycalendar/stringutils.py    | 2 +-
 src/pycalendar/vcard/property.py | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 08e01a4..64053b2 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -248,6 +248,9 @@ class PropertyBase(object):
             else:
                 prop.mName = prop_name
 
+            if not stringutils.isname(prop.mName, ":;"):
+                raise InvalidProperty("Invalid property: invalid name", data)
+
             # Get the parameters
             txt = prop.parseTextParameters(txt, data)
 
@@ -294,6 +297,8 @@ class PropertyBase(object):
                     parameter_name, txt = stringutils.strduptokenstr(txt, "=")
                     if not parameter_name:
                         raise InvalidProperty("Invalid property: empty parameter name", data)
+                    if txt[0] != "=" or not stringutils.isname(parameter_name, "="):
+                        raise InvalidProperty("Invalid property: invalid parameter name", data)
                     txt = txt[1:]
                     parameter_value, txt = stringutils.strduptokenstr(txt, ":;,")
                     if parameter_value is None:
diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index 9d38b08..92d2bb9 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -21,7 +21,7 @@ def isname(txt, tokens):
     """
     Whether text can be the name of a property or parameter in text data, where one of the tokens follows it.
     """
-    return len(txt) != 0 and not txt[0].isspace() and not any(c in txt for c in tokens + "\"\r\n")
+    return len(txt) != 0 and not txt[0].isspace() and txt[0] != "\"" and not any(c in txt for c in tokens + "\r\n")
 
 
 def strduptokenstr(txt, tokens):
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 6cb3e50..956e86c 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -225,6 +225,8 @@ class Property(PropertyBase):
                     parameter_name, txt = stringutils.strduptokenstr(txt, "=:;")
                     if not parameter_name:
                         raise InvalidProperty("Invalid property: empty parameter name", data)
+                    if not stringutils.isname(parameter_name, "=:;"):
+                        raise InvalidProperty("Invalid property: invalid parameter name", data)
 
                     if txt[0] != "=":
                         # Deal with parameters without values
-- 
2.43.0


From b879038581ffbdc395af25365e6e093fc9d3b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 088/131] fix: filtered output of sub-components

---
 src/pycalendar/componentbase.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/componentbase.py b/src/pycalendar/componentbase.py
index 48fa391..86ee124 100644
--- a/src/pycalendar/componentbase.py
+++ b/src/pycalendar/componentbase.py
@@ -411,8 +411,8 @@ class ComponentBase(object):
         if filter.isAllSubComponents():
             self.writeComponents(os)
         elif filter.hasSubComponentFilters():
-            for subcomp in self.sortedcomponents():
-                subfilter = filter.getSubComponentFilter(subcomp.getType())
+            for subcomp in self.sortedComponents():
+                subfilter = filter.getSubComponentFilter(subcomp.getType().upper())
                 if subfilter is not None:
                     subcomp.generateFiltered(os, subfilter)
 
@@ -428,14 +428,13 @@ class ComponentBase(object):
     def writeComponentsFilteredXML(self, node, namespace, filter):
 
         if self.mComponents:
-            comps = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.components))
-
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeXML(comps, namespace)
+                self.writeComponentsXML(node, namespace)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
-                    subfilter = filter.getSubComponentFilter(subcomp.getType())
+                comps = XML.SubElement(node, xmlutils.makeTag(namespace, xmldefinitions.components))
+                for subcomp in self.sortedComponents():
+                    subfilter = filter.getSubComponentFilter(subcomp.getType().upper())
                     if subfilter is not None:
                         subcomp.writeXMLFiltered(comps, namespace, subfilter)
 
@@ -451,10 +450,10 @@ class ComponentBase(object):
         if self.mComponents:
             # Shortcut for all sub-components
             if filter.isAllSubComponents():
-                self.writeJSON(jobject)
+                self.writeComponentsJSON(jobject)
             elif filter.hasSubComponentFilters():
-                for subcomp in self.sortedcomponents():
-                    subfilter = filter.getSubComponentFilter(subcomp.getType())
+                for subcomp in self.sortedComponents():
+                    subfilter = filter.getSubComponentFilter(subcomp.getType().upper())
                     if subfilter is not None:
                         subcomp.writeJSONFiltered(jobject, subfilter)
 
-- 
2.43.0


From f0ce5e1795280df6d40a983de5eb1ffc21419a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 089/131] fix: leave out the value of vCard PHOTO properties
 when the filter says so

---
 src/pycalendar/vcard/property.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 956e86c..246fe5e 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -277,7 +277,7 @@ class Property(PropertyBase):
     def generateValue(self, os, novalue):
 
         # Special case AB.app PHOTO values
-        if self.mName.upper() == "PHOTO" and self.mValue.getType() == Value.VALUETYPE_BINARY:
+        if not novalue and self.mName.upper() == "PHOTO" and self.mValue.getType() == Value.VALUETYPE_BINARY:
             self.setupValueParameter()
 
             # Must write to temp buffer and then wrap
-- 
2.43.0


From 0867c6b63bb712b8655e5acc485fac5b3c4209b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 090/131] fix: the UID index of a calendar follows changes of
 UID to one in use and removal of everything

---
 src/pycalendar/icalendar/calendar.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index cda11b1..24fb466 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -151,9 +151,11 @@ class Calendar(ContainerBase):
                 component.setUID(newUID)
 
         # Maps
+        if newUID == oldUID:
+            return
         if oldUID in self.mOverriddenComponentsByUID:
-            self.mOverriddenComponentsByUID[newUID] = self.mOverriddenComponentsByUID[oldUID]
-            del self.mOverriddenComponentsByUID[oldUID]
+            # The new UID may have overridden components already
+            self.mOverriddenComponentsByUID[newUID].extend(self.mOverriddenComponentsByUID.pop(oldUID))
         for ctype in self.mMasterComponentsByTypeAndUID:
             if oldUID in self.mMasterComponentsByTypeAndUID[ctype]:
                 self.mMasterComponentsByTypeAndUID[ctype][newUID] = self.mMasterComponentsByTypeAndUID[ctype][oldUID]
@@ -347,6 +349,16 @@ class Calendar(ContainerBase):
             else:
                 del self.mMasterComponentsByTypeAndUID[component.getType()][uid]
 
+    def removeAllComponent(self, compname=None):
+        """
+        Override to track components by UID.
+        """
+        super(Calendar, self).removeAllComponent(compname)
+
+        if not compname:
+            self.mMasterComponentsByTypeAndUID.clear()
+            self.mOverriddenComponentsByUID.clear()
+
     def deriveComponent(self, recurrenceID):
         """
         Derive an overridden component for the associated RECURRENCE-ID. This assumes
-- 
2.43.0


From c5e4efe5c42e8a1175f0ae316da818f21b72497b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:25 +0000
Subject: [PATCH 091/131] fix: setting a date-time to today or now

---
 src/pycalendar/datetime.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index aba84cc..fecac8a 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -107,6 +107,26 @@ class DateTime(ValueMixin):
 
         return other
 
+    def copy(self, other):
+        """
+        Make this date-time the same as another one.
+        """
+        self.mYear = other.mYear
+        self.mMonth = other.mMonth
+        self.mDay = other.mDay
+        self.mHours = other.mHours
+        self.mMinutes = other.mMinutes
+        self.mSeconds = other.mSeconds
+
+        self.mDateOnly = other.mDateOnly
+
+        self.mTZUTC = other.mTZUTC
+        self.mTZID = other.mTZID
+        self.mTZOffset = other.mTZOffset
+
+        self.mPosixTimeCached = other.mPosixTimeCached
+        self.mPosixTime = other.mPosixTime
+
     def duplicateAsUTC(self):
         other = self.duplicate()
         other.adjustToUTC()
@@ -677,7 +697,7 @@ class DateTime(ValueMixin):
 
     def setToday(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getToday(tz))
+        self.copy(self.getToday(tz))
 
     @staticmethod
     def getToday(tzid=None):
@@ -690,7 +710,7 @@ class DateTime(ValueMixin):
 
     def setNow(self):
         tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
-        self.copy_ICalendarDateTime(self.getNow(tz))
+        self.copy(self.getNow(tz))
 
     @staticmethod
     def getNow(tzid):
@@ -699,7 +719,7 @@ class DateTime(ValueMixin):
         return utc
 
     def setNowUTC(self):
-        self.copy_DateTime(self.getNowUTC())
+        self.copy(self.getNowUTC())
 
     @staticmethod
     def getNowUTC():
-- 
2.43.0


From 1373fe245c63e1e40ea18a2ef3a894809afd2955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 092/131] fix: timing edits write what they cache, DUE for
 to-dos, and cache what they write

---
 src/pycalendar/icalendar/componentrecur.py | 168 +++++++++++++--------
 src/pycalendar/icalendar/vtodo.py          |  39 +++--
 2 files changed, 130 insertions(+), 77 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 21e10d0..a8a20c8 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -238,6 +238,41 @@ class ComponentRecur(Component):
         if self.mHasStamp:
             self.mStamp = temp
 
+        # Get DTSTART, DTEND and DURATION
+        self._loadTiming()
+
+        # Get SUMMARY
+        temp = self.loadValueString(definitions.cICalProperty_SUMMARY)
+        if temp is not None:
+            self.mSummary = temp
+
+        # Get RECURRENCE-ID
+        self.mHasRecurrenceID = (self.countProperty(definitions.cICalProperty_RECURRENCE_ID) != 0)
+        if self.mHasRecurrenceID:
+            self.mRecurrenceID = self.loadValueDateTime(definitions.cICalProperty_RECURRENCE_ID)
+
+        # Update the map key
+        if self.mHasRecurrenceID:
+            self.mMapKey = self.mapKey(self.mUID, self.mRecurrenceID.getText())
+
+            # Also get the RANGE parameter
+            attrs = self.findFirstProperty(definitions.cICalProperty_RECURRENCE_ID).getParameters()
+            if definitions.cICalParameter_RANGE in attrs:
+                self.mAdjustFuture = (attrs[definitions.cICalParameter_RANGE][0].getFirstValue() == definitions.cICalParameter_RANGE_THISANDFUTURE)
+                self.mAdjustPrior = (attrs[definitions.cICalParameter_RANGE][0].getFirstValue() == definitions.cICalParameter_RANGE_THISANDPRIOR)
+            else:
+                self.mAdjustFuture = False
+                self.mAdjustPrior = False
+        else:
+            self.mMapKey = self.mapKey(self.mUID)
+
+        self._resetRecurrenceSet()
+
+    def _loadTiming(self):
+        """
+        Load the cached timing values from the properties.
+        """
+
         # Get DTSTART
         temp = self.loadValueDateTime(definitions.cICalProperty_DTSTART)
         self.mHasStart = temp is not None
@@ -266,32 +301,16 @@ class ComponentRecur(Component):
             self.mEnd = temp
             self.mDuration = False
 
-        # Get SUMMARY
-        temp = self.loadValueString(definitions.cICalProperty_SUMMARY)
-        if temp is not None:
-            self.mSummary = temp
-
-        # Get RECURRENCE-ID
-        self.mHasRecurrenceID = (self.countProperty(definitions.cICalProperty_RECURRENCE_ID) != 0)
-        if self.mHasRecurrenceID:
-            self.mRecurrenceID = self.loadValueDateTime(definitions.cICalProperty_RECURRENCE_ID)
-
-        # Update the map key
-        if self.mHasRecurrenceID:
-            self.mMapKey = self.mapKey(self.mUID, self.mRecurrenceID.getText())
-
-            # Also get the RANGE parameter
-            attrs = self.findFirstProperty(definitions.cICalProperty_RECURRENCE_ID).getParameters()
-            if definitions.cICalParameter_RANGE in attrs:
-                self.mAdjustFuture = (attrs[definitions.cICalParameter_RANGE][0].getFirstValue() == definitions.cICalParameter_RANGE_THISANDFUTURE)
-                self.mAdjustPrior = (attrs[definitions.cICalParameter_RANGE][0].getFirstValue() == definitions.cICalParameter_RANGE_THISANDPRIOR)
-            else:
-                self.mAdjustFuture = False
-                self.mAdjustPrior = False
-        else:
-            self.mMapKey = self.mapKey(self.mUID)
+    def _editedTiming(self):
+        """
+        Timing properties were edited, so update the values cached from them.
+        """
+        self._loadTiming()
+        if self.recurring():
+            self._initTimingFromMaster()
 
-        self._resetRecurrenceSet()
+        # Expanded instances depend on the start
+        self.changedRecurrence()
 
     def validate(self, doFix=False):
         """
@@ -504,13 +523,26 @@ class ComponentRecur(Component):
         self.editProperty(definitions.cICalProperty_DESCRIPTION, description)
         self.editProperty(definitions.cICalProperty_LOCATION, location)
 
+    def endPropertyName(self):
+        """
+        Name of the property that holds the end of this component.
+        """
+        return definitions.cICalProperty_DTEND
+
+    def impliedOneDay(self):
+        """
+        Whether an all day component without an end lasts for one day.
+        """
+        return True
+
     def editTiming(self):
         # Updated cached values
         self.mHasStart = False
         self.mHasEnd = False
         self.mDuration = False
+        self.mStart = self.mStart.duplicate()
         self.mStart.setToday()
-        self.mEnd.setToday()
+        self.mEnd = self.mStart.duplicate()
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
@@ -518,13 +550,15 @@ class ComponentRecur(Component):
         self.removeProperties(definitions.cICalProperty_DURATION)
         self.removeProperties(definitions.cICalProperty_DUE)
 
+        self._editedTiming()
+
     def editTimingDue(self, due):
         # Updated cached values
         self.mHasStart = False
         self.mHasEnd = True
         self.mDuration = False
-        self.mStart = due
-        self.mEnd = due
+        self.mStart = due.duplicate()
+        self.mEnd = due.duplicate()
 
         # Remove existing DUE & DTSTART & DTEND & DURATION items
         self.removeProperties(definitions.cICalProperty_DUE)
@@ -533,14 +567,16 @@ class ComponentRecur(Component):
         self.removeProperties(definitions.cICalProperty_DURATION)
 
         # Now create properties
-        prop = Property(definitions.cICalProperty_DUE, due)
+        prop = Property(definitions.cICalProperty_DUE, due.duplicate())
         self.addProperty(prop)
 
+        self._editedTiming()
+
     def editTimingStartEnd(self, start, end):
         # Updated cached values
         self.mHasStart = self.mHasEnd = True
-        self.mStart = start
-        self.mEnd = end
+        self.mStart = start.duplicate()
+        self.mEnd = end.duplicate()
         self.mDuration = False
         self.FixStartEnd()
         # Remove existing DTSTART & DTEND & DURATION & DUE items
@@ -550,21 +586,23 @@ class ComponentRecur(Component):
         self.removeProperties(definitions.cICalProperty_DUE)
 
         # Now create properties
-        prop = Property(definitions.cICalProperty_DTSTART, start)
+        prop = Property(definitions.cICalProperty_DTSTART, start.duplicate())
         self.addProperty(prop)
 
         # If its an all day event and the end one day after the start, ignore it
         temp = start.duplicate()
         temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
+        if not start.isDateOnly() or self.mEnd != temp or not self.impliedOneDay():
+            prop = Property(self.endPropertyName(), self.mEnd.duplicate())
             self.addProperty(prop)
 
+        self._editedTiming()
+
     def editTimingStartDuration(self, start, duration):
         # Updated cached values
         self.mHasStart = True
         self.mHasEnd = False
-        self.mStart = start
+        self.mStart = start.duplicate()
         self.mEnd = start + duration
         self.mDuration = True
 
@@ -575,14 +613,16 @@ class ComponentRecur(Component):
         self.removeProperties(definitions.cICalProperty_DUE)
 
         # Now create properties
-        prop = Property(definitions.cICalProperty_DTSTART, start)
+        prop = Property(definitions.cICalProperty_DTSTART, start.duplicate())
         self.addProperty(prop)
 
         # If its an all day event and the duration is one day, ignore it
-        if (not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1)):
-            prop = Property(definitions.cICalProperty_DURATION, duration)
+        if (not start.isDateOnly() or (duration.getWeeks() != 0) or (duration.getDays() > 1) or not self.impliedOneDay()):
+            prop = Property(definitions.cICalProperty_DURATION, duration.duplicate())
             self.addProperty(prop)
 
+        self._editedTiming()
+
     def editRecurrenceSet(self, recurs):
         # Must have items
         if self.mRecurrences is None:
@@ -648,31 +688,33 @@ class ComponentRecur(Component):
         if self.recurring():
             # Redo this to get cached values from master
             self.finalise()
-
-            # If this component does not have its own start property, use the
-            # recurrence id
-            # i.e. the start time of this instance has not changed - something
-            # else has
-            if not self.hasProperty(definitions.cICalProperty_DTSTART):
-                self.mStart = self.mRecurrenceID
-
-            # If this component does not have its own end/duration property,
-            # the determine
-            # the end from the master duration
-            if (
-                not self.hasProperty(definitions.cICalProperty_DTEND) and
-                not self.hasProperty(definitions.cICalProperty_DURATION)
-            ):
-                # End is based on original events settings
-                self.mEnd = self.mStart + (self.mMaster.getEnd() - self.mMaster.getStart())
-
-            # If this instance has a duration, but no start of its own, then we
-            # need to readjust the end
-            # to account for the start being changed to the recurrence id
-            elif (self.hasProperty(definitions.cICalProperty_DURATION) and
-                  not self.hasProperty(definitions.cICalProperty_DTSTART)):
-                temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
-                self.mEnd = self.mStart + temp
+            self._initTimingFromMaster()
+
+    def _initTimingFromMaster(self):
+        # If this component does not have its own start property, use the
+        # recurrence id
+        # i.e. the start time of this instance has not changed - something
+        # else has
+        if not self.hasProperty(definitions.cICalProperty_DTSTART):
+            self.mStart = self.mRecurrenceID
+
+        # If this component does not have its own end/duration property,
+        # the determine
+        # the end from the master duration
+        if (
+            not self.hasProperty(self.endPropertyName()) and
+            not self.hasProperty(definitions.cICalProperty_DURATION)
+        ):
+            # End is based on original events settings
+            self.mEnd = self.mStart + (self.mMaster.getEnd() - self.mMaster.getStart())
+
+        # If this instance has a duration, but no start of its own, then we
+        # need to readjust the end
+        # to account for the start being changed to the recurrence id
+        elif (self.hasProperty(definitions.cICalProperty_DURATION) and
+              not self.hasProperty(definitions.cICalProperty_DTSTART)):
+            temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
+            self.mEnd = self.mStart + temp
 
     def createExpanded(self, master, recurid):
         return ComponentExpanded(master, recurid)
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index a3fc34e..b930ec8 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -225,20 +225,6 @@ class VToDo(ComponentRecur):
         # Do inherited
         super(VToDo, self).finalise()
 
-        # Get DUE
-        temp = self.loadValueDateTime(definitions.cICalProperty_DUE)
-        if temp is None:
-            # Try DURATION instead
-            temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
-            if temp is not None:
-                self.mEnd = self.mStart + temp
-                self.mHasEnd = True
-            else:
-                self.mHasEnd = False
-        else:
-            self.mHasEnd = True
-            self.mEnd = temp
-
         # Get PRIORITY
         self.mPriority = self.loadValueInteger(definitions.cICalProperty_PRIORITY)
 
@@ -263,6 +249,31 @@ class VToDo(ComponentRecur):
         if self.mHasCompleted:
             self.mCompleted = temp
 
+    def _loadTiming(self):
+        # Do inherited
+        super(VToDo, self)._loadTiming()
+
+        # Get DUE
+        temp = self.loadValueDateTime(definitions.cICalProperty_DUE)
+        if temp is None:
+            # Try DURATION instead
+            temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
+            if temp is not None:
+                self.mEnd = self.mStart + temp
+                self.mHasEnd = True
+            else:
+                self.mHasEnd = False
+        else:
+            self.mHasEnd = True
+            self.mEnd = temp
+
+    def endPropertyName(self):
+        return definitions.cICalProperty_DUE
+
+    def impliedOneDay(self):
+        # Without an end a to-do is not due at any time
+        return False
+
     def validate(self, doFix=False):
         """
         Validate the data in this component and optionally fix any problems, else raise. If
-- 
2.43.0


From f50eb8cc9d1655aa56825a5933c861a68c4b6319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 093/131] fix: RDATE, EXDATE and FREEBUSY properties made from
 one value, and TZID for those made from periods

---
 src/pycalendar/icalendar/property.py | 34 ++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/pycalendar/icalendar/property.py b/src/pycalendar/icalendar/property.py
index b4d58b8..87ad691 100644
--- a/src/pycalendar/icalendar/property.py
+++ b/src/pycalendar/icalendar/property.py
@@ -200,6 +200,13 @@ class Property(PropertyBase):
             value = value.encode("utf-8")
             self._init_attr_value_text(value, valuetype if valuetype else self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_UNKNOWN))
 
+        elif isinstance(value, (DateTime, Period)) and self.mName.upper() in self.sMultiValues:
+            # These always have a list of values
+            if isinstance(value, Period):
+                self._init_attr_value_periodlist([value])
+            else:
+                self._init_attr_value_datetimelist([value])
+
         elif isinstance(value, DateTime):
             self._init_attr_value_datetime(value)
 
@@ -274,6 +281,13 @@ class Property(PropertyBase):
                 if isinstance(item, PeriodValue) or isinstance(item, DateTimeValue) and not item.getValue().isDateOnly():
                     item.getValue().setTimezoneID(tzid)
 
+    def _setupTimezoneParameter(self, dt):
+        if not dt.isDateOnly() and dt.local():
+            if definitions.cICalParameter_TZID in self.mParameters:
+                del self.mParameters[definitions.cICalParameter_TZID]
+            self.mParameters.setdefault(definitions.cICalParameter_TZID, []).append(
+                Parameter(name=definitions.cICalParameter_TZID, value=dt.getTimezoneID()))
+
     # Creation
     def _init_attr_value_requeststatus(self, reqstatus):
         # Value
@@ -290,11 +304,7 @@ class Property(PropertyBase):
         self.setupValueParameter()
 
         # Look for timezone
-        if not dt.isDateOnly() and dt.local():
-            if definitions.cICalParameter_TZID in self.mParameters:
-                del self.mParameters[definitions.cICalParameter_TZID]
-            self.mParameters.setdefault(definitions.cICalParameter_TZID, []).append(
-                Parameter(name=definitions.cICalParameter_TZID, value=dt.getTimezoneID()))
+        self._setupTimezoneParameter(dt)
 
     def _init_attr_value_datetimelist(self, dtl):
         # Value
@@ -311,11 +321,8 @@ class Property(PropertyBase):
         self.setupValueParameter()
 
         # Look for timezone
-        if ((len(dtl) > 0) and not dtl[0].isDateOnly() and dtl[0].local()):
-            if definitions.cICalParameter_TZID in self.mParameters:
-                del self.mParameters[definitions.cICalParameter_TZID]
-            self.mParameters.setdefault(definitions.cICalParameter_TZID, []).append(
-                Parameter(name=definitions.cICalParameter_TZID, value=dtl[0].getTimezoneID()))
+        if len(dtl) > 0:
+            self._setupTimezoneParameter(dtl[0])
 
     def _init_attr_value_periodlist(self, periodlist):
         # Value
@@ -326,6 +333,10 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+        # Look for timezone
+        if len(periodlist) > 0:
+            self._setupTimezoneParameter(periodlist[0].getStart())
+
     def _init_attr_value_duration(self, du):
         # Value
         self.mValue = DurationValue(value=du)
@@ -340,6 +351,9 @@ class Property(PropertyBase):
         # Parameters
         self.setupValueParameter()
 
+        # Look for timezone
+        self._setupTimezoneParameter(pe.getStart())
+
     def _init_attr_value_recur(self, recur):
         # Value
         self.mValue = RecurrenceValue(value=recur)
-- 
2.43.0


From 8831c907b4e933e3fb95e317cd686f397255beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 094/131] fix: editing the recurrences of a component, and
 excluding some of them

---
 src/pycalendar/icalendar/componentrecur.py | 36 ++++++++++------------
 src/pycalendar/icalendar/recurrence.py     | 29 +++++++++++------
 src/pycalendar/icalendar/recurrenceset.py  | 32 +++++++++----------
 3 files changed, 50 insertions(+), 47 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index a8a20c8..f509abc 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -624,13 +624,6 @@ class ComponentRecur(Component):
         self._editedTiming()
 
     def editRecurrenceSet(self, recurs):
-        # Must have items
-        if self.mRecurrences is None:
-            self.mRecurrences = RecurrenceSet()
-
-        # Updated cached values
-        self.mRecurrences = recurs
-
         # Remove existing RRULE, EXRULE, RDATE & EXDATE
         self.removeProperties(definitions.cICalProperty_RRULE)
         self.removeProperties(definitions.cICalProperty_EXRULE)
@@ -638,29 +631,32 @@ class ComponentRecur(Component):
         self.removeProperties(definitions.cICalProperty_EXDATE)
 
         # Now create properties
-        for iter in self.mRecurrences.getRules():
-            prop = Property(definitions.cICalProperty_RRULE, iter)
+        for iter in recurs.getRules():
+            prop = Property(definitions.cICalProperty_RRULE, iter.duplicate())
             self.addProperty(prop)
-        for iter in self.getExrules():
-            prop = Property(definitions.cICalProperty_EXRULE, iter)
+        for iter in recurs.getExrules():
+            prop = Property(definitions.cICalProperty_EXRULE, iter.duplicate())
             self.addProperty(prop)
-        for iter in self.mRecurrences.getDates():
-            prop = Property(definitions.cICalProperty_RDATE, iter)
+        for iter in recurs.getDates() + recurs.getPeriods():
+            prop = Property(definitions.cICalProperty_RDATE, iter.duplicate())
             self.addProperty(prop)
-        for iter in self.mRecurrences.getExdates():
-            prop = Property(definitions.cICalProperty_EXDATE, iter)
+        for iter in recurs.getExdates() + recurs.getExperiods():
+            prop = Property(definitions.cICalProperty_EXDATE, iter.duplicate())
             self.addProperty(prop)
 
+        # Updated cached values
+        self._resetRecurrenceSet()
+
     def excludeRecurrence(self, start):
         # Must have items
         if self.mRecurrences is None:
             return
 
-        # Add to recurrence set and clear cache
-        self.mRecurrences.subtract(start)
+        # Add to recurrence set
+        self.mRecurrences.subtractDT(start.duplicate())
 
         # Add property
-        prop = Property(definitions.cICalProperty_EXDATE, start)
+        prop = Property(definitions.cICalProperty_EXDATE, start.duplicate())
         self.addProperty(prop)
 
     def excludeFutureRecurrence(self, start):
@@ -669,7 +665,7 @@ class ComponentRecur(Component):
             return
 
         # Adjust RRULES to end before start
-        self.mRecurrences.excludeFutureRecurrence(start)
+        self.mRecurrences.excludeFutureRecurrence(start, self.mStart)
 
         # Remove existing RRULE & RDATE
         self.removeProperties(definitions.cICalProperty_RRULE)
@@ -679,7 +675,7 @@ class ComponentRecur(Component):
         for iter in self.mRecurrences.getRules():
             prop = Property(definitions.cICalProperty_RRULE, iter)
             self.addProperty(prop)
-        for iter in self.mRecurrences.getDates():
+        for iter in self.mRecurrences.getDates() + self.mRecurrences.getPeriods():
             prop = Property(definitions.cICalProperty_RDATE, iter)
             self.addProperty(prop)
 
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 9fdb30a..31fb815 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1048,26 +1048,35 @@ class Recurrence(ValueMixin):
     # the recurrence data should be cached
 
     # Exclude dates on or after the chosen one
-    def excludeFutureRecurrence(self, exclude):
+    def excludeFutureRecurrence(self, exclude, start=None):
+        # Use the start of the last expansion if none was given
+        if start is None:
+            start = self.mCacheStart
+
         # Expand the rule up to the exclude date
         items = []
-        period = Period(self.mCacheStart.duplicate(), exclude)
-        self.expand(self.mCacheStart, period, items)
+        period = Period(start.duplicate(), exclude)
+        self.expand(start, period, items)
 
         # Adjust UNTIL or add one if no COUNT
         if self.getUseUntil() or not self.getUseCount():
-            # The last one is just less than the exclude date
-            if len(items) != 0:
-                # Now use the data as the UNTIL
-                self.mUseUntil = True
-                self.mUntil = items[-1]
+            # The last one is just less than the exclude date. If there is none, only the
+            # start is left.
+            until = (items[-1] if len(items) != 0 else start).duplicate()
+            if until.local():
+                # Always UTC
+                until.adjustToUTC()
+
+            # Now use the data as the UNTIL
+            self.mUseUntil = True
+            self.mUntil = until
 
         # Adjust COUNT
         elif self.getUseCount():
             # The last one is just less than the exclude date. The start is always counted
             # even when it is not one of the items.
-            if len(items) == 0 or items[0] != self.mCacheStart:
-                items.insert(0, self.mCacheStart)
+            if len(items) == 0 or items[0] != start:
+                items.insert(0, start)
             self.mUseCount = True
             self.mCount = len(items)
 
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 898c6f6..3dd893f 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -47,23 +47,23 @@ class RecurrenceSet(object):
 
     def equals(self, comp):
         # Look at RRULEs
-        if not self.equalsRules(self.mRrules, comp.self.mRrules):
+        if not self.equalsRules(self.mRrules, comp.mRrules):
             return False
 
         # Look at EXRULEs
-        if not self.equalsRules(self.mExrules, comp.self.mExrules):
+        if not self.equalsRules(self.mExrules, comp.mExrules):
             return False
 
         # Look at RDATEs
-        if not self.equalsDates(self.mRdates, comp.self.mRdates):
+        if not self.equalsDates(self.mRdates, comp.mRdates):
             return False
-        if not self.equalsPeriods(self.mRperiods, comp.self.mRperiods):
+        if not self.equalsPeriods(self.mRperiods, comp.mRperiods):
             return False
 
         # Look at EXDATEs
-        if not self.equalsDates(self.mExdates, comp.self.mExdates):
+        if not self.equalsDates(self.mExdates, comp.mExdates):
             return False
-        if not self.equalsPeriods(self.mExperiods, comp.self.mExperiods):
+        if not self.equalsPeriods(self.mExperiods, comp.mExperiods):
             return False
 
         # If we get here they match
@@ -111,7 +111,7 @@ class RecurrenceSet(object):
         dt1.sort(key=lambda x: x.getPosixTime())
         dt2.sort(key=lambda x: x.getPosixTime())
 
-        return dt1.equal(dt2)
+        return dt1 == dt2
 
     def equalsPeriods(self, periods1, periods2):
         # Check sizes first
@@ -127,7 +127,7 @@ class RecurrenceSet(object):
         p1.sort()
         p2.sort()
 
-        return p1.equal(p2)
+        return p1 == p2
 
     def addRule(self, rule):
         self.mRrules.append(rule)
@@ -236,16 +236,14 @@ class RecurrenceSet(object):
         for iter in self.mExrules:
             iter.clear()
 
-    def excludeFutureRecurrence(self, exclude):
+    def excludeFutureRecurrence(self, exclude, start=None):
         # Adjust RRULES to end before start
         for iter in self.mRrules:
-            iter.excludeFutureRecurrence(exclude)
+            iter.excludeFutureRecurrence(exclude, start)
 
         # Remove RDATES on or after start
-        self.mRdates.removeOnOrAfter(exclude)
-        for iter in self.mRperiods:
-            if iter > exclude:
-                self.mRperiods.remove(iter)
+        self.mRdates = [iter for iter in self.mRdates if iter < exclude]
+        self.mRperiods = [iter for iter in self.mRperiods if iter.getStart() < exclude]
 
     # UI operations
     def isSimpleUI(self):
@@ -258,7 +256,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isSimpleRule()
+            return self.mRrules[0].isSimpleRule()
         else:
             return True
 
@@ -270,7 +268,7 @@ class RecurrenceSet(object):
 
         # Also, check the rule iteself
         elif len(self.mRrules) == 1:
-            return self.mRrules.firstElement().isAdvancedRule()
+            return self.mRrules[0].isAdvancedRule()
         else:
             return True
 
@@ -289,7 +287,7 @@ class RecurrenceSet(object):
         if ((len(self.mRrules) == 1) and (len(self.mExrules) == 0) and (len(self.mRdates) == 0) and
                 (len(self.mExdates) == 0) and (len(self.mRperiods) == 0) and
                 (len(self.mExperiods) == 0)):
-            return self.mRrules.firstElement().getUIDescription()
+            return self.mRrules[0].getUIDescription()
 
         # Indicate some form of complex recurrence
         return "Multiple recurrence rules, dates or exclusions"
-- 
2.43.0


From 48ffd39fb0b1080173fb763ab7ad00438430689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 095/131] fix: cached values go away with the properties they
 came from, and status edits of to-dos

---
 src/pycalendar/icalendar/component.py      |  3 +--
 src/pycalendar/icalendar/componentrecur.py | 11 +++++------
 src/pycalendar/icalendar/vevent.py         |  3 ++-
 src/pycalendar/icalendar/vtodo.py          | 10 ++++++----
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/pycalendar/icalendar/component.py b/src/pycalendar/icalendar/component.py
index 9c96b3c..e901f02 100644
--- a/src/pycalendar/icalendar/component.py
+++ b/src/pycalendar/icalendar/component.py
@@ -178,8 +178,7 @@ class Component(ComponentBase):
 
         # Get SEQ
         temp = self.loadValueInteger(definitions.cICalProperty_SEQUENCE)
-        if temp is not None:
-            self.mSeq = temp
+        self.mSeq = temp if temp is not None else 0
 
         # Cache the original sequence when the component is read in.
         # This will be used to synchronise changes between two instances of the
diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index f509abc..284102e 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -242,14 +242,11 @@ class ComponentRecur(Component):
         self._loadTiming()
 
         # Get SUMMARY
-        temp = self.loadValueString(definitions.cICalProperty_SUMMARY)
-        if temp is not None:
-            self.mSummary = temp
+        self.mSummary = self.loadValueString(definitions.cICalProperty_SUMMARY)
 
         # Get RECURRENCE-ID
         self.mHasRecurrenceID = (self.countProperty(definitions.cICalProperty_RECURRENCE_ID) != 0)
-        if self.mHasRecurrenceID:
-            self.mRecurrenceID = self.loadValueDateTime(definitions.cICalProperty_RECURRENCE_ID)
+        self.mRecurrenceID = self.loadValueDateTime(definitions.cICalProperty_RECURRENCE_ID)
 
         # Update the map key
         if self.mHasRecurrenceID:
@@ -265,6 +262,8 @@ class ComponentRecur(Component):
                 self.mAdjustPrior = False
         else:
             self.mMapKey = self.mapKey(self.mUID)
+            self.mAdjustFuture = False
+            self.mAdjustPrior = False
 
         self._resetRecurrenceSet()
 
@@ -512,7 +511,7 @@ class ComponentRecur(Component):
     # Editing
     def editSummary(self, summary):
         # Updated cached value
-        self.mSummary = summary
+        self.mSummary = summary if summary else None
 
         # Remove existing items
         self.editProperty(definitions.cICalProperty_SUMMARY, summary)
diff --git a/src/pycalendar/icalendar/vevent.py b/src/pycalendar/icalendar/vevent.py
index 5dfd30e..9976101 100644
--- a/src/pycalendar/icalendar/vevent.py
+++ b/src/pycalendar/icalendar/vevent.py
@@ -83,6 +83,7 @@ class VEvent(ComponentRecur):
         # Do inherited
         super(VEvent, self).finalise()
 
+        self.mStatus = definitions.eStatus_VEvent_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
             if temp == definitions.cICalProperty_STATUS_TENTATIVE:
@@ -120,7 +121,7 @@ class VEvent(ComponentRecur):
                 self.removeProperties(definitions.cICalProperty_DTEND)
 
                 # Cached values may have come from the property just removed
-                self.finalise()
+                self._editedTiming()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index b930ec8..ed09b2d 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -229,6 +229,7 @@ class VToDo(ComponentRecur):
         self.mPriority = self.loadValueInteger(definitions.cICalProperty_PRIORITY)
 
         # Get STATUS
+        self.mStatus = definitions.eStatus_VToDo_None
         temp = self.loadValueString(definitions.cICalProperty_STATUS)
         if temp is not None:
             if temp == definitions.cICalProperty_STATUS_NEEDS_ACTION:
@@ -295,7 +296,7 @@ class VToDo(ComponentRecur):
                 self.removeProperties(definitions.cICalProperty_DURATION)
 
                 # Cached values may have come from the property just removed
-                self.finalise()
+                self._editedTiming()
                 fixed.append(logProblem)
             else:
                 unfixed.append(logProblem)
@@ -331,7 +332,7 @@ class VToDo(ComponentRecur):
             if status == definitions.eStatus_VToDo_Completed:
                 value = definitions.cICalProperty_STATUS_COMPLETED
                 # Add the completed item
-                self.mCompleted.setNowUTC()
+                self.mCompleted = DateTime.getNowUTC()
                 self.mHasCompleted = True
                 prop = Property(definitions.cICalProperty_STATUS_COMPLETED, self.mCompleted)
                 self.addProperty(prop)
@@ -339,8 +340,9 @@ class VToDo(ComponentRecur):
                 value = definitions.cICalProperty_STATUS_IN_PROCESS
             elif status == definitions.eStatus_VToDo_Cancelled:
                 value = definitions.cICalProperty_STATUS_CANCELLED
-            prop = Property(definitions.cICalProperty_STATUS, value)
-            self.addProperty(prop)
+            if value is not None:
+                prop = Property(definitions.cICalProperty_STATUS, value)
+                self.addProperty(prop)
 
     def editCompleted(self, completed):
         # Remove existing COMPLETED item
-- 
2.43.0


From efce00a3125e11b4cbf07a18ab63a30e8d55e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 096/131] fix: timing edits of free-busy components write what
 they cache

---
 src/pycalendar/icalendar/vfreebusy.py | 48 +++++++++++++++++----------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 35ad2b6..7e09e9a 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -75,6 +75,17 @@ class VFreeBusy(Component):
         # Do inherited
         super(VFreeBusy, self).finalise()
 
+        # Get DTSTART, DTEND and DURATION
+        self._loadTiming()
+
+    def _loadTiming(self):
+        """
+        Load the cached timing values from the properties.
+        """
+
+        # The busy time depends on these and on the other properties
+        self.mCachedBusyTime = False
+
         # Get DTSTART
         temp = self.loadValueDateTime(definitions.cICalProperty_DTSTART)
         self.mHasStart = temp is not None
@@ -84,6 +95,9 @@ class VFreeBusy(Component):
         # Get DTEND
         temp = self.loadValueDateTime(definitions.cICalProperty_DTEND)
         if temp is None:
+            self.mHasEnd = False
+            self.mDuration = False
+
             # Try DURATION instead
             temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
             if temp is not None:
@@ -142,19 +156,22 @@ class VFreeBusy(Component):
         self.mHasStart = False
         self.mHasEnd = False
         self.mDuration = False
+        self.mStart = self.mStart.duplicate()
         self.mStart.setToday()
-        self.mEnd.setToday()
+        self.mEnd = self.mStart.duplicate()
 
         # Remove existing DTSTART & DTEND & DURATION & DUE items
         self.removeProperties(definitions.cICalProperty_DTSTART)
         self.removeProperties(definitions.cICalProperty_DTEND)
         self.removeProperties(definitions.cICalProperty_DURATION)
 
+        self._loadTiming()
+
     def editTimingStartEnd(self, start, end):
         # Updated cached values
         self.mHasStart = self.mHasEnd = True
-        self.mStart = start
-        self.mEnd = end
+        self.mStart = start.duplicate()
+        self.mEnd = end.duplicate()
         self.mDuration = False
         self.fixStartEnd()
 
@@ -164,21 +181,19 @@ class VFreeBusy(Component):
         self.removeProperties(definitions.cICalProperty_DURATION)
 
         # Now create properties
-        prop = Property(definitions.cICalProperty_DTSTART, start)
+        prop = Property(definitions.cICalProperty_DTSTART, start.duplicate())
+        self.addProperty(prop)
+
+        prop = Property(definitions.cICalProperty_DTEND, self.mEnd.duplicate())
         self.addProperty(prop)
 
-        # If its an all day event and the end one day after the start, ignore it
-        temp = start.duplicate()
-        temp.offsetDay(1)
-        if not start.isDateOnly() or end != temp:
-            prop = Property(definitions.cICalProperty_DTEND, end)
-            self.addProperty(prop)
+        self._loadTiming()
 
     def editTimingStartDuration(self, start, duration):
         # Updated cached values
         self.mHasStart = True
         self.mHasEnd = False
-        self.mStart = start
+        self.mStart = start.duplicate()
         self.mEnd = start + duration
         self.mDuration = True
 
@@ -189,14 +204,13 @@ class VFreeBusy(Component):
         self.removeProperties(definitions.cICalProperty_DUE)
 
         # Now create properties
-        prop = Property(definitions.cICalProperty_DTSTART, start)
+        prop = Property(definitions.cICalProperty_DTSTART, start.duplicate())
+        self.addProperty(prop)
+
+        prop = Property(definitions.cICalProperty_DURATION, duration.duplicate())
         self.addProperty(prop)
 
-        # If its an all day event and the duration is one day, ignore it
-        if (not start.isDateOnly() or (duration.getWeeks() != 0) or
-                (duration.getDays() > 1)):
-            prop = Property(definitions.cICalProperty_DURATION, duration)
-            self.addProperty(prop)
+        self._loadTiming()
 
     # Generating info
     def expandPeriodComp(self, period, list):
-- 
2.43.0


From 88c04d5a70cb1e590c33819fe9ebc3f2f224b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 097/131] fix: renaming a calendar

---
 src/pycalendar/icalendar/calendar.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index 24fb466..f5787b0 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -107,7 +107,7 @@ class Calendar(ContainerBase):
 
             # Now create properties
             if len(name):
-                self.ddProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
+                self.addProperty(Property(definitions.cICalProperty_XWRCALNAME, name))
 
     def getDescription(self):
         return self.mDescription
@@ -166,13 +166,11 @@ class Calendar(ContainerBase):
 
         # Get X-WR-CALNAME
         temps = self.loadValueString(definitions.cICalProperty_XWRCALNAME)
-        if temps is not None:
-            self.mName = temps
+        self.mName = temps if temps is not None else ""
 
         # Get X-WR-CALDESC
         temps = self.loadValueString(definitions.cICalProperty_XWRCALDESC)
-        if temps is not None:
-            self.mDescription = temps
+        self.mDescription = temps if temps is not None else ""
 
     def sortedComponentNames(self):
         return (
-- 
2.43.0


From 068a4e97c01260f9b91547bc3065e34c9f1fbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 098/131] fix: alarm actions without some of their details

---
 src/pycalendar/icalendar/valarm.py | 31 +++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 8162862..9932426 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -99,14 +99,15 @@ class VAlarm(Component):
             # Delete existing then add
             self.remove(valarm)
 
-            prop = Property(definitions.cICalProperty_ACTION_X_SPEAKTEXT, self.mSpeakText)
-            valarm.addProperty(prop)
+            if self.mSpeakText is not None:
+                prop = Property(definitions.cICalProperty_ACTION_X_SPEAKTEXT, self.mSpeakText)
+                valarm.addProperty(prop)
 
         def remove(self, valarm):
             valarm.removeProperties(definitions.cICalProperty_ACTION_X_SPEAKTEXT)
 
         def isSpeakText(self):
-            return len(self.mSpeakText) != 0
+            return bool(self.mSpeakText)
 
         def getSpeakText(self):
             return self.mSpeakText
@@ -143,8 +144,9 @@ class VAlarm(Component):
             # Delete existing then add
             self.remove(valarm)
 
-            prop = Property(definitions.cICalProperty_DESCRIPTION, self.mDescription)
-            valarm.addProperty(prop)
+            if self.mDescription is not None:
+                prop = Property(definitions.cICalProperty_DESCRIPTION, self.mDescription)
+                valarm.addProperty(prop)
 
         def remove(self, valarm):
             valarm.removeProperties(definitions.cICalProperty_DESCRIPTION)
@@ -181,7 +183,7 @@ class VAlarm(Component):
             self.mAttendees = attendees
 
         def duplicate(self):
-            return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, self.mAttendees)
+            return VAlarm.VAlarmEmail(self.mDescription, self.mSummary, self.mAttendees[:] if self.mAttendees is not None else None)
 
         def load(self, valarm):
             # Get properties
@@ -202,13 +204,15 @@ class VAlarm(Component):
             # Delete existing then add
             self.remove(valarm)
 
-            prop = Property(definitions.cICalProperty_DESCRIPTION, self.mDescription)
-            valarm.addProperty(prop)
+            if self.mDescription is not None:
+                prop = Property(definitions.cICalProperty_DESCRIPTION, self.mDescription)
+                valarm.addProperty(prop)
 
-            prop = Property(definitions.cICalProperty_SUMMARY, self.mSummary)
-            valarm.addProperty(prop)
+            if self.mSummary is not None:
+                prop = Property(definitions.cICalProperty_SUMMARY, self.mSummary)
+                valarm.addProperty(prop)
 
-            for iter in self.mAttendees:
+            for iter in self.mAttendees or ():
                 prop = Property(definitions.cICalProperty_ATTENDEE, iter, Value.VALUETYPE_CALADDRESS)
                 valarm.addProperty(prop)
 
@@ -274,8 +278,9 @@ class VAlarm(Component):
             # Delete existing then add
             self.remove(valarm)
 
-            prop = Property(definitions.cICalProperty_URL, self.mURI)
-            valarm.addProperty(prop)
+            if self.mURI is not None:
+                prop = Property(definitions.cICalProperty_URL, self.mURI)
+                valarm.addProperty(prop)
 
         def remove(self, valarm):
             valarm.removeProperties(definitions.cICalProperty_URL)
-- 
2.43.0


From 1b2ad4266ab81caabd3a47043ebfc32cbd142d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 099/131] fix: alarm edits and what alarms cache

---
 src/pycalendar/icalendar/valarm.py | 45 ++++++++++++++++++------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 9932426..296a1ee 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -424,6 +424,9 @@ class VAlarm(Component):
         if temp is not None:
             self.mAction = VAlarm.sActionMap.get(temp.upper(), definitions.eAction_VAlarm_Unknown)
             self.loadAction()
+        else:
+            self.mAction = definitions.eAction_VAlarm_Display
+            self.mActionData = VAlarm.VAlarmDisplay("")
 
         # Get the trigger
         if self.hasProperty(definitions.cICalProperty_TRIGGER):
@@ -441,27 +444,28 @@ class VAlarm(Component):
                 prop = self.findFirstProperty(definitions.cICalProperty_TRIGGER)
 
                 # Look for RELATED parameter
+                self.mTriggerOnStart = True
                 if prop.hasParameter(definitions.cICalParameter_RELATED):
                     temp = prop.getParameterValue(definitions.cICalParameter_RELATED)
-                    if temp == definitions.cICalParameter_RELATED_START:
-                        self.mTriggerOnStart = True
-                    elif temp == definitions.cICalParameter_RELATED_END:
+                    if temp.upper() == definitions.cICalParameter_RELATED_END:
                         self.mTriggerOnStart = False
-                else:
-                    self.mTriggerOnStart = True
+        else:
+            # One hour after the start by default
+            self.mTriggerAbsolute = False
+            self.mTriggerOnStart = True
+            self.mTriggerBy = Duration(duration=60 * 60)
 
         # Get repeat & interval
         temp = self.loadValueInteger(definitions.cICalProperty_REPEAT)
-        if temp is not None:
-            self.mRepeats = temp
+        self.mRepeats = temp if temp is not None else 0
         temp = self.loadValueDuration(definitions.cICalProperty_DURATION)
-        if temp is not None:
-            self.mRepeatInterval = temp
+        self.mRepeatInterval = temp if temp is not None else Duration(duration=5 * 60)
 
         # Set a map key for sorting
-        self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
+        self._setMapKey()
 
         # Alarm status - private to Mulberry
+        self.mAlarmStatus = definitions.eAlarm_Status_Pending
         status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
         if status is not None:
             if status == definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING:
@@ -475,8 +479,10 @@ class VAlarm(Component):
 
         # Last trigger time - private to Mulberry
         temp = self.loadValueDateTime(definitions.cICalProperty_ALARM_X_LASTTRIGGER)
-        if temp is not None:
-            self.mLastTrigger = temp
+        self.mLastTrigger = temp if temp is not None else DateTime()
+
+    def _setMapKey(self):
+        self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
 
     def validate(self, doFix=False):
         """
@@ -539,6 +545,7 @@ class VAlarm(Component):
         self.addProperty(prop)
 
         self.mActionData.add(self)
+        self._setMapKey()
 
     def editTriggerOn(self, dt):
         # Remove existing
@@ -546,11 +553,12 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mTriggerAbsolute = True
-        self.mTriggerOn = dt
+        self.mTriggerOn = dt.duplicate()
 
         # Add new
-        prop = Property(definitions.cICalProperty_TRIGGER, dt)
+        prop = Property(definitions.cICalProperty_TRIGGER, self.mTriggerOn)
         self.addProperty(prop)
+        self._setMapKey()
 
     def editTriggerBy(self, duration, trigger_start):
         # Remove existing
@@ -558,11 +566,11 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mTriggerAbsolute = False
-        self.mTriggerBy = duration
+        self.mTriggerBy = duration.duplicate()
         self.mTriggerOnStart = trigger_start
 
         # Add new (with parameter)
-        prop = Property(definitions.cICalProperty_TRIGGER, duration)
+        prop = Property(definitions.cICalProperty_TRIGGER, self.mTriggerBy)
         attr = Parameter(
             definitions.cICalParameter_RELATED,
             (
@@ -572,6 +580,7 @@ class VAlarm(Component):
         )
         prop.addParameter(attr)
         self.addProperty(prop)
+        self._setMapKey()
 
     def editRepeats(self, repeat, interval):
         # Remove existing
@@ -580,12 +589,12 @@ class VAlarm(Component):
 
         # Updated cached values
         self.mRepeats = repeat
-        self.mRepeatInterval = interval
+        self.mRepeatInterval = interval.duplicate()
 
         # Add new
         if self.mRepeats > 0:
             self.addProperty(Property(definitions.cICalProperty_REPEAT, repeat))
-            self.addProperty(Property(definitions.cICalProperty_DURATION, interval))
+            self.addProperty(Property(definitions.cICalProperty_DURATION, self.mRepeatInterval))
 
     def getAlarmStatus(self):
         return self.mAlarmStatus
-- 
2.43.0


From e6826b7334a9432f35d5177052a836e136da608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 100/131] fix: alarm triggers

---
 src/pycalendar/icalendar/componentrecur.py |  4 ++++
 src/pycalendar/icalendar/valarm.py         | 28 ++++++++++++++++------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/pycalendar/icalendar/componentrecur.py b/src/pycalendar/icalendar/componentrecur.py
index 284102e..ecdf4ca 100644
--- a/src/pycalendar/icalendar/componentrecur.py
+++ b/src/pycalendar/icalendar/componentrecur.py
@@ -300,6 +300,10 @@ class ComponentRecur(Component):
             self.mEnd = temp
             self.mDuration = False
 
+        # Alarms depend on these
+        for alarm in self.getComponents(definitions.cICalComponent_VALARM):
+            alarm.changed()
+
     def _editedTiming(self):
         """
         Timing properties were edited, so update the values cached from them.
diff --git a/src/pycalendar/icalendar/valarm.py b/src/pycalendar/icalendar/valarm.py
index 296a1ee..c4907bd 100644
--- a/src/pycalendar/icalendar/valarm.py
+++ b/src/pycalendar/icalendar/valarm.py
@@ -407,6 +407,7 @@ class VAlarm(Component):
     def changed(self):
         # Always force recalc of trigger status
         self.mStatusInit = False
+        self._loadStatus()
 
         # Changed in calendar so change in calendar notifier
         # calstore::CCalendarNotifier::sCalendarNotifier.ChangedAlarm(this)
@@ -464,6 +465,14 @@ class VAlarm(Component):
         # Set a map key for sorting
         self._setMapKey()
 
+        # Next trigger depends on all of the above
+        self.changed()
+
+        # Last trigger time - private to Mulberry
+        temp = self.loadValueDateTime(definitions.cICalProperty_ALARM_X_LASTTRIGGER)
+        self.mLastTrigger = temp if temp is not None else DateTime()
+
+    def _loadStatus(self):
         # Alarm status - private to Mulberry
         self.mAlarmStatus = definitions.eAlarm_Status_Pending
         status = self.loadValueString(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
@@ -477,10 +486,6 @@ class VAlarm(Component):
             else:
                 self.mAlarmStatus = definitions.eAlarm_Status_Pending
 
-        # Last trigger time - private to Mulberry
-        temp = self.loadValueDateTime(definitions.cICalProperty_ALARM_X_LASTTRIGGER)
-        self.mLastTrigger = temp if temp is not None else DateTime()
-
     def _setMapKey(self):
         self.mMapKey = "%s:%s" % (self.mAction, self.mTriggerOn if self.mTriggerAbsolute else self.mTriggerBy,)
 
@@ -527,6 +532,7 @@ class VAlarm(Component):
         elif self.mAlarmStatus == definitions.eAlarm_Status_Disabled:
             status_txt = definitions.cICalProperty_ALARM_X_ALARMSTATUS_DISABLED
         self.addProperty(Property(definitions.cICalProperty_ALARM_X_ALARMSTATUS, status_txt))
+        self.changed()
 
     def editAction(self, action, data):
         # Remove existing
@@ -559,6 +565,7 @@ class VAlarm(Component):
         prop = Property(definitions.cICalProperty_TRIGGER, self.mTriggerOn)
         self.addProperty(prop)
         self._setMapKey()
+        self.changed()
 
     def editTriggerBy(self, duration, trigger_start):
         # Remove existing
@@ -581,6 +588,7 @@ class VAlarm(Component):
         prop.addParameter(attr)
         self.addProperty(prop)
         self._setMapKey()
+        self.changed()
 
     def editRepeats(self, repeat, interval):
         # Remove existing
@@ -595,6 +603,7 @@ class VAlarm(Component):
         if self.mRepeats > 0:
             self.addProperty(Property(definitions.cICalProperty_REPEAT, repeat))
             self.addProperty(Property(definitions.cICalProperty_DURATION, self.mRepeatInterval))
+        self.changed()
 
     def getAlarmStatus(self):
         return self.mAlarmStatus
@@ -610,7 +619,7 @@ class VAlarm(Component):
         self.removeProperties(definitions.cICalProperty_ALARM_X_ALARMSTATUS)
 
         # Updated cached values
-        self.mLastTrigger.copy(dt)
+        self.mLastTrigger = dt.duplicate()
 
         if self.mDoneCount < self.mRepeats:
             self.mNextTrigger = self.mLastTrigger + self.mRepeatInterval
@@ -621,7 +630,7 @@ class VAlarm(Component):
             self.mAlarmStatus = definitions.eAlarm_Status_Completed
 
         # Add new
-        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, dt))
+        self.addProperty(Property(definitions.cICalProperty_ALARM_X_LASTTRIGGER, self.mLastTrigger))
         status = ""
         if self.mAlarmStatus == definitions.eAlarm_Status_Pending:
             status = definitions.cICalProperty_ALARM_X_ALARMSTATUS_PENDING
@@ -682,11 +691,16 @@ class VAlarm(Component):
             dt.copy(self.getTriggerOn())
         else:
             # Get the parent embedder class (must be CICalendarComponentRecur type)
-            owner = self.getEmbedder()
+            owner = self.getParentComponent()
             if owner is not None:
                 # Determine time at which alarm will trigger
                 trigger = (owner.getStart(), owner.getEnd())[not self.isTriggerOnStart()]
 
+                # That of an all-day item is relative to the start of the day
+                if trigger.isDateOnly():
+                    trigger = trigger.duplicate()
+                    trigger.setDateOnly(False)
+
                 # Offset by duration
                 dt.copy(trigger + self.getTriggerDuration())
 
-- 
2.43.0


From 0525b04845ebdd1344cb07f809e426a296df7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 101/131] fix: free-busy of calendars

---
 src/pycalendar/icalendar/calendar.py  | 57 +++++++++++----------------
 src/pycalendar/icalendar/vfreebusy.py | 10 ++++-
 2 files changed, 32 insertions(+), 35 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index f5787b0..d13da84 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -525,19 +525,15 @@ class Calendar(ContainerBase):
     def getVFreeBusyList(self, period, list):
         # Look at each VFreeBusy
         for vfreebusy in self.getComponents(definitions.cICalComponent_VFREEBUSY):
-            vfreebusy.expandPeriod(period, list)
+            vfreebusy.expandPeriodComp(period, list)
 
     def getVFreeBusyFB(self, period, fb):
         # First create expanded set
-        # TODO: fix this
-        # list = ExpandedComponents()
+        list = []
         self.getVEvents(period, list)
-        if len(list) == 0:
-            return
 
-        # Get start/end list for each non-all-day expanded components
-        dtstart = []
-        dtend = []
+        # Get period for each non-all-day expanded components
+        periods = []
         for dt in list:
 
             # Ignore if all-day
@@ -545,39 +541,38 @@ class Calendar(ContainerBase):
                 continue
 
             # Ignore if transparent to free-busy
-            transp = ""
-            if dt.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
+            transp = dt.getOwner().loadValueString(definitions.cICalProperty_TRANSP)
+            if transp is not None and transp.upper() == definitions.cICalProperty_TRANSPARENT:
                 continue
 
-            # Add start/end to list
-            dtstart.append(dt.getInstanceStart())
-            dtend.append(dt.getInstanceEnd())
+            # Cancelled => does not contribute to busy time
+            if dt.getMaster().getStatus() == definitions.eStatus_VEvent_Cancelled:
+                continue
 
-        # No longer need the expanded items
-        list.clear()
+            # Add start/end to list, always in UTC
+            periods.append(Period(dt.getInstanceStart().duplicateAsUTC(), dt.getInstanceEnd().duplicateAsUTC()))
+
+        if len(periods) == 0:
+            return
 
         # Create non-overlapping periods as properties in the freebusy component
-        temp = Period(dtstart.front(), dtend.front())
-        dtstart_iter = dtstart.iter()
-        dtstart_iter.next()
-        dtend_iter = dtend.iter()
-        dtend_iter.next()
-        for _ignore in (None,):
+        temp = periods[0]
+        for next in periods[1:]:
 
             # Check for non-overlap
-            if dtstart_iter > temp.getEnd():
+            if next.getStart() > temp.getEnd():
 
                 # Current period is complete
                 fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
 
                 # Reset period to new range
-                temp = Period(dtstart_iter, dtend_iter)
+                temp = next
 
             # They overlap - check for extended end
-            if dtend_iter > temp.getEnd():
+            elif next.getEnd() > temp.getEnd():
 
                 # Extend the end
-                temp = Period(temp.getStart(), dtend_iter)
+                temp = Period(temp.getStart(), next.getEnd())
 
         # Add remaining period as property
         fb.addProperty(Property(definitions.cICalProperty_FREEBUSY, temp))
@@ -596,8 +591,8 @@ class Calendar(ContainerBase):
                 continue
 
             # Ignore if transparent to free-busy
-            transp = ""
-            if comp.getOwner().getProperty(definitions.cICalProperty_TRANSP, transp) and (transp == definitions.cICalProperty_TRANSPARENT):
+            transp = comp.getOwner().loadValueString(definitions.cICalProperty_TRANSP)
+            if transp is not None and transp.upper() == definitions.cICalProperty_TRANSPARENT:
                 continue
 
             # Add free busy item to list
@@ -606,23 +601,19 @@ class Calendar(ContainerBase):
                 fb.append(FreeBusy(FreeBusy.BUSY, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
             elif status == definitions.eStatus_VEvent_Tentative:
                 fb.append(FreeBusy(FreeBusy.BUSYTENTATIVE, Period(comp.getInstanceStart(), comp.getInstanceEnd())))
-                break
             elif status == definitions.eStatus_VEvent_Cancelled:
                 # Cancelled => does not contribute to busy time
                 pass
 
         # Now get the VFREEBUSY info
         list2 = []
-        self.getVFreeBusy(period, list2)
+        self.getVFreeBusyList(period, list2)
 
         # Get start/end list for each free-busy
         for comp in list2:
 
             # Expand component and add free busy info to list
-            comp.expandPeriod(period, fb)
-
-        # Add remaining period as property
-        FreeBusy.resolveOverlaps(fb)
+            comp.expandPeriodFB(period, fb)
 
     def getTimezoneOffsetSeconds(self, tzid, dt, relative_to_utc=False):
         # Find timezone that matches the name (which is the same as the map key)
diff --git a/src/pycalendar/icalendar/vfreebusy.py b/src/pycalendar/icalendar/vfreebusy.py
index 7e09e9a..2ed66b6 100644
--- a/src/pycalendar/icalendar/vfreebusy.py
+++ b/src/pycalendar/icalendar/vfreebusy.py
@@ -230,7 +230,7 @@ class VFreeBusy(Component):
         # See if period intersects the busy time span range
         if (self.mBusyTime is not None) and period.isPeriodOverlap(self.mSpanPeriod):
             for fb in self.mBusyTime:
-                list.append(FreeBusy(fb))
+                list.append(fb.duplicate())
 
     def cacheBusyTime(self):
 
@@ -265,11 +265,17 @@ class VFreeBusy(Component):
                     is_busy = True
                     type = FreeBusy.BUSYTENTATIVE
 
-                else:
+                elif fbyype.upper() == definitions.cICalParameter_FBTYPE_FREE:
 
                     is_busy = False
                     type = FreeBusy.FREE
 
+                else:
+
+                    # Anything not recognised is busy
+                    is_busy = True
+                    type = FreeBusy.BUSY
+
             else:
 
                 # Default is busy when no parameter
-- 
2.43.0


From b7265edd47738005a6b6c2b22ea3f4bfb51d82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 102/131] fix: tz source times and days

---
 src/zonal/rule.py  | 76 +++++++++++++++++++--------------------------
 src/zonal/utils.py | 22 +++++++++++++
 src/zonal/zone.py  | 77 +++++++++-------------------------------------
 3 files changed, 68 insertions(+), 107 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index fea727f..86e6d99 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -244,17 +244,7 @@ class Rule(object):
 
         @return: C{int}
         """
-        splits = self.saveTime.split(":")
-        hours = int(splits[0])
-        if len(splits) == 2:
-            minutes = int(splits[1])
-        else:
-            minutes = 0
-        negative = hours < 0
-        if negative:
-            return -((-hours * 60) + minutes) * 60
-        else:
-            return ((hours * 60) + minutes) * 60
+        return utils.parseTime(self.saveTime)[0]
 
     def startYear(self):
         return int(self.fromYear)
@@ -285,43 +275,41 @@ class Rule(object):
         dt.setMonth(Rule.MONTH_NAME_TO_POS[self.inMonth])
         dt.setDay(1)
 
-        # Setup base hours/minutes
-        splits = self.atTime.split(":")
-        if len(splits) == 1:
-            splits.append("0")
-        assert len(splits) == 2, "atTime format is wrong: %s, %s" % (self.atTime, self,)
-        hours = int(splits[0])
-        if len(splits[1]) > 2:
-            minutes = int(splits[1][:2])
-            special = splits[1][2:]
-        else:
-            minutes = int(splits[1])
-            special = ""
-
-        # Special case for 24:00
-        if hours == 24 and minutes == 0:
-            dt.setHours(23)
-            dt.setMinutes(59)
-            dt.setSeconds(59)
-        else:
-            dt.setHours(hours)
-            dt.setMinutes(minutes)
-
         # Now determine the actual start day
-        if self.onDay in Rule.LASTDAY_NAME_TO_DAY:
-            dt.setDayOfWeekInMonth(-1, Rule.LASTDAY_NAME_TO_DAY[self.onDay])
-        elif self.onDay.find(">=") != -1:
-            splits = self.onDay.split(">=")
-            dt.setNextDayOfWeek(int(splits[1]), Rule.DAY_NAME_TO_DAY[splits[0]])
-        else:
-            try:
-                day = int(self.onDay)
-                dt.setDay(day)
-            except:
-                assert False, "onDay value is not recognized: %s" % (self.onDay,)
+        Rule.setOnDay(dt, self.onDay)
+
+        # Add the time of day - this may be on a different day (e.g. 24:00)
+        seconds, special = utils.parseTime(self.atTime)
+        dt.offsetSeconds(seconds)
 
         return dt, special
 
+    @staticmethod
+    def setOnDay(dt, onDay):
+        """
+        Set the day in a date-time from the tzdata "on" form of a day: a day of the month, the last
+        of a weekday in the month, or the first (last) of a weekday on or after (before) a day.
+
+        @param dt: the date-time to set, already in the right year and month
+        @type dt: L{DateTime}
+        @param onDay: the day
+        @type onDay: C{str}
+        """
+        if onDay in Rule.LASTDAY_NAME_TO_DAY:
+            dt.setDayOfWeekInMonth(-1, Rule.LASTDAY_NAME_TO_DAY[onDay])
+        elif onDay[3:5] in (">=", "<=",):
+            weekday = Rule.DAY_NAME_TO_DAY[onDay[:3]]
+            dt.setDay(int(onDay[5:]))
+            if onDay[3:5] == ">=":
+                dt.offsetDay((weekday - dt.getDayOfWeek()) % 7)
+            else:
+                dt.offsetDay(-((dt.getDayOfWeek() - weekday) % 7))
+        else:
+            try:
+                dt.setDay(int(onDay))
+            except ValueError:
+                assert False, "onDay value is not recognized: %s" % (onDay,)
+
     def getOnDayDetails(self, start, indicatedDay, indicatedOffset):
         """
         Get RRULE BYxxx part items from the Rule data.
diff --git a/src/zonal/utils.py b/src/zonal/utils.py
index dc074e9..b1a42a8 100644
--- a/src/zonal/utils.py
+++ b/src/zonal/utils.py
@@ -15,6 +15,28 @@
 ##
 
 
+def parseTime(text):
+    """
+    Parse a tzdata time of day or amount of time: hours, with optional minutes and seconds, an optional
+    sign, and an optional suffix. A lone "-" is zero.
+
+    @param text: the text to parse
+    @type text: C{str}
+
+    @return: C{tuple} of C{int} and C{str} (the seconds, and the mode: "" for wall clock, "s" for
+        standard or "u" for UTC)
+    """
+    mode = ""
+    if text[-1:] in ("w", "s", "u", "g", "z",):
+        mode = {"w": "", "s": "s"}.get(text[-1], "u")
+        text = text[:-1]
+    negative = text.startswith("-")
+    splits = [int(item) for item in text.lstrip("+-").split(":") if item]
+    assert len(splits) <= 3, "time format is wrong: %s" % (text,)
+    seconds = sum([item * unit for item, unit in zip(splits, (3600, 60, 1,))])
+    return -seconds if negative else seconds, mode
+
+
 class DateTime(object):
     """
     A date-time object that wraps the tzdb wall-clock/utc style date-time information
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 53275bd..4e85d20 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -352,69 +352,26 @@ class ZoneRule(object):
     def getUntilDate(self):
 
         if self._cached_until is None:
-            year = 9999
-            month = 12
-            day = 1
-            hours = 0
-            minutes = 0
-            seconds = 0
+            dt = DateTime(year=9999, month=12, day=1, hours=0, minutes=0, seconds=0)
             mode = None
-            if self.until and not self.until.startswith("#"):
-                splits = self.until.split(" ")
-                year = int(splits[0])
-                month = 1
-                day = 1
-                hours = 0
-                minutes = 0
-                seconds = 0
-                mode = None
-                if len(splits) > 1 and not splits[1].startswith("#"):
-                    month = int(rule.Rule.MONTH_NAME_TO_POS[splits[1]])
-                    if len(splits) > 2 and not splits[2].startswith("#"):
-                        if splits[2] == "lastSun":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setDayOfWeekInMonth(-1, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "lastSat":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setDayOfWeekInMonth(-1, DateTime.SATURDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "Sun>=1":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setNextDayOfWeek(1, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        elif splits[2] == "Sun>=8":
-                            dt = DateTime(year=year, month=month, day=1)
-                            dt.setNextDayOfWeek(8, DateTime.SUNDAY)
-                            splits[2] = dt.getDay()
-                        day = int(splits[2])
-                        if len(splits) > 3 and not splits[3].startswith("#"):
-                            splits = splits[3].split(":")
-                            hours = int(splits[0])
-                            minutes = int(splits[1][:2])
-                            if len(splits[1]) > 2:
-                                mode = splits[1][2:]
-                            else:
-                                mode = None
-                            if len(splits) > 2:
-                                seconds = int(splits[2])
-
-            dt = DateTime(year=year, month=month, day=day, hours=hours, minutes=minutes, seconds=seconds)
+            splits = self.until.split("#")[0].split() if self.until else ()
+            if splits:
+                dt = DateTime(year=int(splits[0]), month=1, day=1, hours=0, minutes=0, seconds=0)
+                if len(splits) > 1:
+                    dt.setMonth(rule.Rule.MONTH_NAME_TO_POS[splits[1]])
+                if len(splits) > 2:
+                    rule.Rule.setOnDay(dt, splits[2])
+                if len(splits) > 3:
+                    seconds, mode = utils.parseTime(splits[3])
+                    dt.offsetSeconds(seconds)
+
             self._cached_until = utils.DateTime(dt, mode)
         return self._cached_until
 
     def getUTCOffset(self):
 
         if self._cached_utc_offset is None:
-            splits = self.gmtoff.split(":")
-
-            hours = int(splits[0] if splits[0][0] != "-" else splits[0][1:])
-            minutes = int(splits[1]) if len(splits) > 1 else 0
-            seconds = int(splits[2]) if len(splits) > 2 else 0
-            negative = splits[0][0] == "-"
-            self._cached_utc_offset = ((hours * 60) + minutes) * 60 + seconds
-            if negative:
-                self._cached_utc_offset = -1 * self._cached_utc_offset
+            self._cached_utc_offset = utils.parseTime(self.gmtoff)[0]
         return self._cached_utc_offset
 
     def expand(self, rules, results, lastUntilUTC, lastOffset, lastStdOffset, maxYear):
@@ -481,13 +438,7 @@ class ZoneRule(object):
             return False
 
     def getNumericOffset(self):
-        offset = 0
-        if self.rule != "-":
-            splits = self.rule.split(":")
-            offset = 60 * 60 * int(splits[0])
-            if len(splits) > 1:
-                offset += 60 * int(splits[1])
-        return offset
+        return utils.parseTime(self.rule)[0]
 
     def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto):
 
-- 
2.43.0


From 0767b04ee8dfcd9a9c5fdc0ee0329f4525c22590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 103/131] fix: zone expansion

---
 src/zonal/rule.py |  6 +++--
 src/zonal/zone.py | 58 +++++++++++++++++++----------------------------
 2 files changed, 27 insertions(+), 37 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 86e6d99..28d8660 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -176,6 +176,7 @@ class Rule(object):
         self.letter = ""
 
         self.dt_cache = None
+        self.dt_cache_max = None
 
     def __str__(self):
         return self.generate()
@@ -405,12 +406,13 @@ class Rule(object):
         @param maxYear: maximum year to expand to
         @type maxYear: C{int}
         """
-        if self.dt_cache is None:
+        if self.dt_cache is None or self.dt_cache_max != maxYear:
             start = self.startYear()
             end = self.endYear()
-            if end > maxYear:
+            if end >= maxYear:
                 end = maxYear - 1
             self.dt_cache = []
+            self.dt_cache_max = maxYear
             for year in xrange(start, end + 1):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index 4e85d20..d52b0ff 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -143,31 +143,29 @@ class Zone(object):
 
             # We typically don't care about the initial one
             if first and len(self.rules) > 1:
-                transitions = []
-                first = False
+                del transitions[0]
+            first = False
 
         # Sort the results by date
         transitions.sort(cmp=lambda x, y: x[0].compareDateTime(y[0]))
 
         # Now scan transitions looking for real changes and note those
         results = []
-        last_transition = (startdt, start_offset, start_offset)
-        for transition in transitions:
-            dtutc, to_offset, zonerule, rule = transition
+        last_transition = (startdt, start_offset)
+        for dtutc, to_offset, zonerule, tzrule in transitions:
             dt = dtutc.duplicate()
             dt.offsetSeconds(last_transition[1])
 
-            if dtutc.getYear() >= minYear:
-                if dt > last_transition[0]:
-                    results.append((dt, last_transition[1], to_offset, zonerule, rule))
-                elif dt <= last_transition[0]:
-                    if len(results):
-                        results[-1] = ((results[-1][0], results[-1][1], to_offset, zonerule, None))
-                    else:
-                        results.append((last_transition[0], last_transition[1], last_transition[2], zonerule, None))
-            last_transition = (dt, to_offset, last_transition[2], rule)
+            if dt > last_transition[0] or not results:
+                results.append((dtutc, dt, last_transition[1], to_offset, zonerule, tzrule))
+            else:
+                # Two changes at one local time are one change
+                results[-1] = results[-1][:3] + (to_offset, zonerule, None)
+            last_transition = (dt, to_offset)
 
-        return results
+        # Only want those from the first year, or the one in effect then if there are no others
+        wanted = [item[1:] for item in results if item[0].getYear() >= minYear]
+        return wanted if wanted else [item[1:] for item in results[-1:]]
 
     def vtimezone(self, calendar, rules, minYear, maxYear):
         """
@@ -240,13 +238,12 @@ class Zone(object):
 
         for dt, offsetfrom, offsetto, zonerule, tzrule in transitions:
 
-            # Check for change of rule - we ignore LMT's
-            if zonerule.format != "LMT":
-                if lastZoneRule and lastZoneRule != zonerule:
-                    _generateRuleData()
-                if tzrule not in ruleorder:
-                    ruleorder.append(tzrule)
-                rulemap.setdefault(tzrule, []).append((dt, offsetfrom, offsetto,))
+            # Check for change of rule
+            if lastZoneRule and lastZoneRule != zonerule:
+                _generateRuleData()
+            if tzrule not in ruleorder:
+                ruleorder.append(tzrule)
+            rulemap.setdefault(tzrule, []).append((dt, offsetfrom, offsetto,))
             lastZoneRule = zonerule
 
         # Do left overs
@@ -389,22 +386,16 @@ class ZoneRule(object):
             # Sort the results by date
             tempresults.sort(cmp=lambda x, y: x[0].compareDateTime(y[0]))
 
-            found_one = False
+            # Standard time is in effect until the first of the rules
             found_start = False
-            last_offset = lastOffset
-            last_stdoffset = lastStdOffset
-            last_tzrule = None
+            last_offset = last_stdoffset = self.getUTCOffset()
             finalUntil = self.getUntilDate()
             for dt, to_offset, tzrule in tempresults:
                 dtutc = dt.getUTC(last_offset, last_stdoffset)
                 if dtutc >= lastUntilUTC:
                     if not found_start and dtutc != lastUntilUTC:
                         # Insert a start item
-                        if not found_one:
-                            last_offset = self.getUTCOffset()
-                            last_stdoffset = self.getUTCOffset()
-                            dtutc = dt.getUTC(last_offset, last_stdoffset)
-                        results.append((lastUntilUTC, last_offset, self, last_tzrule))
+                        results.append((lastUntilUTC, last_offset, self, None))
                     found_start = True
 
                     if dtutc >= finalUntil.getUTC(last_offset, last_stdoffset):
@@ -413,11 +404,8 @@ class ZoneRule(object):
                     results.append((dtutc, to_offset, self, tzrule))
 
                 last_offset = to_offset
-                last_stdoffset = self.getUTCOffset()
-                last_tzrule = tzrule
-                found_one = True
 
-            if found_start == 0:
+            if not found_start:
                 results.append((lastUntilUTC, last_offset, self, None))
 
             return last_offset, last_stdoffset
-- 
2.43.0


From d2a8db567f85550d007125b0375d24717d68c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 104/131] fix: time zone names, and eras' starts

---
 src/zonal/rule.py |  14 ++----
 src/zonal/zone.py | 119 ++++++++++++++++++++++++++++------------------
 2 files changed, 78 insertions(+), 55 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index 28d8660..c481d81 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -417,7 +417,7 @@ class Rule(object):
                 dt = utils.DateTime(*self.datetimeForYear(year))
                 self.dt_cache.append(dt)
 
-    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount):
+    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto, instanceCount, last):
         """
         Generate a VTIMEZONE sub-component for this Rule.
 
@@ -435,6 +435,8 @@ class Rule(object):
         @type offsetto: C{int}
         @param instanceCount: the number of instances in the set
         @type instanceCount: C{int}
+        @param last: whether the set goes on if the rule does
+        @type last: C{bool}
         """
 
         # Determine type of component based on offset
@@ -452,13 +454,7 @@ class Rule(object):
         comp.addProperty(Property(definitions.cICalProperty_TZOFFSETTO, tzoffsetto))
 
         # Do TZNAME
-        if zonerule.format.find("%") != -1:
-            tzname = zonerule.format % (self.letter if self.letter != "-" else "",)
-        elif "/" in zonerule.format:
-            split_format = zonerule.format.split("/")
-            tzname = split_format[0] if dstoffset == 0 else split_format[1]
-        else:
-            tzname = zonerule.format
+        tzname = zonerule.getTZName(offsetto, self)
         comp.addProperty(Property(definitions.cICalProperty_TZNAME, tzname))
 
         # Do DTSTART
@@ -537,7 +533,7 @@ class Rule(object):
                     assert False, "onDay value is not recognized: %s" % (self.onDay,)
 
             # Add any UNTIL
-            if zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
+            if not last or zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
                 until = end.duplicate()
                 until.offsetSeconds(-offsetfrom)
                 until.setTimezoneUTC(True)
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index d52b0ff..ca0fa86 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -118,9 +118,11 @@ class Zone(object):
 
         @return: C{list} of C{tuple} for (
             transition date-time,
-            offset to,
             offset from,
-            associated rule,
+            offset to,
+            associated zone rule,
+            associated rule, or None if this is not just an instance of that rule,
+            rule in effect,
         )
         """
 
@@ -152,15 +154,15 @@ class Zone(object):
         # Now scan transitions looking for real changes and note those
         results = []
         last_transition = (startdt, start_offset)
-        for dtutc, to_offset, zonerule, tzrule in transitions:
+        for dtutc, to_offset, zonerule, tzrule, inEffect in transitions:
             dt = dtutc.duplicate()
             dt.offsetSeconds(last_transition[1])
 
             if dt > last_transition[0] or not results:
-                results.append((dtutc, dt, last_transition[1], to_offset, zonerule, tzrule))
+                results.append((dtutc, dt, last_transition[1], to_offset, zonerule, tzrule, inEffect))
             else:
                 # Two changes at one local time are one change
-                results[-1] = results[-1][:3] + (to_offset, zonerule, None)
+                results[-1] = results[-1][:3] + (to_offset, zonerule, None, inEffect)
             last_transition = (dt, to_offset)
 
         # Only want those from the first year, or the one in effect then if there are no others
@@ -196,54 +198,41 @@ class Zone(object):
         def _generateRuleData():
             # Generate VTIMEZONE component for last set of rules
             for tzrule in ruleorder:
+                items = rulemap[tzrule]
                 if tzrule:
-                    # Accumulate tzrule portions with the same offset pairs
-                    lastOffsetPair = (rulemap[tzrule][0][1], rulemap[tzrule][0][2],)
+                    # Accumulate tzrule portions with the same offset pairs in successive years
                     startIndex = 0
-                    for index in xrange(len(rulemap[tzrule])):
-                        offsetPair = (rulemap[tzrule][index][1], rulemap[tzrule][index][2],)
-                        if offsetPair != lastOffsetPair:
+                    for index in xrange(1, len(items) + 1):
+                        if (
+                            index == len(items) or
+                            items[index][1:3] != items[startIndex][1:3] or
+                            items[index][0].getYear() - items[index - 1][0].getYear() != 1
+                        ):
                             tzrule.vtimezone(
                                 vtz,
                                 lastZoneRule,
-                                rulemap[tzrule][startIndex][0],
-                                rulemap[tzrule][index - 1][0],
-                                rulemap[tzrule][startIndex][1],
-                                rulemap[tzrule][startIndex][2],
+                                items[startIndex][0],
+                                items[index - 1][0],
+                                items[startIndex][1],
+                                items[startIndex][2],
                                 index - startIndex,
+                                index == len(items),
                             )
-                            lastOffsetPair = (rulemap[tzrule][index][1], rulemap[tzrule][index][2],)
                             startIndex = index
-
-                    tzrule.vtimezone(
-                        vtz,
-                        lastZoneRule,
-                        rulemap[tzrule][startIndex][0],
-                        rulemap[tzrule][index][0],
-                        rulemap[tzrule][startIndex][1],
-                        rulemap[tzrule][startIndex][2],
-                        len(rulemap[tzrule]),
-                    )
                 else:
-                    lastZoneRule.vtimezone(
-                        vtz,
-                        lastZoneRule,
-                        rulemap[tzrule][0][0],
-                        rulemap[tzrule][-1][0],
-                        rulemap[tzrule][0][1],
-                        rulemap[tzrule][0][2],
-                    )
+                    for dt, offsetfrom, offsetto, inEffect in items:
+                        lastZoneRule.vtimezone(vtz, inEffect, dt, offsetfrom, offsetto)
             del ruleorder[:]
             rulemap.clear()
 
-        for dt, offsetfrom, offsetto, zonerule, tzrule in transitions:
+        for dt, offsetfrom, offsetto, zonerule, tzrule, inEffect in transitions:
 
             # Check for change of rule
             if lastZoneRule and lastZoneRule != zonerule:
                 _generateRuleData()
             if tzrule not in ruleorder:
                 ruleorder.append(tzrule)
-            rulemap.setdefault(tzrule, []).append((dt, offsetfrom, offsetto,))
+            rulemap.setdefault(tzrule, []).append((dt, offsetfrom, offsetto, inEffect,))
             lastZoneRule = zonerule
 
         # Do left overs
@@ -386,7 +375,9 @@ class ZoneRule(object):
             # Sort the results by date
             tempresults.sort(cmp=lambda x, y: x[0].compareDateTime(y[0]))
 
-            # Standard time is in effect until the first of the rules
+            # Standard time is in effect until the first of the rules, named as by the earliest one for it
+            standard = [tzrule for dt, to_offset, tzrule in tempresults if tzrule.getOffset() == 0]
+            last_tzrule = standard[0] if standard else None
             found_start = False
             last_offset = last_stdoffset = self.getUTCOffset()
             finalUntil = self.getUntilDate()
@@ -395,18 +386,19 @@ class ZoneRule(object):
                 if dtutc >= lastUntilUTC:
                     if not found_start and dtutc != lastUntilUTC:
                         # Insert a start item
-                        results.append((lastUntilUTC, last_offset, self, None))
+                        results.append((lastUntilUTC, last_offset, self, None, last_tzrule))
                     found_start = True
 
                     if dtutc >= finalUntil.getUTC(last_offset, last_stdoffset):
                         break
 
-                    results.append((dtutc, to_offset, self, tzrule))
+                    results.append((dtutc, to_offset, self, tzrule, tzrule))
 
                 last_offset = to_offset
+                last_tzrule = tzrule
 
             if not found_start:
-                results.append((lastUntilUTC, last_offset, self, None))
+                results.append((lastUntilUTC, last_offset, self, None, last_tzrule))
 
             return last_offset, last_stdoffset
 
@@ -414,7 +406,7 @@ class ZoneRule(object):
         to_offset = self.getNumericOffset()
 
         # Always add a transition for the start of this rule
-        results.append((lastUntil, self.getUTCOffset() + to_offset, self, None))
+        results.append((lastUntil, self.getUTCOffset() + to_offset, self, None, None))
         return (self.getUTCOffset() + to_offset, self.getUTCOffset())
 
     def isNumericOffset(self):
@@ -428,10 +420,48 @@ class ZoneRule(object):
     def getNumericOffset(self):
         return utils.parseTime(self.rule)[0]
 
-    def vtimezone(self, vtz, zonerule, start, end, offsetfrom, offsetto):
+    def getTZName(self, offset, tzrule):
+        """
+        Get the abbreviation used for this portion of a zone.
+
+        @param offset: the UTC offset in effect
+        @type offset: C{int}
+        @param tzrule: the rule in effect, if any
+        @type tzrule: L{Rule}
+
+        @return: C{str}
+        """
+        if "%z" in self.format:
+            hours, minutes = divmod(abs(offset) // 60, 60)
+            seconds = abs(offset) % 60
+            text = "-" if offset < 0 else "+"
+            text += "%02d" % (hours,)
+            if minutes or seconds:
+                text += "%02d" % (minutes,)
+            if seconds:
+                text += "%02d" % (seconds,)
+            return self.format.replace("%z", text)
+        elif "%s" in self.format:
+            return self.format.replace("%s", tzrule.letter if tzrule and tzrule.letter != "-" else "")
+        elif "/" in self.format:
+            return self.format.split("/")[1 if self.isDaylight(tzrule) else 0]
+        else:
+            return self.format
+
+    def isDaylight(self, tzrule):
+        """
+        @param tzrule: the rule in effect, if any
+        @type tzrule: L{Rule}
+        """
+        return (tzrule.getOffset() if tzrule else self.getSaveOffset()) != 0
+
+    def getSaveOffset(self):
+        return self.getNumericOffset() if self.isNumericOffset() else 0
+
+    def vtimezone(self, vtz, tzrule, start, offsetfrom, offsetto):
 
         # Determine type of component based on offset
-        if self.isNumericOffset() and self.getNumericOffset() != 0:
+        if self.isDaylight(tzrule):
             comp = Daylight(parent=vtz)
         else:
             comp = Standard(parent=vtz)
@@ -444,10 +474,7 @@ class ZoneRule(object):
         comp.addProperty(Property(definitions.cICalProperty_TZOFFSETTO, tzoffsetto))
 
         # Do TZNAME
-        if self.format.find("%") != -1:
-            tzname = self.format % ("S",)
-        else:
-            tzname = self.format
+        tzname = self.getTZName(offsetto, tzrule)
         comp.addProperty(Property(definitions.cICalProperty_TZNAME, tzname))
 
         # Do DTSTART
-- 
2.43.0


From 9ed990f8c91a0e5820def0b7c55e33b74b4737b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 105/131] fix: recurrence of shifted time zone rules

---
 src/zonal/rule.py | 178 +++++++++++++++-------------------------------
 1 file changed, 57 insertions(+), 121 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index c481d81..b425828 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -311,71 +311,70 @@ class Rule(object):
             except ValueError:
                 assert False, "onDay value is not recognized: %s" % (onDay,)
 
-    def getOnDayDetails(self, start, indicatedDay, indicatedOffset):
+    def addOnDayDetails(self, rrule, start):
         """
-        Get RRULE BYxxx part items from the Rule data.
+        Set the RRULE BYxxx part items from the Rule data. The local time of a transition can be
+        on another day than the one the Rule indicates, e.g. if "u" mode is specified.
 
+        @param rrule: the recurrence to set
+        @type rrule: L{Recurrence}
         @param start: start date-time for the recurrence set
         @type start: L{DateTime}
-        @param indicatedDay: the day that the Rule indicates for recurrence
-        @type indicatedDay: C{int}
-        @param indicatedOffset: the offset that the Rule indicates for recurrence
-        @type indicatedOffset: C{int}
         """
 
-        month = start.getMonth()
-        year = start.getYear()
-        dayOfWeek = start.getDayOfWeek()
-
-        # Need to check whether day has changed due to time shifting
-        # e.g. if "u" mode is specified, the actual localtime may be
-        # shifted to the previous day if the offset is negative
-        if indicatedDay != dayOfWeek:
-            difference = dayOfWeek - indicatedDay
-            if difference in (1, -6,):
-                indicatedOffset += 1
-
-                # Adjust the month down too if needed
-                if start.getDay() == 1:
-                    month -= 1
-                    if month < 1:
-                        month = 12
-            elif difference in (-1, 6,):
-                assert indicatedOffset != 1, "Bad RRULE adjustment"
-                indicatedOffset -= 1
-            elif difference in (-5,):
-                pass
-            else:
-                assert False, "Unknown RRULE adjustment"
-
-        try:
-            # Form the appropriate RRULE bits
-            day = Rule.DAY_NAME_TO_RDAY[dayOfWeek]
-            offset = indicatedOffset
-            bymday = None
-            if offset == 1:
-                offset = 1
-            elif offset == 8:
-                offset = 2
-            elif offset == 15:
-                offset = 3
-            elif offset == 22:
-                offset = 4
+        month = Rule.MONTH_NAME_TO_POS[self.inMonth]
+        shifts = []
+        for year in range(start.getYear() - 1, start.getYear() + 2):
+            indicated = DateTime(year=year, month=month, day=1)
+            Rule.setOnDay(indicated, self.onDay)
+            shifts.append(start.daysSince1970() - indicated.daysSince1970())
+        shift = min(shifts, key=abs)
+
+        # The days it can be on, counted from the start or (for the last one) the end of the month
+        days_in_month = daysInMonth(month, 2001)
+        if self.onDay in Rule.LASTDAY_NAME_TO_DAY:
+            first, count = days_in_month - 6, 7
+        elif self.onDay[3:5] == ">=":
+            first, count = int(self.onDay[5:]), 7
+        elif self.onDay[3:5] == "<=":
+            first, count = int(self.onDay[5:]) - 6, 7
+        else:
+            first, count = int(self.onDay), 1
+        first += shift
+        last = first + count - 1
+        fromEnd = self.onDay in Rule.LASTDAY_NAME_TO_DAY
+        weekday = Rule.DAY_NAME_TO_RDAY[start.getDayOfWeek()]
+
+        if first >= 1 and last <= (days_in_month if month != 2 or fromEnd else 28):
+            rrule.setByMonth((month,))
+            if count == 1:
+                if shift:
+                    rrule.setByMonthDay((first,))
+            elif not fromEnd and first in (1, 8, 15, 22,):
+                rrule.setByDay(((first // 7 + 1, weekday),))
+            elif (month != 2 or fromEnd) and (days_in_month - last) % 7 == 0:
+                rrule.setByDay((((last - days_in_month) // 7 - 1, weekday),))
             else:
-                days_in_month = daysInMonth(month, year)
-                if days_in_month - offset == 6:
-                    offset = -1
-                elif days_in_month - offset == 13:
-                    offset = -2
-                elif days_in_month - offset == 20:
-                    offset = -3
+                offset = days_in_month + 1 if month == 2 and fromEnd else 0
+                rrule.setByMonthDay([day - offset for day in range(first, last + 1)])
+                rrule.setByDay(((0, weekday),))
+        else:
+            # Days in two months have to be counted in the year - from whichever end of it has
+            # no leap day in between
+            first_of_month = sum([daysInMonth(item, 2001) for item in range(1, month)])
+            yeardays = []
+            for day in range(first + first_of_month, last + first_of_month + 1):
+                if day <= 0:
+                    yeardays.append(day - 1)
+                elif day > 365:
+                    yeardays.append(day - 365)
+                elif month > 2 or month == 2 and fromEnd:
+                    yeardays.append(day - 366)
                 else:
-                    bymday = [offset + i for i in range(7) if (offset + i) <= days_in_month]
-                    offset = 0
-        except:
-            assert False, "onDay value is not recognized: %s" % (self.onDay,)
-
-        return offset, day, bymday
+                    yeardays.append(day)
+            rrule.setByYearDay(yeardays)
+            if count != 1:
+                rrule.setByDay(((0, weekday),))
 
     def expand(self, results, zoneinfo, maxYear):
         """
@@ -467,70 +466,7 @@ class Rule(object):
         if self.toYear != "only" and instanceCount != 1:
             rrule = Recurrence()
             rrule.setFreq(definitions.eRecurrence_YEARLY)
-            rrule.setByMonth((Rule.MONTH_NAME_TO_POS[self.inMonth],))
-            if self.onDay in Rule.LASTDAY_NAME_TO_RDAY:
-
-                # Need to check whether day has changed due to time shifting
-                dayOfWeek = start.getDayOfWeek()
-                indicatedDay = Rule.LASTDAY_NAME_TO_DAY[self.onDay]
-
-                if dayOfWeek == indicatedDay:
-                    rrule.setByDay(((-1, Rule.LASTDAY_NAME_TO_RDAY[self.onDay]),))
-                elif dayOfWeek < indicatedDay or dayOfWeek == 6 and indicatedDay == 0:
-                    # This is OK as we have moved back a day and thus no month transition
-                    # could have occurred
-                    fakeOffset = daysInMonth(start.getMonth(), start.getYear()) - 6
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, fakeOffset)
-                    if bymday:
-                        rrule.setByMonthDay(bymday)
-                    rrule.setByDay(((offset, rday),))
-                else:
-                    # This is bad news as we have moved forward a day possibly into the next month
-                    # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
-                    rrule.setByMonth(())
-                    daysBackStartOfMonth = (
-                        365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
-                    )
-                    rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
-                    rrule.setByDay(
-                        ((0, divmod(Rule.LASTDAY_NAME_TO_DAY[self.onDay] + 1, 7)[1]),),
-                    )
-
-            elif self.onDay.find(">=") != -1:
-                indicatedDay, dayoffset = self.onDay.split(">=")
-
-                # Need to check whether day has changed due to time shifting
-                dayOfWeek = start.getDayOfWeek()
-                indicatedDay = Rule.DAY_NAME_TO_DAY[indicatedDay]
-
-                if dayOfWeek == indicatedDay:
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, int(dayoffset))
-                    if bymday:
-                        rrule.setByMonthDay(bymday)
-                    rrule.setByDay(((offset, rday),))
-                elif dayoffset == 1 and divmod(dayoffset - indicatedDay, 7)[1] == 6:
-                    # This is bad news as we have moved backward a day possibly into the next month
-                    # What we do is switch to using a BYYEARDAY rule with offset from the end of the year
-                    rrule.setByMonth(())
-                    daysBackStartOfMonth = (
-                        365, 334, 306, 275, 245, 214, 184, 153, 122, 92, 61, 31, 0     # Does not account for leap year
-                    )
-                    rrule.setByYearDay([-(daysBackStartOfMonth[Rule.MONTH_NAME_TO_POS[self.inMonth]] + i) for i in range(7)])
-                    rrule.setByDay(
-                        ((0, divmod(indicatedDay + 1, 7)[1]),),
-                    )
-                else:
-                    # This is OK as we have moved forward a day and thus no month transition
-                    # could have occurred
-                    offset, rday, bymday = self.getOnDayDetails(start, indicatedDay, int(dayoffset))
-                    if bymday:
-                        rrule.setByMonthDay(bymday)
-                    rrule.setByDay(((offset, rday),))
-            else:
-                try:
-                    int(self.onDay)
-                except:
-                    assert False, "onDay value is not recognized: %s" % (self.onDay,)
+            self.addOnDayDetails(rrule, start)
 
             # Add any UNTIL
             if not last or zonerule.getUntilDate().dt.getYear() < 9999 or self.endYear() < 9999:
-- 
2.43.0


From 3d11d444661b1917423f67585c14f5b163946b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:07 +0000
Subject: [PATCH 106/131] fix: name before a zone's first standard rule

---
 src/zonal/zone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index ca0fa86..f10c504 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -376,7 +376,8 @@ class ZoneRule(object):
             tempresults.sort(cmp=lambda x, y: x[0].compareDateTime(y[0]))
 
             # Standard time is in effect until the first of the rules, named as by the earliest one for it
-            standard = [tzrule for dt, to_offset, tzrule in tempresults if tzrule.getOffset() == 0]
+            standard = [tzrule for tzrule in ruleset.rules if tzrule.getOffset() == 0]
+            standard.sort(cmp=lambda x, y: x.datetimeForYear(x.startYear())[0].compareDateTime(y.datetimeForYear(y.startYear())[0]))
             last_tzrule = standard[0] if standard else None
             found_start = False
             last_offset = last_stdoffset = self.getUTCOffset()
-- 
2.43.0


From d8b6db44a9dd455e9c047c37a0d643fd50001dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 107/131] fix: tz files without a final newline, rule set names
 and links

---
 src/zonal/tzconvert.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/zonal/tzconvert.py b/src/zonal/tzconvert.py
index 0bdba7d..ecf1757 100755
--- a/src/zonal/tzconvert.py
+++ b/src/zonal/tzconvert.py
@@ -56,7 +56,7 @@ class tzconvert(object):
                 ctr = 0
                 for line in f:
                     ctr += 1
-                    line = line[:-1]
+                    line = line.rstrip("\n")
                     while True:
                         if line.startswith("#") or len(line) == 0:
                             break
@@ -81,14 +81,16 @@ class tzconvert(object):
     def parseRule(self, line):
         ruleitem = rule.Rule()
         ruleitem.parse(line)
-        self.rules.setdefault(ruleitem.name, rule.RuleSet()).rules.append(ruleitem)
+        ruleset = self.rules.setdefault(ruleitem.name, rule.RuleSet())
+        ruleset.name = ruleitem.name
+        ruleset.rules.append(ruleitem)
 
     def parseZone(self, line, f):
         os = StringIO.StringIO()
         os.write(line)
         last_line = None
         for nextline in f:
-            nextline = nextline[:-1]
+            nextline = nextline.rstrip("\n")
             if nextline.startswith("\t") or nextline.startswith(" "):
                 os.write("\n")
                 os.write(nextline)
@@ -195,7 +197,8 @@ class tzconvert(object):
 
                 with open(fromPath) as f:
                     icsdata = f.read()
-                icsdata = icsdata.replace(linkFrom, linkTo)
+                for name in ("TZID", "X-LIC-LOCATION",):
+                    icsdata = icsdata.replace("%s:%s\r\n" % (name, linkFrom,), "%s:%s\r\n" % (name, linkTo,))
 
                 toPath = os.path.join(outputdir, linkTo + ".ics")
                 if not os.path.exists(os.path.dirname(toPath)):
-- 
2.43.0


From 68c03d98de8635ec49373e63fe05b831810a4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:32 +0000
Subject: [PATCH 108/131] fix: comments in tz source lines

---
 src/zonal/rule.py | 12 ++++++------
 src/zonal/zone.py | 11 +++++------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/zonal/rule.py b/src/zonal/rule.py
index b425828..2e712b7 100644
--- a/src/zonal/rule.py
+++ b/src/zonal/rule.py
@@ -65,14 +65,14 @@ class RuleSet(object):
 
         splitlines = lines.split("\n")
         for line in splitlines:
-            splits = line.expandtabs(1).split(" ")
-            name = splits[1]
-            assert name, "Must have a zone name: '%s'" % (lines,)
+            if not line.split("#")[0].strip():
+                continue
+            rule = Rule()
+            rule.parse(line)
+            name = rule.name
             if not self.name:
                 self.name = name
             assert self.name == name, "Different zone names %s and %s: %s" % (self.name, name, line,)
-            rule = Rule()
-            rule.parse(line)
             self.rules.append(rule)
 
     def generate(self):
@@ -206,7 +206,7 @@ class Rule(object):
         """
 
         # Simply split the bits up and store them in various properties
-        splits = [x for x in line.expandtabs(1).split(" ") if len(x) > 0]
+        splits = line.split("#")[0].split()
         assert len(splits) >= 10, "Wrong number of fields in Rule: '%s'" % (line,)
         self.name = splits[1]
         self.fromYear = splits[2]
diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index f10c504..eba5280 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -68,18 +68,17 @@ class Zone(object):
 
         # First line is special
         line = splitlines[0]
-        splits = [x for x in line.expandtabs(1).split(" ") if len(x) > 0]
+        splits = line.split("#")[0].split()
         self.name = splits[1]
         rule = ZoneRule(self)
         rule.parse(line, 0)
         self.rules.append(rule)
         for line in splitlines[1:]:
-            if len(line) == 0:
+            if not line.split("#")[0].strip():
                 continue
             rule = ZoneRule(self)
             rule.parse(line, 2)
-            if rule.gmtoff != "#":
-                self.rules.append(rule)
+            self.rules.append(rule)
 
     def generate(self):
         """
@@ -312,7 +311,7 @@ class ZoneRule(object):
         @param line: a C{str} containing the line to parse.
         """
 
-        splits = [x for x in line.expandtabs(1).split(" ") if len(x) > 0]
+        splits = line.split("#")[0].split()
         assert len(splits) + offset >= 5, "Help: %s" % (line,)
         self.gmtoff = splits[2 - offset]
         self.rule = splits[3 - offset]
@@ -340,7 +339,7 @@ class ZoneRule(object):
         if self._cached_until is None:
             dt = DateTime(year=9999, month=12, day=1, hours=0, minutes=0, seconds=0)
             mode = None
-            splits = self.until.split("#")[0].split() if self.until else ()
+            splits = self.until.split() if self.until else ()
             if splits:
                 dt = DateTime(year=int(splits[0]), month=1, day=1, hours=0, minutes=0, seconds=0)
                 if len(splits) > 1:
-- 
2.43.0


From ac27fb33afbf96f263c184cbfe4bd32dbac4a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 109/131] fix: saving in a zone's first era

---
 src/zonal/zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index eba5280..f38ddf4 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -127,7 +127,7 @@ class Zone(object):
 
         # Start at 1/1/1800 with the offset from the initial zone rule
         start = DateTime(year=1800, month=1, day=1, hours=0, minutes=0, seconds=0)
-        start_offset = self.rules[0].getUTCOffset()
+        start_offset = self.rules[0].getUTCOffset() + self.rules[0].getSaveOffset()
         start_stdoffset = self.rules[0].getUTCOffset()
         startdt = start.duplicate()
 
-- 
2.43.0


From b0c13c36b51d1fcd2b743d866503985f37316ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:12 +0000
Subject: [PATCH 110/131] fix: rules whose changes can be in the next year

---
 src/zonal/zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zonal/zone.py b/src/zonal/zone.py
index f38ddf4..2862503 100644
--- a/src/zonal/zone.py
+++ b/src/zonal/zone.py
@@ -205,7 +205,7 @@ class Zone(object):
                         if (
                             index == len(items) or
                             items[index][1:3] != items[startIndex][1:3] or
-                            items[index][0].getYear() - items[index - 1][0].getYear() != 1
+                            items[index][0].daysSince1970() - items[index - 1][0].daysSince1970() > 400
                         ):
                             tzrule.vtimezone(
                                 vtz,
-- 
2.43.0


From 4dcf19bb930adbccf830edd172b82c1152d1110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:22 +0000
Subject: [PATCH 111/131] fix: let setUntil replace an UNTIL by one that
 compares the same

A date, a floating time and a time with a time zone can compare the same and still be different
limits; the new value was dropped then.
---
 src/pycalendar/icalendar/recurrence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 31fb815..79d0550 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -281,7 +281,9 @@ class Recurrence(ValueMixin):
         return self.mUntil
 
     def setUntil(self, until):
-        self._setAndclearIfChanged("mUntil", until)
+        # Date-times that compare the same may still be different values
+        self.clear()
+        self.mUntil = until
 
     def getUseCount(self):
         return self.mUseCount
-- 
2.43.0


From 0f7a7ee5bee7966b115bf58372a0bc8cd5ae86e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:22 +0000
Subject: [PATCH 112/131] fix: a COUNT or UNTIL that is not used is no part of
 what a rule is equal to

---
 src/pycalendar/icalendar/recurrence.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 79d0550..e43df4a 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -173,9 +173,9 @@ class Recurrence(ValueMixin):
         return hash((
             self.mFreq,
             self.mUseCount,
-            self.mCount,
+            self.mCount if self.mUseCount else None,
             self.mUseUntil,
-            self.mUntil,
+            self.mUntil if self.mUseUntil else None,
             self.mInterval,
             tuple(sorted(self.mBySeconds)) if self.mBySeconds else None,
             tuple(sorted(self.mByMinutes)) if self.mByMinutes else None,
@@ -200,9 +200,9 @@ class Recurrence(ValueMixin):
     def equals(self, comp):
         return (
             (self.mFreq == comp.mFreq) and
-            (self.mUseCount == comp.mUseCount) and (self.mCount == comp.mCount) and
-            (self.mUseUntil == comp.mUseUntil) and (self.mUntil == comp.mUntil) and
-            (self.mUntil is None or comp.mUntil is None or self.mUntil.sameValue(comp.mUntil)) and
+            (self.mUseCount == comp.mUseCount) and (not self.mUseCount or self.mCount == comp.mCount) and
+            (self.mUseUntil == comp.mUseUntil) and (not self.mUseUntil or self.mUntil == comp.mUntil) and
+            (not self.mUseUntil or self.mUntil is None or comp.mUntil is None or self.mUntil.sameValue(comp.mUntil)) and
             (self.mInterval == comp.mInterval) and
             self.equalsNum(self.mBySeconds, comp.mBySeconds) and
             self.equalsNum(self.mByMinutes, comp.mByMinutes) and
-- 
2.43.0


From cf55327064a5801b129699e7cfecab011c3513e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 113/131] fix: let the BY-parts of a rule be set to None, which
 is what they are when absent

---
 src/pycalendar/icalendar/recurrence.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index e43df4a..20e56af 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -307,31 +307,31 @@ class Recurrence(ValueMixin):
         return self.mByMonth
 
     def setByMonth(self, by):
-        self._setAndclearIfChanged("mByMonth", by[:])
+        self._setAndclearIfChanged("mByMonth", by[:] if by is not None else None)
 
     def getByMonthDay(self):
         return self.mByMonthDay
 
     def setByMonthDay(self, by):
-        self._setAndclearIfChanged("mByMonthDay", by[:])
+        self._setAndclearIfChanged("mByMonthDay", by[:] if by is not None else None)
 
     def getByYearDay(self):
         return self.mByYearDay
 
     def setByYearDay(self, by):
-        self._setAndclearIfChanged("mByYearDay", by[:])
+        self._setAndclearIfChanged("mByYearDay", by[:] if by is not None else None)
 
     def getByDay(self):
         return self.mByDay
 
     def setByDay(self, by):
-        self._setAndclearIfChanged("mByDay", by[:])
+        self._setAndclearIfChanged("mByDay", by[:] if by is not None else None)
 
     def getBySetPos(self):
         return self.mBySetPos
 
     def setBySetPos(self, by):
-        self._setAndclearIfChanged("mBySetPos", by[:])
+        self._setAndclearIfChanged("mBySetPos", by[:] if by is not None else None)
 
     def parse(self, data):
         self.init_Recurrence()
-- 
2.43.0


From 1273ad0dcf8a44f108f4fee1a89b1b6e847f3117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 114/131] fix: jCard of structured values (N, ADR and ORG),
 which could not be read back

---
 src/pycalendar/utils.py          | 16 ++++++++++++++++
 src/pycalendar/vcard/adr.py      |  2 +-
 src/pycalendar/vcard/adrvalue.py |  3 ++-
 src/pycalendar/vcard/n.py        |  2 +-
 src/pycalendar/vcard/nvalue.py   |  3 ++-
 src/pycalendar/vcard/orgvalue.py | 11 +++++++----
 6 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index b8bff7d..6de44e3 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -312,6 +312,22 @@ def parseDoubleNestedList(data, maxsize):
         items = [decodeTextValue(item) for item in splitEscaped(element, ',')]
         results.append(tuple(items) if len(items) > 1 else items[0])
 
+    return fitNestedList(results, maxsize)
+
+
+def parseDoubleNestedJSON(jobject, maxsize):
+    """
+    As L{parseDoubleNestedList} for the JSON form: a list of strings, or lists of strings
+    """
+    results = []
+    for element in jobject if isinstance(jobject, list) else [jobject]:
+        items = [item.encode("utf-8") for item in (element if isinstance(element, list) else [element])]
+        results.append(tuple(items) if len(items) > 1 else (items[0] if items else ""))
+
+    return fitNestedList(results, maxsize)
+
+
+def fitNestedList(results, maxsize):
     for _ignore in range(maxsize - len(results)):
         results.append("")
 
diff --git a/src/pycalendar/vcard/adr.py b/src/pycalendar/vcard/adr.py
index 938ac23..25e0182 100644
--- a/src/pycalendar/vcard/adr.py
+++ b/src/pycalendar/vcard/adr.py
@@ -110,7 +110,7 @@ class Adr(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = utils.parseDoubleNestedJSON(jobject, Adr.MAXITEMS)
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/adrvalue.py b/src/pycalendar/vcard/adrvalue.py
index 8a1f01a..22a7d8a 100644
--- a/src/pycalendar/vcard/adrvalue.py
+++ b/src/pycalendar/vcard/adrvalue.py
@@ -16,6 +16,7 @@
 
 # vCard ADR value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.adr import Adr
@@ -26,4 +27,4 @@ class AdrValue(WrapperValue, Value):
     _wrappedClass = Adr
     _wrappedType = Value.VALUETYPE_ADR
 
-Value.registerType(Value.VALUETYPE_ADR, AdrValue, None)
+Value.registerType(Value.VALUETYPE_ADR, AdrValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/n.py b/src/pycalendar/vcard/n.py
index ef0be97..9ff4300 100644
--- a/src/pycalendar/vcard/n.py
+++ b/src/pycalendar/vcard/n.py
@@ -109,7 +109,7 @@ class N(ValueMixin):
         utils.generateDoubleNestedList(os, self.mValue)
 
     def parseJSON(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        self.mValue = utils.parseDoubleNestedJSON(jobject, N.MAXITEMS)
 
     def writeJSON(self, jobject):
         jobject.append(list(self.mValue))
diff --git a/src/pycalendar/vcard/nvalue.py b/src/pycalendar/vcard/nvalue.py
index e5e9c00..a2b97b3 100644
--- a/src/pycalendar/vcard/nvalue.py
+++ b/src/pycalendar/vcard/nvalue.py
@@ -16,6 +16,7 @@
 
 # vCard N value
 
+from pycalendar import xmldefinitions
 from pycalendar.value import Value
 from pycalendar.valueutils import WrapperValue
 from pycalendar.vcard.n import N
@@ -26,4 +27,4 @@ class NValue(WrapperValue, Value):
     _wrappedClass = N
     _wrappedType = Value.VALUETYPE_N
 
-Value.registerType(Value.VALUETYPE_N, NValue, None)
+Value.registerType(Value.VALUETYPE_N, NValue, None, xmldefinitions.value_text)
diff --git a/src/pycalendar/vcard/orgvalue.py b/src/pycalendar/vcard/orgvalue.py
index d72fd5e..b410509 100644
--- a/src/pycalendar/vcard/orgvalue.py
+++ b/src/pycalendar/vcard/orgvalue.py
@@ -16,7 +16,7 @@
 
 # vCard ORG value
 
-from pycalendar import utils
+from pycalendar import utils, xmldefinitions
 from pycalendar.value import Value
 
 
@@ -41,10 +41,13 @@ class OrgValue(Value):
         utils.generateTextList(os, self.mValue, ';')
 
     def parseJSONValue(self, jobject):
-        self.mValue = tuple(map(lambda x: x.encode("utf-8"), jobject))
+        if isinstance(jobject, list):
+            self.mValue = tuple([x.encode("utf-8") for x in jobject])
+        else:
+            self.mValue = jobject.encode("utf-8")
 
     def writeJSONValue(self, jobject):
-        jobject.append(list(self.mValue))
+        jobject.append(self.mValue if isinstance(self.mValue, str) else list(self.mValue))
 
     def getValue(self):
         return self.mValue
@@ -52,4 +55,4 @@ class OrgValue(Value):
     def setValue(self, value):
         self.mValue = value
 
-Value.registerType(Value.VALUETYPE_ORG, OrgValue, None)
+Value.registerType(Value.VALUETYPE_ORG, OrgValue, None, xmldefinitions.value_text)
-- 
2.43.0


From 9300dc5f57836e33cf78441218bab49f2eb1b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 115/131] fix: type in JSON of a property whose own type has no
 class, such as AGENT

---
 src/pycalendar/property.py | 9 +++++++--
 src/pycalendar/value.py    | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index 64053b2..b1b0618 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -532,8 +532,13 @@ class PropertyBase(object):
             self.mValue.writeJSON(prop)
 
             # A type for which there is no class is only known from the parameter
-            if self.mValue.getType() == Value.VALUETYPE_UNKNOWN and self.hasParameter(self.sValue):
-                prop[2] = self.getParameterValue(self.sValue).lower()
+            # or is the property's own
+            if self.mValue.getType() == Value.VALUETYPE_UNKNOWN:
+                default_type = self.sDefaultValueTypeMap.get(self.mName.upper(), Value.VALUETYPE_UNKNOWN)
+                if self.hasParameter(self.sValue):
+                    prop[2] = self.getParameterValue(self.sValue).lower()
+                elif not Value.hasType(default_type):
+                    prop[2] = self.sTypeValueMap[default_type].lower()
 
     def determineValueType(self):
         # Get value type from property name
diff --git a/src/pycalendar/value.py b/src/pycalendar/value.py
index d801eed..ae0730f 100644
--- a/src/pycalendar/value.py
+++ b/src/pycalendar/value.py
@@ -70,6 +70,10 @@ class Value(ValueMixin):
         clz._xmlMap[type] = xmlNode
         clz._jsonMap[type] = xmlNode if jsonNode is None else jsonNode
 
+    @classmethod
+    def hasType(clz, value_type):
+        return value_type in clz._typeMap
+
     @classmethod
     def createFromType(clz, value_type):
         # Create the value type
-- 
2.43.0


From 8b48905e079932348164b0c09b61131a3faacff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:09 +0000
Subject: [PATCH 116/131] fix: groups in jCard, which were lost

---
 src/pycalendar/property.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pycalendar/property.py b/src/pycalendar/property.py
index b1b0618..718f8d8 100644
--- a/src/pycalendar/property.py
+++ b/src/pycalendar/property.py
@@ -466,6 +466,11 @@ class PropertyBase(object):
                     name = name.upper()
                     if not stringutils.isname(name, "="):
                         raise ValueError("invalid parameter name")
+                    if cls.sUsesGroup and name == "GROUP":
+                        if not stringutils.isname(value, ".:;"):
+                            raise ValueError("invalid group")
+                        prop.mGroup = value.encode("utf-8")
+                        continue
                     if isinstance(value, list):
                         value = [v.encode("utf-8") for v in value]
                     else:
@@ -521,6 +526,10 @@ class PropertyBase(object):
         ]
         jobject.append(prop)
 
+        # Groups are a parameter in JSON
+        if self.sUsesGroup and self.mGroup:
+            prop[1]["group"] = self.mGroup
+
         # Write all parameters
         for key in sorted(self.mParameters.keys()):
             for attr in self.mParameters[key]:
-- 
2.43.0


From a2b5389c9919aa0a6594b3f9b464d538ea71dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:58 +0000
Subject: [PATCH 117/131] fix: form of an offset read from jCard

---
 src/pycalendar/utcoffsetvalue.py | 3 +++
 src/pycalendar/vcard/property.py | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/pycalendar/utcoffsetvalue.py b/src/pycalendar/utcoffsetvalue.py
index 7396fee..0c84e5c 100644
--- a/src/pycalendar/utcoffsetvalue.py
+++ b/src/pycalendar/utcoffsetvalue.py
@@ -111,6 +111,9 @@ class UTCOffsetValue(Value):
         text = os.getvalue()
         jobject.append(text)
 
+    def setFullISO(self, fullISO):
+        self.mFullISO = fullISO
+
     def getValue(self):
         return self.mValue
 
diff --git a/src/pycalendar/vcard/property.py b/src/pycalendar/vcard/property.py
index 246fe5e..c344701 100644
--- a/src/pycalendar/vcard/property.py
+++ b/src/pycalendar/vcard/property.py
@@ -315,6 +315,11 @@ class Property(PropertyBase):
         else:
             super(Property, self).generateValue(os, novalue)
 
+    def _postCreateValue(self, value_type):
+        # Offsets always have a separator in vCard text, however they were read
+        if isinstance(self.mValue, UTCOffsetValue):
+            self.mValue.setFullISO(True)
+
     # Creation
     def _init_attr_value_adr(self, reqstatus):
         # Value
-- 
2.43.0


From ea45f8a73ca782ff49a78e9480a40e32266c4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:09 +0000
Subject: [PATCH 118/131] fix: name of the utc-offset value type in vCard

---
 src/pycalendar/vcard/definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/vcard/definitions.py b/src/pycalendar/vcard/definitions.py
index 17b86aa..ddc6c14 100644
--- a/src/pycalendar/vcard/definitions.py
+++ b/src/pycalendar/vcard/definitions.py
@@ -77,7 +77,7 @@ Value_INTEGER = "INTEGER"
 Value_TEXT = "TEXT"
 Value_TIME = "TIME"
 Value_URI = "URI"
-Value_UTCOFFSET = "UTCOFFSET"
+Value_UTCOFFSET = "UTC-OFFSET"
 Value_VCARD = "VCARD"
 
 Parameter_ENCODING = "ENCODING"
-- 
2.43.0


From 43c268e55bde2d91f7f62424b12c363f55a023af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:01 +0000
Subject: [PATCH 119/131] fix: parameters given several times, of which JSON
 had only the last

---
 src/pycalendar/parameter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/parameter.py b/src/pycalendar/parameter.py
index 10ea120..7c90f2e 100644
--- a/src/pycalendar/parameter.py
+++ b/src/pycalendar/parameter.py
@@ -116,4 +116,12 @@ class Parameter(object):
             text.text = value
 
     def writeJSON(self, jobject):
-        jobject[self.getName().lower()] = self.mValues if len(self.mValues) != 1 else self.mValues[0]
+        name = self.getName().lower()
+        values = self.mValues
+
+        # The same parameter may be present several times
+        if name in jobject:
+            previous = jobject[name]
+            values = (previous if isinstance(previous, list) else [previous]) + values
+
+        jobject[name] = values if len(values) != 1 else values[0]
-- 
2.43.0


From c1b7e1caa9c82b06e244a17520a5d8599f8d91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:11 +0000
Subject: [PATCH 120/131] fix: rows of month tables, which could not be made

---
 src/pycalendar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 6de44e3..2c93821 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -470,7 +470,7 @@ def getMonthTable(month, year, weekstart, table, today_index):
     for day in range(1, max_day + 1):
         # Insert new row if we are at the start of a row
         if (col == 0) or (day == 1):
-            table.extend([0] * 7)
+            table.append([0] * 7)
             row += 1
 
         # Set the table item to the current day
-- 
2.43.0


From 5af3ca1c4e76b407a911abbc333480eb88e3becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:11 +0000
Subject: [PATCH 121/131] fix: status text and completion state of to-dos, also
 of those without a STATUS

---
 src/pycalendar/icalendar/vtodo.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index ed09b2d..9ee35c0 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -151,18 +151,18 @@ class VToDo(ComponentRecur):
         self.mStatus = status
 
     def getStatusText(self):
-        sout = StringIO()
+        sout = StringIO.StringIO()
 
-        if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
+        if self.mStatus in (definitions.eStatus_VToDo_None, definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
             if self.hasEnd():
                 # Check due date
                 today = DateTime()
                 today.setToday()
                 if self.getEnd() > today:
-                    sout.append("Due: ")
+                    sout.write("Due: ")
                     whendue = self.getEnd() - today
                     if (whendue.getDays() > 0) and (whendue.getDays() <= 7):
-                        sout.write(whendue.getDays())
+                        sout.write(str(whendue.getDays()))
                         sout.write(" days")
                     else:
                         sout.write(self.getEnd().getLocaleDate(DateTime.NUMERICDATE))
@@ -172,10 +172,10 @@ class VToDo(ComponentRecur):
                     sout.write("Overdue: ")
                     overdue = today - self.getEnd()
                     if overdue.getWeeks() != 0:
-                        sout.write(overdue.getWeeks())
+                        sout.write(str(overdue.getWeeks()))
                         sout.write(" weeks")
                     else:
-                        sout.write(overdue.getDays() + 1)
+                        sout.write(str(overdue.getDays() + 1))
                         sout.write(" days")
             else:
                 sout.write("Not Completed")
@@ -185,13 +185,13 @@ class VToDo(ComponentRecur):
                 sout.write(self.getCompleted().getLocaleDate(DateTime.NUMERICDATE))
             else:
                 sout.write("Completed")
-        elif definitions.eStatus_VToDo_Cancelled:
+        elif self.mStatus == definitions.eStatus_VToDo_Cancelled:
             sout.write("Cancelled")
 
-        return sout.toString()
+        return sout.getvalue()
 
     def getCompletionState(self):
-        if self.mStatus in (definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
+        if self.mStatus in (definitions.eStatus_VToDo_None, definitions.eStatus_VToDo_NeedsAction, definitions.eStatus_VToDo_InProcess):
             if self.hasEnd():
                 # Check due date
                 today = DateTime()
-- 
2.43.0


From 0d671ac8a30ba61ae7fc52c99fc01aefdcc1b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:29 +0000
Subject: [PATCH 122/131] fix: order of to-dos for display

---
 src/pycalendar/icalendar/vtodo.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/pycalendar/icalendar/vtodo.py b/src/pycalendar/icalendar/vtodo.py
index 9ee35c0..a317830 100644
--- a/src/pycalendar/icalendar/vtodo.py
+++ b/src/pycalendar/icalendar/vtodo.py
@@ -34,31 +34,32 @@ class VToDo(ComponentRecur):
 
     @staticmethod
     def sort_for_display(e1, e2):
+        # This is used as a comparison function, so must return negative, zero or positive
         s1 = e1.getMaster()
         s2 = e2.getMaster()
 
         # Check status first (convert None -> Needs action for tests)
-        status1 = s1.self.mStatus
-        status2 = s2.self.mStatus
+        status1 = s1.mStatus
+        status2 = s2.mStatus
         if status1 == definitions.eStatus_VToDo_None:
             status1 = definitions.eStatus_VToDo_NeedsAction
         if status2 == definitions.eStatus_VToDo_None:
             status2 = definitions.eStatus_VToDo_NeedsAction
         if status1 != status2:
             # More important ones at the top
-            return status1 < status2
+            return cmp(status1, status2)
 
         # At this point the status of each is the same
 
         # If status is cancelled sort by start time
-        if s1.self.mStatus == definitions.eStatus_VToDo_Cancelled:
+        if status1 == definitions.eStatus_VToDo_Cancelled:
             # Older ones at the bottom
-            return s1.mStart > s2.mStart
+            return cmp(s2.mStart, s1.mStart)
 
         # If status is completed sort by completion time
-        if s1.self.mStatus == definitions.eStatus_VToDo_Completed:
+        if status1 == definitions.eStatus_VToDo_Completed:
             # Older ones at the bottom
-            return s1.self.mCompleted > s2.self.mCompleted
+            return cmp(s2.mCompleted, s1.mCompleted)
 
         # Check due date exists
         if s1.mHasEnd != s2.mHasEnd:
@@ -67,23 +68,23 @@ class VToDo(ComponentRecur):
 
             # Ones with due dates after today below ones without due dates
             if s1.hasEnd():
-                return s1.mEnd <= now
-            elif s2.hasEnd():
-                return now < s2.mEnd
+                return -1 if s1.mEnd <= now else 1
+            else:
+                return -1 if now < s2.mEnd else 1
 
         # Check due dates if present
         if s1.mHasEnd:
             if s1.mEnd != s2.mEnd:
                 # Soonest dues dates above later ones
-                return s1.mEnd < s2.mEnd
+                return cmp(s1.mEnd, s2.mEnd)
 
         # Check priority next
-        if s1.self.mPriority != s2.self.mPriority:
+        if s1.mPriority != s2.mPriority:
             # Higher priority above lower ones
-            return s1.self.mPriority < s2.self.mPriority
+            return cmp(s1.mPriority, s2.mPriority)
 
         # Just use start time - older ones at the top
-        return s1.mStart < s2.mStart
+        return cmp(s1.mStart, s2.mStart)
 
     propertyCardinality_1 = (
         definitions.cICalProperty_DTSTAMP,
-- 
2.43.0


From a895c256809df17ae6c0e246f6f40ca0b25df2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:29 +0000
Subject: [PATCH 123/131] fix: getVToDos, which listed nothing

---
 src/pycalendar/icalendar/calendar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index d13da84..ba0ad5e 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -510,8 +510,7 @@ class Calendar(ContainerBase):
                 elif not vtodo.hasEnd() and (today > upto_due_date):
                     continue
 
-            # TODO: fix this
-            # list.append(ComponentExpandedShared(ComponentExpanded(vtodo, None)))
+            list.append(ComponentExpanded(vtodo, None))
 
     def getRecurrenceInstancesItems(self, type, uid, items):
         # Get instances from list
-- 
2.43.0


From 191ae84e3acd4903017b6c395e7ab41c826082dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 124/131] fix: days of the month before in month tables

---
 src/pycalendar/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/utils.py b/src/pycalendar/utils.py
index 2c93821..d034304 100644
--- a/src/pycalendar/utils.py
+++ b/src/pycalendar/utils.py
@@ -505,7 +505,7 @@ def getMonthTable(month, year, weekstart, table, today_index):
         day = daysInMonth(temp.getMonth(), temp.getYear())
         back_col = initial_col - 1
         while(back_col >= 0):
-            table[row][back_col] = packDate(temp.getYear(), temp.getMonth(), -day)
+            table[0][back_col] = packDate(temp.getYear(), temp.getMonth(), -day)
 
             # Check on today
             if (temp.getYear() == today.getYear()) and (temp.getMonth() == today.getMonth()) and (day == today.getDay()):
-- 
2.43.0


From 47f534d58aab85febf7f6872146608bf9c8a58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:27 +0000
Subject: [PATCH 125/131] fix: UIDs made up by the library, which could not be
 made

---
 src/pycalendar/stringutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pycalendar/stringutils.py b/src/pycalendar/stringutils.py
index 92d2bb9..ed7aae7 100644
--- a/src/pycalendar/stringutils.py
+++ b/src/pycalendar/stringutils.py
@@ -106,4 +106,4 @@ def compareStringsSafe(s1, s2):
 
 
 def md5digest(txt):
-    return md5.new(txt).hexdigest()
+    return md5(txt).hexdigest()
-- 
2.43.0


From a64e72fdfe5cb5f358f6dab9571905378b6b1b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:55 +0000
Subject: [PATCH 126/131] fix: transitions that change nothing are no
 difference, whichever comes first

---
 src/zonal/tzverify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zonal/tzverify.py b/src/zonal/tzverify.py
index e5cce98..0cd1f3b 100755
--- a/src/zonal/tzverify.py
+++ b/src/zonal/tzverify.py
@@ -131,7 +131,7 @@ These cannot be checked.""" % (", ".join(sorted(missing)),)
         for i in set(d1):
             if i[0] == start:
                 d1.discard(i)
-                break
+                continue
             if i[2] == i[3]:
                 d1.discard(i)
         d2 = set2.difference(set1)
-- 
2.43.0


From d65f382d6a3a3919b1f28e7c9fc5b3462b0687ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 127/131] fix: comparing with tz source, whose changes had no
 UTC time

---
 src/zonal/tzverify.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/zonal/tzverify.py b/src/zonal/tzverify.py
index 0cd1f3b..4045c72 100755
--- a/src/zonal/tzverify.py
+++ b/src/zonal/tzverify.py
@@ -100,7 +100,14 @@ class CalendarZonesWrapper(object):
         if self.calendar:
             return getExpandedDates(self.calendar, tzid, start, end)
         elif self.zones:
-            return self.zones.expandZone(tzid, start.getYear(), end.getYear())
+            results = []
+            for dt, offsetfrom, offsetto in self.zones.expandZone(tzid, start.getYear() - 1, end.getYear()):
+                if dt >= start and dt < end:
+                    utcdt = dt.duplicate()
+                    utcdt.offsetSeconds(-offsetfrom)
+                    utcdt.setTimezoneUTC(True)
+                    results.append((dt, utcdt, offsetfrom, offsetto,))
+            return results
 
 
 def compareCalendars(calendar1, calendar2, start, end, filterTzids=(), verbose=False, quiet=False):
-- 
2.43.0


From 56898d85d3930c586b079e46539e305f9f876249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:19 +0000
Subject: [PATCH 128/131] fix: time zone answers from before its observances
 were added or removed

---
 src/pycalendar/icalendar/vtimezone.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index 7274e46..e1099ea 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -62,9 +62,24 @@ class VTimezone(Component):
         if ((comp.getType() == definitions.cICalComponent_STANDARD) or
                 (comp.getType() == definitions.cICalComponent_DAYLIGHT)):
             super(VTimezone, self).addComponent(comp)
+            self._clearCaches()
         else:
             raise ValueError("Only 'STANDARD' or 'DAYLIGHT' components allowed in 'VTIMEZONE'")
 
+    def removeComponent(self, component):
+        super(VTimezone, self).removeComponent(component)
+        self._clearCaches()
+
+    def removeAllComponent(self, compname=None):
+        super(VTimezone, self).removeAllComponent(compname)
+        self._clearCaches()
+
+    def _clearCaches(self):
+        # All of these were derived from the sub-components
+        self.mUTCOffsetSortKey = None
+        self.mCachedExpandAllMaxYear = None
+        self.mCachedOffsets = None
+
     def getMapKey(self):
         return self.mID
 
-- 
2.43.0


From 0a6c063fd5acdb660e5cf8846799d24a60038926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:57 +0000
Subject: [PATCH 129/131] fix: give floating times an instant when the default
 time zone is a named one

Expanding the rules of the default time zone sorts and hashes floating times, which asked for
the offset of the default time zone again, without end.
---
 src/pycalendar/datetime.py                | 26 ++++++++++++++++-------
 src/pycalendar/icalendar/recurrence.py    |  2 +-
 src/pycalendar/icalendar/recurrenceset.py |  8 +++----
 src/pycalendar/icalendar/vtimezone.py     |  2 +-
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index fecac8a..379e0a7 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -136,7 +136,7 @@ class DateTime(ValueMixin):
         return "DateTime: %s" % (self.getText(),)
 
     def __hash__(self):
-        return hash(self.getPosixTime())
+        return hash(self.getOrderTime())
 
     # Operators
     def __add__(self, duration):
@@ -257,13 +257,7 @@ class DateTime(ValueMixin):
         # Look for cached value (or floating time which has to be calculated
         # each time)
         if (not self.mPosixTimeCached) or self.floating():
-            result = 0L
-
-            # Add hour/mins/secs
-            result = (self.mHours * 60L + self.mMinutes) * 60L + self.mSeconds
-
-            # Number of days since 1970
-            result += self.daysSince1970() * 24L * 60L * 60L
+            result = self.getLocalSeconds()
 
             # Adjust for timezone offset
             result -= self.timeZoneSecondsOffset()
@@ -274,6 +268,22 @@ class DateTime(ValueMixin):
 
         return self.mPosixTime
 
+    def getLocalSeconds(self):
+        # Add hour/mins/secs
+        result = (self.mHours * 60L + self.mMinutes) * 60L + self.mSeconds
+
+        # Number of days since 1970
+        result += self.daysSince1970() * 24L * 60L * 60L
+
+        return result
+
+    def getOrderTime(self):
+        """
+        The value to hash and sort by. Floating times are ordered by their local time alone: the default
+        timezone has no part in it, as its own rules are expanded using floating times.
+        """
+        return self.getLocalSeconds() if self.floating() else self.getPosixTime()
+
     def isDateOnly(self):
         return self.mDateOnly
 
diff --git a/src/pycalendar/icalendar/recurrence.py b/src/pycalendar/icalendar/recurrence.py
index 20e56af..8150f3f 100644
--- a/src/pycalendar/icalendar/recurrence.py
+++ b/src/pycalendar/icalendar/recurrence.py
@@ -1030,7 +1030,7 @@ class Recurrence(ValueMixin):
     def sortUnique(self, dates):
         # Different BYxxx values can produce the same date-time (e.g. BYMONTHDAY=31,-1),
         # but a recurrence set only ever contains it once
-        dates.sort(key=lambda x: x.getPosixTime())
+        dates.sort(key=lambda x: x.getOrderTime())
         unique = []
         for iter in dates:
             if not unique or iter != unique[-1]:
diff --git a/src/pycalendar/icalendar/recurrenceset.py b/src/pycalendar/icalendar/recurrenceset.py
index 3dd893f..435b755 100644
--- a/src/pycalendar/icalendar/recurrenceset.py
+++ b/src/pycalendar/icalendar/recurrenceset.py
@@ -108,8 +108,8 @@ class RecurrenceSet(object):
         dt1 = dates1[:]
         dt2 = dates2[:]
 
-        dt1.sort(key=lambda x: x.getPosixTime())
-        dt2.sort(key=lambda x: x.getPosixTime())
+        dt1.sort(key=lambda x: x.getOrderTime())
+        dt2.sort(key=lambda x: x.getOrderTime())
 
         return dt1 == dt2
 
@@ -201,7 +201,7 @@ class RecurrenceSet(object):
 
         # Make sure the list is unique
         include = [x for x in set(include)]
-        include.sort(key=lambda x: x.getPosixTime())
+        include.sort(key=lambda x: x.getOrderTime())
 
         # Now create list of items to exclude
         exclude = []
@@ -220,7 +220,7 @@ class RecurrenceSet(object):
 
         # Make sure the list is unique
         exclude = [x for x in set(exclude)]
-        exclude.sort(key=lambda x: x.getPosixTime())
+        exclude.sort(key=lambda x: x.getOrderTime())
 
         # Add difference between to the two sets (include - exclude) to the
         # results
diff --git a/src/pycalendar/icalendar/vtimezone.py b/src/pycalendar/icalendar/vtimezone.py
index e1099ea..9be089c 100644
--- a/src/pycalendar/icalendar/vtimezone.py
+++ b/src/pycalendar/icalendar/vtimezone.py
@@ -283,7 +283,7 @@ class VTimezone(Component):
             utcdt.setTimezoneUTC(True)
             items.insert(1, utcdt)
             utc_results.append(tuple(items))
-        utc_results.sort(key=lambda x: x[0].getPosixTime())
+        utc_results.sort(key=lambda x: x[0].getOrderTime())
         return utc_results
 
     def sortedPropertyKeyOrder(self):
-- 
2.43.0


From cc1283fa14b56b59f30f802954d53fc5814318a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:57 +0000
Subject: [PATCH 130/131] fix: let the instant of a floating time follow a
 change of the default time zone

getPosixTime works it out each time for that reason, but with an offset that was remembered.
---
 src/pycalendar/datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pycalendar/datetime.py b/src/pycalendar/datetime.py
index 379e0a7..cc1a45d 100644
--- a/src/pycalendar/datetime.py
+++ b/src/pycalendar/datetime.py
@@ -1151,7 +1151,8 @@ class DateTime(ValueMixin):
     def timeZoneSecondsOffset(self, relative_to_utc=False):
         if self.mTZUTC:
             return 0
-        if self.mTZOffset is None:
+        # The offset of a floating time follows the default timezone, so has to be calculated each time
+        if self.mTZOffset is None or self.floating():
             tz = Timezone(utc=self.mTZUTC, tzid=self.mTZID)
             self.mTZOffset = tz.timeZoneSecondsOffset(self, relative_to_utc)
         return self.mTZOffset
-- 
2.43.0


From 5681a0e3363948ad4f20fc5ae471ab312f03d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:59 +0000
Subject: [PATCH 131/131] fix: free-busy when events with floating and with
 zoned times are mixed

The periods were merged in the order of their local times, which lost those that came earlier.
---
 src/pycalendar/icalendar/calendar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pycalendar/icalendar/calendar.py b/src/pycalendar/icalendar/calendar.py
index ba0ad5e..cfdfa56 100644
--- a/src/pycalendar/icalendar/calendar.py
+++ b/src/pycalendar/icalendar/calendar.py
@@ -554,6 +554,9 @@ class Calendar(ContainerBase):
         if len(periods) == 0:
             return
 
+        # Order by the actual times: events with floating times are listed by their local time
+        periods.sort(key=lambda x: x.getStart().getPosixTime())
+
         # Create non-overlapping periods as properties in the freebusy component
         temp = periods[0]
         for next in periods[1:]:
-- 
2.43.0

