From a10e5004360a26a66f6d4b32919bc46949856487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 01/66] fix: let the last supported year be reached from a
 Julian day or ordinal

---
 badidatetime/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index e5e87c3..d63b078 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -114,7 +114,7 @@ def init_leap_cache():
     """
     bc = BahaiCalendar
     bc._YEAR_START = BahaiCalendar()._build_badi_year_start()
-    bc._RD_END = bc._YEAR_START[bc.MAXYEAR]
+    bc._RD_END = bc._YEAR_START[bc.MAXYEAR + 1] - 1
 
 
 if BahaiCalendar._YEAR_START is None:
-- 
2.43.0


From e4dbee02de7173694ae3dddf78b1701772294302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 02/66] fix: exact Gregorian date from a Julian day was wrong
 after year 4713

---
 badidatetime/gregorian_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 19212ff..f34e9b9 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -112,8 +112,8 @@ class GregorianCalendar(BaseCalendar):
         if exact:  # An astronomically correct algorithm.
             # Get the number of days since the Gregorian epoch.
             md = jd - (self._GREGORIAN_EPOCH - 1)
-            year = math.floor(abs(md / self._MEAN_TROPICAL_YEAR)) + 1
-            year *= -1 if md < (self._GREGORIAN_EPOCH - 1) else 1
+            # Start before the estimated year, it is refined below.
+            year = math.floor(md / self._MEAN_TROPICAL_YEAR) - 1
             # Refine the number of days since the epoch for the date.
             td = self._days_in_years(year, alt=alt)
             days = md - td
-- 
2.43.0


From 69138fc7fa6e27c34e49992b59be0e498422bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:40 +0000
Subject: [PATCH 03/66] fix: time <= time compared a naive with an aware time
 instead of raising TypeError

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2ccd727..a0ea5a5 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1202,7 +1202,7 @@ class time:
                 if isinstance(other, time) else NotImplemented)
 
     def __le__(self, other):
-        return (self._cmp(other, time) <= 0 if isinstance(other, time)
+        return (self._cmp(other) <= 0 if isinstance(other, time)
                 else NotImplemented)
 
     def __lt__(self, other):
-- 
2.43.0


From 9e23c0ec5d91130f34a4f9b6c78a2f4309f83a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:11 +0000
Subject: [PATCH 04/66] =?UTF-8?q?fix:=20dates=20and=20datetimes=20in=20Ayy?=
 =?UTF-8?q?=C3=A1m-i-H=C3=A1=20could=20not=20be=20pickled=20or=20copied?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index a0ea5a5..89d11b7 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -910,8 +910,8 @@ class date(BahaiCalendar):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 4 else False
 
-            if ((short and 1 <= ord(a[2:3]) <= 19)
-                or not short and 1 <= ord(a[3:4]) <= 19):
+            if ((short and 0 <= ord(a[2:3]) <= 19)
+                or not short and 0 <= ord(a[3:4]) <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
@@ -2530,8 +2530,8 @@ class datetime(date):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 10 else False
 
-            if ((short and 1 <= ord(a[2:3]) & 0x7F <= 19)
-                or not short and 1 <= ord(a[3:4]) & 0x7F <= 19):
+            if ((short and 0 <= ord(a[2:3]) & 0x7F <= 19)
+                or not short and 0 <= ord(a[3:4]) & 0x7F <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
-- 
2.43.0


From 76252ce6e9e751a33120f1781b2084a1c380d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 05/66] fix: times with hour 24, time.max included, could not
 be pickled or copied

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 89d11b7..1591d3c 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1102,7 +1102,7 @@ class time:
         :rtype: time
         """
         if (isinstance(hour, (bytes, str)) and len(hour) == 6 and
-            ord(hour[0:1]) & 0x7F < 24):
+            ord(hour[0:1]) & 0x7F < 25):
             # Pickle support
             if isinstance(hour, str):
                 try:
-- 
2.43.0


From d9ba6f5544bd39f092f500567e8c3dac27a9ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 06/66] fix: an unpickled TZWithCoords lost its zone and its
 name

---
 badidatetime/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 1591d3c..e9e4867 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2945,7 +2945,9 @@ class TZWithCoords(timezone):
         if zone is not None:
             self._offset = timedelta(hours=zone)
 
+        self.zone = zone
         self.key = key
+        self._name = None if key == "" else key
         self._coords = (self.lat, self.lon, zone)
 
 
-- 
2.43.0


From c02ff2b2afd62e1ef57d9e887cd8e4483ef56bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:38 +0000
Subject: [PATCH 07/66] fix: fromzoneinfo changed the daylight saving of every
 TZWithCoords object

---
 badidatetime/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index e9e4867..9bffb78 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2905,8 +2905,9 @@ class TZWithCoords(timezone):
         :returns: A TZWithCoords object.
         :rtype: TZWithCoords
         """
-        cls._zi = zoneinfo
-        return cls(lat, lon, zone, key=zoneinfo.key)
+        self = cls(lat, lon, zone, key=zoneinfo.key)
+        self._zi = zoneinfo
+        return self
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 82c1aea961ce289ba0da2d5f311b47bf399e7c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 08/66] fix: a copied or unpickled TZWithCoords lost the zone
 info its daylight saving comes from

---
 badidatetime/datetime.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 9bffb78..81e67d0 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2930,8 +2930,12 @@ class TZWithCoords(timezone):
         :returns: The class data.
         :rtype: tuple
         """
-        return (self.__class__, (self.lat, self.lon),
-                {"zone": self._coords[2], "key": self.key})
+        state = {"zone": self._coords[2], "key": self.key}
+
+        if hasattr(self, '_zi'):
+            state["zi"] = self._zi
+
+        return (self.__class__, (self.lat, self.lon), state)
 
     def __setstate__(self, state: dict) -> None:
         """
@@ -2951,6 +2955,9 @@ class TZWithCoords(timezone):
         self._name = None if key == "" else key
         self._coords = (self.lat, self.lon, zone)
 
+        if "zi" in state:
+            self._zi = state["zi"]
+
 
 UTC = timezone.utc = TZWithCoords(*GMT_COORD, key='UTC')
 BADI = timezone.badi = TZWithCoords(*BADI_COORD, key=BADI_IANA)
-- 
2.43.0


From 6054d00c1f7ce04398a02f8c424f88ff37d165d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 09/66] =?UTF-8?q?fix:=20isoformat=20of=20a=20long=20form?=
 =?UTF-8?q?=20datetime=20gave=20the=20year=20in=20the=20V=C3=A1=E1=B8=A5id?=
 =?UTF-8?q?=20as=20the=20year?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 81e67d0..c3333c0 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2190,7 +2190,7 @@ class datetime(date):
         :returns: An ISO formatted string.
         :rtype: str
         """
-        s = (f"{self._year:04d}-{self._month:02d}-{self._day:02d}{sep}" +
+        s = (_date_class.isoformat(self) + sep +
              _format_time(self._hour, self._minute, self._second,
                           self._microsecond, timespec))
 
-- 
2.43.0


From b381bc429b47495230e97f311235f987890be96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 10/66] fix: the day of a YYYYMMDD ISO date was misread

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 2456039..f02ed60 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1244,7 +1244,7 @@ class TimeDateUtils(BahaiCalendar):
         if dc == 1 and d_len == 7 and not wc:    # YYYY-MM
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
-            date = (year, int(dtstr[4:6]), int(dtstr[7:9]))
+            date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
         elif dc == 2 and not wc:                 # YYYY-MM-DD
             date = (year, int(dtstr[5:7]), int(dtstr[8:10]))
         # YYYYWww, YYYY-Www, YYYYWwwD, YYYY-Www-D
-- 
2.43.0


From 95a8c94e28aca7ccc0fe3c2904c41d4df8eac010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 11/66] fix: the minutes of a negative ISO offset were added
 instead of subtracted

---
 badidatetime/_timedateutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index f02ed60..030437d 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1411,6 +1411,7 @@ class TimeDateUtils(BahaiCalendar):
                 offset = [int(x) for x in tzstr[1:].split(':')]
                 offset[0] = offset[0] * -1 if nc else offset[0]
                 offset += [0] if len(offset) == 1 else []
+                offset[1] = offset[1] * -1 if nc else offset[1]
                 tz = timezone(timedelta(hours=offset[0], minutes=offset[1]))
         else:
             tz = None
-- 
2.43.0


From 8c7b9b3c34d307343eef59a3506a8fd972d15901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 12/66] fix: an ISO day of the year past the end of the year
 was accepted

---
 badidatetime/_timedateutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 030437d..ee226ff 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1264,6 +1264,10 @@ class TimeDateUtils(BahaiCalendar):
             month_days = list(self._BADI_MONTH_NUM_DAYS)
             month_days[18] = (0, 4 + self._is_leap_year(year))
             days = int(dtstr[4:7] if dc == 0 else dtstr[5:8])
+            y_len = sum([ds for month, ds in month_days])
+            assert 1 <= days <= y_len, (
+                f"Invalid day of the year '{days}', it must be in the range "
+                f"of [1, {y_len}].")
 
             for month, ds in month_days:
                 if days <= ds: break
-- 
2.43.0


From f76b62a944f7b118f9f2e9f8ef64fedb8bc1876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 13/66] fix: the ISO date isoformat gives for the years -999 to
 -1 could not be parsed

---
 badidatetime/_timedateutils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index ee226ff..b06fa98 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1226,6 +1226,11 @@ class TimeDateUtils(BahaiCalendar):
 
         if dtstr != '':
             neg = dtstr[0] == '-'
+
+            # The isoformat method pads a negative year to three digits.
+            if neg and dtstr[4:5] == '-':
+                dtstr = f"-0{dtstr[1:]}"
+
             year = int(dtstr[:4 + neg])
             assert _td_utils.MINYEAR <= year <= _td_utils.MAXYEAR, (
                 f"Year is out of range: {year}, min {_td_utils.MINYEAR}, "
-- 
2.43.0


From 73bfd8be0604aca11a43cdb12e8c6147d153a6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 14/66] fix: an ISO date with digits after the day, or
 misplaced hyphens, was accepted

---
 badidatetime/_timedateutils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index b06fa98..1fe0fec 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1250,7 +1250,8 @@ class TimeDateUtils(BahaiCalendar):
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
             date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
-        elif dc == 2 and not wc:                 # YYYY-MM-DD
+        elif (dc == 2 and d_len == 10 and not wc
+              and dtstr[4] == dtstr[7] == '-'):  # YYYY-MM-DD
             date = (year, int(dtstr[5:7]), int(dtstr[8:10]))
         # YYYYWww, YYYY-Www, YYYYWwwD, YYYY-Www-D
         elif wc and 7 <= d_len <= 10:
@@ -1265,7 +1266,8 @@ class TimeDateUtils(BahaiCalendar):
                 f"Invalid ISO string {dtstr}.")
             day = int(d) if d.isdigit() else 1
             date = self._isoweek_to_badi(year, wday, day, short=True)[:3]
-        elif d_len in (7, 8):                    # YYYYDDD or YYYY-DDD
+        # YYYYDDD or YYYY-DDD
+        elif dc in (0, 1) and d_len == 7 + dc and not wc:
             month_days = list(self._BADI_MONTH_NUM_DAYS)
             month_days[18] = (0, 4 + self._is_leap_year(year))
             days = int(dtstr[4:7] if dc == 0 else dtstr[5:8])
-- 
2.43.0


From e0508547c941e2fcafcd86b713bdc1a6c45ff85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 15/66] fix: datetime.fromisoformat took the day of a date
 without a time for a UTC offset

---
 badidatetime/_timedateutils.py | 13 ++++++++++++-
 badidatetime/datetime.py       |  4 ++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 1fe0fec..7280421 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1186,11 +1186,22 @@ class TimeDateUtils(BahaiCalendar):
 
         tz_chars = ('Z', 'B', '+', '-')
         init_chars = ('T', ' ') + tz_chars
+
+        # Without any of these the hyphens may all belong to the date.
+        if not any([c in dtstr for c in init_chars if c != '-']):
+            try:
+                date = self._parse_isoformat_date(dtstr)
+            except (AssertionError, ValueError):
+                date = ()
+
+            if date:
+                return date, (), None
+
         idx = find_index(dtstr, init_chars)
         str_date = dtstr[:idx]
         date = self._parse_isoformat_date(str_date) if str_date else ()
         str_other = dtstr[idx:]
-        tz_1st = str_other[0] in tz_chars
+        tz_1st = str_other[:1] in tz_chars
 
         if tz_1st:
             tz = (self._parse_isoformat_timezone(str_other)
diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index c3333c0..125d5f6 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1923,6 +1923,10 @@ class datetime(date):
         """
         date, time, tz = _td_utils._parse_isoformat_date_time_timezone(
             date_string)
+
+        if date == ():
+            raise ValueError(f"Invalid isoformat string: {date_string!r}.")
+
         t_len = len(time)
         time = list(time)
         time += [0 for v in range(4 - t_len)]
-- 
2.43.0


From 3e907a9c37545e85012779b35e0f66208feee90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 16/66] fix: splitting fractional seconds lost a microsecond or
 gave a million of them

---
 badidatetime/base_calendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index b18648b..3e34087 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -39,7 +39,9 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
     _PARTIAL_DAY_TO_HOURS = lambda self, x: round((x % 1) * 24, 6)
     _PARTIAL_HOUR_TO_MINUTE = lambda self, x: round((x % 1) * 60, 6)
     _PARTIAL_MINUTE_TO_SECOND = _PARTIAL_HOUR_TO_MINUTE
-    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: int(round(x % 1, 6) * 1e6)
+    # The result never reaches one million, that would be another second.
+    _PARTIAL_SECOND_TO_MICROSECOND = lambda self, x: min(
+        round((x % 1) * 1e6), 999999)
 
     _MEAN_TROPICAL_YEAR = 365.2421897
     # MEAN_SIDEREAL_YEAR = 365.256363004
-- 
2.43.0


From ef8142d69bff4223aab2b003c606dbfdcd69a85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 17/66] fix: a fractional hour or minute could give minute 60
 or second 60

---
 badidatetime/datetime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 125d5f6..8183236 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1681,16 +1681,17 @@ class datetime(date):
         fractionals(minute, (second, microsecond))
         fractionals(second, (microsecond,))
 
+        # A rounded fraction never reaches the next hour or minute.
         if hour % 1:
-            mm = self._PARTIAL_HOUR_TO_MINUTE(hour)
-            ss = self._PARTIAL_MINUTE_TO_SECOND(mm)
+            mm = min(self._PARTIAL_HOUR_TO_MINUTE(hour), 59.999999)
+            ss = min(self._PARTIAL_MINUTE_TO_SECOND(mm), 59.999999)
             self._hour = _math.floor(hour)
             self._minute = _math.floor(mm)
             self._second = _math.floor(ss)
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(ss)
         elif minute % 1:
             self._hour = hour
-            ss = self._PARTIAL_MINUTE_TO_SECOND(minute)
+            ss = min(self._PARTIAL_MINUTE_TO_SECOND(minute), 59.999999)
             self._minute = _math.floor(minute)
             self._second = _math.floor(ss)
             self._microsecond = self._PARTIAL_SECOND_TO_MICROSECOND(ss)
-- 
2.43.0


From 316f3d87eec7230826fc84fa8f869f314b78b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:34 +0000
Subject: [PATCH 18/66] fix: the timestamp of a naive datetime counted its
 microseconds twice

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 8183236..b837ae6 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1964,7 +1964,7 @@ class datetime(date):
         :rtype: float
         """
         if self.tzinfo is None:
-            return self._mktime() + self.microsecond / 1e6
+            return self._mktime()
         else:
             return (self - _EPOCH).total_seconds()
 
-- 
2.43.0


From a5f0cbb9568bb129fde6f3e8146d65ba505b9e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 19/66] fix: an ISO week number that the year does not have was
 accepted

---
 badidatetime/_timedateutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 7280421..0a9f870 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1143,6 +1143,8 @@ class TimeDateUtils(BahaiCalendar):
                     out_of_range = False
 
                 assert not out_of_range, f"Invalid week: {week}"
+            else:  # These years always have 52 weeks.
+                assert week == 52, f"Invalid week: {week}"
 
         assert 0 < day < 8, f"Invalid weekday: {day} (range is [1, 7])"
         # Now compute the offset from (Y, 1, 1) in days:
-- 
2.43.0


From b3eb87c6e40047ea783ca688917c5fb5dc2a741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 20/66] =?UTF-8?q?fix:=20the=20date=20of=20a=20long=20form?=
 =?UTF-8?q?=20datetime=20lost=20its=20Kull-i-Shay=20and=20V=C3=A1=E1=B8=A5?=
 =?UTF-8?q?id?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index b837ae6..54723f9 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1997,7 +1997,7 @@ class datetime(date):
         :returns: The date part of the `datetime` instance.
         :rtype: date
         """
-        return date(self._year, self._month, self._day)
+        return date(*self.b_date)
 
     def time(self):
         """
-- 
2.43.0


From c9cbb7c6c349660063f7a59dd8d628eeae2f8a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 21/66] =?UTF-8?q?fix:=20the=20timestamp=20of=20a=20long=20?=
 =?UTF-8?q?form=20datetime=20used=20the=20year=20in=20the=20V=C3=A1?=
 =?UTF-8?q?=E1=B8=A5id=20as=20the=20year?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 54723f9..42e478e 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1953,7 +1953,8 @@ class datetime(date):
         :returns: The POSIX timestamp.
         :rtype: float
         """
-        return self.timestamp_from_badi_date(self.b_date + self.b_time,
+        b_date = _date_class._short_from_long_form(self)[:3]
+        return self.timestamp_from_badi_date(b_date + self.b_time,
                                              *LOCAL_COORD)
 
     def timestamp(self) -> float:
-- 
2.43.0


From 4e89305be341bd44f2c617bd2ae56108e6a14ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:00 +0000
Subject: [PATCH 22/66] =?UTF-8?q?fix:=20Ayy=C3=A1m-i-H=C3=A1=20sorted=20be?=
 =?UTF-8?q?fore=20the=20first=20month,=20and=20long=20form=20dates=20did?=
 =?UTF-8?q?=20not=20compare=20with=20short=20form=20dates?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 42e478e..a535152 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -775,17 +775,18 @@ class date(BahaiCalendar):
         :rtype: int
         """
         assert isinstance(other, date)
+        return _cmp(self._cmp_key(), other._cmp_key())
 
-        if self.is_short:
-            d0 = self._year, self._month, self._day
-            d1 = other._year, other._month, other._day
-        else:
-            d0 = (self._kull_i_shay, self._vahid, self._year,
-                  self._month, self._day)
-            d1 = (other._kull_i_shay, other._vahid, other._year,
-                  other._month, other._day)
+    def _cmp_key(self) -> tuple:
+        """
+        Get the short form date, in calendar order, of the `self` instance.
+        Ayyám-i-Há (month 0) falls between the 18th and the 19th month.
 
-        return _cmp(d0, d1)
+        :returns: A tuple that sorts dates in calendar order.
+        :rtype: tuple
+        """
+        year, month, day = date._short_from_long_form(self)[:3]
+        return year, 18.5 if month == 0 else month, day
 
     def __hash__(self) -> int:
         """
@@ -2403,10 +2404,10 @@ class datetime(date):
             base_compare = myoff == otoff
 
         if base_compare:
-            return _cmp((self._year, self._month, self._day, self._hour,
-                         self._minute, self._second, self._microsecond),
-                        (other._year, other._month, other._day, other._hour,
-                         other._minute, other._second, other._microsecond))
+            return _cmp((self._cmp_key(), self._hour, self._minute,
+                         self._second, self._microsecond),
+                        (other._cmp_key(), other._hour, other._minute,
+                         other._second, other._microsecond))
 
         if myoff is None or otoff is None:
             if allow_mixed:
-- 
2.43.0


From 6e13d95b2d2678a4260154baca1bd6d58065b814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 23/66] fix: equal long and short form dates and datetimes had
 different hashes

---
 badidatetime/datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index a535152..2cb0ed3 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -796,7 +796,7 @@ class date(BahaiCalendar):
         :rtype: int
         """
         if self._hashcode == -1:
-            self._hashcode = hash(self._getstate())
+            self._hashcode = hash(self._cmp_key())
 
         return self._hashcode
 
@@ -2507,9 +2507,9 @@ class datetime(date):
             tzoff = t.utcoffset()
 
             if tzoff is None:
-                self._hashcode = hash(t._getstate()[0])
+                self._hashcode = hash((self._cmp_key(), self.b_time))
             else:
-                days = _td_utils._ymd2ord(self.year, self.month, self.day)
+                days = self.toordinal()
                 seconds = self.hour * 3600 + self.minute * 60 + self.second
                 self._hashcode = hash(timedelta(days, seconds,
                                                 self.microsecond) - tzoff)
-- 
2.43.0


From d6ac29fe527733456f221a31133a1bccb1db91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 24/66] fix: the last milliseconds of a day became hour 24, and
 the short form then read them as the next day

---
 badidatetime/base_calendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 3e34087..29860e0 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -36,7 +36,9 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
     # The inline functions below will assume that 0 is midnight, if
     # converting from a Julian Period day add 0.5 to the value before
     # calling the function.
-    _PARTIAL_DAY_TO_HOURS = lambda self, x: round((x % 1) * 24, 6)
+    # The result never reaches 24 hours, that would be another day.
+    _PARTIAL_DAY_TO_HOURS = lambda self, x: min(
+        round((x % 1) * 24, 6), 23.999999)
     _PARTIAL_HOUR_TO_MINUTE = lambda self, x: round((x % 1) * 60, 6)
     _PARTIAL_MINUTE_TO_SECOND = _PARTIAL_HOUR_TO_MINUTE
     # The result never reaches one million, that would be another second.
-- 
2.43.0


From ab66991e04e5a2e10b533019fe0cef752f67dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:53 +0000
Subject: [PATCH 25/66] fix: strftime dropped characters after a hyphen or
 colon, and misread %% and a trailing %

---
 badidatetime/_timedateutils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 0a9f870..9484b01 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -888,7 +888,8 @@ class TimeDateUtils(BahaiCalendar):
                 ch1 = format[idx+i]
                 strf += self.__METHOD_LOOKUP[ch1](
                     self, ttup, ch1, ch0 if i == 2 else '')
-            elif format[idx-1] not in '%-:':
+                idx += i  # Skip the rest of the directive.
+            elif ch != '%':
                 strf += ch
 
             idx += 1
@@ -907,17 +908,20 @@ class TimeDateUtils(BahaiCalendar):
         while idx < fmtlen:
             ch = format[idx]
 
-            if ch == '%' and format[idx-1] != '%':
+            if ch == '%' and idx+1 < fmtlen:
                 ch0 = format[idx+1]
                 i = 2 if ch0 in '-:' else 1
-                ch1 = format[idx+i]
+                ch1 = format[idx+i:idx+i+1]
 
-                if ((ch1 not in self._VALID_FORMAT_CHRS) or
+                if (ch1 == '' or
+                    (ch1 not in self._VALID_FORMAT_CHRS) or
                     (ch0 == '-' and ch1 not in 'dHjlmMSy') or
                     (ch0 == ':' and ch1 not in 'KVz')):
                     raise ValueError(
                         f"Invalid format character '{format[idx:idx+i+1]}'")
 
+                idx += i  # Skip the rest of the directive.
+
             idx += 1
 
         if fmtlen == 0:
-- 
2.43.0


From c4c05aefa754aa4b26f3cc8e95275e5dad9a04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 26/66] fix: strftime rejected its own %w directive

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 9484b01..eef9cf6 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -20,7 +20,7 @@ class TimeDateUtils(BahaiCalendar):
     use is through a pre-instantiated object _td_utils.
     """
     # Badi additions are %:K for Kull-i-Shay and %:V for Váḥid.
-    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVWxXyYzZ%'
+    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVwWxXyYzZ%'
     """
     str: A list of all the format characters.
     """
-- 
2.43.0


From bf5c1a05378e57ecdd489f478de8c8b2746d5748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 27/66] fix: strptime read the 1 based %u weekday as a 0 based
 one

---
 badidatetime/_strptime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index 0aa2800..df4fdd2 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -372,6 +372,11 @@ class StrpTime:
     def start(self):
         found, locale_time = self._find_regex()
         dot_dict = self._parse_found_dict(found, locale_time)
+
+        # The %u directive counts the weekdays from 1, all others from 0.
+        if 'u' in found.groupdict():
+            dot_dict.weekday -= 1
+
         self._check_iso_week(dot_dict)
         self._miscellaneous(dot_dict)
         # Always returns a short form Badi date--for now.
-- 
2.43.0


From 42b62e2a95c4ec19070064315b4736eb66608620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 28/66] fix: the struct_time of a UTC datetime had no tm_gmtoff

---
 badidatetime/_structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_structures.py b/badidatetime/_structures.py
index 7e89a55..c542232 100644
--- a/badidatetime/_structures.py
+++ b/badidatetime/_structures.py
@@ -177,7 +177,8 @@ class struct_time:
                     date[-1] = 0
 
         offset = dt.utcoffset()
-        total_seconds = offset.total_seconds() if offset else None
+        total_seconds = (None if offset is None
+                         else offset.total_seconds())
 
         if tzinfo and hasattr(tzinfo, 'tzname'):
             tm_zone = tzinfo.tzname(dt)
-- 
2.43.0


From 0910169863644304c571b18f0ddba55d31f013d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:19 +0000
Subject: [PATCH 29/66] fix: a coordinate converted with the full word latitude
 got a longitude direction

---
 badidatetime/base_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 29860e0..8c17ad1 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1104,9 +1104,9 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         seconds = (abs(coord) - degrees - (minutes / 60)) * 3600
 
         if coord < 0:
-            direc = 'S' if direction == 'LAT' else 'W'
+            direc = 'S' if direction[:3] == 'LAT' else 'W'
         else:
-            direc = 'N' if direction == 'LAT' else 'E'
+            direc = 'N' if direction[:3] == 'LAT' else 'E'
 
         return degrees, minutes, seconds, direc
 
-- 
2.43.0


From a56332c514395ec1b42168db9fef01a1205064a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:23 +0000
Subject: [PATCH 30/66] fix: two days in each of twelve years could not be
 converted to or from a Julian day

---
 badidatetime/badi_calendar.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 91df1e2..3158308 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -201,11 +201,11 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         # The day may have a decimal component. ex. 1.5 = (1 day and 12 hours)
         # This day is relative to UTC time, so we need to compensate for Badí'
         # time since a Badí' day starts at sunset, not at midnight.
+        # The sunset is converted back with the same difference, it may fall on
+        # the other side of one of the days the historic algorithm skips.
+        jd += self._get_day_coeff(year)
         jd0 = self._meeus_from_exact(jd)
-        coeff = self._get_day_coeff(year)
-        jd0 += coeff
-        jd_ss = self._sun_setting(jd0, lat, lon)
-        a_ss = self._exact_from_meeus(jd_ss)
+        a_ss = self._sun_setting(jd0, lat, lon) - (jd0 - jd)
         day_frac = self._decimal_day_from_hms(hh, mm, ss, us)
         return round(a_ss + day_frac, self._ROUNDING_PLACES)
 
@@ -790,8 +790,10 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         :rtype: float
         """
         def get_sunset(hist_jd, inc):
+            # Converted back with the same difference, the sunset may fall on
+            # the other side of a day that the historic algorithm skips.
             ss = self._sun_setting(hist_jd + inc, lat, lon)
-            return self._exact_from_meeus(ss)
+            return ss - (hist_jd - jd)
 
         hist_jd = self._meeus_from_exact(jd)
         ss_prev = get_sunset(hist_jd, -1)
-- 
2.43.0


From 792a0a42dc23336688055d70261db8be29b4b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 31/66] fix: the microseconds of a date were added to its day
 fraction as seconds of a million per day

---
 badidatetime/badi_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 3158308..e5dccbb 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -396,7 +396,7 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         kull_i_shay, vahid, year, month, day = b_date[:5]
         hour, minute, second, us = self._get_hms(b_date)
         day += round(self._HR(hour) + self._MN(minute) + self._SEC(second) +
-                     self._US(us), 6)  # Round to 6 decimal places
+                     self._SEC(self._US(us)), 6)  # Round to 6 decimal places
         date = (kull_i_shay, vahid, year, month, day)
         return (self.short_date_from_long_date(
             date, trim=True) if short else date)
-- 
2.43.0


From 6b2a614ac9301c1f83b5f61fe87cb20b1d039e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 32/66] =?UTF-8?q?fix:=20rounding=20a=20Julian=20day=20to?=
 =?UTF-8?q?=20the=20nearest=20Bad=C3=AD'=20day=20could=20give=20day=2020?=
 =?UTF-8?q?=20of=20a=20month?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/badi_calendar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index e5dccbb..2472cc1 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -250,6 +250,11 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         local_civil_day = math.floor(astro_ss + lon / 360.0 + 0.5)
         civil_epoch = math.floor(self.PROLEPTIC_GREG_1ST_DAY + 0.5)
         rd = local_civil_day - civil_epoch + 1
+
+        # The nearest day may be in the next month or year.
+        if rtd:
+            rd += round(frac)
+
         year = self._badi_year_from_rd(rd)
         year_start_rd = self._YEAR_START[year]
         doy = rd - year_start_rd + 1
@@ -268,7 +273,6 @@ class BahaiCalendar(BaseCalendar, Coefficients):
         if fraction:
             b_date = year, month, round(day + frac, 6)
         elif rtd:
-            day = round(day + frac)
             b_date = year, month, day
 
             if not short:
-- 
2.43.0


From a6734e6f16df76d9f79e2b641cdc4b5e9106e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 33/66] fix: the fraction of the last instant of a month could
 round to day 20

---
 badidatetime/badi_calendar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/badi_calendar.py b/badidatetime/badi_calendar.py
index 2472cc1..c8ea14d 100644
--- a/badidatetime/badi_calendar.py
+++ b/badidatetime/badi_calendar.py
@@ -271,7 +271,8 @@ class BahaiCalendar(BaseCalendar, Coefficients):
             day = doy - (342 + ayyamiha)
 
         if fraction:
-            b_date = year, month, round(day + frac, 6)
+            # The fraction never reaches 1, that would be another day.
+            b_date = year, month, round(day + min(frac, 0.999999), 6)
         elif rtd:
             b_date = year, month, day
 
-- 
2.43.0


From 2a326dcfbaf07e98eae51d1aaa9e88bddc94845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 34/66] fix: a time of day let a date in the gap of the
 Gregorian reform through

---
 badidatetime/gregorian_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index f34e9b9..5f3b928 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -61,7 +61,7 @@ class GregorianCalendar(BaseCalendar):
             jd = round(days, self._ROUNDING_PLACES)
         else:  # Meeus historically correct algorithm
             if (year, month) == (1582, 10):
-                assert day not in (5, 6, 7, 8, 9, 10, 11, 12, 13, 14), (
+                assert not 5 <= day < 15, (
                     f"The days 5-14 in 1582-10 are invalid, found day '{day}'."
                     )
 
-- 
2.43.0


From 5550f89514242d69b97c4d0d28181048f06ef14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:22 +0000
Subject: [PATCH 35/66] fix: equal times, one of them with hour 24, had
 different hashes

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2cb0ed3..1d0d18e 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1285,7 +1285,7 @@ class time:
                 assert not m % timedelta(minutes=1), "Must be a whole minute."
                 m //= timedelta(minutes=1)
 
-                if 0 <= h < 24:
+                if 0 <= h < 25:  # The hour can be 24.
                     self._hashcode = hash(time(h, m, self.second,
                                                self.microsecond))
                 else:
-- 
2.43.0


From ce157ae662133c51df513a597b4c830450f80bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 36/66] fix: the string of a long form datetime dropped the
 leading zeros of its microseconds

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 1d0d18e..decd37f 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2258,7 +2258,7 @@ class datetime(date):
         else:
             ret = self._str_convertion()
             ret += f"{sep}{self.hour:02}:{self.minute:02}:{self.second:02}"
-            ret += f".{self.microsecond}" if self.microsecond else ""
+            ret += f".{self.microsecond:06}" if self.microsecond else ""
             off = self.utcoffset()
             tz = _format_offset(off)
 
-- 
2.43.0


From a02a33c2d9250252210f93e43ae65e238196655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 37/66] fix: an ISO time with a one digit hour or mixed colons
 was accepted

---
 badidatetime/_timedateutils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index eef9cf6..8f3a93a 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -6,6 +6,7 @@ __docformat__ = "restructuredtext en"
 
 import time
 import locale
+import re
 import math
 from typing import NamedTuple
 from collections import OrderedDict
@@ -1347,6 +1348,11 @@ class TimeDateUtils(BahaiCalendar):
         pc = tmstr.count('.')
         assert pc <= 1, f"Invalid number of dots (.), can be 0 - 1, found {pc}"
 
+        # Thh, Thhmm, Thh:mm, Thhmmss, or Thh:mm:ss and maybe a fraction.
+        if t_len > 1 and not re.fullmatch(
+            r"T\d\d((:\d\d){1,2}|(\d\d){1,2})?(\.\d+)?", tmstr):
+            raise ValueError(f"Invalid time string, found {tmstr!r}")
+
         if t_len > 2:
             hour = int(tmstr[1:3])
             pos0 = 1 if cc else 0
-- 
2.43.0


From d190a2a41895429db2c2131902cbcec2c061dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 38/66] fix: digits after the Z or B of an ISO string, and 60
 or more minutes of an offset, were accepted

---
 badidatetime/_timedateutils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 8f3a93a..4de2d6d 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1442,6 +1442,11 @@ class TimeDateUtils(BahaiCalendar):
             elif bc == 1 and tz_len == 1:
                 tz = timezone.badi
             else:
+                # A hour of one or two digits and maybe the minutes.
+                if not re.fullmatch(r"[+-]\d{1,2}(:[0-5]?\d)?", tzstr):
+                    raise ValueError(
+                        f"Invalid timezone string, found {tzstr!r}")
+
                 offset = [int(x) for x in tzstr[1:].split(':')]
                 offset[0] = offset[0] * -1 if nc else offset[0]
                 offset += [0] if len(offset) == 1 else []
-- 
2.43.0


From 3d396f23c1e2d6e67ea58f4224ce4ae06c603bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 39/66] fix: an ISO week date with more than one digit of the
 day, or misplaced hyphens, was accepted

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 4de2d6d..857a759 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1280,7 +1280,7 @@ class TimeDateUtils(BahaiCalendar):
             assert d_len > 7, (
                 "Day information must be included for a "
                 f"complete date to be generated, found {dtstr}.")
-            assert (dc == 1 and d_len == 8) or dc in (0, 2), (
+            assert re.fullmatch(r"\d{4}(W\d{3}|-W\d\d(-\d)?)", dtstr), (
                 f"Invalid ISO string {dtstr}.")
             day = int(d) if d.isdigit() else 1
             date = self._isoweek_to_badi(year, wday, day, short=True)[:3]
-- 
2.43.0


From a037beff4322822aff2abebef9ccae0b256b5e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:58 +0000
Subject: [PATCH 40/66] fix: the ISO year %G was the calendar year

---
 badidatetime/_timedateutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 857a759..be0e56c 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -442,6 +442,8 @@ class TimeDateUtils(BahaiCalendar):
         :rtype: str
         """
         year = self._get_year(ttup)
+        year, week, day = self._year_week_day(year, ttup.tm_mon,
+                                              ttup.tm_mday)
         n = '-' if year < 0 else ''
         return f"{n}{abs(year):04}"
 
-- 
2.43.0


From 97c34ff4aa6f7801146054ec696da39bc6f3c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 41/66] fix: the hour of the 12 hour clock could be 00 or -1

---
 badidatetime/_timedateutils.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index be0e56c..a49d58c 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -489,14 +489,8 @@ class TimeDateUtils(BahaiCalendar):
         :returns: The hour (12-hour clock) as a zero-padded decimal number.
         :rtype: str
          """
-        midday_frac = self._find_midday(ttup)
-        time_frac = self._decimal_day_from_hms(ttup.tm_hour, ttup.tm_min,
-                                               ttup.tm_sec)
-
-        if midday_frac <= time_frac:
-            hour = ttup.tm_hour - 12
-        else:
-            hour = ttup.tm_hour
+        # Midday is not at exactly 12, so it cannot tell if 12 is subtracted.
+        hour = ttup.tm_hour % 12 or 12
 
         if org == 'l' and mod == '-':
             st = f"{hour}"
-- 
2.43.0


From 0eef9d4ebe23328ba9363f3172516052b3037b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:43 +0000
Subject: [PATCH 42/66] fix: %z of an aware time with a zero offset was empty

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index a49d58c..c260678 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -801,7 +801,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         st = ""
 
-        if ttup.tm_gmtoff:
+        if ttup.tm_gmtoff is not None:
             n = '-' if ttup.tm_gmtoff < 0 else '+'
             h = abs(ttup.tm_gmtoff / 3600)
             hh = int(h)
-- 
2.43.0


From 2e6893d270ec8524d17ab92e2372b35904c74fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 43/66] fix: %l put a space before a two digit hour

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index c260678..cb03651 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -495,7 +495,7 @@ class TimeDateUtils(BahaiCalendar):
         if org == 'l' and mod == '-':
             st = f"{hour}"
         elif org == 'l':
-            st = f"{hour: 2}"
+            st = f"{hour:2}"
         else:  # %I
             st = f"{hour:02}"
 
-- 
2.43.0


From 1b5959950d10611410c9c24a12eb856a63204e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 44/66] fix: %:K gave a negative Kull-i-Shay two minus signs

---
 badidatetime/_timedateutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index cb03651..0fb33e4 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -539,8 +539,7 @@ class TimeDateUtils(BahaiCalendar):
             else:
                 kull_i_shay = ttup.tm_kull_i_shay
 
-            n = '-' if kull_i_shay < 0 else ''
-            st += f"{n}{kull_i_shay}"
+            st += f"{kull_i_shay}"
 
         return st
 
-- 
2.43.0


From 945e5e8521f0d61eb186a734b164943cdb4a4346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 45/66] fix: %e put a space before a two digit day

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 0fb33e4..c2ce665 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -373,7 +373,7 @@ class TimeDateUtils(BahaiCalendar):
         if mod == '-':
             st = f"{ttup.tm_mday}"
         else:
-            pad = ' ' if org == 'e' else 0
+            pad = '' if org == 'e' else 0
             st = f"{ttup.tm_mday:{pad}2}"
 
         return st
-- 
2.43.0


From 96baace8d7e0a16eb8f814d05f69ca2571e2f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 46/66] fix: strptime refused week 53 of %U and %W

---
 badidatetime/_strptime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index df4fdd2..4b39e3e 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -224,7 +224,7 @@ class TimeRE(dict):
             'm': r"(?P<m>1[0-9]|0[0-9]|[0-9])",
             'M': r"(?P<M>[0-5]\d|\d)",
             'S': r"(?P<S>6[0-1]|[0-5]\d|\d)",
-            'U': r"(?P<U>5[0-2]|[0-4]\d|\d)",
+            'U': r"(?P<U>5[0-3]|[0-4]\d|\d)",
             'w': r"(?P<w>[0-6])",
             'u': r"(?P<u>[1-7])",
             'V': r"(?P<V>5[0-3]|0[1-9]|[1-4]\d|\d)",
-- 
2.43.0


From a45107d489074feba4b08c7191e7595b0fa28285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 47/66] fix: the summer time of a place was lost from 2038 on

---
 badidatetime/datetime.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index decd37f..18b1606 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -11,7 +11,7 @@ __all__ = ('date', 'datetime', 'time', 'timezone', 'timedelta', 'tzinfo',
 
 import time as _time
 import math as _math
-from datetime import timedelta, tzinfo
+from datetime import datetime as _dtime, timedelta, tzinfo
 from types import NoneType
 
 from .badi_calendar import BahaiCalendar
@@ -2891,6 +2891,13 @@ class TZWithCoords(timezone):
         dst = None
 
         if hasattr(self, '_zi'):
+            if isinstance(dt, datetime):
+                # A ZoneInfo object reads the year and the fold of the
+                # built-in datetime, so give it that of the same civil day.
+                dt = (_dtime.fromordinal(dt.toordinal()) + timedelta(
+                    hours=dt.hour, minutes=dt.minute, seconds=dt.second)
+                      ).replace(fold=dt.fold)
+
             dst = self._zi.dst(dt)
 
         if not dst:
-- 
2.43.0


From 0276d90c6c690a84af0b960acb0bc6e2372d9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:30 +0000
Subject: [PATCH 48/66] fix: a time with seconds in its UTC offset had no hash,
 and compared without them

---
 badidatetime/datetime.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 18b1606..abcd243 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1254,10 +1254,13 @@ class time:
             else:
                 raise TypeError("Cannot compare naive and aware times.")
 
-        myhhmm = self._hour * 60 + self._minute - myoff//timedelta(minutes=1)
-        othhmm = other._hour * 60 + other._minute - otoff//timedelta(minutes=1)
-        return _cmp((myhhmm, self._second, self._microsecond),
-                    (othhmm, other._second, other._microsecond))
+        mytime = timedelta(hours=self._hour, minutes=self._minute,
+                           seconds=self._second,
+                           microseconds=self._microsecond)
+        ottime = timedelta(hours=other._hour, minutes=other._minute,
+                           seconds=other._second,
+                           microseconds=other._microsecond)
+        return _cmp(mytime - myoff, ottime - otoff)
 
     # Standard conversions, __hash__ (and helpers)
 
@@ -1276,21 +1279,21 @@ class time:
 
             tzoff = t.utcoffset()
 
-            if not tzoff:  # zero or None
+            if tzoff is None:
                 self._hashcode = hash(t._getstate()[0])
             else:
+                # The offset may have seconds, and microseconds also.
                 h, m = divmod(timedelta(
-                    hours=self.hour, minutes=self.minute) - tzoff,
+                    hours=self.hour, minutes=self.minute, seconds=self.second,
+                    microseconds=self.microsecond) - tzoff,
                               timedelta(hours=1))
-                assert not m % timedelta(minutes=1), "Must be a whole minute."
-                m //= timedelta(minutes=1)
+                m, s = divmod(m, timedelta(minutes=1))
+                s, us = s.seconds, s.microseconds
 
                 if 0 <= h < 25:  # The hour can be 24.
-                    self._hashcode = hash(time(h, m, self.second,
-                                               self.microsecond))
+                    self._hashcode = hash(time(h, m, s, us))
                 else:
-                    self._hashcode = hash((h, m, self.second,
-                                           self.microsecond))
+                    self._hashcode = hash((h, m, s, us))
 
         return self._hashcode
 
-- 
2.43.0


From ed2cd359d921d7dacb94125e16653b1cd6af99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 49/66] =?UTF-8?q?fix:=20replace=20ignored=20a=20Kull-i-Sha?=
 =?UTF-8?q?y=20or=20V=C3=A1=E1=B8=A5id=20of=20zero=20on=20a=20short=20form?=
 =?UTF-8?q?=20date?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index abcd243..394c660 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -644,7 +644,7 @@ class date(BahaiCalendar):
         :returns: A date instance with replaced items.
         :rtype: date
         """
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay is not None or vahid is not None):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
@@ -2063,7 +2063,7 @@ class datetime(date):
         if fold is None:  # pragma: no cover
             fold = self.fold
 
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay is not None or vahid is not None):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
-- 
2.43.0


From ce896b237d5303c9cd782c1994fa3ca4512ca420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 50/66] fix: the nutation could be that of another thread's
 Julian century

---
 badidatetime/base_calendar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 8c17ad1..c9314c8 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -473,7 +473,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['lon'][1]
+        return lon_sum
 
     def _nutation_obliquity(self, tc: float, *, degrees: bool=False) -> float:
         """
@@ -485,7 +485,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         :returns: The nutation of obliquity.
         :rtype: float
         """
-        tc_day, obj_sum, deg = self._nutation['obl']
+        tc_day, obl_sum, deg = self._nutation['obl']
 
         if tc != tc_day or degrees != deg:
             lon_sum, obl_sum = self._nutation_obliquity_longitude(
@@ -493,7 +493,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['obl'][1]
+        return obl_sum
 
     def _nutation_obliquity_longitude(self, tc: float, degrees: bool=False
                                       ) -> float:
-- 
2.43.0


From 010342717eff0bc09bc83b7071413a1c39fb0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 51/66] fix: three options that exclude one another were
 accepted

---
 badidatetime/base_calendar.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index c9314c8..24e18be 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1625,8 +1625,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
                   else False.
         :rtype: bool
         """
-        count = sum(booleans)
-        return (count % 2 == 1) or (count == 0)
+        return sum(booleans) <= 1
 
     def _local_zone_correction(self, jd_ut: float, zone: float=None,
                                lon: float=None, *, inverse: bool=False,
-- 
2.43.0


From 4e9f8d8ca91239bb672260409a44ec491bb19fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 52/66] fix: the microseconds of a number of seconds could be
 one short, or a million

---
 badidatetime/base_calendar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 24e18be..9341952 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -1199,6 +1199,10 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
            as of 2024-08-09.
         """
         seconds += zone * 3600
+
+        if us:  # Round once, so that the microseconds can carry.
+            seconds = round(seconds, 6)
+
         hours = math.floor(seconds / 3600)
         m = (seconds - hours * 3600) / 60
         minutes = math.floor(m)
@@ -1213,7 +1217,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         sec = (seconds - hours * 3600) - minutes * 60
 
         if us:
-            sms = (math.floor(sec), int(round(sec % 1, 6) * 1e6))
+            sms = divmod(round(sec * 1000000), 1000000)
         else:
             sms = (sec,)
 
-- 
2.43.0


From 7ca6b3f89712cd3bdc4fd55223104382dce632b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 53/66] fix: the repr of a TZWithCoords did not have its
 coordinates

---
 badidatetime/datetime.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 394c660..510e39e 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2940,6 +2940,20 @@ class TZWithCoords(timezone):
 
         return ret
 
+    def __repr__(self) -> str:
+        """
+        Convert to a formal string, for repr().
+
+        :returns: A string that can be evaluated to an equal object.
+        :rtype: str
+        """
+        if self is self.utc or self is self.badi:
+            return super().__repr__()
+
+        key = f", key={self.key!r}" if self.key != '' else ""
+        return (f"{_get_class_module(self)}.{self.__class__.__qualname__}"
+                f"({self.lat!r}, {self.lon!r}, {self.zone!r}{key})")
+
     def __reduce__(self) -> tuple:
         """
         Gather the class data for pickling.
-- 
2.43.0


From d30aef111dd441c9d5c866732adbb5390829b08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 54/66] fix: accept whole numbers as local coordinates

set_local_coordinates(40, -74) was silently ignored, and the local place
became Tehran, because only floats were taken for coordinates.
---
 badidatetime/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index d63b078..cfeacdd 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -53,10 +53,10 @@ def _get_local_coordinates() -> tuple | None:
     """
     offset, dst, key = _local_timezone_info()
 
-    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], float)
-        and isinstance(_LOCAL_COORDS[1], float)):
-        lat = _LOCAL_COORDS[0]
-        lon = _LOCAL_COORDS[1]
+    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], (int, float))
+        and isinstance(_LOCAL_COORDS[1], (int, float))):
+        lat = float(_LOCAL_COORDS[0])
+        lon = float(_LOCAL_COORDS[1])
     elif _LOCAL_COORDS and _LOCAL_COORDS[2]:
         geolocator = Nominatim(user_agent='nc-bookkeeper')
         location = geolocator.geocode(_LOCAL_COORDS[2])
-- 
2.43.0


From 0d550baa325488cac6caff347c5dbee63a6cdfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 55/66] fix: nutation at exactly J2000 with a new calendar

The cache of the last nutation began as if 0 had been computed for the
century 0, so a new object gave 0 there.
---
 badidatetime/base_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index 9341952..a3beecc 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -67,7 +67,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
 
     def __init__(self, *args, **kwargs):
         self._time = None
-        self._nutation = {'lon': (0, 0, False), 'obl': (0, 0, False)}
+        self._nutation = {'lon': (None, 0, False), 'obl': (None, 0, False)}
         self._sun_tss = {'trn': (), 'rsn': (), 'stn': ()}
 
     #
-- 
2.43.0


From 913168fdebe6111302797bc83a3f66adb1ea6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:50 +0000
Subject: [PATCH 56/66] fix: refuse ISO dates like 01811-0

---
 badidatetime/_timedateutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index c2ce665..831b1f6 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1259,7 +1259,8 @@ class TimeDateUtils(BahaiCalendar):
                 "identifier and between 0 and 2 hyphens (-) used.")
         d_len = len(dtstr)
 
-        if dc == 1 and d_len == 7 and not wc:    # YYYY-MM
+        if (dc == 1 and d_len == 7 and not wc
+            and dtstr[4] == '-'):                # YYYY-MM
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
             date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
-- 
2.43.0


From 985764673c133ab45f2ca834f2998136214e57f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:35 +0000
Subject: [PATCH 57/66] fix: keep the empty name of a pickled or copied
 timezone

---
 badidatetime/datetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 510e39e..e4e721f 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2831,7 +2831,8 @@ class timezone(tzinfo):
     # pickle support
 
     def __getinitargs__(self):
-        return (self._offset,) + ((self._name,) if self._name else ())
+        return (self._offset,) + ((self._name,) if self._name is not None
+                                  else ())
 
     def __hash__(self):
         return hash(self._offset)
-- 
2.43.0


From dea66bed06c48c76feefd32735e1cb430251af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:36 +0000
Subject: [PATCH 58/66] fix: truncate the century of a negative year in %C

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 831b1f6..effe812 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -357,7 +357,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         year = self._get_year(ttup)
         n = '-' if year < 0 else ''
-        return f"{n}{abs(math.floor(year / 100)):02}"
+        return f"{n}{abs(year) // 100:02}"
 
     def d(self, ttup, org, mod):
         """
-- 
2.43.0


From 202690fbe2fe9e3fad661a68c13e1305e13a201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:58 +0000
Subject: [PATCH 59/66] fix: leave the century out of %D in negative years

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index effe812..a7ff085 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -399,7 +399,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         year = self._get_year(ttup)
         century = int(year / 100) * 100
-        year -= 0 if year < century else century
+        year -= century
         sep = self.date_format[0]
         data = []
 
-- 
2.43.0


From e958615f28766b50c2f2643b771cfb4c9b478b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:06 +0000
Subject: [PATCH 60/66] fix: accept the leap days of the Julian calendar in the
 historic count

---
 badidatetime/gregorian_calendar.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 5f3b928..3999140 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -50,7 +50,7 @@ class GregorianCalendar(BaseCalendar):
               is used. This means date comparisons will be in error if both
               dates do not use the same True or False `exact` keyword.
         """
-        year, month, day = self.date_from_ymdhms(g_date)
+        year, month, day = self.date_from_ymdhms(g_date, historical=not exact)
 
         if exact:  # Astronomically correct algorithm
             td = self._days_in_years(year-1, alt=alt)
@@ -179,7 +179,7 @@ class GregorianCalendar(BaseCalendar):
             date = (year, month, round(day, self._ROUNDING_PLACES))
 
         if hms:
-            date = self.ymdhms_from_date(date, us=us)
+            date = self.ymdhms_from_date(date, us=us, historical=not exact)
 
         return date
 
@@ -262,16 +262,19 @@ class GregorianCalendar(BaseCalendar):
         """
         return self.gregorian_date_from_jd(jd)[0]
 
-    def date_from_ymdhms(self, date: tuple) -> tuple:
+    def date_from_ymdhms(self, date: tuple, *, historical: bool=False
+                         ) -> tuple:
         """
         Convert (year, month, day, hour, minute, second) into a
         (year, month, day.fractional) date.
 
         :param tuple date: A six part date (y, m, d, hh, mm, ss).
+        :param bool historical: If `True` use the Julian leap years before
+                                1583.
         :returns: The three part (y, m, d.nnn).
         :rtype: tuple
         """
-        self._check_valid_gregorian_month_day(date)
+        self._check_valid_gregorian_month_day(date, historical=historical)
         t_len = len(date)
         year = date[0]
         month = date[1]
@@ -283,7 +286,8 @@ class GregorianCalendar(BaseCalendar):
                      self._ROUNDING_PLACES)
         return year, month, day
 
-    def ymdhms_from_date(self, date: tuple, us: bool=False) -> tuple:
+    def ymdhms_from_date(self, date: tuple, us: bool=False, *,
+                         historical: bool=False) -> tuple:
         """
         Convert (year, month, day.fractional) into a
         (year, month, day, hour, minute, second, microseconds).
@@ -292,10 +296,12 @@ class GregorianCalendar(BaseCalendar):
         :param bool us: If `True` return microseconds as separate field from
                         seconds else if `False` (default) return seconds with
                         fractional seconds.
+        :param bool historical: If `True` use the Julian leap years before
+                                1583.
         :returns: A 6 or 7 part date (y, m, d, hh, mm, ss, us).
         :rtype: tuple
         """
-        self._check_valid_gregorian_month_day(date)
+        self._check_valid_gregorian_month_day(date, historical=historical)
         date_len = len(date)
         year = date[0]
         month = date[1]
-- 
2.43.0


From 0f2faba5407e15995c7ff6f00e717ebb4f0432f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:18 +0000
Subject: [PATCH 61/66] fix: the last day of a year and times before 1970 in
 posix_timestamp

---
 badidatetime/gregorian_calendar.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 3999140..273cb06 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -194,8 +194,6 @@ class GregorianCalendar(BaseCalendar):
            DO NOT USE THIS METHOD -- It's experimental and is not used in any
            other code.
 
-        *** TODO *** Needs to be fixed for years before 1970 Gregorian.
-
         :param float t: POSIX timestamp
         :param float zone: Timezone
         :param bool us: If True the seconds are split to seconds and
@@ -205,16 +203,19 @@ class GregorianCalendar(BaseCalendar):
         :rtype: tuple
         """
         t += zone * 3600
-        days = math.floor(t / self._SECONDS_PER_DAY)
+        days = math.floor(t / self._SECONDS_PER_DAY) + 1
         year = 1970
         leap = False
-        days = abs(days) + 1
 
         # Find the year and remaining number of days.
+        while days < 1:
+            year -= 1
+            days += 365 + self._is_leap_year(year)
+
         while True:
             leap = self._is_leap_year(year)
             diy = 365 + leap
-            if days < diy: break
+            if days <= diy: break
             days -= diy
             year += 1
 
-- 
2.43.0


From 7a1aea9cc55b599f3e7945f8ab4f4b2e41d27539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:08 +0000
Subject: [PATCH 62/66] fix: a date of a subclass is never equal to a datetime

---
 badidatetime/datetime.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index e4e721f..6de1ce4 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -747,23 +747,23 @@ class date(BahaiCalendar):
 
     def __eq__(self, other) -> bool:
         return (self._cmp(other) == 0 if isinstance(other, date)
-                else NotImplemented)
+                and not isinstance(other, datetime) else NotImplemented)
 
     def __le__(self, other) -> bool:
         return (self._cmp(other) <= 0 if isinstance(other, date)
-                else NotImplemented)
+                and not isinstance(other, datetime) else NotImplemented)
 
     def __lt__(self, other) -> bool:
         return (self._cmp(other) < 0 if isinstance(other, date)
-                else NotImplemented)
+                and not isinstance(other, datetime) else NotImplemented)
 
     def __ge__(self, other) -> bool:
         return (self._cmp(other) >= 0 if isinstance(other, date)
-                else NotImplemented)
+                and not isinstance(other, datetime) else NotImplemented)
 
     def __gt__(self, other) -> bool:
         return (self._cmp(other) > 0 if isinstance(other, date)
-                else NotImplemented)
+                and not isinstance(other, datetime) else NotImplemented)
 
     def _cmp(self, other) -> int:
         """
-- 
2.43.0


From 50e9297a7a6cf87ba4c255e02a51e2a0d4c9d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:29 +0000
Subject: [PATCH 63/66] fix: refuse a date with a field left out in the middle

---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 6de1ce4..5aa3099 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -264,7 +264,7 @@ class date(BahaiCalendar):
         else:
             b_date = tuple([x for x in (a, b, c, d, e) if x is not None])
             date_len = len(b_date)
-            assert date_len in (3, 5), (
+            assert date_len in (3, 5) and (a, b, c, d, e)[:date_len] == b_date, (
                 "A full short or long form Badí' date must be used, found "
                 f"{date_len} fields.")
             self = object.__new__(cls)
@@ -1635,7 +1635,7 @@ class datetime(date):
         else:
             b_date = tuple([x for x in (a, b, c, d, e) if x is not None])
             date_len = len(b_date)
-            assert date_len in (3, 5), (
+            assert date_len in (3, 5) and (a, b, c, d, e)[:date_len] == b_date, (
                 "A full short or long form Badí' date must be used, found "
                 f"{date_len} fields.")
             self = object.__new__(cls)
-- 
2.43.0


From ea15f0bbffc46390e54cf76a53a60b6bb96b3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:50 +0000
Subject: [PATCH 64/66] fix: pickle and copy UTC and BADI as themselves

---
 badidatetime/datetime.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 5aa3099..b51e382 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2962,6 +2962,13 @@ class TZWithCoords(timezone):
         :returns: The class data.
         :rtype: tuple
         """
+        # The two zones there is only one of, are found by their name.
+        if self is self.utc:
+            return 'UTC'
+
+        if self is self.badi:
+            return 'BADI'
+
         state = {"zone": self._coords[2], "key": self.key}
 
         if hasattr(self, '_zi'):
-- 
2.43.0


From bb3ca17cce1fc258418d0627baf792892e99243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:12 +0000
Subject: [PATCH 65/66] fix: refuse negative fields and seconds over 60 in
 Gregorian dates

---
 badidatetime/gregorian_calendar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 273cb06..9662acd 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -348,8 +348,8 @@ class GregorianCalendar(BaseCalendar):
         """
         t_len = len(g_date)
         year = g_date[0]
-        month = abs(g_date[1])
-        day = abs(g_date[2])
+        month = g_date[1]
+        day = g_date[2]
         LY = (self._JULIAN_LEAP_YEAR if historical and year < 1583
               else self._is_leap_year)
         hour = g_date[3] if t_len > 3 and g_date[3] is not None else 0
@@ -364,8 +364,9 @@ class GregorianCalendar(BaseCalendar):
         assert 1 <= math.floor(day) <= days, (
             f"Invalid day '{day}' for month '{month}' and year '{year}' "
             f"should be 1 - {days}.")
-        assert hour < 24, f"Invalid hour '{hour}' it must be < 24"
-        assert minute < 60, f"Invalid minute '{minute}' should be < 60."
+        assert 0 <= hour < 24, f"Invalid hour '{hour}' it must be < 24"
+        assert 0 <= minute < 60, f"Invalid minute '{minute}' should be < 60."
+        assert 0 <= second < 61, f"Invalid second '{second}' should be < 61."
 
         if any((hour, minute, second)):
             assert not day % 1, ("If there is a part day then there can be no "
-- 
2.43.0


From 6707c53062022f5a2aea9ca8043c0020146f6fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:03 +0000
Subject: [PATCH 66/66] fix: digits of other scripts were read as ISO 8601
 digits

---
 badidatetime/_timedateutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index a7ff085..a304642 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1232,7 +1232,7 @@ class TimeDateUtils(BahaiCalendar):
                             an integer or when an invalid ISO string is being
                             parsed.
         """
-        for c in filter(lambda x: not x.isnumeric(), dtstr):
+        for c in filter(lambda x: x not in '0123456789', dtstr):
             if c not in ('-', 'W'):
                 raise ValueError(
                     f"Invalid character {c!r} in incoming date string.")
@@ -1314,7 +1314,7 @@ class TimeDateUtils(BahaiCalendar):
                             an integer or when an invalid ISO string is being
                             parsed.
         """
-        for c in filter(lambda x: not x.isnumeric(), tmstr):
+        for c in filter(lambda x: x not in '0123456789', tmstr):
             if c not in ('T', ' ', ':', '.'):
                 raise ValueError(
                     f"Invalid character {c!r} in incoming time string.")
@@ -1404,7 +1404,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         from .datetime import timezone, timedelta
 
-        for c in filter(lambda x: not x.isnumeric(), tzstr):
+        for c in filter(lambda x: x not in '0123456789', tzstr):
             if c not in ('Z', 'B', '+', '-', ':'):
                 raise ValueError(
                     f"Invalid character {c!r} in incoming timezone string.")
-- 
2.43.0

