From d58d77e5406d79273264833414c3951b5d1e04d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:35 +0000
Subject: [PATCH 01/35] fix: accept hour 24 in the report time group

---
 aeromet_py/reports/models/base/time.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/time.py b/aeromet_py/reports/models/base/time.py
index 0cecbef..62bf8e9 100755
--- a/aeromet_py/reports/models/base/time.py
+++ b/aeromet_py/reports/models/base/time.py
@@ -1,6 +1,6 @@
 import re
 
-from datetime import datetime
+from datetime import datetime, timedelta
 from typing import Dict, Optional
 
 from .group import Group
@@ -43,6 +43,11 @@ class Time(Group):
             if minute is None:
                 minute = "00"
 
+            # hour 24 is the midnight at the end of the day
+            is_midnight: bool = hour == "24"
+            if is_midnight:
+                hour = "00"
+
             generated_date: str = "{}{:02d}{}{}{}".format(
                 year,
                 month,
@@ -52,6 +57,9 @@ class Time(Group):
             )
             self._time = datetime.strptime(generated_date, "%Y%m%d%H%M")
 
+            if is_midnight:
+                self._time += timedelta(days=1)
+
     @classmethod
     def from_metar(
         cls,
-- 
2.43.0


From da6dfaebb0a4648ebfbb99231c1924d47b212976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 02/35] fix: match only existing compass points as visibility
 direction

---
 aeromet_py/utils/metar_regexp.py | 4 ++--
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 1fa664f..df41814 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -25,14 +25,14 @@ class MetarRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4}|////)"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
 
-    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NSEW]([EW])?)?$"
+    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NS][EW]?|[EW])?$"
 
     RUNWAY_RANGE = (
         r"^R(?P<name>\d{2}[RLC]?)/"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index bd14d77..f07cfc8 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -22,7 +22,7 @@ class TafRegExp:
 
     VISIBILITY = (
         r"^(?P<vis>\d{4})"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
-- 
2.43.0


From 48b97cab5806c04c61ab589078fe6bca16496a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 03/35] fix: do not match visibility fractions that divide by
 zero

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 aeromet_py/utils/parser.py       | 2 +-
 aeromet_py/utils/taf_regexp.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index df41814..e1d320d 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -27,7 +27,7 @@ class MetarRegExp:
         r"^((?P<vis>\d{4}|////)"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index b91cea4..ce2f4ec 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,7 +14,7 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/\dSM)\s?"
+    regex = r"\s(?P<int>\d{1,2})\s(?P<frac>\d/[1-9]SM)\s?"
 
     for _ in range(3):
         match = re.search(regex, report)
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index f07cfc8..e58cd94 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -24,7 +24,7 @@ class TafRegExp:
         r"^(?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK)$"
     )
-- 
2.43.0


From 7e913c0d8735eb93cc1d0526dd6541c485f8a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 04/35] fix: decode fractions of kilometers and visibilities in
 meters

---
 aeromet_py/reports/models/metar/visibility.py | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/reports/models/metar/visibility.py b/aeromet_py/reports/models/metar/visibility.py
index e50df17..5f46c03 100755
--- a/aeromet_py/reports/models/metar/visibility.py
+++ b/aeromet_py/reports/models/metar/visibility.py
@@ -131,7 +131,7 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
             _fraction = match.group("fraction")
             _units = match.group("units")
 
-            if _vis or _units == "M":
+            if _vis:
                 self._visibility = Distance(_vis)
 
             if _integer or _fraction:
@@ -139,8 +139,12 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
                     self._visibility = self._from_sea_miles(_integer, _fraction)
 
                 if _units == "KM":
-                    _in_meters = int(_integer) * 1000
-                    self._visibility = Distance("{:04d}".format(_in_meters))
+                    _in_meters = self._to_number(_integer, _fraction) * 1000
+                    self._visibility = Distance("{}".format(_in_meters))
+
+                if _units == "M":
+                    _in_meters = self._to_number(_integer, _fraction)
+                    self._visibility = Distance("{}".format(_in_meters))
 
             if _dir:
                 self._direction = Direction.from_cardinal(_dir)
@@ -158,10 +162,8 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
 
         return super().__str__()
 
-    def _from_sea_miles(
-        self, integer: Optional[str], fraction: Optional[str]
-    ) -> Distance:
-        """Helper to handle the visibility from sea miles.
+    def _to_number(self, integer: Optional[str], fraction: Optional[str]) -> float:
+        """Helper to get the value of a whole, fraction or mixed number.
         Args:
             integer (str | None): the integer value of visibility in METAR if provided.
             fraction (str | None): the fraction value of the visibility in METAR if provided.
@@ -179,6 +181,18 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
             _integer: float = float(integer)
             _vis += _integer
 
+        return _vis
+
+    def _from_sea_miles(
+        self, integer: Optional[str], fraction: Optional[str]
+    ) -> Distance:
+        """Helper to handle the visibility from sea miles.
+        Args:
+            integer (str | None): the integer value of visibility in METAR if provided.
+            fraction (str | None): the fraction value of the visibility in METAR if provided.
+        """
+        _vis: float = self._to_number(integer, fraction)
+
         return Distance("{}".format(_vis * Conversions.SMI_TO_KM * Conversions.KM_TO_M))
 
     @property
-- 
2.43.0


From 87ccb3aa2ba3fe808efa81be6b51138b0cb2797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 05/35] fix: ceiling of cloud layers without height

---
 aeromet_py/reports/models/base/cloud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index f9e1cd3..a3f6369 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -203,7 +203,7 @@ class CloudList(GroupList[Cloud]):
         there is ceiling; there isn't otherwise."""
         for group in self._list:
             _oktas: str = group.oktas
-            _height: float = group.height_in_feet
-            if _oktas in ["5-7", "8"] and _height <= 1500.0:
+            _height: Optional[float] = group.height_in_feet
+            if _height is not None and _oktas in ["5-7", "8"] and _height <= 1500.0:
                 return True
         return False
-- 
2.43.0


From ffae6f1d4b1c8a04abe848e9deffffa38269a030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:02 +0000
Subject: [PATCH 06/35] fix: compare the cover of clouds by value in
 should_be_cavok

---
 aeromet_py/reports/models/metar/should_be_cavok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/should_be_cavok.py b/aeromet_py/reports/models/metar/should_be_cavok.py
index 2f4e618..8dbe325 100644
--- a/aeromet_py/reports/models/metar/should_be_cavok.py
+++ b/aeromet_py/reports/models/metar/should_be_cavok.py
@@ -42,7 +42,7 @@ class ShouldBeCavokMixin(HasPrevailingCloudsWeatherProtocol):
             return False
 
         for c in self.clouds:
-            if c.cover is "indefinite ceiling":
+            if c.cover == "indefinite ceiling":
                 return False
 
             if c.cloud_type == "cumulonimbus" or c.cloud_type == "towering cumulus":
-- 
2.43.0


From f13850c0cc0673babb107b21b01240d101f83817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:07 +0000
Subject: [PATCH 07/35] fix: give every iteration of a group list its own
 cursor

---
 aeromet_py/reports/models/base/group.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/aeromet_py/reports/models/base/group.py b/aeromet_py/reports/models/base/group.py
index 680baef..b60504a 100755
--- a/aeromet_py/reports/models/base/group.py
+++ b/aeromet_py/reports/models/base/group.py
@@ -2,7 +2,7 @@ import json
 
 from abc import ABCMeta, abstractmethod
 from collections import namedtuple
-from typing import Any, Dict, Generic, List, Optional, TypeVar
+from typing import Any, Dict, Generic, Iterator, List, Optional, TypeVar
 
 from .errors import RangeError
 
@@ -53,24 +53,14 @@ class GroupList(Generic[G]):
     report from land stations."""
 
     def __init__(self, max_items: int) -> None:
-        self._n = 0
         self._max_items = max_items
         self._list: List[G] = []
 
     def __str__(self) -> str:
         return " | ".join(str(group) for group in self._list)
 
-    def __iter__(self) -> "GroupList[G]":
-        return self
-
-    def __next__(self) -> G:
-        if self._n >= len(self._list):
-            self._n = 0
-            raise StopIteration
-
-        index = self._n
-        self._n += 1
-        return self._list[index]
+    def __iter__(self) -> Iterator[G]:
+        return iter(self._list)
 
     def __getitem__(self, index: int) -> G:
         if index >= self._max_items:
-- 
2.43.0


From 44a06ef0f82de67d135b744f47ef7d86490a862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:10 +0000
Subject: [PATCH 08/35] fix: report VFR for visibilities of 20 km and more

---
 aeromet_py/reports/models/base/flight_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/flight_rules.py b/aeromet_py/reports/models/base/flight_rules.py
index 23002d2..121ed96 100755
--- a/aeromet_py/reports/models/base/flight_rules.py
+++ b/aeromet_py/reports/models/base/flight_rules.py
@@ -62,5 +62,5 @@ class FlightRulesMixin:
             elif prevailing is None and ceiling is not None:
                 if ceiling < rules[0]:
                     return flight_rule
-            else:
-                return "VFR"
+
+        return "VFR"
-- 
2.43.0


From 19c6b782572d5f0e1b91dbcca25ed689571e4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:13 +0000
Subject: [PATCH 09/35] fix: read unprefixed pressures above 2500 in hundredths
 of inches

---
 aeromet_py/reports/models/metar/pressure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/pressure.py b/aeromet_py/reports/models/metar/pressure.py
index da68079..59d12fc 100755
--- a/aeromet_py/reports/models/metar/pressure.py
+++ b/aeromet_py/reports/models/metar/pressure.py
@@ -28,7 +28,7 @@ class MetarPressure(Pressure, Group):
                 elif _units in ["Q", "QNH"]:
                     _pressure = _pressure * 1
                 elif _pressure > 2500.0:
-                    _pressure = _pressure * Conversions.INHG_TO_HPA
+                    _pressure = _pressure / 100.0 * Conversions.INHG_TO_HPA
                 else:
                     _pressure = _pressure * Conversions.MBAR_TO_HPA
 
-- 
2.43.0


From 582f7f1484fe83a5f724f0d2414ebc74a0097518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 10/35] fix: remove a debug print from the trend parser

---
 aeromet_py/reports/models/metar/weather_trend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 3bc09a2..7263f42 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -94,7 +94,6 @@ class ChangePeriod(Forecast):
         old_change_indicator = str(self._change_indicator)
         self._change_indicator.add_period(match)
         new_change_indicator = str(self._change_indicator)
-        print(self._change_indicator.period_at)
 
         self._string = self._string.replace(old_change_indicator, new_change_indicator)
 
-- 
2.43.0


From 90121ecfaf22fd28fb0e52d8cbccad1bbc678966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:20 +0000
Subject: [PATCH 11/35] fix: resolve hour 24 of trend time periods

---
 aeromet_py/reports/models/metar/trend_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index ef5f9b3..130d075 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -40,7 +40,7 @@ class MetarTrendIndicator(ChangeIndicator):
         hour: str = match.group("hour")
         minute: str = match.group("min")
 
-        hour_as_int: int = int(hour)
+        hour_as_int: int = int(hour) % 24
         min_as_int: int = int(minute)
 
         _time: datetime
-- 
2.43.0


From 0727665aed972338f584dfbc7ab42c1571a61d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:37 +0000
Subject: [PATCH 12/35] fix: resolve TAF days after the day following the issue

---
 aeromet_py/reports/models/taf/temperature.py |  6 ++----
 aeromet_py/reports/models/taf/valid.py       | 18 +++++++-----------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/aeromet_py/reports/models/taf/temperature.py b/aeromet_py/reports/models/taf/temperature.py
index 096fb16..9531e11 100755
--- a/aeromet_py/reports/models/taf/temperature.py
+++ b/aeromet_py/reports/models/taf/temperature.py
@@ -32,11 +32,9 @@ class TafTemperature(Temperature, Group):
             _hour: int = int(match.group("hour"))
 
             time = time.replace(hour=_hour)
-            if _day == time.day:
-                self._time = Time(time=time)
-            else:
+            while _day != time.day:
                 time = time + timedelta(days=1)
-                self._time = Time(time=time)
+            self._time = Time(time=time)
 
     def __str__(self) -> str:
         if self._value is None:
diff --git a/aeromet_py/reports/models/taf/valid.py b/aeromet_py/reports/models/taf/valid.py
index e45759b..be8e228 100755
--- a/aeromet_py/reports/models/taf/valid.py
+++ b/aeromet_py/reports/models/taf/valid.py
@@ -44,17 +44,13 @@ class Valid(Group):
             _tlday: int = int(match.group("tlday"))
             _tlhour: int = int(match.group("tlhour"))
 
-            _from: datetime
-            _until: datetime
-            if _fmday == time.day:
-                _from = time
-            else:
-                _from = time + timedelta(days=1)
-
-            if _tlday == time.day:
-                _until = time
-            else:
-                _until = time + timedelta(days=1)
+            _from: datetime = time
+            while _fmday != _from.day:
+                _from = _from + timedelta(days=1)
+
+            _until: datetime = time
+            while _tlday != _until.day:
+                _until = _until + timedelta(days=1)
 
             if _tlhour == 24:
                 _until = _until + timedelta(days=1)
-- 
2.43.0


From 5b718cb93da64bbe75360e8e4e55becdf7ca305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 13/35] fix: do not fail on TAF changes without a known
 indicator

---
 aeromet_py/reports/models/taf/change_forecast.py  | 10 +++++-----
 aeromet_py/reports/models/taf/change_indicator.py |  3 +++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 01eafd8..2d29a13 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -79,20 +79,20 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
     def add(self, new_change: ChangeForecasted) -> None:
         """Adds weather changes to the list."""
         if len(self._list) > 0:
-            if new_change.code.startswith("FM") or new_change.code.startswith("BECMG"):
+            new_code: str = new_change.change_indicator.code or ""
+            if new_code.startswith("FM") or new_code.startswith("BECMG"):
                 temp_changes: List[ChangeForecasted] = []
 
                 last_change: ChangeForecasted = self._list.pop()
                 while True:
-                    if last_change.change_indicator.code.startswith(
-                        "PROB"
-                    ) or last_change.change_indicator.code.startswith("TEMPO"):
+                    last_code: str = last_change.change_indicator.code or ""
+                    if last_code.startswith("PROB") or last_code.startswith("TEMPO"):
                         temp_changes.append(last_change)
                         try:
                             last_change = self._list.pop()
                         except IndexError:
                             break
-                    elif last_change.change_indicator.code.startswith("FM"):
+                    elif last_code.startswith("FM"):
                         last_change.change_indicator.reset_until_period(
                             new_change.change_indicator.valid.period_from
                         )
diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index 2cc4e5d..b922e4d 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -44,6 +44,9 @@ class TafChangeIndicator(ChangeIndicator):
         """
         self._valid = Valid.from_taf(match, init_time.time)
 
+        if self._code is None:
+            return
+
         if self._code.startswith("FM"):
             self._translation = f"{self._valid}"
         else:
-- 
2.43.0


From 1107dce708288ef6ba32d989b3e14cbe7e87d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 14/35] fix: do not fail on trend periods without a known
 indicator

---
 aeromet_py/reports/models/metar/trend_indicator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index 130d075..1c15254 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -31,7 +31,10 @@ class MetarTrendIndicator(ChangeIndicator):
 
     def add_period(self, match: re.Match) -> None:
         """Helper to add periods of time to the change indicator."""
-        self._code += f" {match.string}"
+        if self._code is None:
+            self._code = match.string
+        else:
+            self._code += f" {match.string}"
 
         # The middle time between self._init_period and self._end_period
         middle_time: datetime = self._init_period.time + timedelta(hours=1)
-- 
2.43.0


From 3b283a879f69d5ea1f82c8b592693d96d34a79df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 15/35] fix: do not take the empty text between two spaces for
 a group

---
 aeromet_py/reports/models/base/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 7f66718..36a8c29 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -35,7 +35,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
     unparsed_groups: List[str] = []
     index: int = 0
 
-    for group in section.split(" "):
+    for group in section.split():
         unparsed_groups.append(group)
         counter = 0
 
-- 
2.43.0


From c942704464a1ccf93c1217a89ed5a32aad8269d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:38 +0000
Subject: [PATCH 16/35] fix: normalize the blanks around a separate end mark

---
 aeromet_py/reports/models/base/report.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/report.py b/aeromet_py/reports/models/base/report.py
index 6b9bedd..b031dc8 100755
--- a/aeromet_py/reports/models/base/report.py
+++ b/aeromet_py/reports/models/base/report.py
@@ -19,8 +19,8 @@ class Report(StringAttributeMixin, TimeMixin, metaclass=ABCMeta):
         code = code.strip()
         self._truncate = truncate
 
-        self._raw_code: str = re.sub(r"\s{2,}|\n+|\t+", " ", code)
-        self._raw_code = self._raw_code.replace("=", "")
+        self._raw_code: str = code.replace("=", "")
+        self._raw_code = re.sub(r"\s+", " ", self._raw_code).strip()
         self._unparsed_groups: List[str] = []
         self._sections: List[str] = []
 
-- 
2.43.0


From 5ca828f63f9733c509265fc5808883a56a8968a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 17/35] fix: keep stations named FM.. in the body of amended
 TAF

---
 aeromet_py/reports/taf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 57c8de9..8042f9a 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -195,10 +195,12 @@ class Taf(
     def _handle_sections(self) -> None:
         keywords: List[str] = ["FM", "TEMPO", "BECMG", "PROB"]
         sanitized_code: str = sanitize_change_indicator(self._raw_code)
-        if sanitized_code.startswith("TAF"):
-            sanitized_code = sanitized_code.replace("TAF ", "TAF_")
-        sections: List[str] = split_sentence(sanitized_code, keywords, space="left")
-        sections[0] = sections[0].replace("TAF_", "TAF ")
+        # The station follows the header and is never a change indicator
+        header: str = re.match(r"(TAF )?((AMD|COR) )?", sanitized_code).group()
+        sections: List[str] = split_sentence(
+            sanitized_code[len(header) :], keywords, space="left"
+        )
+        sections[0] = header + sections[0]
 
         self._body = sections[0]
         if len(sections) > 1:
-- 
2.43.0


From d9df21ab73f08be4508b7bc446cf49e72967deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 18/35] fix: decode overcast layers spelled 0VC

---
 aeromet_py/reports/models/base/cloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index a3f6369..cc3d092 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -93,7 +93,7 @@ class Cloud(Group):
 
         if match is not None:
             _code = match.string
-            cover: str = match.group("cover")
+            cover: str = match.group("cover").replace("0VC", "OVC")
 
             _cover = SKY_COVER.get(cover, None)
             _oktas = _set_oktas(cover)
-- 
2.43.0


From 32b1bd9af114df4a9b68777b97dbb870d5dd1a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 19/35] fix: match visibility, temperature and change groups as
 whole words

---
 aeromet_py/utils/metar_regexp.py |  2 +-
 aeromet_py/utils/taf_regexp.py   | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index e1d320d..d2acde5 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -93,7 +93,7 @@ class MetarRegExp:
         r"(?P<clrd>CLRD//))$"
     )
 
-    CHANGE_INDICATOR = r"^TEMPO|BECMG|NOSIG$"
+    CHANGE_INDICATOR = r"^(TEMPO|BECMG|NOSIG)$"
 
     TREND_TIME_PERIOD = (
         r"^(?P<prefix>FM|TL|AT)" r"(?P<hour>[01]\d|2[0-4])" r"(?P<min>[0-5]\d)$"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index e58cd94..6c60ef6 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -21,26 +21,26 @@ class TafRegExp:
     )
 
     VISIBILITY = (
-        r"^(?P<vis>\d{4})"
+        r"^((?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
-        r"(?P<cavok>CAVOK)$"
+        r"(?P<cavok>CAVOK))$"
     )
 
     TEMPERATURE = (
-        r"T(?P<type>N|X)"
+        r"^T(?P<type>N|X)"
         r"(?P<sign>M)?"
         r"(?P<temp>\d{2})/"
         r"(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-3])Z"
+        r"(?P<hour>[0-1]\d|2[0-3])Z$"
     )
 
     CHANGE_INDICATOR = (
-        r"^TEMPO|BECMG"
+        r"^(TEMPO|BECMG"
         r"|FM(?P<day>0[1-9]|[12][0-9]|3[01])"
         r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<minute>[0-5]\d)"
-        r"|PROB[34]0(_TEMPO)?$"
+        r"|PROB[34]0(_TEMPO)?)$"
     )
-- 
2.43.0


From a2f646a32017a8cba261cbb1afe7cff098642efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:56 +0000
Subject: [PATCH 20/35] fix: join every PROB TEMPO indicator of a TAF

---
 aeromet_py/utils/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index ce2f4ec..0dde385 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -61,7 +61,7 @@ def sanitize_change_indicator(report: str) -> str:
     """
     fmt = r"PROB(?P<percent>[34]0)\sTEMPO"
     pattern = re.compile(fmt)
-    for _ in range(5):
+    while True:
         match = pattern.search(report)
         if match:
             report = re.sub(
-- 
2.43.0


From 635b3e39e3bbf3b13b4c2efd96a31fbb718993c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 21/35] fix: do not lose text around a vertical bar when
 splitting sections

---
 aeromet_py/utils/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/split.py b/aeromet_py/utils/split.py
index ab443c9..fa9e6bd 100755
--- a/aeromet_py/utils/split.py
+++ b/aeromet_py/utils/split.py
@@ -48,8 +48,8 @@ def split_sentence(
         pattern = re.compile(kw)
         sentence = re.sub(
             pattern,
-            "|" + kw.lstrip(),
+            "\n" + kw.lstrip(),
             sentence,
             count=count,
         )
-    return sentence.split("|")
+    return sentence.split("\n")
-- 
2.43.0


From 7b3cc332039b692beda9e1139d4d537aada95194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:03 +0000
Subject: [PATCH 22/35] fix: keep the whole remark when RMK appears twice

---
 aeromet_py/reports/metar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index a1680ff..703b3fd 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -278,11 +278,11 @@ class Metar(
             ):
                 trend += section + " "
             elif section.startswith("RMK"):
-                remark = section
+                remark += section + " "
             else:
                 body = section
 
-        self._sections = [body, trend.strip(), remark]
+        self._sections = [body, trend.strip(), remark.strip()]
 
     def as_dict(self) -> Dict[str, Any]:
         d = super().as_dict()
-- 
2.43.0


From 66ba26afea46e14ed89d33ed61f7f80e42c2da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:08 +0000
Subject: [PATCH 23/35] fix: date TAF without time group to the given year and
 month

---
 aeromet_py/reports/taf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 8042f9a..f2f0101 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -56,6 +56,9 @@ class Taf(
 
         self._handle_sections()
 
+        # Without time group the report is dated to the given month
+        self._time = Time.from_metar(year=year, month=month)
+
         # Initialize mixins
         ModifierMixin.__init__(self)
         MetarWindMixin.__init__(self)
-- 
2.43.0


From 0fab9e559bbe348875b6029d25a574d4954bd30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 24/35] fix: count the default TAF validity from the time of
 issue

---
 aeromet_py/reports/taf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index f2f0101..5fb401a 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -97,6 +97,9 @@ class Taf(
     def _handle_time(self, match: re.Match) -> None:
         self._time = Time.from_metar(match, self._year, self._month)
 
+        # Without validity group the period starts after the time of issue
+        self._valid = Valid.from_taf(None, self._time.time)
+
         self._concatenate_string(self._time)
 
     def _handle_missing(self, match: re.Match) -> None:
-- 
2.43.0


From b58b3b545f756f2a9debccf00f5769f62afd3abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:22 +0000
Subject: [PATCH 25/35] fix: report unparsed groups as they are written in the
 report

---
 aeromet_py/reports/models/base/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 36a8c29..b3fbecf 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -36,7 +36,8 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
     index: int = 0
 
     for group in section.split():
-        unparsed_groups.append(group)
+        code = group.replace("_", " ")
+        unparsed_groups.append(code)
         counter = 0
 
         for group_handler in handlers[index:]:
@@ -46,7 +47,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
             if match:
                 index += counter
                 group_handler.handler(match)
-                unparsed_groups.remove(group)
+                unparsed_groups.remove(code)
                 break
 
     return unparsed_groups
-- 
2.43.0


From 4d04a249d5801c6f681a00bd32eeb202fa71e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:37 +0000
Subject: [PATCH 26/35] fix: join only whole windshear groups and keep them
 verbatim

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 aeromet_py/utils/parser.py       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index d2acde5..d3165a1 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -74,7 +74,7 @@ class MetarRegExp:
         r"(?P<other>PO|SQ|FC|SS|DS)?$"
     )
 
-    WINDSHEAR = r"^WS(?P<all>_ALL)?" r"_(RWY|R(?P<name>\d{2}[RCL]?))$"
+    WINDSHEAR = r"^WS(?P<all>_ALL)?" r"_(RWY|R(WY)?(?P<name>\d{2}[RCL]?))$"
 
     SEA_STATE = (
         r"^W(?P<sign>M)?"
diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index 0dde385..b609aa2 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -37,14 +37,14 @@ def sanitize_windshear(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    report = re.sub(r"WS\sALL\sRWY", "WS_ALL_RWY", report)
+    report = re.sub(r"(?<!\S)WS\sALL\sRWY(?!\S)", "WS_ALL_RWY", report)
 
-    fmt = r"WS\sR(WY)?(?P<name>\d{2}[CLR]?)"
+    fmt = r"(?<!\S)WS\s(?P<runway>R(WY)?\d{2}[CLR]?)(?!\S)"
     pattern = re.compile(fmt)
     for _ in range(3):
         match = pattern.search(report)
         if match:
-            report = re.sub(fmt, "WS_R{}".format(match.group("name")), report, count=1)
+            report = re.sub(fmt, "WS_{}".format(match.group("runway")), report, count=1)
 
     return report
 
-- 
2.43.0


From dcc0363e02a7cc85fbc4542c0de39706659dca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:41 +0000
Subject: [PATCH 27/35] fix: join only whole mixed-number visibility groups

---
 aeromet_py/utils/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index b609aa2..2fe1e2c 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,13 +14,13 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"\s(?P<int>\d{1,2})\s(?P<frac>\d/[1-9]SM)\s?"
+    regex = r"\s(?P<int>\d{1,2})\s(?P<frac>\d/[1-9]SM)(?!\S)"
 
     for _ in range(3):
         match = re.search(regex, report)
 
         try:
-            report = re.sub(regex, " {}_{} ".format(*match.groups()), report, count=1)
+            report = re.sub(regex, " {}_{}".format(*match.groups()), report, count=1)
         except AttributeError:
             break
 
-- 
2.43.0


From 2e9d2ab042aea90755601080c4668f981cbdcd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 28/35] fix: a station code beginning with RMK does not start
 the remark of a METAR

---
 aeromet_py/reports/metar.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index 703b3fd..887eed8 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -263,9 +263,16 @@ class Metar(
             )
 
     def _handle_sections(self) -> None:
+        # The station follows the type and never starts the remark
+        header: str = re.match(
+            r"((METAR|SPECI|TAF) (?=[A-Z][A-Z0-9]{3}( |$)))?", self._raw_code
+        ).group()
         sections: List[str] = split_sentence(
-            self._raw_code, ["NOSIG", "TEMPO", "BECMG", "RMK"], space="left"
+            self._raw_code[len(header) :],
+            ["NOSIG", "TEMPO", "BECMG", "RMK"],
+            space="left",
         )
+        sections[0] = header + sections[0]
 
         trend: str = ""
         remark: str = ""
-- 
2.43.0


From f75cbdb3a2e0f24a598bcaa51f0d1ac46ff39391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:31 +0000
Subject: [PATCH 29/35] fix: a METAR that begins with a station code beginning
 with RMK keeps its body

---
 aeromet_py/reports/metar.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index 887eed8..c0c7da5 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -263,20 +263,21 @@ class Metar(
             )
 
     def _handle_sections(self) -> None:
-        # The station follows the type and never starts the remark
+        # The station starts the body and never a trend or the remark
         header: str = re.match(
-            r"((METAR|SPECI|TAF) (?=[A-Z][A-Z0-9]{3}( |$)))?", self._raw_code
+            r"(((METAR|SPECI|TAF) )?[A-Z][A-Z0-9]{3}(?= |$))?", self._raw_code
         ).group()
         sections: List[str] = split_sentence(
             self._raw_code[len(header) :],
             ["NOSIG", "TEMPO", "BECMG", "RMK"],
             space="left",
         )
-        sections[0] = header + sections[0]
 
         trend: str = ""
         remark: str = ""
         body: str = ""
+        if header:
+            body = header + sections.pop(0)
         for section in sections:
             if (
                 section.startswith("TEMPO")
-- 
2.43.0


From 800930c189ee444efbabbdfa425919461a20629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:40 +0000
Subject: [PATCH 30/35] fix: the text of a zero distance, speed, direction,
 temperature or pressure keeps its unit

---
 aeromet_py/reports/models/base/distance.py    | 2 +-
 aeromet_py/reports/models/base/pressure.py    | 2 +-
 aeromet_py/reports/models/base/temperature.py | 2 +-
 aeromet_py/reports/models/base/wind.py        | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/base/distance.py b/aeromet_py/reports/models/base/distance.py
index 38075d6..38b88a0 100755
--- a/aeromet_py/reports/models/base/distance.py
+++ b/aeromet_py/reports/models/base/distance.py
@@ -22,7 +22,7 @@ class Distance(Numeric):
             super().__init__(_distance)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " m"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/pressure.py b/aeromet_py/reports/models/base/pressure.py
index 2e600a5..2e0673a 100755
--- a/aeromet_py/reports/models/base/pressure.py
+++ b/aeromet_py/reports/models/base/pressure.py
@@ -19,7 +19,7 @@ class Pressure(Numeric):
             super().__init__(_pressure)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " hPa"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/temperature.py b/aeromet_py/reports/models/base/temperature.py
index 000e7ca..015793f 100755
--- a/aeromet_py/reports/models/base/temperature.py
+++ b/aeromet_py/reports/models/base/temperature.py
@@ -26,7 +26,7 @@ class Temperature(Numeric):
             super().__init__(_temperature)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°C"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/wind.py b/aeromet_py/reports/models/base/wind.py
index 4eac983..70e4485 100755
--- a/aeromet_py/reports/models/base/wind.py
+++ b/aeromet_py/reports/models/base/wind.py
@@ -56,7 +56,7 @@ class Direction(Numeric):
         if self._variable:
             return "variable wind"
 
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°"
 
         return super().__str__()
@@ -152,7 +152,7 @@ class Speed(Numeric):
             super().__init__(_speed)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " kt"
 
         return super().__str__()
-- 
2.43.0


From d8ed55b5785476076ca4bb8f985799a762167cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:06 +0000
Subject: [PATCH 31/35] fix: the text of a wind states a zero gust and a zero
 direction like any other

---
 aeromet_py/reports/models/base/wind.py  | 6 +++++-
 aeromet_py/reports/models/metar/wind.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/wind.py b/aeromet_py/reports/models/base/wind.py
index 70e4485..5c1e30e 100755
--- a/aeromet_py/reports/models/base/wind.py
+++ b/aeromet_py/reports/models/base/wind.py
@@ -199,7 +199,11 @@ class Wind:
         cardinal: str = self.cardinal_direction if self.cardinal_direction else ""
 
         direction: str = str(self._direction)
-        direction = f"({self._direction})" if self._direction.value else direction
+        direction = (
+            f"({self._direction})"
+            if self._direction.value is not None
+            else direction
+        )
 
         s: str = "{} {} {}".format(
             cardinal,
diff --git a/aeromet_py/reports/models/metar/wind.py b/aeromet_py/reports/models/metar/wind.py
index 1721bd8..d7cb184 100755
--- a/aeromet_py/reports/models/metar/wind.py
+++ b/aeromet_py/reports/models/metar/wind.py
@@ -29,7 +29,9 @@ class MetarWind(Wind, Group):
             self._gust = Speed(_gst)
 
     def __str__(self) -> str:
-        gust: str = " gust of " + str(self._gust) if self._gust.value else ""
+        gust: str = ""
+        if self._gust.value is not None:
+            gust = " gust of " + str(self._gust)
 
         return super().__str__() + gust
 
-- 
2.43.0


From 75b367a45e079195a19c34d611f5f7d11fc6d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:11 +0000
Subject: [PATCH 32/35] fix: the text of a runway range states a highest range
 of zero

---
 aeromet_py/reports/models/metar/runway_range.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/runway_range.py b/aeromet_py/reports/models/metar/runway_range.py
index a9e0e95..78c9b7b 100755
--- a/aeromet_py/reports/models/metar/runway_range.py
+++ b/aeromet_py/reports/models/metar/runway_range.py
@@ -100,7 +100,11 @@ class MetarRunwayRange(Group):
         return "runway {} {}{}{}".format(
             self._name,
             self.low_range,
-            f" varying to {self.high_range}" if self._high_range.value else "",
+            (
+                f" varying to {self.high_range}"
+                if self._high_range.value is not None
+                else ""
+            ),
             ", " + self._trend if self._trend else "",
         )
 
-- 
2.43.0


From 0542c2a580798ea104f549b16fda3acc9465076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:14 +0000
Subject: [PATCH 33/35] fix: the texts of temperatures and sea state do not
 take zero for a missing value

---
 aeromet_py/reports/models/metar/sea_state.py    | 4 ++--
 aeromet_py/reports/models/metar/temperatures.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/models/metar/sea_state.py b/aeromet_py/reports/models/metar/sea_state.py
index 3fbf8d9..f41b3fd 100755
--- a/aeromet_py/reports/models/metar/sea_state.py
+++ b/aeromet_py/reports/models/metar/sea_state.py
@@ -64,12 +64,12 @@ class MetarSeaState(Group):
 
         s: str = ""
 
-        if self._temperature.value:
+        if self._temperature.value is not None:
             s += f"temperature {self._temperature}, "
         else:
             s += "no temperature, "
 
-        if self._height.value:
+        if self._height.value is not None:
             s += f"significant wave height {self._height}, "
         else:
             s += "no significant wave height, "
diff --git a/aeromet_py/reports/models/metar/temperatures.py b/aeromet_py/reports/models/metar/temperatures.py
index 62b3230..1a69ab2 100755
--- a/aeromet_py/reports/models/metar/temperatures.py
+++ b/aeromet_py/reports/models/metar/temperatures.py
@@ -28,7 +28,7 @@ class MetarTemperatures(Group):
     def __str__(self) -> str:
         if self._temperature.value is None and self._dewpoint.value is None:
             return ""
-        elif self._temperature.value is None and self._dewpoint.value:
+        elif self._temperature.value is None:
             return f"no temperature | dewpoint: {self._dewpoint}"
         elif self._temperature.value is not None and self._dewpoint.value is None:
             return f"temperature: {self._temperature} | no dewpoint"
-- 
2.43.0


From f1519bb08bc5faf2599c4b232ab75619ae6c9d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:18 +0000
Subject: [PATCH 34/35] fix: the text of a cloud layer states a zero height,
 and its type when the height is unknown

---
 aeromet_py/reports/models/base/cloud.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index cc3d092..3528dbd 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -119,29 +119,21 @@ class Cloud(Group):
         )
 
     def __str__(self) -> str:
-        if self._type and self._height.value:
-            return "{} at {:.1f} feet of {}".format(
-                self._cover,
-                self.height_in_feet,
-                self._type,
-            )
+        of_type: str = f" of {self._type}" if self._type else ""
 
-        if self._height.value:
-            return "{} at {:.1f} feet".format(
+        if self._height.value is not None:
+            return "{} at {:.1f} feet{}".format(
                 self._cover,
                 self.height_in_feet,
+                of_type,
             )
 
-        if self._cover in [SKY_COVER[item] for item in ["NSC", "NCD", "///"]]:
-            return self._cover
-
-        if self._cover == SKY_COVER["VV"]:
-            if self._height.value:
-                return self._cover + f" at {self.height_in_feet} feet"
-            return self._cover
+        if self._cover in [SKY_COVER[item] for item in ["NSC", "NCD", "///", "VV"]]:
+            return f"{self._cover}{of_type}"
 
-        return "{} at undefined height".format(
+        return "{} at undefined height{}".format(
             self._cover,
+            of_type,
         )
 
     @property
-- 
2.43.0


From c9f2d694271be42211d6a03d3c3ff11aa76c8f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:23 +0000
Subject: [PATCH 35/35] fix: the text of a TAF states the final end of its FM
 periods

---
 aeromet_py/reports/taf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 5fb401a..444ba59 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -146,8 +146,6 @@ class Taf(
         cf: ChangeForecasted = ChangeForecasted(code, self._valid)
         self._changes_forecasted.add(cf)
 
-        self._concatenate_string(cf)
-
     @property
     def changes_forecasted(self) -> TafChangesForecasted:
         """Get the weather change periods data of the TAF if provided."""
@@ -187,7 +185,9 @@ class Taf(
             if change != "":
                 self._handle_change_forecasted(change)
 
+        # A period can be closed by a later one, so the text comes last
         for cp in self._changes_forecasted:
+            self._concatenate_string(cp)
             self._unparsed_groups += cp.unparsed_groups
 
         if self.unparsed_groups and self._truncate:
-- 
2.43.0

