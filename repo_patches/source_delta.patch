From c2839637cb514ab8464b430c4f2bd43c57abd4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 01/49] fix: re-emit the extra parameters that were parsed from
 DTEND

---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index f74ef71..7c1395e 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -125,7 +125,7 @@ class TimespanConverter(AttributeConverter):
         if value.get_end_representation() == "end":
             end_name = {"end": "DTEND", "due": "DUE"}[value._end_name()]
             params = copy_extra_params(
-                cast(ExtraParams, self.get_extra_params(component, end_name))
+                cast(ExtraParams, self.get_extra_params(component, value._end_name()))
             )
             params.update(value_type)
             dt_value = dt_conv.serialize(value.get_effective_end(), params, context)
-- 
2.43.0


From a56914f88422343f039b7ad7ffb1f5e953db2518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 02/49] fix: use the default precision for entries parsed
 without DTSTART and DTEND/DUE

---
 src/ics/converter/types/timespan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 7c1395e..017c415 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -84,7 +84,7 @@ class TimespanConverter(AttributeConverter):
             ensure_datetime(context[CONTEXT_BEGIN_TIME]),
             ensure_datetime(context[CONTEXT_END_TIME]),
             context[CONTEXT_DURATION],
-            context[CONTEXT_PRECISION],
+            context[CONTEXT_PRECISION] or "second",
         )
         # missing values will be reported by the Timespan validator
         if (
-- 
2.43.0


From 9024a19bf4f37fed5b591be1f94d104f0dfe1a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 03/49] fix: use a valid precision value in unset_all_day

---
 src/ics/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/event.py b/src/ics/event.py
index d3a8d3c..71c58a2 100644
--- a/src/ics/event.py
+++ b/src/ics/event.py
@@ -172,7 +172,7 @@ class CalendarEntryAttrs(Component):
         self.timespan = self.timespan.make_all_day()
 
     def unset_all_day(self):
-        self.timespan = self.timespan.replace(precision="seconds")
+        self.timespan = self.timespan.replace(precision="second")
 
     @property
     def floating(self) -> bool:
-- 
2.43.0


From f0f7430eb61dce88028158dbc4f2a7696cb9a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 04/49] fix: only swap begin and due of Todos in comparisons,
 not in interval relations

---
 src/ics/timespan.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index fee1f42..f3661b9 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -602,10 +602,6 @@ class TodoTimespan(Timespan):
     def _end_name(self):
         return "due"
 
-    def timespan_tuple(self, default=None, normalization=None):
+    def cmp_tuple(self):
         # Todos compare by (due, begin) instead of (begin, end)
-        return tuple(
-            reversed(
-                super().timespan_tuple(default=default, normalization=normalization)
-            )
-        )
+        return tuple(reversed(super().cmp_tuple()))
-- 
2.43.0


From 162300e2de2ad995c91babfb6719b1592f4a9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 05/49] fix: don't emit the ACTION of CustomAlarms twice

---
 src/ics/alarm.py                   | 4 +++-
 src/ics/converter/types/various.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ics/alarm.py b/src/ics/alarm.py
index 234f103..c0ad881 100644
--- a/src/ics/alarm.py
+++ b/src/ics/alarm.py
@@ -63,7 +63,9 @@ class CustomAlarm(BaseAlarm):
     A calendar event VALARM with custom ACTION.
     """
 
-    _action: str = attr.ib(default=None)
+    _action: str = attr.ib(
+        default=None, metadata={"ics_ignore": True}
+    )  # handled by AlarmActionConverter
 
     @property
     def action(self):
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 90f4466..c44fa16 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -112,6 +112,8 @@ class AlarmActionConverter(GenericConverter):
     ) -> bool:
         assert isinstance(item, ContentLine)
         assert issubclass(type(component), get_type_from_action(item.value))
+        if isinstance(component, CustomAlarm):
+            component._action = item.value
         if item.params:
             component.extra_params["ACTION"] = copy_extra_params(item.params)
         return True
-- 
2.43.0


From 162fb036da306bc07872957b4661f79d612bb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 06/49] fix: include extra properties and parameters when
 cloning components

---
 src/ics/component.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ics/component.py b/src/ics/component.py
index e102983..34212df 100644
--- a/src/ics/component.py
+++ b/src/ics/component.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import ClassVar, Dict, List, Optional, Type, TypeVar, Union
 
 import attr
@@ -96,4 +97,9 @@ class Component(RuntimeAttrValidation):
     def clone(self):
         """Returns an exact (shallow) copy of self"""
         # TODO deep copies?
-        return attr.evolve(self)
+        new = attr.evolve(self)
+        # extra and extra_params are no init parameters and thus not handled by evolve,
+        # also use object.__setattr__ as components may be frozen
+        object.__setattr__(new, "extra", self.extra.clone(deep=True))
+        object.__setattr__(new, "extra_params", deepcopy(self.extra_params))
+        return new
-- 
2.43.0


From 394a3ee4330e3f73a8fa885149d7b02ed1ed235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 07/49] fix: consider fold in the observance cache of Timezones

---
 src/ics/timezone/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index fe8b500..e29940b 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -186,14 +186,18 @@ class Timezone(Component, _tzinfo):
         if len(self.observances) < 2:
             return self.observances[0]
 
-        return self._find_observance_cachable(dt.replace(tzinfo=None))
+        # datetimes that only differ in fold are equal (and have the same hash),
+        # so fold needs to explicitly be part of the cache key
+        return self._find_observance_cachable(
+            dt.replace(tzinfo=None), getattr(dt, "fold", 0)
+        )
 
-    def _find_observance_cachable(self, dt):
+    def _find_observance_cachable(self, dt, fold):
         # adapted from dateutil.tz.tz._tzicalvtz._find_comp
 
         lastcompdt = lastcomp = None
         for comp in self.observances:
-            if comp.tzoffsetdiff < TIMEDELTA_ZERO and getattr(dt, "fold", 0):
+            if comp.tzoffsetdiff < TIMEDELTA_ZERO and fold:
                 compdt = comp.rrule.before(dt - comp.tzoffsetdiff, inc=True)
             else:
                 compdt = comp.rrule.before(dt, inc=True)
-- 
2.43.0


From d9b7ecbe656ba1ca8f43faf209d66e5e25cacb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 08/49] fix: adjacent half-open timespans don't intersect

---
 src/ics/timespan.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index f3661b9..b9cb866 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -511,9 +511,7 @@ class Timespan:
         # the timespan doesn't include its end instant / day
         return (
             second.begin <= first.begin < second.end
-            or second.begin <= first.end < second.end
             or first.begin <= second.begin < first.end
-            or first.begin <= second.end < first.end
         )
 
     def includes(self, other: Union["Timespan", datetime]) -> bool:
-- 
2.43.0


From a348fc2dc17c194cbced04df78221d2d07823a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 09/49] fix: check timezone consistency before comparing begin
 and end

---
 src/ics/timespan.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index b9cb866..8c43ec9 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -243,6 +243,16 @@ class Timespan:
 
             if self.end_time is not None:
                 validate_timeprecision(self.end_time, self._end_name())
+                if self.begin_time.tzinfo is None and self.end_time.tzinfo is not None:
+                    raise ValueError(
+                        self._end_name()
+                        + " time may not have a timezone as the begin time doesn't either"
+                    )
+                if self.begin_time.tzinfo is not None and self.end_time.tzinfo is None:
+                    raise ValueError(
+                        self._end_name()
+                        + " time must have a timezone as the begin time also does"
+                    )
                 if self.begin_time > self.end_time:
                     raise ValueError(
                         "begin time must be before " + self._end_name() + " time"
@@ -257,16 +267,6 @@ class Timespan:
                     raise ValueError(
                         "can't set duration together with " + self._end_name() + " time"
                     )
-                if self.begin_time.tzinfo is None and self.end_time.tzinfo is not None:
-                    raise ValueError(
-                        self._end_name()
-                        + " time may not have a timezone as the begin time doesn't either"
-                    )
-                if self.begin_time.tzinfo is not None and self.end_time.tzinfo is None:
-                    raise ValueError(
-                        self._end_name()
-                        + " time must have a timezone as the begin time also does"
-                    )
                 duration = self.get_effective_duration()
                 if duration and not timedelta_nearly_zero(
                     duration % TIMEDELTA_CACHE[self.precision]
-- 
2.43.0


From 19684b1ee13f44f1425dc28829584b9ea5093780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 10/49] fix: quote empty parameter values, as unquoted ones
 can't be parsed

---
 src/ics/contentline/container.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 3e64b04..ab52f50 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -177,7 +177,11 @@ class ContentLine(RuntimeAttrValidation):
             for nr, pval in enumerate(self.params[pname]):
                 if nr > 0:
                     yield ","
-                if isinstance(pval, QuotedParamValue) or re.search("[:;,]", pval):
+                if (
+                    isinstance(pval, QuotedParamValue)
+                    or not pval
+                    or re.search("[:;,]", pval)
+                ):
                     # Property parameter values that contain the COLON, SEMICOLON, or COMMA character separators
                     # MUST be specified as quoted-string text values.
                     # TODO The DQUOTE character is used as a delimiter for parameter values that contain
-- 
2.43.0


From 8a2c62c2970da016b3037e6d0759785b50e49dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 11/49] fix: only split serialized calendars at actual line
 breaks

---
 src/ics/icalendar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ics/icalendar.py b/src/ics/icalendar.py
index 2000a7b..21bdb97 100644
--- a/src/ics/icalendar.py
+++ b/src/ics/icalendar.py
@@ -1,3 +1,4 @@
+import re
 from datetime import tzinfo
 from typing import ClassVar, Iterable, Iterator, List, Optional, Union, overload
 
@@ -163,4 +164,5 @@ class Calendar(CalendarAttrs):
             >>> c = Calendar(); c.events.append(Event(summary="My cool event"))
             >>> open('my.ics', 'w').writelines(c)
         """
-        return iter(self.serialize().splitlines(keepends=True))
+        # splitlines would also split at other unicode line boundaries within values
+        return iter(re.split(r"(?<=\r\n)", self.serialize()))
-- 
2.43.0


From 0ae8de3e850d7d68264cd01f230ddb276a78fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 12/49] fix: don't use the cached attribute fields of a parent
 class for validation

---
 src/ics/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/types.py b/src/ics/types.py
index 6575f00..dde447b 100644
--- a/src/ics/types.py
+++ b/src/ics/types.py
@@ -126,7 +126,7 @@ class RuntimeAttrValidation:
     def __setattr__(self, key, value):
         if getattr(self, "__post_init__", None):
             cls = self.__class__  # type: Any
-            if not getattr(cls, "__attr_fields__", None):
+            if "__attr_fields__" not in cls.__dict__:
                 cls.__attr_fields__ = attr.fields_dict(cls)
             try:
                 field = cls.__attr_fields__[key]
-- 
2.43.0


From c4a8ce7159a4c947726bc463ea0b0cc196900e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 13/49] fix: handle EmptyContext when converting datetimes with
 timezones

---
 src/ics/valuetype/datetime.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 608de27..74b3b47 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -49,7 +49,8 @@ class DatetimeConverterMixin:
             if tz is not None:
                 params["TZID"] = [tz.tzid]
                 available_tz = context.setdefault(self.CONTEXT_KEY_AVAILABLE_TZ, {})
-                available_tz.setdefault(tz.tzid, tz)
+                if available_tz is not None:
+                    available_tz.setdefault(tz.tzid, tz)
         return value.strftime(nonutc_fmt)
 
     def _parse_dt(
@@ -123,7 +124,8 @@ class DatetimeConverterMixin:
                             )
                         )
                     selected_tz = found_tz
-                available_tz.setdefault(param_tz, selected_tz)
+                if available_tz is not None:
+                    available_tz.setdefault(param_tz, selected_tz)
             return dt.replace(tzinfo=selected_tz)
         else:
             return dt
-- 
2.43.0


From 7620d8f9cc4f79319c9854079cde73a943dbd205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 14/49] fix: handle None in dst and tzname of Timezones

---
 src/ics/timezone/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index e29940b..f16daec 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -224,6 +224,8 @@ class Timezone(Component, _tzinfo):
             return self._find_observance(dt).tzoffsetto
 
     def dst(self, dt):
+        if dt is None and len(self.observances) >= 2:
+            return None
         comp = self._find_observance(dt)
         if comp.is_dst:
             return comp.tzoffsetdiff
@@ -231,6 +233,8 @@ class Timezone(Component, _tzinfo):
             return TIMEDELTA_ZERO
 
     def tzname(self, dt):
+        if dt is None and len(self.observances) >= 2:
+            return None
         return self._find_observance(dt).tzname
 
 
-- 
2.43.0


From 2f696de7a833930362588d9a131b7063570cf0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 15/49] fix: validate items before adding them to a Container

---
 src/ics/contentline/container.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index ab52f50..805b1f9 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -288,8 +288,9 @@ class Container(MutableSequence[ContainerItem]):
         self.data.append(value)
 
     def extend(self, values):
+        values = list(values)
+        self.check_items(*values)
         self.data.extend(values)
-        attr.validate(self)
 
     def __getitem__(self, i):
         if isinstance(i, str):
@@ -308,8 +309,12 @@ class Container(MutableSequence[ContainerItem]):
     def __setitem__(
         self, index, value
     ):  # index might be slice and value might be iterable
+        if isinstance(index, slice):
+            value = list(value)
+            self.check_items(*value)
+        else:
+            self.check_items(value)
         self.data.__setitem__(index, value)
-        attr.validate(self)
 
     __contains__ = _wrap_list_func(list.__contains__)
     __iter__ = _wrap_list_func(list.__iter__)
-- 
2.43.0


From 0c9e007a7b783b27e6142ecc255bbfdee4d3adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 16/49] fix: don't share parameters between components and
 serialized ContentLines

---
 src/ics/converter/types/various.py |  4 +++-
 src/ics/valuetype/special.py       | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index c44fa16..4321b10 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -123,7 +123,9 @@ class AlarmActionConverter(GenericConverter):
         output.append(
             ContentLine(
                 name="ACTION",
-                params=cast(ExtraParams, component.extra_params.get("ACTION", {})),
+                params=copy_extra_params(
+                    cast(ExtraParams, component.extra_params.get("ACTION", {}))
+                ),
                 value=component.action,
             )
         )
diff --git a/src/ics/valuetype/special.py b/src/ics/valuetype/special.py
index 11905c9..4d39ad1 100644
--- a/src/ics/valuetype/special.py
+++ b/src/ics/valuetype/special.py
@@ -5,7 +5,14 @@ from urllib.parse import urlparse
 from ics import Attendee, Organizer
 from ics.attendee import Person
 from ics.geo import Geo
-from ics.types import URL, ContextDict, EmptyContext, EmptyParams, ExtraParams
+from ics.types import (
+    URL,
+    ContextDict,
+    EmptyContext,
+    EmptyParams,
+    ExtraParams,
+    copy_extra_params,
+)
 from ics.valuetype.base import ValueConverter
 
 __all__ = ["GeoConverter"]
@@ -63,7 +70,7 @@ class PersonConverter(Generic[P], ValueConverter[P], abc.ABC):
         context: ContextDict = EmptyContext,
     ) -> str:
         if isinstance(value, Person):
-            params.update(value.extra)
+            params.update(copy_extra_params(cast(ExtraParams, value.extra)))
             value = value.email
         if isinstance(value, str):
             return value
-- 
2.43.0


From 1b7b58f228a2709797ffc5417e4b3bc70d0e0aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 17/49] fix: check for datetime instance instead of module in
 validate_utc

---
 src/ics/timezone/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index f16daec..e1a44dd 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -80,7 +80,7 @@ def is_utc(value):
 
 
 def validate_utc(inst, attr, value):
-    check_is_instance(attr.name, value, datetime)
+    check_is_instance(attr.name, value, datetime.datetime)
     if not is_utc(value):
         raise ValueError(
             "'{name}' must be in timezone UTC (got {value!r} which has tzinfo {tzinfo!r})".format(
-- 
2.43.0


From 5ad824a7fda8e35ca8099f846679f0fa97867e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 18/49] fix: use local instead of UTC time for the floating
 instant of Timeline.now

---
 src/ics/timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index f6d8bcb..8c44753 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -152,4 +152,4 @@ class Timeline:
         """
         Iterates (in chronological order) over all events that occur right now.
         """
-        return self.at(datetime.utcnow())
+        return self.at(datetime.now())
-- 
2.43.0


From e13249b572b3a523db22a3a5243d2c004c353abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 19/49] fix: always query exactly one day in Timeline.on

---
 src/ics/timeline.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 8c44753..10ba365 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -1,5 +1,5 @@
 import heapq
-from datetime import date, datetime, timedelta
+from datetime import date, datetime
 from typing import TYPE_CHECKING, Iterable, Iterator, Optional, Tuple
 
 import attr
@@ -7,11 +7,7 @@ import attr
 from ics.event import Event
 from ics.timespan import Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
-from ics.utils import (
-    ceil_datetime_to_midnight,
-    ensure_datetime,
-    floor_datetime_to_midnight,
-)
+from ics.utils import TIMEDELTA_DAY, ensure_datetime, floor_datetime_to_midnight
 
 if TYPE_CHECKING:
     from ics.icalendar import Calendar
@@ -133,7 +129,7 @@ class Timeline:
         :param strict: if True events will be returned only if they are strictly *included* in `day`
         """
         begin = floor_datetime_to_midnight(ensure_datetime(instant))
-        end = ceil_datetime_to_midnight(ensure_datetime(instant) + timedelta(seconds=1))
+        end = begin + TIMEDELTA_DAY
         query = self.__normalize_timespan(begin, end)
         if strict:
             return self.included(query)
-- 
2.43.0


From 83210d073fa2eaf9570092e67d28333a7b89cf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:45 +0000
Subject: [PATCH 20/49] fix: instantiate the CalendarUserAddressConverter

---
 src/ics/valuetype/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/valuetype/generic.py b/src/ics/valuetype/generic.py
index f6555a6..5c10d3a 100644
--- a/src/ics/valuetype/generic.py
+++ b/src/ics/valuetype/generic.py
@@ -193,4 +193,4 @@ class CalendarUserAddressConverterClass(URIConverterClass):
         return "CAL-ADDRESS"
 
 
-CalendarUserAddressConverter = CalendarUserAddressConverterClass
+CalendarUserAddressConverter = CalendarUserAddressConverterClass()
-- 
2.43.0


From c326f5172c6a90de9c2be94b5b273a49d7c32442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 21/49] fix: don't drop the due time when converting to
 duration without a begin time

---
 src/ics/timespan.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ics/timespan.py b/src/ics/timespan.py
index 8c43ec9..1e18e74 100644
--- a/src/ics/timespan.py
+++ b/src/ics/timespan.py
@@ -376,6 +376,10 @@ class Timespan:
         if current == target or (current_is_end and target_is_end):
             return self
         elif current_is_end and target == "duration":
+            if self.begin_time is None:
+                raise ValueError(
+                    f"can't convert {self._end_name()} to duration without begin time"
+                )
             return self.replace(end_time=None, duration=self.get_effective_duration())
         elif current == "duration" and target_is_end:
             return self.replace(end_time=self.get_effective_end(), duration=None)
-- 
2.43.0


From 26f8a138fb70bbccf1d3f13f7963ac301957a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:08 +0000
Subject: [PATCH 22/49] fix: don't normalize the timezone of all-day events in
 Timelines

---
 src/ics/timeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 10ba365..28f611f 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -45,7 +45,8 @@ class Timeline:
             timespan = start
         else:
             timespan = Timespan(ensure_datetime(start), ensure_datetime(stop))
-        if self._normalization:
+        # the timezone of all-day timespans can't be changed
+        if self._normalization and not timespan.is_all_day():
             timespan = self._normalization.normalize(timespan)
         return timespan
 
-- 
2.43.0


From 93ad239e5ba127494b9def4032954070779665c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 23/49] fix: compare floating and zoned times in
 Timeline.start_after

---
 src/ics/timeline.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ics/timeline.py b/src/ics/timeline.py
index 28f611f..a4fa13b 100644
--- a/src/ics/timeline.py
+++ b/src/ics/timeline.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Iterable, Iterator, Optional, Tuple
 import attr
 
 from ics.event import Event
-from ics.timespan import Normalization, Timespan
+from ics.timespan import CMP_NORMALIZATION, Normalization, Timespan
 from ics.types import DatetimeLike, OptionalDatetimeLike, TimespanOrBegin
 from ics.utils import TIMEDELTA_DAY, ensure_datetime, floor_datetime_to_midnight
 
@@ -109,9 +109,12 @@ class Timeline:
         Iterates (in chronological order) on every event from the :class:`ics.icalendar.Calendar` in chronological order.
         The first event of the iteration has a starting date greater (later) than `instant`.
         """
-        instant = self.__normalize_datetime(instant)
+        instant = CMP_NORMALIZATION.normalize(self.__normalize_datetime(instant))
         for timespan, event in self.iterator():
-            if timespan.begin_time is not None and timespan.begin_time > instant:
+            if (
+                timespan.begin_time is not None
+                and CMP_NORMALIZATION.normalize(timespan.begin_time) > instant
+            ):
                 yield event
 
     def at(self, instant: DatetimeLike) -> Iterator[Event]:
-- 
2.43.0


From bf77fbaa44ee42a3ea7381cdf595209fa11933f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:28 +0000
Subject: [PATCH 24/49] fix: quote parameter values whose escaped form is empty

---
 src/ics/contentline/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index 805b1f9..d33ce73 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -179,7 +179,7 @@ class ContentLine(RuntimeAttrValidation):
                     yield ","
                 if (
                     isinstance(pval, QuotedParamValue)
-                    or not pval
+                    or not escape_param(pval)
                     or re.search("[:;,]", pval)
                 ):
                     # Property parameter values that contain the COLON, SEMICOLON, or COMMA character separators
-- 
2.43.0


From b7c9cedd4e4f80724b615ff0d1562fc8fe777883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:56 +0000
Subject: [PATCH 25/49] fix: accept date-times when parsing PERIOD values

---
 src/ics/valuetype/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index 74b3b47..dcfb644 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -376,6 +376,8 @@ DurationConverter = DurationConverterClass()
 
 
 class PeriodConverterClass(DatetimeConverterMixin, ValueConverter[Timespan]):
+    FORMATS = DatetimeConverterClass.FORMATS
+
     @property
     def ics_type(self) -> str:
         return "PERIOD"
-- 
2.43.0


From 3520c5918498f7d4c25639a27da6b9ac570984ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 26/49] fix: reject components with both DTEND and DUE in any
 order

---
 src/ics/converter/types/timespan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 017c415..e110c32 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -65,7 +65,8 @@ class TimespanConverter(AttributeConverter):
                 context[CONTEXT_BEGIN_TIME] = value
             else:
                 end_name = {"DTEND": "end", "DUE": "due"}[item.name]
-                context[CONTEXT_END_NAME] = end_name
+                if context.setdefault(CONTEXT_END_NAME, end_name) != end_name:
+                    raise ValueError("event with both DTEND and DUE")
                 self.set_or_append_extra_params(component, params, name=end_name)
                 context[CONTEXT_END_TIME] = value
 
-- 
2.43.0


From 8b7e1cf765687060393d6beddf7c4ecd62ea027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:04 +0000
Subject: [PATCH 27/49] fix: don't crash on tzinfo classes unknown to dateutil

---
 src/ics/timezone/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ics/timezone/converters.py b/src/ics/timezone/converters.py
index 03933fb..9402f99 100644
--- a/src/ics/timezone/converters.py
+++ b/src/ics/timezone/converters.py
@@ -142,7 +142,7 @@ def Timezone_from_dateutil(tzinfo: datetime.tzinfo) -> Union[Timezone, TimezoneR
         return TimezoneResult.LOCAL  # tzinfo._tznames
     elif isinstance(tzinfo, dateutil.tz.tzstr):
         return TimezoneResult.NOT_IMPLEMENTED
-    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz._tzicalvtz)):  # type: ignore[attr-defined]
+    elif isinstance(tzinfo, (dateutil.tz.tzical, dateutil.tz.tz._tzicalvtz)):  # type: ignore[attr-defined]
         return TimezoneResult.NOT_IMPLEMENTED
     elif isinstance(tzinfo, dateutil.tz.tzrange):
         return TimezoneResult.NOT_IMPLEMENTED
-- 
2.43.0


From 817a6f832a2d750bd5d40112662a769508f7b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:44 +0000
Subject: [PATCH 28/49] fix: a zone named UTC is only UTC if it has no offset

---
 src/ics/timezone/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index e1a44dd..a066107 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -69,10 +69,14 @@ def is_utc(value):
         return False
     if tz in [datetime.timezone.utc, dateutil.tz.UTC, UTC]:
         return True
+    if isinstance(tz, datetime.timezone):
+        return False  # whatever its name is, its offset isn't zero
     if isinstance(tz, dateutil.tz.tzutc) or type(tz).__qualname__ == "pytz.UTC":
         return True
-    if isinstance(tz, Timezone) and tz.tzid.upper() in ["UTC", "ETC/UTC"]:
-        return True
+    if isinstance(tz, Timezone):
+        return tz.tzid.upper() in ["UTC", "ETC/UTC"] and all(
+            not observance.tzoffsetto for observance in tz.observances
+        )
     if str(tz).upper() in ["UTC", "ETC/UTC"]:
         return True
 
-- 
2.43.0


From c0086059710cc7c1c286b56907c269844adca229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:00 +0000
Subject: [PATCH 29/49] fix: deep clones of containers shared the lines of
 nested containers

---
 src/ics/contentline/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index d33ce73..ef8fa79 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -266,7 +266,10 @@ class Container(MutableSequence[ContainerItem]):
         if items is None:
             items = self.data
         if deep:
-            items = (item.clone() for item in items)
+            items = (
+                item.clone(deep=True) if isinstance(item, Container) else item.clone()
+                for item in items
+            )
         return attr.evolve(self, data=items)
 
     @staticmethod
-- 
2.43.0


From e80c0340dc6e13d50024521b785f4179760fa457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:42 +0000
Subject: [PATCH 30/49] fix: read quoted parameters of attendees and organizers

---
 src/ics/attendee.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ics/attendee.py b/src/ics/attendee.py
index 0af90d6..6ec9ac9 100644
--- a/src/ics/attendee.py
+++ b/src/ics/attendee.py
@@ -23,7 +23,7 @@ class PersonProperty(Generic[T]):
         if len(value) == 0:
             return self.default
         elif len(value) == 1:
-            return self.converter.parse(value[0])
+            return self.converter.parse(str(value[0]))  # might be a QuotedParamValue
         else:
             raise ValueError(
                 f"Expected at most one value for property {self.name!r}, got {value!r}!"
@@ -45,7 +45,7 @@ class PersonMultiProperty(Generic[T]):
     def __get__(self, instance: "Person", owner) -> List[T]:
         if self.name not in instance.extra:
             return self.default
-        return [self.converter.parse(v) for v in instance.extra[self.name]]
+        return [self.converter.parse(str(v)) for v in instance.extra[self.name]]
 
     def __set__(self, instance: "Person", value: Iterable[T]):
         instance.extra[self.name] = [self.converter.serialize(v) for v in value]
-- 
2.43.0


From c14190e1a43e1f31abe3025cb5b22a2f4787a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:58 +0000
Subject: [PATCH 31/49] fix: refuse stray lines in Calendar.parse_multiple with
 a ValueError

---
 src/ics/icalendar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ics/icalendar.py b/src/ics/icalendar.py
index 21bdb97..137dd4a 100644
--- a/src/ics/icalendar.py
+++ b/src/ics/icalendar.py
@@ -114,7 +114,10 @@ class Calendar(CalendarAttrs):
         Parses an input string that may contain multiple calendars
         and returns a list of :class:`ics.event.Calendar`
         """
-        containers = string_to_containers(string)
+        containers = list(string_to_containers(string))
+        for c in containers:
+            if not isinstance(c, Container):
+                raise ValueError(f"can't populate from {type(c)}")
         return [cls(imports=c) for c in containers]
 
     @overload
-- 
2.43.0


From a9426fe3882cc0a1469bbfe8788e7e5c0e52b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:43 +0000
Subject: [PATCH 32/49] fix: refuse truncated dates and durations with a
 ValueError

---
 src/ics/valuetype/datetime.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ics/valuetype/datetime.py b/src/ics/valuetype/datetime.py
index dcfb644..09ede70 100644
--- a/src/ics/valuetype/datetime.py
+++ b/src/ics/valuetype/datetime.py
@@ -74,7 +74,7 @@ class DatetimeConverterMixin:
             warnings.warn(
                 "DatetimeConverterMixin.parse called without available_tz dict in context"
             )
-        fixed_utc = value[-1].upper() == "Z"
+        fixed_utc = value.upper().endswith("Z")
 
         tr_value = value.translate(
             {ord("/"): "", ord("-"): "", ord("Z"): "", ord("z"): ""}
@@ -309,11 +309,11 @@ class DurationConverterClass(ValueConverter[timedelta]):
         SECS = {"S": 1, "M": 60, "H": 3600}
 
         sign, i = 1, 0
-        if value[i] in "-+":
+        if value.startswith(("-", "+")):
             if value[i] == "-":
                 sign = -1
             i += 1
-        if value[i] != "P":
+        if not value.startswith("P", i):
             raise ValueError(f"Error while parsing {value}")
         i += 1
         days, secs = 0, 0
@@ -323,9 +323,9 @@ class DurationConverterClass(ValueConverter[timedelta]):
                 if i == len(value):
                     break
             j = i
-            while value[j].isdigit():
+            while j < len(value) and value[j].isdigit():
                 j += 1
-            if i == j:
+            if i == j or j == len(value):
                 raise ValueError(f"Error while parsing {value}")
             val = int(value[i:j])
             if value[j] in DAYS:
@@ -337,7 +337,10 @@ class DurationConverterClass(ValueConverter[timedelta]):
             else:
                 raise ValueError(f"Error while parsing {value}")
             i = j + 1
-        return timedelta(sign * days, sign * secs)
+        try:
+            return timedelta(sign * days, sign * secs)
+        except OverflowError as e:
+            raise ValueError(f"Error while parsing {value}") from e
 
     def serialize(
         self,
-- 
2.43.0


From 4779bfa524cf8ab9729c99eb7ba9d98a84f2db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:43 +0000
Subject: [PATCH 33/49] fix: refuse recurrences dateutil can't make sense of
 with a ValueError

---
 src/ics/converter/types/various.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 4321b10..c0c242c 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -50,9 +50,13 @@ class RecurrenceConverter(AttributeConverter):
         )
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
-        rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
-        rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
-        rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
+        try:
+            rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
+            rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
+            rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
+        except (TypeError, OverflowError) as e:
+            # e.g. a rule without FREQ, or dates with and without a time zone
+            raise ValueError(f"invalid recurrence: {e}") from e
         self.set_or_append_value(component, rrule)
 
     def serialize(self, component: Component, output: Container, context: ContextDict):
-- 
2.43.0


From 3768c559479bf84f16bcfa21ee0e9db390550092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:49 +0000
Subject: [PATCH 34/49] fix: write components whose optional nested component
 isn't set

---
 src/ics/converter/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index 4a2af7b..5875086 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -53,6 +53,8 @@ class MemberComponentConverter(AttributeConverter):
                 "ComponentConverter %s can't serialize extra params %s", (self, extras)
             )
         for value in self.get_value_list(parent):
+            if value is None:
+                continue  # an optional single-value attribute that isn't set
             # don't force self.meta for serialization, but use the meta registered for the concrete type of value
             output.append(value.to_container(context))
 
-- 
2.43.0


From 4ec8667e16cca948ab89f58f90c69ea7877e4cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:14 +0000
Subject: [PATCH 35/49] fix: components without any recurrence line aren't read
 with a KeyError

---
 src/ics/converter/types/various.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index c0c242c..0ba4fc6 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -45,9 +45,14 @@ class RecurrenceConverter(AttributeConverter):
         return True
 
     def post_populate(self, component: Component, context: ContextDict):
-        lines_str = "".join(
-            line.serialize(newline=True) for line in context.pop((self, "lines"))
-        )
+        lines = context.pop((self, "lines"), None)
+        if not lines:
+            if self.is_required:
+                raise ValueError(
+                    f"attribute {self.attribute.name} is required but got no recurrence lines"
+                )
+            return  # keep the default value
+        lines_str = "".join(line.serialize(newline=True) for line in lines)
         # TODO only feed dateutil the params it likes, add the rest as extra
         tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         try:
-- 
2.43.0


From d21153c02ca45474c256edb629f2c83f4a1b721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:35 +0000
Subject: [PATCH 36/49] fix: read zones whose rules end at a time in UTC

---
 src/ics/converter/types/timezone.py | 80 +++++++++++++++++++++++++++--
 1 file changed, 75 insertions(+), 5 deletions(-)

diff --git a/src/ics/converter/types/timezone.py b/src/ics/converter/types/timezone.py
index 8ee3efe..eb0fc0a 100644
--- a/src/ics/converter/types/timezone.py
+++ b/src/ics/converter/types/timezone.py
@@ -1,9 +1,11 @@
-from typing import List, Optional
+from datetime import datetime, timedelta
+from functools import partial
+from typing import Callable, List, Optional
 
 from attr import Attribute
 
 from ics.component import Component
-from ics.contentline import Container
+from ics.contentline import Container, ContentLine
 from ics.converter.base import AttributeConverter
 from ics.converter.component import ComponentMeta, ImmutableComponentMeta
 from ics.timezone import (
@@ -13,7 +15,11 @@ from ics.timezone import (
     TimezoneStandardObservance,
 )
 from ics.types import ContainerItem, ContextDict
-from ics.valuetype.datetime import DatetimeConverterMixin
+from ics.valuetype.datetime import (
+    DatetimeConverter,
+    DatetimeConverterMixin,
+    UTCOffsetConverter,
+)
 
 
 class TimezoneMeta(ImmutableComponentMeta):
@@ -69,16 +75,80 @@ class TimezoneObservanceMemberMeta(AttributeConverter):
             output.append(value.to_container(context))
 
 
+def utc_to_local(value: str, offset: timedelta, context: ContextDict) -> str:
+    if not value.upper().endswith("Z"):
+        return value
+    dt = DatetimeConverter.parse(value, {}, context).replace(tzinfo=None)
+    try:
+        dt += offset
+    except OverflowError:
+        dt = datetime.max if offset > timedelta(0) else datetime.min
+    return DatetimeConverter.serialize(dt)
+
+
+def local_to_utc(value: str, offset: timedelta, context: ContextDict) -> str:
+    dt = DatetimeConverter.parse(value, {}, context)
+    try:
+        dt -= offset
+    except OverflowError:
+        return value
+    return DatetimeConverter.serialize(dt) + "Z"
+
+
+def convert_dates(
+    item: ContainerItem, convert: Callable[[str], str], rules_only=False
+) -> ContainerItem:
+    """Get `item` with all dates it gives for a recurrence passed through `convert`."""
+    if not isinstance(item, ContentLine):
+        return item
+    elif item.name in ("RRULE", "EXRULE"):
+        parts = [part.partition("=") for part in item.value.split(";")]
+        value = ";".join(
+            name + sep + (convert(value) if name.upper() == "UNTIL" else value)
+            for name, sep, value in parts
+        )
+    elif item.name in ("DTSTART", "RDATE", "EXDATE") and not rules_only:
+        value = ",".join(convert(value) for value in item.value.split(","))
+    else:
+        return item
+    return ContentLine(item.name, item.params, value)
+
+
 class TimezoneObservanceMeta(ImmutableComponentMeta):
+    """
+    The dates of an observance are local times relative to TZOFFSETFROM, but UNTIL of its rules has to be given in UTC.
+    """
+
     def __call__(self, attribute: Attribute):
         return TimezoneObservanceMemberMeta(attribute)
 
+    def _populate_attrs(
+        self, instance: Component, container: Container, context: ContextDict
+    ):
+        for line in container["TZOFFSETFROM"]:
+            if isinstance(line, ContentLine):
+                offset = UTCOffsetConverter.parse(line.value, {}, context)
+                local = partial(utc_to_local, offset=offset, context=context)
+                container = Container(
+                    container.name, [convert_dates(item, local) for item in container]
+                )
+        super()._populate_attrs(instance, container, context)
+
+    def _serialize_attrs(
+        self, component: Component, context: ContextDict, container: Container
+    ):
+        assert isinstance(component, TimezoneObservance)
+        super()._serialize_attrs(component, context, container)
+        utc = partial(local_to_utc, offset=component.tzoffsetfrom, context=context)
+        for i in range(len(container) - len(component.extra)):
+            container[i] = convert_dates(container[i], utc, rules_only=True)
+
 
 ComponentMeta.BY_TYPE[TimezoneObservance] = TimezoneObservanceMeta(TimezoneObservance)
-ComponentMeta.BY_TYPE[TimezoneStandardObservance] = ImmutableComponentMeta(
+ComponentMeta.BY_TYPE[TimezoneStandardObservance] = TimezoneObservanceMeta(
     TimezoneStandardObservance
 )
-ComponentMeta.BY_TYPE[TimezoneDaylightObservance] = ImmutableComponentMeta(
+ComponentMeta.BY_TYPE[TimezoneDaylightObservance] = TimezoneObservanceMeta(
     TimezoneDaylightObservance
 )
 ComponentMeta.BY_TYPE[Timezone] = TimezoneMeta(Timezone)
-- 
2.43.0


From 3b47d1045b9f5717658e34dc299f3dbce7a56a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:03 +0000
Subject: [PATCH 37/49] fix: keep the time zone of recurrences, refuse rules
 without DTSTART

Dates with a TZID were written without it and rules ending in UTC without
the Z, rules without DTSTART started at whatever time they were read.
---
 src/ics/converter/types/timezone.py |  4 ++
 src/ics/converter/types/various.py  | 62 +++++++++++++++++++++--------
 src/ics/rrule.py                    | 12 +++++-
 3 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/src/ics/converter/types/timezone.py b/src/ics/converter/types/timezone.py
index eb0fc0a..e39e2b7 100644
--- a/src/ics/converter/types/timezone.py
+++ b/src/ics/converter/types/timezone.py
@@ -87,6 +87,8 @@ def utc_to_local(value: str, offset: timedelta, context: ContextDict) -> str:
 
 
 def local_to_utc(value: str, offset: timedelta, context: ContextDict) -> str:
+    if value.upper().endswith("Z"):
+        return value
     dt = DatetimeConverter.parse(value, {}, context)
     try:
         dt -= offset
@@ -108,6 +110,8 @@ def convert_dates(
             for name, sep, value in parts
         )
     elif item.name in ("DTSTART", "RDATE", "EXDATE") and not rules_only:
+        if "TZID" in item.params:
+            raise ValueError(f"{item.name} of an observance has to be a local time")
         value = ",".join(convert(value) for value in item.value.split(","))
     else:
         return item
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 0ba4fc6..48a5922 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -1,6 +1,7 @@
 import itertools
 import operator
-from typing import TYPE_CHECKING, Iterable, List, Optional, cast
+from datetime import datetime
+from typing import TYPE_CHECKING, Dict, Iterable, List, Optional, cast
 
 import attr
 import dateutil.rrule
@@ -21,7 +22,7 @@ from ics.converter.component import ComponentMeta
 from ics.rrule import rrule_to_ContentLine
 from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
 from ics.utils import one
-from ics.valuetype.datetime import DatetimeConverter, DatetimeConverterMixin
+from ics.valuetype.datetime import DatetimeConverter
 
 
 def unique_justseen(iterable, key=None):
@@ -52,17 +53,43 @@ class RecurrenceConverter(AttributeConverter):
                     f"attribute {self.attribute.name} is required but got no recurrence lines"
                 )
             return  # keep the default value
-        lines_str = "".join(line.serialize(newline=True) for line in lines)
+        rules = [line for line in lines if line.name in ("RRULE", "EXRULE")]
+        dates: Dict[str, List[datetime]] = {"DTSTART": [], "RDATE": [], "EXDATE": []}
+        for line in lines:
+            if line.name in dates:
+                dates[line.name].extend(self.parse_dates(line, context))
+        if len(dates["DTSTART"]) > 1:
+            raise ValueError("recurrence with more than one DTSTART")
+        if rules and not dates["DTSTART"]:
+            raise ValueError("recurrence rule without DTSTART")
+        dtstart = next(iter(dates["DTSTART"]), None)
         # TODO only feed dateutil the params it likes, add the rest as extra
-        tzinfos = context.get(DatetimeConverterMixin.CONTEXT_KEY_AVAILABLE_TZ, {})
         try:
-            rrule = dateutil.rrule.rrulestr(lines_str, tzinfos=tzinfos, compatible=True)
-            rrule._rdate = list(unique_justseen(sorted(rrule._rdate)))  # type: ignore
-            rrule._exdate = list(unique_justseen(sorted(rrule._exdate)))  # type: ignore
+            if rules:
+                rruleset = dateutil.rrule.rrulestr(
+                    "".join(line.serialize(newline=True) for line in rules),
+                    dtstart=dtstart,
+                    unfold=True,
+                    forceset=True,
+                )
+            else:
+                rruleset = dateutil.rrule.rruleset()
+            rruleset._rdate = list(unique_justseen(sorted(dates["RDATE"] + dates["DTSTART"])))  # type: ignore
+            rruleset._exdate = list(unique_justseen(sorted(dates["EXDATE"])))  # type: ignore
         except (TypeError, OverflowError) as e:
             # e.g. a rule without FREQ, or dates with and without a time zone
             raise ValueError(f"invalid recurrence: {e}") from e
-        self.set_or_append_value(component, rrule)
+        self.set_or_append_value(component, rruleset)
+
+    @staticmethod
+    def parse_dates(line: ContentLine, context: ContextDict) -> Iterable[datetime]:
+        for value in line.value.split(","):
+            params = copy_extra_params(line.params)
+            if params.pop("VALUE", ["DATE-TIME"]) not in (["DATE-TIME"], ["DATE"]):
+                raise ValueError(f"unsupported type of {line}")
+            yield DatetimeConverter.parse(value, params, context)
+            if params:
+                raise ValueError(f"unsupported parameters {params} of {line}")
 
     def serialize(self, component: Component, output: Container, context: ContextDict):
         value = self.get_value(component)
@@ -78,8 +105,9 @@ class RecurrenceConverter(AttributeConverter):
                     raise ValueError("differing DTSTART values")
             else:
                 context["DTSTART"] = rrule._dtstart
-                dt_value = DatetimeConverter.serialize(rrule._dtstart, context=context)
-                output.append(ContentLine(name="DTSTART", value=dt_value))
+                output.append(
+                    self.serialize_date("DTSTART", rrule._dtstart, context)
+                )
 
         for rrule in value._rrule:
             output.append(rrule_to_ContentLine(rrule))
@@ -88,13 +116,15 @@ class RecurrenceConverter(AttributeConverter):
             cl.name = "EXRULE"
             output.append(cl)
         for rdate in unique_justseen(sorted(value._rdate)):
-            output.append(
-                ContentLine(name="RDATE", value=DatetimeConverter.serialize(rdate))
-            )
+            output.append(self.serialize_date("RDATE", rdate, context))
         for exdate in unique_justseen(sorted(value._exdate)):
-            output.append(
-                ContentLine(name="EXDATE", value=DatetimeConverter.serialize(exdate))
-            )
+            output.append(self.serialize_date("EXDATE", exdate, context))
+
+    @staticmethod
+    def serialize_date(name: str, date: datetime, context: ContextDict) -> ContentLine:
+        params = ExtraParams(dict())
+        value = DatetimeConverter.serialize(date, params, context)
+        return ContentLine(name, params, value)
 
     def post_serialize(
         self, component: Component, output: Container, context: ContextDict
diff --git a/src/ics/rrule.py b/src/ics/rrule.py
index c093c51..aa9403a 100644
--- a/src/ics/rrule.py
+++ b/src/ics/rrule.py
@@ -1,3 +1,5 @@
+from datetime import timezone
+
 import dateutil.rrule
 
 from ics.contentline.parser import ContentLineParser
@@ -32,7 +34,15 @@ def rrule_to_ContentLine(self: dateutil.rrule.rrule):
     while val[0].startswith("DTSTART"):
         val = val[1:]
     assert len(val) == 1
-    return ContentLineParser().parse(val[0])
+    line = ContentLineParser().parse(val[0])
+    until = self._until  # type: ignore[attr-defined]
+    if until is not None and until.tzinfo is not None:
+        # dateutil leaves out the time zone
+        line.value = line.value.replace(
+            until.strftime("UNTIL=%Y%m%dT%H%M%S"),
+            until.astimezone(timezone.utc).strftime("UNTIL=%Y%m%dT%H%M%SZ"),
+        )
+    return line
 
 
 def rrule_eq(self: dateutil.rrule.rrule, other: dateutil.rrule.rrule):
-- 
2.43.0


From 5a6551eb8b52f4de1b855fa05746e975f961df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:50 +0000
Subject: [PATCH 38/49] fix: write values of several possible types as what
 they are

---
 src/ics/converter/value.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index dee71f5..f5ffc3e 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -172,7 +172,11 @@ class AttributeValueConverter(AttributeConverter):
             raise ValueError("last value in value list may not have merge_next set")
 
     def __find_value_converter(self, params: ExtraParams, value: Any) -> ValueConverter:
+        # prefer the exact type, as e.g. a datetime also is a date and a bool an int
+        exact = any(type(value) is c.python_type for c in self.value_converters)
         for nr, converter in enumerate(self.value_converters):
+            if exact and type(value) is not converter.python_type:
+                continue
             if not isinstance(value, converter.python_type):
                 continue
             if nr > 0:
-- 
2.43.0


From 6023eb31aec65014e51a5b670d0f2cf54a03f65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:58 +0000
Subject: [PATCH 39/49] fix: read and write nested components that have the
 same properties as the outer one

---
 src/ics/converter/component.py      | 23 +++++++++++++++++++++--
 src/ics/converter/types/timespan.py | 19 ++++++++++---------
 src/ics/converter/types/various.py  |  7 ++++---
 3 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index 5875086..142948f 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -1,4 +1,5 @@
 from collections import defaultdict
+from contextlib import contextmanager
 from typing import (
     Any,
     Callable,
@@ -22,6 +23,22 @@ from ics.types import ContainerItem, ContextDict
 from ics.utils import check_is_instance
 
 
+@contextmanager
+def component_scope(context: ContextDict):
+    """
+    Converters keep what they know about the component that is currently being populated or serialized under keys that
+    are tuples. Hide that information from nested components and drop what is left of it afterwards.
+    """
+    outer = {key: context.pop(key) for key in list(context) if isinstance(key, tuple)}
+    try:
+        yield
+    finally:
+        for key in list(context):
+            if isinstance(key, tuple):
+                del context[key]
+        context.update(outer)
+
+
 @attr.s(frozen=True)
 class MemberComponentConverter(AttributeConverter):
     """
@@ -146,7 +163,8 @@ class ComponentMeta:
         if not context:
             context = ContextDict(defaultdict(lambda: None))
 
-        self._populate_attrs(instance, container, context)
+        with component_scope(context):
+            self._populate_attrs(instance, container, context)
 
     def _populate_attrs(
         self, instance: Component, container: Container, context: ContextDict
@@ -171,7 +189,8 @@ class ComponentMeta:
         container = Container(
             component.extra.name
         )  # allow overwriting the name by setting the name of the extras
-        self._serialize_attrs(component, context, container)
+        with component_scope(context):
+            self._serialize_attrs(component, context, container)
         return container
 
     def _serialize_attrs(
diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index e110c32..f3a0a2b 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -9,12 +9,13 @@ from ics.utils import ensure_datetime
 from ics.valuetype.base import ValueConverter
 from ics.valuetype.datetime import DateConverter, DatetimeConverter, DurationConverter
 
-CONTEXT_BEGIN_TIME = "timespan_begin_time"
-CONTEXT_END_TIME = "timespan_end_time"
-CONTEXT_DURATION = "timespan_duration"
-CONTEXT_PRECISION = "timespan_precision"
-CONTEXT_END_NAME = "timespan_end_name"
-CONTEXT_ITEMS = "timespan_items"
+CONTEXT_BEGIN_TIME = ("timespan", "begin_time")
+CONTEXT_END_TIME = ("timespan", "end_time")
+CONTEXT_DURATION = ("timespan", "duration")
+CONTEXT_PRECISION = ("timespan", "precision")
+CONTEXT_END_NAME = ("timespan", "end_name")
+CONTEXT_ITEMS = ("timespan", "items")
+CONTEXT_DTSTART = ("recurrence", "dtstart")
 CONTEXT_KEYS = [
     CONTEXT_BEGIN_TIME,
     CONTEXT_END_TIME,
@@ -113,8 +114,8 @@ class TimespanConverter(AttributeConverter):
 
         if value.get_begin():
             # prevent rrule serializer from adding its own DTSTART value
-            assert "DTSTART" not in context
-            context["DTSTART"] = value.get_begin()
+            assert CONTEXT_DTSTART not in context
+            context[CONTEXT_DTSTART] = value.get_begin()
 
             params = copy_extra_params(
                 cast(ExtraParams, self.get_extra_params(component, "begin"))
@@ -144,7 +145,7 @@ class TimespanConverter(AttributeConverter):
     def post_serialize(
         self, component: Component, output: Container, context: ContextDict
     ):
-        context.pop("DTSTART", None)
+        context.pop(CONTEXT_DTSTART, None)
 
 
 AttributeConverter.BY_TYPE[Timespan] = TimespanConverter
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 48a5922..90d17fe 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -19,6 +19,7 @@ from ics.component import Component
 from ics.contentline import Container, ContentLine
 from ics.converter.base import AttributeConverter, GenericConverter, sort_converters
 from ics.converter.component import ComponentMeta
+from ics.converter.types.timespan import CONTEXT_DTSTART
 from ics.rrule import rrule_to_ContentLine
 from ics.types import ContainerItem, ContextDict, ExtraParams, copy_extra_params
 from ics.utils import one
@@ -99,12 +100,12 @@ class RecurrenceConverter(AttributeConverter):
             if rrule._dtstart is None:
                 continue
             # check that the rrule uses the same DTSTART as a possible Timespan(Converter)
-            dtstart = context["DTSTART"]
+            dtstart = context[CONTEXT_DTSTART]
             if dtstart:
                 if dtstart != rrule._dtstart:
                     raise ValueError("differing DTSTART values")
             else:
-                context["DTSTART"] = rrule._dtstart
+                context[CONTEXT_DTSTART] = rrule._dtstart
                 output.append(
                     self.serialize_date("DTSTART", rrule._dtstart, context)
                 )
@@ -129,7 +130,7 @@ class RecurrenceConverter(AttributeConverter):
     def post_serialize(
         self, component: Component, output: Container, context: ContextDict
     ):
-        context.pop("DTSTART", None)
+        context.pop(CONTEXT_DTSTART, None)
 
 
 AttributeConverter.BY_TYPE[dateutil.rrule.rruleset] = RecurrenceConverter
-- 
2.43.0


From d83e255ff02f5c215b1f493a6c141323e10fa4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:28 +0000
Subject: [PATCH 40/49] fix: write components whose optional lists, time span
 or recurrence aren't set

---
 src/ics/converter/base.py           | 3 ++-
 src/ics/converter/types/timespan.py | 2 ++
 src/ics/converter/types/various.py  | 2 ++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ics/converter/base.py b/src/ics/converter/base.py
index 8f78e37..b08c180 100644
--- a/src/ics/converter/base.py
+++ b/src/ics/converter/base.py
@@ -166,7 +166,8 @@ class AttributeConverter(GenericConverter, abc.ABC):
         Get the list of multiple values or the single value wrapped in a list.
         """
         if self.is_multi_value:
-            return list(self.get_value(component))
+            values = self.get_value(component)
+            return list(values) if values is not None else []
         else:
             return [self.get_value(component)]
 
diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index f3a0a2b..68dc95b 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -104,6 +104,8 @@ class TimespanConverter(AttributeConverter):
 
     def serialize(self, component: Component, output: Container, context: ContextDict):
         value: Timespan = self.get_value(component)
+        if value is None:
+            return  # an optional attribute that isn't set
         dt_conv: ValueConverter
         if value.is_all_day():
             value_type = {"VALUE": ["DATE"]}
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index 90d17fe..b55c8d5 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -94,6 +94,8 @@ class RecurrenceConverter(AttributeConverter):
 
     def serialize(self, component: Component, output: Container, context: ContextDict):
         value = self.get_value(component)
+        if value is None:
+            return  # an optional attribute that isn't set
         if not TYPE_CHECKING:
             assert isinstance(value, dateutil.rrule.rruleset)
         for rrule in itertools.chain(value._rrule, value._exrule):
-- 
2.43.0


From f5ed469c0fce3af8a58f37f4a98c0913f3f5acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:08 +0000
Subject: [PATCH 41/49] fix: write times of day in UTC as such

---
 src/ics/timezone/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index a066107..870476c 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -54,13 +54,18 @@ def is_utc(value: datetime.datetime) -> bool:
     ...
 
 
+@overload
+def is_utc(value: datetime.time) -> bool:
+    ...
+
+
 @overload
 def is_utc(value: datetime.tzinfo) -> bool:
     ...
 
 
 def is_utc(value):
-    if isinstance(value, datetime.datetime):
+    if isinstance(value, (datetime.datetime, datetime.time)):
         tz = value.tzinfo
     else:
         tz = value
-- 
2.43.0


From 0f1ad20daaf73fccffa705e8ea18cecc39368241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:08 +0000
Subject: [PATCH 42/49] fix: describe exclusion rules that have a start as such

---
 src/ics/rrule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ics/rrule.py b/src/ics/rrule.py
index aa9403a..55c2777 100644
--- a/src/ics/rrule.py
+++ b/src/ics/rrule.py
@@ -70,7 +70,8 @@ def rruleset_str(self: dateutil.rrule.rruleset):
     for rrule in self._rrule:  # type: ignore[attr-defined]
         out += str(rrule) + "\n"
     for exrule in self._exrule:  # type: ignore[attr-defined]
-        out += "EX" + str(exrule)[1:] + "\n"  # replace the R-RULE by an EX-RULE
+        # replace the R-RULE by an EX-RULE, which may follow a DTSTART
+        out += str(exrule).replace("RRULE:", "EXRULE:") + "\n"
     for rdate in self._rdate:  # type: ignore[attr-defined]
         out += str(rdate) + "\n"
     for exdate in self._exdate:  # type: ignore[attr-defined]
-- 
2.43.0


From d2665126dfd65f522705964020e71d9d5c16c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:04 +0000
Subject: [PATCH 43/49] fix: write lists that got longer or shorter after
 parsing

---
 src/ics/converter/value.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index f5ffc3e..aae8466 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -131,10 +131,13 @@ class AttributeValueConverter(AttributeConverter):
         extra_params = cast(List[ExtraParams], self.get_extra_params(component))
         values = self.get_value_list(component)
         if extra_params and len(extra_params) != len(values):
-            raise ValueError(
-                "length of extra params doesn't match length of parameters"
-                " for attribute %s of %r" % (self.attribute.name, component)
-            )
+            # the values were changed after parsing, which only matters if there are any params to be kept
+            if any(params.keys() - {"__merge_next"} for params in extra_params):
+                raise ValueError(
+                    "length of extra params doesn't match length of parameters"
+                    " for attribute %s of %r" % (self.attribute.name, component)
+                )
+            extra_params = []
 
         merge_next = False
         current_params = None
-- 
2.43.0


From 961a2760c08423ccb1df17bdc89c79ee579d18ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:31 +0000
Subject: [PATCH 44/49] fix: time zones can be copied and pickled

---
 src/ics/timezone/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 870476c..3adb707 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -182,6 +182,12 @@ class Timezone(Component, _tzinfo):
             func = functools.lru_cache(10)(self._find_observance_cachable)
             object.__setattr__(self, "_find_observance_cachable", func)
 
+    def __reduce__(self):
+        # tzinfo can only copy and pickle subclasses that don't need any arguments
+        args = (getattr(self, a.name) for a in attr.fields(type(self)) if a.init)
+        state = {"extra": self.extra, "extra_params": self.extra_params}
+        return type(self), tuple(args), state
+
     def __str__(self):
         return self.tzid
 
-- 
2.43.0


From f3d51966214e7f447a6806e12dae2c89ddaf0030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:12 +0000
Subject: [PATCH 45/49] fix: keep components named like properties, and the
 other way round, as extra

instead of failing with an AssertionError
---
 src/ics/converter/component.py      | 3 ++-
 src/ics/converter/types/timespan.py | 3 ++-
 src/ics/converter/types/timezone.py | 3 ++-
 src/ics/converter/types/various.py  | 8 +++++---
 src/ics/converter/value.py          | 3 ++-
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index 142948f..aa9724a 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -59,7 +59,8 @@ class MemberComponentConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, Container)
+        if not isinstance(item, Container):
+            return False  # a property that is named like the component
         self.set_or_append_value(component, self.meta.load_instance(item, context))
         return True
 
diff --git a/src/ics/converter/types/timespan.py b/src/ics/converter/types/timespan.py
index 68dc95b..28d45fd 100644
--- a/src/ics/converter/types/timespan.py
+++ b/src/ics/converter/types/timespan.py
@@ -38,7 +38,8 @@ class TimespanConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            return False  # a component that is named like the property
         seen_items = context.setdefault(CONTEXT_ITEMS, set())
         if item.name in seen_items:
             raise ValueError(f"duplicate value for {item.name} in {item}")
diff --git a/src/ics/converter/types/timezone.py b/src/ics/converter/types/timezone.py
index e39e2b7..837ac7d 100644
--- a/src/ics/converter/types/timezone.py
+++ b/src/ics/converter/types/timezone.py
@@ -48,7 +48,8 @@ class TimezoneObservanceMemberMeta(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, Container)
+        if not isinstance(item, Container):
+            return False  # a property that is named like the component
         if item.name.upper() == TimezoneStandardObservance.NAME:
             self.set_or_append_value(
                 component, TimezoneStandardObservance.from_container(item, context)
diff --git a/src/ics/converter/types/various.py b/src/ics/converter/types/various.py
index b55c8d5..8278e32 100644
--- a/src/ics/converter/types/various.py
+++ b/src/ics/converter/types/various.py
@@ -38,7 +38,8 @@ class RecurrenceConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            return False  # a component that is named like the property
         key = (self, "lines")
         lines = context[key]
         if lines is None:
@@ -152,7 +153,8 @@ class AlarmActionConverter(GenericConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            return False  # a component that is named like the property
         assert issubclass(type(component), get_type_from_action(item.value))
         if isinstance(component, CustomAlarm):
             component._action = item.value
@@ -191,7 +193,7 @@ class AlarmMeta(ComponentMeta):
     ):
         clazz = get_type_from_action(
             one(
-                container["ACTION"],
+                (line for line in container["ACTION"] if isinstance(line, ContentLine)),
                 too_short="VALARM must have exactly one ACTION!",
                 too_long="VALARM must have exactly one ACTION, but got {first!r}, {second!r}, and possibly more!",
             ).value
diff --git a/src/ics/converter/value.py b/src/ics/converter/value.py
index aae8466..06c822a 100644
--- a/src/ics/converter/value.py
+++ b/src/ics/converter/value.py
@@ -48,7 +48,8 @@ class AttributeValueConverter(AttributeConverter):
     def populate(
         self, component: Component, item: ContainerItem, context: ContextDict
     ) -> bool:
-        assert isinstance(item, ContentLine)
+        if not isinstance(item, ContentLine):
+            return False  # a component that is named like the property
 
         if context[(self, "current_component")] is None:
             context[(self, "current_component")] = component
-- 
2.43.0


From 7f963907d1f037541282114bfb2337738095f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:44 +0000
Subject: [PATCH 46/49] fix: refuse times in zones without observances with a
 ValueError

---
 src/ics/timezone/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/timezone/__init__.py b/src/ics/timezone/__init__.py
index 3adb707..80693f1 100644
--- a/src/ics/timezone/__init__.py
+++ b/src/ics/timezone/__init__.py
@@ -198,6 +198,8 @@ class Timezone(Component, _tzinfo):
             return f"Timezone({self.tzid!r}, observances={self.observances!r})"
 
     def _find_observance(self, dt):
+        if not self.observances:
+            raise ValueError(f"timezone {self.tzid} has no observances")
         if len(self.observances) < 2:
             return self.observances[0]
 
-- 
2.43.0


From 778ef47175e1f4cb43aae899eee84b07be19e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:15 +0000
Subject: [PATCH 47/49] fix: read immutable components with defaults that are
 computed from other attributes

---
 src/ics/converter/component.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ics/converter/component.py b/src/ics/converter/component.py
index aa9724a..71fb8ad 100644
--- a/src/ics/converter/component.py
+++ b/src/ics/converter/component.py
@@ -240,21 +240,27 @@ class MutablePseudoComponent:
         object.__setattr__(self, "extra", Container(comp.NAME))
         object.__setattr__(self, "extra_params", {})
         data = {}
+        computed = {}
         for field in attr.fields(comp):
             if not field.init:
                 continue
             elif isinstance(field.default, attr.Factory):  # type: ignore[arg-type]
                 assert field.default is not None
                 if field.default.takes_self:
-                    data[field.name] = field.default.factory(self)
+                    # depends on other attributes, so leave it to the constructor unless it is needed earlier
+                    computed[field.name] = field.default.factory
                 else:
                     data[field.name] = field.default.factory()
             elif field.default != attr.NOTHING:
                 data[field.name] = field.default
         object.__setattr__(self, "_MutablePseudoComponent__data", data)
+        object.__setattr__(self, "_MutablePseudoComponent__computed", computed)
 
     def __getattr__(self, name: str) -> Any:
-        return self._MutablePseudoComponent__data[name]
+        data = self._MutablePseudoComponent__data
+        if name not in data and name in self._MutablePseudoComponent__computed:
+            data[name] = self._MutablePseudoComponent__computed[name](self)
+        return data[name]
 
     def __setattr__(self, name: str, value: Any) -> None:
         assert name not in ("NAME", "extra", "extra_params")
-- 
2.43.0


From e1a9e80675c0bd7b09224742fd9a963fbc286b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:05 +0000
Subject: [PATCH 48/49] fix: unset the parameter of an attendee or organizer
 when its accessor is set to None

---
 src/ics/attendee.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ics/attendee.py b/src/ics/attendee.py
index 6ec9ac9..dfc5c94 100644
--- a/src/ics/attendee.py
+++ b/src/ics/attendee.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, Generic, Iterable, List, TypeVar
+from typing import Any, Dict, Generic, Iterable, List, Optional, TypeVar
 
 import attr
 
@@ -29,7 +29,10 @@ class PersonProperty(Generic[T]):
                 f"Expected at most one value for property {self.name!r}, got {value!r}!"
             )
 
-    def __set__(self, instance: "Person", value: T):
+    def __set__(self, instance: "Person", value: Optional[T]):
+        if value is None:
+            self.__delete__(instance)
+            return
         instance.extra[self.name] = [self.converter.serialize(value)]
 
     def __delete__(self, instance: "Person"):
@@ -47,7 +50,10 @@ class PersonMultiProperty(Generic[T]):
             return self.default
         return [self.converter.parse(str(v)) for v in instance.extra[self.name]]
 
-    def __set__(self, instance: "Person", value: Iterable[T]):
+    def __set__(self, instance: "Person", value: Optional[Iterable[T]]):
+        if value is None:
+            self.__delete__(instance)
+            return
         instance.extra[self.name] = [self.converter.serialize(v) for v in value]
 
     def __delete__(self, instance: "Person"):
-- 
2.43.0


From c1921bfed1bacd4d99c0ef4c61cb0fbe3c4ed41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:18 +0000
Subject: [PATCH 49/49] fix: don't write parameters without values, which can't
 be read back

---
 src/ics/contentline/container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ics/contentline/container.py b/src/ics/contentline/container.py
index ef8fa79..e0ae430 100644
--- a/src/ics/contentline/container.py
+++ b/src/ics/contentline/container.py
@@ -171,6 +171,8 @@ class ContentLine(RuntimeAttrValidation):
     def _serialize_iter_unwrapped(self, newline=False):
         yield self.name
         for pname in self.params:
+            if not self.params[pname]:
+                continue  # a parameter needs at least one value
             yield ";"
             yield pname
             yield "="
-- 
2.43.0

