From dd5fea862e51d39b98e2d962e8d9d901084302b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 01/50] fix: cloning an attribute keeps its nested attributes
 and copies them

---
 src/opyenxes/model/XAttributeBoolean.py    |  1 +
 src/opyenxes/model/XAttributeCollection.py | 12 ++++++++++++
 src/opyenxes/model/XAttributeContinuous.py |  1 +
 src/opyenxes/model/XAttributeDiscrete.py   |  1 +
 src/opyenxes/model/XAttributeID.py         |  1 +
 src/opyenxes/model/XAttributeLiteral.py    |  1 +
 src/opyenxes/model/XAttributeMap.py        |  2 +-
 src/opyenxes/model/XAttributeTimestamp.py  |  1 +
 8 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XAttributeBoolean.py b/src/opyenxes/model/XAttributeBoolean.py
index 395973a..4a5e0c3 100644
--- a/src/opyenxes/model/XAttributeBoolean.py
+++ b/src/opyenxes/model/XAttributeBoolean.py
@@ -41,6 +41,7 @@ class XAttributeBoolean(XAttribute):
         """
         clone = XAttributeBoolean(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 55c8661..895fecb 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -34,6 +34,18 @@ class XAttributeCollection(XAttribute):
             return self.get_attributes().values()
         return self.__collection.copy()
 
+    def clone(self):
+        """Creates and returns a copy of this object.
+
+        :return: A clone of this instance.
+        :rtype: `XAttributeCollection`
+        """
+        clone = type(self)(self.get_key(), self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
+        for attribute in self.get_collection():
+            clone.add_to_collection(attribute.clone())
+        return clone
+
     def __str__(self):
         text = []
         sep = "["
diff --git a/src/opyenxes/model/XAttributeContinuous.py b/src/opyenxes/model/XAttributeContinuous.py
index b255d68..20cde5f 100644
--- a/src/opyenxes/model/XAttributeContinuous.py
+++ b/src/opyenxes/model/XAttributeContinuous.py
@@ -41,6 +41,7 @@ class XAttributeContinuous(XAttribute):
         """
         clone = XAttributeContinuous(self.get_key(), self.__value,
                                      self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeDiscrete.py b/src/opyenxes/model/XAttributeDiscrete.py
index 9c567af..7715fac 100644
--- a/src/opyenxes/model/XAttributeDiscrete.py
+++ b/src/opyenxes/model/XAttributeDiscrete.py
@@ -41,6 +41,7 @@ class XAttributeDiscrete(XAttribute):
         """
         clone = XAttributeDiscrete(self.get_key(), self.__value,
                                    self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeID.py b/src/opyenxes/model/XAttributeID.py
index c84fc45..5d33825 100644
--- a/src/opyenxes/model/XAttributeID.py
+++ b/src/opyenxes/model/XAttributeID.py
@@ -40,6 +40,7 @@ class XAttributeID(XAttribute):
         """
         clone = XAttributeID(self.get_key(), self.__value.clone(),
                              self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeLiteral.py b/src/opyenxes/model/XAttributeLiteral.py
index 1868c40..5f0fb55 100644
--- a/src/opyenxes/model/XAttributeLiteral.py
+++ b/src/opyenxes/model/XAttributeLiteral.py
@@ -41,6 +41,7 @@ class XAttributeLiteral(XAttribute):
         """
         clone = XAttributeLiteral(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeMap.py b/src/opyenxes/model/XAttributeMap.py
index fa1b9e6..3dd4851 100644
--- a/src/opyenxes/model/XAttributeMap.py
+++ b/src/opyenxes/model/XAttributeMap.py
@@ -18,7 +18,7 @@ class XAttributeMap(dict):
         """
         clone = XAttributeMap()
         for key in self.keys():
-            clone[key] = self[key]
+            clone[key] = self[key].clone()
 
         return clone
 
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index c937480..34ff9d2 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -54,6 +54,7 @@ class XAttributeTimestamp(XAttribute):
         """
         clone = XAttributeTimestamp(self.get_key(), self.__value,
                                     self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
-- 
2.43.0


From 0baaf3466579b7493865e3e47470ccaa1ca4d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:29 +0000
Subject: [PATCH 02/50] fix: equality of list and container attributes is
 symmetric and compares their contents

---
 src/opyenxes/model/XAttributeCollection.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 895fecb..afdda01 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -46,6 +46,19 @@ class XAttributeCollection(XAttribute):
             clone.add_to_collection(attribute.clone())
         return clone
 
+    def __eq__(self, other):
+        if other is self:
+            return True
+        elif type(other) is not type(self):
+            return False
+        return super().__eq__(other) and self.get_collection() == other.get_collection()
+
+    def __ne__(self, other):
+        return not self.__eq__(other)
+
+    def __hash__(self):
+        return super().__hash__()
+
     def __str__(self):
         text = []
         sep = "["
-- 
2.43.0


From ba51451437052da0aedbfcf8b66f099e3e69b252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 03/50] fix: equal traces have equal hashes

---
 src/opyenxes/model/XTrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index e7df86f..5ec4f31 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -66,4 +66,4 @@ class XTrace(XElement, list):
         super(XTrace, self).append(p_object)
 
     def __hash__(self):
-        return hash(super(XTrace, self))
+        return hash(tuple(self))
-- 
2.43.0


From b0fb01823f80afa1590ffbf3a321f7abb583159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 04/50] fix: the factory keeps the identity of an event created
 without attributes

---
 src/opyenxes/factory/XFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/factory/XFactory.py b/src/opyenxes/factory/XFactory.py
index 58a671e..1b22f45 100644
--- a/src/opyenxes/factory/XFactory.py
+++ b/src/opyenxes/factory/XFactory.py
@@ -61,7 +61,7 @@ class XFactory:
         if attribute:
             return XEvent(attribute)
 
-        return XEvent()
+        return XEvent(identity=identity)
 
     @staticmethod
     def create_attribute_map():
-- 
2.43.0


From 5e363c1220d12e63d66fcbfca555b589d2ac04a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:31 +0000
Subject: [PATCH 05/50] fix: get_extensions reports the extensions of an
 element's attributes

---
 src/opyenxes/model/XAttributable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/model/XAttributable.py b/src/opyenxes/model/XAttributable.py
index a269b6c..7f6f877 100644
--- a/src/opyenxes/model/XAttributable.py
+++ b/src/opyenxes/model/XAttributable.py
@@ -24,9 +24,9 @@ class XAttributable:
         """
         extensions = set()
         for attribute in self.__attributes.values():
-            extension = attribute.get_extensions()
-            if len(extension) != 0:
-                extensions.add(extension)
+            if attribute.get_extension() is not None:
+                extensions.add(attribute.get_extension())
+            extensions.update(attribute.get_extensions())
         return extensions
 
     def get_attributes(self):
-- 
2.43.0


From fbf4470923f2c57e940bfcad6cc3b7b33a4ccd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:53 +0000
Subject: [PATCH 06/50] fix: timestamp attributes convert to and from
 milliseconds exactly, in UTC

---
 src/opyenxes/model/XAttributeTimestamp.py | 38 +++++++++++++----------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 34ff9d2..ef2df55 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,7 +1,8 @@
 from opyenxes.model.XAttribute import XAttribute
-from datetime import datetime
-import platform
-import time
+from datetime import datetime, timedelta, timezone
+
+
+EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
 
 
 class XAttributeTimestamp(XAttribute):
@@ -22,7 +23,7 @@ class XAttributeTimestamp(XAttribute):
         if isinstance(value, datetime):
             self.__value = value
         elif isinstance(value, int):
-            self.__value = datetime.fromtimestamp(self.__timestamp(value))
+            self.set_value_millis(value)
 
     def get_value(self):
         """Retrieves the datetime value of this attribute
@@ -33,7 +34,16 @@ class XAttributeTimestamp(XAttribute):
         return self.__value
 
     def get_value_millis(self):
-        return time.mktime(self.__value.timetuple()) * 1000
+        """Retrieves the value of this attribute in milliseconds of UNIX time. A
+        value without time zone is taken as UTC.
+
+        :return: Value of this attribute, in milliseconds.
+        :rtype: int
+        """
+        value = self.__value
+        if value.utcoffset() is None:
+            value = value.replace(tzinfo=timezone.utc)
+        return (value - EPOCH) // timedelta(milliseconds=1)
 
     def set_value(self, value):
         """Assigns the string value or datetime value of this attribute.
@@ -44,7 +54,12 @@ class XAttributeTimestamp(XAttribute):
         self.__value = value
 
     def set_value_millis(self, value):
-        self.__value = datetime.fromtimestamp(value / 1000.0)
+        """Assigns the value of this attribute from milliseconds of UNIX time.
+
+        :param value: Value of the attribute, in milliseconds.
+        :type value: int
+        """
+        self.__value = EPOCH + timedelta(milliseconds=value)
 
     def clone(self):
         """Creates and returns a copy of this object.
@@ -120,14 +135,3 @@ class XAttributeTimestamp(XAttribute):
 
     def __ge__(self, other):
         return True if self.compare_to(other) >= 0 else False
-
-    def __timestamp(self, value):
-        """ Windows timestamp workaround
-
-        Creating the timestamp will fail if less than 86400 on Windows with
-        Python 3.6.
-        """
-        value = value / 1000.0
-        if (platform.system() == 'Windows') and (value < 86400):
-            return 86400
-        return value
-- 
2.43.0


From 97c275dd0ce3cf5496a66c72408fa5824c810d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:54 +0000
Subject: [PATCH 07/50] fix: a timestamp prints its UTC offset, not the name of
 its time zone

---
 src/opyenxes/model/XAttributeTimestamp.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index ef2df55..cc6cc34 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -92,16 +92,13 @@ class XAttributeTimestamp(XAttribute):
         return super().__hash__()
 
     def __str__(self):
-        if self.__value.tzinfo is None:
-            return "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}".format(
-                self.__value.year,
-                self.__value.month,
-                self.__value.day,
-                self.__value.hour,
-                self.__value.minute,
-                self.__value.second,
-                self.__value.microsecond // 1000,
-                "Z")
+        offset = self.__value.utcoffset()
+        if not offset:
+            zone = "Z"
+        else:
+            minutes = offset // timedelta(minutes=1)
+            zone = "{}{:02}:{:02}".format("-" if minutes < 0 else "+",
+                                          abs(minutes) // 60, abs(minutes) % 60)
 
         return "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}".format(
             self.__value.year,
@@ -111,7 +108,7 @@ class XAttributeTimestamp(XAttribute):
             self.__value.minute,
             self.__value.second,
             self.__value.microsecond // 1000,
-            self.__value.tzname().replace("UTC", "").replace("+00:00", "Z").replace("-00:00", "Z"))
+            zone)
 
     def __lt__(self, other):
         return True if self.compare_to(other) < 0 else False
-- 
2.43.0


From 265f6ae9c781b6629c473625afc16a589c600b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:55 +0000
Subject: [PATCH 08/50] fix: the time extension keeps the sub-seconds and the
 zone of an assigned timestamp

---
 src/opyenxes/extension/std/XTimeExtension.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 302a635..7b8961a 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -3,7 +3,6 @@ from urllib.parse import urlparse
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.utils.SingletonClassGenerator import XTimeExtensionMetaclass
-import time
 from datetime import datetime
 
 
@@ -41,7 +40,7 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
         attribute = event.get_attributes().get("time:timestamp")
         if attribute:
             return attribute.get_value()
-        return -1
+        return None
 
     def assign_timestamp(self, event, date):
         """Assigns to a given event its timestamp.
@@ -52,11 +51,9 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
             milliseconds in UNIX time..
         :type date: datetime or int
         """
+        attr = self.ATTR_TIMESTAMP.clone()
         if isinstance(date, datetime):
-            aux = time.mktime(date.timetuple()) * 1000
+            attr.set_value(date)
         else:
-            aux = date
-
-        attr = self.ATTR_TIMESTAMP.clone()
-        attr.set_value_millis(aux)
+            attr.set_value_millis(date)
         event.get_attributes()["time:timestamp"] = attr
-- 
2.43.0


From 276d978e9f63cde2ef8a2c9ed3da44172ff0e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:25 +0000
Subject: [PATCH 09/50] fix: assigning an activity instance no longer
 overwrites the name

---
 src/opyenxes/extension/std/XConceptExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XConceptExtension.py b/src/opyenxes/extension/std/XConceptExtension.py
index 2213854..23508e7 100644
--- a/src/opyenxes/extension/std/XConceptExtension.py
+++ b/src/opyenxes/extension/std/XConceptExtension.py
@@ -89,4 +89,4 @@ class XConceptExtension(XExtension, metaclass=XConceptExtensionMetaclass):
         if instance is not None and len(instance.strip()) > 0:
             attr = self.ATTR_INSTANCE.clone()
             attr.set_value(instance)
-            event.get_attributes()["concept:name"] = attr
+            event.get_attributes()["concept:instance"] = attr
-- 
2.43.0


From 55666fee48fce8612ce3e27dcf1b6678f354adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:25 +0000
Subject: [PATCH 10/50] fix: assigning a currency no longer overwrites the name

---
 src/opyenxes/extension/std/XCostExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index c20b93f..7d1de0c 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -180,7 +180,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         if currency is not None and len(currency.strip()) > 0:
             attr = self.ATTR_CURRENCY.clone()
             attr.set_value(currency)
-            element.get_attributes()["concept:name"] = attr
+            element.get_attributes()["cost:currency"] = attr
 
     @staticmethod
     def extract_amount(attribute):
-- 
2.43.0


From afa2e1c86b2114794a0220c1ebcb5baefdfe57bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:26 +0000
Subject: [PATCH 11/50] fix: assign_type stores the given type and assign_types
 takes plain keys

---
 src/opyenxes/extension/std/XCostExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index 7d1de0c..f2a87b6 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -477,7 +477,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         """
         if type_ is not None and len(type_.strip()) > 0:
             attr = self.ATTR_TYPE.clone()
-            attr.set_value(type)
+            attr.set_value(type_)
             attribute.get_attributes()["cost:type"] = attr
 
     @staticmethod
@@ -489,9 +489,9 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         :param element: Event or Trace to assign the cost types to.
         :type element: `XTrace` or `XEvent`
         :param types: Dictionary with keys to cost types which are to be assigned.
-        :type types: dict(list[str]: str)
+        :type types: dict(str: str)
         """
-        XCostType().assign_nested_values(element, types)
+        XCostType().assign_values(element, types)
 
     @staticmethod
     def assign_nested_types(element, types):
-- 
2.43.0


From 2cc2bd866675726a6bf9ac2276c6bad121b07f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:27 +0000
Subject: [PATCH 12/50] fix: nested values are keyed by tuples of attribute
 keys (lists cannot be dictionary keys)

---
 .../std/XAbstractNestedAttributeSupport.py       | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 49368ab..7e15916 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -91,13 +91,13 @@ class XAbstractNestedAttributeSupport:
 
         should result into the following:::
 
-            {["key.1"]: val.1, ["key.1", "key.1.1"]: val.1.1, ["key.1", "key.1.2"]: val.1.2, ["key.2"]: val.2, ["key.3"]: val.3}
+            {("key.1",): val.1, ("key.1", "key.1.1"): val.1.1, ("key.1", "key.1.2"): val.1.2, ("key.2",): val.2, ("key.3",): val.3}
 
 
         :param element: Element to retrieve all values for.
         :type element: `XAttributable`
         :return: Dictionary with all descending keys to values.
-        :rtype: dict(list[str]: Any)
+        :rtype: dict(tuple[str]: Any)
         """
         nested_values = dict()
         for attr in element.get_attributes().values():
@@ -112,11 +112,11 @@ class XAbstractNestedAttributeSupport:
         """
         value = self.extract_value(element)
         if value:
-            nested_values[keys] = value
+            nested_values[tuple(keys)] = value
 
         for attr in element.get_attributes().values():
             new_keys = list(keys)
-            new_keys.append(element.get_key())
+            new_keys.append(attr.get_key())
             self.__extract_nested_values_private__(attr, nested_values, new_keys)
 
     def assign_values(self, element, values):
@@ -147,9 +147,7 @@ class XAbstractNestedAttributeSupport:
         """
         nested_values = dict()
         for key in values.keys():
-            keys = list()
-            keys.append(key)
-            nested_values[keys] = values[key]
+            nested_values[(key,)] = values[key]
 
         self.assign_nested_values(element, nested_values)
 
@@ -160,7 +158,7 @@ class XAbstractNestedAttributeSupport:
         method creates attributes when it does not find an attribute with the
         proper key. For example, the call:::
 
-            assignNestedValues(event, {["key.1"]: val.1, ["key.1", "key.1.1"]: val.1.1, ["key.1", "key.1.2"]: val.1.2, ["key.2"]: val.2, ["key.3"]: val.3})
+            assignNestedValues(event, {("key.1",): val.1, ("key.1", "key.1.1"): val.1.1, ("key.1", "key.1.2"): val.1.2, ("key.2",): val.2, ("key.3",): val.3})
 
         should result into the following XES fragment:::
 
@@ -186,7 +184,7 @@ class XAbstractNestedAttributeSupport:
         :type element: `XAttributable`
         :param amounts: Dictionary with key lists to values which are to be
          assigned.
-        :type amounts: dict(list[str]: Any)
+        :type amounts: dict(tuple[str]: Any)
         """
 
         for keys in amounts.keys():
-- 
2.43.0


From eb4bc8d0ff8c989692304dcd4ba17d4a1864c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:28 +0000
Subject: [PATCH 13/50] fix: parent ids of micro events can be assigned, and
 unset values are reported as documented

---
 src/opyenxes/extension/std/XMicroExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index b801389..f0fa250 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -77,7 +77,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         :return: The requested event parent Id, null if not set.
         :rtype: XID
         """
-        attribute = event.get_attributes()["micro:parentId"]
+        attribute = event.get_attributes().get("micro:parentId")
         if attribute:
             return attribute.get_value()
         return None
@@ -93,7 +93,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         """
         if parent_id is not None:
             attr = self.ATTR_PID.clone()
-            attr.setValue(parent_id)
+            attr.set_value(parent_id)
             event.get_attributes()["micro:parentId"] = attr
         else:
             if "micro:parentId" in event.get_attributes():
@@ -124,7 +124,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         attribute = event.get_attributes().get("micro:length")
         if attribute:
             return attribute.get_value()
-        return None
+        return -1
 
     def assign_length(self, event, length):
         """Assigns any event its state number of children, as defined by this
-- 
2.43.0


From 79e8c4b565e76b0beecac3213a97b1e7387cefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:29 +0000
Subject: [PATCH 14/50] fix: wrapped events keep the case of resource, role and
 group

---
 src/opyenxes/extension/std/XExtendedEvent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XExtendedEvent.py b/src/opyenxes/extension/std/XExtendedEvent.py
index 7217235..fa483fc 100644
--- a/src/opyenxes/extension/std/XExtendedEvent.py
+++ b/src/opyenxes/extension/std/XExtendedEvent.py
@@ -101,7 +101,7 @@ class XExtendedEvent:
         :param resource: Resource string.
         :type resource: str
         """
-        XOrganizationalExtension().assign_resource(self.__original, resource.lower())
+        XOrganizationalExtension().assign_resource(self.__original, resource.strip())
 
     def get_role(self):
         """Returns the role of the event, as defined by the Organizational
@@ -119,7 +119,7 @@ class XExtendedEvent:
         :param role: Role string.
         :type role: str
         """
-        XOrganizationalExtension().assign_role(self.__original, role.lower())
+        XOrganizationalExtension().assign_role(self.__original, role.strip())
 
     def get_group(self):
         """Returns the group of the event, as defined by the Organizational
@@ -137,7 +137,7 @@ class XExtendedEvent:
         :param group: Group string.
         :type group: str
         """
-        XOrganizationalExtension().assign_group(self.__original, group.lower())
+        XOrganizationalExtension().assign_group(self.__original, group.strip())
 
     def get_transition(self):
         """Returns the lifecycle transition of the event, as defined by the
-- 
2.43.0


From 2a951e2f51eed14df0daa49cb95ac3a7d29882cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:30 +0000
Subject: [PATCH 15/50] fix: model references are split at white space and keep
 their case

---
 src/opyenxes/extension/std/XSemanticExtension.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/opyenxes/extension/std/XSemanticExtension.py b/src/opyenxes/extension/std/XSemanticExtension.py
index f652df3..053fc68 100644
--- a/src/opyenxes/extension/std/XSemanticExtension.py
+++ b/src/opyenxes/extension/std/XSemanticExtension.py
@@ -44,11 +44,7 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
         model_references = list()
         model_reference_attribute = target.get_attributes().get("semantic:modelReference")
         if model_reference_attribute:
-            ref_string = model_reference_attribute.get_value().lower()
-            aux = ref_string.split("\\s")
-            for i in range(len(aux)):
-                reference = aux[i]
-                model_references.append(reference.lower())
+            model_references.extend(model_reference_attribute.get_value().split())
 
         return model_references
 
-- 
2.43.0


From 64f01a8c966e6cb819e01a63afe044cff079b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:33 +0000
Subject: [PATCH 16/50] fix: token lists are split at white space, and quotes
 in tokens are escaped

---
 src/opyenxes/utils/XTokenHelper.py | 53 +++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/utils/XTokenHelper.py b/src/opyenxes/utils/XTokenHelper.py
index 9559550..4149ab7 100644
--- a/src/opyenxes/utils/XTokenHelper.py
+++ b/src/opyenxes/utils/XTokenHelper.py
@@ -2,10 +2,55 @@ class XTokenHelper:
 
     @staticmethod
     def extract_tokens(token_string):
-        keys = list(map(lambda elem: elem.strip(), token_string.split("'")))
-        return list(filter(lambda key: key != '', keys))
+        """Extracts the tokens of a token list. Tokens are separated by white
+        space; a token (or part of it) can be enclosed in single quotes. Within
+        a token, a single quote and a backslash are preceded by a backslash.
+
+        :param token_string: The token list.
+        :type token_string: str
+        :return: The tokens.
+        :rtype: list[str]
+        """
+        tokens = list()
+        token = None
+        quoted = False
+        escaped = False
+        for char in token_string:
+            if escaped:
+                if char not in "'\\":
+                    token += "\\"
+                token += char
+                escaped = False
+            elif char == "\\":
+                token = token or ""
+                escaped = True
+            elif char == "'":
+                token = token or ""
+                quoted = not quoted
+            elif char.isspace() and not quoted:
+                if token is not None:
+                    tokens.append(token)
+                    token = None
+            else:
+                token = (token or "") + char
+        if escaped:
+            token += "\\"
+        if token is not None:
+            tokens.append(token)
+        return tokens
 
     @staticmethod
     def format_token(token):
-        aux = list(map(lambda elem: "'{}'".format(elem) if len(elem.split(" ")) > 1 else elem, token))
-        return " ".join(filter(lambda elem: elem.replace(" ", "") != "", aux))
+        """Formats tokens as a token list, such that extract_tokens returns
+        the same tokens again.
+
+        :param token: The tokens.
+        :type token: list[str]
+        :return: The token list.
+        :rtype: str
+        """
+        aux = list()
+        for elem in token:
+            text = elem.replace("\\", "\\\\").replace("'", "\\'")
+            aux.append(text if len(elem.split()) == 1 and elem == elem.strip() else "'{}'".format(text))
+        return " ".join(aux)
-- 
2.43.0


From 220cc94841ac8d08f634ea851f35cb8999bcfae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:47 +0000
Subject: [PATCH 17/50] fix: deriving the prototype of a timestamp attribute no
 longer fails

---
 src/opyenxes/utils/XAttributeUtils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XAttributeUtils.py b/src/opyenxes/utils/XAttributeUtils.py
index 735630a..6eb42e1 100644
--- a/src/opyenxes/utils/XAttributeUtils.py
+++ b/src/opyenxes/utils/XAttributeUtils.py
@@ -107,7 +107,7 @@ class XAttributeUtils:
             elif isinstance(prototype, XAttributeDiscrete):
                 prototype.set_value(0)
             elif isinstance(prototype, XAttributeTimestamp):
-                prototype.set_value_millies(0)
+                prototype.set_value_millis(0)
             elif isinstance(prototype, XAttributeID):
                 prototype.set_value(XIDFactory().create_id())
             else:
-- 
2.43.0


From 64410a2d7ec41728ea0ef7c9c046d28455f56767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:00 +0000
Subject: [PATCH 18/50] fix: attribute info answers queries by type and by
 extension, and for unregistered keys

---
 src/opyenxes/info/XAttributeInfo.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/info/XAttributeInfo.py b/src/opyenxes/info/XAttributeInfo.py
index 12d8c6c..c82cd57 100644
--- a/src/opyenxes/info/XAttributeInfo.py
+++ b/src/opyenxes/info/XAttributeInfo.py
@@ -42,9 +42,9 @@ class XAttributeInfo:
         :rtype: int
         """
         if isinstance(element, str):
-            return self.__frequencies.get(element)
+            return self.__frequencies.get(element, 0)
         elif isinstance(element, XAttribute):
-            return self.__frequencies.get(element.get_key())
+            return self.__frequencies.get(element.get_key(), 0)
 
     def get_relative_frequency(self, element):
         """Returns the relative frequency, i.e. between 0 and 1, for the
@@ -55,10 +55,12 @@ class XAttributeInfo:
         :return: Relative frequency of that attribute as registered.
         :rtype: int
         """
+        if self.__total_frequencies == 0:
+            return 0.0
         if isinstance(element, str):
-            return self.__frequencies.get(element) / self.__total_frequencies
+            return self.__frequencies.get(element, 0) / self.__total_frequencies
         elif isinstance(element, XAttribute):
-            return self.__frequencies.get(element.get_key()) / self.__total_frequencies
+            return self.__frequencies.get(element.get_key(), 0) / self.__total_frequencies
 
     def get_attributes_for_type(self, type_argument):
         """For a given type, returns prototypes of all registered attributes
@@ -131,7 +133,7 @@ class XAttributeInfo:
         :return: A tuple of attribute prototypes registered for no extension.
         :rtype: tuple
         """
-        return self.__no_extension_set
+        return tuple(self.__no_extension_set)
 
     def get_keys_without_extension(self):
         """Returns keys of all registered attributes defined by no extension.
@@ -155,6 +157,11 @@ class XAttributeInfo:
             if type_set is None:
                 type_set = set()
             self.__type_map[XAttributeUtils.get_type(prototype)] = type_set
+            type_set.add(prototype)
+            if attribute.get_extension() is None:
+                self.__no_extension_set.add(prototype)
+            else:
+                self.__extension_map.setdefault(attribute.get_extension(), set()).add(prototype)
         else:
             self.__frequencies[attribute.get_key()] += 1
 
-- 
2.43.0


From 86d9fcdfc754b506d284caa87b814e38d5d77532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:01 +0000
Subject: [PATCH 19/50] fix: mapping an attribute safely falls back when the
 mapping does not exist

---
 src/opyenxes/info/XGlobalAttributeNameMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index bacd9b1..ee0bf11 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -104,10 +104,10 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
             return alias
 
         elif isinstance(attribute, XAttribute) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute.get_key(), mapping)
 
         elif isinstance(attribute, str) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
     def register_mapping(self, mapping_name, attribute_key, alias):
         """Registers a known attribute for mapping in a given attribute name
-- 
2.43.0


From 003d323a30232e8ae4a670444477ba2a4b2a82bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:01 +0000
Subject: [PATCH 20/50] fix: the timer measures milliseconds, from its creation
 or start

---
 src/opyenxes/utils/XTimer.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/utils/XTimer.py b/src/opyenxes/utils/XTimer.py
index bfab16c..81bf58b 100644
--- a/src/opyenxes/utils/XTimer.py
+++ b/src/opyenxes/utils/XTimer.py
@@ -12,23 +12,22 @@ class XTimer:
     HOUR_MILLIS = 3600000
     MINUTE_MILLIS = 60000
     SECOND_MILLIS = 1000
-    __start = time.time() * 1000
 
     def __init__(self):
-        self.__stop = self.__start
+        self.start()
 
     def start(self):
         """Starts the timer.
 
         """
         self.__start = time.time() * 1000
-        self.__stop = self.__start
+        self.__stop = None
 
     def stop(self):
         """Stops the timer (takes time).
 
         """
-        self.__stop = time.time()
+        self.__stop = time.time() * 1000
 
     def get_duration(self):
         """Retrieve the runtime of the timer.
@@ -36,8 +35,8 @@ class XTimer:
         :return: Runtime between start (or creation of timer) and stop, in milliseconds.
         :rtype: int
         """
-        if self.__start == self.__stop:
-            return time.time() * 1000 - self.__stop
+        if self.__stop is None:
+            return time.time() * 1000 - self.__start
         return self.__stop - self.__start
 
     def get_duration_string(self):
-- 
2.43.0


From b0f778e37e0dc30062b45a641fc2bf9ff514a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:23 +0000
Subject: [PATCH 21/50] fix: parsers recognise file suffixes ignoring their
 case

---
 src/opyenxes/data_in/XMxmlParser.py  | 5 +----
 src/opyenxes/data_in/XesXmlParser.py | 6 +-----
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index cdb48e2..561692b 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -68,10 +68,7 @@ class XMxmlParser:
         :return: Whether the given file name ends (ignoring the case) with the given suffix.
         :rtype: bool
         """
-        i = len(name) - len(suffix)
-        if i > 0:
-            return suffix in name[i:]
-        return False
+        return name.lower().endswith(suffix.lower())
 
     class MxmlHandler(ContentHandler):
         """SAX handler class for XES in XML representation.
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index df2fc6f..e046cae 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -61,11 +61,7 @@ class XesXmlParser:
         :return: Whether the given file name ends (ignoring the case) with the given suffix.
         :rtype: bool
         """
-        i = len(name) - len(suffix)
-
-        if i > 0:
-            return suffix in name[i:]
-        return False
+        return name.lower().endswith(suffix.lower())
 
     class XesXmlHandler(ContentHandler):
         """SAX handler class for XES in XML representation.
-- 
2.43.0


From 7d70a63258057b534e0d77978d1cdfe17a5ad7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:23 +0000
Subject: [PATCH 22/50] fix: an invalid date is skipped with its nested
 attributes, and no longer removes other elements

---
 src/opyenxes/data_in/XesXmlParser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index e046cae..e2f5d58 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -77,6 +77,7 @@ class XesXmlParser:
             self.__extension = set()
             self.__globals = None
             self.__last = None
+            self.__invalid = 0  # depth within an invalid attribute
 
         def get_log(self):
             """Retrieves the parsed log.
@@ -144,6 +145,8 @@ class XesXmlParser:
                         array = XTokenHelper.extract_tokens(keys)
                         classifier = XEventAttributeClassifier(name, array)
                         self.__log.get_classifiers().append(classifier)
+            elif self.__invalid > 0:
+                self.__invalid += 1
             else:
                 name = attributes.get("key")
                 if name is None:
@@ -166,6 +169,7 @@ class XesXmlParser:
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
+                        self.__invalid = 1
                         return
                     attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
 
@@ -218,6 +222,8 @@ class XesXmlParser:
                         self.__log.get_extensions().add(extension)
                     self.__attributable_stack.pop()
 
+            elif self.__invalid > 0:
+                self.__invalid -= 1
             else:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
-- 
2.43.0


From ef9d2777b21c33ae4368b5a9b3c4bb790bc33c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:24 +0000
Subject: [PATCH 23/50] fix: nested attributes of global attributes are kept
 nested

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index e2f5d58..4c661bd 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -228,7 +228,7 @@ class XesXmlParser:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
 
-                if self.__globals is not None:
+                if self.__globals is not None and len(self.__attribute_stack) == 0:
 
                     self.__globals.append(i)
                 else:
-- 
2.43.0


From e0b731290585bf487baa77d4d16249d630713ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:25 +0000
Subject: [PATCH 24/50] fix: declared extensions are looked up by URI when the
 prefix is unknown

---
 src/opyenxes/data_in/XesXmlParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 4c661bd..dafe380 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -121,13 +121,13 @@ class XesXmlParser:
                     if prefix is not None:
                         extension = XExtensionManager().get_by_prefix(prefix)
 
-                    elif keys is not None:
+                    if extension is None and keys is not None:
                         extension = XExtensionManager().get_by_uri(parse.urlparse(keys))
 
                     if extension is not None:
                         self.__log.get_extensions().add(extension)
                     else:
-                        print("Unknown extension: " + keys)
+                        print("Unknown extension: {}".format(keys or prefix))
 
                 elif tag_name == "global":
 
-- 
2.43.0


From 463958cec8e9efda60e98bb98079b6efa4e154c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:25 +0000
Subject: [PATCH 25/50] fix: parsers build the log with the factory they are
 given

---
 src/opyenxes/data_in/XMxmlParser.py  | 19 ++++++++++---------
 src/opyenxes/data_in/XesXmlParser.py | 27 ++++++++++++++-------------
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 561692b..77a2ff2 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -51,7 +51,7 @@ class XMxmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XMxmlParser.MxmlHandler()
+        handler = XMxmlParser.MxmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -74,8 +74,9 @@ class XMxmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory=None):
             super().__init__()
+            self.__factory = factory or XFactoryRegistry().current_default()
             self.__buffer = list()
             self.__logs = list()
             self.__currentProcess = None
@@ -112,13 +113,13 @@ class XMxmlParser:
                 if tag_name == "Source":
                     self.__sourceOpen = True
                     description_string = attributes.get("program")
-                    self.__sourceAttribute = XMxmlParser().factory.create_attribute_literal("source", description_string, None)
+                    self.__sourceAttribute = self.__factory.create_attribute_literal("source", description_string, None)
                     self.__add_model_reference__(attributes, self.__sourceAttribute)
                 elif tag_name == "Process":
                     description_string = attributes.get("id")
                     description = attributes.get("description")
 
-                    self.__currentProcess = XMxmlParser().factory.create_log()
+                    self.__currentProcess = self.__factory.create_log()
                     self.__currentProcess.get_extensions().add(XConceptExtension())
                     self.__currentProcess.get_extensions().add(XOrganizationalExtension())
                     self.__currentProcess.get_extensions().add(XLifecycleExtension())
@@ -132,13 +133,13 @@ class XMxmlParser:
 
                     if description and len(description.lower()) > 0:
 
-                        description1 = XMxmlParser().factory.create_attribute_literal("description", description, None)
+                        description1 = self.__factory.create_attribute_literal("description", description, None)
                         self.__currentProcess.get_attributes()[description1.get_key()] = description1
 
                     self.__add_model_reference__(attributes, self.__currentProcess)
 
                 elif tag_name == "ProcessInstance":
-                    self.__currentInstance = XMxmlParser().factory.create_trace()
+                    self.__currentInstance = self.__factory.create_trace()
                     name = attributes.get("id")
                     if name is None:
                         name = "None"
@@ -147,16 +148,16 @@ class XMxmlParser:
                     description_string = attributes.get("description")
 
                     if description_string and len(description_string.strip()) > 0:
-                        description2 = XMxmlParser().factory.create_attribute_literal("description", description_string, None)
+                        description2 = self.__factory.create_attribute_literal("description", description_string, None)
                         self.__currentInstance.get_attributes()[description2.get_key()] = description2
 
                     self.__add_model_reference__(attributes, self.__currentInstance)
 
                 elif tag_name == "AuditTrailEntry":
-                    self.__entry = XMxmlParser().factory.create_event()
+                    self.__entry = self.__factory.create_event()
 
                 elif tag_name == "Attribute":
-                    self.__genericAttribute = XMxmlParser().factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
+                    self.__genericAttribute = self.__factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
                     self.__add_model_reference__(attributes, self.__genericAttribute)
 
                 elif tag_name == "EventType":
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index dafe380..3e78f60 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -43,7 +43,7 @@ class XesXmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XesXmlParser.XesXmlHandler()
+        handler = XesXmlParser.XesXmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -67,8 +67,9 @@ class XesXmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory=None):
             super().__init__()
+            self.__factory = factory or XFactoryRegistry().current_default()
             self.__log = None
             self.__trace = None
             self.__event = None
@@ -99,13 +100,13 @@ class XesXmlParser:
             tag_name = element_name.lower()
             if tag_name not in ["string", "date", "int", "float", "boolean", "id", "list", "container"]:
                 if tag_name == "event":
-                    self.__event = XesXmlParser().factory.create_event()
+                    self.__event = self.__factory.create_event()
                     self.__attributable_stack.append(self.__event)
                 elif tag_name == "trace":
-                    self.__trace = XesXmlParser().factory.create_trace()
+                    self.__trace = self.__factory.create_trace()
                     self.__attributable_stack.append(self.__trace)
                 elif tag_name == "log":
-                    self.__log = XesXmlParser().factory.create_log()
+                    self.__log = self.__factory.create_log()
                     for attr_name in attributes.getNames():
                         if attr_name.startswith('xes.') or \
                         attr_name.startswith('openxes.'):
@@ -164,33 +165,33 @@ class XesXmlParser:
                 attribute = None
 
                 if tag_name == "string":
-                    attribute = XesXmlParser().factory.create_attribute_literal(name, value, keys_list)
+                    attribute = self.__factory.create_attribute_literal(name, value, keys_list)
 
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
                         self.__invalid = 1
                         return
-                    attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
+                    attribute = self.__factory.create_attribute_timestamp(name, var15, keys_list)
 
                 elif tag_name == "int":
-                    attribute = XesXmlParser().factory.create_attribute_discrete(name, int(value), keys_list)
+                    attribute = self.__factory.create_attribute_discrete(name, int(value), keys_list)
 
                 elif tag_name == "float":
-                    attribute = XesXmlParser().factory.create_attribute_continuous(name, float(value), keys_list)
+                    attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
                     var16 = True if value.lower() == "true" else False
-                    attribute = XesXmlParser().factory.create_attribute_boolean(name, var16, keys_list)
+                    attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-                    attribute = XesXmlParser().factory.create_attribute_id(name, XID.parse(value), keys_list)
+                    attribute = self.__factory.create_attribute_id(name, XID.parse(value), keys_list)
 
                 elif tag_name == "list":
-                    attribute = XesXmlParser().factory.create_attribute_list(name, keys_list)
+                    attribute = self.__factory.create_attribute_list(name, keys_list)
 
                 elif tag_name == "container":
-                    attribute = XesXmlParser().factory.create_attribute_container(name, keys_list)
+                    attribute = self.__factory.create_attribute_container(name, keys_list)
 
                 if attribute is not None:
                     self.__attribute_stack.append(attribute)
-- 
2.43.0


From 5c10e7a5ba43cdc357c93d3bd8a00a6834c3b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:52 +0000
Subject: [PATCH 26/50] fix: the MXML parser reads the element and attribute
 names that the MXML serializer writes

---
 src/opyenxes/data_in/XMxmlParser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 77a2ff2..17c5cd4 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -74,6 +74,10 @@ class XMxmlParser:
         """SAX handler class for XES in XML representation.
 
         """
+        TAGS = {tag.lower(): tag for tag in
+                ["WorkflowLog", "Source", "Process", "ProcessInstance", "AuditTrailEntry", "Attribute", "EventType",
+                 "WorkflowModelElement", "Originator", "Timestamp"]}
+
         def __init__(self, factory=None):
             super().__init__()
             self.__factory = factory or XFactoryRegistry().current_default()
@@ -108,7 +112,7 @@ class XMxmlParser:
               the attributes of the element
             :type attributes: xml.sax.xmlreader.AttributesImpl
             """
-            tag_name = element_name
+            tag_name = self.TAGS.get(element_name.lower(), element_name)
             if tag_name != "WorkflowLog":
                 if tag_name == "Source":
                     self.__sourceOpen = True
@@ -162,7 +166,7 @@ class XMxmlParser:
 
                 elif tag_name == "EventType":
                     self.__eventTypeAttribute = XLifecycleExtension().ATTR_TRANSITION.clone()
-                    unknown_type = attributes.get("unknowntype")
+                    unknown_type = attributes.get("unknownType") or attributes.get("unknowntype")
                     if unknown_type:
                         self.__eventTypeAttribute.set_value(unknown_type)
                     else:
@@ -183,7 +187,7 @@ class XMxmlParser:
             :param local_name: The name of the element type, just as with the startElement event
             :type local_name: str
             """
-            tag_name = local_name
+            tag_name = self.TAGS.get(local_name.lower(), local_name)
 
             if tag_name == "WorkflowLog":
                 if self.__numUnorderedEntries > 0:
-- 
2.43.0


From 9b9c4d72d1a3e4b04c57d15a19793e13deb54776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:53 +0000
Subject: [PATCH 27/50] fix: the MXML parser keeps the attributes of processes
 and instances

---
 src/opyenxes/data_in/XMxmlParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 17c5cd4..40f48f6 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -202,7 +202,7 @@ class XMxmlParser:
                 self.__logs.append(self.__currentProcess)
                 self.__currentProcess = None
 
-            elif tag_name == "Process":
+            elif tag_name == "Source":
                 self.__sourceOpen = False
 
             elif tag_name == "ProcessInstance":
@@ -233,9 +233,9 @@ class XMxmlParser:
                         self.__genericAttribute.set_value("".join(self.__buffer).strip())
                         if self.__entry:
                             self.__entry.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentInstance:
+                        elif self.__currentInstance is not None:
                             self.__currentInstance.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentProcess:
+                        elif self.__currentProcess is not None:
                             self.__currentProcess.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
                         elif self.__sourceOpen:
                             self.__sourceAttribute.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-- 
2.43.0


From 6cfb8ba710e99350dcd67b422e77d5ef2b0000e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:54 +0000
Subject: [PATCH 28/50] fix: the MXML serializer writes timestamps in the
 format that is parsed

---
 src/opyenxes/data_out/XMxmlSerializer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 7e1a439..be6cff6 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -115,8 +115,7 @@ class XMxmlSerializer:
                 if timestamp_attr_1:
                     timestamp = Et.SubElement(ate, "timestamp")
                     self.add_model_reference(timestamp_attr_1, timestamp)
-                    date = timestamp_attr_1.get_value()
-                    timestamp.text = str(date)
+                    timestamp.text = str(timestamp_attr_1)
 
         text = minidom.parseString(Et.tostring(root, "utf-8"))
         c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-- 
2.43.0


From 32f101c8fc835676bd7acccd399c6c4210e308aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 29/50] fix: the MXML serializer writes the attributes of log,
 traces and events

---
 src/opyenxes/data_out/XMxmlSerializer.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index be6cff6..fe3848b 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -151,7 +151,7 @@ class XMxmlSerializer:
             node = tag
 
         for attribute in attributes:
-            if attribute.get_key() == "semantic:modelReference":
+            if attribute.get_key() != "semantic:modelReference":
                 attribute_tag = Et.SubElement(node, "attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
@@ -164,12 +164,9 @@ class XMxmlSerializer:
                 sub_attributes = attribute.get_attributes().values()
 
                 if len(sub_attributes) > 0:
-                    sub_key_prefix = attribute.get_key()
+                    sub_key_prefix = key_prefix + attribute.get_key() + ":"
 
-                    if len(sub_key_prefix) > 0:
-                        sub_key_prefix = key_prefix + ":" + sub_key_prefix
-
-                    self.add_attribute(node, sub_key_prefix, sub_attributes)
+                    self.add_attribute(node, sub_attributes, sub_key_prefix)
 
     @staticmethod
     def add_model_reference(element, target):
-- 
2.43.0


From ac7737e92af063face0926082a5e2ca16cd20580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:12 +0000
Subject: [PATCH 30/50] fix: a missing attribute keeps its place in the
 identity of a class by three or more attributes

---
 src/opyenxes/classification/XEventAttributeClassifier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/classification/XEventAttributeClassifier.py b/src/opyenxes/classification/XEventAttributeClassifier.py
index 03fe255..1da6a89 100644
--- a/src/opyenxes/classification/XEventAttributeClassifier.py
+++ b/src/opyenxes/classification/XEventAttributeClassifier.py
@@ -46,8 +46,7 @@ class XEventAttributeClassifier:
             identity = []
             for key in self.__keys:
                 attribute = event.get_attributes().get(key)
-                if attribute:
-                    identity.append(str(attribute))
+                identity.append(str(attribute) if attribute else "")
 
             return "&&".join(identity)
 
-- 
2.43.0


From 01acf8a6751c621ac2c055bd7db375de7bb92f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:13 +0000
Subject: [PATCH 31/50] fix: the prototype of the lifecycle model attribute
 names the standard model

---
 src/opyenxes/extension/std/XLifecycleExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XLifecycleExtension.py b/src/opyenxes/extension/std/XLifecycleExtension.py
index b69e0a9..76e7653 100644
--- a/src/opyenxes/extension/std/XLifecycleExtension.py
+++ b/src/opyenxes/extension/std/XLifecycleExtension.py
@@ -64,7 +64,7 @@ class XLifecycleExtension(XExtension, metaclass=XLifecycleExtensionMetaclass):
     def __init__(self):
         super().__init__("Lifecycle", "lifecycle", urlparse("http://www.xes-standard.org/lifecycle.xesext"))
         factory = XFactoryRegistry().current_default()
-        self.ATTR_MODEL = factory.create_attribute_literal("lifecycle:model", "standart", self)
+        self.ATTR_MODEL = factory.create_attribute_literal("lifecycle:model", "standard", self)
         self.ATTR_TRANSITION = factory.create_attribute_literal("lifecycle:transition", XLifecycleExtension.StandardModel.COMPLETE, self)
         self.get_log_attributes().add(self.ATTR_MODEL.clone())
         self.get_event_attributes().add(self.ATTR_TRANSITION.clone())
-- 
2.43.0


From 5a9bf26dce348cbd64f4de9aef7a0cd499895e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:14 +0000
Subject: [PATCH 32/50] fix: an extension registered for a known URI replaces
 the earlier one in every lookup

---
 src/opyenxes/extension/XExtensionManager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 9dbe634..38126af 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -43,6 +43,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         self.__extension_map[extension.get_uri()] = extension
         if extension not in self.__extension_list:
             self.__extension_list.append(extension)
+        else:
+            self.__extension_list[self.__extension_list.index(extension)] = extension
 
     def get_by_uri(self, uri):
         """Retrieves an extension instance by its unique URI. If the extension
-- 
2.43.0


From c42cc88a184244f38b2f11175879d12296751966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:15 +0000
Subject: [PATCH 33/50] fix: parsed extensions define each attribute on the
 level that declares it

---
 src/opyenxes/extension/XExtensionParser.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index b5530dc..24b617d 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -76,37 +76,31 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 self.__xAttributes = self.__extension.get_meta_attributes()
 
             elif tag_name.lower() == "string":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_literal(mapping, "DEFAULT", self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "date":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_timestamp(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "int":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_discrete(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "float":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_continuous(mapping, 0.0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "boolean":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_boolean(mapping, False, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "id":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_id(mapping, XIDFactory.create_id(), self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
-- 
2.43.0


From e2c53a32564f95a75a117b04daa91c5f2b921eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:15 +0000
Subject: [PATCH 34/50] fix: a local extension definition is parsed without
 network access

---
 src/opyenxes/extension/XExtensionParser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 24b617d..0a56006 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -5,7 +5,7 @@ from xml.sax import parse as xml_parse, parseString
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.id.XIDFactory import XIDFactory
-from urllib import request, parse, error
+from urllib import request, parse
 import os
 
 
@@ -59,11 +59,6 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 mapping = attributes.getValue("name")
                 name = attributes.getValue("prefix")
                 x_uri = parse.urlparse(attributes.getValue("uri"))
-                try:
-                    request.urlopen(attributes.getValue("uri"))
-                except error.URLError:
-                    return
-
                 self.__extension = XExtension(mapping, name, x_uri)
 
             elif tag_name.lower() == "log":
-- 
2.43.0


From 018cbe6d566f20580d25fa88544bd195bbe81457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:16 +0000
Subject: [PATCH 35/50] fix: timestamps with more than six fractional digits
 are parsed

---
 src/opyenxes/utils/XsDateTimeConversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 8011840..a38c8c7 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -35,6 +35,9 @@ def parse_date_time(date_time):
             minute = 0
 
         if '.' in value:
+            fraction = value[value.index('.') + 1:]
+            if len(fraction) > 6 and fraction.isdigit():
+                value = value[:6 - len(fraction)]
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
         else:
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
-- 
2.43.0


From 2ae1d1e4f791b1951a3015614499adee59615859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:17 +0000
Subject: [PATCH 36/50] fix: the support folder is found when it exists, and
 without USERPROFILE

---
 src/opyenxes/utils/XRuntimeUtils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/utils/XRuntimeUtils.py b/src/opyenxes/utils/XRuntimeUtils.py
index dfb5440..576fe37 100644
--- a/src/opyenxes/utils/XRuntimeUtils.py
+++ b/src/opyenxes/utils/XRuntimeUtils.py
@@ -63,16 +63,16 @@ class XRuntimeUtils:
         :return: The path of the platform-dependent OpenXES support folder.
         :rtype: str
         """
-        home_dir = os.path.expanduser(os.getenv('USERPROFILE'))
+        home_dir = os.path.expanduser(os.getenv('USERPROFILE', '~'))
         dir_name = "OpenXES"
         if self.is_running_windows():
-            os.makedirs(home_dir + "\\" + dir_name)
+            os.makedirs(home_dir + "\\" + dir_name, exist_ok=True)
             return home_dir + "\\" + dir_name + "\\"
         elif self.is_running_mac_os_x():
-            os.makedirs(home_dir + "/Library/Application Support/" + dir_name)
+            os.makedirs(home_dir + "/Library/Application Support/" + dir_name, exist_ok=True)
             return home_dir + "/Library/Application Support/" + dir_name + "/"
         else:
-            os.makedirs(home_dir + "/." + dir_name)
+            os.makedirs(home_dir + "/." + dir_name, exist_ok=True)
             return home_dir + "/." + dir_name + "/"
 
     def get_extension_cache_folder(self):
@@ -82,5 +82,5 @@ class XRuntimeUtils:
         :rtype: str
         """
         ext_folder = self.get_support_folder() + "ExtensionCache"
-        os.makedirs(ext_folder)
+        os.makedirs(ext_folder, exist_ok=True)
         return ext_folder
-- 
2.43.0


From af85d1fbbdbe1181b5e355e10ef8b46b95402a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:18 +0000
Subject: [PATCH 37/50] fix: extensions are written to the cache and loaded
 from it

---
 src/opyenxes/extension/XExtensionManager.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 38126af..9047720 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -140,7 +140,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         uri_str = uri.geturl()
         if uri_str[-1] == "/":
-            uri_str = uri_str[(0, len(uri_str) - 1)]
+            uri_str = uri_str[:-1]
         filename = uri_str[uri_str.rindex(chr(47)):]
         if not filename.endswith(".xesext"):
             filename += ".xesext"
@@ -149,7 +149,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
 
         try:
             bis = request.urlopen(uri.geturl())
-            bos = open(cache_file, "w")
+            bos = open(cache_file, "wb")
 
             file = bis.read(1024)
             while file != b"":
@@ -170,7 +170,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         min_modified = (lambda: int(round(time.time() * 1000)))() - 2592000000
         ext_folder = XRuntimeUtils().get_extension_cache_folder()
-        ext_files = list(filter(os.path.isfile, os.listdir(ext_folder)))
+        ext_files = list(filter(lambda f: os.path.isfile(os.path.join(ext_folder, f)),
+                                os.listdir(ext_folder)))
         if len(ext_files) == 0:
             XLogging().log("Extension caching disabled (Could not access cache"
                            " directory)!",
-- 
2.43.0


From 8d5ec47ecddb751ec89656c1198df56cd8bd8375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:19 +0000
Subject: [PATCH 38/50] fix: compressed XES files with the suffix xez are
 recognised

---
 src/opyenxes/data_in/XesXmlGZIPParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlGZIPParser.py b/src/opyenxes/data_in/XesXmlGZIPParser.py
index 4a93e55..95d1f6e 100644
--- a/src/opyenxes/data_in/XesXmlGZIPParser.py
+++ b/src/opyenxes/data_in/XesXmlGZIPParser.py
@@ -20,7 +20,7 @@ class XesXmlGZIPParser(XesXmlParser):
         :return: Whether this parser can handle the given file.
         :rtype: bool
         """
-        return super().ends_with_ignore_case(file, ".xes.gz")
+        return super().ends_with_ignore_case(file, ".xes.gz") or super().ends_with_ignore_case(file, ".xez")
 
     def parse(self, file):
         """Parses a log from the given input stream, which is supposed to
-- 
2.43.0


From 0109ee0a6b4a43ca8e5d11407c056003b4a0de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:41 +0000
Subject: [PATCH 39/50] fix: a date whose offset is too large is refused
 instead of raising OverflowError

---
 src/opyenxes/utils/XsDateTimeConversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index a38c8c7..3189b79 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -45,6 +45,6 @@ def parse_date_time(date_time):
         time = time.replace(tzinfo=timezone(timedelta(minutes=int(minute), hours=int(hours))))
         return time
 
-    except ValueError:
+    except (ValueError, OverflowError):
         print("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
         return None
-- 
2.43.0


From b485d56a044c5e806c6ad9977669a843cfa9c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:42 +0000
Subject: [PATCH 40/50] fix: a Z inside a date is not dropped silently

---
 src/opyenxes/utils/XsDateTimeConversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 3189b79..de475dc 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -12,8 +12,8 @@ def parse_date_time(date_time):
     try:
         value = date_time
         relative_zone = ""
-        if "Z" in value:
-            value = value.replace("Z", "")
+        if value.endswith("Z"):
+            value = value[:-1]
             relative_zone = "Z"
         elif "+" in value:
             relative_zone = value[value.index("+"):]
-- 
2.43.0


From b5c99e390b59ebd47dedc98c0f149b3c84c6d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 41/50] fix: an extension reports attributes that were added
 after the first query

---
 src/opyenxes/extension/XExtension.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/extension/XExtension.py b/src/opyenxes/extension/XExtension.py
index 50fdeee..2d48906 100644
--- a/src/opyenxes/extension/XExtension.py
+++ b/src/opyenxes/extension/XExtension.py
@@ -17,7 +17,6 @@ class XExtension:
         self.__name = name
         self.__prefix = prefix
         self.__uri = uri
-        self.__all_attributes = None
         self.__log_attributes = set()
         self.__trace_attributes = set()
         self.__event_attributes = set()
@@ -59,14 +58,13 @@ class XExtension:
         :return: The collection of attributes defined by this extension
         :rtype: set
         """
-        if self.__all_attributes is None:
-            self.__all_attributes = set()
-            self.__all_attributes.update(self.__log_attributes)
-            self.__all_attributes.update(self.__trace_attributes)
-            self.__all_attributes.update(self.__event_attributes)
-            self.__all_attributes.update(self.__meta_attributes)
-
-        return self.__all_attributes
+        all_attributes = set()
+        all_attributes.update(self.__log_attributes)
+        all_attributes.update(self.__trace_attributes)
+        all_attributes.update(self.__event_attributes)
+        all_attributes.update(self.__meta_attributes)
+
+        return all_attributes
 
     def get_log_attributes(self):
         """ Returns the collection of attributes defined by this extension for
-- 
2.43.0


From 51eacb8939469cef13db8b93713984a51011889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:45 +0000
Subject: [PATCH 42/50] fix: a failing download no longer damages the extension
 cache

---
 src/opyenxes/extension/XExtensionManager.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 9047720..d03e264 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -148,13 +148,9 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         cache_file = XRuntimeUtils().get_extension_cache_folder() + os.path.sep + filename
 
         try:
-            bis = request.urlopen(uri.geturl())
+            content = request.urlopen(uri.geturl()).read()
             bos = open(cache_file, "wb")
-
-            file = bis.read(1024)
-            while file != b"":
-                bos.write(file)
-                file = bis.read(1024)
+            bos.write(content)
             bos.close()
             XLogging().log("Cached XES extension \\'" + uri.geturl() + "\\'",
                            XLogging.Importance.DEBUG)
-- 
2.43.0


From fa57ecc1c9d1a073c20e8b29966f39dbeb08aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:31 +0000
Subject: [PATCH 43/50] fix: the copy of a log has global attributes of its own

---
 src/opyenxes/model/XLog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XLog.py b/src/opyenxes/model/XLog.py
index e44a343..0e7ffcb 100644
--- a/src/opyenxes/model/XLog.py
+++ b/src/opyenxes/model/XLog.py
@@ -31,8 +31,8 @@ class XLog(XElement, list):
             clone.get_extensions().add(elem)
 
         clone.__classifiers = self.__classifiers.copy()
-        clone.__globalTraceAttributes = self.__globalTraceAttributes.copy()
-        clone.__globalEventAttributes = self.__globalEventAttributes.copy()
+        clone.__globalTraceAttributes = [a.clone() for a in self.__globalTraceAttributes]
+        clone.__globalEventAttributes = [a.clone() for a in self.__globalEventAttributes]
         clone.__features = self.__features.copy()
 
         for trace in self:
-- 
2.43.0


From 509e8151a557b4d52e44873424197ee9ab4f96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:10 +0000
Subject: [PATCH 44/50] fix: a log read from MXML has classifiers of its own

---
 src/opyenxes/data_in/XMxmlParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 40f48f6..d5d6ae6 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from xml.sax.handler import ContentHandler
 from xml.sax import parse as xml_parse
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
@@ -195,7 +196,7 @@ class XMxmlParser:
                     XLogging().log("LogData: The log file you have loaded is not MXML compliant! (error compensated transparently)", XLogging.Importance.ERROR)
 
             elif tag_name == "Process":
-                self.__currentProcess.get_classifiers().extend(XMxmlParser.MXML_CLASSIFIERS)
+                self.__currentProcess.get_classifiers().extend(deepcopy(XMxmlParser.MXML_CLASSIFIERS))
                 self.__currentProcess.get_global_trace_attributes().append(XConceptExtension().ATTR_NAME.clone())
                 self.__currentProcess.get_global_event_attributes().append(XConceptExtension().ATTR_NAME.clone())
                 self.__currentProcess.get_global_event_attributes().append(XLifecycleExtension().ATTR_TRANSITION.clone())
-- 
2.43.0


From 8f45092ab4e0ffec36e70ae0d4aa908ba2196abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:11 +0000
Subject: [PATCH 45/50] fix: the copy of a log has classifiers of its own

---
 src/opyenxes/model/XLog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XLog.py b/src/opyenxes/model/XLog.py
index 0e7ffcb..d00680c 100644
--- a/src/opyenxes/model/XLog.py
+++ b/src/opyenxes/model/XLog.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from opyenxes.model.XElement import XElement
 
 
@@ -30,7 +31,7 @@ class XLog(XElement, list):
         for elem in self.__extension:
             clone.get_extensions().add(elem)
 
-        clone.__classifiers = self.__classifiers.copy()
+        clone.__classifiers = deepcopy(self.__classifiers)
         clone.__globalTraceAttributes = [a.clone() for a in self.__globalTraceAttributes]
         clone.__globalEventAttributes = [a.clone() for a in self.__globalEventAttributes]
         clone.__features = self.__features.copy()
-- 
2.43.0


From 4f13108d04580324c99170bd9534a4e37120ee25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:09 +0000
Subject: [PATCH 46/50] fix: nested cost values of zero and empty texts are
 read

---
 src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 7e15916..154de4a 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -111,7 +111,7 @@ class XAbstractNestedAttributeSupport:
 
         """
         value = self.extract_value(element)
-        if value:
+        if value is not None:
             nested_values[tuple(keys)] = value
 
         for attr in element.get_attributes().values():
-- 
2.43.0


From a95820525ab9a255aab0a95fa4037b23a87ff633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:09 +0000
Subject: [PATCH 47/50] fix: the text of a timestamp with seconds in its offset
 denotes its instant

---
 src/opyenxes/model/XAttributeTimestamp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index cc6cc34..210c46a 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -93,6 +93,10 @@ class XAttributeTimestamp(XAttribute):
 
     def __str__(self):
         offset = self.__value.utcoffset()
+        if offset and offset % timedelta(minutes=1):
+            # the offset of an xs:dateTime has whole minutes
+            zone = timezone(offset - offset % timedelta(minutes=1))
+            return str(XAttributeTimestamp(self.get_key(), self.__value.astimezone(zone)))
         if not offset:
             zone = "Z"
         else:
-- 
2.43.0


From e9dcab9a910881b97a81dabf13063817c4878066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:10 +0000
Subject: [PATCH 48/50] fix: extensions used by the contents of lists and
 containers are reported

---
 src/opyenxes/model/XAttributeCollection.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index afdda01..34f3267 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -34,6 +34,20 @@ class XAttributeCollection(XAttribute):
             return self.get_attributes().values()
         return self.__collection.copy()
 
+    def get_extensions(self):
+        """Retrieves the extensions used by this attribute, i.e. the extensions
+        used by its nested attributes and by the attributes it contains.
+
+        :return: A set of extensions
+        :rtype: set[`XExtension`]
+        """
+        extensions = super().get_extensions()
+        for attribute in self.get_collection():
+            if attribute.get_extension() is not None:
+                extensions.add(attribute.get_extension())
+            extensions.update(attribute.get_extensions())
+        return extensions
+
     def clone(self):
         """Creates and returns a copy of this object.
 
-- 
2.43.0


From 5a5d965017f5fdfc307015daa33cb1904163b10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:11 +0000
Subject: [PATCH 49/50] fix: a boolean written as 1 is read as true

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 3e78f60..5182226 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -181,7 +181,7 @@ class XesXmlParser:
                     attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
-                    var16 = True if value.lower() == "true" else False
+                    var16 = True if value.lower() in ("true", "1") else False
                     attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-- 
2.43.0


From 26c70c8b130bf47fe0eb230b0ce3f69ecf7887e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:12 +0000
Subject: [PATCH 50/50] fix: an element made with an empty map of attributes
 uses that map

---
 src/opyenxes/factory/XFactory.py    | 12 +++---------
 src/opyenxes/model/XAttributable.py |  2 +-
 src/opyenxes/model/XElement.py      |  3 +--
 src/opyenxes/model/XEvent.py        |  2 +-
 4 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/opyenxes/factory/XFactory.py b/src/opyenxes/factory/XFactory.py
index 1b22f45..0370cf6 100644
--- a/src/opyenxes/factory/XFactory.py
+++ b/src/opyenxes/factory/XFactory.py
@@ -26,7 +26,7 @@ class XFactory:
         :return: A new log instance.
         :rtype: `XLog`
         """
-        if attribute:
+        if attribute is not None:
             return XLog(attribute)
         return XLog(XAttributeMap())
 
@@ -39,7 +39,7 @@ class XFactory:
         :return: A new trace instance.
         :rtype: `XTrace`
         """
-        if attribute:
+        if attribute is not None:
             return XTrace(attribute)
         return XTrace(XAttributeMap())
 
@@ -55,13 +55,7 @@ class XFactory:
         :return: A new event instance.
         :rtype: `XEvent`
         """
-        if attribute and identity:
-            return XEvent(attribute, identity)
-
-        if attribute:
-            return XEvent(attribute)
-
-        return XEvent(identity=identity)
+        return XEvent(attribute, identity)
 
     @staticmethod
     def create_attribute_map():
diff --git a/src/opyenxes/model/XAttributable.py b/src/opyenxes/model/XAttributable.py
index 7f6f877..6f6567a 100644
--- a/src/opyenxes/model/XAttributable.py
+++ b/src/opyenxes/model/XAttributable.py
@@ -10,7 +10,7 @@ class XAttributable:
     :type attribute: `XAttributeMap`
     """
     def __init__(self, attribute=None):
-        if attribute:
+        if attribute is not None:
             self.__attributes = attribute
         else:
             self.__attributes = XAttributeMap()
diff --git a/src/opyenxes/model/XElement.py b/src/opyenxes/model/XElement.py
index 6affb71..7cb4241 100644
--- a/src/opyenxes/model/XElement.py
+++ b/src/opyenxes/model/XElement.py
@@ -1,5 +1,4 @@
 from opyenxes.model.XAttributable import XAttributable
-from opyenxes.model.XAttributeMap import XAttributeMap
 
 
 class XElement(XAttributable):
@@ -9,5 +8,5 @@ class XElement(XAttributable):
     :param attribute: A `XAttributeMap` with the attribute for this class.
     :type attribute: `XAttributeMap`
     """
-    def __init__(self, attribute=XAttributeMap()):
+    def __init__(self, attribute=None):
         super(XElement, self).__init__(attribute)
diff --git a/src/opyenxes/model/XEvent.py b/src/opyenxes/model/XEvent.py
index 5b291ec..f635a55 100644
--- a/src/opyenxes/model/XEvent.py
+++ b/src/opyenxes/model/XEvent.py
@@ -16,7 +16,7 @@ class XEvent(XElement):
     :type identity: `XID`
     """
     def __init__(self, attributes=None, identity=None):
-        if not attributes:
+        if attributes is None:
             attributes = XAttributeMap()
         if identity:
             self.__id = identity
-- 
2.43.0

