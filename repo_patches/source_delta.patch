From 7e40ae9781df475b642bcf6e96601e301fc28720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 01/59] fix: assign_instance overwrote concept:name instead of
 setting concept:instance

---
 src/opyenxes/extension/std/XConceptExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XConceptExtension.py b/src/opyenxes/extension/std/XConceptExtension.py
index 2213854..23508e7 100644
--- a/src/opyenxes/extension/std/XConceptExtension.py
+++ b/src/opyenxes/extension/std/XConceptExtension.py
@@ -89,4 +89,4 @@ class XConceptExtension(XExtension, metaclass=XConceptExtensionMetaclass):
         if instance is not None and len(instance.strip()) > 0:
             attr = self.ATTR_INSTANCE.clone()
             attr.set_value(instance)
-            event.get_attributes()["concept:name"] = attr
+            event.get_attributes()["concept:instance"] = attr
-- 
2.43.0


From 03cbf00f2228e04b3a3a5cc3ee9feb2cd25da9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 02/59] fix: cost extension stored the currency, type and flat
 types wrongly

---
 src/opyenxes/extension/std/XCostExtension.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/extension/std/XCostExtension.py b/src/opyenxes/extension/std/XCostExtension.py
index c20b93f..f2a87b6 100644
--- a/src/opyenxes/extension/std/XCostExtension.py
+++ b/src/opyenxes/extension/std/XCostExtension.py
@@ -180,7 +180,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         if currency is not None and len(currency.strip()) > 0:
             attr = self.ATTR_CURRENCY.clone()
             attr.set_value(currency)
-            element.get_attributes()["concept:name"] = attr
+            element.get_attributes()["cost:currency"] = attr
 
     @staticmethod
     def extract_amount(attribute):
@@ -477,7 +477,7 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         """
         if type_ is not None and len(type_.strip()) > 0:
             attr = self.ATTR_TYPE.clone()
-            attr.set_value(type)
+            attr.set_value(type_)
             attribute.get_attributes()["cost:type"] = attr
 
     @staticmethod
@@ -489,9 +489,9 @@ class XCostExtension(XExtension, metaclass=XCostExtensionMetaclass):
         :param element: Event or Trace to assign the cost types to.
         :type element: `XTrace` or `XEvent`
         :param types: Dictionary with keys to cost types which are to be assigned.
-        :type types: dict(list[str]: str)
+        :type types: dict(str: str)
         """
-        XCostType().assign_nested_values(element, types)
+        XCostType().assign_values(element, types)
 
     @staticmethod
     def assign_nested_types(element, types):
-- 
2.43.0


From 85139fc963a3b127df05281364d28459d6abd4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 03/59] fix: micro extension could not assign or query a
 missing parent id, nor report a missing length as documented

---
 src/opyenxes/extension/std/XMicroExtension.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XMicroExtension.py b/src/opyenxes/extension/std/XMicroExtension.py
index b801389..f0fa250 100644
--- a/src/opyenxes/extension/std/XMicroExtension.py
+++ b/src/opyenxes/extension/std/XMicroExtension.py
@@ -77,7 +77,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         :return: The requested event parent Id, null if not set.
         :rtype: XID
         """
-        attribute = event.get_attributes()["micro:parentId"]
+        attribute = event.get_attributes().get("micro:parentId")
         if attribute:
             return attribute.get_value()
         return None
@@ -93,7 +93,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         """
         if parent_id is not None:
             attr = self.ATTR_PID.clone()
-            attr.setValue(parent_id)
+            attr.set_value(parent_id)
             event.get_attributes()["micro:parentId"] = attr
         else:
             if "micro:parentId" in event.get_attributes():
@@ -124,7 +124,7 @@ class XMicroExtension(XExtension, metaclass=XMicroExtensionMetaclass):
         attribute = event.get_attributes().get("micro:length")
         if attribute:
             return attribute.get_value()
-        return None
+        return -1
 
     def assign_length(self, event, length):
         """Assigns any event its state number of children, as defined by this
-- 
2.43.0


From 23d3b01b78f9d6de4347be6a96a6801b14d98d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 04/59] fix: model references were neither split on whitespace
 nor kept in their own case

---
 src/opyenxes/extension/std/XSemanticExtension.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/extension/std/XSemanticExtension.py b/src/opyenxes/extension/std/XSemanticExtension.py
index f652df3..becc987 100644
--- a/src/opyenxes/extension/std/XSemanticExtension.py
+++ b/src/opyenxes/extension/std/XSemanticExtension.py
@@ -44,11 +44,8 @@ class XSemanticExtension(XExtension, metaclass=XSemanticExtensionMetaclass):
         model_references = list()
         model_reference_attribute = target.get_attributes().get("semantic:modelReference")
         if model_reference_attribute:
-            ref_string = model_reference_attribute.get_value().lower()
-            aux = ref_string.split("\\s")
-            for i in range(len(aux)):
-                reference = aux[i]
-                model_references.append(reference.lower())
+            ref_string = model_reference_attribute.get_value()
+            model_references.extend(ref_string.split())
 
         return model_references
 
-- 
2.43.0


From aa847dd7828f373cf9a558e4c4647616e859d6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 05/59] fix: millisecond timestamps depended on the local time
 zone and lost precision

---
 src/opyenxes/model/XAttributeTimestamp.py | 37 ++++++++++++-----------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index c937480..586746e 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,7 +1,5 @@
 from opyenxes.model.XAttribute import XAttribute
-from datetime import datetime
-import platform
-import time
+from datetime import datetime, timedelta, timezone
 
 
 class XAttributeTimestamp(XAttribute):
@@ -15,6 +13,8 @@ class XAttributeTimestamp(XAttribute):
      the attribute is not associated to an extension)
     :type extension: `XExtension` or None
     """
+    __EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
     def __init__(self, key, value, extension=None):
         super().__init__(key, extension)
         self.__relative_zone = ""
@@ -22,7 +22,7 @@ class XAttributeTimestamp(XAttribute):
         if isinstance(value, datetime):
             self.__value = value
         elif isinstance(value, int):
-            self.__value = datetime.fromtimestamp(self.__timestamp(value))
+            self.set_value_millis(value)
 
     def get_value(self):
         """Retrieves the datetime value of this attribute
@@ -33,7 +33,16 @@ class XAttributeTimestamp(XAttribute):
         return self.__value
 
     def get_value_millis(self):
-        return time.mktime(self.__value.timetuple()) * 1000
+        """Retrieves the value of this attribute as milliseconds of UNIX time.
+        A value without time zone information is taken as UTC.
+
+        :return: Milliseconds since 1970-01-01T00:00:00 UTC
+        :rtype: int
+        """
+        value = self.__value
+        if value.tzinfo is None:
+            value = value.replace(tzinfo=timezone.utc)
+        return (value - self.__EPOCH) // timedelta(milliseconds=1)
 
     def set_value(self, value):
         """Assigns the string value or datetime value of this attribute.
@@ -44,7 +53,12 @@ class XAttributeTimestamp(XAttribute):
         self.__value = value
 
     def set_value_millis(self, value):
-        self.__value = datetime.fromtimestamp(value / 1000.0)
+        """Assigns the value of this attribute, as milliseconds of UNIX time.
+
+        :param value: Milliseconds since 1970-01-01T00:00:00 UTC
+        :type value: int
+        """
+        self.__value = self.__EPOCH + timedelta(milliseconds=value)
 
     def clone(self):
         """Creates and returns a copy of this object.
@@ -119,14 +133,3 @@ class XAttributeTimestamp(XAttribute):
 
     def __ge__(self, other):
         return True if self.compare_to(other) >= 0 else False
-
-    def __timestamp(self, value):
-        """ Windows timestamp workaround
-
-        Creating the timestamp will fail if less than 86400 on Windows with
-        Python 3.6.
-        """
-        value = value / 1000.0
-        if (platform.system() == 'Windows') and (value < 86400):
-            return 86400
-        return value
-- 
2.43.0


From 55f168924bb5c3da6fea01eb5ad463ad40edf61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 06/59] fix: timestamps in UTC or in a named zone were written
 without a valid time zone

---
 src/opyenxes/model/XAttributeTimestamp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 586746e..7973e0f 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -90,7 +90,8 @@ class XAttributeTimestamp(XAttribute):
         return super().__hash__()
 
     def __str__(self):
-        if self.__value.tzinfo is None:
+        offset = self.__value.utcoffset()
+        if not offset:
             return "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}".format(
                 self.__value.year,
                 self.__value.month,
@@ -101,6 +102,11 @@ class XAttributeTimestamp(XAttribute):
                 self.__value.microsecond // 1000,
                 "Z")
 
+        if offset % timedelta(minutes=1):
+            # XML Schema offsets have no seconds: write the same instant in UTC
+            return str(XAttributeTimestamp(self.get_key(), self.__value.astimezone(timezone.utc)))
+
+        minutes = offset // timedelta(minutes=1)
         return "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:03}{}".format(
             self.__value.year,
             self.__value.month,
@@ -109,7 +115,7 @@ class XAttributeTimestamp(XAttribute):
             self.__value.minute,
             self.__value.second,
             self.__value.microsecond // 1000,
-            self.__value.tzname().replace("UTC", "").replace("+00:00", "Z").replace("-00:00", "Z"))
+            "{}{:02}:{:02}".format("-" if minutes < 0 else "+", *divmod(abs(minutes), 60)))
 
     def __lt__(self, other):
         return True if self.compare_to(other) < 0 else False
-- 
2.43.0


From 3f06bde3f256f52d8deb06f4cf1abc70e585ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 07/59] fix: assigning a timestamp lost its time zone and
 milliseconds, a missing one was reported as -1

---
 src/opyenxes/extension/std/XTimeExtension.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 302a635..7b8961a 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -3,7 +3,6 @@ from urllib.parse import urlparse
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.utils.SingletonClassGenerator import XTimeExtensionMetaclass
-import time
 from datetime import datetime
 
 
@@ -41,7 +40,7 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
         attribute = event.get_attributes().get("time:timestamp")
         if attribute:
             return attribute.get_value()
-        return -1
+        return None
 
     def assign_timestamp(self, event, date):
         """Assigns to a given event its timestamp.
@@ -52,11 +51,9 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
             milliseconds in UNIX time..
         :type date: datetime or int
         """
+        attr = self.ATTR_TIMESTAMP.clone()
         if isinstance(date, datetime):
-            aux = time.mktime(date.timetuple()) * 1000
+            attr.set_value(date)
         else:
-            aux = date
-
-        attr = self.ATTR_TIMESTAMP.clone()
-        attr.set_value_millis(aux)
+            attr.set_value_millis(date)
         event.get_attributes()["time:timestamp"] = attr
-- 
2.43.0


From 016d8f25d60a9b1b1f2da9e44c15ab627e480b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 08/59] fix: extended events changed the case of resource, role
 and group

---
 src/opyenxes/extension/std/XExtendedEvent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/extension/std/XExtendedEvent.py b/src/opyenxes/extension/std/XExtendedEvent.py
index 7217235..fa483fc 100644
--- a/src/opyenxes/extension/std/XExtendedEvent.py
+++ b/src/opyenxes/extension/std/XExtendedEvent.py
@@ -101,7 +101,7 @@ class XExtendedEvent:
         :param resource: Resource string.
         :type resource: str
         """
-        XOrganizationalExtension().assign_resource(self.__original, resource.lower())
+        XOrganizationalExtension().assign_resource(self.__original, resource.strip())
 
     def get_role(self):
         """Returns the role of the event, as defined by the Organizational
@@ -119,7 +119,7 @@ class XExtendedEvent:
         :param role: Role string.
         :type role: str
         """
-        XOrganizationalExtension().assign_role(self.__original, role.lower())
+        XOrganizationalExtension().assign_role(self.__original, role.strip())
 
     def get_group(self):
         """Returns the group of the event, as defined by the Organizational
@@ -137,7 +137,7 @@ class XExtendedEvent:
         :param group: Group string.
         :type group: str
         """
-        XOrganizationalExtension().assign_group(self.__original, group.lower())
+        XOrganizationalExtension().assign_group(self.__original, group.strip())
 
     def get_transition(self):
         """Returns the lifecycle transition of the event, as defined by the
-- 
2.43.0


From 0fc3ac40c46f090cc2a59df2716472d0d00c2079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 09/59] fix: misspelled name of the standard lifecycle model

---
 src/opyenxes/extension/std/XLifecycleExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XLifecycleExtension.py b/src/opyenxes/extension/std/XLifecycleExtension.py
index b69e0a9..76e7653 100644
--- a/src/opyenxes/extension/std/XLifecycleExtension.py
+++ b/src/opyenxes/extension/std/XLifecycleExtension.py
@@ -64,7 +64,7 @@ class XLifecycleExtension(XExtension, metaclass=XLifecycleExtensionMetaclass):
     def __init__(self):
         super().__init__("Lifecycle", "lifecycle", urlparse("http://www.xes-standard.org/lifecycle.xesext"))
         factory = XFactoryRegistry().current_default()
-        self.ATTR_MODEL = factory.create_attribute_literal("lifecycle:model", "standart", self)
+        self.ATTR_MODEL = factory.create_attribute_literal("lifecycle:model", "standard", self)
         self.ATTR_TRANSITION = factory.create_attribute_literal("lifecycle:transition", XLifecycleExtension.StandardModel.COMPLETE, self)
         self.get_log_attributes().add(self.ATTR_MODEL.clone())
         self.get_event_attributes().add(self.ATTR_TRANSITION.clone())
-- 
2.43.0


From a7319fd32c8fc37b24e33375e57de49cbb10f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:37 +0000
Subject: [PATCH 10/59] fix: nested attribute values used unhashable lists as
 keys and the wrong path

---
 .../std/XAbstractNestedAttributeSupport.py         | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
index 49368ab..ee5f96f 100644
--- a/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
+++ b/src/opyenxes/extension/std/XAbstractNestedAttributeSupport.py
@@ -97,12 +97,11 @@ class XAbstractNestedAttributeSupport:
         :param element: Element to retrieve all values for.
         :type element: `XAttributable`
         :return: Dictionary with all descending keys to values.
-        :rtype: dict(list[str]: Any)
+        :rtype: dict(tuple[str]: Any)
         """
         nested_values = dict()
         for attr in element.get_attributes().values():
-            keys = list()
-            keys.append(attr.get_key())
+            keys = (attr.get_key(),)
             self.__extract_nested_values_private__(attr, nested_values, keys)
         return nested_values
 
@@ -111,12 +110,11 @@ class XAbstractNestedAttributeSupport:
 
         """
         value = self.extract_value(element)
-        if value:
+        if value is not None:
             nested_values[keys] = value
 
         for attr in element.get_attributes().values():
-            new_keys = list(keys)
-            new_keys.append(element.get_key())
+            new_keys = keys + (attr.get_key(),)
             self.__extract_nested_values_private__(attr, nested_values, new_keys)
 
     def assign_values(self, element, values):
@@ -147,9 +145,7 @@ class XAbstractNestedAttributeSupport:
         """
         nested_values = dict()
         for key in values.keys():
-            keys = list()
-            keys.append(key)
-            nested_values[keys] = values[key]
+            nested_values[(key,)] = values[key]
 
         self.assign_nested_values(element, nested_values)
 
-- 
2.43.0


From 42d011b61452277045ccc9144e8e5cd2eb91e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 11/59] fix: cloned elements shared their attributes with the
 original and lost nested attributes

---
 src/opyenxes/model/XAttributeBoolean.py    |  1 +
 src/opyenxes/model/XAttributeCollection.py | 18 ++++++++++++++++++
 src/opyenxes/model/XAttributeContinuous.py |  1 +
 src/opyenxes/model/XAttributeDiscrete.py   |  1 +
 src/opyenxes/model/XAttributeID.py         |  1 +
 src/opyenxes/model/XAttributeLiteral.py    |  1 +
 src/opyenxes/model/XAttributeMap.py        |  5 +++--
 src/opyenxes/model/XAttributeTimestamp.py  |  1 +
 src/opyenxes/model/XLog.py                 |  4 ++--
 9 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/model/XAttributeBoolean.py b/src/opyenxes/model/XAttributeBoolean.py
index 395973a..4a5e0c3 100644
--- a/src/opyenxes/model/XAttributeBoolean.py
+++ b/src/opyenxes/model/XAttributeBoolean.py
@@ -41,6 +41,7 @@ class XAttributeBoolean(XAttribute):
         """
         clone = XAttributeBoolean(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeCollection.py b/src/opyenxes/model/XAttributeCollection.py
index 55c8661..7a0d76a 100644
--- a/src/opyenxes/model/XAttributeCollection.py
+++ b/src/opyenxes/model/XAttributeCollection.py
@@ -34,6 +34,24 @@ class XAttributeCollection(XAttribute):
             return self.get_attributes().values()
         return self.__collection.copy()
 
+    def clone(self):
+        """Creates and returns a copy of this object. An attribute which is both
+         in the collection and in the attribute map is copied once.
+
+        :return: A clone of this instance.
+        :rtype: `XAttributeCollection`
+        """
+        clone = type(self)(self.get_key(), self.get_extension())
+        attributes = self.get_attributes()
+        clone.set_attributes(attributes.clone())
+        copies = {id(attributes[key]): copy
+                  for key, copy in clone.get_attributes().items()}
+        for attribute in self.get_collection():
+            if id(attribute) not in copies:
+                copies[id(attribute)] = attribute.clone()
+            clone.add_to_collection(copies[id(attribute)])
+        return clone
+
     def __str__(self):
         text = []
         sep = "["
diff --git a/src/opyenxes/model/XAttributeContinuous.py b/src/opyenxes/model/XAttributeContinuous.py
index b255d68..20cde5f 100644
--- a/src/opyenxes/model/XAttributeContinuous.py
+++ b/src/opyenxes/model/XAttributeContinuous.py
@@ -41,6 +41,7 @@ class XAttributeContinuous(XAttribute):
         """
         clone = XAttributeContinuous(self.get_key(), self.__value,
                                      self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeDiscrete.py b/src/opyenxes/model/XAttributeDiscrete.py
index 9c567af..7715fac 100644
--- a/src/opyenxes/model/XAttributeDiscrete.py
+++ b/src/opyenxes/model/XAttributeDiscrete.py
@@ -41,6 +41,7 @@ class XAttributeDiscrete(XAttribute):
         """
         clone = XAttributeDiscrete(self.get_key(), self.__value,
                                    self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeID.py b/src/opyenxes/model/XAttributeID.py
index c84fc45..5d33825 100644
--- a/src/opyenxes/model/XAttributeID.py
+++ b/src/opyenxes/model/XAttributeID.py
@@ -40,6 +40,7 @@ class XAttributeID(XAttribute):
         """
         clone = XAttributeID(self.get_key(), self.__value.clone(),
                              self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeLiteral.py b/src/opyenxes/model/XAttributeLiteral.py
index 1868c40..5f0fb55 100644
--- a/src/opyenxes/model/XAttributeLiteral.py
+++ b/src/opyenxes/model/XAttributeLiteral.py
@@ -41,6 +41,7 @@ class XAttributeLiteral(XAttribute):
         """
         clone = XAttributeLiteral(self.get_key(), self.__value,
                                   self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XAttributeMap.py b/src/opyenxes/model/XAttributeMap.py
index fa1b9e6..74d916f 100644
--- a/src/opyenxes/model/XAttributeMap.py
+++ b/src/opyenxes/model/XAttributeMap.py
@@ -11,14 +11,15 @@ class XAttributeMap(dict):
             self.update(dictionary)
 
     def clone(self):
-        """Creates and returns a copy of this object.
+        """Creates and returns a copy of this object. The attributes in the
+         copy are clones of the attributes in this map.
 
         :return: A clone of this instance.
         :rtype: `XAttributeMap`
         """
         clone = XAttributeMap()
         for key in self.keys():
-            clone[key] = self[key]
+            clone[key] = self[key].clone()
 
         return clone
 
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 7973e0f..3b4bcb3 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -68,6 +68,7 @@ class XAttributeTimestamp(XAttribute):
         """
         clone = XAttributeTimestamp(self.get_key(), self.__value,
                                     self.get_extension())
+        clone.set_attributes(self.get_attributes().clone())
         return clone
 
     def compare_to(self, obj):
diff --git a/src/opyenxes/model/XLog.py b/src/opyenxes/model/XLog.py
index e44a343..94f2277 100644
--- a/src/opyenxes/model/XLog.py
+++ b/src/opyenxes/model/XLog.py
@@ -31,8 +31,8 @@ class XLog(XElement, list):
             clone.get_extensions().add(elem)
 
         clone.__classifiers = self.__classifiers.copy()
-        clone.__globalTraceAttributes = self.__globalTraceAttributes.copy()
-        clone.__globalEventAttributes = self.__globalEventAttributes.copy()
+        clone.__globalTraceAttributes = [attribute.clone() for attribute in self.__globalTraceAttributes]
+        clone.__globalEventAttributes = [attribute.clone() for attribute in self.__globalEventAttributes]
         clone.__features = self.__features.copy()
 
         for trace in self:
-- 
2.43.0


From 24b64caa94263406d81a70e710170094fce817f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 12/59] fix: the hash of a trace changed from call to call

---
 src/opyenxes/model/XTrace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index e7df86f..5ec4f31 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -66,4 +66,4 @@ class XTrace(XElement, list):
         super(XTrace, self).append(p_object)
 
     def __hash__(self):
-        return hash(super(XTrace, self))
+        return hash(tuple(self))
-- 
2.43.0


From ea9f14eeef3de5d9bed8976d2db76aa203a8c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 13/59] fix: attribute information knew no types and
 extensions, and failed on timestamps

---
 src/opyenxes/info/XAttributeInfo.py   | 8 +++++++-
 src/opyenxes/utils/XAttributeUtils.py | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XAttributeInfo.py b/src/opyenxes/info/XAttributeInfo.py
index 12d8c6c..ec62041 100644
--- a/src/opyenxes/info/XAttributeInfo.py
+++ b/src/opyenxes/info/XAttributeInfo.py
@@ -131,7 +131,7 @@ class XAttributeInfo:
         :return: A tuple of attribute prototypes registered for no extension.
         :rtype: tuple
         """
-        return self.__no_extension_set
+        return tuple(self.__no_extension_set)
 
     def get_keys_without_extension(self):
         """Returns keys of all registered attributes defined by no extension.
@@ -154,7 +154,13 @@ class XAttributeInfo:
             type_set = self.__type_map.get(XAttributeUtils.get_type(prototype))
             if type_set is None:
                 type_set = set()
+            type_set.add(prototype)
             self.__type_map[XAttributeUtils.get_type(prototype)] = type_set
+            if attribute.get_extension() is None:
+                self.__no_extension_set.add(prototype)
+            else:
+                extension_set = self.__extension_map.setdefault(attribute.get_extension(), set())
+                extension_set.add(prototype)
         else:
             self.__frequencies[attribute.get_key()] += 1
 
diff --git a/src/opyenxes/utils/XAttributeUtils.py b/src/opyenxes/utils/XAttributeUtils.py
index 735630a..6eb42e1 100644
--- a/src/opyenxes/utils/XAttributeUtils.py
+++ b/src/opyenxes/utils/XAttributeUtils.py
@@ -107,7 +107,7 @@ class XAttributeUtils:
             elif isinstance(prototype, XAttributeDiscrete):
                 prototype.set_value(0)
             elif isinstance(prototype, XAttributeTimestamp):
-                prototype.set_value_millies(0)
+                prototype.set_value_millis(0)
             elif isinstance(prototype, XAttributeID):
                 prototype.set_value(XIDFactory().create_id())
             else:
-- 
2.43.0


From f715681f15f34eadfaf03361d9940b300e69207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:55 +0000
Subject: [PATCH 14/59] fix: classifiers with three or more keys mixed up
 events with missing attributes

---
 src/opyenxes/classification/XEventAttributeClassifier.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/opyenxes/classification/XEventAttributeClassifier.py b/src/opyenxes/classification/XEventAttributeClassifier.py
index 03fe255..1da6a89 100644
--- a/src/opyenxes/classification/XEventAttributeClassifier.py
+++ b/src/opyenxes/classification/XEventAttributeClassifier.py
@@ -46,8 +46,7 @@ class XEventAttributeClassifier:
             identity = []
             for key in self.__keys:
                 attribute = event.get_attributes().get(key)
-                if attribute:
-                    identity.append(str(attribute))
+                identity.append(str(attribute) if attribute else "")
 
             return "&&".join(identity)
 
-- 
2.43.0


From 71f60b8157931e32f6c381222f956014aa844451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 15/59] fix: create_event ignored the identity of an event
 without attributes

---
 src/opyenxes/factory/XFactory.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/factory/XFactory.py b/src/opyenxes/factory/XFactory.py
index 58a671e..c5dd1af 100644
--- a/src/opyenxes/factory/XFactory.py
+++ b/src/opyenxes/factory/XFactory.py
@@ -55,13 +55,10 @@ class XFactory:
         :return: A new event instance.
         :rtype: `XEvent`
         """
-        if attribute and identity:
-            return XEvent(attribute, identity)
-
         if attribute:
-            return XEvent(attribute)
+            return XEvent(attribute, identity)
 
-        return XEvent()
+        return XEvent(identity=identity)
 
     @staticmethod
     def create_attribute_map():
-- 
2.43.0


From f68e2eefec7d61066893ca30048fd3aba23a5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 16/59] fix: attributes defined after the first query of an
 extension were not reported

---
 src/opyenxes/extension/XExtension.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/opyenxes/extension/XExtension.py b/src/opyenxes/extension/XExtension.py
index 50fdeee..2d48906 100644
--- a/src/opyenxes/extension/XExtension.py
+++ b/src/opyenxes/extension/XExtension.py
@@ -17,7 +17,6 @@ class XExtension:
         self.__name = name
         self.__prefix = prefix
         self.__uri = uri
-        self.__all_attributes = None
         self.__log_attributes = set()
         self.__trace_attributes = set()
         self.__event_attributes = set()
@@ -59,14 +58,13 @@ class XExtension:
         :return: The collection of attributes defined by this extension
         :rtype: set
         """
-        if self.__all_attributes is None:
-            self.__all_attributes = set()
-            self.__all_attributes.update(self.__log_attributes)
-            self.__all_attributes.update(self.__trace_attributes)
-            self.__all_attributes.update(self.__event_attributes)
-            self.__all_attributes.update(self.__meta_attributes)
-
-        return self.__all_attributes
+        all_attributes = set()
+        all_attributes.update(self.__log_attributes)
+        all_attributes.update(self.__trace_attributes)
+        all_attributes.update(self.__event_attributes)
+        all_attributes.update(self.__meta_attributes)
+
+        return all_attributes
 
     def get_log_attributes(self):
         """ Returns the collection of attributes defined by this extension for
-- 
2.43.0


From ee2a666f735f2f96952dafa63fc97961d6dd1f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 17/59] fix: get_extensions never reported the extensions of
 attributes

---
 src/opyenxes/model/XAttributable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/model/XAttributable.py b/src/opyenxes/model/XAttributable.py
index a269b6c..7f6f877 100644
--- a/src/opyenxes/model/XAttributable.py
+++ b/src/opyenxes/model/XAttributable.py
@@ -24,9 +24,9 @@ class XAttributable:
         """
         extensions = set()
         for attribute in self.__attributes.values():
-            extension = attribute.get_extensions()
-            if len(extension) != 0:
-                extensions.add(extension)
+            if attribute.get_extension() is not None:
+                extensions.add(attribute.get_extension())
+            extensions.update(attribute.get_extensions())
         return extensions
 
     def get_attributes(self):
-- 
2.43.0


From 531721daf7d8eef7c292f50a4bec73031a899829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 18/59] fix: parsers compared file suffixes case-sensitively
 and no parser accepted .xez

---
 src/opyenxes/data_in/XMxmlParser.py      | 2 +-
 src/opyenxes/data_in/XesXmlGZIPParser.py | 3 ++-
 src/opyenxes/data_in/XesXmlParser.py     | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index cdb48e2..632c891 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -70,7 +70,7 @@ class XMxmlParser:
         """
         i = len(name) - len(suffix)
         if i > 0:
-            return suffix in name[i:]
+            return name[i:].lower() == suffix.lower()
         return False
 
     class MxmlHandler(ContentHandler):
diff --git a/src/opyenxes/data_in/XesXmlGZIPParser.py b/src/opyenxes/data_in/XesXmlGZIPParser.py
index 4a93e55..7b11af0 100644
--- a/src/opyenxes/data_in/XesXmlGZIPParser.py
+++ b/src/opyenxes/data_in/XesXmlGZIPParser.py
@@ -20,7 +20,8 @@ class XesXmlGZIPParser(XesXmlParser):
         :return: Whether this parser can handle the given file.
         :rtype: bool
         """
-        return super().ends_with_ignore_case(file, ".xes.gz")
+        return super().ends_with_ignore_case(file, ".xes.gz") or \
+            super().ends_with_ignore_case(file, ".xez")
 
     def parse(self, file):
         """Parses a log from the given input stream, which is supposed to
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index df2fc6f..ba008c9 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -64,7 +64,7 @@ class XesXmlParser:
         i = len(name) - len(suffix)
 
         if i > 0:
-            return suffix in name[i:]
+            return name[i:].lower() == suffix.lower()
         return False
 
     class XesXmlHandler(ContentHandler):
-- 
2.43.0


From b226c7ef63ffa76a531d7dac321916ac322d56b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 19/59] fix: the timer stopped in seconds but started in
 milliseconds

---
 src/opyenxes/utils/XTimer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XTimer.py b/src/opyenxes/utils/XTimer.py
index bfab16c..9be2201 100644
--- a/src/opyenxes/utils/XTimer.py
+++ b/src/opyenxes/utils/XTimer.py
@@ -28,7 +28,7 @@ class XTimer:
         """Stops the timer (takes time).
 
         """
-        self.__stop = time.time()
+        self.__stop = time.time() * 1000
 
     def get_duration(self):
         """Retrieve the runtime of the timer.
-- 
2.43.0


From 435835ff70d3b2fde313343c00c6e283d6d007da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 20/59] fix: parsers ignored the factory they were given

---
 src/opyenxes/data_in/XMxmlParser.py  | 35 +++++++++++++---------
 src/opyenxes/data_in/XesXmlParser.py | 43 +++++++++++++++++-----------
 2 files changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 632c891..3c031c0 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -24,10 +24,18 @@ class XMxmlParser:
                         XEventResourceClassifier()]
 
     def __init__(self, factory=None):
-        if factory:
-            self.factory = factory
-        else:
-            self.factory = XFactoryRegistry().current_default()
+        self.__factory = factory
+
+    @property
+    def factory(self):
+        """The factory given to this parser, else the current default factory."""
+        if self.__factory is not None:
+            return self.__factory
+        return XFactoryRegistry().current_default()
+
+    @factory.setter
+    def factory(self, factory):
+        self.__factory = factory
 
     def can_parse(self, file):
         """Checks whether this parser can handle the given file.
@@ -51,7 +59,7 @@ class XMxmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XMxmlParser.MxmlHandler()
+        handler = XMxmlParser.MxmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -77,8 +85,9 @@ class XMxmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory):
             super().__init__()
+            self.__factory = factory
             self.__buffer = list()
             self.__logs = list()
             self.__currentProcess = None
@@ -115,13 +124,13 @@ class XMxmlParser:
                 if tag_name == "Source":
                     self.__sourceOpen = True
                     description_string = attributes.get("program")
-                    self.__sourceAttribute = XMxmlParser().factory.create_attribute_literal("source", description_string, None)
+                    self.__sourceAttribute = self.__factory.create_attribute_literal("source", description_string, None)
                     self.__add_model_reference__(attributes, self.__sourceAttribute)
                 elif tag_name == "Process":
                     description_string = attributes.get("id")
                     description = attributes.get("description")
 
-                    self.__currentProcess = XMxmlParser().factory.create_log()
+                    self.__currentProcess = self.__factory.create_log()
                     self.__currentProcess.get_extensions().add(XConceptExtension())
                     self.__currentProcess.get_extensions().add(XOrganizationalExtension())
                     self.__currentProcess.get_extensions().add(XLifecycleExtension())
@@ -135,13 +144,13 @@ class XMxmlParser:
 
                     if description and len(description.lower()) > 0:
 
-                        description1 = XMxmlParser().factory.create_attribute_literal("description", description, None)
+                        description1 = self.__factory.create_attribute_literal("description", description, None)
                         self.__currentProcess.get_attributes()[description1.get_key()] = description1
 
                     self.__add_model_reference__(attributes, self.__currentProcess)
 
                 elif tag_name == "ProcessInstance":
-                    self.__currentInstance = XMxmlParser().factory.create_trace()
+                    self.__currentInstance = self.__factory.create_trace()
                     name = attributes.get("id")
                     if name is None:
                         name = "None"
@@ -150,16 +159,16 @@ class XMxmlParser:
                     description_string = attributes.get("description")
 
                     if description_string and len(description_string.strip()) > 0:
-                        description2 = XMxmlParser().factory.create_attribute_literal("description", description_string, None)
+                        description2 = self.__factory.create_attribute_literal("description", description_string, None)
                         self.__currentInstance.get_attributes()[description2.get_key()] = description2
 
                     self.__add_model_reference__(attributes, self.__currentInstance)
 
                 elif tag_name == "AuditTrailEntry":
-                    self.__entry = XMxmlParser().factory.create_event()
+                    self.__entry = self.__factory.create_event()
 
                 elif tag_name == "Attribute":
-                    self.__genericAttribute = XMxmlParser().factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
+                    self.__genericAttribute = self.__factory.create_attribute_literal(attributes.get("name").strip(), "DEFAULT_VALUE", None)
                     self.__add_model_reference__(attributes, self.__genericAttribute)
 
                 elif tag_name == "EventType":
diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index ba008c9..6a784d6 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -18,10 +18,18 @@ class XesXmlParser:
     :type factory: `XFactory`
     """
     def __init__(self, factory=None):
-        if factory:
-            self.factory = factory
-        else:
-            self.factory = XFactoryRegistry().current_default()
+        self.__factory = factory
+
+    @property
+    def factory(self):
+        """The factory given to this parser, else the current default factory."""
+        if self.__factory is not None:
+            return self.__factory
+        return XFactoryRegistry().current_default()
+
+    @factory.setter
+    def factory(self, factory):
+        self.__factory = factory
 
     def can_parse(self, file):
         """Checks whether this parser can handle the given file.
@@ -43,7 +51,7 @@ class XesXmlParser:
         :return: The parsed list of logs.
         :rtype: list[`XLog`]
         """
-        handler = XesXmlParser.XesXmlHandler()
+        handler = XesXmlParser.XesXmlHandler(self.factory)
 
         xml_parse(file, handler)
 
@@ -71,8 +79,9 @@ class XesXmlParser:
         """SAX handler class for XES in XML representation.
 
         """
-        def __init__(self):
+        def __init__(self, factory):
             super().__init__()
+            self.__factory = factory
             self.__log = None
             self.__trace = None
             self.__event = None
@@ -102,13 +111,13 @@ class XesXmlParser:
             tag_name = element_name.lower()
             if tag_name not in ["string", "date", "int", "float", "boolean", "id", "list", "container"]:
                 if tag_name == "event":
-                    self.__event = XesXmlParser().factory.create_event()
+                    self.__event = self.__factory.create_event()
                     self.__attributable_stack.append(self.__event)
                 elif tag_name == "trace":
-                    self.__trace = XesXmlParser().factory.create_trace()
+                    self.__trace = self.__factory.create_trace()
                     self.__attributable_stack.append(self.__trace)
                 elif tag_name == "log":
-                    self.__log = XesXmlParser().factory.create_log()
+                    self.__log = self.__factory.create_log()
                     for attr_name in attributes.getNames():
                         if attr_name.startswith('xes.') or \
                         attr_name.startswith('openxes.'):
@@ -165,32 +174,32 @@ class XesXmlParser:
                 attribute = None
 
                 if tag_name == "string":
-                    attribute = XesXmlParser().factory.create_attribute_literal(name, value, keys_list)
+                    attribute = self.__factory.create_attribute_literal(name, value, keys_list)
 
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
                         return
-                    attribute = XesXmlParser().factory.create_attribute_timestamp(name, var15, keys_list)
+                    attribute = self.__factory.create_attribute_timestamp(name, var15, keys_list)
 
                 elif tag_name == "int":
-                    attribute = XesXmlParser().factory.create_attribute_discrete(name, int(value), keys_list)
+                    attribute = self.__factory.create_attribute_discrete(name, int(value), keys_list)
 
                 elif tag_name == "float":
-                    attribute = XesXmlParser().factory.create_attribute_continuous(name, float(value), keys_list)
+                    attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
                     var16 = True if value.lower() == "true" else False
-                    attribute = XesXmlParser().factory.create_attribute_boolean(name, var16, keys_list)
+                    attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-                    attribute = XesXmlParser().factory.create_attribute_id(name, XID.parse(value), keys_list)
+                    attribute = self.__factory.create_attribute_id(name, XID.parse(value), keys_list)
 
                 elif tag_name == "list":
-                    attribute = XesXmlParser().factory.create_attribute_list(name, keys_list)
+                    attribute = self.__factory.create_attribute_list(name, keys_list)
 
                 elif tag_name == "container":
-                    attribute = XesXmlParser().factory.create_attribute_container(name, keys_list)
+                    attribute = self.__factory.create_attribute_container(name, keys_list)
 
                 if attribute is not None:
                     self.__attribute_stack.append(attribute)
-- 
2.43.0


From b6a80a840ecb2626b7714ab3c7a63d596e1ccf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 21/59] fix: an unreadable date corrupted the nesting of the
 attributes around it; nested attributes of globals became globals

---
 src/opyenxes/data_in/XesXmlParser.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 6a784d6..0798a05 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -7,6 +7,7 @@ from opyenxes.classification.XEventAttributeClassifier import XEventAttributeCla
 from opyenxes.utils.XsDateTimeConversion import parse_date_time
 from opyenxes.utils.XTokenHelper import XTokenHelper
 from opyenxes.id.XID import XID
+from opyenxes.model.XAttributable import XAttributable
 from opyenxes.model.XAttributeCollection import XAttributeCollection
 
 
@@ -75,6 +76,11 @@ class XesXmlParser:
             return name[i:].lower() == suffix.lower()
         return False
 
+    class UnreadableAttribute(XAttributable):
+        """Takes the place of an attribute whose value could not be read.
+
+        """
+
     class XesXmlHandler(ContentHandler):
         """SAX handler class for XES in XML representation.
 
@@ -179,6 +185,10 @@ class XesXmlParser:
                 elif tag_name == "date":
                     var15 = parse_date_time(value)
                     if var15 is None:
+                        # keep its nested attributes away from the parent
+                        attribute = XesXmlParser.UnreadableAttribute()
+                        self.__attribute_stack.append(attribute)
+                        self.__attributable_stack.append(attribute)
                         return
                     attribute = self.__factory.create_attribute_timestamp(name, var15, keys_list)
 
@@ -235,7 +245,10 @@ class XesXmlParser:
                 i = self.__attribute_stack.pop()
                 self.__attributable_stack.pop()
 
-                if self.__globals is not None:
+                if isinstance(i, XesXmlParser.UnreadableAttribute):
+                    return
+
+                if self.__globals is not None and len(self.__attribute_stack) == 0:
 
                     self.__globals.append(i)
                 else:
-- 
2.43.0


From 3da76c58c69a131e9a26a23b8e0d32fb197392f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 22/59] fix: an unknown extension without uri aborted parsing

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 0798a05..05ead73 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -145,7 +145,7 @@ class XesXmlParser:
                     if extension is not None:
                         self.__log.get_extensions().add(extension)
                     else:
-                        print("Unknown extension: " + keys)
+                        print("Unknown extension: " + str(keys))
 
                 elif tag_name == "global":
 
-- 
2.43.0


From af8be041fdfcc7308c0a395f95e7f549833ec3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 23/59] fix: the boolean literal 1 of XML Schema was read as
 false

---
 src/opyenxes/data_in/XesXmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XesXmlParser.py b/src/opyenxes/data_in/XesXmlParser.py
index 05ead73..6f5ad31 100644
--- a/src/opyenxes/data_in/XesXmlParser.py
+++ b/src/opyenxes/data_in/XesXmlParser.py
@@ -199,7 +199,7 @@ class XesXmlParser:
                     attribute = self.__factory.create_attribute_continuous(name, float(value), keys_list)
 
                 elif tag_name == "boolean":
-                    var16 = True if value.lower() == "true" else False
+                    var16 = True if value.strip().lower() in ("true", "1") else False
                     attribute = self.__factory.create_attribute_boolean(name, var16, keys_list)
 
                 elif tag_name == "id":
-- 
2.43.0


From 63366727ce418ce30803f26c4f8fe3a320524274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 24/59] fix: line breaks and tabs of attribute values were lost
 in XES documents

---
 src/opyenxes/data_out/XesXmlSerializer.py | 30 +++++++++++------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index 9e9f70f..cbf70a8 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -1,7 +1,6 @@
 from opyenxes.log.XLogging import XLogging
 import time
 import xml.etree.ElementTree as Et
-from xml.dom import minidom
 from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
 from opyenxes.model.XAttributeDiscrete import XAttributeDiscrete
 from opyenxes.model.XAttributeLiteral import XAttributeLiteral
@@ -80,24 +79,23 @@ class XesXmlSerializer:
                 event_xml = Et.SubElement(trace_xml, "event")
                 self.add_attributes(event_xml, event.get_attributes().values())
 
-        text = minidom.parseString(Et.tostring(log_xml, "utf-8"))
-        c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-        c2 = text.createComment("to the XML serialization of the XES standard for log storage and")
-        c3 = text.createComment("management.")
-        c4 = text.createComment("XES standard version: 1.0")
-        c5 = text.createComment("OpenXES library version: 1.0RC7")
-        c6 = text.createComment("OpenXES is available from http://www.openxes.org/")
-        text.insertBefore(c6, text.childNodes[0])
-        text.insertBefore(c5, text.childNodes[0])
-        text.insertBefore(c4, text.childNodes[0])
-        text.insertBefore(c3, text.childNodes[0])
-        text.insertBefore(c2, text.childNodes[0])
-        text.insertBefore(c1, text.childNodes[0])
+        # ElementTree keeps line breaks and tabs of attribute values, minidom does not
+        Et.indent(log_xml, "\t")
+        text = "\n".join([
+            "<?xml version=\"1.0\" ?>",
+            "<!--This file has been generated with the OpenXES library. It conforms-->",
+            "<!--to the XML serialization of the XES standard for log storage and-->",
+            "<!--management.-->",
+            "<!--XES standard version: 1.0-->",
+            "<!--OpenXES library version: 1.0RC7-->",
+            "<!--OpenXES is available from http://www.openxes.org/-->",
+            Et.tostring(log_xml, "unicode"),
+            ""])
 
         if in_bytes:
-            out.write(text.toprettyxml("\t").encode())
+            out.write(text.encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(text)
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
-- 
2.43.0


From 5114ca39e9108c76c4004d679291433296d3c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 25/59] fix: attributes of a list or container outside its
 collection were not written

---
 src/opyenxes/data_out/XesXmlSerializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index cbf70a8..319563f 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -158,5 +158,8 @@ class XesXmlSerializer:
             if isinstance(attribute, XAttributeCollection):
                 collection = attribute.get_collection()
                 self.add_attributes(attribute_tag, collection)
+                written = set(map(id, collection))
+                self.add_attributes(attribute_tag, [child for child in attribute.get_attributes().values()
+                                                    if id(child) not in written])
             elif attribute.has_attributes():
                 self.add_attributes(attribute_tag, attribute.get_attributes().values())
-- 
2.43.0


From 2bc3e18ed0779314d7939da229918bbd5c61d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 26/59] fix: line breaks and tabs of attribute values were lost
 in MXML documents

---
 src/opyenxes/data_out/XMxmlSerializer.py | 25 ++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 7e1a439..fea8c72 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -1,7 +1,6 @@
 from opyenxes.log.XLogging import XLogging
 import time
 import xml.etree.ElementTree as Et
-from xml.dom import minidom
 from opyenxes.extension.std.XConceptExtension import XConceptExtension
 
 
@@ -118,19 +117,21 @@ class XMxmlSerializer:
                     date = timestamp_attr_1.get_value()
                     timestamp.text = str(date)
 
-        text = minidom.parseString(Et.tostring(root, "utf-8"))
-        c1 = text.createComment("This file has been generated with the OpenXES library. It conforms")
-        c2 = text.createComment("to the legacy MXML standard for log storage and management.")
-        c3 = text.createComment("OpenXES library version: 1.0RC7")
-        c4 = text.createComment("OpenXES is available from http://www.xes-standard.org/")
-        text.insertBefore(c4, text.childNodes[0])
-        text.insertBefore(c3, text.childNodes[0])
-        text.insertBefore(c2, text.childNodes[0])
-        text.insertBefore(c1, text.childNodes[0])
+        # ElementTree keeps line breaks and tabs of attribute values, minidom does not
+        Et.indent(root, "\t")
+        text = "\n".join([
+            "<?xml version=\"1.0\" ?>",
+            "<!--This file has been generated with the OpenXES library. It conforms-->",
+            "<!--to the legacy MXML standard for log storage and management.-->",
+            "<!--OpenXES library version: 1.0RC7-->",
+            "<!--OpenXES is available from http://www.xes-standard.org/-->",
+            Et.tostring(root, "unicode").replace("\r", "&#13;"),
+            ""])
+
         if in_bytes:
-            out.write(text.toprettyxml("\t").encode())
+            out.write(text.encode())
         else:
-            out.write(text.toprettyxml("\t"))
+            out.write(text)
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
-- 
2.43.0


From b04527d799782a4bf2f0dddc6ccb9b51dba753ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 27/59] fix: MXML documents lacked all data attributes and
 named originator, timestamp and unknown types wrongly

---
 src/opyenxes/data_out/XMxmlSerializer.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index fea8c72..b9f6606 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -92,7 +92,7 @@ class XMxmlSerializer:
                     if originator_attr in self.__known_types:
                         type_.text = originator_attr
                     else:
-                        type_.set("unknownType", type_attr.get_value())
+                        type_.set("unknowntype", type_attr.get_value())
                         type_.text = "unknown"
 
                 else:
@@ -106,16 +106,15 @@ class XMxmlSerializer:
                     originator_attr_1 = event.get_attributes().get("org:group")
 
                 if originator_attr_1 is not None:
-                    timestamp_attr = Et.SubElement(ate, "originator")
+                    timestamp_attr = Et.SubElement(ate, "Originator")
                     self.add_model_reference(originator_attr_1, timestamp_attr)
                     timestamp_attr.text = (originator_attr_1.get_value())
 
                 timestamp_attr_1 = event.get_attributes().get("time:timestamp")
                 if timestamp_attr_1:
-                    timestamp = Et.SubElement(ate, "timestamp")
+                    timestamp = Et.SubElement(ate, "Timestamp")
                     self.add_model_reference(timestamp_attr_1, timestamp)
-                    date = timestamp_attr_1.get_value()
-                    timestamp.text = str(date)
+                    timestamp.text = str(timestamp_attr_1)
 
         # ElementTree keeps line breaks and tabs of attribute values, minidom does not
         Et.indent(root, "\t")
@@ -153,8 +152,8 @@ class XMxmlSerializer:
             node = tag
 
         for attribute in attributes:
-            if attribute.get_key() == "semantic:modelReference":
-                attribute_tag = Et.SubElement(node, "attribute")
+            if attribute.get_key() != "semantic:modelReference":
+                attribute_tag = Et.SubElement(node, "Attribute")
                 attribute_tag.set("name", key_prefix + attribute.get_key())
                 self.add_model_reference(attribute, attribute_tag)
 
@@ -166,12 +165,8 @@ class XMxmlSerializer:
                 sub_attributes = attribute.get_attributes().values()
 
                 if len(sub_attributes) > 0:
-                    sub_key_prefix = attribute.get_key()
-
-                    if len(sub_key_prefix) > 0:
-                        sub_key_prefix = key_prefix + ":" + sub_key_prefix
-
-                    self.add_attribute(node, sub_key_prefix, sub_attributes)
+                    sub_key_prefix = key_prefix + attribute.get_key() + ":"
+                    self.add_attribute(node, sub_attributes, sub_key_prefix)
 
     @staticmethod
     def add_model_reference(element, target):
-- 
2.43.0


From b9fa4db47c230edab9e0d558b4c2777faf174b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 28/59] fix: the MXML parser did not read element names of
 other case, as written by older serializers

---
 src/opyenxes/data_in/XMxmlParser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 3c031c0..3f43340 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -85,6 +85,10 @@ class XMxmlParser:
         """SAX handler class for XES in XML representation.
 
         """
+        __TAGS = {tag.lower(): tag for tag in [
+            "WorkflowLog", "Source", "Process", "ProcessInstance", "AuditTrailEntry", "Attribute",
+            "EventType", "WorkflowModelElement", "Originator", "Timestamp"]}
+
         def __init__(self, factory):
             super().__init__()
             self.__factory = factory
@@ -119,7 +123,7 @@ class XMxmlParser:
               the attributes of the element
             :type attributes: xml.sax.xmlreader.AttributesImpl
             """
-            tag_name = element_name
+            tag_name = self.__TAGS.get(element_name.lower(), element_name)
             if tag_name != "WorkflowLog":
                 if tag_name == "Source":
                     self.__sourceOpen = True
@@ -173,7 +177,7 @@ class XMxmlParser:
 
                 elif tag_name == "EventType":
                     self.__eventTypeAttribute = XLifecycleExtension().ATTR_TRANSITION.clone()
-                    unknown_type = attributes.get("unknowntype")
+                    unknown_type = attributes.get("unknowntype", attributes.get("unknownType"))
                     if unknown_type:
                         self.__eventTypeAttribute.set_value(unknown_type)
                     else:
@@ -194,7 +198,7 @@ class XMxmlParser:
             :param local_name: The name of the element type, just as with the startElement event
             :type local_name: str
             """
-            tag_name = local_name
+            tag_name = self.__TAGS.get(local_name.lower(), local_name)
 
             if tag_name == "WorkflowLog":
                 if self.__numUnorderedEntries > 0:
-- 
2.43.0


From c03ccd84dcfdbfe6a604e88f7513ea15ef299232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 29/59] fix: the MXML parser dropped data attributes of
 processes and process instances

---
 src/opyenxes/data_in/XMxmlParser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 3f43340..136c046 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -213,7 +213,7 @@ class XMxmlParser:
                 self.__logs.append(self.__currentProcess)
                 self.__currentProcess = None
 
-            elif tag_name == "Process":
+            elif tag_name == "Source":
                 self.__sourceOpen = False
 
             elif tag_name == "ProcessInstance":
@@ -242,11 +242,11 @@ class XMxmlParser:
                     originator = "".join(self.__buffer).strip()
                     if len(originator) > 0:
                         self.__genericAttribute.set_value("".join(self.__buffer).strip())
-                        if self.__entry:
+                        if self.__entry is not None:
                             self.__entry.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentInstance:
+                        elif self.__currentInstance is not None:
                             self.__currentInstance.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-                        elif self.__currentProcess:
+                        elif self.__currentProcess is not None:
                             self.__currentProcess.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
                         elif self.__sourceOpen:
                             self.__sourceAttribute.get_attributes()[self.__genericAttribute.get_key()] = self.__genericAttribute
-- 
2.43.0


From 61c5fd6b7447c38dd01e07829e2f54f9dfceff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:59 +0000
Subject: [PATCH 30/59] fix: processes of one MXML document shared their source
 attribute

---
 src/opyenxes/data_in/XMxmlParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 136c046..8a0bb9e 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -141,7 +141,7 @@ class XMxmlParser:
                     self.__currentProcess.get_extensions().add(XSemanticExtension())
                     self.__currentProcess.get_extensions().add(XTimeExtension())
                     if self.__sourceAttribute:
-                        self.__currentProcess.get_attributes()[self.__sourceAttribute.get_key()] = self.__sourceAttribute
+                        self.__currentProcess.get_attributes()[self.__sourceAttribute.get_key()] = self.__sourceAttribute.clone()
 
                     XConceptExtension().assign_name(self.__currentProcess, description_string)
                     XLifecycleExtension().assign_model(self.__currentProcess, "standard")
-- 
2.43.0


From b3c922374a6939f0d877c70f190e95a69b7ea462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:59 +0000
Subject: [PATCH 31/59] fix: dates with more than six fractional digits were
 dropped

---
 src/opyenxes/utils/XsDateTimeConversion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 8011840..02719c3 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -35,6 +35,10 @@ def parse_date_time(date_time):
             minute = 0
 
         if '.' in value:
+            # datetime keeps microseconds, XML Schema allows more digits
+            seconds, fraction = value.split(".", 1)
+            if fraction.isdigit():
+                value = seconds + "." + fraction[:6]
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
         else:
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
@@ -42,6 +46,6 @@ def parse_date_time(date_time):
         time = time.replace(tzinfo=timezone(timedelta(minutes=int(minute), hours=int(hours))))
         return time
 
-    except ValueError:
+    except (ValueError, OverflowError):
         print("\"" + date_time + "\" is not a valid representation of a XES timestamp.")
         return None
-- 
2.43.0


From 8eda3840efbfca42bd2cb07faa630b3219e723f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:18 +0000
Subject: [PATCH 32/59] fix: classifier keys were not split at whitespace, and
 keys with quotes or tabs were damaged

---
 src/opyenxes/utils/XTokenHelper.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/utils/XTokenHelper.py b/src/opyenxes/utils/XTokenHelper.py
index 9559550..0b5d180 100644
--- a/src/opyenxes/utils/XTokenHelper.py
+++ b/src/opyenxes/utils/XTokenHelper.py
@@ -1,11 +1,33 @@
 class XTokenHelper:
+    """Converts between lists of tokens (e.g. the keys of a classifier) and
+    their text: tokens are separated by whitespace, a token with whitespace is
+    enclosed in single quotes, a backslash makes the next character literal.
 
+    """
     @staticmethod
     def extract_tokens(token_string):
-        keys = list(map(lambda elem: elem.strip(), token_string.split("'")))
-        return list(filter(lambda key: key != '', keys))
+        tokens = []
+        token = []
+        quoted = False
+        characters = iter(token_string)
+        for character in characters:
+            if character == "\\":
+                token.append(next(characters, character))
+            elif character == "'" or (character.isspace() and not quoted):
+                quoted = character == "'" and not quoted
+                tokens.append("".join(token))
+                token = []
+            else:
+                token.append(character)
+        tokens.append("".join(token))
+        return [token for token in tokens if token.strip() != ""]
 
     @staticmethod
     def format_token(token):
-        aux = list(map(lambda elem: "'{}'".format(elem) if len(elem.split(" ")) > 1 else elem, token))
-        return " ".join(filter(lambda elem: elem.replace(" ", "") != "", aux))
+        aux = []
+        for elem in token:
+            text = elem.replace("\\", "\\\\").replace("'", "\\'")
+            if any(character.isspace() for character in elem):
+                text = "'{}'".format(text)
+            aux.append(text)
+        return " ".join(elem for elem, original in zip(aux, token) if original.strip() != "")
-- 
2.43.0


From 74f100bfdc2e31a0f805b1c214534f4eecab1cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 33/59] fix: re-registering an extension replaced it for
 lookups by uri only

---
 src/opyenxes/extension/XExtensionManager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 9dbe634..38126af 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -43,6 +43,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         self.__extension_map[extension.get_uri()] = extension
         if extension not in self.__extension_list:
             self.__extension_list.append(extension)
+        else:
+            self.__extension_list[self.__extension_list.index(extension)] = extension
 
     def get_by_uri(self, uri):
         """Retrieves an extension instance by its unique URI. If the extension
-- 
2.43.0


From 1c70c601da9047787b09ce1a22faff132bea0752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 34/59] fix: safe mapping returned None for an unknown mapping
 name

---
 src/opyenxes/info/XGlobalAttributeNameMap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index bacd9b1..4f7bde3 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -104,10 +104,10 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
             return alias
 
         elif isinstance(attribute, XAttribute) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
         elif isinstance(attribute, str) and isinstance(mapping, str):
-            return self.map_safely(attribute, self.__mappings.get(mapping))
+            return self.map_safely(attribute, self.__mappings.get(mapping, self.__standard_mapping))
 
     def register_mapping(self, mapping_name, attribute_key, alias):
         """Registers a known attribute for mapping in a given attribute name
-- 
2.43.0


From fbbf46a9a27b91332bb91850f006bf75ff4d8baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 35/59] fix: extension definitions declared all attributes on
 the log level

---
 src/opyenxes/extension/XExtensionParser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index b5530dc..ec1fd58 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -65,6 +65,7 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                     return
 
                 self.__extension = XExtension(mapping, name, x_uri)
+                self.__xAttributes = self.__extension.get_log_attributes()
 
             elif tag_name.lower() == "log":
                 self.__xAttributes = self.__extension.get_log_attributes()
@@ -76,37 +77,31 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
                 self.__xAttributes = self.__extension.get_meta_attributes()
 
             elif tag_name.lower() == "string":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_literal(mapping, "DEFAULT", self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "date":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_timestamp(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "int":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_discrete(mapping, 0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "float":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_continuous(mapping, 0.0, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "boolean":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_boolean(mapping, False, self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
 
             elif tag_name.lower() == "id":
-                self.__xAttributes = self.__extension.get_log_attributes()
                 mapping = self.__extension.get_prefix() + ':' + attributes.getValue("key")
                 self.__currentAttribute = self.__factory.create_attribute_id(mapping, XIDFactory.create_id(), self.__extension)
                 self.__xAttributes.add(self.__currentAttribute)
-- 
2.43.0


From 6538ba13067739f9f31707c04bcf75ecb1669d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 36/59] fix: reading an extension definition from a file needed
 network access

---
 src/opyenxes/extension/XExtensionParser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index ec1fd58..6e86bec 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -5,7 +5,7 @@ from xml.sax import parse as xml_parse, parseString
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
 from opyenxes.info.XGlobalAttributeNameMap import XGlobalAttributeNameMap
 from opyenxes.id.XIDFactory import XIDFactory
-from urllib import request, parse, error
+from urllib import request, parse
 import os
 
 
@@ -58,15 +58,17 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
             if tag_name.lower() == "xesextension":
                 mapping = attributes.getValue("name")
                 name = attributes.getValue("prefix")
-                x_uri = parse.urlparse(attributes.getValue("uri"))
                 try:
-                    request.urlopen(attributes.getValue("uri"))
-                except error.URLError:
+                    x_uri = parse.urlparse(attributes.getValue("uri"))
+                except ValueError:
                     return
 
                 self.__extension = XExtension(mapping, name, x_uri)
                 self.__xAttributes = self.__extension.get_log_attributes()
 
+            elif self.__extension is None:
+                return
+
             elif tag_name.lower() == "log":
                 self.__xAttributes = self.__extension.get_log_attributes()
             elif tag_name.lower() == "trace":
-- 
2.43.0


From 664c6b2837f33cd174cd1c539626a91a578649be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 37/59] fix: the extension cache could neither be located,
 written nor listed

---
 src/opyenxes/extension/XExtensionManager.py | 15 +++++++--------
 src/opyenxes/utils/XRuntimeUtils.py         | 10 +++++-----
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 38126af..f2b4c10 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -140,7 +140,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         uri_str = uri.geturl()
         if uri_str[-1] == "/":
-            uri_str = uri_str[(0, len(uri_str) - 1)]
+            uri_str = uri_str[0:len(uri_str) - 1]
         filename = uri_str[uri_str.rindex(chr(47)):]
         if not filename.endswith(".xesext"):
             filename += ".xesext"
@@ -149,13 +149,11 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
 
         try:
             bis = request.urlopen(uri.geturl())
-            bos = open(cache_file, "w")
-
-            file = bis.read(1024)
-            while file != b"":
-                bos.write(file)
+            with open(cache_file, "wb") as bos:
                 file = bis.read(1024)
-            bos.close()
+                while file != b"":
+                    bos.write(file)
+                    file = bis.read(1024)
             XLogging().log("Cached XES extension \\'" + uri.geturl() + "\\'",
                            XLogging.Importance.DEBUG)
 
@@ -170,7 +168,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         """
         min_modified = (lambda: int(round(time.time() * 1000)))() - 2592000000
         ext_folder = XRuntimeUtils().get_extension_cache_folder()
-        ext_files = list(filter(os.path.isfile, os.listdir(ext_folder)))
+        ext_files = [name for name in os.listdir(ext_folder)
+                     if os.path.isfile(os.path.join(ext_folder, name))]
         if len(ext_files) == 0:
             XLogging().log("Extension caching disabled (Could not access cache"
                            " directory)!",
diff --git a/src/opyenxes/utils/XRuntimeUtils.py b/src/opyenxes/utils/XRuntimeUtils.py
index dfb5440..794e1d2 100644
--- a/src/opyenxes/utils/XRuntimeUtils.py
+++ b/src/opyenxes/utils/XRuntimeUtils.py
@@ -63,16 +63,16 @@ class XRuntimeUtils:
         :return: The path of the platform-dependent OpenXES support folder.
         :rtype: str
         """
-        home_dir = os.path.expanduser(os.getenv('USERPROFILE'))
+        home_dir = os.path.expanduser("~")
         dir_name = "OpenXES"
         if self.is_running_windows():
-            os.makedirs(home_dir + "\\" + dir_name)
+            os.makedirs(home_dir + "\\" + dir_name, exist_ok=True)
             return home_dir + "\\" + dir_name + "\\"
         elif self.is_running_mac_os_x():
-            os.makedirs(home_dir + "/Library/Application Support/" + dir_name)
+            os.makedirs(home_dir + "/Library/Application Support/" + dir_name, exist_ok=True)
             return home_dir + "/Library/Application Support/" + dir_name + "/"
         else:
-            os.makedirs(home_dir + "/." + dir_name)
+            os.makedirs(home_dir + "/." + dir_name, exist_ok=True)
             return home_dir + "/." + dir_name + "/"
 
     def get_extension_cache_folder(self):
@@ -82,5 +82,5 @@ class XRuntimeUtils:
         :rtype: str
         """
         ext_folder = self.get_support_folder() + "ExtensionCache"
-        os.makedirs(ext_folder)
+        os.makedirs(ext_folder, exist_ok=True)
         return ext_folder
-- 
2.43.0


From bb201cc8e54db59a4b0d23594cbbd9987004fa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:10 +0000
Subject: [PATCH 38/59] fix: threads using a singleton class for the first time
 could get different instances

---
 src/opyenxes/utils/SingletonClassGenerator.py | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/opyenxes/utils/SingletonClassGenerator.py b/src/opyenxes/utils/SingletonClassGenerator.py
index e60aa7e..bf7b4e7 100644
--- a/src/opyenxes/utils/SingletonClassGenerator.py
+++ b/src/opyenxes/utils/SingletonClassGenerator.py
@@ -1,9 +1,29 @@
+from functools import wraps
+from threading import RLock
+
+LOCK = RLock()
+
+
+def synchronized(method):
+    """Lets only one thread at a time create an instance. All singletons share
+    one lock since creating some of them creates others.
+
+    """
+    @wraps(method)
+    def synchronized_method(*args, **kw):
+        with LOCK:
+            return method(*args, **kw)
+
+    return synchronized_method
+
+
 class XCostAmountMetaclass(type):
     """
     This Metaclass produce a singleton XCostAmount class
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XCostAmountMetaclass.instance:
             XCostAmountMetaclass.instance = super().__call__(*args, **kw)
@@ -16,6 +36,7 @@ class XCostDriverMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XCostDriverMetaclass.instance:
             XCostDriverMetaclass.instance = super().__call__(*args, **kw)
@@ -28,6 +49,7 @@ class XCostTypeMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XCostTypeMetaclass.instance:
             XCostTypeMetaclass.instance = super().__call__(*args, **kw)
@@ -40,6 +62,7 @@ class XCostExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XCostExtensionMetaclass.instance:
             XCostExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -52,6 +75,7 @@ class XConceptExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XConceptExtensionMetaclass.instance:
             XConceptExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -64,6 +88,7 @@ class XExtensionManagerMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XExtensionManagerMetaclass.instance:
             XExtensionManagerMetaclass.instance = super().__call__(*args, **kw)
@@ -76,6 +101,7 @@ class XExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XExtensionMetaclass.instance:
             XExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -88,6 +114,7 @@ class XLifecycleExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XLifecycleExtensionMetaclass.instance:
             XLifecycleExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -100,6 +127,7 @@ class XIdentityExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XIdentityExtensionMetaclass.instance:
             XIdentityExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -112,6 +140,7 @@ class XFactoryRegistryMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XFactoryRegistryMetaclass.instance:
             XFactoryRegistryMetaclass.instance = super().__call__(*args, **kw)
@@ -124,6 +153,7 @@ class XIDFactoryMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XIDFactoryMetaclass.instance:
             XIDFactoryMetaclass.instance = super().__call__(*args, **kw)
@@ -136,6 +166,7 @@ class XGlobalAttributeNameMapMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XGlobalAttributeNameMapMetaclass.instance:
             XGlobalAttributeNameMapMetaclass.instance = super().__call__(*args, **kw)
@@ -148,6 +179,7 @@ class XMicroExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XMicroExtensionMetaclass.instance:
             XMicroExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -160,6 +192,7 @@ class XTimeExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XTimeExtensionMetaclass.instance:
             XTimeExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -172,6 +205,7 @@ class XOrganizationalExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XOrganizationalExtensionMetaclass.instance:
             XOrganizationalExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -184,6 +218,7 @@ class XSemanticExtensionMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XSemanticExtensionMetaclass.instance:
             XSemanticExtensionMetaclass.instance = super().__call__(*args, **kw)
@@ -196,6 +231,7 @@ class XSerializerRegistryMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XSerializerRegistryMetaclass.instance:
             XSerializerRegistryMetaclass.instance = super().__call__(*args, **kw)
@@ -208,6 +244,7 @@ class XParserRegistryMetaclass(type):
     """
     instance = None
 
+    @synchronized
     def __call__(cls, *args, **kw):
         if not XParserRegistryMetaclass.instance:
             XParserRegistryMetaclass.instance = super().__call__(*args, **kw)
-- 
2.43.0


From 1ded3c10636eeb14cabdf7a3e7de12a51623748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:23 +0000
Subject: [PATCH 39/59] fix: infinite numbers were written in a form that XML
 Schema does not allow

---
 src/opyenxes/data_out/XesXmlSerializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index 319563f..c5663f3 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -135,7 +135,9 @@ class XesXmlSerializer:
             elif isinstance(attribute, XAttributeContinuous):
                 attribute_tag = Et.SubElement(tag, "float")
                 attribute_tag.set("key", attribute.get_key())
-                attribute_tag.set("value", str(attribute))
+                # the names XML Schema gives to infinity and not-a-number
+                attribute_tag.set("value", {"inf": "INF", "-inf": "-INF", "nan": "NaN"}.get(
+                    str(attribute), str(attribute)))
             elif isinstance(attribute, XAttributeBoolean):
                 attribute_tag = Et.SubElement(tag, "boolean")
                 attribute_tag.set("key", attribute.get_key())
-- 
2.43.0


From de09df30cc930958c47e0fad92da1ec371ab8683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:23 +0000
Subject: [PATCH 40/59] fix: the MXML parser read the unknown event type
 UNKNOWN as unknown

---
 src/opyenxes/data_in/XMxmlParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index 8a0bb9e..c48d2f4 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -181,7 +181,7 @@ class XMxmlParser:
                     if unknown_type:
                         self.__eventTypeAttribute.set_value(unknown_type)
                     else:
-                        self.__eventTypeAttribute.set_value("UNKNOWN")
+                        self.__eventTypeAttribute.set_value(None)
 
                     self.__add_model_reference__(attributes, self.__eventTypeAttribute)
 
@@ -253,7 +253,7 @@ class XMxmlParser:
                     self.__genericAttribute = None
 
                 elif tag_name == "EventType":
-                    if self.__eventTypeAttribute.get_value() == "UNKNOWN":
+                    if self.__eventTypeAttribute.get_value() is None:
                         originator = "".join(self.__buffer).strip()
                         if len(originator) > 0:
                             self.__eventTypeAttribute.set_value(originator)
-- 
2.43.0


From d5a703f24806685f1ba5a285b4749c338e896dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:56 +0000
Subject: [PATCH 41/59] fix: extension definition files were decoded with the
 locale's encoding instead of their own

---
 src/opyenxes/extension/XExtensionParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionParser.py b/src/opyenxes/extension/XExtensionParser.py
index 6e86bec..78a0871 100644
--- a/src/opyenxes/extension/XExtensionParser.py
+++ b/src/opyenxes/extension/XExtensionParser.py
@@ -137,7 +137,7 @@ class XExtensionParser(metaclass=XExtensionMetaclass):
         """
         handler = XExtensionParser.XExtensionHandler()
         if os.path.isfile(file):
-            with open(file) as data:
+            with open(file, "rb") as data:
                 xml_parse(data, handler)
 
         elif not os.path.isdir(file):
-- 
2.43.0


From a86b0b7ab3c5dbd2860e92b1d8727ac53c87f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:12 +0000
Subject: [PATCH 42/59] fix: a timer that was not started explicitly counted
 from the import of its module

---
 src/opyenxes/utils/XTimer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XTimer.py b/src/opyenxes/utils/XTimer.py
index 9be2201..8fc04fa 100644
--- a/src/opyenxes/utils/XTimer.py
+++ b/src/opyenxes/utils/XTimer.py
@@ -12,9 +12,9 @@ class XTimer:
     HOUR_MILLIS = 3600000
     MINUTE_MILLIS = 60000
     SECOND_MILLIS = 1000
-    __start = time.time() * 1000
 
     def __init__(self):
+        self.__start = time.time() * 1000
         self.__stop = self.__start
 
     def start(self):
-- 
2.43.0


From 586b5f80956daeacf5c1c2dfe617607c2fa68208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:23 +0000
Subject: [PATCH 43/59] fix: the time extension hands out a copy of its
 attribute definition, like the others

---
 src/opyenxes/extension/std/XTimeExtension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/std/XTimeExtension.py b/src/opyenxes/extension/std/XTimeExtension.py
index 7b8961a..87f0861 100644
--- a/src/opyenxes/extension/std/XTimeExtension.py
+++ b/src/opyenxes/extension/std/XTimeExtension.py
@@ -19,7 +19,7 @@ class XTimeExtension(XExtension, metaclass=XTimeExtensionMetaclass):
 
         self.ATTR_TIMESTAMP = factory.create_attribute_timestamp("time:timestamp", 0, self)
 
-        self.get_event_attributes().add(self.ATTR_TIMESTAMP)
+        self.get_event_attributes().add(self.ATTR_TIMESTAMP.clone())
 
         XGlobalAttributeNameMap().register_mapping("EN", "time:timestamp", "Timestamp")
         XGlobalAttributeNameMap().register_mapping("DE", "time:timestamp", "Zeitstempel")
-- 
2.43.0


From 8c3db332d9482fee4d374036b80ab31fac7e62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:11 +0000
Subject: [PATCH 44/59] fix: logs written to a text file that is not UTF-8
 could not be written or read back

---
 src/opyenxes/data_out/XMxmlSerializer.py  | 3 ++-
 src/opyenxes/data_out/XesXmlSerializer.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index b9f6606..0c76fd0 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -130,7 +130,8 @@ class XMxmlSerializer:
         if in_bytes:
             out.write(text.encode())
         else:
-            out.write(text)
+            # whatever encoding the text file has, the document is read as UTF-8
+            out.write(text.encode("ascii", "xmlcharrefreplace").decode("ascii"))
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index c5663f3..e2fbaf1 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -95,7 +95,8 @@ class XesXmlSerializer:
         if in_bytes:
             out.write(text.encode())
         else:
-            out.write(text)
+            # whatever encoding the text file has, the document is read as UTF-8
+            out.write(text.encode("ascii", "xmlcharrefreplace").decode("ascii"))
 
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
-- 
2.43.0


From 167331080d7ab7b0478122349aa19051d7df13bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:33 +0000
Subject: [PATCH 45/59] fix: a logging listener that was set never heard the
 messages of the library

---
 src/opyenxes/log/XLogging.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/log/XLogging.py b/src/opyenxes/log/XLogging.py
index 7e6fa7f..9b2db48 100644
--- a/src/opyenxes/log/XLogging.py
+++ b/src/opyenxes/log/XLogging.py
@@ -6,8 +6,7 @@ class XLogging:
     Used for debugging.
 
     """
-    def __init__(self):
-        self.__listener = XStdOutLoggingListener()
+    __listener = XStdOutLoggingListener()
 
     def set_listener(self, listener):
         """Sets a new logging listener.
@@ -15,7 +14,7 @@ class XLogging:
         :param listener: New logging listener.
         :type listener: `XStdOutLoggingListener`
         """
-        self.__listener = listener
+        XLogging.__listener = listener
 
     def log(self, message, importance=None):
         """Logs the given message with debug importance.
@@ -26,8 +25,8 @@ class XLogging:
         if importance is None:
             self.log(message, "DEBUG")
 
-        elif self.__listener is not None:
-            self.__listener.log(message, importance)
+        elif XLogging.__listener is not None:
+            XLogging.__listener.log(message, importance)
 
     class Importance:
         """Defines the importance of logging messages.
-- 
2.43.0


From fdab53bac18d068952910005cec1e6d6544bed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:13 +0000
Subject: [PATCH 46/59] fix: the end of a day written as 24:00:00 was refused
 as a date

---
 src/opyenxes/utils/XsDateTimeConversion.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 02719c3..8fc4da4 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -34,6 +34,13 @@ def parse_date_time(date_time):
             hours = 0
             minute = 0
 
+        midnight = timedelta()
+        day, _, clock = value.partition("T")
+        if clock.startswith("24:00:00") and clock[8:].strip(".0") == "":
+            # the end of a day, which datetime knows as the start of the next
+            value = day + "T00" + clock[2:]
+            midnight = timedelta(days=1)
+
         if '.' in value:
             # datetime keeps microseconds, XML Schema allows more digits
             seconds, fraction = value.split(".", 1)
@@ -43,7 +50,7 @@ def parse_date_time(date_time):
         else:
             time = datetime.strptime(value, "%Y-%m-%dT%H:%M:%S")
 
-        time = time.replace(tzinfo=timezone(timedelta(minutes=int(minute), hours=int(hours))))
+        time = time.replace(tzinfo=timezone(timedelta(minutes=int(minute), hours=int(hours)))) + midnight
         return time
 
     except (ValueError, OverflowError):
-- 
2.43.0


From f6e7b32ec62acd37462223535362cbfe669adb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 47/59] fix: write all of a document to an unbuffered file

---
 src/opyenxes/data_out/XMxmlSerializer.py  | 7 ++++++-
 src/opyenxes/data_out/XesXmlSerializer.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 0c76fd0..9e4bb73 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -1,4 +1,5 @@
 from opyenxes.log.XLogging import XLogging
+from io import RawIOBase
 import time
 import xml.etree.ElementTree as Et
 from opyenxes.extension.std.XConceptExtension import XConceptExtension
@@ -128,7 +129,11 @@ class XMxmlSerializer:
             ""])
 
         if in_bytes:
-            out.write(text.encode())
+            data = text.encode()
+            written = out.write(data)
+            # an unbuffered file may take less than it is given
+            while isinstance(out, RawIOBase) and written < len(data):
+                written += out.write(data[written:])
         else:
             # whatever encoding the text file has, the document is read as UTF-8
             out.write(text.encode("ascii", "xmlcharrefreplace").decode("ascii"))
diff --git a/src/opyenxes/data_out/XesXmlSerializer.py b/src/opyenxes/data_out/XesXmlSerializer.py
index e2fbaf1..c591fa0 100644
--- a/src/opyenxes/data_out/XesXmlSerializer.py
+++ b/src/opyenxes/data_out/XesXmlSerializer.py
@@ -1,4 +1,5 @@
 from opyenxes.log.XLogging import XLogging
+from io import RawIOBase
 import time
 import xml.etree.ElementTree as Et
 from opyenxes.classification.XEventAttributeClassifier import XEventAttributeClassifier
@@ -93,7 +94,11 @@ class XesXmlSerializer:
             ""])
 
         if in_bytes:
-            out.write(text.encode())
+            data = text.encode()
+            written = out.write(data)
+            # an unbuffered file may take less than it is given
+            while isinstance(out, RawIOBase) and written < len(data):
+                written += out.write(data[written:])
         else:
             # whatever encoding the text file has, the document is read as UTF-8
             out.write(text.encode("ascii", "xmlcharrefreplace").decode("ascii"))
-- 
2.43.0


From 0ef4386e5f22857556cedcd17b621f388f353fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 48/59] fix: MXML could not be written for a name, transition,
 originator or reference that is not a literal

---
 src/opyenxes/data_out/XMxmlSerializer.py | 33 +++++++++++++++++-------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/opyenxes/data_out/XMxmlSerializer.py b/src/opyenxes/data_out/XMxmlSerializer.py
index 9e4bb73..166d14a 100644
--- a/src/opyenxes/data_out/XMxmlSerializer.py
+++ b/src/opyenxes/data_out/XMxmlSerializer.py
@@ -2,7 +2,6 @@ from opyenxes.log.XLogging import XLogging
 from io import RawIOBase
 import time
 import xml.etree.ElementTree as Et
-from opyenxes.extension.std.XConceptExtension import XConceptExtension
 
 
 class XMxmlSerializer:
@@ -53,12 +52,12 @@ class XMxmlSerializer:
         source.set("program", "XES MXML serialization")
         source.set("openxes.version", "1.0RC7")
         process = Et.SubElement(root, "Process")
-        identity = XConceptExtension().extract_name(log)
+        identity = self.__text(log, "concept:name")
         if identity is None:
             process.set("id", "none")
         else:
             process.set("id", identity)
-        name = XConceptExtension().extract_name(log)
+        name = self.__text(log, "concept:name")
         if name is None:
             name = "None"
         process.set("description", "process with id " + name)
@@ -67,11 +66,11 @@ class XMxmlSerializer:
 
         for trace in log:
             instance = Et.SubElement(process, "ProcessInstance")
-            identity = XConceptExtension().extract_name(trace)
+            identity = self.__text(trace, "concept:name")
             if identity is None:
                 identity = "None"
             instance.set("id", identity)
-            name = XConceptExtension().extract_name(trace)
+            name = self.__text(trace, "concept:name")
             if name is None:
                 name = "None"
             instance.set("description", "instance with id " + name)
@@ -83,17 +82,17 @@ class XMxmlSerializer:
                 self.add_attribute(ate, event.get_attributes().values())
                 workflow_mode = Et.SubElement(ate, "WorkflowModelElement")
                 self.add_model_reference(event, workflow_mode)
-                workflow_mode.text = XConceptExtension().extract_name(event)
+                workflow_mode.text = self.__text(event, "concept:name")
                 type_ = Et.SubElement(ate, "EventType")
                 type_attr = event.get_attributes().get("lifecycle:transition")
 
                 if type_attr:
                     self.add_model_reference(type_attr, type_)
-                    originator_attr = type_attr.get_value().strip().lower()
+                    originator_attr = str(type_attr).strip().lower()
                     if originator_attr in self.__known_types:
                         type_.text = originator_attr
                     else:
-                        type_.set("unknowntype", type_attr.get_value())
+                        type_.set("unknowntype", str(type_attr))
                         type_.text = "unknown"
 
                 else:
@@ -109,7 +108,7 @@ class XMxmlSerializer:
                 if originator_attr_1 is not None:
                     timestamp_attr = Et.SubElement(ate, "Originator")
                     self.add_model_reference(originator_attr_1, timestamp_attr)
-                    timestamp_attr.text = (originator_attr_1.get_value())
+                    timestamp_attr.text = str(originator_attr_1)
 
                 timestamp_attr_1 = event.get_attributes().get("time:timestamp")
                 if timestamp_attr_1:
@@ -141,6 +140,20 @@ class XMxmlSerializer:
         duration1 = " (" + str(time.time() * 1000 - start) + " msec.)"
         XLogging().log("finished serializing log" + duration1, XLogging.Importance.DEBUG)
 
+    @staticmethod
+    def __text(element, key):
+        """Helper method, the text of an attribute of any type.
+
+        :param element: Attributable element.
+        :type element: `XAttributable`
+        :param key: The key of the attribute.
+        :type key: str
+        :return: Text of the attribute, None if there is no such attribute.
+        :rtype: str or None
+        """
+        attribute = element.get_attributes().get(key)
+        return None if attribute is None else str(attribute)
+
     def add_attribute(self, tag, attributes, key_prefix=None):
         """Helper method, adds attributes to a tag.
 
@@ -185,4 +198,4 @@ class XMxmlSerializer:
         """
         model_ref_attr = element.get_attributes().get("semantic:modelReference")
         if model_ref_attr:
-            target.set("modelReference", model_ref_attr.get_value())
+            target.set("modelReference", str(model_ref_attr))
-- 
2.43.0


From 6524f849bf879a7af6f0774b0e680c75ca9b419b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:12 +0000
Subject: [PATCH 49/59] fix: all logs read from MXML shared their classifiers

---
 src/opyenxes/data_in/XMxmlParser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/data_in/XMxmlParser.py b/src/opyenxes/data_in/XMxmlParser.py
index c48d2f4..ca8b371 100644
--- a/src/opyenxes/data_in/XMxmlParser.py
+++ b/src/opyenxes/data_in/XMxmlParser.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from xml.sax.handler import ContentHandler
 from xml.sax import parse as xml_parse
 from opyenxes.factory.XFactoryRegistry import XFactoryRegistry
@@ -206,7 +207,7 @@ class XMxmlParser:
                     XLogging().log("LogData: The log file you have loaded is not MXML compliant! (error compensated transparently)", XLogging.Importance.ERROR)
 
             elif tag_name == "Process":
-                self.__currentProcess.get_classifiers().extend(XMxmlParser.MXML_CLASSIFIERS)
+                self.__currentProcess.get_classifiers().extend(deepcopy(XMxmlParser.MXML_CLASSIFIERS))
                 self.__currentProcess.get_global_trace_attributes().append(XConceptExtension().ATTR_NAME.clone())
                 self.__currentProcess.get_global_event_attributes().append(XConceptExtension().ATTR_NAME.clone())
                 self.__currentProcess.get_global_event_attributes().append(XLifecycleExtension().ATTR_TRANSITION.clone())
-- 
2.43.0


From 9899cebf49eda9e6b524eb69dd0883ba1fff0583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 50/59] fix: a timer stopped at the clock reading of its start
 went on running

---
 src/opyenxes/utils/XTimer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/utils/XTimer.py b/src/opyenxes/utils/XTimer.py
index 8fc04fa..97ac999 100644
--- a/src/opyenxes/utils/XTimer.py
+++ b/src/opyenxes/utils/XTimer.py
@@ -15,14 +15,14 @@ class XTimer:
 
     def __init__(self):
         self.__start = time.time() * 1000
-        self.__stop = self.__start
+        self.__stop = None
 
     def start(self):
         """Starts the timer.
 
         """
         self.__start = time.time() * 1000
-        self.__stop = self.__start
+        self.__stop = None
 
     def stop(self):
         """Stops the timer (takes time).
@@ -36,8 +36,8 @@ class XTimer:
         :return: Runtime between start (or creation of timer) and stop, in milliseconds.
         :rtype: int
         """
-        if self.__start == self.__stop:
-            return time.time() * 1000 - self.__stop
+        if self.__stop is None:
+            return time.time() * 1000 - self.__start
         return self.__stop - self.__start
 
     def get_duration_string(self):
-- 
2.43.0


From 8e0583f21f8b392cbaedc9ee96237755f244179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 51/59] fix: dates between white space, which xs:dateTime
 allows, were not read

---
 src/opyenxes/utils/XsDateTimeConversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 8fc4da4..1cb3b9c 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -10,7 +10,7 @@ def parse_date_time(date_time):
         :rtype: datetime
         """
     try:
-        value = date_time
+        value = date_time.strip()
         relative_zone = ""
         if "Z" in value:
             value = value.replace("Z", "")
-- 
2.43.0


From 1d1eed051e520356be2db636737ea51e514ec93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 52/59] fix: caching an extension raised what is wrong with the
 HTTP response

---
 src/opyenxes/extension/XExtensionManager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index f2b4c10..d359d85 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -10,6 +10,7 @@ from opyenxes.extension.XExtensionParser import XExtensionParser
 from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
+from http.client import HTTPException
 from urllib import request
 import os
 import time
@@ -157,8 +158,8 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
             XLogging().log("Cached XES extension \\'" + uri.geturl() + "\\'",
                            XLogging.Importance.DEBUG)
 
-        except IOError as e:
-            print("I/O error({0}): {1}".format(e.errno, e.strerror))
+        except (IOError, HTTPException) as e:
+            print("I/O error: {!r}".format(e))
 
     def load_extension_cache(self):
         """Loads all extensions stored in the local cache. Cached extensions
-- 
2.43.0


From e4bae7631e45fb5e893fa929b567f6935492088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:55 +0000
Subject: [PATCH 53/59] fix: timestamps were compared by their wall clock, and
 not without a zone

---
 src/opyenxes/info/XTimeBounds.py           | 13 ++++---------
 src/opyenxes/model/XAttributeTimestamp.py  |  7 ++++---
 src/opyenxes/model/XTrace.py               |  5 +++--
 src/opyenxes/utils/XsDateTimeConversion.py | 15 +++++++++++++++
 4 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/opyenxes/info/XTimeBounds.py b/src/opyenxes/info/XTimeBounds.py
index 0be263d..290386e 100644
--- a/src/opyenxes/info/XTimeBounds.py
+++ b/src/opyenxes/info/XTimeBounds.py
@@ -1,6 +1,7 @@
 from datetime import datetime
 from opyenxes.model.XEvent import XEvent
 from opyenxes.extension.std.XTimeExtension import XTimeExtension
+from opyenxes.utils.XsDateTimeConversion import instant
 
 
 class XTimeBounds:
@@ -37,13 +38,7 @@ class XTimeBounds:
         :rtype: bool
         """
         if self.__first is not None:
-            if date == self.__first:
-                return True
-            if date == self.__last:
-                return True
-            if self.__first < date < self.__last:
-                return True
-            return False
+            return instant(self.__first) <= instant(date) <= instant(self.__last)
         return False
 
     def register(self, element):
@@ -66,9 +61,9 @@ class XTimeBounds:
                 if self.__first is None:
                     self.__first = element
                     self.__last = element
-                elif element < self.__first:
+                elif instant(element) < instant(self.__first):
                     self.__first = element
-                elif element > self.__last:
+                elif instant(element) > instant(self.__last):
                     self.__last = element
 
     def __str__(self):
diff --git a/src/opyenxes/model/XAttributeTimestamp.py b/src/opyenxes/model/XAttributeTimestamp.py
index 3b4bcb3..983f394 100644
--- a/src/opyenxes/model/XAttributeTimestamp.py
+++ b/src/opyenxes/model/XAttributeTimestamp.py
@@ -1,4 +1,5 @@
 from opyenxes.model.XAttribute import XAttribute
+from opyenxes.utils.XsDateTimeConversion import instant
 from datetime import datetime, timedelta, timezone
 
 
@@ -82,9 +83,9 @@ class XAttributeTimestamp(XAttribute):
         """
         result = super().compare_to(obj)
         if result == 0:
-            if self.__value == obj.get_value():
+            if instant(self.__value) == instant(obj.get_value()):
                 return 0
-            return 1 if self.__value > obj.get_value() else -1
+            return 1 if instant(self.__value) > instant(obj.get_value()) else -1
         return result
 
     def __hash__(self):
@@ -130,7 +131,7 @@ class XAttributeTimestamp(XAttribute):
         elif not isinstance(other, XAttributeTimestamp):
             return False
         else:
-            return super().__eq__(other) and self.__value == other.get_value()
+            return super().__eq__(other) and instant(self.__value) == instant(other.get_value())
 
     def __ne__(self, other):
         return not self.__eq__(other)
diff --git a/src/opyenxes/model/XTrace.py b/src/opyenxes/model/XTrace.py
index 5ec4f31..65e7746 100644
--- a/src/opyenxes/model/XTrace.py
+++ b/src/opyenxes/model/XTrace.py
@@ -1,4 +1,5 @@
 from opyenxes.model.XElement import XElement
+from opyenxes.utils.XsDateTimeConversion import instant
 
 
 class XTrace(XElement, list):
@@ -41,14 +42,14 @@ class XTrace(XElement, list):
             self.append(event)
             return len(self) - 1
         else:
-            ins_ts = event.get_attributes()["time:timestamp"].get_value()
+            ins_ts = instant(event.get_attributes()["time:timestamp"].get_value())
             for i in range(len(self) - 1, -1, -1):
                 my_event = self[i].get_attributes().get("time:timestamp")
                 if my_event is None:
                     self.append(event)
                     return len(self) - 1
 
-                ref_ts = my_event.get_value()
+                ref_ts = instant(my_event.get_value())
                 if ins_ts >= ref_ts:
                     self.insert(i + 1, event)
                     return i + 1
diff --git a/src/opyenxes/utils/XsDateTimeConversion.py b/src/opyenxes/utils/XsDateTimeConversion.py
index 1cb3b9c..7493d20 100644
--- a/src/opyenxes/utils/XsDateTimeConversion.py
+++ b/src/opyenxes/utils/XsDateTimeConversion.py
@@ -1,6 +1,21 @@
 from datetime import datetime, timedelta, timezone
 
 
+def instant(date):
+    """The instant a date stands for, by which dates of any zones compare.
+    datetime compares dates of one zone by their wall clock, also in the hour
+    that a change of summer time repeats, and none without a zone with others.
+
+        :param date: The date, which stands for UTC if it has no zone
+        :type date: datetime
+        :return: The time since the first date of datetime (in UTC)
+        :rtype: timedelta
+        """
+    if not isinstance(date, datetime):
+        return date
+    return date.replace(tzinfo=None) - datetime.min - (date.utcoffset() or timedelta())
+
+
 def parse_date_time(date_time):
     """Transform the date in string format to datetime format
 
-- 
2.43.0


From 8e61e14f7bd58731110ce70965fb25be8dab19e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:45 +0000
Subject: [PATCH 54/59] fix: loading the extension cache failed if an old file
 vanished or could not be removed

---
 src/opyenxes/extension/XExtensionManager.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index d359d85..7b8c9c5 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -181,10 +181,15 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
             ext_file = ext_files[i]
             if ext_file.lower().endswith(".xesext"):
                 file_name = ext_folder + os.path.sep + ext_file
-                if os.path.getmtime(file_name) * 1000 < min_modified:
-                        if os.path.exists(file_name):
-                            os.remove(file_name)
-                else:
+                try:
+                    outdated = os.path.getmtime(file_name) * 1000 < min_modified
+                    if outdated:
+                        os.remove(file_name)
+                except OSError as e:
+                    # another process has removed it, or it cannot be removed
+                    print("I/O error: {!r}".format(e))
+                    continue
+                if not outdated:
                     try:
                         extension = XExtensionParser.parse(file_name)
                         if extension.get_uri() not in self.__extension_map:
-- 
2.43.0


From acb8080f6970ba68121806ce3cdef55d2a5266d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:30 +0000
Subject: [PATCH 55/59] fix: registering by several threads at the same time
 loses no default and lists no URI twice

---
 src/opyenxes/extension/XExtensionManager.py | 3 ++-
 src/opyenxes/utils/XRegistry.py             | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 7b8c9c5..3a11c77 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -7,7 +7,7 @@ from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExten
 from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
 from opyenxes.extension.std.XTimeExtension import XTimeExtension
 from opyenxes.extension.XExtensionParser import XExtensionParser
-from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass
+from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass, synchronized
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
 from http.client import HTTPException
@@ -35,6 +35,7 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
         self.__extension_list = list()
         self.register_standard_extensions()
 
+    @synchronized
     def register(self, extension):
         """Explicitly registers an extension instance with the extension manager.
 
diff --git a/src/opyenxes/utils/XRegistry.py b/src/opyenxes/utils/XRegistry.py
index 8123b2e..d48ff14 100644
--- a/src/opyenxes/utils/XRegistry.py
+++ b/src/opyenxes/utils/XRegistry.py
@@ -1,3 +1,6 @@
+from opyenxes.utils.SingletonClassGenerator import synchronized
+
+
 class XRegistry:
     """Template implementation for a generic registry.
 
@@ -22,6 +25,7 @@ class XRegistry:
         """
         return self.__current
 
+    @synchronized
     def register(self, instance):
         """Registers a new instance with this registry.
 
@@ -33,6 +37,7 @@ class XRegistry:
             if self.__current is None:
                 self.__current = instance
 
+    @synchronized
     def set_current_default(self, instance):
         """Sets the current default instance of this registry.
 
-- 
2.43.0


From 7e6040572c8e88f1a4dc3aa49283763904748250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:28 +0000
Subject: [PATCH 56/59] fix: attribute name maps made or added by several
 threads at the same time are kept and can be listed

---
 src/opyenxes/info/XAttributeNameMap.py       | 2 +-
 src/opyenxes/info/XGlobalAttributeNameMap.py | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/opyenxes/info/XAttributeNameMap.py b/src/opyenxes/info/XAttributeNameMap.py
index 59aa2aa..179d2f4 100644
--- a/src/opyenxes/info/XAttributeNameMap.py
+++ b/src/opyenxes/info/XAttributeNameMap.py
@@ -54,7 +54,7 @@ class XAttributeNameMap:
         sb = list()
         sb.append("Attribute name map: ")
         sb.append(self.__name)
-        for key in self.__mapping.keys():
+        for key in tuple(self.__mapping.keys()):
             sb.append("\n")
             sb.append(key)
             sb.append(" -> ")
diff --git a/src/opyenxes/info/XGlobalAttributeNameMap.py b/src/opyenxes/info/XGlobalAttributeNameMap.py
index 4f7bde3..a78ca4c 100644
--- a/src/opyenxes/info/XGlobalAttributeNameMap.py
+++ b/src/opyenxes/info/XGlobalAttributeNameMap.py
@@ -39,7 +39,7 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
         :rtype: tuple
         """
         result = set()
-        for values in self.__mappings.values():
+        for values in tuple(self.__mappings.values()):
             result.add(values)
 
         return tuple(result)
@@ -57,8 +57,7 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
         """
         mapping = self.__mappings.get(name)
         if mapping is None:
-            mapping = XAttributeNameMap(name)
-            self.__mappings[name] = mapping
+            mapping = self.__mappings.setdefault(name, XAttributeNameMap(name))
 
         return mapping
 
@@ -150,7 +149,7 @@ class XGlobalAttributeNameMap(metaclass=XGlobalAttributeNameMapMetaclass):
     def __str__(self):
         sb = list()
         sb.append("Global attribute name map.\n\nContained maps:\n\n")
-        for values in self.__mappings.values():
+        for values in tuple(self.__mappings.values()):
             sb.append(str(values))
             sb.append("\n\n")
         return "".join(sb)
-- 
2.43.0


From 69e3cf4fa6f6bc8d37edda0365114e9c4a986e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:10 +0000
Subject: [PATCH 57/59] fix: loading the extension cache by several threads at
 the same time lists no extension twice

---
 src/opyenxes/extension/XExtensionManager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/opyenxes/extension/XExtensionManager.py b/src/opyenxes/extension/XExtensionManager.py
index 3a11c77..ad7994f 100644
--- a/src/opyenxes/extension/XExtensionManager.py
+++ b/src/opyenxes/extension/XExtensionManager.py
@@ -7,7 +7,7 @@ from opyenxes.extension.std.XOrganizationalExtension import XOrganizationalExten
 from opyenxes.extension.std.XSemanticExtension import XSemanticExtension
 from opyenxes.extension.std.XTimeExtension import XTimeExtension
 from opyenxes.extension.XExtensionParser import XExtensionParser
-from opyenxes.utils.SingletonClassGenerator import XExtensionManagerMetaclass, synchronized
+from opyenxes.utils.SingletonClassGenerator import LOCK, XExtensionManagerMetaclass, synchronized
 from opyenxes.utils.XRuntimeUtils import XRuntimeUtils
 from opyenxes.log.XLogging import XLogging
 from http.client import HTTPException
@@ -193,9 +193,11 @@ class XExtensionManager(metaclass=XExtensionManagerMetaclass):
                 if not outdated:
                     try:
                         extension = XExtensionParser.parse(file_name)
-                        if extension.get_uri() not in self.__extension_map:
-                            self.__extension_map[extension.get_uri()] = extension
-                            self.__extension_list.append(extension)
+                        with LOCK:
+                            new = extension.get_uri() not in self.__extension_map
+                            if new:
+                                self.register(extension)
+                        if new:
                             XLogging().log("Loaded XES extension \'" +
                                            extension.get_uri().geturl() +
                                            "\' from cache",
-- 
2.43.0


From fd09313518fe8ac60f8a0fbed5a58191818d4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:42 +0000
Subject: [PATCH 58/59] fix: a log asked for summaries by several threads does
 not keep one for another classifier

---
 src/opyenxes/model/XLog.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/opyenxes/model/XLog.py b/src/opyenxes/model/XLog.py
index 94f2277..5941a4a 100644
--- a/src/opyenxes/model/XLog.py
+++ b/src/opyenxes/model/XLog.py
@@ -15,8 +15,7 @@ class XLog(XElement, list):
         self.__classifiers = []
         self.__globalTraceAttributes = []
         self.__globalEventAttributes = []
-        self.__cachedClassifier = None
-        self.__cachedInfo = None
+        self.__cachedInfo = (None, None)
         self.__features = {}
         self.__extension = set()
 
@@ -109,8 +108,7 @@ class XLog(XElement, list):
         :param info: The given info.
         :type info: `XLogInfo`
         """
-        self.__cachedClassifier = classifier
-        self.__cachedInfo = info
+        self.__cachedInfo = (classifier, info)
 
     def get_info(self, classifier):
         """Returns the cached info for the given classifier, null if not available.
@@ -120,8 +118,9 @@ class XLog(XElement, list):
         :return: The cached info for the given classifier, null if not available
         :rtype: `XLogInfo` or None
         """
-        if classifier == self.__cachedClassifier:
-            return self.__cachedInfo
+        cached_classifier, info = self.__cachedInfo
+        if classifier == cached_classifier:
+            return info
         return None
 
     def append(self, p_object):
-- 
2.43.0


From fe12d0f3769ba492d7040d86a1bccc3c25c12bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:59 +0000
Subject: [PATCH 59/59] fix: time boundaries of traces whose events are equal

---
 src/opyenxes/info/XLogInfo.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/opyenxes/info/XLogInfo.py b/src/opyenxes/info/XLogInfo.py
index 95db156..14c217e 100644
--- a/src/opyenxes/info/XLogInfo.py
+++ b/src/opyenxes/info/XLogInfo.py
@@ -88,7 +88,8 @@ class XLogInfo:
 
                 trace_bounds.register(event)
 
-            self.__trace_boundaries[trace] = trace_bounds
+            # traces with equal events are equal, also if their times are not
+            self.__trace_boundaries.setdefault(trace, []).append((trace, trace_bounds))
             self.__log_boundaries.register(trace_bounds)
 
         for classes in self.__event_classes.values():
@@ -198,7 +199,11 @@ class XLogInfo:
         :return: Timestamp boundaries for the indicated trace.
         :rtype: `XTimeBounds`
         """
-        return self.__trace_boundaries.get(trace)
+        candidates = self.__trace_boundaries.get(trace, [])
+        for candidate, trace_bounds in candidates:
+            if candidate is trace:
+                return trace_bounds
+        return candidates[-1][1] if candidates else None
 
     def get_log_attribute_info(self):
         """Retrieves attribute information about all attributes this log
-- 
2.43.0

