From 66143238f57567f182bdd6001e27a0546aa84824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 01/82] fix: render xsd.Content as the text of its element

---
 soapfish/xsd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8078115..7b5dcd3 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -745,6 +745,11 @@ class Content(Ref):
     def empty_value(self):
         return None
 
+    def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
+        self._evaluate_type()
+        if value is not None:
+            parent.text = self._type.xmlvalue(value)
+
 
 class TypedList(list):
     def __init__(self, element):
-- 
2.43.0


From 65679b1810ce4baa36ec53d87bd48810451cfa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 02/82] fix: give every instance its own group for xsd.Ref
 fields

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 7b5dcd3..32dbfbf 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -27,7 +27,6 @@ Design Decision Log.
 For information on XML schema validation, see https://lxml.de/validation.html#xmlschema
 """
 
-import copy
 import decimal
 import enum
 import functools
@@ -720,11 +719,12 @@ class Ref(Element):
 
     def empty_value(self):
         self._evaluate_type()
-        return copy.copy(self._type)
+        return self._type.__class__()
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
+        self._evaluate_type()
         if value is None:
-            if self._required:
+            if self._minOccurs:
                 raise ValueError('Value None is not acceptable for required field.')
             else:
                 return
-- 
2.43.0


From 5afe9392abbd112994a83b1b6f86d479664c52c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 03/82] fix: parse references to complex types from their own
 sub-element

---
 soapfish/xsd.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 32dbfbf..fc0651d 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -738,6 +738,15 @@ class Ref(Element):
         self._type.render(ref_element, value, namespace, elementFormDefault)
         parent.append(ref_element)
 
+    def parse(self, instance, field_name, xmlelement):
+        self._evaluate_type()
+        if isinstance(self._type, ComplexType) and not isinstance(self._type, Group):
+            # Everything but a group is rendered as a sub-element.
+            for subelement in instance._find_subelement(self, xmlelement):
+                super().parse(instance, field_name, subelement)
+        else:
+            super().parse(instance, field_name, xmlelement)
+
 
 class Content(Ref):
     """Direct access to element.text. Note that <> will be escaped."""
-- 
2.43.0


From 2e279eb44d60c7dda40c57d35278dd0d92fb43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 04/82] fix: treat xsi:nil the same way for single and repeated
 elements

---
 soapfish/xsd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index fc0651d..fff2caf 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -49,6 +49,11 @@ NIL = object()
 UNBOUNDED = decimal.Decimal('infinity')
 
 
+def is_nil(xmlelement):
+    """Return whether the element is explicitly marked as nil (both lexical forms of xsd:boolean are allowed)."""
+    return xmlelement.get(f'{{{ns.xsi}}}nil', '').strip() in ('true', '1')
+
+
 class CallStyle(str, enum.Enum):
     DOCUMENT = 'document'
     RPC = 'rpc'
@@ -619,7 +624,7 @@ class Element:
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') == 'true' else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         setattr(instance, field_name, value)
 
     def __repr__(self):
@@ -831,7 +836,7 @@ class ListElement(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         _list = getattr(instance, field_name)
         _list.append(value)
 
-- 
2.43.0


From 7901a8cfe394b0967d8204b5cd4ceec3dc91ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 05/82] fix: parse the member of a choice from its enclosing
 element

---
 soapfish/xsd.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index fff2caf..a609bbb 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -981,18 +981,18 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         for attribute in instance._meta.attributes:
             attribute.parse(instance, attribute._name, xmlelement)
 
-        is_choice = (instance._meta.cls.INDICATOR == Choice)
+        found = False
         for field in instance._meta.fields:
-            if is_choice:
-                if not cls._is_matching_element(field, xmlelement):
-                    continue
-                subelements = [xmlelement]
-            else:
-                subelements = cls._find_subelement(field, xmlelement)
-            for subelement in subelements:
+            for subelement in cls._find_subelement(field, xmlelement):
                 field.parse(instance, field._name, subelement)
-            if is_choice:
-                break
+                found = True
+
+        if not found and instance._meta.cls.INDICATOR == Choice:
+            # The element may be the chosen member itself.
+            for field in instance._meta.fields:
+                if cls._is_matching_element(field, xmlelement):
+                    field.parse(instance, field._name, xmlelement)
+                    break
 
         for group in instance._meta.groups:
             group.parse(instance, group._name, xmlelement)
-- 
2.43.0


From beb9da8bfffa8726dedeb4d7ca1a77ac29353805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:29 +0000
Subject: [PATCH 06/82] fix: ignore processing instructions when parsing

---
 soapfish/xsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a609bbb..4f00b08 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -965,8 +965,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         def gettagns(tag):
             """Translate a tag string in a format {namespace} tag to a tuple (namespace, tag)."""
             return tag[1:].split('}', 1) if tag[0] == '{' else (None, tag)
-        if isinstance(xmlelement, etree._Comment):
-            return False
+        if not isinstance(xmlelement.tag, str):
+            return False  # Neither comments nor processing instructions are elements.
         ns, tag = gettagns(xmlelement.tag)
         return tag == field._name or tag == field.tagname
 
-- 
2.43.0


From eafca2dce2cfabf986d0f6646a0c7717cf00c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 07/82] fix: read the whole text of elements interrupted by
 comments

---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 4f00b08..4f2ad1f 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -113,7 +113,9 @@ class SimpleType(Type):
         parent.text = self.xmlvalue(value)
 
     def parse_xmlelement(self, xmlelement):
-        return self.pythonvalue(xmlelement.text)
+        # Comments and processing instructions split the text but are not part of it.
+        text = [xmlelement.text] + [child.tail for child in xmlelement if not isinstance(child.tag, str)]
+        return self.pythonvalue(''.join(filter(None, text)) or None)
 
     def xmlvalue(self, value):
         raise NotImplementedError
-- 
2.43.0


From 0b5f0f2d0debbd2326f6dcb5edcc7dc534b184c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 08/82] fix: match sub-elements by their declared tag name only

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 4f2ad1f..3f855a6 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -970,7 +970,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if not isinstance(xmlelement.tag, str):
             return False  # Neither comments nor processing instructions are elements.
         ns, tag = gettagns(xmlelement.tag)
-        return tag == field._name or tag == field.tagname
+        return tag == (field.tagname or field._name)
 
     @classmethod
     def _find_subelement(cls, field, xmlelement):
-- 
2.43.0


From c3a3e82de60a006510148fa63254db01e5dc800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 09/82] fix: use the tag name and the default of attributes
 consistently

---
 soapfish/py2xsd.py | 2 +-
 soapfish/xsd.py    | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 320c689..a9bbcef 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -36,7 +36,7 @@ def get_xsd_type(_type):
 
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
-    xsdattr.name = attribute._name
+    xsdattr.name = attribute.tagname if attribute.tagname else attribute._name
     xsdattr.use = attribute.use
     xsdattr.type = get_xsd_type(attribute._type)
     return xsdattr
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 3f855a6..3e82009 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -691,10 +691,8 @@ class Attribute(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        xmlvalue = xmlelement.get(field_name)
-        if xmlvalue is None:
-            xmlvalue = self.default
-        value = self._type.pythonvalue(xmlvalue)
+        xmlvalue = xmlelement.get(self.tagname or field_name)
+        value = self.default if xmlvalue is None else self._type.pythonvalue(xmlvalue)
         setattr(instance, field_name, value)
 
 
-- 
2.43.0


From c75828f86dacc3ce4d531b216543f5d0930ab23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 10/82] fix: match the whole value against pattern facets

---
 soapfish/xsd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 3e82009..bbee3eb 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -158,8 +158,7 @@ class String(SimpleType):
         value = self._clean_whitespace(value)
 
         if self.pattern:
-            pattern = self.pattern + '$'
-            if re.match(pattern, value) is None:
+            if re.fullmatch(self.pattern, value) is None:
                 raise ValueError(f"Value '{value}' doesn't match pattern '{self.pattern}'")
 
         if self.enumeration:
@@ -386,8 +385,7 @@ class Decimal(SimpleType):
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            pattern = self.pattern + '$'
-            if re.match(pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, str(value)) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-- 
2.43.0


From 17473e8c4578e0af04076eca71d96dab4237af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 11/82] fix: enforce length facets of zero

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index bbee3eb..caa3d35 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -165,15 +165,15 @@ class String(SimpleType):
             if not (value in self.enumeration):
                 raise ValueError(f"Value '{value}' not in list {self.enumeration}.")
 
-        if self.length:
+        if self.length is not None:
             if len(value) != self.length:
                 raise ValueError(f"Value '{value}' length {self.length} expected.")
 
-        if self.minLength:
+        if self.minLength is not None:
             if len(value) < self.minLength:
                 raise ValueError(f"Value '{value}' minLength {self.minLength} expected.")
 
-        if self.maxLength:
+        if self.maxLength is not None:
             if len(value) > self.maxLength:
                 raise ValueError(f"Value '{value}' maxLength {self.maxLength} expected.")
 
-- 
2.43.0


From 3d8391177a7494e89531bfbe27342abec73df574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 12/82] fix: normalise white space as XML Schema defines it

---
 soapfish/xsd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index caa3d35..58ae787 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -190,11 +190,11 @@ class String(SimpleType):
             # do nothing, just preserve the value
             pass
         elif self.whiteSpace == 'replace':
-            # replace line feeds, tabs, spaces, and carriage returns with whitespaces
-            value = re.sub(r'[\t\r\n\s]', ' ', value)
+            # replace line feeds, tabs, and carriage returns with spaces
+            value = re.sub(r'[\t\r\n]', ' ', value)
         elif self.whiteSpace == 'collapse':
-            # clean line feeds, tabs, spaces, and carriage returns with one whitespace
-            value = re.sub(r'[\t\r\n\s]+', ' ', value)
+            # as above, then contract sequences of spaces and remove leading and trailing ones
+            value = re.sub(r'[\t\r\n ]+', ' ', value).strip(' ')
 
         return value
 
-- 
2.43.0


From 1b6d9f94e5dfb56f7f48ebecb3708496f759ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 13/82] fix: honour the facets given for numeric types and
 their subclasses

---
 soapfish/xsd.py | 49 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 58ae787..d2ed550 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -346,18 +346,36 @@ class Time(SimpleType):
 
 
 class Decimal(SimpleType):
+    # To be defined in children.
+    enumeration = None
+    fractionDigits = None
+    maxExclusive = None
+    maxInclusive = None
+    minExclusive = None
+    minInclusive = None
+    pattern = None
+    totalDigits = None
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None,
                  maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None, totalDigits=None):
-        self.enumeration = enumeration
-        self.fractionDigits = fractionDigits
-        self.maxExclusive = maxExclusive
-        self.maxInclusive = maxInclusive
-        self.minExclusive = minExclusive
-        self.minInclusive = minInclusive
-        self.pattern = pattern
-        self.totalDigits = totalDigits
+        # Override static values
+        if enumeration is not None:
+            self.enumeration = enumeration
+        if fractionDigits is not None:
+            self.fractionDigits = fractionDigits
+        if maxExclusive is not None:
+            self.maxExclusive = maxExclusive
+        if maxInclusive is not None:
+            self.maxInclusive = maxInclusive
+        if minExclusive is not None:
+            self.minExclusive = minExclusive
+        if minInclusive is not None:
+            self.minInclusive = minInclusive
+        if pattern is not None:
+            self.pattern = pattern
+        if totalDigits is not None:
+            self.totalDigits = totalDigits
 
     def _check_restrictions(self, value):
         if self.enumeration is not None and value not in self.enumeration:
@@ -447,9 +465,20 @@ class Integer(Decimal):
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
                  minInclusive=None, pattern=None, totalDigits=None):
         facets = {k: v for k, v in locals().items() if k not in {'self', '__class__'}}
-        for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
-            facets.update(c.overrides)
         super().__init__(**facets)
+        for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
+            for name, value in c.overrides.items():
+                self._tighten(name, value)
+
+    def _tighten(self, name, value):
+        """Apply a restriction of the built-in type unless the facets given for this one are stricter."""
+        current = getattr(self, name)
+        if (
+            current is None or name == 'fractionDigits'
+            or (name == 'minInclusive' and decimal.Decimal(str(current)) < value)
+            or (name == 'maxInclusive' and decimal.Decimal(str(current)) > value)
+        ):
+            setattr(self, name, value)
 
     def accept(self, value):
         if value is None:
-- 
2.43.0


From a356ce9881e2fdb15f2328693737bdbed7a70f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 14/82] fix: check and render numbers by their exact decimal
 value

---
 soapfish/xsd.py | 130 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 91 insertions(+), 39 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index d2ed550..c396d3b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -377,62 +377,85 @@ class Decimal(SimpleType):
         if totalDigits is not None:
             self.totalDigits = totalDigits
 
+    # The lexical forms of the type: special values like "INF" are only known to floating point types.
+    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)')
+
+    @staticmethod
+    def _exact(value):
+        """Return the exact value of a number (or of the text of a number) as it would be written."""
+        return value if isinstance(value, decimal.Decimal) else decimal.Decimal(str(value))
+
     def _check_restrictions(self, value):
-        if self.enumeration is not None and value not in self.enumeration:
+        exact = self._exact(value)
+        if self.enumeration is not None and exact not in map(self._exact, self.enumeration):
             raise ValueError(f'{value} not in enumeration {self.enumeration}')
 
-        if self.fractionDigits is not None:
-            strvalue = str(value)
-            if self.fractionDigits == 0:
-                if '.' in strvalue:
-                    raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
-            else:
-                if '.' not in strvalue:
-                    raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
-                fr = strvalue.split('.')[1]
-                if len(fr) != self.fractionDigits:
-                    raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
+        if self.fractionDigits is not None and exact.is_finite():
+            fractionDigits = int(self.fractionDigits)
+            if fractionDigits == 0:
+                if exact != exact.to_integral_value():
+                    raise ValueError(f'Wrong fraction digits for value {value} allowed {fractionDigits}')
+            elif -exact.as_tuple().exponent != fractionDigits:
+                raise ValueError(f'Wrong fraction digits for value {value} allowed {fractionDigits}')
 
-        if self.maxExclusive is not None and value >= self.maxExclusive:
+        # Please note that NaN is not comparable with any boundary.
+        if self.maxExclusive is not None and not self._compare(exact, '<', self.maxExclusive):
             raise ValueError(f'Value {value} greater or equal to maxExclusive {self.maxExclusive}')
-        if self.maxInclusive is not None and value > self.maxInclusive:
+        if self.maxInclusive is not None and not self._compare(exact, '<=', self.maxInclusive):
             raise ValueError(f'Value {value} greater than maxInclusive {self.maxInclusive}')
-        if self.minExclusive is not None and value <= self.minExclusive:
+        if self.minExclusive is not None and not self._compare(exact, '>', self.minExclusive):
             raise ValueError(f'Value {value} smaller or equal to minExclusive {self.minExclusive}')
-        if self.minInclusive is not None and value < self.minInclusive:
+        if self.minInclusive is not None and not self._compare(exact, '>=', self.minInclusive):
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            if re.fullmatch(self.pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, self.xmlvalue(value)) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
-        if self.totalDigits is not None:
-            strvalue = str(value)
-            length = len(strvalue)
-            if '.' in strvalue:
-                length -= 1
-            if length > self.totalDigits:
-                raise ValueError(f'Number of total digits of {strvalue} is bigger than {self.totalDigits}.')
+        if self.totalDigits is not None and exact.is_finite():
+            digits, exponent = ''.join(map(str, exact.as_tuple().digits)), exact.as_tuple().exponent
+            # Neither leading zeros nor trailing zeros of the fraction count.
+            significant = digits.rstrip('0')
+            exponent += len(digits) - len(significant)
+            length = len(significant) + exponent if exponent > 0 else max(len(significant.lstrip('0')), -exponent)
+            if significant.strip('0') and length > int(self.totalDigits):
+                raise ValueError(f'Number of total digits of {value} is bigger than {self.totalDigits}.')
 
         return value
 
+    def _compare(self, exact, relation, boundary):
+        boundary = self._exact(boundary)
+        if exact.is_nan() or boundary.is_nan():
+            return False
+        return {
+            '<': exact < boundary, '<=': exact <= boundary, '>': exact > boundary, '>=': exact >= boundary,
+        }[relation]
+
     def accept(self, value):
         if value is None:
             return None
-        elif isinstance(value, decimal.Decimal):
-            value = str(value)
-        elif isinstance(value, (float, int)):
-            pass  # value is just value
         elif isinstance(value, str):
-            value = float(value)
-        else:
-            raise ValueError(f"Incorrect value '{value}' for Decimal field.")
+            value = self._parse(value)
+        elif isinstance(value, bool) or not isinstance(value, (float, int, decimal.Decimal)):
+            raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
 
+        if not self._exact(value).is_finite():
+            self._check_special(value)
         self._check_restrictions(value)
         return value
 
+    def _parse(self, text):
+        text = text.strip(' \t\r\n')
+        if not self.LEXICAL_REGEX.fullmatch(text):
+            raise ValueError(f"Incorrect value '{text}' for {self.__class__.__name__} field.")
+        return float(text) if '.' in text else int(text)
+
+    def _check_special(self, value):
+        raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
+
     def xmlvalue(self, value):
-        return str(value)
+        # Please note that exponents are not allowed here.
+        return format(self._exact(value), 'f')
 
     def pythonvalue(self, xmlvalue):
         if xmlvalue == 'nil':
@@ -441,7 +464,30 @@ class Decimal(SimpleType):
             return self.accept(xmlvalue)
 
 
-class Double(Decimal):
+class FloatingPoint:
+    """Lexical forms shared by xsd:double and xsd:float."""
+
+    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|-?INF|NaN')
+
+    def _parse(self, text):
+        text = text.strip(' \t\r\n')
+        if not self.LEXICAL_REGEX.fullmatch(text):
+            raise ValueError(f"Incorrect value '{text}' for {self.__class__.__name__} field.")
+        return float(text)
+
+    def _check_special(self, value):
+        pass  # Infinity and NaN are valid values.
+
+    def xmlvalue(self, value):
+        exact = self._exact(value)
+        if exact.is_nan():
+            return 'NaN'
+        elif exact.is_infinite():
+            return 'INF' if exact > 0 else '-INF'
+        return str(value)
+
+
+class Double(FloatingPoint, Decimal):
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None):
         super().__init__(
@@ -450,7 +496,7 @@ class Double(Decimal):
         )
 
 
-class Float(Decimal):
+class Float(FloatingPoint, Decimal):
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None):
         super().__init__(
@@ -460,6 +506,8 @@ class Float(Decimal):
 
 
 class Integer(Decimal):
+    LEXICAL_REGEX = re.compile(r'[-+]?[0-9]+')
+
     overrides = {'fractionDigits': 0, 'pattern': r'[-+]?[0-9]+'}
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
@@ -483,16 +531,20 @@ class Integer(Decimal):
     def accept(self, value):
         if value is None:
             return None
-        elif isinstance(value, int):
-            pass  # value is just value continue.
         elif isinstance(value, str):
-            value = int(value)
-        else:
-            raise ValueError(f"Incorrect value '{value}' for Decimal field.")
+            value = self._parse(value)
+        elif isinstance(value, bool) or not isinstance(value, int):
+            raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
 
         self._check_restrictions(value)
         return value
 
+    def _parse(self, text):
+        text = text.strip(' \t\r\n')
+        if not self.LEXICAL_REGEX.fullmatch(text):
+            raise ValueError(f"Incorrect value '{text}' for {self.__class__.__name__} field.")
+        return int(text)
+
 
 class NonNegativeInteger(Integer):
     overrides = {'minInclusive': 0}
-- 
2.43.0


From bb4658b65373686b6ee2cf2453ebc98fa9593e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 15/82] fix: render four digit years and reject invalid dates
 and offsets

---
 soapfish/xsd.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index c396d3b..ef4c949 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -234,9 +234,9 @@ class Date(SimpleType):
     #   3.2.9.2 Constraining facets
 
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
-        ^(\-)?
-        (?P<year>\d{4,})\-(?P<month>\d{2})\-(?P<day>\d{2})
-        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-9]{2})?))?$''', re.VERBOSE)
+        (?P<bc>\-)?
+        (?P<year>[0-9]{4,})\-(?P<month>[0-9]{2})\-(?P<day>[0-9]{2})
+        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-5][0-9])?))?''', re.VERBOSE)
 
     def accept(self, value):
         if value is None:
@@ -251,7 +251,8 @@ class Date(SimpleType):
         raise ValueError(f'Incorrect type value {value!r} for date field.')
 
     def xmlvalue(self, value):
-        timestring_without_tz = value.strftime('%Y-%m-%d')
+        # Please note that strftime() does not pad the year on all platforms.
+        timestring_without_tz = f'{value.year:04d}-{value.month:02d}-{value.day:02d}'
         tz = getattr(value, 'tzinfo', None)
         if not tz:
             return timestring_without_tz
@@ -263,9 +264,11 @@ class Date(SimpleType):
         if not isinstance(value, str):
             raise ValueError(f'Expected a string, not {value!r}')
 
-        match = self.YEAR_MONTH_DAY_REGEX.match(value)
+        match = self.YEAR_MONTH_DAY_REGEX.fullmatch(value.strip(' \t\r\n'))
         if match is None:
             raise ValueError(f'Unable to parse date string {value!r}')
+        if match.group('bc'):
+            raise ValueError(f'Dates before the common era are not supported: {value!r}')
         year = int(match.group('year'))
         month = int(match.group('month'))
         day = int(match.group('day'))
@@ -281,10 +284,17 @@ class Date(SimpleType):
 
         sign = 1 if match.group('tz_sign') == '+' else -1
         hours = int(match.group('tz_hour'))
-        minutes = int(match.group('tz_minute'))
+        minutes = int(match.group('tz_minute') or 0)
         return timezone(sign * timedelta(hours=hours, minutes=minutes), name='UTC' + offset)
 
 
+def parse_iso8601(value):
+    value = value.strip(' \t\r\n')
+    if re.search(r'[-+][0-9]{2}:?[6-9][0-9]$', value.partition('T')[2]):
+        raise ValueError(f'Incorrect time zone offset: {value!r}')
+    return iso8601.parse_date(value)
+
+
 class DateTime(SimpleType):
     # Example text value: 2001-10-26T21:32:52
 
@@ -294,20 +304,21 @@ class DateTime(SimpleType):
         elif isinstance(value, datetime):
             return value
         elif isinstance(value, str):
-            return iso8601.parse_date(value)
+            return parse_iso8601(value)
         raise ValueError(f"Incorrect type value '{value}' for DateTime field.")
 
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%Y-%m-%dT%H:%M:%S')
+        # Please note that strftime() does not pad the year on all platforms.
+        timestring_without_tz = f'{value.year:04d}-' + value.strftime('%m-%dT%H:%M:%S')
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
         return timestring_without_tz + timezone_offset_to_string(tz.utcoffset(value))
 
     def pythonvalue(self, value):
-        return None if value is None or value == 'nil' else iso8601.parse_date(value)
+        return None if value is None or value == 'nil' else parse_iso8601(value)
 
 
 class Time(SimpleType):
@@ -338,7 +349,7 @@ class Time(SimpleType):
     def _parse(value):
         # Horrible hacky approach to implement this quickly:
         try:
-            dt = iso8601.parse_date('1900-01-01T' + value)
+            dt = parse_iso8601('1900-01-01T' + value.strip(' \t\r\n'))
         except Exception as e:
             raise ValueError(str(e)) from e
         else:
-- 
2.43.0


From 14601b761620c6bc3252e43514a34dc3c4af8bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:46 +0000
Subject: [PATCH 16/82] fix: accept all lexical forms of xsd:boolean

---
 soapfish/xsd.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index ef4c949..427c794 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -201,8 +201,10 @@ class String(SimpleType):
 
 class Boolean(SimpleType):
     def accept(self, value):
-        if value in [True, False, None]:
-            return value
+        if value is None:
+            return None
+        elif value in [True, False]:
+            return bool(value)
         else:
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
@@ -217,11 +219,14 @@ class Boolean(SimpleType):
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
     def pythonvalue(self, value):
-        if value == 'false':
+        if value is None:
+            return None
+        value = value.strip(' \t\r\n')
+        if value in ('false', '0'):
             return False
-        elif value == 'true':
+        elif value in ('true', '1'):
             return True
-        elif value == 'nil' or value is None:
+        elif value == 'nil':
             return None
         else:
             raise ValueError(f'Boolean value error - {value}')
-- 
2.43.0


From ceefa1ddc52cebe1edab98eb55e7362d52cc8f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 17/82] fix: validate the items of a list however they are
 added

---
 soapfish/xsd.py | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 427c794..7c2fbb3 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -865,18 +865,45 @@ class TypedList(list):
         super().__init__()
         self._list = element
 
-    def append(self, value):
+    def _accept(self, value):
         self._list._evaluate_type()
         if value is NIL:
             if not self._list.nillable:
                 raise ValueError('Nil value in not nillable list.')
-            accepted_value = NIL
-        else:
-            accepted_value = self._list._type.accept(value)
-        if self._list._maxOccurs is not None and (len(self) + 1 > self._list._maxOccurs):
+            return NIL
+        return self._list._type.accept(value)
+
+    def _check_length(self, length):
+        if self._list._maxOccurs is not None and length > self._list._maxOccurs:
             raise ValueError(f'You must not add more than {self._list._maxOccurs} items to this list.')
+
+    def append(self, value):
+        accepted_value = self._accept(value)
+        self._check_length(len(self) + 1)
         super().append(accepted_value)
 
+    def insert(self, index, value):
+        accepted_value = self._accept(value)
+        self._check_length(len(self) + 1)
+        super().insert(index, accepted_value)
+
+    def extend(self, values):
+        accepted_values = [self._accept(value) for value in values]
+        self._check_length(len(self) + len(accepted_values))
+        super().extend(accepted_values)
+
+    def __iadd__(self, values):
+        self.extend(values)
+        return self
+
+    def __setitem__(self, key, value):
+        if isinstance(key, slice):
+            accepted = [self._accept(item) for item in value]
+            self._check_length(len(self) - len(self[key]) + len(accepted))
+        else:
+            accepted = self._accept(value)
+        super().__setitem__(key, accepted)
+
 
 class ListElement(Element):
     """
@@ -901,7 +928,11 @@ class ListElement(Element):
         self._minOccurs = minOccurs
 
     def accept(self, value):
-        return value
+        if value is not None and not isinstance(value, (list, tuple)):
+            raise ValueError(f"Incorrect value '{value}' for a list of elements.")
+        accepted_value = self.empty_value()
+        accepted_value.extend(value or ())
+        return accepted_value
 
     def empty_value(self):
         return TypedList(self)
-- 
2.43.0


From c534fcd4c371c390b689eeffb486e591ae5a1f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:16 +0000
Subject: [PATCH 18/82] fix: allow elements of their own (recursive) type

---
 soapfish/xsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 7c2fbb3..966eff2 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -693,6 +693,8 @@ class Element:
 
     def accept(self, value):
         """Check if the value correct from type defined in constructions."""
+        if value is None:
+            return None  # Do not evaluate the type: it may be the one which is just being instantiated.
         self._evaluate_type()
         if value is NIL:
             if self.nillable:
-- 
2.43.0


From 47635dc2c824af301d667f0db86db0be3ddc4941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 19/82] fix: return the parsed document instead of changing its
 class

---
 soapfish/xsd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 966eff2..2c7f710 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1193,7 +1193,7 @@ class Document(ComplexType):
         field = self._meta.fields[0]  # The only field.
         mockelement = Document.MockElement()
         instance = getattr(self, field._name)
-        field.render(mockelement, field._name, instance, self.NAMESPACE)
+        field.render(mockelement, field.tagname or field._name, instance, self.NAMESPACE)
         return etree.tostring(mockelement.element, pretty_print=True)
 
     # TODO: Add schema support.
@@ -1201,7 +1201,9 @@ class Document(ComplexType):
     def parsexml(cls, xml):
         field = cls._meta.fields[0]  # The only field.
         xmlelement = etree.fromstring(xml)
-        field.parse(cls, field._name, xmlelement)
+        instance = cls()
+        field.parse(instance, field._name, xmlelement)
+        return instance
 
 
 class List(SimpleType):
-- 
2.43.0


From d861b37e184388c414aeb43f21b4f1b6ba28d846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 20/82] fix: refer to all built-in types in the XSD namespace

---
 soapfish/py2xsd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index a9bbcef..363535a 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -13,10 +13,13 @@ from .utils import uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
-    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte,
+    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte, xsd.NonNegativeInteger, xsd.NonPositiveInteger,
+    xsd.NegativeInteger, xsd.PositiveInteger,
 ]
 
-STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration]
+STRING_TYPES = [
+    xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration, xsd.NMTOKEN, xsd.NMTOKENS,
+]
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
@@ -28,7 +31,9 @@ logger = logging.getLogger('soapfish')
 def get_xsd_type(_type):
     """Check if type_ is a basic type in the XSD scope otherwise it must be user defined type."""
     base_class = _type.__class__.__bases__[0]
-    if base_class == xsd.SimpleType or _type.__class__ in ALL_TYPES:
+    if _type.__class__ in (xsd.NMTOKEN, xsd.NMTOKENS):
+        return 'xsd:' + _type.__class__.__name__
+    elif base_class == xsd.SimpleType or _type.__class__ in ALL_TYPES:
         return 'xsd:' + uncapitalize(_type.__class__.__name__)
     else:
         return 'sns:' + uncapitalize(_type.__class__.__name__)
-- 
2.43.0


From 0b870f979b0b3fedde12641dc79fa61a7accd570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 21/82] fix: write all facets of simple types into the
 generated schema

---
 soapfish/py2xsd.py | 71 ++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 363535a..02a8a9b 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -39,11 +39,42 @@ def get_xsd_type(_type):
         return 'sns:' + uncapitalize(_type.__class__.__name__)
 
 
+FACETS = (
+    'pattern', 'minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive', 'fractionDigits', 'totalDigits',
+    'length', 'minLength', 'maxLength', 'whiteSpace',
+)
+
+
+def add_facets(restriction, _type, base):
+    """Add all facets of a simple type to its restriction unless they are those of the base type anyway."""
+    enumeration = getattr(_type, 'enumeration', None)
+    if enumeration and enumeration != getattr(base, 'enumeration', None):
+        for value in enumeration:
+            restriction.enumerations.append(xsdspec.Enumeration.create(_type.xmlvalue(value)))
+
+    for name in FACETS:
+        value = getattr(_type, name, None)
+        if value is None or value == getattr(base, name, None):
+            continue
+        if name == 'pattern':
+            restriction.pattern = xsdspec.Pattern(value=str(value))
+        elif name.endswith('clusive'):
+            setattr(restriction, name, xsdspec.RestrictionValue(value=_type.xmlvalue(value)))
+        else:
+            setattr(restriction, name, xsdspec.RestrictionValue(value=str(value)))
+
+
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname if attribute.tagname else attribute._name
     xsdattr.use = attribute.use
-    xsdattr.type = get_xsd_type(attribute._type)
+    if inspect.isclass(attribute._passed_type):
+        xsdattr.type = get_xsd_type(attribute._type)
+    else:
+        xsdattr.simpleType = xsdspec.SimpleType()
+        xsdattr.simpleType.restriction = xsdspec.Restriction()
+        xsdattr.simpleType.restriction.base = get_xsd_type(attribute._type)
+        add_facets(xsdattr.simpleType.restriction, attribute._type, attribute._type.__class__())
     return xsdattr
 
 
@@ -56,39 +87,11 @@ def create_xsd_element(element):
         xsd_element.maxOccurs = element._maxOccurs
 
     # SimpleType defined in place.
-    parent_type = element._type.__class__.__bases__[0]
-    _type = element._type
-
     if not inspect.isclass(element._passed_type):
         xsd_element.simpleType = xsdspec.SimpleType()
         xsd_element.simpleType.restriction = xsdspec.Restriction()
         xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
-
-        if hasattr(element._type, 'enumeration') and element._type.enumeration and parent_type == xsd.SimpleType:
-            for value in element._type.enumeration:
-                enum = xsdspec.Enumeration.create(value)
-                xsd_element.simpleType.restriction.enumerations.append(enum)
-
-        if hasattr(_type, 'fractionDigits') and _type.fractionDigits:
-            xsd_element.simpleType.restriction.fractionDigits = xsdspec.RestrictionValue(value=str(_type.fractionDigits))
-
-        if hasattr(_type, 'pattern') and _type.pattern:
-            xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
-
-        if hasattr(_type, 'minInclusive') and _type.minInclusive:
-            xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
-
-        if hasattr(_type, 'minExclusive') and _type.minExclusive:
-            xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
-
-        if hasattr(_type, 'maxExclusive') and _type.maxExclusive:
-            xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
-
-        if hasattr(_type, 'maxInclusive') and _type.maxInclusive:
-            xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
-
-        if hasattr(_type, 'totalDigits') and _type.totalDigits:
-            xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
+        add_facets(xsd_element.simpleType.restriction, element._type, element._type.__class__())
     else:
         xsd_element.type = get_xsd_type(element._type)
     return xsd_element
@@ -131,13 +134,7 @@ def xsd_simpleType(st):
     xsd_simpleType.name = uncapitalize(st.__name__)
     xsd_restriction = xsdspec.Restriction()
     xsd_restriction.base = get_xsd_type(st.__bases__[0]())
-    if hasattr(st, 'enumeration') and st.enumeration:
-        for enum in st.enumeration:
-            xsd_restriction.enumerations.append(xsdspec.Enumeration.create(enum))
-    if hasattr(st, 'fractionDigits') and st.fractionDigits:
-        xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=st.fractionDigits)
-    elif hasattr(st, 'pattern') and st.pattern:
-        xsd_restriction.pattern = xsdspec.Pattern(value=st.pattern)
+    add_facets(xsd_restriction, st(), st.__bases__[0]())
     xsd_simpleType.restriction = xsd_restriction
     return xsd_simpleType
 
-- 
2.43.0


From 9bcc79a58b36c834ecadb6ee1a848b1f6bf6e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 22/82] fix: write the occurrence bounds of lists without
 explicit bounds

---
 soapfish/py2xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 02a8a9b..c41cf85 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -84,7 +84,9 @@ def create_xsd_element(element):
     xsd_element.nillable = element.nillable
     xsd_element.minOccurs = element._minOccurs
     if hasattr(element, '_maxOccurs'):
-        xsd_element.maxOccurs = element._maxOccurs
+        # An unbounded list which may be empty is the default for lists (but not the default of XSD).
+        xsd_element.minOccurs = element._minOccurs or 0
+        xsd_element.maxOccurs = xsd.UNBOUNDED if element._maxOccurs is None else element._maxOccurs
 
     # SimpleType defined in place.
     if not inspect.isclass(element._passed_type):
-- 
2.43.0


From 2598f71ec8ed9e40bd88b5ec4a182d353581c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 23/82] fix: generate inline types and nillable for top-level
 elements

---
 soapfish/py2xsd.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index c41cf85..509cf32 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -88,15 +88,19 @@ def create_xsd_element(element):
         xsd_element.minOccurs = element._minOccurs or 0
         xsd_element.maxOccurs = xsd.UNBOUNDED if element._maxOccurs is None else element._maxOccurs
 
+    set_xsd_type(xsd_element, element)
+    return xsd_element
+
+
+def set_xsd_type(xsd_element, element):
     # SimpleType defined in place.
-    if not inspect.isclass(element._passed_type):
+    if isinstance(element._passed_type, xsd.SimpleType):
         xsd_element.simpleType = xsdspec.SimpleType()
         xsd_element.simpleType.restriction = xsdspec.Restriction()
         xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
         add_facets(xsd_element.simpleType.restriction, element._type, element._type.__class__())
     else:
         xsd_element.type = get_xsd_type(element._type)
-    return xsd_element
 
 
 def xsd_complexType(complexType, named=True):
@@ -189,10 +193,13 @@ def generate_elements(xsd_schema, schema):
             value = element.substitutionGroup
             xsd_element.substitutionGroup = value if value.startswith('sns:') else f'sns:{value}'
 
-        if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
-            xsd_element.type = get_xsd_type(element._type)
-        else:
+        if element.nillable:
+            xsd_element.nillable = True
+
+        if isinstance(element._passed_type, xsd.ComplexType) and element._type.__class__ not in schema.complexTypes:
             xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
+        else:
+            set_xsd_type(xsd_element, element)
 
         xsd_schema.elements.append(xsd_element)
 
-- 
2.43.0


From c9b84b89202c0c68c747f1fee8e96e5cf6b7400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 24/82] fix: refer to the types and elements of other schemas
 in their own namespace

---
 soapfish/py2wsdl.py | 34 ++++++++++-----------
 soapfish/py2xsd.py  | 72 +++++++++++++++++++++++++++++----------------
 2 files changed, 64 insertions(+), 42 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 1fafa64..5fc337d 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -8,9 +8,8 @@ from importlib.machinery import SourceFileLoader
 from lxml import etree
 
 from . import namespaces as ns, xsd
-from .py2xsd import generate_xsdspec
+from .py2xsd import generate_xsdspec, get_prefixes, get_xsd_type
 from .soap import SOAP_HTTP_Transport
-from .utils import uncapitalize
 from .wsdl import get_wsdl_classes
 
 logger = logging.getLogger('soapfish')
@@ -65,29 +64,31 @@ def build_portTypes(wsdl, definitions, service):
     definitions.portTypes.append(portType)
 
 
+def build_part(wsdl, service, obj):
+    prefixes = get_prefixes(service.schemas)
+    part = wsdl.Part(name='body')
+    if isinstance(obj, str):
+        element = service.find_element_by_name(obj)
+        part.element = prefixes.get(element and element.namespace, 'sns') + ':' + obj
+    else:
+        part.type = get_xsd_type(obj(), service.schemas[0], prefixes)
+    return part
+
+
 def build_messages(wsdl, definitions, service):
     for method in service.methods:
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
-        part = wsdl.Part(name='body')
-        if isinstance(method.input, str):
-            part.element = 'sns:' + method.input
-        else:
-            part.type = 'sns:' + uncapitalize(method.input.__name__)
-        inputMessage.parts = [part]
+        inputMessage.parts = [build_part(wsdl, service, method.input)]
         definitions.messages.append(inputMessage)
 
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
-        part = wsdl.Part(name='body')
-        if isinstance(method.output, str):
-            part.element = 'sns:' + method.output
-        else:
-            part.type = 'sns:' + uncapitalize(method.output.__name__)
-        outputMessage.parts = [part]
+        outputMessage.parts = [build_part(wsdl, service, method.output)]
         definitions.messages.append(outputMessage)
 
 
 def build_types(wsdl, definitions, service):
-    schemas = [generate_xsdspec(schema) for schema in service.schemas]
+    prefixes = get_prefixes(service.schemas)
+    schemas = [generate_xsdspec(schema, prefixes) for schema in service.schemas]
     definitions.types = wsdl.Types(schemas=schemas)
 
 
@@ -103,8 +104,7 @@ def generate_wsdl(service):
     xmlelement = etree.Element(
         '{%s}definitions' % ns.wsdl,
         nsmap={
-            # FIXME: Look up properly if multiple schemas...
-            'sns': service.schemas[0].targetNamespace,
+            **{prefix: namespace for namespace, prefix in get_prefixes(service.schemas).items()},
             'soap': service.version.BINDING_NAMESPACE,
             'tns': service.targetNamespace,
             'wsdl': ns.wsdl,
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 509cf32..9e8651d 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -2,6 +2,7 @@
 
 import argparse
 import inspect
+import itertools
 import logging
 import sys
 from importlib.machinery import SourceFileLoader
@@ -28,7 +29,7 @@ logger = logging.getLogger('soapfish')
 
 
 # --- Helpers -----------------------------------------------------------------
-def get_xsd_type(_type):
+def get_xsd_type(_type, schema=None, prefixes=None):
     """Check if type_ is a basic type in the XSD scope otherwise it must be user defined type."""
     base_class = _type.__class__.__bases__[0]
     if _type.__class__ in (xsd.NMTOKEN, xsd.NMTOKENS):
@@ -36,7 +37,11 @@ def get_xsd_type(_type):
     elif base_class == xsd.SimpleType or _type.__class__ in ALL_TYPES:
         return 'xsd:' + uncapitalize(_type.__class__.__name__)
     else:
-        return 'sns:' + uncapitalize(_type.__class__.__name__)
+        prefix = 'sns'
+        if schema is not None:
+            origin = getattr(_type, 'SCHEMA', None) or schema
+            prefix = prefixes.get(origin.targetNamespace, prefixes[schema.targetNamespace])
+        return prefix + ':' + uncapitalize(_type.__class__.__name__)
 
 
 FACETS = (
@@ -64,21 +69,21 @@ def add_facets(restriction, _type, base):
             setattr(restriction, name, xsdspec.RestrictionValue(value=str(value)))
 
 
-def xsd_attribute(attribute):
+def xsd_attribute(attribute, schema=None, prefixes=None):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname if attribute.tagname else attribute._name
     xsdattr.use = attribute.use
     if inspect.isclass(attribute._passed_type):
-        xsdattr.type = get_xsd_type(attribute._type)
+        xsdattr.type = get_xsd_type(attribute._type, schema, prefixes)
     else:
         xsdattr.simpleType = xsdspec.SimpleType()
         xsdattr.simpleType.restriction = xsdspec.Restriction()
-        xsdattr.simpleType.restriction.base = get_xsd_type(attribute._type)
+        xsdattr.simpleType.restriction.base = get_xsd_type(attribute._type, schema, prefixes)
         add_facets(xsdattr.simpleType.restriction, attribute._type, attribute._type.__class__())
     return xsdattr
 
 
-def create_xsd_element(element):
+def create_xsd_element(element, schema=None, prefixes=None):
     xsd_element = xsdspec.Element()
     xsd_element.name = element.tagname if element.tagname else element._name
     xsd_element.nillable = element.nillable
@@ -88,28 +93,30 @@ def create_xsd_element(element):
         xsd_element.minOccurs = element._minOccurs or 0
         xsd_element.maxOccurs = xsd.UNBOUNDED if element._maxOccurs is None else element._maxOccurs
 
-    set_xsd_type(xsd_element, element)
+    set_xsd_type(xsd_element, element, schema, prefixes)
     return xsd_element
 
 
-def set_xsd_type(xsd_element, element):
+def set_xsd_type(xsd_element, element, schema=None, prefixes=None):
     # SimpleType defined in place.
     if isinstance(element._passed_type, xsd.SimpleType):
         xsd_element.simpleType = xsdspec.SimpleType()
         xsd_element.simpleType.restriction = xsdspec.Restriction()
-        xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
+        xsd_element.simpleType.restriction.base = get_xsd_type(element._type, schema, prefixes)
         add_facets(xsd_element.simpleType.restriction, element._type, element._type.__class__())
+    elif isinstance(element._passed_type, xsd.ComplexType) and element._type.SCHEMA is None:
+        xsd_element.complexType = xsd_complexType(element._type.__class__, False, schema, prefixes)
     else:
-        xsd_element.type = get_xsd_type(element._type)
+        xsd_element.type = get_xsd_type(element._type, schema, prefixes)
 
 
-def xsd_complexType(complexType, named=True):
+def xsd_complexType(complexType, named=True, schema=None, prefixes=None):
     xsd_ct = xsdspec.XSDComplexType()
     if named:
         xsd_ct.name = uncapitalize(complexType.__name__)
 
     for attribute in complexType._meta.attributes:
-        xsd_attr = xsd_attribute(attribute)
+        xsd_attr = xsd_attribute(attribute, schema, prefixes)
         xsd_ct.attributes.append(xsd_attr)
 
     # Elements can be wrapped with few type of containers:
@@ -130,16 +137,16 @@ def xsd_complexType(complexType, named=True):
                 # unable to reproduce the error condition in a test case.
                 # Forcing type evaluation fixed the problem though.
                 element_._evaluate_type()
-            xsd_element = create_xsd_element(element_)
+            xsd_element = create_xsd_element(element_, schema, prefixes)
             container.elements.append(xsd_element)
     return xsd_ct
 
 
-def xsd_simpleType(st):
+def xsd_simpleType(st, schema=None, prefixes=None):
     xsd_simpleType = xsdspec.SimpleType()
     xsd_simpleType.name = uncapitalize(st.__name__)
     xsd_restriction = xsdspec.Restriction()
-    xsd_restriction.base = get_xsd_type(st.__bases__[0]())
+    xsd_restriction.base = get_xsd_type(st.__bases__[0](), schema, prefixes)
     add_facets(xsd_restriction, st(), st.__bases__[0]())
     xsd_simpleType.restriction = xsd_restriction
     return xsd_simpleType
@@ -164,7 +171,20 @@ def build_includes(xsd_schema, includes):
         xsd_schema.includes.append(xsd_include)
 
 
-def generate_xsdspec(schema):
+def get_prefixes(schemas):
+    """Return a prefix for the target namespace of every schema which may be referenced."""
+    prefixes = {}
+    schemas = list(schemas)
+    for schema in schemas:
+        prefixes.setdefault(schema.targetNamespace, f'ns{len(prefixes)}' if prefixes else 'sns')
+        for other in itertools.chain(schema.imports, schema.includes):
+            if not any(other is known for known in schemas):
+                schemas.append(other)
+    return prefixes
+
+
+def generate_xsdspec(schema, prefixes=None):
+    prefixes = prefixes or get_prefixes([schema])
     xsd_schema = xsdspec.Schema()
     xsd_schema.targetNamespace = schema.targetNamespace
     xsd_schema.elementFormDefault = schema.elementFormDefault
@@ -172,18 +192,18 @@ def generate_xsdspec(schema):
     build_imports(xsd_schema, schema.imports)
     build_includes(xsd_schema, schema.includes)
     for st in schema.simpleTypes:
-        xsd_st = xsd_simpleType(st)
+        xsd_st = xsd_simpleType(st, schema, prefixes)
         xsd_schema.simpleTypes.append(xsd_st)
 
     for ct in schema.complexTypes:
-        xsd_ct = xsd_complexType(ct)
+        xsd_ct = xsd_complexType(ct, schema=schema, prefixes=prefixes)
         xsd_schema.complexTypes.append(xsd_ct)
 
-    generate_elements(xsd_schema, schema)
+    generate_elements(xsd_schema, schema, prefixes)
     return xsd_schema
 
 
-def generate_elements(xsd_schema, schema):
+def generate_elements(xsd_schema, schema, prefixes):
     for name, element in schema.elements.items():
         xsd_element = xsdspec.Element()
         xsd_element.name = name
@@ -191,26 +211,28 @@ def generate_elements(xsd_schema, schema):
         # TODO: Support non-string values for substitutionGroup:
         if element.substitutionGroup is not None:
             value = element.substitutionGroup
-            xsd_element.substitutionGroup = value if value.startswith('sns:') else f'sns:{value}'
+            value = value[4:] if value.startswith('sns:') else value
+            xsd_element.substitutionGroup = f'{prefixes[schema.targetNamespace]}:{value}'
 
         if element.nillable:
             xsd_element.nillable = True
 
         if isinstance(element._passed_type, xsd.ComplexType) and element._type.__class__ not in schema.complexTypes:
-            xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
+            xsd_element.complexType = xsd_complexType(element._type.__class__, False, schema, prefixes)
         else:
-            set_xsd_type(xsd_element, element)
+            set_xsd_type(xsd_element, element, schema, prefixes)
 
         xsd_schema.elements.append(xsd_element)
 
 
 def generate_xsd(schema):
-    xsd_schema = generate_xsdspec(schema)
+    prefixes = get_prefixes([schema])
+    xsd_schema = generate_xsdspec(schema, prefixes)
 
     xmlelement = etree.Element(
         '{%s}schema' % ns.xsd,
         nsmap={
-            'sns': schema.targetNamespace,
+            **{prefix: namespace for namespace, prefix in prefixes.items()},
             'xsd': xsdspec.XSD_NAMESPACE,
         },
     )
-- 
2.43.0


From e3ca719d47aefebdcd4dd7451ca8eb1db165275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 25/82] fix: validate against any number of schemas wherever
 they are located

---
 soapfish/py2xsd.py | 62 +++++++++++++++++++++++++++++++++++-----------
 soapfish/xsd.py    |  4 +--
 2 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 9e8651d..4c7cd67 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -10,7 +10,7 @@ from importlib.machinery import SourceFileLoader
 from lxml import etree
 
 from . import namespaces as ns, xsd, xsdspec
-from .utils import uncapitalize, walk_schema_tree
+from .utils import uncapitalize
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
@@ -250,22 +250,53 @@ def schema_validator(schemas):
 
     The method takes care of resolving imported (soapfish) schemas but prevents any unwanted network access.
     """
-    class SchemaResolver(etree.Resolver):
+    return xml_schema(schemas).assertValid
+
+
+def xml_schema(schemas):
+    """Return an etree.XMLSchema for the specified soapfish schemas and everything they import or include."""
+    known = list(schemas)
+    for schema in known:
+        known.extend(item for item in itertools.chain(schema.imports, schema.includes)
+                     if not any(item is other for other in known))
+    namespaces = list(get_prefixes(known))
+
+    # All documents get a location of their own: the schemas might not have one (or share it). There is only one
+    # document to be imported per namespace as only the first import of a namespace is considered by libxml2.
+    def location(schema):
+        return f'soapfish:schema-{next(i for i, item in enumerate(known) if item is schema)}'
+
+    def import_location(namespace):
+        return f'soapfish:namespace-{namespaces.index(namespace)}'
+
+    def schema_element(schema):
+        element = generate_xsd(schema)
+        for xsd_import, item in zip(element.findall('{%s}import' % ns.xsd), schema.imports):
+            xsd_import.set('schemaLocation', import_location(item.targetNamespace))
+        for xsd_include, item in zip(element.findall('{%s}include' % ns.xsd), schema.includes):
+            xsd_include.set('schemaLocation', location(item))
+        return element
+
+    def namespace_element(namespace):
+        element = etree.Element('{%s}schema' % ns.xsd, targetNamespace=namespace)
+        for schema in known:
+            if schema.targetNamespace == namespace:
+                etree.SubElement(element, '{%s}include' % ns.xsd, schemaLocation=location(schema))
+        return element
+
+    documents = {location(schema): schema_element(schema) for schema in known}
+    documents.update((import_location(namespace), namespace_element(namespace)) for namespace in namespaces)
 
-        def __init__(self, schemas, *args, **kwargs):
-            super().__init__(*args, **kwargs)
-            self.lookup = walk_schema_tree(schemas, lambda x: x)
+    class SchemaResolver(etree.Resolver):
 
         def resolve(self, url, id_, context):
-            if url in self.lookup:
-                schema_string = etree.tostring(generate_xsd(self.lookup[url]))
-                return self.resolve_string(schema_string, context)
+            if url in documents:
+                return self.resolve_string(etree.tostring(documents[url]), context)
             # prevent unwanted network access
             raise ValueError(f'Cannot resolve {url!r} - not a known soapfish schema')
 
     parser = etree.XMLParser(load_dtd=True)
-    resolver = SchemaResolver(schemas)
-    parser.resolvers.add(resolver)
+    parser.resolvers.add(SchemaResolver())
 
     # unfortunately we have to parse the whole schema from string so we are
     # able to configure a custom resolver just for this instance. This seems to
@@ -280,10 +311,13 @@ def schema_validator(schemas):
     # Also having shared resolvers is not a good idea because a user might want
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
-    schema_xml = b''.join(etree.tostring(generate_xsd(s)) for s in schemas)
-    schema_element = etree.fromstring(schema_xml, parser)
-    xml_schema = etree.XMLSchema(schema_element)
-    return xml_schema.assertValid
+    if len(known) == 1:
+        root = documents[location(known[0])]
+    else:
+        root = etree.Element('{%s}schema' % ns.xsd)
+        for namespace in namespaces:
+            etree.SubElement(root, '{%s}import' % ns.xsd, namespace=namespace, schemaLocation=import_location(namespace))
+    return etree.XMLSchema(etree.fromstring(etree.tostring(root), parser))
 
 
 # --- Program -----------------------------------------------------------------
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 2c7f710..a718751 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1146,8 +1146,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
             parser = etree.fromstring
         else:
             if not isinstance(schema, etree.XMLSchema):
-                from .py2xsd import generate_xsd
-                schema = etree.XMLSchema(generate_xsd(schema))
+                from .py2xsd import xml_schema
+                schema = xml_schema([schema])
             xmlparser = etree.XMLParser(schema=schema)
             parser = functools.partial(etree.fromstring, parser=xmlparser)
         xmlelement = parser(xml)
-- 
2.43.0


From b9308b796f8d09e45dca9e8a9aca0cd01746aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 26/82] fix: generate schemas for types with attributes

---
 soapfish/xsdspec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index da64a39..d1a72ea 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -79,10 +79,10 @@ class Sequence(xsd.ComplexType):
 
 class Attribute(xsd.ComplexType):
     NAMESPACE = ns.xsd
-    name = xsd.Attribute(xsd.String)
-    ref = xsd.Attribute(xsd.String)
-    type = xsd.Attribute(xsd.String)
-    use = xsd.Attribute(xsd.String)
+    name = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    ref = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    type = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    use = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
     simpleType = xsd.Element(SimpleType, minOccurs=0)
 
 
-- 
2.43.0


From 127f291660012a01426de7293c884cb0f5f9a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 27/82] fix: validate with included schemas which have no
 location

---
 soapfish/xsdspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index d1a72ea..0b043b9 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -141,7 +141,7 @@ class Import(xsd.ComplexType):
 
 
 class Include(xsd.ComplexType):
-    schemaLocation = xsd.Attribute(xsd.String)
+    schemaLocation = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
 
 
 class Schema(xsd.ComplexType):
-- 
2.43.0


From fd436acc543adeaa397116e4085b862940ba1694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 28/82] fix: write texts of schemas and WSDL documents as
 string literals in generated code

---
 soapfish/templates/lib.jinja2  | 34 +++++++++++++++++-----------------
 soapfish/templates/wsdl.jinja2 | 32 ++++++++++++++++----------------
 soapfish/templates/xsd.jinja2  |  2 +-
 soapfish/utils.py              | 18 ++++++++++++++++++
 4 files changed, 52 insertions(+), 34 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 555aca6..f0682e6 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -15,15 +15,15 @@
 Schema_{{ schema_name(schema) }} = xsd.Schema(
     imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    targetNamespace='{{ schema.targetNamespace }}',
+    targetNamespace={{ schema.targetNamespace|quote }},
     {%- if location %}
-    location='{{ location|url_template }}',{% endif %}
-    elementFormDefault='{{ schema.elementFormDefault }}',
+    location={{ location|url_template|quote }},{% endif %}
+    elementFormDefault={{ schema.elementFormDefault|quote }},
     simpleTypes=[{% for st in schema.simpleTypes %}{{ st.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}{{ e.name|quote }}: xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|quote }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -45,7 +45,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -55,7 +55,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -64,20 +64,20 @@ class {{ group.name|capitalize }}(xsd.Group):
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}]
+    enumeration = [{% for enum in restriction.enumerations %}{{ enum.value|quote }}{% if not loop.last %}, {% endif %}{% endfor %}]
 {%- endif %}
 {%- if restriction.pattern %}
-    pattern = r'{{ restriction.pattern.value }}'
+    pattern = {{ restriction.pattern.value|quote_raw }}
 {%- endif %}
 {%- if restriction.minInclusive %}
-    minInclusive = r'{{ restriction.minInclusive.value }}'
+    minInclusive = {{ restriction.minInclusive.value|quote_raw }}
 {%- elif restriction.minExclusive %}
-    minExclusive = r'{{ restriction.minExclusive.value }}'
+    minExclusive = {{ restriction.minExclusive.value|quote_raw }}
 {%- endif %}
 {%- if restriction.maxInclusive %}
-    maxInclusive = r'{{ restriction.maxInclusive.value }}'
+    maxInclusive = {{ restriction.maxInclusive.value|quote_raw }}
 {%- elif restriction.maxExclusive %}
-    maxExclusive = r'{{ restriction.maxExclusive.value }}'
+    maxExclusive = {{ restriction.maxExclusive.value|quote_raw }}
 {%- endif %}
 {%- if not restriction.enumerations and not restriction.pattern
         and not restriction.minInclusive and not restriction.minExclusive
@@ -121,7 +121,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
     {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
@@ -139,21 +139,21 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {% macro render_xsd_element(element, known_types=None) -%}
     {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
     {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|quote }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.simpleType %}
     {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
     {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
+    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}{{ enum.value|quote }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- endif %}
-    {%- if element.name in keywords %}tagname='{{ element.name }}',{% endif %}
+    {%- if element.name in keywords %}tagname={{ element.name|quote }},{% endif %}
     {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value }},{% endif %}
     {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value }},{% endif %}
     {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern=r'{{ element.simpleType.restriction.pattern.value }}',{% endif %}
+    {%- if element.simpleType.restriction.pattern %}pattern={{ element.simpleType.restriction.pattern.value|quote_raw }},{% endif %}
     {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
     {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
     {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 5476ef5..bf94871 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -49,7 +49,7 @@ class {{ _im.name }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|quote }})
     {%- else -%}
     {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
@@ -61,7 +61,7 @@ class {{ _om.name }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|quote }})
     {%- else -%}
     {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
@@ -71,11 +71,11 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ operation.name }}_method = xsd.Method(
     {% if is_server %}function={{ operation.name }},
     {% endif -%}
-    soapAction='{{ operation.operation.soapAction }}',
+    soapAction={{ operation.operation.soapAction|quote }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
-    input='{{ _im.part.element|remove_namespace }}',
-    inputPartName='{{ _im.part.name }}',
+    input={{ _im.part.element|remove_namespace|quote }},
+    inputPartName={{ _im.part.name|quote }},
     {%- else -%}
     input={{ _im.part.type|remove_namespace|capitalize }},
     {%- endif -%}
@@ -85,8 +85,8 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
-    output='{{ _om.part.element|remove_namespace }}',
-    outputPartName='{{ _om.part.name }}',
+    output={{ _om.part.element|remove_namespace|quote }},
+    outputPartName={{ _om.part.name|quote }},
     {%- else -%}
     output={{ _om.part.type|remove_namespace|capitalize }},
     {%- endif -%}
@@ -94,9 +94,9 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- if _omh %}
     output_header={{ _om.name }}Headers,
     {%- endif %}
-    operationName='{{ operation.name }}',
+    operationName={{ operation.name|quote }},
     {%- if operation.operation.style %}
-    style='{{ operation.operation.style }}',
+    style={{ operation.operation.style|quote }},
     {%- endif %}
 )
 {# [blank line] #}
@@ -107,9 +107,9 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 {# [blank line] #}
 {{ port.name }}_SERVICE = soap.Service(
-    name='{{ port.name }}',
-    targetNamespace='{{ definitions.targetNamespace }}',
-    location='{{ port.address.location|url_template }}',
+    name={{ port.name|quote }},
+    targetNamespace={{ definitions.targetNamespace|quote }},
+    location={{ port.address.location|url_template|quote }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- if soap_version.NAME == 'soap11' %}
     version=soap.SOAPVersion.SOAP11,
@@ -131,7 +131,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 # NOTE: Put these lines in the urls.py for your project or application:
 # urlpatterns += patterns('',
-#     (r'{{ service.ports.0.address.location|url_regex }}', '<module>.dispatcher'),
+#     ({{ service.ports.0.address.location|url_regex|quote_raw }}, '<module>.dispatcher'),
 # )
 {%- else %}
 ##############################################################################
@@ -140,12 +140,12 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 class {{ port.name }}ServiceStub(soap.Stub):
     SERVICE = {{ port.name }}_SERVICE
-    SCHEME = '{{ port.address.location|url_component('scheme') }}'
-    HOST = '{{ port.address.location|url_component('netloc') }}'
+    SCHEME = {{ port.address.location|url_component('scheme')|quote }}
+    HOST = {{ port.address.location|url_component('netloc')|quote }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
     def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-        return self.call('{{ operation.name}}', {{ _im.part.element|remove_namespace }}, header=header)
+        return self.call({{ operation.name|quote }}, {{ _im.part.element|remove_namespace }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
diff --git a/soapfish/templates/xsd.jinja2 b/soapfish/templates/xsd.jinja2
index be4442b..7b49d8c 100644
--- a/soapfish/templates/xsd.jinja2
+++ b/soapfish/templates/xsd.jinja2
@@ -15,7 +15,7 @@ from soapfish import xsd
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
 {{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
 {%- endfor %}
-# {% if location %}{{ location }} - {% endif -%} {{ schema.targetNamespace }}{# Output the name of the schema in a comment. #}
+# {% if location %}{{ location|comment }} - {% endif -%} {{ schema.targetNamespace|comment }}{# Output the name of the schema in a comment. #}
 {# [blank line] #}
 {# [blank line] #}
 {#- Simple Types -#}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index fe387ce..4237e89 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -1,3 +1,4 @@
+import ast
 import hashlib
 import itertools
 import keyword
@@ -85,6 +86,20 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def capitalize(value):
         return value[0].upper() + value[1:]
 
+    def quote(value):
+        return repr(value if value is None else str(value))
+
+    def quote_raw(value):
+        raw = f"r'{value}'"
+        try:
+            readable = '\n' not in raw and raw.isprintable() and ast.literal_eval(raw) == value
+        except (SyntaxError, ValueError):
+            readable = False
+        return raw if readable else quote(value)
+
+    def comment(value):
+        return ''.join(c if c.isprintable() else ' ' for c in str(value))
+
     def use(value):
         from . import xsd
         if value == xsd.Use.OPTIONAL:
@@ -150,8 +165,11 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.filters.update(
         capitalize=capitalize,
+        comment=comment,
         fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
+        quote=quote,
+        quote_raw=quote_raw,
         remove_namespace=remove_namespace,
         type=get_type,
         url_component=url_component,
-- 
2.43.0


From b46402eb57dd365c750f463002061b0512f46f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 29/82] fix: generate code for every facet of named and inline
 simple types

---
 soapfish/templates/lib.jinja2 | 67 ++++++++++++-----------------------
 soapfish/utils.py             | 15 ++++++++
 2 files changed, 37 insertions(+), 45 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index f0682e6..951ea1d 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -23,7 +23,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}{{ e.name|quote }}: xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|quote }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}{{ e.name|quote }}: xsd.Element({% if e.complexType %}{{ e.name|capitalize }}(){% else %}{{ render_type(e, known_types) }}{% endif %}{% if e.nillable %}, nillable=True{% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|quote }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -45,7 +45,7 @@ class {{ name|capitalize }}(xsd.List):
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -55,7 +55,7 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
     {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %})
+    {{ name|fix_keyword }} = xsd.Element({{ render_type(element, known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %})
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -63,31 +63,26 @@ class {{ group.name|capitalize }}(xsd.Group):
 
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
-{%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}{{ enum.value|quote }}{% if not loop.last %}, {% endif %}{% endfor %}]
-{%- endif %}
-{%- if restriction.pattern %}
-    pattern = {{ restriction.pattern.value|quote_raw }}
-{%- endif %}
-{%- if restriction.minInclusive %}
-    minInclusive = {{ restriction.minInclusive.value|quote_raw }}
-{%- elif restriction.minExclusive %}
-    minExclusive = {{ restriction.minExclusive.value|quote_raw }}
-{%- endif %}
-{%- if restriction.maxInclusive %}
-    maxInclusive = {{ restriction.maxInclusive.value|quote_raw }}
-{%- elif restriction.maxExclusive %}
-    maxExclusive = {{ restriction.maxExclusive.value|quote_raw }}
-{%- endif %}
-{%- if not restriction.enumerations and not restriction.pattern
-        and not restriction.minInclusive and not restriction.minExclusive
-        and not restriction.maxInclusive and not restriction.maxExclusive %}
+{%- for facet, value in restriction|facets %}
+    {{ facet }} = {{ value }}
+{%- else %}
     pass
-{%- endif %}
+{%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
 {%- endmacro %}
 
+{#- The type of an element or attribute: either referenced by name or defined in place. -#}
+{% macro render_type(item, known_types=None) -%}
+{%- if item.simpleType and not item.type and not item.ref -%}
+{{ item.simpleType.restriction|type(known_types) }}(
+{%- for facet, value in item.simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor -%}
+)
+{%- else -%}
+{{ item|type(known_types) }}
+{%- endif -%}
+{%- endmacro %}
+
 {% macro render_complexType(class_name, content, known_types=None) -%}
 {%- set ct = content %}
 {%- if not ct.sequence and not ct.complexContent %}
@@ -121,7 +116,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- for attribute in content.attributes %}
     {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
     {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
@@ -137,27 +132,9 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endmacro %}
 
 {% macro render_xsd_element(element, known_types=None) -%}
-    {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
-    {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname={{ element.name|quote }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
-    {%- endif %}
-    {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
-    {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}{{ enum.value|quote }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    {%- endif %}
-    {%- if element.name in keywords %}tagname={{ element.name|quote }},{% endif %}
-    {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern={{ element.simpleType.restriction.pattern.value|quote_raw }},{% endif %}
-    {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
-    {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value }},{% endif %}))
+    {%- set is_list = element.maxOccurs and element.maxOccurs > 1 %}
+    {%- if element.type or element.simpleType %}
+    {{ element.name|fix_keyword }} = xsd.{{ 'ListElement' if is_list else 'Element' }}({{ render_type(element, known_types) }}{% if element.name in keywords or is_list %}, tagname={{ element.name|quote }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs }}{% elif is_list %}, minOccurs=1{% endif %}{% if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 4237e89..9622a9e 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -125,6 +125,20 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         o[0:2] = ['${scheme}', '${host}']
         return urlunparse(o)
 
+    def facets(restriction):
+        values = []
+        if restriction.enumerations:
+            values.append(('enumeration', '[%s]' % ', '.join(quote(enum.value) for enum in restriction.enumerations)))
+        for name in ('pattern', 'minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive'):
+            if getattr(restriction, name):
+                values.append((name, quote_raw(getattr(restriction, name).value)))
+        for name in ('fractionDigits', 'totalDigits', 'length', 'minLength', 'maxLength'):
+            if getattr(restriction, name):
+                values.append((name, int(getattr(restriction, name).value)))
+        if restriction.whiteSpace:
+            values.append(('whiteSpace', quote(restriction.whiteSpace.value)))
+        return values
+
     def get_type(obj, known_types=None):
         qname = None
         if isinstance(obj, (xsdspec.Attribute, xsdspec.Element)):
@@ -166,6 +180,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     env.filters.update(
         capitalize=capitalize,
         comment=comment,
+        facets=facets,
         fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         quote=quote,
-- 
2.43.0


From e390ddb2eb1ee8d1721842ed2edca8ab909c793b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 30/82] fix: generate valid, unambiguous Python names for all
 names of a schema

---
 soapfish/templates/lib.jinja2 | 59 ++++++++++++++++++-----------------
 soapfish/utils.py             | 58 +++++++++++++++++++++++++++++++---
 2 files changed, 85 insertions(+), 32 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 951ea1d..50c6f3a 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -43,9 +43,10 @@ class {{ name|capitalize }}(xsd.List):
 
 {% macro render_xsd_AttributeGroup(attrGroup, known_types=None) -%}
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
-    {%- for attribute in attrGroup.attributes %}
-    {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {%- for attribute, name, hidden in field_names(attrGroup).attributes -%}
+    {{ render_xsd_attribute(attribute, name, known_types|without(hidden)) }}
+    {%- else %}
+    pass
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -53,9 +54,10 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 
 {% macro render_xsd_Group(group, known_types=None) -%}
 class {{ group.name|capitalize }}(xsd.Group):
-    {%- for element in group.sequence.elements %}
-    {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ render_type(element, known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %})
+    {%- for element, name, hidden in field_names(group).elements -%}
+    {{ render_xsd_element(element, name, known_types|without(hidden)) }}
+    {%- else %}
+    pass
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -91,11 +93,11 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- if ct.complexContent %}
     {%- if ct.complexContent.restriction %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.RESTRICTION
     {%- set content = ct.complexContent.restriction %}
     {%- else %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.EXTENSION
     {%- set content = ct.complexContent.extension %}
     {%- endif %}
@@ -106,50 +108,51 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endif %}
 {%- if content.sequence %}
     INDICATOR = xsd.Sequence
-    {%- set elements = content.sequence.elements %}
 {%- elif content.all %}
     INDICATOR = xsd.All
-    {%- set elements = content.all.elements %}
 {%- elif content.choice %}
     INDICATOR = xsd.Choice
-    {%- set elements = content.choice.elements %}
 {%- endif %}
-{%- for attribute in content.attributes %}
-    {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name in keywords %}, tagname={{ name|quote }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+{%- set fields = field_names(content) %}
+{%- for attribute, name, hidden in fields.attributes -%}
+    {{ render_xsd_attribute(attribute, name, known_types|without(hidden)) }}
 {%- endfor %}
-{%- for attrGroupRef in content.attributeGroups %}
-    {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
+{%- for attrGroupRef, name, hidden in fields.attributeGroups %}
+    {{ name }} = xsd.Ref({{ attrGroupRef.ref|type(known_types|without(hidden)) }})
 {%- endfor %}
-{%- for element in elements -%}
-    {{ render_xsd_element(element, known_types) }}
+{%- for element, name, hidden in fields.elements -%}
+    {{ render_xsd_element(element, name, known_types|without(hidden)) }}
 {%- endfor %}
 {%- if content.sequence %}
-{{ render_create_method(elements, known_types) }}
+{{ render_create_method(fields.elements) }}
 {%- endif %}
 {# blank line #}
 {# blank line #}
 {%- endmacro %}
 
-{% macro render_xsd_element(element, known_types=None) -%}
+{% macro render_xsd_attribute(attribute, name, known_types=None) -%}
+    {%- set tagname = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
+    {{ name }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name != tagname %}, tagname={{ tagname|quote }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+{%- endmacro %}
+
+{% macro render_xsd_element(element, name, known_types=None) -%}
     {%- set is_list = element.maxOccurs and element.maxOccurs > 1 %}
     {%- if element.type or element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.{{ 'ListElement' if is_list else 'Element' }}({{ render_type(element, known_types) }}{% if element.name in keywords or is_list %}, tagname={{ element.name|quote }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs }}{% elif is_list %}, minOccurs=1{% endif %}{% if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {{ name }} = xsd.{{ 'ListElement' if is_list else 'Element' }}({{ render_type(element, known_types) }}{% if name != element.name or is_list %}, tagname={{ element.name|quote }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs }}{% elif is_list %}, minOccurs=1{% endif %}{% if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
-    {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
+    {{ name }} = xsd.Ref({{ element|type(known_types) }})
     {%- endif %}
 {%- endmacro %}
 
-{% macro render_create_method(elements, known_types=None) -%}
+{% macro render_create_method(elements) -%}
 {# [blank line] #}
     @classmethod
-    def create(cls{% for e in elements %}{% if e.minOccurs == 1 or e.minOccurs is none %}, {{ e.ref|remove_namespace|fix_keyword if e.ref else e.name|fix_keyword }}{% endif %}{% endfor %}):
+    def create(cls{% for e, name, hidden in elements %}{% if e.minOccurs == 1 or e.minOccurs is none %}, {{ name }}{% endif %}{% endfor %}):
         instance = cls()
-        {%- for element in elements %}
-        {%- if element.minOccurs is not none and element.minOccurs != 1 %}{% continue %}{% endif %}
-        {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-        instance.{{ name|fix_keyword }} = {{ name|fix_keyword }}
+        {%- for e, name, hidden in elements %}
+        {%- if e.minOccurs is not none and e.minOccurs != 1 %}{% continue %}{% endif %}
+        instance.{{ name }} = {{ name }}
         {%- endfor %}
         return instance
 {%- endmacro %}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 9622a9e..8f26799 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -5,6 +5,7 @@ import keyword
 import logging
 import os
 import re
+import unicodedata
 from datetime import datetime, timedelta, timezone
 from urllib.parse import urlparse, urlunparse
 
@@ -79,12 +80,60 @@ def schema_select(schemas, elements):
     return selected
 
 
+def identifier(name, reserved=()):
+    """Return a Python identifier for the name of a XML item which is neither a keyword nor reserved."""
+    value = ''.join(c if f'_{c}'.isidentifier() else '_' for c in unicodedata.normalize('NFKC', str(name)))
+    if value.startswith('__'):
+        value = '_' + value.lstrip('_')  # Python would mangle it.
+    if keyword.iskeyword(value) or not value.isidentifier() or value in reserved:
+        value = '_' + value
+    while value in reserved:
+        value += '_'
+    return value
+
+
+def field_names(content):
+    """
+    Determine the Python names for everything in the content of a type.
+
+    Returns an object with the lists "attributes", "attributeGroups" and "elements". Every item has the name to use and
+    the names which are defined before (and therefore hide a type of that name).
+    """
+    from . import xsd
+
+    # These would replace something a generated class relies on.
+    reserved = {*dir(xsd.ComplexType), 'cls', 'create', 'instance', 'xsd'}
+    names = []
+
+    def assign(items):
+        assigned = []
+        for item in items:
+            names.append(identifier(getattr(item, 'name', None) or remove_namespace(item.ref), reserved))
+            reserved.add(names[-1])
+            assigned.append((item, names[-1]))
+        return assigned
+
+    container = next(filter(None, (getattr(content, x, None) for x in ('sequence', 'all', 'choice'))), None)
+    elements = assign(container.elements) if container else []
+    fields = {
+        'attributes': assign(getattr(content, 'attributes', ())),
+        'attributeGroups': assign(getattr(content, 'attributeGroups', ())),
+        'elements': elements,
+    }
+    defined = []
+    for kind in fields:
+        for i, (item, name) in enumerate(fields[kind]):
+            fields[kind][i] = item, name, list(defined)
+            defined.append(name)
+    return fields
+
+
 def get_rendering_environment(xsd_namespaces, module='soapfish'):
     """Return a rendering environment to use with code generation templates."""
     from . import soap, xsd, xsdspec, wsdl
 
     def capitalize(value):
-        return value[0].upper() + value[1:]
+        return identifier(value[0].upper() + value[1:])
 
     def quote(value):
         return repr(value if value is None else str(value))
@@ -171,7 +220,8 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         else:
             return f"__name__ + '.{name}'"
 
-    keywords = set(keyword.kwlist)
+    def without(known_types, names):
+        return known_types and [x for x in known_types if x not in names]
 
     env = Environment(
         extensions=['jinja2.ext.do', 'jinja2.ext.loopcontrols'],
@@ -181,7 +231,6 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         capitalize=capitalize,
         comment=comment,
         facets=facets,
-        fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         quote=quote,
         quote_raw=quote_raw,
@@ -191,10 +240,11 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         url_regex=url_regex,
         url_template=url_template,
         use=use,
+        without=without,
     )
     env.globals.update(
         SOAPTransport=soap.SOAP_HTTP_Transport,
-        keywords=keywords,
+        field_names=field_names,
         get_by_name=wsdl.get_by_name,
         get_message_header=wsdl.get_message_header,
         get_message_object=wsdl.get_message_object,
-- 
2.43.0


From 93b99cbfa07ce01071cee428f2d65fb4c2eb4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 31/82] fix: generate code for types defined in place anywhere

---
 soapfish/templates/lib.jinja2 | 54 ++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 50c6f3a..bb3b5d7 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -23,7 +23,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}{{ e.name|quote }}: xsd.Element({% if e.complexType %}{{ e.name|capitalize }}(){% else %}{{ render_type(e, known_types) }}{% endif %}{% if e.nillable %}, nillable=True{% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|quote }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}{{ e.name|quote }}: xsd.Element({{ render_type(e, known_types, e.name) }}{% if e.nillable %}, nillable=True{% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|quote }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -53,9 +53,11 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 {%- endmacro %}
 
 {% macro render_xsd_Group(group, known_types=None) -%}
+{%- set fields = field_names(group) %}
+{{ render_anonymous_types(group.name, fields.elements, known_types) -}}
 class {{ group.name|capitalize }}(xsd.Group):
-    {%- for element, name, hidden in field_names(group).elements -%}
-    {{ render_xsd_element(element, name, known_types|without(hidden)) }}
+    {%- for element, name, hidden in fields.elements -%}
+    {{ render_xsd_element(element, name, known_types|without(hidden), group.name) }}
     {%- else %}
     pass
     {%- endfor %}
@@ -75,8 +77,10 @@ class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {%- endmacro %}
 
 {#- The type of an element or attribute: either referenced by name or defined in place. -#}
-{% macro render_type(item, known_types=None) -%}
-{%- if item.simpleType and not item.type and not item.ref -%}
+{% macro render_type(item, known_types=None, class_name=None) -%}
+{%- if item.complexType and not item.type and not item.ref -%}
+{{ class_name|capitalize }}()
+{%- elif item.simpleType and not item.type and not item.ref -%}
 {{ item.simpleType.restriction|type(known_types) }}(
 {%- for facet, value in item.simpleType.restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor -%}
 )
@@ -85,26 +89,25 @@ class {{ name|capitalize }}({{ restriction|type(known_types) }}):
 {%- endif -%}
 {%- endmacro %}
 
+{#- Types defined in place by the elements of a type: these are named after both. -#}
+{% macro render_anonymous_types(class_name, elements, known_types=None) -%}
+{%- for element, name, hidden in elements if element.complexType and not element.type %}
+{{- render_complexType(class_name ~ '_' ~ element.name|capitalize, element.complexType, known_types) }}
+{%- endfor %}
+{%- endmacro %}
+
 {% macro render_complexType(class_name, content, known_types=None) -%}
+{%- set inherited = content.complexContent and (content.complexContent.restriction or content.complexContent.extension) %}
 {%- set ct = content %}
-{%- if not ct.sequence and not ct.complexContent %}
-class {{ class_name|capitalize }}(xsd.ComplexType):
-    pass
-{%- endif %}
-{%- if ct.complexContent %}
-    {%- if ct.complexContent.restriction %}
-class {{ class_name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
-    INHERITANCE = xsd.Inheritance.RESTRICTION
-    {%- set content = ct.complexContent.restriction %}
-    {%- else %}
-class {{ class_name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
-    INHERITANCE = xsd.Inheritance.EXTENSION
-    {%- set content = ct.complexContent.extension %}
-    {%- endif %}
-{%- elif ct.sequence %}
+{%- set content = inherited or content %}
+{%- set fields = field_names(content) %}
+{{- render_anonymous_types(class_name, fields.elements, known_types) }}
+{%- if inherited %}
+class {{ class_name|capitalize }}({{ inherited|type(known_types) }}):
+    INHERITANCE = xsd.Inheritance.{{ 'RESTRICTION' if ct.complexContent.restriction else 'EXTENSION' }}
+{%- else %}
 class {{ class_name|capitalize }}(xsd.ComplexType):
     INHERITANCE = None
-    {%- set content = ct %}
 {%- endif %}
 {%- if content.sequence %}
     INDICATOR = xsd.Sequence
@@ -113,7 +116,6 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- elif content.choice %}
     INDICATOR = xsd.Choice
 {%- endif %}
-{%- set fields = field_names(content) %}
 {%- for attribute, name, hidden in fields.attributes -%}
     {{ render_xsd_attribute(attribute, name, known_types|without(hidden)) }}
 {%- endfor %}
@@ -121,7 +123,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {{ name }} = xsd.Ref({{ attrGroupRef.ref|type(known_types|without(hidden)) }})
 {%- endfor %}
 {%- for element, name, hidden in fields.elements -%}
-    {{ render_xsd_element(element, name, known_types|without(hidden)) }}
+    {{ render_xsd_element(element, name, known_types|without(hidden), class_name) }}
 {%- endfor %}
 {%- if content.sequence %}
 {{ render_create_method(fields.elements) }}
@@ -135,10 +137,10 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {{ name }} = xsd.Attribute({{ render_type(attribute, known_types) }}{% if name != tagname %}, tagname={{ tagname|quote }}{% endif %}, use={{ attribute.use|default('optional', true)|use }})
 {%- endmacro %}
 
-{% macro render_xsd_element(element, name, known_types=None) -%}
+{% macro render_xsd_element(element, name, known_types=None, class_name=None) -%}
     {%- set is_list = element.maxOccurs and element.maxOccurs > 1 %}
-    {%- if element.type or element.simpleType %}
-    {{ name }} = xsd.{{ 'ListElement' if is_list else 'Element' }}({{ render_type(element, known_types) }}{% if name != element.name or is_list %}, tagname={{ element.name|quote }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs }}{% elif is_list %}, minOccurs=1{% endif %}{% if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
+    {%- if element.type or element.simpleType or element.complexType %}
+    {{ name }} = xsd.{{ 'ListElement' if is_list else 'Element' }}({{ render_type(element, known_types, class_name ~ '_' ~ element.name|capitalize) }}{% if name != element.name or is_list %}, tagname={{ element.name|quote }}{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs }}{% elif is_list %}, minOccurs=1{% endif %}{% if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ name }} = xsd.Ref({{ element|type(known_types) }})
-- 
2.43.0


From 4d4844494755d3d7a4e92584282c683233a4335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 32/82] fix: generate code for base types before the types
 derived from them

---
 soapfish/wsdl2py.py |  2 +-
 soapfish/xsd2py.py  | 67 ++++++++++++++++++++-------------------------
 2 files changed, 31 insertions(+), 38 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1e3f323..c28bb5c 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -87,7 +87,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     definitions = wsdl.Definitions.parse_xmlelement(xml)
     merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
 
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace}
+    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_types': [], 'known_paths': []}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
 
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index f8aee95..322f40e 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import functools
 import itertools
 import logging
 import os
@@ -11,7 +10,7 @@ from urllib.parse import urljoin
 from lxml import etree
 
 from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from .utils import find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location
 
 logger = logging.getLogger('soapfish')
 
@@ -77,44 +76,37 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
     return code.encode(encoding) if encoding else code
 
 
-def _reorder_complexTypes(schema):
-    """Reorder complexTypes to render base extension/restriction elements render before the children."""
-    weights = {}
-    for n, complex_type in enumerate(schema.complexTypes):
-        content = complex_type.complexContent
-        if content:
-            extension = content.extension
-            restriction = content.restriction
-            if extension:
-                base = extension.base
-            elif restriction:
-                base = restriction.base
-        else:
-            base = ''
+def _complexType_bases(complex_type):
+    """Return the names of all types which must be defined before the complex type."""
+    content = complex_type.complexContent
+    inherited = content and (content.restriction or content.extension)
+    bases = {remove_namespace(inherited.base)} if inherited else set()
+    content = inherited or complex_type
+    for container in (getattr(content, name, None) for name in ('sequence', 'all', 'choice')):
+        for element in container.elements if container else ():
+            if element.complexType:
+                bases |= _complexType_bases(element.complexType)
+    return bases
+
+
+def _simpleType_bases(simple_type):
+    return {remove_namespace(simple_type.restriction.base)} if simple_type.restriction else set()
 
-        weights[complex_type.name] = (n, base)
 
-    def _cmp(a, b):
-        a = getattr(a, 'name', a)
-        b = getattr(b, 'name', b)
+def _reorder_types(types, get_bases):
+    """Reorder types to render the base types of extensions/restrictions before the types derived from them."""
+    pending = {x.name: x for x in types}
+    ordered = []
 
-        w_a, base_a = weights[a]
-        w_b, base_b = weights[b]
-        # a and b are not extension/restriction
-        if not base_a and not base_b:
-            return w_a - w_b
-        is_extension = lambda obj, base: obj == base
-        has_namespace = lambda base: ':' in base
-        # a is a extension/restriction of b: a > b
-        if is_extension(b, base_a) or has_namespace(base_a):
-            return 1
-        # b is a extension/restriction of a: a < b
-        elif is_extension(a, base_b) or has_namespace(base_b):
-            return -1
-        # inconclusive, do the same test with their bases
-        return _cmp(base_a or a, base_b or b)
+    def add(x):
+        for base in sorted(get_bases(x)):
+            if base in pending:
+                add(pending.pop(base))
+        ordered.append(x)
 
-    schema.complexTypes.sort(key=functools.cmp_to_key(_cmp))
+    while pending:
+        add(pending.pop(next(iter(pending))))
+    types[:] = ordered
 
 
 def schema_to_py(schema, xsd_namespaces,
@@ -126,7 +118,8 @@ def schema_to_py(schema, xsd_namespaces,
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
-    _reorder_complexTypes(schema)
+    _reorder_types(schema.simpleTypes, _simpleType_bases)
+    _reorder_types(schema.complexTypes, _complexType_bases)
 
     if known_paths is None:
         known_paths = []
-- 
2.43.0


From ae57b76a574c3980cdfbf5976d6e925cd1d22cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 33/82] fix: refer to schemas by location and only to those
 which are defined in generated code

---
 soapfish/templates/lib.jinja2 | 7 +++++--
 soapfish/utils.py             | 7 ++++++-
 soapfish/xsd2py.py            | 2 +-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index bb3b5d7..b98e7ab 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -13,8 +13,9 @@
 
 {% macro render_Schema(schema, location, known_types=None) -%}
 Schema_{{ schema_name(schema) }} = xsd.Schema(
-    imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    {#- Only what is defined already can be used: there might be no code for it at all or there is a circular reference. #}
+    imports=[{{ schema.imports|schema_names(known_types)|join(', ') }}],
+    includes=[{{ schema.includes|schema_names(known_types)|join(', ') }}],
     targetNamespace={{ schema.targetNamespace|quote }},
     {%- if location %}
     location={{ location|url_template|quote }},{% endif %}
@@ -25,7 +26,9 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     elements={{ '{' }}{% for e in schema.elements %}{{ e.name|quote }}: xsd.Element({{ render_type(e, known_types, e.name) }}{% if e.nillable %}, nillable=True{% endif %}{% if e.substitutionGroup %}, substitutionGroup={{ e.substitutionGroup|quote }}{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
+{%- do known_types.append('Schema_' ~ schema_name(schema)) %}
 {%- if location %}
+{%- do known_types.append('Schema_' ~ schema_name(schema, location)) %}
 {# [blank line] #}
 # XXX: Workaround for naming issues related to relative locations!
 Schema_{{ schema_name(schema, location) }} = Schema_{{ schema_name(schema) }}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 8f26799..a7b96a5 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -55,7 +55,7 @@ def schema_name(obj, location=None):
     elif isinstance(obj, xsdspec.Schema):
         value = obj.targetNamespace
     elif isinstance(obj, xsdspec.Import):
-        value = obj.namespace
+        value = obj.schemaLocation or obj.namespace
     elif isinstance(obj, xsdspec.Include):
         value = obj.schemaLocation
     else:
@@ -220,6 +220,10 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         else:
             return f"__name__ + '.{name}'"
 
+    def schema_names(references, known_types):
+        names = [f'Schema_{schema_name(x)}' for x in references if getattr(x, 'namespace', None) or x.schemaLocation]
+        return [x for x in names if x in known_types]
+
     def without(known_types, names):
         return known_types and [x for x in known_types if x not in names]
 
@@ -235,6 +239,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         quote=quote,
         quote_raw=quote_raw,
         remove_namespace=remove_namespace,
+        schema_names=schema_names,
         type=get_type,
         url_component=url_component,
         url_regex=url_regex,
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 322f40e..aa1c431 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -70,7 +70,7 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
         return ''
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
-                        location, cwd=cwd, base_path=base_path,
+                        location, parent_namespace, cwd=cwd, base_path=base_path,
                         standalone=standalone)
 
     return code.encode(encoding) if encoding else code
-- 
2.43.0


From 40e38c885579a026230c8ac63da4e181ffc5a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 34/82] fix: resolve references of remote documents relative to
 these

---
 soapfish/utils.py  | 7 ++++---
 soapfish/xsd2py.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index a7b96a5..c841142 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -7,7 +7,7 @@ import os
 import re
 import unicodedata
 from datetime import datetime, timedelta, timezone
-from urllib.parse import urlparse, urlunparse
+from urllib.parse import urljoin, urlparse, urlunparse
 
 import requests
 from jinja2 import Environment, PackageLoader
@@ -21,11 +21,12 @@ logger = logging.getLogger('soapfish')
 def resolve_location(path, cwd):
     if '://' in path:
         location = path
+    elif '://' in cwd:
+        location = path = urljoin(cwd + '/', path)
     else:
         path = os.path.join(cwd, path)
         location = os.path.relpath(path, cwd)
-        cwd = os.path.dirname(path)
-    return path, cwd, location
+    return path, os.path.dirname(path), location
 
 
 def open_document(path):
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index aa1c431..6272dc1 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -28,7 +28,7 @@ def rewrite_paths(schema, cwd, base_path):
             continue
         elif '://' in cwd:
             # remote files must handle paths as url.
-            i.schemaLocation = urljoin(cwd, i.schemaLocation)
+            i.schemaLocation = urljoin(cwd + '/', i.schemaLocation)
         else:
             # local files should handle relative paths.
             path = os.path.normpath(os.path.join(cwd, i.schemaLocation))
-- 
2.43.0


From 0320722942bb34cff808c5b7c7c86c0551ecd9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:49 +0000
Subject: [PATCH 35/82] fix: resolve imports of WSDL documents relative to the
 importing document

---
 soapfish/utils.py   |  2 +-
 soapfish/wsdl2py.py | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index c841142..b398c39 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -24,7 +24,7 @@ def resolve_location(path, cwd):
     elif '://' in cwd:
         location = path = urljoin(cwd + '/', path)
     else:
-        path = os.path.join(cwd, path)
+        path = os.path.normpath(os.path.join(cwd, path))
         location = os.path.relpath(path, cwd)
     return path, os.path.dirname(path), location
 
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index c28bb5c..84c7ada 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -11,7 +11,7 @@ from lxml import etree
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
-from .xsd2py import schema_to_py
+from .xsd2py import rewrite_paths, schema_to_py
 
 logger = logging.getLogger('soapfish')
 
@@ -32,7 +32,7 @@ def reorder_schemas(schemas):
     return schemas
 
 
-def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
+def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_path=None):
 
     def deduplicate(seq):
         seen = set()
@@ -41,8 +41,11 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
     if seen is None:
         seen = set()
 
+    if base_path is None:
+        base_path = cwd
+
     for i in definitions.imports:
-        path, cwd, location = resolve_location(i.location, cwd)
+        path, path_cwd, location = resolve_location(i.location, cwd)
 
         if path in seen:
             continue
@@ -56,8 +59,11 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
 
         imported = wsdl.Definitions.parse_xmlelement(xml)
 
+        for schema in imported.types.schemas if imported.types else ():
+            rewrite_paths(schema, path_cwd, base_path)
+
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=cwd, seen=seen)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=path_cwd, seen=seen, base_path=base_path)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
-- 
2.43.0


From 5f87d08cac8a2440a3e5d86d825609837bbe683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 36/82] fix: generate XSD for the content of groups

---
 soapfish/py2xsd.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 4c7cd67..6eb7383 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -110,12 +110,26 @@ def set_xsd_type(xsd_element, element, schema=None, prefixes=None):
         xsd_element.type = get_xsd_type(element._type, schema, prefixes)
 
 
+def flatten_groups(fields):
+    """Return all fields with the fields of a group in place of the reference to it."""
+    flattened = []
+    for field in fields:
+        field._evaluate_type()
+        if isinstance(field, xsd.Ref) and isinstance(field._type, xsd.Group):
+            flattened.extend(flatten_groups(field._type._meta.all))
+        else:
+            flattened.append(field)
+    return flattened
+
+
 def xsd_complexType(complexType, named=True, schema=None, prefixes=None):
     xsd_ct = xsdspec.XSDComplexType()
     if named:
         xsd_ct.name = uncapitalize(complexType.__name__)
 
-    for attribute in complexType._meta.attributes:
+    fields = flatten_groups(complexType._meta.all)
+
+    for attribute in (field for field in fields if isinstance(field, xsd.Attribute)):
         xsd_attr = xsd_attribute(attribute, schema, prefixes)
         xsd_ct.attributes.append(xsd_attr)
 
@@ -129,7 +143,7 @@ def xsd_complexType(complexType, named=True, schema=None, prefixes=None):
     else:
         container = xsd_ct
 
-    for element in complexType._meta.fields:
+    for element in (field for field in fields if not isinstance(field, (xsd.Attribute, xsd.Ref))):
         for element_ in element.xsd_elements():
             if element_._type is None:
                 # The type must be known in order to generate a valid schema. The
-- 
2.43.0


From 454f2b44bc4b8362e700a99f63007aec61ca05c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 37/82] fix: generate XSD in place for undeclared types derived
 from declared ones

---
 soapfish/py2xsd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 6eb7383..c1e8183 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -97,6 +97,11 @@ def create_xsd_element(element, schema=None, prefixes=None):
     return xsd_element
 
 
+def is_declared(complexType):
+    """Whether a schema declares the type: the schema might also be the one of a parent class."""
+    return complexType.SCHEMA is not None and complexType in complexType.SCHEMA.complexTypes
+
+
 def set_xsd_type(xsd_element, element, schema=None, prefixes=None):
     # SimpleType defined in place.
     if isinstance(element._passed_type, xsd.SimpleType):
@@ -104,7 +109,7 @@ def set_xsd_type(xsd_element, element, schema=None, prefixes=None):
         xsd_element.simpleType.restriction = xsdspec.Restriction()
         xsd_element.simpleType.restriction.base = get_xsd_type(element._type, schema, prefixes)
         add_facets(xsd_element.simpleType.restriction, element._type, element._type.__class__())
-    elif isinstance(element._passed_type, xsd.ComplexType) and element._type.SCHEMA is None:
+    elif isinstance(element._passed_type, xsd.ComplexType) and not is_declared(element._type.__class__):
         xsd_element.complexType = xsd_complexType(element._type.__class__, False, schema, prefixes)
     else:
         xsd_element.type = get_xsd_type(element._type, schema, prefixes)
-- 
2.43.0


From 1f1565ccb7b96da1e779073bc738f55bcb3d252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 38/82] fix: honour the HTTP status code given to a SOAP
 response

---
 soapfish/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/core.py b/soapfish/core.py
index d15a3df..9e1e6be 100644
--- a/soapfish/core.py
+++ b/soapfish/core.py
@@ -18,7 +18,7 @@ class SOAPResponse:
     def __init__(self, soap_body, soap_header=None, http_status_code=200, http_content=None, http_headers=None):
         self.soap_header = soap_header
         self.soap_body = soap_body
-        self.http_status_code = 200
+        self.http_status_code = http_status_code
         self.http_headers = {} if http_headers is None else http_headers
         self.http_content = http_content
 
-- 
2.43.0


From a1fd0681b7b0badcee79ee7eda57ff093ad1b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:42 +0000
Subject: [PATCH 39/82] fix: name responses which are not declared by a method
 after their body

---
 soapfish/soap_dispatch.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b31f38d..5805e72 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -197,13 +197,12 @@ class SOAPDispatcher:
             response.http_content = SOAP.get_error_response(error.code, error.message, header=response.soap_header)
             response.http_status_code = 500
         else:
-            tagname = uncapitalize(response.soap_body.__class__.__name__)
+            # There is no method if a middleware answered the request.
+            tagname = request.method and request.method.output
+            if not isinstance(tagname, str):
+                tagname = uncapitalize(response.soap_body.__class__.__name__)
             # self._validate_response(response.soap_body, tagname)
             # TODO: handle validation results
-            if isinstance(request.method.output, str):
-                tagname = request.method.output
-            else:
-                tagname = uncapitalize(response.content.__class__.__name__)
             response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header)
 
         return self._call_hook('soap-response', dispatcher=self, request=request, response=response)
-- 
2.43.0


From c9c5721df889c33973c419b2510dad2f308af764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 40/82] fix: call the hook for XSD responses

---
 soapfish/soap_dispatch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 5805e72..cab89a5 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -32,7 +32,7 @@ class SOAPDispatcher:
             hooks = {}
         else:
             for hook in hooks:
-                if not re.match(r'(soap|wsdl|xsd)-(request|response)', hook):
+                if not re.fullmatch(r'(soap|wsdl|xsd)-(request|response)', hook):
                     raise KeyError(f'Invalid dispatcher hook name: {hook}')
         self.hooks = hooks
 
@@ -229,7 +229,7 @@ class SOAPDispatcher:
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
 
-        return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
+        return self._call_hook('xsd-response', dispatcher=self, request=request, response=response)
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-- 
2.43.0


From 25b5fa445b350b1d1289e4b945d62de731c92ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 41/82] fix: use the existing header class for services with
 addressing

---
 soapfish/soap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index d5f6219..e8ca771 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -49,9 +49,9 @@ class Service:
         self.version = version
         self.use_wsa = use_wsa
         if use_wsa and input_header is None:
-            input_header = wsa.WSAsaHeader
+            input_header = wsa.Header
         if use_wsa and output_header is None:
-            output_header = wsa.WSAHeader
+            output_header = wsa.Header
         self.input_header = input_header
         self.output_header = output_header
 
-- 
2.43.0


From 3ac084da2ddb22cbe1569d891e8745d108df9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 42/82] fix: find the handlers and types of elements in
 substitution groups

---
 soapfish/soap_dispatch.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index cab89a5..e112c4f 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -92,16 +92,20 @@ class SOAPDispatcher:
         else:
             logger.debug('Finding handler using root tag of the SOAP body: %s', root_tag)
             try:
-                return next(m for m in self.service.methods if m.input == root_tag)
-            except StopIteration:
-                pass  # fall through and check for substitution group element
-            try:
-                # FIXME: Improve handling of namespaces to be less hacky...
-                e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
-                return next(m for m in self.service.methods if m.input == e.substitutionGroup.split(':')[-1])
+                return next(m for name in self._substitutable(root_tag) for m in self.service.methods if m.input == name)
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
 
+    def _substitutable(self, name):
+        """Return the name of the element followed by the heads of the substitution groups it belongs to."""
+        # FIXME: Improve handling of namespaces to be less hacky...
+        names = []
+        while name and name not in names:
+            names.append(name)
+            element = self.service.find_element_by_name(name)
+            name = element is not None and element.substitutionGroup and element.substitutionGroup.split(':')[-1]
+        return names
+
     def _parse_header(self, handler, soap_header):
         # TODO return soap fault if header is required but missing in the input
         if soap_header is None:
@@ -114,8 +118,9 @@ class SOAPDispatcher:
     def _parse_input(self, method, message):
         input_parser = method.input
         if isinstance(method.input, str):
-            element = self.service.find_element_by_name(method.input)
-            input_parser = element._type
+            root_tag = etree.QName(message.tag).localname
+            name = root_tag if method.input in self._substitutable(root_tag) else method.input
+            input_parser = self.service.find_element_by_name(name)._type
         return input_parser.parse_xmlelement(message)
 
     def _validate_response(self, return_object, tagname):
-- 
2.43.0


From e06add595bfb6a48663ad824a8314623ff8e03b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 43/82] fix: refuse SOAP envelopes without usable content

---
 soapfish/soap11.py        |  6 ++++--
 soapfish/soap_dispatch.py | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 2357533..8904bfe 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -1,5 +1,7 @@
 import enum
 
+from lxml import etree
+
 from . import namespaces as ns, xsd
 
 ENVELOPE_NAMESPACE = ns.soap11_envelope
@@ -57,10 +59,10 @@ class Body(xsd.ComplexType):
     Fault = xsd.Element(Fault, minOccurs=0)
 
     def parse_as(self, ContentType):
-        return ContentType.parse_xmlelement(self._xmlelement[0])
+        return ContentType.parse_xmlelement(self.content())
 
     def content(self):
-        return self._xmlelement[0]
+        return next(self._xmlelement.iterchildren(etree.Element), None)
 
 
 class Envelope(xsd.ComplexType):
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index e112c4f..7af96b2 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -6,7 +6,7 @@ from urllib.parse import parse_qs
 
 from lxml import etree
 
-from . import py2wsdl, py2xsd, wsa
+from . import py2wsdl, py2xsd, wsa, xsd
 from .core import SOAPError, SOAPRequest, SOAPResponse
 from .utils import uncapitalize, walk_schema_tree
 
@@ -63,7 +63,7 @@ class SOAPDispatcher:
         try:
             # note : no validation is performed
             envelope = SOAP.Envelope.parsexml(xml)
-        except etree.XMLSyntaxError as e:
+        except (etree.XMLSyntaxError, ValueError) as e:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
         # Actually this is more a stopgap measure than a real fix. The real
         # fix is to change SOAP.Envelope/ComplexType so it raises some kind of
@@ -73,6 +73,10 @@ class SOAPDispatcher:
         # SOAP 1.2: http://www.w3.org/2003/05/soap-envelope/
         if envelope.Body is None:
             raise SOAPError(SOAP.Code.CLIENT, 'Missing SOAP body')
+        if envelope.Body.content() is None:
+            raise SOAPError(SOAP.Code.CLIENT, 'Empty SOAP body')
+        if envelope.Header is xsd.NIL:
+            envelope.Header = None
         return envelope
 
     def _find_handler_for_request(self, request, body):
@@ -134,7 +138,7 @@ class SOAPDispatcher:
     def _validate_header(self, soap_header):
         if soap_header is None:
             return
-        for children in soap_header._xmlelement.getchildren():
+        for children in soap_header._xmlelement.iterchildren(etree.Element):
             namespace = children.nsmap.get(children.prefix)
             if namespace == wsa.NAMESPACE:
                 wsa.XML_SCHEMA.assertValid(children)
@@ -165,8 +169,11 @@ class SOAPDispatcher:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
         request.method = self._find_handler_for_request(request, soap_body)
-        request.soap_header = self._parse_header(request.method, soap_header)
-        request.soap_body = self._parse_input(request.method, soap_body)
+        try:
+            request.soap_header = self._parse_header(request.method, soap_header)
+            request.soap_body = self._parse_input(request.method, soap_body)
+        except ValueError as e:
+            raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
     def dispatch(self, request):
         request_method = request.environ.get('REQUEST_METHOD', '')
-- 
2.43.0


From 2f539640d0bc71f0d127906a93d84f370d1032c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 44/82] fix: escape characters in fault messages which XML does
 not allow

---
 soapfish/soap11.py | 9 ++++++++-
 soapfish/soap12.py | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 8904bfe..c709af4 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -1,4 +1,5 @@
 import enum
+import re
 
 from lxml import etree
 
@@ -8,9 +9,15 @@ ENVELOPE_NAMESPACE = ns.soap11_envelope
 BINDING_NAMESPACE = ns.wsdl_soap
 CONTENT_TYPE = 'text/xml'
 NAME = 'soap11'
+INVALID_CHARACTERS = re.compile('[^\\t\\n\\r\\x20-\\ud7ff\\ue000-\\ufffd\\U00010000-\\U0010ffff]')
 
 
 # --- Functions ---------------------------------------------------------------
+def printable(message):
+    """Escape all characters which cannot be part of a XML document."""
+    return INVALID_CHARACTERS.sub(lambda m: m.group().encode('unicode_escape').decode(), message)
+
+
 def determine_soap_action(request):
     if request.environ.get('SOAPACTION'):
         return request.environ.get('SOAPACTION').replace('"', '')
@@ -25,7 +32,7 @@ def build_http_request_headers(soapAction):
 
 
 def get_error_response(code, message, actor=None, header=None):
-    return Envelope.error_response(code, message, actor=actor, header=header)
+    return Envelope.error_response(code, printable(message), actor=actor, header=header)
 
 
 def parse_fault_message(fault):
diff --git a/soapfish/soap12.py b/soapfish/soap12.py
index e84dbd0..ad29567 100644
--- a/soapfish/soap12.py
+++ b/soapfish/soap12.py
@@ -19,7 +19,7 @@ def build_http_request_headers(soapAction):
 
 
 def get_error_response(code, message, actor=None, header=None):
-    return Envelope.error_response(code, message, actor=actor, header=header)
+    return Envelope.error_response(code, soap11.printable(message), actor=actor, header=header)
 
 
 def parse_fault_message(fault):
-- 
2.43.0


From 3231ebf20592ac8ab16e164776b0969f7cf1d37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 45/82] fix: read the SOAP action from the headers WSGI
 provides

---
 soapfish/soap11.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index c709af4..7afda59 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -19,12 +19,10 @@ def printable(message):
 
 
 def determine_soap_action(request):
-    if request.environ.get('SOAPACTION'):
-        return request.environ.get('SOAPACTION').replace('"', '')
-    elif request.environ.get('ACTION'):
-        return request.environ.get('ACTION').replace('"', '')
-    else:
-        return None
+    for name in ('SOAPACTION', 'HTTP_SOAPACTION', 'ACTION', 'HTTP_ACTION'):
+        if request.environ.get(name):
+            return request.environ.get(name).replace('"', '')
+    return None
 
 
 def build_http_request_headers(soapAction):
-- 
2.43.0


From 59a4cb33d9288e54f1565b95242c86a3f915d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 46/82] fix: return bytes from the WSGI application

---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 7af96b2..7eab7f0 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -267,4 +267,5 @@ class WsgiSoapApplication:
         soap_request = SOAPRequest(req_env, content)
         response = self.dispatcher.dispatch(soap_request)
         start_response(response.http_status_text, list(response.http_headers.items()))
-        return [response.http_content]
+        content = response.http_content
+        return [content.encode() if isinstance(content, str) else content]
-- 
2.43.0


From 419dc6eb856392831aaed2f34b27d1189698b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 47/82] fix: serve all schemas of a service which have a
 location

---
 soapfish/soap_dispatch.py | 5 +++--
 soapfish/utils.py         | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 7eab7f0..e5f5f5e 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -2,7 +2,7 @@ import functools
 import logging
 import re
 import string
-from urllib.parse import parse_qs
+from urllib.parse import parse_qs, quote
 
 from lxml import etree
 
@@ -245,7 +245,8 @@ class SOAPDispatcher:
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-            e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
+            if 'schemaLocation' in e.attrib:
+                e.attrib['schemaLocation'] = '?xsd=%s' % quote(e.attrib['schemaLocation'])
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
diff --git a/soapfish/utils.py b/soapfish/utils.py
index b398c39..a9cf654 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -272,11 +272,13 @@ def find_xsd_namespaces(xml):
 def walk_schema_tree(schemas, callback, seen=None):
     if seen is None:
         seen = {}
-    for schema in schemas:
+    known = list(schemas)
+    for schema in known:
         for item in itertools.chain(schema.imports, schema.includes):
-            if item.location not in seen:
+            if item.location and item.location not in seen:
                 seen[item.location] = callback(item)
-                walk_schema_tree([item], callback, seen)
+            if not any(item is other for other in known):
+                known.append(item)
     return seen
 
 
-- 
2.43.0


From 12685b7c3d08806ba68804668a507fc35892d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 48/82] fix: substitute the scheme and host of a WSDL document
 literally

---
 soapfish/soap_dispatch.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index e5f5f5e..2443659 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -1,8 +1,8 @@
 import functools
 import logging
 import re
-import string
 from urllib.parse import parse_qs, quote
+from xml.sax.saxutils import escape
 
 from lxml import etree
 
@@ -14,6 +14,8 @@ __all__ = ['SOAPDispatcher']
 
 logger = logging.getLogger(__name__)
 
+SCHEME_VARIABLES = ('X_FORWARDED_PROTO', 'HTTP_X_FORWARDED_PROTO', 'wsgi.url_scheme')
+
 
 def call_method(request):
     request.dispatcher._prepare_request(request)
@@ -221,11 +223,12 @@ class SOAPDispatcher:
 
     def handle_wsdl_request(self, request):
         request = self._call_hook('wsdl-request', dispatcher=self, request=request)
-        scheme = request.environ.get('X_FORWARDED_PROTO', request.environ.get('wsgi.url_scheme', 'http'))
+        scheme = next(filter(None, map(request.environ.get, SCHEME_VARIABLES)), 'http')
         host = request.environ.get('HTTP_HOST')
         wsdl = self.wsdl
         if scheme and host:
-            wsdl = string.Template(wsdl.decode()).safe_substitute(scheme=scheme, host=host).encode()
+            context = {name: escape(value, {'"': '&quot;'}) for name, value in (('scheme', scheme), ('host', host))}
+            wsdl = re.sub(r'\$\{(scheme|host)\}', lambda m: context[m.group(1)], wsdl.decode()).encode()
         response = SOAPResponse('wsdl', http_content=wsdl, http_headers={'Content-Type': 'text/xml'})
         return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
 
-- 
2.43.0


From e66da1c9762b0d25728771c04fbefe03f0ef9a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 49/82] fix: give dispatchers the same environment and content
 for all frameworks

---
 soapfish/django_.py | 2 ++
 soapfish/flask_.py  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/django_.py b/soapfish/django_.py
index 3b413cc..7f59012 100644
--- a/soapfish/django_.py
+++ b/soapfish/django_.py
@@ -9,6 +9,8 @@ class DjangoEnvironWrapper:
         self.environ = environ
 
     def get(self, name, default=None):
+        if name in self.environ:
+            return self.environ[name]
         name = name.replace('-', '_').upper()
         for key in (name, 'HTTP_' + name):
             if key in self.environ:
diff --git a/soapfish/flask_.py b/soapfish/flask_.py
index 3c6894f..9480883 100644
--- a/soapfish/flask_.py
+++ b/soapfish/flask_.py
@@ -8,7 +8,7 @@ def flask_dispatcher(service, **dispatcher_kwargs):
     from flask import request, Response
 
     def flask_dispatch():
-        soap_request = SOAPRequest(request.environ, request.data)
+        soap_request = SOAPRequest(request.environ, request.get_data())
         soap_request._original_request = request
         soap_dispatcher = SOAPDispatcher(service, **dispatcher_kwargs)
         soap_response = soap_dispatcher.dispatch(soap_request)
-- 
2.43.0


From 09a476f908c8b0644cc1cacf728f17467a153818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 50/82] fix: substitute the scheme and host in locations only

---
 soapfish/soap11.py        | 2 +-
 soapfish/soap_dispatch.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 7afda59..65719e6 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -15,7 +15,7 @@ INVALID_CHARACTERS = re.compile('[^\\t\\n\\r\\x20-\\ud7ff\\ue000-\\ufffd\\U00010
 # --- Functions ---------------------------------------------------------------
 def printable(message):
     """Escape all characters which cannot be part of a XML document."""
-    return INVALID_CHARACTERS.sub(lambda m: m.group().encode('unicode_escape').decode(), message)
+    return message and INVALID_CHARACTERS.sub(lambda m: m.group().encode('unicode_escape').decode(), message)
 
 
 def determine_soap_action(request):
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 2443659..b749d1a 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -1,6 +1,7 @@
 import functools
 import logging
 import re
+import string
 from urllib.parse import parse_qs, quote
 from xml.sax.saxutils import escape
 
@@ -228,7 +229,9 @@ class SOAPDispatcher:
         wsdl = self.wsdl
         if scheme and host:
             context = {name: escape(value, {'"': '&quot;'}) for name, value in (('scheme', scheme), ('host', host))}
-            wsdl = re.sub(r'\$\{(scheme|host)\}', lambda m: context[m.group(1)], wsdl.decode()).encode()
+            # Nothing but the locations is a template.
+            wsdl = re.sub(r'\slocation=("[^"]*"|\'[^\']*\')',
+                          lambda m: string.Template(m.group()).safe_substitute(context), wsdl.decode()).encode()
         response = SOAPResponse('wsdl', http_content=wsdl, http_headers={'Content-Type': 'text/xml'})
         return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
 
-- 
2.43.0


From a0c9e904b8180374dee2583f8f3110b15bc02ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 51/82] fix: read response headers declared for the whole
 service

---
 soapfish/soap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index e8ca771..d05377c 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -104,8 +104,9 @@ class Stub:
         soap = self.service.version
         envelope = soap.Envelope.parsexml(content)
 
-        if envelope.Header and method and method.output_header:
-            response_header = envelope.Header.parse_as(method.output_header)
+        output_header = method and method.output_header or self.service.output_header
+        if envelope.Header and output_header:
+            response_header = envelope.Header.parse_as(output_header)
         else:
             response_header = None
 
-- 
2.43.0


From 84e9b37452cd66b38d3226dd1a32fc426ee9c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 52/82] fix: render the content of header blocks in the form of
 its schema

---
 soapfish/soap11.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 65719e6..aa9e6eb 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -50,7 +50,17 @@ class Header(xsd.ComplexType):
         return ContentType.parse_xmlelement(self._xmlelement)
 
     def render(self, parent, instance, namespace=None, elementFormDefault=None):
-        return super().render(parent, instance, instance.SCHEMA.targetNamespace, elementFormDefault)
+        # Header blocks are always qualified, the form of the elements within depends on the schema of their type.
+        for field in instance._meta.all:
+            value = getattr(instance, field._name)
+            content = value[0] if isinstance(value, list) and value else value
+            schema = getattr(content, 'SCHEMA', None) or self.SCHEMA
+            namespace = self.SCHEMA.targetNamespace if field.namespace is None else field.namespace
+            first = len(parent)
+            field.render(parent, field.tagname or field._name, value, namespace, schema.elementFormDefault)
+            for block in parent[first:]:
+                if namespace and not block.tag.startswith('{'):
+                    block.tag = f'{{{namespace}}}{block.tag}'
 
 
 class Fault(xsd.ComplexType):
-- 
2.43.0


From 30a849442a4a147ae63f739dd86f5a58db3fc852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:41 +0000
Subject: [PATCH 53/82] fix: do not take a body element named message for the
 field of the body

---
 soapfish/xsd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a718751..1924a5b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -753,6 +753,9 @@ class ClassNamedElement(Element):
         self._type.render(xmlelement, value, namespace=namespace, elementFormDefault=value.SCHEMA.elementFormDefault)
         parent.append(xmlelement)
 
+    def parse(self, instance, field_name, xmlelement):
+        pass  # The tag of this element does not depend on the field name, neither its type is known.
+
 
 class Attribute(Element):
     """
-- 
2.43.0


From 00ff7f7ea808f59d2eca29afb49dd6f08f34c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 54/82] fix: let middlewares use the environment as a mapping
 with Django

---
 soapfish/django_.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/soapfish/django_.py b/soapfish/django_.py
index 7f59012..0775cf5 100644
--- a/soapfish/django_.py
+++ b/soapfish/django_.py
@@ -4,17 +4,15 @@ from .soap_dispatch import SOAPDispatcher
 __all__ = ['django_dispatcher']
 
 
-class DjangoEnvironWrapper:
-    def __init__(self, environ):
-        self.environ = environ
+class DjangoEnvironWrapper(dict):
 
     def get(self, name, default=None):
-        if name in self.environ:
-            return self.environ[name]
+        if name in self:
+            return self[name]
         name = name.replace('-', '_').upper()
         for key in (name, 'HTTP_' + name):
-            if key in self.environ:
-                return self.environ[key]
+            if key in self:
+                return self[key]
         return default
 
 
-- 
2.43.0


From 471b18c56b36594bce50593df6ecf798562e4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 55/82] fix: substitute hosts in single-quoted locations as
 well

---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b749d1a..c5d6919 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -228,7 +228,7 @@ class SOAPDispatcher:
         host = request.environ.get('HTTP_HOST')
         wsdl = self.wsdl
         if scheme and host:
-            context = {name: escape(value, {'"': '&quot;'}) for name, value in (('scheme', scheme), ('host', host))}
+            context = {name: escape(value, {'"': '&quot;', "'": '&apos;'}) for name, value in (('scheme', scheme), ('host', host))}
             # Nothing but the locations is a template.
             wsdl = re.sub(r'\slocation=("[^"]*"|\'[^\']*\')',
                           lambda m: string.Template(m.group()).safe_substitute(context), wsdl.decode()).encode()
-- 
2.43.0


From 17eaccfc8b28111a711f31f6500e6c439317da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 56/82] fix: look up elements in schemas which refer to each
 other

---
 soapfish/xsd.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 1924a5b..4cc26b9 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1301,14 +1301,18 @@ class Schema:
         for t in types:
             t._force_elements_type_evalution()
 
-    def get_element_by_name(self, name):
+    def get_element_by_name(self, name, seen=()):
         if name in self.elements:
             return self.elements[name]
 
+        # Schemas may refer to each other.
+        seen = seen or []
+        seen.append(self)
         for i in itertools.chain(self.imports, self.includes):
-            element = i.get_element_by_name(name)
-            if element is not None:
-                return element
+            if not any(i is other for other in seen):
+                element = i.get_element_by_name(name, seen)
+                if element is not None:
+                    return element
 
         return None
 
-- 
2.43.0


From 8f8fce6897985df79c02d91dad58ac377e968fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 57/82] fix: make the mixed attribute of complexContent
 optional

---
 soapfish/xsdspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index 0b043b9..e1c12dd 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -113,7 +113,7 @@ class Extension(xsd.ComplexType):
 
 class ComplexContent(xsd.ComplexType):
     NAMESPACE = ns.xsd
-    mixed = xsd.Attribute(xsd.Boolean)
+    mixed = xsd.Attribute(xsd.Boolean, use=xsd.Use.OPTIONAL)
     extension = xsd.Element(Extension)
     restriction = xsd.Element(Extension)
 
-- 
2.43.0


From 753213da1a913d0ec2c6065d8c51854f52af5de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 58/82] fix: allow schemas without a target namespace

---
 soapfish/xsdspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index e1c12dd..26bc2e6 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -146,7 +146,7 @@ class Include(xsd.ComplexType):
 
 class Schema(xsd.ComplexType):
     NAMESPACE = ns.xsd
-    targetNamespace = xsd.Attribute(xsd.String)
+    targetNamespace = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
     elementFormDefault = xsd.Attribute(
         xsd.String(enumeration=['qualified', 'unqualified']),
         use=xsd.Use.OPTIONAL, default='unqualified',
-- 
2.43.0


From 69f551c0c5f814a1e114ac096ae15d40abcf2622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 59/82] fix: do not take elements of another namespace for
 those declared with a namespace

---
 soapfish/xsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 4cc26b9..aa493b5 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1099,7 +1099,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if not isinstance(xmlelement.tag, str):
             return False  # Neither comments nor processing instructions are elements.
         ns, tag = gettagns(xmlelement.tag)
-        return tag == (field.tagname or field._name)
+        namespace = getattr(field, 'namespace', None)
+        return tag == (field.tagname or field._name) and (not ns or not namespace or ns == namespace)
 
     @classmethod
     def _find_subelement(cls, field, xmlelement):
-- 
2.43.0


From 1288dd3ac44504e41ddf4037d94adf28a66697f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 60/82] fix: write WSDL documentation and extensibility
 elements where WSDL 1.1 wants them

---
 soapfish/wsdl11.py | 20 +++++++++++---------
 soapfish/wsdl12.py | 10 +++++-----
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/soapfish/wsdl11.py b/soapfish/wsdl11.py
index e4a54c3..ba65702 100644
--- a/soapfish/wsdl11.py
+++ b/soapfish/wsdl11.py
@@ -64,8 +64,8 @@ class SOAP_Address(xsd.ComplexType):
 
 
 class Types(xsd.ComplexType):
-    schemas = xsd.ListElement(xsdspec.Schema, 'schema', namespace=xsdspec.XSD_NAMESPACE)
     documentation = xsd.Element(xsd.String, minOccurs=0)
+    schemas = xsd.ListElement(xsdspec.Schema, 'schema', namespace=xsdspec.XSD_NAMESPACE)
 
 
 class Part(xsd.ComplexType):
@@ -76,8 +76,8 @@ class Part(xsd.ComplexType):
 
 class Message(xsd.ComplexType):
     name = xsd.Attribute(xsd.String)
-    parts = xsd.ListElement(Part, tagname='part', minOccurs=0)
     documentation = xsd.Element(xsd.String, minOccurs=0)
+    parts = xsd.ListElement(Part, tagname='part', minOccurs=0)
 
     # FIXME: Remove this artificial restriction on the number of parts?!
     @property
@@ -123,30 +123,32 @@ class Fault(xsd.ComplexType):
 
 class Operation(xsd.ComplexType):
     name = xsd.Attribute(xsd.String)
-    input = xsd.Element(Input, minOccurs=0)
-    output = xsd.Element(Output, minOccurs=0)
-    faults = xsd.ListElement(Fault, 'fault', minOccurs=0)
     documentation = xsd.Element(xsd.String, minOccurs=0)
 
     # Extensibility Elements:
     operation = xsd.Element(SOAP_Operation, minOccurs=0, namespace=ns.wsdl_soap)
 
+    input = xsd.Element(Input, minOccurs=0)
+    output = xsd.Element(Output, minOccurs=0)
+    faults = xsd.ListElement(Fault, 'fault', minOccurs=0)
+
 
 class PortType(xsd.ComplexType):
     name = xsd.Attribute(xsd.String)
-    operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
     documentation = xsd.Element(xsd.String, minOccurs=0)
+    operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
 
 
 class Binding(xsd.ComplexType):
     name = xsd.Attribute(xsd.String)
     type = xsd.Attribute(xsd.String)
-    operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
     documentation = xsd.Element(xsd.String, minOccurs=0)
 
     # Extensibility Elements:
     binding = xsd.Element(SOAP_Binding, namespace=ns.wsdl_soap)
 
+    operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
+
 
 class Port(xsd.ComplexType):
     name = xsd.Attribute(xsd.String)
@@ -159,20 +161,20 @@ class Port(xsd.ComplexType):
 
 class Service(xsd.ComplexType):
     name = xsd.Attribute(xsd.String)
-    ports = xsd.ListElement(Port, 'port', minOccurs=0)
     documentation = xsd.Element(xsd.String, minOccurs=0)
+    ports = xsd.ListElement(Port, 'port', minOccurs=0)
 
 
 class Definitions(xsd.ComplexType):
     name = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
     targetNamespace = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    documentation = xsd.Element(xsd.String, minOccurs=0)
     imports = xsd.ListElement(Import, 'import', minOccurs=0)
     types = xsd.Element(Types, minOccurs=0)
     messages = xsd.ListElement(Message, 'message', minOccurs=0)
     portTypes = xsd.ListElement(PortType, 'portType', minOccurs=0)
     bindings = xsd.ListElement(Binding, 'binding', minOccurs=0)
     services = xsd.ListElement(Service, 'service', minOccurs=0)
-    documentation = xsd.Element(xsd.String, minOccurs=0)
 
 
 SCHEMA = xsd.Schema(
diff --git a/soapfish/wsdl12.py b/soapfish/wsdl12.py
index 7d5ca44..a5a8149 100644
--- a/soapfish/wsdl12.py
+++ b/soapfish/wsdl12.py
@@ -72,24 +72,24 @@ class Fault(wsdl11.Fault):
 
 
 class Operation(wsdl11.Operation):
+    # Extensibility Elements:
+    operation = xsd.Element(SOAP_Operation, minOccurs=0, namespace=ns.wsdl_soap12)
+
     input = xsd.Element(Input, minOccurs=0)
     output = xsd.Element(Output, minOccurs=0)
     faults = xsd.ListElement(Fault, 'fault', minOccurs=0)
 
-    # Extensibility Elements:
-    operation = xsd.Element(SOAP_Operation, minOccurs=0, namespace=ns.wsdl_soap12)
-
 
 class PortType(wsdl11.PortType):
     operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
 
 
 class Binding(wsdl11.Binding):
-    operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
-
     # Extensibility Elements:
     binding = xsd.Element(SOAP_Binding, namespace=ns.wsdl_soap12)
 
+    operations = xsd.ListElement(Operation, 'operation', minOccurs=0)
+
 
 class Port(wsdl11.Port):
     # Extensibility Elements:
-- 
2.43.0


From beb507da7a7f34698ffb4e6703e5ea39ccf94d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 61/82] fix: name the parts of WSDL messages as declared by the
 method

---
 soapfish/py2wsdl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 5fc337d..557ccb1 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -64,9 +64,9 @@ def build_portTypes(wsdl, definitions, service):
     definitions.portTypes.append(portType)
 
 
-def build_part(wsdl, service, obj):
+def build_part(wsdl, service, obj, name):
     prefixes = get_prefixes(service.schemas)
-    part = wsdl.Part(name='body')
+    part = wsdl.Part(name=name)
     if isinstance(obj, str):
         element = service.find_element_by_name(obj)
         part.element = prefixes.get(element and element.namespace, 'sns') + ':' + obj
@@ -78,11 +78,11 @@ def build_part(wsdl, service, obj):
 def build_messages(wsdl, definitions, service):
     for method in service.methods:
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
-        inputMessage.parts = [build_part(wsdl, service, method.input)]
+        inputMessage.parts = [build_part(wsdl, service, method.input, method.inputPartName)]
         definitions.messages.append(inputMessage)
 
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
-        outputMessage.parts = [build_part(wsdl, service, method.output)]
+        outputMessage.parts = [build_part(wsdl, service, method.output, method.outputPartName)]
         definitions.messages.append(outputMessage)
 
 
-- 
2.43.0


From fee6ae2d54603a0803cb3e23d161e10e8553ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 62/82] fix: qualify body elements with the namespace they are
 declared in

---
 soapfish/soap.py          |  7 ++++++-
 soapfish/soap11.py        |  4 ++--
 soapfish/soap12.py        |  4 ++--
 soapfish/soap_dispatch.py |  4 +++-
 soapfish/xsd.py           | 13 ++++++++++---
 5 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index d05377c..213786f 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -66,6 +66,10 @@ class Service:
                 break
         return element
 
+    def find_element_namespace(self, name):
+        element = self.find_element_by_name(name)
+        return None if element is None else element.namespace
+
     def route(self, operationName):
         """Return a decorator that binds a Python function to service method."""
         method = self.get_method(operationName)
@@ -129,7 +133,8 @@ class Stub:
         tagname = method.input if isinstance(method.input, str) else uncapitalize(parameter.__class__.__name__)
 
         auth = (self.username, self.password) if self.username else None
-        data = soap.Envelope.response(tagname, parameter, header=header)
+        namespace = self.service.find_element_namespace(tagname)
+        data = soap.Envelope.response(tagname, parameter, header=header, namespace=namespace)
         headers = soap.build_http_request_headers(method.soapAction)
 
         logger.info("Call '%s' on '%s'", operationName, self.location)
diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index aa9e6eb..576e2be 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -85,12 +85,12 @@ class Envelope(xsd.ComplexType):
     Body = xsd.Element(Body)
 
     @classmethod
-    def response(cls, tagname, return_object, header=None):
+    def response(cls, tagname, return_object, header=None, namespace=None):
         envelope = cls()
         if header is not None:
             envelope.Header = header
         envelope.Body = Body()
-        envelope.Body.message = xsd.NamedType(name=tagname, value=return_object)
+        envelope.Body.message = xsd.NamedType(name=tagname, value=return_object, namespace=namespace)
         return envelope.xml('Envelope', namespace=ENVELOPE_NAMESPACE,
                             elementFormDefault=xsd.ElementFormDefault.QUALIFIED, pretty_print=False)
 
diff --git a/soapfish/soap12.py b/soapfish/soap12.py
index ad29567..d7db5b3 100644
--- a/soapfish/soap12.py
+++ b/soapfish/soap12.py
@@ -63,12 +63,12 @@ class Envelope(xsd.ComplexType):
     Body = xsd.Element(Body)
 
     @classmethod
-    def response(cls, tagname, return_object, header=None):
+    def response(cls, tagname, return_object, header=None, namespace=None):
         envelope = cls()
         if header is not None:
             envelope.Header = header
         envelope.Body = Body()
-        envelope.Body.message = xsd.NamedType(name=tagname, value=return_object)
+        envelope.Body.message = xsd.NamedType(name=tagname, value=return_object, namespace=namespace)
         return envelope.xml('Envelope', namespace=ENVELOPE_NAMESPACE,
                             elementFormDefault=xsd.ElementFormDefault.QUALIFIED, pretty_print=False)
 
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index c5d6919..c1b10da 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -218,7 +218,9 @@ class SOAPDispatcher:
                 tagname = uncapitalize(response.soap_body.__class__.__name__)
             # self._validate_response(response.soap_body, tagname)
             # TODO: handle validation results
-            response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header)
+            namespace = self.service.find_element_namespace(tagname)
+            response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header,
+                                                           namespace=namespace)
 
         return self._call_hook('soap-response', dispatcher=self, request=request, response=response)
 
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index aa493b5..7a17c14 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -741,13 +741,16 @@ class ClassNamedElement(Element):
         if value is None:
             return
         tagname = value.name
+        tag_namespace = value.namespace
         value = value.value
         if value is None:
             return
 
         namespace = value.SCHEMA.targetNamespace
-        if namespace:
-            tagname = f'{{{namespace}}}{tagname}'
+        if tag_namespace is None:
+            tag_namespace = namespace
+        if tag_namespace:
+            tagname = f'{{{tag_namespace}}}{tagname}'
 
         xmlelement = etree.Element(tagname)
         self._type.render(xmlelement, value, namespace=namespace, elementFormDefault=value.SCHEMA.elementFormDefault)
@@ -1345,6 +1348,10 @@ class NamedType(ComplexType):
     name = Element(String)
     value = Element(ComplexType)
 
-    def __init__(self, name=None, value=None):
+    namespace = Element(String, minOccurs=0)
+
+    def __init__(self, name=None, value=None, namespace=None):
         self.name = name
         self.value = value
+        # The element might be declared in another schema than its type.
+        self.namespace = namespace
-- 
2.43.0


From 12c3ec73e2c1d5cb9daf9e3924d577082f4568f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 63/82] fix: send an empty SOAP action for methods without one

---
 soapfish/soap11.py | 2 +-
 soapfish/soap12.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 576e2be..6ff1854 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -26,7 +26,7 @@ def determine_soap_action(request):
 
 
 def build_http_request_headers(soapAction):
-    return {'Content-Type': CONTENT_TYPE, 'SOAPAction': soapAction}
+    return {'Content-Type': CONTENT_TYPE, 'SOAPAction': soapAction or ''}
 
 
 def get_error_response(code, message, actor=None, header=None):
diff --git a/soapfish/soap12.py b/soapfish/soap12.py
index d7db5b3..324c70b 100644
--- a/soapfish/soap12.py
+++ b/soapfish/soap12.py
@@ -15,7 +15,7 @@ def determine_soap_action(request):
 
 
 def build_http_request_headers(soapAction):
-    return {'Content-Type': CONTENT_TYPE + f'; action="{soapAction}"'}
+    return {'Content-Type': CONTENT_TYPE + f'; action="{soapAction or ""}"'}
 
 
 def get_error_response(code, message, actor=None, header=None):
-- 
2.43.0


From b766de63da5529912c4d32829fe7cbd2eaa5a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 64/82] fix: resolve the prefixes of each schema of a WSDL on
 their own

---
 soapfish/utils.py   | 2 +-
 soapfish/wsdl2py.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index a9cf654..5b5fb20 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -264,7 +264,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
 # --- Other Functions ---------------------------------------------------------
 def find_xsd_namespaces(xml):
     nsmap = xml.nsmap.copy()
-    for x in xml.xpath('//*[local-name()="schema"]'):
+    for x in xml.xpath('descendant-or-self::*[local-name()="schema"]'):
         nsmap.update(x.nsmap)
     return {k for k, v in nsmap.items() if v in (ns.xsd, ns.xsd2000)}
 
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 84c7ada..d147662 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -95,7 +95,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
 
     kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_types': [], 'known_paths': []}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
-    schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
+    schemas = ''.join(schema_to_py(schema, find_xsd_namespaces(schema._xmlelement), **kw) for schema in schemas)
 
     env = get_rendering_environment(xsd_namespaces, module='soapfish.wsdl2py')
     tpl = env.get_template('wsdl.jinja2')
-- 
2.43.0


From 6892acb032c4a1a997dc1a8999991416b975f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:26 +0000
Subject: [PATCH 65/82] fix: keep dollar signs in service locations of
 generated code

---
 soapfish/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 5b5fb20..9f1c53d 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -171,7 +171,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             raise ValueError(f'Unknown URL component: {item}') from e
 
     def url_template(url):
-        o = list(urlparse(url))
+        o = list(urlparse(url.replace('$', '$$')))
         o[0:2] = ['${scheme}', '${host}']
         return urlunparse(o)
 
-- 
2.43.0


From 20188c4c44362ef20731ef1414de08b029b70fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 66/82] fix: generate valid Python for any names, message types
 and one-way operations of a WSDL

---
 soapfish/templates/wsdl.jinja2 | 37 +++++++++++++++++-----------------
 soapfish/utils.py              |  7 +++++++
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index bf94871..dca1081 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,9 +28,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
+def {{ operation.name|identifier(module_names) }}(request, {{ _im.part|parameter(['request']) }}):
     # TODO: Put your implementation here.
-    return {{ _om.part.element|remove_namespace }}
+    return{% if _om %} {{ _om.part|parameter }}{% endif +%}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -68,17 +68,17 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- endfor %}
 {# [blank line] #}
 {%- endif %}
-{{ operation.name }}_method = xsd.Method(
-    {% if is_server %}function={{ operation.name }},
+{{ (operation.name ~ '_method')|identifier }} = xsd.Method(
+    {% if is_server %}function={{ operation.name|identifier(module_names) }},
     {% endif -%}
     soapAction={{ operation.operation.soapAction|quote }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
     input={{ _im.part.element|remove_namespace|quote }},
-    inputPartName={{ _im.part.name|quote }},
-    {%- else -%}
+    {%- else %}
     input={{ _im.part.type|remove_namespace|capitalize }},
-    {%- endif -%}
+    {%- endif %}
+    inputPartName={{ _im.part.name|quote }},
     {%- endif -%}
     {%- if _imh %}
     input_header={{ _im.name }}Headers,
@@ -86,10 +86,10 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- if _om.parts -%}
     {%- if _om.part.element %}
     output={{ _om.part.element|remove_namespace|quote }},
-    outputPartName={{ _om.part.name|quote }},
-    {%- else -%}
+    {%- else %}
     output={{ _om.part.type|remove_namespace|capitalize }},
-    {%- endif -%}
+    {%- endif %}
+    outputPartName={{ _om.part.name|quote }},
     {%- endif -%}
     {%- if _omh %}
     output_header={{ _om.name }}Headers,
@@ -106,7 +106,7 @@ class {{ _om.name }}Headers(BaseHeader):
 # SOAP Service
 {# [blank line] #}
 {# [blank line] #}
-{{ port.name }}_SERVICE = soap.Service(
+{{ (port.name ~ '_SERVICE')|identifier }} = soap.Service(
     name={{ port.name|quote }},
     targetNamespace={{ definitions.targetNamespace|quote }},
     location={{ port.address.location|url_template|quote }},
@@ -116,7 +116,7 @@ class {{ _om.name }}Headers(BaseHeader):
     {%- else %}
     version=soap.SOAPVersion.SOAP12,
     {%- endif %}
-    methods=[{% for o in binding.operations %}{{ o.name }}_method{% if not loop.last %}, {% endif %}{% endfor %}],
+    methods=[{% for o in binding.operations %}{{ (o.name ~ '_method')|identifier }}{% if not loop.last %}, {% endif %}{% endfor %}],
 )
 {# [blank line] #}
 {# [blank line] #}
@@ -126,26 +126,27 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 # NOTE: Uncomment the following lines to turn on dispatching for Django:
 # from soapfish.django_ import django_dispatcher
-# dispatcher = django_dispatcher({{ port.name }}_SERVICE)
+# dispatcher = django_dispatcher({{ (port.name ~ '_SERVICE')|identifier }})
 {# [blank line] #}
 {# [blank line] #}
 # NOTE: Put these lines in the urls.py for your project or application:
 # urlpatterns += patterns('',
-#     ({{ service.ports.0.address.location|url_regex|quote_raw }}, '<module>.dispatcher'),
+#     ({{ port.address.location|url_regex|quote_raw }}, '<module>.dispatcher'),
 # )
 {%- else %}
 ##############################################################################
 # SOAP Service Stub
 {# [blank line] #}
 {# [blank line] #}
-class {{ port.name }}ServiceStub(soap.Stub):
-    SERVICE = {{ port.name }}_SERVICE
+class {{ (port.name ~ 'ServiceStub')|identifier }}(soap.Stub):
+    SERVICE = {{ (port.name ~ '_SERVICE')|identifier }}
     SCHEME = {{ port.address.location|url_component('scheme')|quote }}
     HOST = {{ port.address.location|url_component('netloc')|quote }}
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-        return self.call({{ operation.name|quote }}, {{ _im.part.element|remove_namespace }}, header=header)
+{%- set _parameter = _im.part|parameter(['self', 'header']) %}
+    def {{ operation.name|identifier(stub_names) }}(self, {{ _parameter }}, header=None):
+        return self.call({{ operation.name|quote }}, {{ _parameter }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 9f1c53d..92005fd 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -150,6 +150,9 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def comment(value):
         return ''.join(c if c.isprintable() else ' ' for c in str(value))
 
+    def parameter(part, reserved=()):
+        return identifier(remove_namespace(part.element or part.type), reserved)
+
     def use(value):
         from . import xsd
         if value == xsd.Use.OPTIONAL:
@@ -236,7 +239,9 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         capitalize=capitalize,
         comment=comment,
         facets=facets,
+        identifier=identifier,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
+        parameter=parameter,
         quote=quote,
         quote_raw=quote_raw,
         remove_namespace=remove_namespace,
@@ -254,9 +259,11 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         get_by_name=wsdl.get_by_name,
         get_message_header=wsdl.get_message_header,
         get_message_object=wsdl.get_message_object,
+        module_names={'BaseHeader', 'soap', 'wsa', 'xsd'},
         preamble={'module': module, 'generated': datetime.now(timezone.utc)},
         schema_name=schema_name,
         schema_select=schema_select,
+        stub_names={*dir(soap.Stub), 'location', 'password', 'service', 'username'},
     )
     return env
 
-- 
2.43.0


From 4d71d94c268da004fa26dd677f54f65165efb507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 67/82] fix: generate header classes for blocks of any name,
 schema or message

---
 soapfish/templates/wsdl.jinja2 | 43 +++++++++++++++++-----------------
 soapfish/utils.py              | 17 ++++++++++++++
 soapfish/wsdl2py.py            |  1 +
 soapfish/xsd.py                |  4 +++-
 4 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index dca1081..c7f4e0f 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -1,4 +1,19 @@
 {%- import 'lib.jinja2' as lib with context -%}
+{%- macro render_headers(name, parts) -%}
+class {{ name }}(BaseHeader):
+    {%- for part, field, schema in header_fields(parts, definitions.types.schemas, known_types) %}
+    {%- if loop.first %}
+    SCHEMA = {{ schema }}
+    {%- endif %}
+    {%- if part.element %}
+    {{ field }} = {{ schema }}.get_element_by_name({{ part.element|remove_namespace|quote }})
+    {%- else %}
+    {{ field }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {%- endif -%}
+    {%- endfor %}
+{# [blank line] #}
+{# [blank line] #}
+{%- endmacro -%}
 {%- if preamble -%}
 {{- lib.render_preamble(preamble) -}}
 from soapfish import soap, xsd{% if use_wsa %}, wsa{% endif -%}
@@ -44,29 +59,13 @@ def {{ operation.name|identifier(module_names) }}(request, {{ _im.part|parameter
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {%- set _imh = get_message_header(definitions, binding, operation, 'input') %}
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
+{%- set _imh_class = (_im.name ~ 'Headers')|identifier %}
 {%- if _imh %}
-class {{ _im.name }}Headers(BaseHeader):
-    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
-    {%- for part in _imh -%}
-    {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|quote }})
-    {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
-    {%- endif -%}
-    {%- endfor %}
-{# [blank line] #}
+{{ render_headers(_imh_class, _imh) }}
 {%- endif -%}
 {%- if _omh %}
-class {{ _om.name }}Headers(BaseHeader):
-    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
-    {%- for part in _omh -%}
-    {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name({{ part.element|remove_namespace|quote }})
-    {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
-    {%- endif -%}
-    {%- endfor %}
-{# [blank line] #}
+{%- set _omh_class = (_om.name ~ ('OutputHeaders' if _imh and _im.name == _om.name else 'Headers'))|identifier %}
+{{ render_headers(_omh_class, _omh) }}
 {%- endif %}
 {{ (operation.name ~ '_method')|identifier }} = xsd.Method(
     {% if is_server %}function={{ operation.name|identifier(module_names) }},
@@ -81,7 +80,7 @@ class {{ _om.name }}Headers(BaseHeader):
     inputPartName={{ _im.part.name|quote }},
     {%- endif -%}
     {%- if _imh %}
-    input_header={{ _im.name }}Headers,
+    input_header={{ _imh_class }},
     {%- endif -%}
     {%- if _om.parts -%}
     {%- if _om.part.element %}
@@ -92,7 +91,7 @@ class {{ _om.name }}Headers(BaseHeader):
     outputPartName={{ _om.part.name|quote }},
     {%- endif -%}
     {%- if _omh %}
-    output_header={{ _om.name }}Headers,
+    output_header={{ _omh_class }},
     {%- endif %}
     operationName={{ operation.name|quote }},
     {%- if operation.operation.style %}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 92005fd..aae3b43 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -153,6 +153,22 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def parameter(part, reserved=()):
         return identifier(remove_namespace(part.element or part.type), reserved)
 
+    def header_fields(parts, schemas, known_types):
+        """Return every part of a header with its name in Python and the name of the schema which has its element."""
+        reserved = {*dir(xsd.ComplexType), 'SCHEMA'}
+        fields = []
+        for part in parts:
+            name = identifier(part.name, reserved)
+            reserved.add(name)
+            prefix = part.element.rpartition(':')[0] if part.element else None
+            namespace = part._xmlelement.nsmap.get(prefix or None)
+            schema = f'Schema_{schema_name(None, namespace)}' if namespace else None
+            if schema not in known_types:
+                # It might be included or imported by one of these.
+                schema = f'Schema_{schema_name(schema_select(schemas, [part.element]) or schemas[0])}'
+            fields.append((part, name, schema))
+        return fields
+
     def use(value):
         from . import xsd
         if value == xsd.Use.OPTIONAL:
@@ -257,6 +273,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         SOAPTransport=soap.SOAP_HTTP_Transport,
         field_names=field_names,
         get_by_name=wsdl.get_by_name,
+        header_fields=header_fields,
         get_message_header=wsdl.get_message_header,
         get_message_object=wsdl.get_message_object,
         module_names={'BaseHeader', 'soap', 'wsa', 'xsd'},
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index d147662..ee51349 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -103,6 +103,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     code = tpl.render(
         soap_version=soap_version,
         definitions=definitions,
+        known_types=kw['known_types'],
         schemas=schemas,
         is_server=bool(target == 'server'),
         use_wsa=use_wsa,
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 7a17c14..1e37b20 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1284,7 +1284,9 @@ class Schema:
         self.__init_schema(self.attributeGroups)
         self.__init_schema(self.complexTypes)
 
-        for element in self.elements.values():
+        for name, element in self.elements.items():
+            if element.tagname is None:
+                element.tagname = name
             if isinstance(element._passed_type, ComplexType):
                 element._passed_type.__class__.SCHEMA = self
             if element.namespace is None:
-- 
2.43.0


From 102131968a94591b6a492989bd084cee6bd05a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 68/82] fix: do not rename fields which are used under several
 names

---
 soapfish/xsd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 1e37b20..f492bfd 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -27,6 +27,7 @@ Design Decision Log.
 For information on XML schema validation, see https://lxml.de/validation.html#xmlschema
 """
 
+import copy
 import decimal
 import enum
 import functools
@@ -984,6 +985,9 @@ class ComplexTypeMetaInfo:
         self.groups = []
         for attr in dir(cls):
             item = getattr(cls, attr)
+            if isinstance(item, (Attribute, Ref, Element)) and getattr(item, '_name', attr) != attr:
+                item = copy.copy(item)  # It is known by another name elsewhere.
+                setattr(cls, attr, item)
             if isinstance(getattr(cls, attr), Attribute):
                 item._name = attr
                 self.attributes.append(item)
-- 
2.43.0


From 76b3ceebd35f24c9a4bf941b78caf3b27af570d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 69/82] fix: let modules given to py2xsd and py2wsdl refer to
 themselves by name

---
 soapfish/py2wsdl.py | 2 +-
 soapfish/py2xsd.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 557ccb1..5d02a9c 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -137,7 +137,7 @@ def main(argv=None):
 
     logger.info('Generating WSDL for Python module: %s', opt.module)
 
-    module = SourceFileLoader('', opt.module).load_module()
+    module = SourceFileLoader('__py2wsdl__', opt.module).load_module()
     tree = generate_wsdl(module.SERVICE)
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index c1e8183..5eef1b3 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -355,7 +355,7 @@ def main(argv=None):
     opt = parser.parse_args(sys.argv[1:] if argv is None else argv)
 
     logger.info('Generating XSD for Python module: %s', opt.module)
-    module = SourceFileLoader('', opt.module).load_module()
+    module = SourceFileLoader('__py2xsd__', opt.module).load_module()
     tree = generate_xsd(module.Schema)
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
-- 
2.43.0


From 6bda99f5620bd38086e85c9f1bed1ef8cb38de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 70/82] fix: define everything a type or schema needs before it
 in code for schemas which refer to each other

---
 soapfish/templates/xsd.jinja2 |  34 +++++----
 soapfish/utils.py             |   1 +
 soapfish/wsdl2py.py           |   9 ++-
 soapfish/xsd2py.py            | 128 ++++++++++++++++++++++------------
 4 files changed, 114 insertions(+), 58 deletions(-)

diff --git a/soapfish/templates/xsd.jinja2 b/soapfish/templates/xsd.jinja2
index 7b49d8c..043057c 100644
--- a/soapfish/templates/xsd.jinja2
+++ b/soapfish/templates/xsd.jinja2
@@ -8,18 +8,18 @@ from soapfish import xsd
 {#- XSD Includes -#}
 {%- for i in schema.includes %}
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
-{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
+{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path, definitions) }}
 {%- endfor %}
 {#- XSD Imports -#}
 {%- for i in schema.imports %}
 {%- if not i.schemaLocation %}{% continue %}{% endif -%}
-{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path) }}
+{{- resolve_import(i, known_paths, known_types, schema.targetNamespace, cwd, base_path, definitions) }}
 {%- endfor %}
 # {% if location %}{{ location|comment }} - {% endif -%} {{ schema.targetNamespace|comment }}{# Output the name of the schema in a comment. #}
 {# [blank line] #}
 {# [blank line] #}
 {#- Simple Types -#}
-{%- for st in schema.simpleTypes %}
+{%- macro render_simpleType(st) %}
 {%- if st.restriction %}
 {{ lib.render_xsd_Restriction(st.name, st.restriction, known_types) }}
 {%- endif %}
@@ -27,23 +27,33 @@ from soapfish import xsd
 {{ lib.render_xsd_List(st.name, known_types) }}
 {%- endif %}
 {%- do known_types.append(st.name|capitalize) %}
-{%- endfor %}
+{%- endmacro %}
+{{- definitions.add_types(schema.simpleTypes, get_type, render_simpleType) }}
 {#- Attribute Groups -#}
-{%- for attrGroup in schema.attributeGroups %}
+{%- macro render_attributeGroup(attrGroup) %}
 {{ lib.render_xsd_AttributeGroup(attrGroup, known_types) }}
-{%- endfor %}
+{%- endmacro %}
+{{- definitions.add_types(schema.attributeGroups, get_type, render_attributeGroup) }}
 {#- Groups -#}
-{%- for group in schema.groups %}
+{%- macro render_group(group) %}
 {{ lib.render_xsd_Group(group, known_types) }}
-{%- endfor %}
+{%- endmacro %}
+{{- definitions.add_types(schema.groups, get_type, render_group) }}
 {#- Complex Types -#}
-{% for ct in schema.complexTypes -%}
+{%- macro render_complexType(ct) -%}
 {{ lib.render_complexType(ct.name, ct, known_types) }}
 {%- do known_types.append(ct.name|capitalize) -%}
-{%- endfor %}
+{%- endmacro %}
+{{- definitions.add_types(schema.complexTypes, get_type, render_complexType) }}
 {#- Complex Types (Defined in Elements) -#}
-{% for element in schema.elements if element.complexType -%}
+{%- macro render_element(element) %}
+{%- if element.complexType -%}
 {{ lib.render_complexType(element.name, element.complexType, known_types) }}
-{%- endfor %}
+{%- endif %}
+{%- endmacro %}
+{{- definitions.add_types(schema.elements, get_type, render_element) }}
+{%- macro render_schema() %}
 {{ lib.render_Schema(schema, location, known_types) }}
+{%- endmacro %}
+{%- do definitions.add_schema(schema, location, render_schema) %}
 {#- vim:set et ft=django nowrap sts=4 sw=4 ts=4: -#}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index aae3b43..8f8be97 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -276,6 +276,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         header_fields=header_fields,
         get_message_header=wsdl.get_message_header,
         get_message_object=wsdl.get_message_object,
+        get_type=get_type,
         module_names={'BaseHeader', 'soap', 'wsa', 'xsd'},
         preamble={'module': module, 'generated': datetime.now(timezone.utc)},
         schema_name=schema_name,
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index ee51349..0a6e62b 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -11,7 +11,7 @@ from lxml import etree
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
-from .xsd2py import rewrite_paths, schema_to_py
+from .xsd2py import Definitions, rewrite_paths, schema_to_py
 
 logger = logging.getLogger('soapfish')
 
@@ -93,9 +93,12 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     definitions = wsdl.Definitions.parse_xmlelement(xml)
     merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
 
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_types': [], 'known_paths': []}
+    known_types = []
+    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_types': known_types, 'known_paths': [],
+          'definitions': Definitions(known_types)}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, find_xsd_namespaces(schema._xmlelement), **kw) for schema in schemas)
+    schemas += kw['definitions'].finish()
 
     env = get_rendering_environment(xsd_namespaces, module='soapfish.wsdl2py')
     tpl = env.get_template('wsdl.jinja2')
@@ -103,7 +106,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     code = tpl.render(
         soap_version=soap_version,
         definitions=definitions,
-        known_types=kw['known_types'],
+        known_types=known_types,
         schemas=schemas,
         is_server=bool(target == 'server'),
         use_wsa=use_wsa,
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 6272dc1..8e67f74 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -10,7 +10,14 @@ from urllib.parse import urljoin
 from lxml import etree
 
 from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location
+from .utils import (
+    find_xsd_namespaces,
+    get_rendering_environment,
+    open_document,
+    remove_namespace,
+    resolve_location,
+    schema_name,
+)
 
 logger = logging.getLogger('soapfish')
 
@@ -35,7 +42,71 @@ def rewrite_paths(schema, cwd, base_path):
             i.schemaLocation = os.path.relpath(path, base_path)
 
 
-def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path):
+def _bases(item):
+    """Return the names of all types which must be defined before the type, group, element or attribute."""
+    simple_type = item if isinstance(item, xsdspec.SimpleType) else getattr(item, 'simpleType', None)
+    if simple_type:
+        return {simple_type.restriction.base} if simple_type.restriction else set()
+    item = getattr(item, 'complexType', None) or item
+    content = getattr(item, 'complexContent', None)
+    inherited = content and (content.restriction or content.extension)
+    bases = {inherited.base} if inherited else set()
+    item = inherited or item
+    containers = (getattr(item, name, None) for name in ('sequence', 'all', 'choice'))
+    for fields in (getattr(item, 'attributes', ()), *(x.elements for x in containers if x)):
+        bases = bases.union(*(_bases(x) for x in fields))
+    return bases
+
+
+class Definitions:
+    """
+    The definitions for schemas which include or import each other in the order in which they can be executed.
+
+    Types are defined after those they are based on, schemas after all types as they may use types of each other.
+    """
+
+    def __init__(self, known_types):
+        self.known_types = known_types
+        self.types = []
+        self.schemas = []
+        self.references = []
+
+    def add_types(self, types, get_type, render):
+        """Return the code for all types (or groups) which can be defined by now."""
+        self.types.extend((x, get_type, render) for x in types)
+        return ''.join(iter(self._next_type, None))
+
+    def _next_type(self):
+        for i, (item, get_type, render) in enumerate(self.types):
+            if not any(get_type(base, self.known_types).startswith('__name__') for base in _bases(item)):
+                del self.types[i]
+                return render(item)
+
+    def add_schema(self, schema, location, render):
+        self.schemas.append(lambda: self._schema(schema, location, render))
+
+    def _schema(self, schema, location, render):
+        name = f'Schema_{schema_name(schema, location)}'
+        for attribute, items in (('imports', schema.imports), ('includes', schema.includes)):
+            for i in items:
+                values = (i.schemaLocation, getattr(i, 'namespace', schema.targetNamespace))
+                names = [f'Schema_{schema_name(i, value)}' for value in values if value]
+                if names and names[0] not in self.known_types:
+                    self.references.append((name, attribute, names))
+        return render()
+
+    def finish(self):
+        """Return the code for everything else."""
+        # There is no code for what remaining types are based on.
+        code = ''.join(render(item) for item, _, render in self.types) + ''.join(render() for render in self.schemas)
+        for name, attribute, references in self.references:
+            reference = next((x for x in references if x in self.known_types), name)
+            if reference != name:
+                code += f'{name}.{attribute} = [*{name}.{attribute}, {reference}]\n'
+        return code
+
+
+def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path, definitions=None):
     assert isinstance(i, (xsdspec.Import, xsdspec.Include))
     path, cwd, location = resolve_location(i.schemaLocation, base_path)
     tag = i.__class__.__name__.lower()
@@ -44,13 +115,14 @@ def resolve_import(i, known_paths, known_types, parent_namespace, cwd, base_path
 
     return generate_code_from_xsd(xml, known_paths, known_types, location,
                                   parent_namespace, encoding=None, cwd=cwd,
-                                  base_path=base_path, standalone=False)
+                                  base_path=base_path, standalone=False,
+                                  definitions=definitions)
 
 
 def generate_code_from_xsd(xml, known_paths=None, known_types=None,
                            location=None, parent_namespace=None,
                            encoding='utf8', cwd=None, base_path=None,
-                           standalone=True):
+                           standalone=True, definitions=None):
 
     if isinstance(xml, bytes):
         xml = etree.fromstring(xml)
@@ -71,56 +143,20 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
                         location, parent_namespace, cwd=cwd, base_path=base_path,
-                        standalone=standalone)
+                        standalone=standalone, definitions=definitions)
 
     return code.encode(encoding) if encoding else code
 
 
-def _complexType_bases(complex_type):
-    """Return the names of all types which must be defined before the complex type."""
-    content = complex_type.complexContent
-    inherited = content and (content.restriction or content.extension)
-    bases = {remove_namespace(inherited.base)} if inherited else set()
-    content = inherited or complex_type
-    for container in (getattr(content, name, None) for name in ('sequence', 'all', 'choice')):
-        for element in container.elements if container else ():
-            if element.complexType:
-                bases |= _complexType_bases(element.complexType)
-    return bases
-
-
-def _simpleType_bases(simple_type):
-    return {remove_namespace(simple_type.restriction.base)} if simple_type.restriction else set()
-
-
-def _reorder_types(types, get_bases):
-    """Reorder types to render the base types of extensions/restrictions before the types derived from them."""
-    pending = {x.name: x for x in types}
-    ordered = []
-
-    def add(x):
-        for base in sorted(get_bases(x)):
-            if base in pending:
-                add(pending.pop(base))
-        ordered.append(x)
-
-    while pending:
-        add(pending.pop(next(iter(pending))))
-    types[:] = ordered
-
-
 def schema_to_py(schema, xsd_namespaces,
                  known_paths=None, known_types=None, location=None,
                  parent_namespace=None, cwd=None, base_path=None,
-                 standalone=False):
+                 standalone=False, definitions=None):
     if base_path is None:
         base_path = cwd
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
-    _reorder_types(schema.simpleTypes, _simpleType_bases)
-    _reorder_types(schema.complexTypes, _complexType_bases)
-
     if known_paths is None:
         known_paths = []
     if location:
@@ -132,18 +168,24 @@ def schema_to_py(schema, xsd_namespaces,
     if known_types is None:
         known_types = []
 
+    is_complete = definitions is None
+    if definitions is None:
+        definitions = Definitions(known_types)
+
     env = get_rendering_environment(xsd_namespaces, module='soapfish.xsd2py')
     env.globals.update(
         known_paths=known_paths,
         known_types=known_types,
         location=location,
         resolve_import=resolve_import,
+        definitions=definitions,
     )
     if not standalone:
         del env.globals['preamble']
     tpl = env.get_template('xsd.jinja2')
 
-    return tpl.render(schema=schema, cwd=cwd, base_path=base_path)
+    code = tpl.render(schema=schema, cwd=cwd, base_path=base_path)
+    return code + definitions.finish() if is_complete else code
 
 
 # --- Program -----------------------------------------------------------------
-- 
2.43.0


From d5d0cbff7266f0f3f7a986c0147fd25b826582bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 71/82] fix: do not generate code twice for a schema which is
 included or imported by those it refers to

---
 soapfish/xsd2py.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 8e67f74..0386422 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -208,7 +208,9 @@ def main(argv=None):
     xml = stdin.read() if opt.xsd == '-' else open_document(opt.xsd)
     cwd = opt.xsd if '://' in opt.xsd else os.path.abspath(opt.xsd)
     cwd = os.path.dirname(cwd)
-    code = generate_code_from_xsd(xml, encoding='utf-8', cwd=cwd)
+    # The document might be included or imported by those it refers to.
+    location = opt.xsd if '://' in opt.xsd else os.path.basename(opt.xsd)
+    code = generate_code_from_xsd(xml, known_paths=[location], encoding='utf-8', cwd=cwd)
 
     opt.output.write(code.strip())
 
-- 
2.43.0


From ded04e72fe54fb8fb477e5a7204ab1d9b9da7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 72/82] fix: determine the SOAP version from imported WSDL
 documents too and do not import the main document again

---
 soapfish/wsdl2py.py | 46 ++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 0a6e62b..c8628c0 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -8,6 +8,7 @@ import sys
 
 from lxml import etree
 
+from . import namespaces as ns
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
@@ -32,29 +33,44 @@ def reorder_schemas(schemas):
     return schemas
 
 
-def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_path=None):
+def read_imports(xml, cwd, seen=None, main=None):
+    """Return (document, path of its directory, its imports) for everything the WSDL document imports."""
 
-    def deduplicate(seq):
-        seen = set()
-        return [x for x in seq if x not in seen and not seen.add(x)]
+    def identity(document, cwd):
+        return etree.tostring(document, method='c14n'), resolve_location('x', cwd)[1]
 
     if seen is None:
         seen = set()
+        main = identity(xml, cwd)
 
-    if base_path is None:
-        base_path = cwd
-
-    for i in definitions.imports:
-        path, path_cwd, location = resolve_location(i.location, cwd)
+    imports = []
+    for location in xml.xpath('wsdl:import/@location', namespaces={'wsdl': ns.wsdl}):
+        path, path_cwd, location = resolve_location(location, cwd)
 
         if path in seen:
             continue
 
         seen.add(path)
 
-        xml = open_document(path)
-        xml = etree.fromstring(xml)
+        imported = etree.fromstring(open_document(path))
+        # The location of the main document is not known.
+        if identity(imported, path_cwd) != main:
+            imports.append((imported, path_cwd, read_imports(imported, path_cwd, seen, main)))
+    return imports
+
+
+def get_soap_version(xml, imports):
+    versions = [SOAPVersion.get_version_from_xml(xml), *(get_soap_version(i, nested) for i, _, nested in imports)]
+    return SOAPVersion.SOAP12 if SOAPVersion.SOAP12 in versions else SOAPVersion.SOAP11
+
+
+def merge_imports(wsdl, definitions, xsd_namespaces, imports, base_path):
+
+    def deduplicate(seq):
+        seen = set()
+        return [x for x in seq if x not in seen and not seen.add(x)]
 
+    for xml, path_cwd, nested in imports:
         xsd_namespaces.update(find_xsd_namespaces(xml))
 
         imported = wsdl.Definitions.parse_xmlelement(xml)
@@ -62,8 +78,7 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_p
         for schema in imported.types.schemas if imported.types else ():
             rewrite_paths(schema, path_cwd, base_path)
 
-        if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=path_cwd, seen=seen, base_path=base_path)
+        merge_imports(wsdl, imported, xsd_namespaces, nested, base_path)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
@@ -86,12 +101,13 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
 
     xsd_namespaces = find_xsd_namespaces(xml)
 
-    soap_version = SOAPVersion.get_version_from_xml(xml)
+    imports = read_imports(xml, cwd)
+    soap_version = get_soap_version(xml, imports)
     logger.info('Detected version of SOAP: %s', soap_version.NAME)
 
     wsdl = get_wsdl_classes(soap_version.BINDING_NAMESPACE)
     definitions = wsdl.Definitions.parse_xmlelement(xml)
-    merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
+    merge_imports(wsdl, definitions, xsd_namespaces, imports, cwd)
 
     known_types = []
     kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_types': known_types, 'known_paths': [],
-- 
2.43.0


From 66e1e38ac86647477926957654ae682642698464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:46 +0000
Subject: [PATCH 73/82] fix: give a service the target namespace of the WSDL
 document which defines it

---
 soapfish/templates/wsdl.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index c7f4e0f..b435a7e 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -107,7 +107,7 @@ def {{ operation.name|identifier(module_names) }}(request, {{ _im.part|parameter
 {# [blank line] #}
 {{ (port.name ~ '_SERVICE')|identifier }} = soap.Service(
     name={{ port.name|quote }},
-    targetNamespace={{ definitions.targetNamespace|quote }},
+    targetNamespace={{ service._xmlelement.getparent().get('targetNamespace')|quote }},
     location={{ port.address.location|url_template|quote }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- if soap_version.NAME == 'soap11' %}
-- 
2.43.0


From 486703c1681e823caa327cd6e04c1f6d302e5d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 74/82] fix: do not assign the target namespace of a WSDL
 document to schemas without one which only import others

---
 soapfish/py2wsdl.py |  2 +-
 soapfish/py2xsd.py  | 12 ++++++++----
 soapfish/utils.py   |  2 +-
 soapfish/wsdl2py.py |  3 +--
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 5d02a9c..7a92b05 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -104,7 +104,7 @@ def generate_wsdl(service):
     xmlelement = etree.Element(
         '{%s}definitions' % ns.wsdl,
         nsmap={
-            **{prefix: namespace for namespace, prefix in get_prefixes(service.schemas).items()},
+            **{prefix: namespace for namespace, prefix in get_prefixes(service.schemas).items() if namespace is not None},
             'soap': service.version.BINDING_NAMESPACE,
             'tns': service.targetNamespace,
             'wsdl': ns.wsdl,
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 5eef1b3..dc4cc42 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -251,7 +251,7 @@ def generate_xsd(schema):
     xmlelement = etree.Element(
         '{%s}schema' % ns.xsd,
         nsmap={
-            **{prefix: namespace for namespace, prefix in prefixes.items()},
+            **{prefix: namespace for namespace, prefix in prefixes.items() if namespace is not None},
             'xsd': xsdspec.XSD_NAMESPACE,
         },
     )
@@ -297,7 +297,9 @@ def xml_schema(schemas):
         return element
 
     def namespace_element(namespace):
-        element = etree.Element('{%s}schema' % ns.xsd, targetNamespace=namespace)
+        element = etree.Element('{%s}schema' % ns.xsd)
+        if namespace is not None:
+            element.set('targetNamespace', namespace)
         for schema in known:
             if schema.targetNamespace == namespace:
                 etree.SubElement(element, '{%s}include' % ns.xsd, schemaLocation=location(schema))
@@ -333,9 +335,11 @@ def xml_schema(schemas):
     if len(known) == 1:
         root = documents[location(known[0])]
     else:
-        root = etree.Element('{%s}schema' % ns.xsd)
+        root = etree.Element('{%s}schema' % ns.xsd, targetNamespace='soapfish:schemas')
         for namespace in namespaces:
-            etree.SubElement(root, '{%s}import' % ns.xsd, namespace=namespace, schemaLocation=import_location(namespace))
+            xsd_import = etree.SubElement(root, '{%s}import' % ns.xsd, schemaLocation=import_location(namespace))
+            if namespace is not None:
+                xsd_import.set('namespace', namespace)
     return etree.XMLSchema(etree.fromstring(etree.tostring(root), parser))
 
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 8f8be97..6998739 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -54,7 +54,7 @@ def schema_name(obj, location=None):
     if location:
         value = location
     elif isinstance(obj, xsdspec.Schema):
-        value = obj.targetNamespace
+        value = obj.targetNamespace or ''
     elif isinstance(obj, xsdspec.Import):
         value = obj.schemaLocation or obj.namespace
     elif isinstance(obj, xsdspec.Include):
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index c8628c0..55123f5 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -110,8 +110,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     merge_imports(wsdl, definitions, xsd_namespaces, imports, cwd)
 
     known_types = []
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace, 'known_types': known_types, 'known_paths': [],
-          'definitions': Definitions(known_types)}
+    kw = {'cwd': cwd, 'known_types': known_types, 'known_paths': [], 'definitions': Definitions(known_types)}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, find_xsd_namespaces(schema._xmlelement), **kw) for schema in schemas)
     schemas += kw['definitions'].finish()
-- 
2.43.0


From 0e09327852400f4c90fb9b593bfc0a8125bf823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 75/82] fix: tell messages, port types and bindings of the same
 name in different WSDL documents apart

---
 soapfish/templates/wsdl.jinja2 |  2 +-
 soapfish/wsdl.py               | 24 +++++++++++++++---------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index b435a7e..509dc5e 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -31,7 +31,7 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- for service in definitions.services %}
 {%- for port in service.ports %}
 
-{%- set binding = get_by_name(definitions.bindings, port.binding) %}
+{%- set binding = get_by_name(definitions.bindings, port.binding, port) %}
 
 {%- if binding.binding.transport != SOAPTransport %}{% continue %}{% endif %}
 
diff --git a/soapfish/wsdl.py b/soapfish/wsdl.py
index 75f3a17..5e2f439 100644
--- a/soapfish/wsdl.py
+++ b/soapfish/wsdl.py
@@ -2,12 +2,18 @@ from . import namespaces as ns
 
 
 # --- Functions ---------------------------------------------------------------
-def get_by_name(_list, fullname):
-    name = fullname.split(':')[-1]
-    for item in _list:
-        if item.name == name:
-            return item
-    raise ValueError(f"Item '{name}' not found in list:{_list}")
+def get_by_name(_list, fullname, referrer=None):
+    prefix, _, name = fullname.rpartition(':')
+    items = [item for item in _list if item.name == name]
+    if not items:
+        raise ValueError(f"Item '{name}' not found in list:{_list}")
+    if referrer is not None:
+        # Imported documents may have items of that name in other namespaces.
+        namespace = referrer._xmlelement.nsmap.get(prefix or None)
+        for item in items:
+            if item._xmlelement.getparent().get('targetNamespace') == namespace:
+                return item
+    return items[0]
 
 
 def get_message_header(definitions, binding, operation, x):
@@ -17,19 +23,19 @@ def get_message_header(definitions, binding, operation, x):
         return None
     parts = []
     for header in obj.headers:
-        message = get_by_name(definitions.messages, header.message)
+        message = get_by_name(definitions.messages, header.message, header)
         parts.append(get_by_name(message.parts, header.part))
     return parts
 
 
 def get_message_object(definitions, binding, operation, x):
     assert x in ('input', 'output')
-    pt = get_by_name(definitions.portTypes, binding.type)
+    pt = get_by_name(definitions.portTypes, binding.type, binding)
     pto = get_by_name(pt.operations, operation.name)
     obj = getattr(pto, x, None)
     if obj is None:
         return None
-    return get_by_name(definitions.messages, obj.message)
+    return get_by_name(definitions.messages, obj.message, obj)
 
 
 def get_wsdl_classes(soap_namespace):
-- 
2.43.0


From be8a298341f54e0569c700283a5cbe386a651e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:27 +0000
Subject: [PATCH 76/82] fix: refer to the schemas of inherited fields and those
 of groups when generating XSD

---
 soapfish/py2xsd.py | 57 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index dc4cc42..48edd78 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -190,15 +190,45 @@ def build_includes(xsd_schema, includes):
         xsd_schema.includes.append(xsd_include)
 
 
+def references(item):
+    """Return the names of all types to which (a part of) a schema refers."""
+    for field in item._meta.all:
+        value = getattr(item, field._name)
+        for part in value if isinstance(value, list) else [value]:
+            if isinstance(part, xsd.ComplexType):
+                yield from references(part)
+            elif part is not None and field._name in ('base', 'type'):
+                yield part
+
+
+def reachable(schemas, attributes=('imports', 'includes')):
+    """Return the schemas and all those which they import or include."""
+    schemas = list(schemas)
+    for schema in schemas:
+        for item in itertools.chain.from_iterable(getattr(schema, name) for name in attributes):
+            if not any(item is known for known in schemas):
+                schemas.append(item)
+    return schemas
+
+
+def build_missing_references(xsd_schema, schema, prefixes):
+    """Refer to the schemas of fields of base classes and groups too: these become fields of the types themselves."""
+    known = reachable([schema])
+    visible = reachable([schema, *schema.imports], ['includes'])
+    for prefix, _, name in (name.rpartition(':') for name in dict.fromkeys(references(xsd_schema))):
+        origins = [item for item in known if prefixes.get(item.targetNamespace) == prefix
+                   and any(uncapitalize(t.__name__) == name for t in itertools.chain(item.complexTypes, item.simpleTypes))]
+        if origins and not any(item is other for item in origins for other in visible):
+            build = build_includes if origins[0].targetNamespace == schema.targetNamespace else build_imports
+            build(xsd_schema, origins[:1])
+            visible.extend(reachable(origins[:1], ['includes']))
+
+
 def get_prefixes(schemas):
     """Return a prefix for the target namespace of every schema which may be referenced."""
     prefixes = {}
-    schemas = list(schemas)
-    for schema in schemas:
+    for schema in reachable(schemas):
         prefixes.setdefault(schema.targetNamespace, f'ns{len(prefixes)}' if prefixes else 'sns')
-        for other in itertools.chain(schema.imports, schema.includes):
-            if not any(other is known for known in schemas):
-                schemas.append(other)
     return prefixes
 
 
@@ -219,6 +249,7 @@ def generate_xsdspec(schema, prefixes=None):
         xsd_schema.complexTypes.append(xsd_ct)
 
     generate_elements(xsd_schema, schema, prefixes)
+    build_missing_references(xsd_schema, schema, prefixes)
     return xsd_schema
 
 
@@ -274,10 +305,7 @@ def schema_validator(schemas):
 
 def xml_schema(schemas):
     """Return an etree.XMLSchema for the specified soapfish schemas and everything they import or include."""
-    known = list(schemas)
-    for schema in known:
-        known.extend(item for item in itertools.chain(schema.imports, schema.includes)
-                     if not any(item is other for other in known))
+    known = reachable(schemas)
     namespaces = list(get_prefixes(known))
 
     # All documents get a location of their own: the schemas might not have one (or share it). There is only one
@@ -290,10 +318,13 @@ def xml_schema(schemas):
 
     def schema_element(schema):
         element = generate_xsd(schema)
-        for xsd_import, item in zip(element.findall('{%s}import' % ns.xsd), schema.imports):
-            xsd_import.set('schemaLocation', import_location(item.targetNamespace))
-        for xsd_include, item in zip(element.findall('{%s}include' % ns.xsd), schema.includes):
-            xsd_include.set('schemaLocation', location(item))
+        for xsd_import in element.findall('{%s}import' % ns.xsd):
+            xsd_import.set('schemaLocation', import_location(xsd_import.get('namespace')))
+        for xsd_include, item in itertools.zip_longest(element.findall('{%s}include' % ns.xsd), schema.includes):
+            if item is None:
+                element.remove(xsd_include)
+            else:
+                xsd_include.set('schemaLocation', location(item))
         return element
 
     def namespace_element(namespace):
-- 
2.43.0


From e99089ce5c8258785f4648a16893dbb38a6fee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:37 +0000
Subject: [PATCH 77/82] fix: copies of an instance have its nil values

---
 soapfish/xsd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index f492bfd..d595dfa 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -46,7 +46,14 @@ from .xsd_types import XSDDate
 
 logger = logging.getLogger(__name__)
 
-NIL = object()
+
+class _Nil:
+
+    def __reduce__(self):
+        return 'NIL'  # A copy is nil as well.
+
+
+NIL = _Nil()
 UNBOUNDED = decimal.Decimal('infinity')
 
 
-- 
2.43.0


From 7a5a27e7a6c5a0c6863aeb7e1d88021ca9e0b237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:41 +0000
Subject: [PATCH 78/82] fix: a list repeated beyond its maximum length is left
 unchanged

---
 soapfish/xsd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index d595dfa..ce8aee9 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -912,6 +912,10 @@ class TypedList(list):
         self.extend(values)
         return self
 
+    def __imul__(self, count):
+        self._check_length(len(self) * count)
+        return super().__imul__(count)
+
     def __setitem__(self, key, value):
         if isinstance(key, slice):
             accepted = [self._accept(item) for item in value]
-- 
2.43.0


From 096d83593f0b24392aa39d0509185470ce0ad6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:29 +0000
Subject: [PATCH 79/82] fix: do not replace generated types by functions or
 header classes of the same name

---
 soapfish/templates/wsdl.jinja2 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 509dc5e..263bd33 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -43,7 +43,7 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name|identifier(module_names) }}(request, {{ _im.part|parameter(['request']) }}):
+def {{ operation.name|identifier(module_names.union(known_types)) }}(request, {{ _im.part|parameter(['request']) }}):
     # TODO: Put your implementation here.
     return{% if _om %} {{ _om.part|parameter }}{% endif +%}
 {# [blank line] #}
@@ -59,16 +59,16 @@ def {{ operation.name|identifier(module_names) }}(request, {{ _im.part|parameter
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {%- set _imh = get_message_header(definitions, binding, operation, 'input') %}
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
-{%- set _imh_class = (_im.name ~ 'Headers')|identifier %}
+{%- set _imh_class = (_im.name ~ 'Headers')|identifier(known_types) %}
 {%- if _imh %}
 {{ render_headers(_imh_class, _imh) }}
 {%- endif -%}
 {%- if _omh %}
-{%- set _omh_class = (_om.name ~ ('OutputHeaders' if _imh and _im.name == _om.name else 'Headers'))|identifier %}
+{%- set _omh_class = (_om.name ~ ('OutputHeaders' if _imh and _im.name == _om.name else 'Headers'))|identifier(known_types) %}
 {{ render_headers(_omh_class, _omh) }}
 {%- endif %}
 {{ (operation.name ~ '_method')|identifier }} = xsd.Method(
-    {% if is_server %}function={{ operation.name|identifier(module_names) }},
+    {% if is_server %}function={{ operation.name|identifier(module_names.union(known_types)) }},
     {% endif -%}
     soapAction={{ operation.operation.soapAction|quote }},
     {%- if _im.parts -%}
-- 
2.43.0


From 6ac069d704a7bea4a5e4bf34bb2a299d829d1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:41 +0000
Subject: [PATCH 80/82] fix: do not share an instance given as default between
 instances

---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index ce8aee9..6148f3d 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -694,7 +694,7 @@ class Element:
         initialization in most cases this should be None, but for lists and other types of aggregates this should be
         an empty aggregate.
         """
-        return self.default
+        return copy.deepcopy(self.default)  # An instance must not be shared with others.
 
     def xsd_elements(self):
         return (self, )
-- 
2.43.0


From 371b918b12cd7a775a9c5b79a443416130c66100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:11 +0000
Subject: [PATCH 81/82] fix: generate code for references whose prefix is
 declared by an element within the schema

---
 soapfish/utils.py  | 15 ++++++++++-----
 soapfish/xsd2py.py |  6 +++---
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 6998739..97b0acb 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -227,13 +227,14 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         if not qname:
             raise ValueError(f'Unable to determine type of {obj}')
 
-        qname = qname.split(':')
-        if len(qname) < 2:
-            qname.insert(0, None)
-        ns, name = qname
+        prefix, _, name = qname.rpartition(':')
         name = capitalize(name)
 
-        if ns in xsd_namespaces:
+        # Prefixes may be declared anywhere in the document.
+        element = getattr(obj, '_xmlelement', None)
+        prefixes = xsd_namespaces if element is None else get_xsd_prefixes(element)
+
+        if (prefix or None) in prefixes:
             return f'xsd.{name}'
         elif known_types is not None and name in known_types:
             return str(name)
@@ -287,6 +288,10 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
 
 
 # --- Other Functions ---------------------------------------------------------
+def get_xsd_prefixes(xml):
+    return {k for k, v in xml.nsmap.items() if v in (ns.xsd, ns.xsd2000)}
+
+
 def find_xsd_namespaces(xml):
     nsmap = xml.nsmap.copy()
     for x in xml.xpath('descendant-or-self::*[local-name()="schema"]'):
diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 0386422..acb8fe0 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -43,14 +43,14 @@ def rewrite_paths(schema, cwd, base_path):
 
 
 def _bases(item):
-    """Return the names of all types which must be defined before the type, group, element or attribute."""
+    """Return everything whose base must be defined before the type, group, element or attribute."""
     simple_type = item if isinstance(item, xsdspec.SimpleType) else getattr(item, 'simpleType', None)
     if simple_type:
-        return {simple_type.restriction.base} if simple_type.restriction else set()
+        return {simple_type.restriction} if simple_type.restriction else set()
     item = getattr(item, 'complexType', None) or item
     content = getattr(item, 'complexContent', None)
     inherited = content and (content.restriction or content.extension)
-    bases = {inherited.base} if inherited else set()
+    bases = {inherited} if inherited else set()
     item = inherited or item
     containers = (getattr(item, name, None) for name in ('sequence', 'all', 'choice'))
     for fields in (getattr(item, 'attributes', ()), *(x.elements for x in containers if x)):
-- 
2.43.0


From 9776b79932ebbc6347439912dc66ce87101538ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:48 +0000
Subject: [PATCH 82/82] fix: do not crash when a document with entities is
 parsed with a schema

---
 soapfish/xsd.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 6148f3d..f57e0f8 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1164,15 +1164,17 @@ class ComplexType(Type, metaclass=Complex_PythonType):
 
     @classmethod
     def parsexml(cls, xml, schema=None):
-        if schema is None:
-            parser = etree.fromstring
-        else:
+        xmlelement = etree.fromstring(xml)
+        if schema is not None:
             if not isinstance(schema, etree.XMLSchema):
                 from .py2xsd import xml_schema
                 schema = xml_schema([schema])
-            xmlparser = etree.XMLParser(schema=schema)
-            parser = functools.partial(etree.fromstring, parser=xmlparser)
-        xmlelement = parser(xml)
+            # A parser which validates crashes if the document uses entities.
+            try:
+                schema.assertValid(xmlelement)
+            except etree.DocumentInvalid as e:
+                error = e.error_log.last_error
+                raise etree.XMLSyntaxError(str(e), error.type, error.line, error.column) from e
         return cls.parse_xmlelement(xmlelement)
 
     def xml(self, tagname, namespace=None, elementFormDefault=None, schema=None, pretty_print=True):
-- 
2.43.0

