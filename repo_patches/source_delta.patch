From c1977df1fda1926deb01962e25c46a3b1203528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 01/42] fix: index equal to the array length crashed instead of
 raising an error

---
 trlc/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index ff2acf9..fe1726f 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1806,13 +1806,13 @@ class Binary_Expression(Expression):
                          (self.to_string(),
                           mh.cross_file_reference(self.location)))
             elif v_lhs.typ.upper_bound is not None and \
-                 v_rhs.value > v_lhs.typ.upper_bound:
+                 v_rhs.value >= v_lhs.typ.upper_bound:
                 mh.error(v_rhs.location,
-                         "index cannot be more than %u in %s (%s)" %
-                         (v_lhs.typ.upper_bound,
+                         "index cannot be more than %i in %s (%s)" %
+                         (v_lhs.typ.upper_bound - 1,
                           self.to_string(),
                           mh.cross_file_reference(self.location)))
-            elif v_rhs.value > len(v_lhs.value):
+            elif v_rhs.value >= len(v_lhs.value):
                 mh.error(v_lhs.location,
                          "array is not big enough in %s (%s)" %
                          (self.to_string(),
-- 
2.43.0


From 93739bcf8fcd86ffac2f108223ffce43a09dee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 02/42] fix: enforce the upper bound of arrays declared as [0
 .. 0]

---
 trlc/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 5c75a4c..fbe3ab8 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1763,7 +1763,8 @@ class Parser(Parser_Base):
                               (typ.lower_bound,
                                len(rv.value)),
                               fatal=False)
-            if typ.upper_bound and len(rv.value) > typ.upper_bound:
+            if typ.upper_bound is not None and \
+               len(rv.value) > typ.upper_bound:
                 self.mh.error(rv.value[typ.upper_bound].location,
                               "this array requires at most %u elements "
                               "(%u provided)" %
-- 
2.43.0


From 9c8a3945a2c51078ad7d890638720be8b216c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 03/42] fix: references to different records without own values
 compared equal

---
 trlc/ast.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index fe1726f..1fa9586 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -86,7 +86,16 @@ class Value:
         self.typ      = typ
 
     def __eq__(self, other):
-        return self.typ == other.typ and self.value == other.value
+        return self.typ == other.typ and self.is_same_value(other)
+
+    def is_same_value(self, other):
+        # lobster-trace: LRM.Equality_On_Record_References
+        # The value of a record reference is the field map of the
+        # object it refers to, so references are equal iff they share
+        # the same map.
+        if isinstance(self.typ, (Record_Type, Union_Type)):
+            return self.value is other.value
+        return self.value == other.value
 
     def __repr__(self):  # pragma: no cover
         return "Value(%s)" % self.value
@@ -1147,7 +1156,7 @@ class Record_Reference(Expression):
         assert isinstance(mh, Message_Handler)
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
-        return Value(self.location, copy(self.target.field), self.typ)
+        return Value(self.location, self.target.field, self.typ)
 
     def resolve_references(self, mh):
         # lobster-trace: LRM.References_To_Extensions
@@ -1676,12 +1685,12 @@ class Binary_Expression(Expression):
 
         elif self.operator == Binary_Operator.COMP_EQ:
             return Value(location = self.location,
-                         value    = v_lhs.value == v_rhs.value,
+                         value    = v_lhs.is_same_value(v_rhs),
                          typ      = self.typ)
 
         elif self.operator == Binary_Operator.COMP_NEQ:
             return Value(location = self.location,
-                         value    = v_lhs.value != v_rhs.value,
+                         value    = not v_lhs.is_same_value(v_rhs),
                          typ      = self.typ)
 
         elif self.operator in (Binary_Operator.COMP_LT,
-- 
2.43.0


From 4030e2b9bb5ecc95d3d9a0df1442a203f7d4872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 04/42] fix: oneof silently accepted null parameters

---
 trlc/ast.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 1fa9586..85f1dc3 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2058,11 +2058,18 @@ class OneOf_Expression(Expression):
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
-        v_choices = [n_choice.evaluate(mh, context, gstab).value
+        v_choices = [n_choice.evaluate(mh, context, gstab)
                      for n_choice in self.choices]
+        for v_choice in v_choices:
+            if v_choice.value is None:
+                mh.error(v_choice.location,
+                         "parameter of %s (%s) must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
 
         return Value(location = self.location,
-                     value    = v_choices.count(True) == 1,
+                     value    = [v_choice.value
+                                 for v_choice in v_choices].count(True) == 1,
                      typ      = self.typ)
 
     def can_be_null(self):
-- 
2.43.0


From afd826c0c83cc6984fbd37f0194189a85ebea190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 05/42] fix: crash when the predicate of a quantified
 expression is null

---
 trlc/ast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 85f1dc3..f3f6f30 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2328,6 +2328,11 @@ class Quantified_Expression(Expression):
         for binding in array_values.value:
             new_ctx[self.n_var.name] = binding
             result = self.n_expr.evaluate(mh, new_ctx, gstab)
+            if result.value is None:
+                mh.error(result.location,
+                         "predicate of %s (%s) must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
             assert isinstance(result.value, bool)
             if self.universal and not result.value:
                 rv  = False
-- 
2.43.0


From a90f25226302f7dc731b44be569a23ff964d03d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 06/42] fix: crash on a quantified expression in a static
 context

---
 trlc/ast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index f3f6f30..f6f8494 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2304,9 +2304,9 @@ class Quantified_Expression(Expression):
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
         if context is None:
-            new_ctx = {}
-        else:
-            new_ctx = copy(context)
+            mh.error(self.location,
+                     "cannot be used in a static context")
+        new_ctx = copy(context)
 
         # This is going to be a bit tricky. We essentially eliminate
         # the quantifier and substitute; for the sake of making better
-- 
2.43.0


From bc5d097e1b65fb032b08e82a4ad23e06f3c2f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 07/42] fix: crash on type conversions with the wrong number of
 parameters

---
 trlc/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index fbe3ab8..cbd0f78 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1270,12 +1270,12 @@ class Parser(Parser_Base):
             if required_arity != len(parameters):
                 self.mh.error(t_name.location,
                               "function requires %u parameters" %
-                              n_name.arity)
+                              required_arity)
         else:
             if required_arity > len(parameters):
                 self.mh.error(t_name.location,
                               "function requires at least %u parameters" %
-                              n_name.arity)
+                              required_arity)
 
         # Enforce types
         if n_name.name == "len":
-- 
2.43.0


From e9805d02cffc194aacfa50491c7e079ea8310de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 08/42] fix: crash on a membership test in null

---
 trlc/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index cbd0f78..5ae33b1 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -912,6 +912,10 @@ class Parser(Parser_Base):
                     n_lhs    = n_lhs,
                     n_rhs    = n_a)
 
+            elif n_a.typ is None:
+                self.mh.error(n_a.location,
+                              "null is not permitted here")
+
             else:
                 self.mh.error(
                     n_a.location,
-- 
2.43.0


From c4568957153bd57f50d27f9571a53af94bb8f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 09/42] fix: crashes when a file ends in the middle of a
 declaration

---
 trlc/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 5ae33b1..f17be92 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -637,7 +637,7 @@ class Parser(Parser_Base):
             elif self.peek("OPERATOR") and self.nt.value == "*":
                 self.match("OPERATOR")
             else:
-                self.mh.error(self.nt.location,
+                self.mh.error((self.nt or self.ct).location,
                               "expected INTEGER or * for upper bound")
             t_hi = self.ct
             loc_hi = self.ct.location
@@ -1597,7 +1597,7 @@ class Parser(Parser_Base):
                 elif self.peek("STRING"):
                     has_extrainfo = True
                 else:
-                    self.mh.error(self.nt.location,
+                    self.mh.error((self.nt or self.ct).location,
                                   "expected either a details string or"
                                   " identifier to anchor the check message")
 
@@ -1825,7 +1825,7 @@ class Parser(Parser_Base):
 
         elif isinstance(typ, ast.Tuple_Type) and typ.has_separators():
             # lobster-trace: LRM.Tuple_Separator_Form
-            rv = ast.Tuple_Aggregate(self.nt.location, typ)
+            rv = ast.Tuple_Aggregate((self.nt or self.ct).location, typ)
 
             next_is_optional = False
             for n_item in typ.iter_sequence():
-- 
2.43.0


From 36bbe336b67d92990c795922cda14412fbd65cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:15 +0000
Subject: [PATCH 10/42] fix: do not parse rsl files whose preamble contains
 errors

---
 trlc/trlc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 5d7f5dd..627b72f 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -384,8 +384,10 @@ class Source_Manager:
         # Select RSL files that we should parse
         rsl_map = {(parser.cu.package.name , "rsl"): parser
                    for parser in self.rsl_files.values()
-                   if parser.cu.package and (parser.primary or
-                                             parser.secondary)}
+                   if parser.cu.package and
+                   parser.cu.location.file_name not in
+                   self.files_with_preamble_errors and
+                   (parser.primary or parser.secondary)}
 
         # Parse packages that have no unparsed dependencies. Keep
         # doing it until we parse everything or until we have reached
-- 
2.43.0


From 2c7aacdad8ad3d1caa41430a98a798d13ed44e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 11/42] fix: checks on nested tuples and on later array
 elements were skipped

---
 trlc/ast.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index f6f8494..076088b 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2588,8 +2588,10 @@ class Array_Type(Type):
         assert isinstance(gstab, Symbol_Table)
 
         if isinstance(value, Array_Aggregate):
-            return all(self.element_type.perform_type_checks(mh, v, gstab)
-                       for v in value.value)
+            # Do not stop at the first failure, the remaining elements
+            # need to be checked too
+            return all([self.element_type.perform_type_checks(mh, v, gstab)
+                        for v in value.value])
         else:
             assert isinstance(value, Implicit_Null)
             return True
@@ -3119,6 +3121,10 @@ class Tuple_Type(Composite_Type):
 
         if isinstance(value, Tuple_Aggregate):
             ok = True
+            for n_field in self.all_components():
+                if not n_field.n_typ.perform_type_checks(
+                        mh, value.value[n_field.name], gstab):
+                    ok = False
             for check in self.iter_checks():
                 if not check.perform(mh, value, gstab):
                     ok = False
-- 
2.43.0


From 547f8875291df6a7d7c9552078a0dd2f874b2448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:20 +0000
Subject: [PATCH 12/42] fix: iterating by section a second time lost all file
 and section headings

---
 trlc/ast.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 076088b..b84c3c7 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3429,8 +3429,6 @@ class Symbol_Table:
         self.parent   = parent
         self.imported = []
         self.table    = OrderedDict()
-        self.trlc_files = []
-        self.section_names = []
 
     @staticmethod
     def simplified_name(name):
@@ -3458,16 +3456,18 @@ class Symbol_Table:
         Output: Information about sections and level of sections,
         record objects and levels of record object
         """
+        trlc_files    = []
+        section_names = []
         for record_object in self.iter_record_objects():
             location = record_object.location.file_name
-            if location not in self.trlc_files:
-                self.trlc_files.append(location)
+            if location not in trlc_files:
+                trlc_files.append(location)
                 yield location
             if record_object.section:
                 object_level = len(record_object.section) - 1
                 for level, section in enumerate(record_object.section):
-                    if section not in self.section_names:
-                        self.section_names.append(section)
+                    if section not in section_names:
+                        section_names.append(section)
                         yield section.name, level
                 yield record_object, object_level
             else:
-- 
2.43.0


From b6953e04de0347b10d8210e22637b2d324446e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 13/42] fix: trailing whitespace on the first line of triple
 quoted strings was kept

---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 259364b..21009ac 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -37,7 +37,7 @@ def triple_quoted_string_value(raw_value):
 
     non_empty_lines = [line for line in lines if line.strip()]
 
-    value      = lines[0]
+    value      = lines[0].rstrip()
     common_ws  = ""
     common_len = 0
     if len(non_empty_lines) >= 2:
-- 
2.43.0


From f97021350bea4e19e1edd4e6889e6c78badd4403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:38 +0000
Subject: [PATCH 14/42] fix: references to a type and to its extension could
 not be compared

---
 trlc/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index b84c3c7..90d9406 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1483,10 +1483,10 @@ class Binary_Expression(Expression):
             if (self.n_lhs.typ is None) or (self.n_rhs.typ is None):
                 # We can compary anything to null (including itself)
                 pass
-            elif isinstance(self.n_lhs.typ, Union_Type) or \
-                 isinstance(self.n_rhs.typ, Union_Type):
-                # For union types, we allow comparison if both
-                # sides are record-like (Record_Type or Union_Type)
+            elif isinstance(self.n_lhs.typ, (Record_Type, Union_Type)) or \
+                 isinstance(self.n_rhs.typ, (Record_Type, Union_Type)):
+                # For record and union types, we allow comparison if
+                # both sides are record-like (Record_Type or Union_Type)
                 lhs_is_record = isinstance(self.n_lhs.typ,
                                            (Record_Type, Union_Type))
                 rhs_is_record = isinstance(self.n_rhs.typ,
-- 
2.43.0


From 01c7cf9c320b1889da9ccdceb60d6412e2f0aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:05 +0000
Subject: [PATCH 15/42] fix: array membership ignored the type of the elements

---
 trlc/ast.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 90d9406..3f1343b 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1538,7 +1538,17 @@ class Binary_Expression(Expression):
 
         elif operator == Binary_Operator.ARRAY_CONTAINS:
             self.n_rhs.ensure_type(mh, Array_Type)
-            self.n_lhs.ensure_type(mh, self.n_rhs.typ.element_type.__class__)
+            element_type = self.n_rhs.typ.element_type
+            self.n_lhs.ensure_type(mh, element_type.__class__)
+            if isinstance(element_type, Record_Type):
+                if not (self.n_lhs.typ.is_subclass_of(element_type) or
+                        element_type.is_subclass_of(self.n_lhs.typ)):
+                    mh.error(self.n_lhs.location,
+                             "expected expression of type %s, got %s instead" %
+                             (element_type.name,
+                              self.n_lhs.typ.name))
+            elif not isinstance(element_type, Union_Type):
+                self.n_lhs.ensure_type(mh, element_type)
 
         elif operator == Binary_Operator.PLUS:
             if isinstance(self.n_lhs.typ, Builtin_Numeric_Type):
@@ -1741,7 +1751,8 @@ class Binary_Expression(Expression):
             assert isinstance(v_rhs.value, list)
 
             return Value(location = self.location,
-                         value    = v_lhs in v_rhs.value,
+                         value    = any(v_lhs.is_same_value(v_item)
+                                        for v_item in v_rhs.value),
                          typ      = self.typ)
 
         elif self.operator == Binary_Operator.PLUS:
-- 
2.43.0


From 4a3af293e338943b7a2fe9e98be268ad950ad8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 16/42] fix: null on the right of and, or and implies was not
 rejected

---
 trlc/ast.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 3f1343b..2ac7721 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1630,6 +1630,16 @@ class Binary_Expression(Expression):
         else:
             assert False
 
+    def evaluate_connective_rhs(self, mh, context, gstab):
+        # lobster-trace: LRM.Null_Is_Invalid
+        v_rhs = self.n_rhs.evaluate(mh, context, gstab)
+        if v_rhs.value is None:
+            mh.error(v_rhs.location,
+                     "rhs of check %s (%s) must not be null" %
+                     (self.to_string(),
+                      mh.cross_file_reference(self.location)))
+        return v_rhs
+
     def evaluate(self, mh, context, gstab):
         # lobster-trace: LRM.Null_Equivalence
         # lobster-trace: LRM.Null_Is_Invalid
@@ -1656,7 +1666,7 @@ class Binary_Expression(Expression):
         if self.operator == Binary_Operator.LOGICAL_AND:
             assert isinstance(v_lhs.value, bool)
             if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
+                return self.evaluate_connective_rhs(mh, context, gstab)
             else:
                 return v_lhs
 
@@ -1665,12 +1675,12 @@ class Binary_Expression(Expression):
             if v_lhs.value:
                 return v_lhs
             else:
-                return self.n_rhs.evaluate(mh, context, gstab)
+                return self.evaluate_connective_rhs(mh, context, gstab)
 
         elif self.operator == Binary_Operator.LOGICAL_IMPLIES:
             assert isinstance(v_lhs.value, bool)
             if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
+                return self.evaluate_connective_rhs(mh, context, gstab)
             else:
                 return Value(location = self.location,
                              value    = True,
-- 
2.43.0


From 386ebfb367c8e86c8f359789de115656d1f6fc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 17/42] fix: verifier crash on division, index, range test and
 oneof in quantifiers

---
 trlc/vcg.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 5eee6ec..4734d96 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -166,9 +166,8 @@ class VCG:
         assert isinstance(bool_expr, smt.Expression)
         assert bool_expr.sort is smt.BUILTIN_BOOLEAN
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -186,9 +185,8 @@ class VCG:
         assert isinstance(int_expr, smt.Expression)
         assert int_expr.sort is smt.BUILTIN_INTEGER
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -207,9 +205,8 @@ class VCG:
         assert isinstance(real_expr, smt.Expression)
         assert real_expr.sort is smt.BUILTIN_REAL
         assert isinstance(origin, Expression)
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
@@ -231,9 +228,8 @@ class VCG:
         assert index_expr.sort is smt.BUILTIN_INTEGER
         assert isinstance(origin, Binary_Expression)
         assert origin.operator == Binary_Operator.INDEX
-        assert not self.functional
 
-        if not self.emit_checks:
+        if self.functional or not self.emit_checks:
             return
 
         # Attach new graph node advance start
-- 
2.43.0


From 7900bacb3e9f9575838430c850daf32adb778f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 18/42] fix: crash in the api dump for decimals in arrays and
 tuples

---
 trlc/trlc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trlc/trlc.py b/trlc/trlc.py
index 627b72f..0559172 100644
--- a/trlc/trlc.py
+++ b/trlc/trlc.py
@@ -738,7 +738,9 @@ def trlc():
                     if isinstance(tmp[obj.name][key], Fraction):
                         tmp[obj.name][key] = float(tmp[obj.name][key])
 
-            print(json.dumps(tmp, indent=2, sort_keys=True), file=mh.out)
+            print(json.dumps(tmp, indent=2, sort_keys=True,
+                             default=float),
+                  file=mh.out)
 
     total_models = len(sm.rsl_files)
     parsed_models = len([item
-- 
2.43.0


From 928879d474574988d889402f6f5d49a58b90274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 19/42] fix: crashes and spurious errors for quotes at the end
 of a file

---
 trlc/lexer.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 21009ac..e9c9791 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -414,11 +414,6 @@ class TRLC_Lexer(Lexer_Base):
                 self.advance()
                 quotes_seen = 0
                 while quotes_seen < 3:
-                    self.advance()
-                    if self.cc == '"':
-                        quotes_seen += 1
-                    else:
-                        quotes_seen = 0
                     if self.nc is None:
                         self.mh.lex_error(
                             Source_Reference(lexer      = self,
@@ -427,6 +422,11 @@ class TRLC_Lexer(Lexer_Base):
                                              start_pos  = start_pos,
                                              end_pos    = self.lexpos),
                             "unterminated triple-quoted string")
+                    self.advance()
+                    if self.cc == '"':
+                        quotes_seen += 1
+                    else:
+                        quotes_seen = 0
             else:
                 while self.nc != '"':
                     if self.nc is None:
@@ -462,15 +462,11 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = min(self.lexpos,
+                                                      self.length - 1)),
                         "malformed triple-quoted string")
             quotes_seen = 0
             while quotes_seen < 3:
-                self.advance()
-                if self.cc == "'":
-                    quotes_seen += 1
-                else:
-                    quotes_seen = 0
                 if self.nc is None:
                     self.mh.lex_error(
                         Source_Reference(lexer      = self,
@@ -479,6 +475,11 @@ class TRLC_Lexer(Lexer_Base):
                                          start_pos  = start_pos,
                                          end_pos    = self.lexpos),
                         "unterminated triple-quoted string")
+                self.advance()
+                if self.cc == "'":
+                    quotes_seen += 1
+                else:
+                    quotes_seen = 0
 
         elif self.is_numeric(self.cc):
             # lobster-trace: LRM.Integers
-- 
2.43.0


From b200c1b55ebf328f29708a7b973c32bf4f804268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:28 +0000
Subject: [PATCH 20/42] fix: /*/ was taken for a complete comment

---
 trlc/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index e9c9791..d1d1323 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -342,6 +342,8 @@ class TRLC_Lexer(Lexer_Base):
         elif self.cc == "/" and self.nc == "*":
             # lobster-trace: LRM.Comments
             kind = "COMMENT"
+            self.advance()
+            self.advance()
             while self.nc and not (self.cc == "*" and self.nc == "/"):
                 self.advance()
             self.advance()
-- 
2.43.0


From e13ebc1e22bddc6946ab9e551d5c4e619ee62efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:41 +0000
Subject: [PATCH 21/42] fix: inherited fields could not be accessed through
 record references

---
 trlc/ast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 2ac7721..efe07b9 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1901,7 +1901,11 @@ class Field_Access_Expression(Expression):
         self.is_universal    = is_universal
 
         if not is_union_access:
-            self.n_prefix.ensure_type(mh, self.n_field.member_of)
+            n_owner = self.n_field.member_of
+            if not (isinstance(n_prefix.typ, Record_Type) and
+                    isinstance(n_owner, Record_Type) and
+                    n_prefix.typ.is_subclass_of(n_owner)):
+                self.n_prefix.ensure_type(mh, n_owner)
 
     def dump(self, indent=0):  # pragma: no cover
         # lobster-exclude: Debugging feature
-- 
2.43.0


From aa1e74c8b5be2b7ade3a89b6e9086c0ddd2c5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 22/42] fix: strings and comments naming a package counted as
 uses of its import

---
 trlc/lint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/lint.py b/trlc/lint.py
index 9002cb8..00e09e9 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -236,7 +236,8 @@ class Linter:
                 continue
             for item in file.cu.imports:
                 import_tokens = [t for t in file.lexer.tokens
-                                 if t.value == item.name]
+                                 if t.kind == "IDENTIFIER" and
+                                 t.value == item.name]
                 markup = self.markup_ref(item,
                                          (m.ast_link for m in
                                           file.lexer.tokens if
-- 
2.43.0


From 2af5996d76fc9330f8be4671e4151f33bfbbed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 23/42] fix: references in nested markup strings did not count
 as uses of an import

---
 trlc/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index f17be92..07ff285 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1884,6 +1884,7 @@ class Parser(Parser_Base):
         # lobster-trace: LRM.Markup_String_Values
         self.match("STRING")
         rv = ast.String_Literal(self.ct, self.builtin_mstr)
+        rv.set_ast_link(self.ct)
         mpar = Markup_Parser(self, rv)
         mpar.parse_all_references()
         return rv
-- 
2.43.0


From e69709cefc0b15703e5c56316dcba27dee43302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 24/42] fix: unions used as array elements were not linted

---
 trlc/lint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trlc/lint.py b/trlc/lint.py
index 00e09e9..07c2670 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -221,6 +221,8 @@ class Linter:
                           "be an optional %s instead." %
                           n_typ.element_type.name)
 
+        self.verify_type(n_typ.element_type)
+
     def markup_ref(self, item, string_literals):
         for string_literal in string_literals:
             for reference in string_literal.references:
-- 
2.43.0


From 695c89734b351040d4df4058e394bbd76d1aba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 25/42] fix: linter crash on tuples with more than two
 components after an ambiguous separator

---
 trlc/lint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/lint.py b/trlc/lint.py
index 07c2670..479c335 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -137,6 +137,10 @@ class Linter:
                     "separator_based_literal_ambiguity",
                     "\n".join(explanation))
 
+                previous_was_int     = isinstance(n_item.n_typ,
+                                                  ast.Builtin_Integer)
+                previous_was_bad_sep = False
+
             elif isinstance(n_item, ast.Composite_Component) and \
                isinstance(n_item.n_typ, ast.Builtin_Integer):
                 previous_was_int = True
-- 
2.43.0


From ff33dc246366e516406a17d1d54f3b5bee84b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:53 +0000
Subject: [PATCH 26/42] fix: linter crash on enumerations next to an ambiguous
 separator

---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index efe07b9..11d02dc 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3236,7 +3236,7 @@ class Enumeration_Type(Concrete_Type):
         # lobster-exclude: utility method
         options = list(self.literals.values())
         if options:
-            choice = len(options) // 2
+            choice = options[len(options) // 2]
             return self.name + "." + choice.name
         else:
             return "ERROR"
-- 
2.43.0


From 40867289facd2a3fde13c9d7e1ba1722204259c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 27/42] fix: verifier crash on conversions that do not change
 the type

---
 trlc/vcg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 4734d96..73cc1ae 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -879,10 +879,16 @@ class VCG:
             sym_value = smt.Sequence_Length(operand_value)
 
         elif n_expr.operator == Unary_Operator.CONVERSION_TO_DECIMAL:
-            sym_value = smt.Conversion_To_Real(operand_value)
+            if isinstance(n_expr.n_operand.typ, Builtin_Integer):
+                sym_value = smt.Conversion_To_Real(operand_value)
+            else:
+                sym_value = operand_value
 
         elif n_expr.operator == Unary_Operator.CONVERSION_TO_INT:
-            sym_value = smt.Conversion_To_Integer("rna", operand_value)
+            if isinstance(n_expr.n_operand.typ, Builtin_Decimal):
+                sym_value = smt.Conversion_To_Integer("rna", operand_value)
+            else:
+                sym_value = operand_value
 
         else:
             self.mh.ice_loc(n_expr,
-- 
2.43.0


From 8a7223d119b5f5947a373f4303355539c5b5166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 28/42] fix: verifier crash on tuples and enumerations first
 used in the middle of a check

---
 trlc/vcg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 73cc1ae..c65a1dd 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -689,7 +689,7 @@ class VCG:
                 for n_lit in n_type.literals.values():
                     s_sort.add_literal(n_lit.name)
                 self.enumerations[n_type] = s_sort
-                self.start.add_statement(
+                self.preamble.add_statement(
                     smt.Enumeration_Declaration(
                         s_sort,
                         "enumeration %s from %s" % (
@@ -708,7 +708,7 @@ class VCG:
                         s_sort.add_component(n_component.name + ".valid",
                                              smt.BUILTIN_BOOLEAN)
                 self.tuples[n_type] = s_sort
-                self.start.add_statement(
+                self.preamble.add_statement(
                     smt.Record_Declaration(
                         s_sort,
                         "tuple %s from %s" % (
-- 
2.43.0


From c2c2d49974c9a3d02e70296f5fc230d9496f2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 29/42] fix: verifier crash on integers that need more than 32
 bits

---
 trlc/vcg.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index c65a1dd..87114d2 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -640,7 +640,7 @@ class VCG:
         # length
         if isinstance(n_component.n_typ, Array_Type):
             if n_component.n_typ.lower_bound > 0:
-                s_lower = smt.Integer_Literal(n_component.n_typ.lower_bound)
+                s_lower = self.tr_integer(n_component.n_typ.lower_bound)
                 gn_locals.add_statement(
                     smt.Assertion(
                         smt.Comparison(">=",
@@ -648,7 +648,7 @@ class VCG:
                                        s_lower)))
 
             if n_component.n_typ.upper_bound is not None:
-                s_upper = smt.Integer_Literal(n_component.n_typ.upper_bound)
+                s_upper = self.tr_integer(n_component.n_typ.upper_bound)
                 gn_locals.add_statement(
                     smt.Assertion(
                         smt.Comparison("<=",
@@ -757,6 +757,22 @@ class VCG:
         if n_check.n_type is not self.n_ctyp:
             self.emit_checks = old_emit
 
+    def tr_integer(self, value):
+        assert isinstance(value, int)
+
+        # The CVC5 API only takes 32-bit integers, so we need to build
+        # larger numbers out of smaller ones.
+        if -2 ** 31 <= value < 2 ** 31:
+            return smt.Integer_Literal(value)
+
+        upper, lower = divmod(value, 2 ** 30)
+        return smt.Binary_Int_Arithmetic_Op(
+            "+",
+            smt.Binary_Int_Arithmetic_Op("*",
+                                         self.tr_integer(upper),
+                                         smt.Integer_Literal(2 ** 30)),
+            smt.Integer_Literal(lower))
+
     def tr_expression(self, n_expr):
         value = None
 
@@ -788,7 +804,7 @@ class VCG:
             value = smt.Boolean_Literal(n_expr.value)
 
         elif isinstance(n_expr, Integer_Literal):
-            value = smt.Integer_Literal(n_expr.value)
+            value = self.tr_integer(n_expr.value)
 
         elif isinstance(n_expr, Decimal_Literal):
             value = smt.Real_Literal(n_expr.value)
-- 
2.43.0


From b202a5ba210089510f959a16741af973a324e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 30/42] fix: verifier crash on counter-examples that cannot be
 represented

---
 trlc/vcg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 87114d2..43f1121 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -379,7 +379,12 @@ class VCG:
             for name, value in CVC5_OPTIONS.items():
                 solver.set_solver_option(name, value)
 
-            status, values = vc["script"].solve_vc(solver)
+            try:
+                status, values = vc["script"].solve_vc(solver)
+            except (RuntimeError, ValueError):
+                # CVC5 cannot always provide a counter-example, for
+                # instance if it needs a very long string or number.
+                status, values = "unknown", {}
 
             message = vc["feedback"].message
             if self.debug:  # pragma: no cover
-- 
2.43.0


From 1dbf1edc884151004eaa23046376c4a3bdca5319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 31/42] fix: rst export put objects of a section under its last
 subsection

---
 tools/trlc_rst/trlc_rst.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index a57bc84..28b7996 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -163,6 +163,11 @@ class TRLCRST:
                 to_tree.append(from_node)
                 break
 
+        # What is rendered after a heading belongs to it, so the objects of
+        # a section have to come before its subsections.
+        for node in preorder_iter(requirements_root):
+            node.sort(key=lambda child: not child.is_leaf)
+
         self._requirements_tree = requirements_root
 
     def render_to_file(
-- 
2.43.0


From 109a11928b878d30ca14eb191f8e23d322b1bdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 32/42] fix: rst export lost objects named like their section
 and crashed on empty section names

---
 tools/trlc_rst/trlc_rst.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 28b7996..e6512f7 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -208,7 +208,7 @@ class TRLCRST:
                     continue
 
                 if not node.is_leaf:
-                    file.write(f"{node.name}\n")
+                    file.write(f"{node.title}\n")
                     lookup = node.depth - depth_offset
                     if 0 < lookup <= len(RST_HEADLINE_SEPARATORS):
                         separator_char = RST_HEADLINE_SEPARATORS[lookup - 1]
@@ -216,11 +216,11 @@ class TRLCRST:
                         logger.warning(
                             "Section '%s' at depth %d exceeds max RST heading depth, "
                             'falling back to "\'" separator',
-                            node.name,
+                            node.title,
                             node.depth,
                         )
                         separator_char = "'"
-                    file.write(f"{separator_char * len(node.name)}\n")
+                    file.write(f"{separator_char * len(node.title)}\n")
 
                 else:
                     trlc_obj = getattr(node, "trlc_obj", None)
@@ -606,7 +606,9 @@ class TRLCRST:
         current = root
 
         for section in sections:
-            current = Node(section.name, parent=current)
+            # The node name must neither be empty nor the name of an object
+            current = Node(f"section {section.name}", parent=current,
+                           title=section.name)
         return current
 
     def render(
-- 
2.43.0


From 301563cb267d1957ae6aa02934237aca3dc9c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 33/42] fix: rst export broke headings of sections with line
 breaks in their name

---
 tools/trlc_rst/trlc_rst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index e6512f7..bf26f98 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -608,7 +608,7 @@ class TRLCRST:
         for section in sections:
             # The node name must neither be empty nor the name of an object
             current = Node(f"section {section.name}", parent=current,
-                           title=section.name)
+                           title=" ".join(section.name.split()))
         return current
 
     def render(
-- 
2.43.0


From 364be4389775f6f7e47d453bd8d0c97abc858161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 34/42] fix: rst export broke field lists and tables with
 multi-line values

---
 tools/trlc_rst/trlc_rst.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index bf26f98..eb68dbc 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -253,6 +253,11 @@ class TRLCRST:
             )
         return trlc_obj.to_python_dict().get(field_name)
 
+    @staticmethod
+    def _hanging(value, indent: int) -> str:
+        """Return *value* as text, with all lines but the first indented."""
+        return str(value).replace("\n", "\n" + " " * indent)
+
     def _render_record_block(self, fqn: str, trlc_obj, fields: list[tuple[str, str]]) -> list:
         """Render one record as a ``requirement:definition`` directive block.
 
@@ -275,7 +280,7 @@ class TRLCRST:
                 field_list.append((label, value))
 
         for label, value in field_list:
-            lines.append(f":{label}: {value}")
+            lines.append(f":{label}: {self._hanging(value, 3)}")
         if field_list:
             lines.append("")
         for value in block_values:
@@ -423,7 +428,7 @@ class TRLCRST:
             lines.append(f"   * - {cell}")
             for field_name, _ in normalized:
                 value = self._field_value(obj, field_name)
-                lines.append(f"     - {'' if value is None else value}")
+                lines.append(f"     - {'' if value is None else self._hanging(value, 7)}")
         lines.append("")
         return "\n".join(lines) + "\n"
 
-- 
2.43.0


From d0811fd4abacdb9bc8bf6f93666cde6e4fa26c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 35/42] fix: rst export dropped fields with the value 0 or
 false

---
 tools/trlc_rst/trlc_rst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index eb68dbc..91a912f 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -345,12 +345,12 @@ class TRLCRST:
         if obj is None:
             return None
         value = self._field_value(obj, field_name)
-        if not value:
+        if value is None or value == "":
             return None
         field_node = obj.field.get(field_name)
         if isinstance(field_node, trlc.ast.String_Literal):
             return self._preprocess_description(value, indent=0)
-        return value
+        return str(value)
 
     def render_records_to_string(
         self,
-- 
2.43.0


From 83d06415f009bb3e8099be9bdc0e8221a7007d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:35 +0000
Subject: [PATCH 36/42] fix: rst export put labelled fields outside of their
 directive

---
 tools/trlc_rst/trlc_rst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/trlc_rst/trlc_rst.py b/tools/trlc_rst/trlc_rst.py
index 91a912f..c49c4c2 100644
--- a/tools/trlc_rst/trlc_rst.py
+++ b/tools/trlc_rst/trlc_rst.py
@@ -280,7 +280,7 @@ class TRLCRST:
                 field_list.append((label, value))
 
         for label, value in field_list:
-            lines.append(f":{label}: {self._hanging(value, 3)}")
+            lines.append(f"   :{label}: {self._hanging(value, 6)}")
         if field_list:
             lines.append("")
         for value in block_values:
-- 
2.43.0


From e628e61d7ba70f2c3494da62f9b7e9b7049f0658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 37/42] fix: end of tokens after a line break at the start of
 the file

---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index d1d1323..17584ec 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -115,7 +115,7 @@ class Source_Reference(Location):
         end_line = self.line_no + lines_in_between
 
         end_col = self.end_pos + 1
-        for n in range(self.end_pos, 1, -1):
+        for n in range(self.end_pos, -1, -1):
             if self.lexer.content[n] == "\n":
                 end_col = max(self.end_pos - n, 1)
                 break
-- 
2.43.0


From 526c268d7f9d3d016956e16905d0660eaf5a3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 38/42] fix: sphinx extension kept the definitions of documents
 read again

---
 tools/sphinx/extensions/trlc/trlc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/sphinx/extensions/trlc/trlc.py b/tools/sphinx/extensions/trlc/trlc.py
index 25e2c20..ff0b7f7 100644
--- a/tools/sphinx/extensions/trlc/trlc.py
+++ b/tools/sphinx/extensions/trlc/trlc.py
@@ -138,6 +138,12 @@ class RequirementsDomain(Domain):
     def resolve_any_xref(self, env, fromdocname, builder, target, node, contnode):
         return []
 
+    def clear_doc(self, docname):
+        # Called before a document is read again, and when it is gone
+        self.data["requirements"] = [
+            req for req in self.data["requirements"] if req[3] != docname
+        ]
+
     def merge_domaindata(self, docnames, otherdata):
         existing_anchors = {anchor for _name, _sig, _typ, _docname, anchor, _prio in self.data["requirements"]}
         for _name, _sig, _typ, docname, anchor, _prio in otherdata["requirements"]:
-- 
2.43.0


From 188d318adb4f5c6fd287ebd1c5e7ccd7ebd3df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 39/42] fix: sphinx extension dropped equal definitions when
 merging parallel reads

---
 tools/sphinx/extensions/trlc/trlc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tools/sphinx/extensions/trlc/trlc.py b/tools/sphinx/extensions/trlc/trlc.py
index ff0b7f7..0685966 100644
--- a/tools/sphinx/extensions/trlc/trlc.py
+++ b/tools/sphinx/extensions/trlc/trlc.py
@@ -145,11 +145,9 @@ class RequirementsDomain(Domain):
         ]
 
     def merge_domaindata(self, docnames, otherdata):
-        existing_anchors = {anchor for _name, _sig, _typ, _docname, anchor, _prio in self.data["requirements"]}
         for _name, _sig, _typ, docname, anchor, _prio in otherdata["requirements"]:
-            if docname in docnames and anchor not in existing_anchors:
+            if docname in docnames:
                 self.data["requirements"].append((_name, _sig, _typ, docname, anchor, _prio))
-                existing_anchors.add(anchor)
 
 
 def setup(app: Sphinx):
-- 
2.43.0


From aa54f89eac430005cf09b4d366fc64898a8ebb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 40/42] fix: write texts in examples of the verifier so that
 they can be read again

---
 trlc/vcg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 43f1121..06ed375 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -495,10 +495,11 @@ class VCG:
             return n_typ.name + "." + value
 
         elif isinstance(n_typ, Builtin_String):
-            if "\n" in value:
-                return "'''%s'''" % value
+            if "\n" in value or "\\" in value:
+                delimiter = '"""' if "'''" in value else "'''"
+                return delimiter + value + delimiter
             else:
-                return '"%s"' % value
+                return '"%s"' % value.replace('"', '\\"')
 
         elif isinstance(n_typ, (Record_Type, Union_Type)):
             # lobster-trace: LRM.Union_Type_Equality
-- 
2.43.0


From 162ca0ad4cda4e3de73dddf5d9fd95daa85bd56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 41/42] fix: name the package of enumerations in examples of
 the verifier

---
 trlc/vcg.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 06ed375..823235d 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -492,7 +492,12 @@ class VCG:
             return "true" if value else "false"
 
         elif isinstance(n_typ, Enumeration_Type):
-            return n_typ.name + "." + value
+            if n_typ.n_package is self.n_ctyp.n_package:
+                return "%s.%s" % (n_typ.name, value)
+            else:
+                return "%s.%s.%s" % (n_typ.n_package.name,
+                                     n_typ.name,
+                                     value)
 
         elif isinstance(n_typ, Builtin_String):
             if "\n" in value or "\\" in value:
-- 
2.43.0


From 9e724e05ff146bce78da946a88469ae124c061b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 42/42] fix: set off separators that are words in examples of
 the verifier

---
 trlc/vcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 823235d..da63f8d 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -539,7 +539,7 @@ class VCG:
                         "AT"        : "@",
                         "COLON"     : ":",
                         "SEMICOLON" : ";"
-                    }.get(n_item.token.kind, n_item.token.value)
+                    }.get(n_item.token.kind, " %s " % n_item.token.value)
                     parts.append(sep_text)
 
             if n_typ.has_separators():
-- 
2.43.0

