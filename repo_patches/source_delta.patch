From 2b7cb07f53e9993a727bb25ed05b1db12c2fdfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:02 +0000
Subject: [PATCH 01/23] fix: evaluate implications by their truth table, not
 always as true

---
 pylogics_modalities/semantics/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/semantics/base.py b/pylogics_modalities/semantics/base.py
index d181d55..74782e7 100644
--- a/pylogics_modalities/semantics/base.py
+++ b/pylogics_modalities/semantics/base.py
@@ -74,7 +74,8 @@ def implies_semantics(
         for index, sub_formula in enumerate(formula.operands):
             if index < len(formula.operands) - 1:
                 yield not fn(sub_formula, *args, **kwargs)
-            yield fn(sub_formula, *args, **kwargs)
+            else:
+                yield fn(sub_formula, *args, **kwargs)
 
     return any(_visitor())
 
-- 
2.43.0


From 81c58cf89f3ed5f705877b86ca1a5537a5682600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 02/23] fix: do not turn 'f -> false' into a tautology

---
 pylogics_modalities/syntax/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index b2b92a9..e44e024 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -536,9 +536,9 @@ class _MetaImpliesOp(_MetaOp):
         logic = operands[0].logic
         false = make_boolean(False, logic=logic)
         new_operands = []
-        for operand in operands:
-            if operand == false:
-                # ex falso sequitur quodlibet
+        for index, operand in enumerate(operands):
+            if operand == false and index < len(operands) - 1:
+                # ex falso sequitur quodlibet (only for an antecedent)
                 new_operands.append(~false)
                 return new_operands
             new_operands.append(operand)
-- 
2.43.0


From f8795abbe811b0ac37d8e60af56e62d4b0010ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 03/23] fix: make formulas picklable and copyable, any number
 of times

---
 pylogics_modalities/helpers/cache_hash.py | 5 +++--
 pylogics_modalities/syntax/base.py        | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylogics_modalities/helpers/cache_hash.py b/pylogics_modalities/helpers/cache_hash.py
index 43eddb8..a706d10 100644
--- a/pylogics_modalities/helpers/cache_hash.py
+++ b/pylogics_modalities/helpers/cache_hash.py
@@ -61,8 +61,9 @@ def _getstate(fn):
 
     @wraps(fn)
     def __getstate__(self):
-        d = fn(self)
-        d.pop("__hash")
+        # work on a copy: the state may be the instance dictionary itself.
+        d = dict(fn(self) or {})
+        d.pop("__hash", None)
         return d
 
     return __getstate__
diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index e44e024..03f7699 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -498,6 +498,10 @@ class Not(_UnaryOp):
             return ~arg
         return super(Not, cls).__new__(cls)
 
+    def __getnewargs__(self):
+        """Get the arguments of '__new__', needed to restore a copied object."""
+        return (self.argument,)
+
     def __invert__(self):
         """Invert the negation."""
         return self.argument
-- 
2.43.0


From 49e0bcfec116e4e5260ec0ae57974b71e8ca6c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 04/23] fix: print the PLTL operators weak before and triggers

---
 pylogics_modalities/utils/to_string.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 45e9397..60d148b 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -46,7 +46,7 @@ from pylogics_modalities.syntax.ltl import Release, StrongRelease, Until, WeakNe
 from pylogics_modalities.syntax.pltl import Before, Historically, Once
 from pylogics_modalities.syntax.pltl import PropositionalFalse as PLTLPropositionalFalse
 from pylogics_modalities.syntax.pltl import PropositionalTrue as PLTLPropositionalTrue
-from pylogics_modalities.syntax.pltl import Since
+from pylogics_modalities.syntax.pltl import Since, Triggers, WeakBefore
 
 
 @functools.singledispatch
@@ -186,12 +186,24 @@ def to_string_pltl_before(formula: Before) -> str:
     return f"Y({to_string(formula.argument)})"
 
 
+@to_string.register(WeakBefore)
+def to_string_pltl_weak_before(formula: WeakBefore) -> str:
+    """Transform a 'weak before' formula into string."""
+    return f"Z({to_string(formula.argument)})"
+
+
 @to_string.register(Since)
 def to_string_pltl_since(formula: Since) -> str:
     """Transform a 'since' formula into string."""
     return " S ".join(_map_operands_to_string(formula.operands))
 
 
+@to_string.register(Triggers)
+def to_string_pltl_triggers(formula: Triggers) -> str:
+    """Transform a 'triggers' formula into string."""
+    return " T ".join(_map_operands_to_string(formula.operands))
+
+
 @to_string.register(Once)
 def to_string_pltl_once(formula: Once) -> str:
     """Transform a 'once' formula into string."""
-- 
2.43.0


From 07511ad956c7494a5cc74beae50ba617334920c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 05/23] fix: print LDL tests with the postfix question mark the
 parser accepts

---
 pylogics_modalities/utils/to_string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/utils/to_string.py b/pylogics_modalities/utils/to_string.py
index 60d148b..5248bf0 100644
--- a/pylogics_modalities/utils/to_string.py
+++ b/pylogics_modalities/utils/to_string.py
@@ -249,7 +249,7 @@ def to_string_re_star(formula: Star) -> str:
 @to_string.register(Test)
 def to_string_re_test(formula: Test) -> str:
     """Transform a test regular expression into string."""
-    return f"?({to_string(formula.argument)})"
+    return f"({to_string(formula.argument)})?"
 
 
 @to_string.register(Prop)
-- 
2.43.0


From 96dbbeccca6ee45f8af364f331daa25f11332fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:37 +0000
Subject: [PATCH 06/23] fix: LTL last is 'weak next false', not 'always false'

---
 pylogics_modalities/syntax/ltl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/syntax/ltl.py b/pylogics_modalities/syntax/ltl.py
index 4c4172e..ae1b2e8 100644
--- a/pylogics_modalities/syntax/ltl.py
+++ b/pylogics_modalities/syntax/ltl.py
@@ -157,4 +157,4 @@ class StrongRelease(_LTLBinaryOp):
     SYMBOL = "strong_release"
 
 
-Last = partial(Always, FalseFormula(logic=Logic.LTL))
+Last = partial(WeakNext, FalseFormula(logic=Logic.LTL))
-- 
2.43.0


From c41ae779bae6decf89b2ae06faf9e79aa215c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:10 +0000
Subject: [PATCH 07/23] fix: parse negated brackets and repeated negations in
 LDL propositional expressions

---
 docs/grammars.md                    | 3 ++-
 pylogics_modalities/parsers/pl.lark | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index e87bd6c..cfcc35f 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -16,7 +16,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index 7c9e0f0..b7e6d73 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -5,7 +5,8 @@ start: propositional_formula
 ?prop_implication: prop_or (IMPLY prop_or)*
 ?prop_or: prop_and (OR prop_and)*
 ?prop_and: prop_not (AND prop_not)*
-?prop_not: NOT* prop_wrapped
+?prop_not: NOT prop_not
+         | prop_wrapped
 ?prop_wrapped: prop_atom
             | LEFT_PARENTHESIS propositional_formula RIGHT_PARENTHESIS
 ?prop_atom: atom
-- 
2.43.0


From b3a2914fb528d01a3a5031b37b49b0c625a09460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 08/23] fix: recognise symbols that merely begin with a keyword

---
 docs/grammars.md                      | 16 ++++++++--------
 pylogics_modalities/parsers/ltl.lark  |  8 ++++----
 pylogics_modalities/parsers/pl.lark   |  4 ++--
 pylogics_modalities/parsers/pltl.lark |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/docs/grammars.md b/docs/grammars.md
index cfcc35f..7773f74 100644
--- a/docs/grammars.md
+++ b/docs/grammars.md
@@ -35,8 +35,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
@@ -118,11 +118,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
@@ -190,8 +190,8 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/ltl.lark b/pylogics_modalities/parsers/ltl.lark
index c118bd1..68bb6dd 100644
--- a/pylogics_modalities/parsers/ltl.lark
+++ b/pylogics_modalities/parsers/ltl.lark
@@ -49,11 +49,11 @@ WEAK_UNTIL.2: /W(?=[ "\(])/
 STRONG_RELEASE.2: /M(?=[ "\(])/
 
 
-END.2: /end/
-LAST.2: /last/
+END.2: /end(?!-*[a-zA-Z0-9_])/
+LAST.2: /last(?!-*[a-zA-Z0-9_])/
 
-TT.2: /tt/
-FF.2: /ff/
+TT.2: /tt(?!-*[a-zA-Z0-9_])/
+FF.2: /ff(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
diff --git a/pylogics_modalities/parsers/pl.lark b/pylogics_modalities/parsers/pl.lark
index b7e6d73..8c6d771 100644
--- a/pylogics_modalities/parsers/pl.lark
+++ b/pylogics_modalities/parsers/pl.lark
@@ -24,8 +24,8 @@ IMPLY : ">>"|"->"
 OR: "||"|"|"
 AND: "&&"|"&"
 NOT: "!"|"~"
-TRUE.2: /true/
-FALSE.2: /false/
+TRUE.2: /true(?!-*[a-zA-Z0-9_])/
+FALSE.2: /false(?!-*[a-zA-Z0-9_])/
 
 // Symbols cannot start with uppercase letters, because these are reserved. Moreover, any word between quotes is a symbol.
 // More in detail:
diff --git a/pylogics_modalities/parsers/pltl.lark b/pylogics_modalities/parsers/pltl.lark
index c804c66..8da840f 100644
--- a/pylogics_modalities/parsers/pltl.lark
+++ b/pylogics_modalities/parsers/pltl.lark
@@ -43,8 +43,8 @@ HISTORICALLY.2: /H(?=[ "\(])/
 ONCE.2: /O(?=[ "\(])/
 BEFORE.2: /Y(?=[ "\(])/
 WEAKBEFORE.2: /Z(?=[ "\(])/
-FIRST.2: /first/
-START.2: /start/
+FIRST.2: /first(?!-*[a-zA-Z0-9_])/
+START.2: /start(?!-*[a-zA-Z0-9_])/
 
 %ignore /\s+/
 
-- 
2.43.0


From 8f98d1e067352a03b0080a361fef504e753094c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 09/23] fix: do not fail if the cache is reset while a formula
 is being built

---
 pylogics_modalities/syntax/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 03f7699..a2c9a3f 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -68,12 +68,12 @@ class _HashConsing(Hashable):
             PylogicsError,
         )
         instance = cast(Formula, super().__call__(*args, **kwargs))
-        cached_instance = cls._context.setdefault(instance.logic, {}).get(
-            instance, None
-        )
+        # the cache might be reset in the meanwhile, so keep a reference.
+        context = cls._context.setdefault(instance.logic, {})
+        cached_instance = context.get(instance, None)
         if cached_instance is None:
             # cache the instance.
-            cls._context[instance.logic][instance] = None
+            context[instance] = None
             cached_instance = instance
         return cached_instance
 
-- 
2.43.0


From f035952e03e1054d4c24bbfc1509c3375df06b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 10/23] fix: enforce the formalisms allowed and forbidden for
 the operands of an operator

---
 pylogics_modalities/syntax/base.py | 30 +++++++++++++++++++-----------
 pylogics_modalities/syntax/ldl.py  |  3 ++-
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index a2c9a3f..acdd745 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -118,28 +118,36 @@ class _MetaOp(_HashConsing):
 
     def __call__(cls, *operands, **kwargs):
         """Init the subclass object."""
-        cls._check_not_forbidden_formalism(*operands)
+        cls._check_not_forbidden_formalism(*operands, *kwargs.values())
         return super(_MetaOp, cls).__call__(*operands, **kwargs)
 
     def _check_not_forbidden_formalism(cls, *operands):
-        """Check operands belong to same formalism."""
+        """Check that each operand belongs to an allowed formalism."""
         enforce(len(operands) >= 1, "expected at least one operand.")
-        logic = operands[0].logic
         allowed = getattr(cls, "ALLOWED_LOGICS", None)
         forbidden = getattr(cls, "FORBIDDEN_LOGICS", None)
         if allowed is not None:
             forbidden = []
 
-        is_logic_allowed = allowed is not None and logic in allowed
-        is_logic_forbidden = forbidden is not None and logic in forbidden
-        if is_logic_allowed and not is_logic_forbidden:
-            raise ValueError(
-                f"error during instantiation of class {cls.__name__}: "
-                f"found operand belonging to logic {logic}, which is forbidden"
+        for operand in operands:
+            if not hasattr(operand, "logic"):
+                continue  # not a formula: the constructor will complain.
+            logic = operand.logic
+            is_logic_allowed = allowed is None or logic in allowed
+            # the boolean constants can be simplified away in any formalism.
+            is_logic_forbidden = (
+                forbidden is not None
+                and logic in forbidden
+                and not isinstance(operand, (TrueFormula, FalseFormula))
             )
+            if not is_logic_allowed or is_logic_forbidden:
+                raise ValueError(
+                    f"error during instantiation of class {cls.__name__}: "
+                    f"found operand belonging to logic {logic}, which is forbidden"
+                )
 
 
-class _BinaryOp(Formula):
+class _BinaryOp(Formula, metaclass=_MetaOp):
     """
     Binary operator.
 
@@ -209,7 +217,7 @@ class _BinaryOp(Formula):
         )
 
 
-class _UnaryOp(Formula, ABC):
+class _UnaryOp(Formula, ABC, metaclass=_MetaOp):
     """
     Unary operator.
 
diff --git a/pylogics_modalities/syntax/ldl.py b/pylogics_modalities/syntax/ldl.py
index fef870b..8138ea7 100644
--- a/pylogics_modalities/syntax/ldl.py
+++ b/pylogics_modalities/syntax/ldl.py
@@ -92,13 +92,14 @@ class Test(_UnaryOp, _RegularExpression):
     """Test of an LDL formula."""
 
     SYMBOL = "test"
-    ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
+    ALLOWED_LOGICS: Set[Logic] = {Logic.LDL}
 
 
 class Star(_UnaryOp, _RegularExpression):
     """Kleene star of regular expressions."""
 
     SYMBOL = "star"
+    ALLOWED_LOGICS: Set[Logic] = {Logic.RE}
 
 
 class Prop(_UnaryOp, _RegularExpression):
-- 
2.43.0


From 2882a82b2266b30db3f6926513f31dfa0a5df2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 11/23] fix: refuse connectives over non-formulas, forbidden or
 different formalisms

---
 pylogics_modalities/syntax/base.py | 58 ++++++++++++++++--------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index acdd745..6ff692b 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -146,6 +146,32 @@ class _MetaOp(_HashConsing):
                     f"found operand belonging to logic {logic}, which is forbidden"
                 )
 
+    def _check_operands_same_logic(cls, *operands: "Formula"):
+        """
+        Check that the operands are formulas that belong to the same logic.
+
+        TrueFormula and FalseFormula are not considered.
+
+        :param operands: the sequence of operands.
+        :return: None
+        :raises: ValueError: if an operand is not a formula, or it is of a forbidden logic.
+        :raises: PylogicsError: if the operands are of different logics.
+        """
+        enforce(
+            all(isinstance(operand, Formula) for operand in operands),
+            "some argument is not an instance of 'Formula'",
+            exception_cls=ValueError,
+        )
+        cls._check_not_forbidden_formalism(*operands)
+        filtered_operands = list(
+            filter(lambda x: not isinstance(x, (TrueFormula, FalseFormula)), operands)
+        )
+        enforce(
+            len({sub_formula.logic for sub_formula in filtered_operands}) <= 1,
+            message="operands do not belong to the same logic",
+            exception_cls=PylogicsError,
+        )
+
 
 class _BinaryOp(Formula, metaclass=_MetaOp):
     """
@@ -382,7 +408,7 @@ class _MonotoneBinaryOp(_MetaOp):
         """Init the subclass object."""
         if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
-        cls._check_operands_same_logic()
+        cls._check_operands_same_logic(*args)
         operands = cls._simplify_monotone_op_operands(cls, *args)
         if len(operands) == 1:
             return operands[0]
@@ -426,28 +452,6 @@ class _MonotoneBinaryOp(_MetaOp):
 
         return new_operands
 
-    @classmethod
-    def _check_operands_same_logic(mcs, *operands: Formula):
-        """
-        Check that the operands belong to the same logic.
-
-        TrueFormula and FalseFormula are not considered.
-
-        :param operands: the sequence of operands.
-        :return: None
-        :raises: PylogicsError: if the check fails.
-        """
-        filtered_operands = list(
-            filter(lambda x: not isinstance(x, (TrueFormula, FalseFormula)), operands)
-        )
-        if len(filtered_operands) == 0:
-            return
-        logic = filtered_operands[0]
-        enforce(
-            all(sub_formula.logic == logic for sub_formula in filtered_operands),
-            message="operands do not belong to the same logic",
-        )
-
 
 class _CommutativeBinaryOp(_BinaryOp):
     """Commutative binary operator."""
@@ -529,9 +533,10 @@ class _MetaImpliesOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
-        operands = cls._simplify_operands(*args)
-        if len(operands) == 0:
+        if len(args) == 0:
             raise ValueError("cannot accept zero arguments")
+        cls._check_operands_same_logic(*args)
+        operands = cls._simplify_operands(*args)
         if len(operands) == 1:
             return operands[0]
 
@@ -577,8 +582,9 @@ class _MetaEquivalenceOp(_MetaOp):
 
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
-        operands = cls._simplify_operands(*args)
         enforce(len(args) > 0, "cannot accept zero arguments", ValueError)
+        cls._check_operands_same_logic(*args)
+        operands = cls._simplify_operands(*args)
         if len(operands) == 1:
             return operands[0]
 
-- 
2.43.0


From a0608698cabb8652dafe8809b25f34d70b9c984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 12/23] fix: compare first-order terms and predicates by
 structure and copy their operands

---
 pylogics_modalities/syntax/fol.py | 37 ++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 9ba1ef0..1ed5407 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -24,7 +24,7 @@
 """Classes for first-order logic."""
 from abc import ABC
 from functools import partial
-from typing import Set
+from typing import Sequence, Set
 
 from pylogics_modalities.helpers.misc import enforce
 from pylogics_modalities.syntax.base import (
@@ -65,6 +65,19 @@ class Term(ABC):
         """Get an unambiguous string representation."""
         return f"{type(self).__name__}({str(self)})"
 
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash((type(self), self.name, getattr(self, "operands", None)))
+
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return (
+            type(self) is type(other)
+            and self.name == other.name
+            and getattr(self, "value", None) == getattr(other, "value", None)
+            and getattr(self, "operands", None) == getattr(other, "operands", None)
+        )
+
 
 class Variable(Term):
     def __init__(self, name: str):
@@ -79,9 +92,9 @@ class Constant(Term):
 
 class Function(Term):
 
-    def __init__(self, name: str, operands: list):
+    def __init__(self, name: str, operands: Sequence[Term]):
         self.name = name
-        self.operands = operands
+        self.operands = tuple(operands)
 
     def __call__(self, *operands) -> Term:
         enforce(len(operands) == len(self.operands), f"expected {len(self.operands)} operands, got {len(operands)}.")
@@ -125,9 +138,9 @@ class _Quantifier(_BinaryOp):
 class Predicate(_FOL):
     """Predicate formula."""
 
-    def __init__(self, name: str, operands: list = []):
+    def __init__(self, name: str, operands: Sequence[Term] = ()):
         self._name = name
-        self._operands = operands
+        self._operands = tuple(operands)
 
     @property
     def name(self) -> str:
@@ -135,7 +148,7 @@ class Predicate(_FOL):
         return self._name
 
     @property
-    def operands(self) -> list:
+    def operands(self) -> Sequence[Term]:
         """Get the operands of the predicate."""
         return self._operands
 
@@ -153,6 +166,18 @@ class Predicate(_FOL):
         """Get an unambiguous string representation."""
         return f"{type(self).__name__}({str(self)})"
 
+    def __hash__(self) -> int:
+        """Compute the hash."""
+        return hash((type(self), self.logic, self.name, self.operands))
+
+    def __eq__(self, other) -> bool:
+        """Compare with another object."""
+        return (
+            isinstance(other, type(self))
+            and self.name == other.name
+            and self.operands == other.operands
+        )
+
 
 class ForAll(_Quantifier, _FOL):
     """Universal formula."""
-- 
2.43.0


From 12f7d008ad2a483edec130a11ec7821c7e9d381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 13/23] fix: print LDL diamond and box formulas by content, not
 by memory address

---
 pylogics_modalities/syntax/ldl.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pylogics_modalities/syntax/ldl.py b/pylogics_modalities/syntax/ldl.py
index 8138ea7..6596c63 100644
--- a/pylogics_modalities/syntax/ldl.py
+++ b/pylogics_modalities/syntax/ldl.py
@@ -112,6 +112,8 @@ class Prop(_UnaryOp, _RegularExpression):
 class _TemporalFormula(_LDL, ABC):
     """LDL Temporal formula."""
 
+    SYMBOL: str
+
     def __init__(self, regular_expression: Formula, tail_formula: Formula):
         """
         Initialize the formula.
@@ -146,14 +148,26 @@ class _TemporalFormula(_LDL, ABC):
         """Compute the hash."""
         return hash((type(self), self.regular_expression, self.tail_formula))
 
+    def __str__(self) -> str:
+        """Get the string representation."""
+        return f"({self.SYMBOL} {self.regular_expression} {self.tail_formula})"
+
+    def __repr__(self) -> str:
+        """Get an unambiguous string representation."""
+        return f"{type(self).__name__}({repr(self.regular_expression)}, {repr(self.tail_formula)})"
+
 
 class Diamond(_TemporalFormula):
     """Diamond formula."""
 
+    SYMBOL = "diamond"
+
 
 class Box(_TemporalFormula):
     """Box formula."""
 
+    SYMBOL = "box"
+
 
 End = partial(Box, Prop(TrueFormula()), FalseFormula(logic=Logic.LDL))
 Last = partial(Diamond, Prop(TrueFormula()), End())
-- 
2.43.0


From 16ebd9faa3fd296edf482fb6482c0f39b86bb578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 14/23] fix: safe_get returns the default for any index out of
 range

---
 pylogics_modalities/helpers/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/helpers/misc.py b/pylogics_modalities/helpers/misc.py
index f261cc3..6e4b81e 100644
--- a/pylogics_modalities/helpers/misc.py
+++ b/pylogics_modalities/helpers/misc.py
@@ -84,7 +84,7 @@ def safe_index(seq: Sequence, *args, **kwargs):
 
 def safe_get(seq: Sequence, index: int, default=None):
     """Get element at index, safe."""
-    return seq[index] if index < len(seq) else default
+    return seq[index] if -len(seq) <= index < len(seq) else default
 
 
 def find(seq: Sequence, condition: Callable[[Any], bool]) -> int:
-- 
2.43.0


From defcde4ee3e1d15c50fd8fab36febbe3aa3d86e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 15/23] fix: natural deduction rules for 'and' and 'or' apply
 to these connectives only

---
 pylogics_modalities/deduction/fol/nd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index e509a13..f3477ee 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -139,11 +139,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_and_e1(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (1) rule."""
-        return str(formula) == str(args[0].operands[0])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[0])
 
     def _check_justification_and_e2(self, formula, *args):
         """Check if the deduction is valid according to and-elimination (2) rule."""
-        return str(formula) == str(args[0].operands[1])
+        return isinstance(args[0], And) and str(formula) == str(args[0].operands[1])
 
     def _check_justification_and_i(self, formula, *args):
         """Check if the deduction is valid according to and-introduction rule."""
@@ -202,11 +202,11 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_or_i1(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 1 rule"""
-        return str(formula.operands[0]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[0]) == str(args[0])
 
     def _check_justification_or_i2(self, formula, *args):
         """Check if the deduction is valid according to or-introduction 2 rule"""
-        return str(formula.operands[1]) == str(args[0])
+        return isinstance(formula, Or) and str(formula.operands[1]) == str(args[0])
 
     def _check_justification_premise(self, formula, *args):
         """Check if the deduction is valid according to premise rule"""
-- 
2.43.0


From 21f3d372d27baff3ccb8024f4027638d44c2672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 16/23] fix: modus tollens on formulas whose negation is
 simplified

---
 pylogics_modalities/deduction/fol/nd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index f3477ee..c5f54d4 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -181,7 +181,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_MT(self, formula, *args):
         """Check if the deduction is valid according to modus tollens rule"""
-        return str(formula.argument >> args[1].argument) == str(args[0])
+        return str(~formula >> ~args[1]) == str(args[0])
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
-- 
2.43.0


From 38265b83e75ccf5372f777282564385837cb59eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 17/23] fix: accept falsum of first-order logic in natural
 deduction proofs

---
 pylogics_modalities/deduction/fol/nd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index c5f54d4..b700045 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -155,7 +155,7 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_bot_e(self, formula, *args):
         """Check if the deduction is valid according to absurd-elimination rule"""
-        return args[0] == FalseFormula()
+        return isinstance(args[0], FalseFormula)
 
     def _check_justification_copy(self, formula, *args):
         """Check if the deduction is valid according to copy rule"""
@@ -185,13 +185,13 @@ class NaturalDeduction(AbstractDeductionSystem):
 
     def _check_justification_neg_e(self, formula, *args):
         """Check if the deduction is valid according to negation-elimination rule"""
-        return str(~args[0]) == str(args[1]) and formula == FalseFormula()
+        return str(~args[0]) == str(args[1]) and isinstance(formula, FalseFormula)
 
     def _check_justification_neg_i(self, formula, *args):
         """Check if the deduction is valid according to negation-introduction rule"""
         phi = args[0][0][1]
         psi = args[0][-1][1]
-        return (psi == FalseFormula()) and (str(formula) == str(~phi))
+        return isinstance(psi, FalseFormula) and (str(formula) == str(~phi))
 
     def _check_justification_or_e(self, formula, *args):
         """Check if the deduction is valid according to or-elimination rule"""
-- 
2.43.0


From 091efa103d88596c6d739b0c0799ffa9194d2947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 18/23] fix: reject proofs with unavailable citations,
 misapplied rules, and misplaced assumptions or premises

---
 pylogics_modalities/deduction/fol/nd.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index b700045..05de94e 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -115,20 +115,29 @@ class NaturalDeduction(AbstractDeductionSystem):
         #     f"proof '{proof}' cannot be processed by {self.check.__name__}"  # type: ignore
         # )
 
+        boxed = sound is not None
         sound = sound if sound else {}
 
-        for row, content, justiﬁcation in proof:
+        for index, (row, content, justiﬁcation) in enumerate(proof):
             if isinstance(content, Formula):
-                rule = justiﬁcation[0]
-                args = [sound[i] for i in justiﬁcation[1:] if i in sound]
-                if rule not in self.check_justification:
+                try:
+                    rule = justiﬁcation[0]
+                    args = [sound[i] for i in justiﬁcation[1:]]
+                    valid = self.check_justification[rule](content, *args)
+                except (AssertionError, AttributeError, LookupError, TypeError, ValueError, PylogicsError):
+                    return False  # the rule does not apply to the cited lines, or they are not available
+                if not valid:
                     return False
-                if self.check_justification[rule](content, *args) == False:
+                # an assumption opens a box, and premises are outside boxes
+                opens_box = boxed and all(isinstance(line[1], Term) for line in proof[:index])
+                if (rule == self.rule.assumption and not opens_box) or (rule == self.rule.premise and boxed):
                     return False
             elif isinstance(content, list):
+                if len(content) == 0:
+                    return False
                 if isinstance(content[0][1], Term) and self._find_term(content[0][1], *sound.values()):
                     return False  # Term occurs outside its assumption
-                if self.check_proof(content, {i: sound[i] for i in sound}) == False:
+                if not self.check_proof(content, {i: sound[i] for i in sound}):
                     return False
             elif isinstance(content, Term):
                 continue
-- 
2.43.0


From c0a5c1ae460b25a2d8c5e2fd24e41288af3a2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 19/23] fix: substitute terms in equivalences and under
 quantifiers, without capture, and by variables

---
 pylogics_modalities/deduction/fol/nd.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index 05de94e..a6ab4de 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -25,7 +25,7 @@
 
 from enum import Enum
 
-from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies
+from pylogics_modalities.syntax.base import Logic, Formula, FalseFormula, And, Or, Not, Implies, Equivalence
 from pylogics_modalities.exceptions import PylogicsError
 
 from pylogics_modalities.syntax.fol import Term, Variable, Constant, Function
@@ -243,19 +243,27 @@ class NaturalDeduction(AbstractDeductionSystem):
             else:
                 for a, b in zip(x.operands, y.operands):
                     diffset = diffset | self._find_diff(a, b)
+        elif x != y:
+            diffset = diffset | {(x, y)}
         return diffset
 
     def _replace(self, formula: Formula, x: Variable, a: Term):
-        if formula is x:
+        if formula == x:
             return a
         if isinstance(formula, Not):
             return type(formula)(self._replace(formula.argument, x, a))
-        if isinstance(formula, (Or, And, Implies)):
-            return type(formula)(*[self._replace(o, x, a) for o in formula.operands])
+        if isinstance(formula, (Or, And, Implies, Equivalence)):
+            operands = [self._replace(o, x, a) for o in formula.operands]
+            if isinstance(formula, Equivalence) and len(set(operands)) < len(operands):
+                raise PylogicsError("the operands of an equivalence cannot be repeated")
+            return type(formula)(*operands)
         if isinstance(formula, (ForAll, Exists)):
             if formula.variable == x:
                 return formula
-            return type(formula)(formula.variable, [self._replace(o, x, a) for o in formula.operands])
+            body = self._replace(formula.formula, x, a)
+            if body != formula.formula and self._find_term(formula.variable, a):
+                raise PylogicsError(f"variable '{formula.variable}' would be captured")
+            return type(formula)(formula.variable, body)
         if isinstance(formula, (Predicate, Function)):
             return type(formula)(formula.name, [self._replace(o, x, a) for o in formula.operands])
         return formula
@@ -276,9 +284,9 @@ class NaturalDeduction(AbstractDeductionSystem):
             return False
         x, phi = args[0].variable, args[0].formula
         a = [n for m, n in self._find_diff(phi, formula) if m == x]
-        if len(a) != 1:
+        if len(a) > 1:
             return False
-        a = a[0]
+        a = a[0] if a else x
         phi_x_a = self._replace(phi, x, a)
         return str(phi_x_a) == str(formula)
 
-- 
2.43.0


From 3eaa154e6b4db4dd74b822b86ad52d917255c286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 20/23] fix: check that the term of a quantifier box is
 arbitrary

---
 pylogics_modalities/deduction/fol/nd.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pylogics_modalities/deduction/fol/nd.py b/pylogics_modalities/deduction/fol/nd.py
index a6ab4de..90b27d5 100644
--- a/pylogics_modalities/deduction/fol/nd.py
+++ b/pylogics_modalities/deduction/fol/nd.py
@@ -273,9 +273,13 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(formula, ForAll):
             return False
         a, phi_x_a = args[0][0][1], args[0][-1][1]
-        if not isinstance(a, Term):
+        if not isinstance(a, (Variable, Constant)) or not isinstance(phi_x_a, Formula):
             return False
+        if any(isinstance(line[1], Formula) and line[2][0] == self.rule.assumption for line in args[0]):
+            return False  # the term is not arbitrary
         x, phi = formula.variable, formula.formula
+        if a != x and self._find_term(a, phi):
+            return False
         return str(self._replace(phi, x, a)) == str(phi_x_a)
 
     def _check_justification_forall_e(self, formula, *args):
@@ -308,6 +312,10 @@ class NaturalDeduction(AbstractDeductionSystem):
         if not isinstance(phi, Exists):
             return False
         a, phi_x_a = args[1][0][1], args[1][1][1]
+        if not isinstance(a, (Variable, Constant)) or not isinstance(phi_x_a, Formula):
+            return False
+        if a != phi.variable and self._find_term(a, phi.formula):
+            return False
         if not str(phi_x_a) == str(self._replace(phi.formula, phi.variable, a)):
             return False
         chi = args[1][-1][1]
-- 
2.43.0


From 25bb71f4f0c762885e281f45a25ffdb8544b6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:14 +0000
Subject: [PATCH 21/23] fix: treat LDL keywords as reserved in any position of
 a propositional expression

---
 pylogics_modalities/parsers/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pylogics_modalities/parsers/base.py b/pylogics_modalities/parsers/base.py
index ce62fb6..5f54f33 100644
--- a/pylogics_modalities/parsers/base.py
+++ b/pylogics_modalities/parsers/base.py
@@ -59,6 +59,7 @@ class AbstractParser(ABC):
         return Lark(
             self._full_lark_path.read_text(),
             parser="lalr",
+            lexer="basic",  # keywords are reserved in any context
             import_paths=[str(CURRENT_DIR)],
         )
 
-- 
2.43.0


From 6b21ac9f887d7ced93dac6b06fc941d0a78d7d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 22/23] fix: refuse operands of modalities and quantifiers that
 are not formulas

---
 pylogics_modalities/syntax/fol.py | 1 +
 pylogics_modalities/syntax/ldl.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/pylogics_modalities/syntax/fol.py b/pylogics_modalities/syntax/fol.py
index 1ed5407..e865107 100644
--- a/pylogics_modalities/syntax/fol.py
+++ b/pylogics_modalities/syntax/fol.py
@@ -115,6 +115,7 @@ class _Quantifier(_BinaryOp):
         :param formula:
         """
         enforce(isinstance(variable, Variable), f"{type(self).__name__}: expected {Variable}, got {type(variable)}")
+        enforce(isinstance(formula, Formula), "argument is not an instance of 'Formula'", ValueError)
         enforce(formula.logic == Logic.FOL, "tail formula not valid")
         self._variable = variable
         self._formula = formula
diff --git a/pylogics_modalities/syntax/ldl.py b/pylogics_modalities/syntax/ldl.py
index 6596c63..5ae0a30 100644
--- a/pylogics_modalities/syntax/ldl.py
+++ b/pylogics_modalities/syntax/ldl.py
@@ -121,6 +121,11 @@ class _TemporalFormula(_LDL, ABC):
         :param regular_expression:
         :param tail_formula:
         """
+        enforce(
+            isinstance(regular_expression, Formula) and isinstance(tail_formula, Formula),
+            "some argument is not an instance of 'Formula'",
+            exception_cls=ValueError,
+        )
         enforce(regular_expression.logic == Logic.RE, "regular expression not valid")
         enforce(tail_formula.logic == Logic.LDL, "tail formula not valid")
         self._regular_expression = regular_expression
-- 
2.43.0


From f1df680919bf9b1323b1a3b416f9c65c2906381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 23/23] fix: let formulas built before the first cache reset be
 reclaimed

---
 pylogics_modalities/syntax/base.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pylogics_modalities/syntax/base.py b/pylogics_modalities/syntax/base.py
index 6ff692b..dac3d23 100644
--- a/pylogics_modalities/syntax/base.py
+++ b/pylogics_modalities/syntax/base.py
@@ -54,12 +54,6 @@ class _HashConsing(Hashable):
 
     _context: Dict[Logic, Dict["Formula", None]] = {}
 
-    def __new__(mcs, *args, **kwargs):
-        """Instantiate a new class."""
-        instance = super().__new__(mcs, *args, **kwargs)
-        instance.__context = mcs._context
-        return instance
-
     def __call__(cls, *args, **kwargs):
         """Init the subclass object."""
         enforce(
-- 
2.43.0

