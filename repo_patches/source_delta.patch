From b1dfe095acf829b847d42fa0b9e54485853955fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 01/56] fix: match shapes with an ellipsis or wildcard by
 trying every alignment

'Array[..., 1]' did not match '(1, 2, 1)', 'Array[..., -1]' did not match
'(1, 2)', and a symbolic size beside '...' or '-1' raised AssertionError.
---
 asta/utils.py | 159 +++++++++++++++++---------------------------------
 1 file changed, 52 insertions(+), 107 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 9c74f65..d3efc5c 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -3,7 +3,7 @@
 """ Typechecking utilities. """
 import random
 import functools
-from typing import Any, Set, Dict, List, Tuple, Union, Optional
+from typing import Any, Set, Dict, List, Tuple, Union, Iterator, Optional
 
 from sympy import solvers, simplify
 from sympy.core.expr import Expr
@@ -64,92 +64,18 @@ def shapecheck(
         if is_subtuple((Ellipsis, Ellipsis), cls_shape, equations)[0]:
             raise TypeError("Invalid shape: repeated '...'")
 
-        # Determine if/where '...' bookends ``cls_shape``.
-        left_bookend = False
-        right_bookend = False
-        ellipsis_positions: List[int] = []
-        for i, elem in enumerate(cls_shape):
-            if elem == Ellipsis:
-                ellipsis_positions.append(i)
-
-                # e.g. ``Array[..., 1, 2, 3]``.
-                if i == 0:
-                    left_bookend = True
-
-                # e.g. ``Array[1, 2, 3, ...]``.
-                if i == len(cls_shape) - 1:
-                    right_bookend = True
-
-        # Analogous to ``str.split(<elem>)``, we split the shape on '...'.
-        frags: List[Tuple[int, ...]] = split(cls_shape, Ellipsis)
-
-        # Index in ``cls_shape`` as we construct ``shape_pieces``.
-        cls_idx = 0
-
-        # ``ishape`` is the remaining portion of the instance shape.
-        ishape = inst_shape
-        for i, frag in enumerate(frags):
-
-            # Look for ``frag`` in ``ishape``, and find starting index.
-            is_sub, index, equations = is_subtuple(frag, ishape, equations)
-
-            # Must have ``frag`` contained in ``ishape``.
-            if not is_sub:
-                match = False
-                break
-
-            # First fragment must start at 0 if '...' is not the first
-            # element of ``cls_shape``.
-            if i == 0 and not left_bookend and index != 0:
-                match = False
-                break
-
-            # Last fragement must end at (exclusive) ``len(ishape)`` if
-            # '...' is not the last element of ``cls_shape``.
-            if (
-                i == len(frags) - 1
-                and not right_bookend
-                and index + len(frag) != len(ishape)
-            ):
-                match = False
-                break
-
-            # The subseq of ``ishape`` being substituted for ``...``.
-            substituted = ishape[:index]
-
-            # Can't match zero-size dims with ``...``.
-            if 0 in substituted:
-                match = False
+        # Keep the first way of cutting up ``inst_shape`` which is solvable.
+        match = False
+        for shape_pieces, piece_equations in align(cls_shape, inst_shape):
+            match, _, _ = astasolver(piece_equations)
+            if match:
+                equations = piece_equations
                 break
 
-            cls_elem = cls_shape[cls_idx]
-            if cls_elem == Ellipsis:
-                shape_pieces.append(substituted)
-                cls_idx += 1
-
-            ifrag = ishape[index : index + len(frag)]
-            for elem in ifrag:
-                shape_pieces.append((elem,))
-                cls_idx += 1
-
-            new_start = index + len(frag)
-            ishape = ishape[new_start:]
-
-        # If ``cls_shape`` ends with ``...``, ensure substituted tuple has no 0s.
-        if right_bookend and 0 in ishape:
-            match = False
-
-        if right_bookend:
-            substituted = ishape
-            cls_elem = cls_shape[cls_idx]
-            if cls_elem == Ellipsis:
-                shape_pieces.append(substituted)
-                cls_idx += 1
-
         if match:
             reconstructed = functools.reduce(lambda a, b: a + b, shape_pieces)
             assert reconstructed == inst_shape
-            assert len(shape_pieces) == len(cls_shape) == cls_idx
+            assert len(shape_pieces) == len(cls_shape)
 
     # Solve our system of equations if it is nonempty.
     if match:
@@ -221,31 +147,50 @@ def is_subtuple(
     return False, -1, equations
 
 
-def split(
-    shape: Tuple[Union[int, EllipsisType], ...],  # type: ignore[valid-type]
-    elem: Union[int, EllipsisType],  # type: ignore[valid-type]
-) -> List[Tuple[int, ...]]:
-    """ Split on an element. """
-    shape_list = list(shape)
-    tokens: List[str] = []
-    for num in shape_list:
-        if num == elem:
-            tokens.append("@")
-        else:
-            assert isinstance(num, int)
-            tokens.append(str(num))
-    seq: str = ",".join(tokens)
-    comma_fragments: List[str] = seq.split("@")
-
-    result: List[Tuple[int, ...]] = []
-    for frag in comma_fragments:
-        if frag:
-            frag_tokens = [token for token in frag.split(",") if token]
-            frag_nums = [int(token) for token in frag_tokens]
-            frag_tuple = tuple(frag_nums)
-            result.append(frag_tuple)
-
-    return result
+def align(
+    cls_shape: Tuple[Union[int, EllipsisType], ...],  # type: ignore[valid-type]
+    inst_shape: Tuple[int, ...],
+) -> Iterator[Tuple[List[Tuple[int, ...]], Set[Expr]]]:
+    """
+    Yields each way of cutting ``inst_shape`` into contiguous portions which
+    correspond to the elements of ``cls_shape``, along with its equations. An
+    ellipsis takes any number of nonzero sizes, and the fewest are tried first.
+    """
+    # Pairs of positions from which the rest of the shapes cannot be aligned.
+    dead_ends: Set[Tuple[int, int]] = set()
+
+    def extend(
+        cls_idx: int, inst_idx: int
+    ) -> Iterator[Tuple[List[Tuple[int, ...]], Set[Expr]]]:
+        """ Align everything from the given positions onwards. """
+        if cls_idx == len(cls_shape) and inst_idx == len(inst_shape):
+            yield [], set()
+        if cls_idx == len(cls_shape) or (cls_idx, inst_idx) in dead_ends:
+            return
+
+        dead_end = True
+        elem = cls_shape[cls_idx]
+        max_end = len(inst_shape) if elem == Ellipsis else inst_idx + 1
+        min_end = inst_idx if elem == Ellipsis else inst_idx + 1
+        for end in range(min_end, max_end + 1):
+            piece = inst_shape[inst_idx:end]
+            equations: Set[Expr] = set()
+            if elem == Ellipsis:
+
+                # Can't match zero-size dims with ``...``.
+                if 0 in piece:
+                    break
+            elif not check_equal((elem,), piece, equations)[0]:
+                break
+
+            for pieces, rest in extend(cls_idx + 1, end):
+                dead_end = False
+                yield [piece] + pieces, equations.union(rest)
+
+        if dead_end:
+            dead_ends.add((cls_idx, inst_idx))
+
+    return extend(0, 0)
 
 
 def check_equal(
-- 
2.43.0


From 2699c11bc52d7945a9bc5b99a86fc28318e9d23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 02/56] fix: accept attribute dictionaries in subscripts

Hashing the subscript to compare it with 'Scalar' raised TypeError for
'Array[{"ndim": 2}]', since dictionaries are not hashable.
---
 asta/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index f2b65d4..799491f 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -43,7 +43,7 @@ def parse_subscript(
     shape: Optional[Tuple] = cls.shape
     kwattrs: Optional[Dict[str, Any]] = cls.kwattrs
 
-    isscalar = hash(item) == hash(Scalar)
+    isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
         shape = None
@@ -68,7 +68,7 @@ def parse_subscript(
     elif item:
 
         # Case where generic type is specified.
-        isscalar = hash(item[0]) == hash(Scalar)
+        isscalar = item[0] is Scalar
         if isinstance(item[0], (type, dtype_metaclass)) and not isscalar:
             dtype, kind = cls.get_dtype(item[0])
             item = item[1:]
-- 
2.43.0


From 6b14ae175b9cf4753384a4aeab1ad9dfe97dce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 03/56] fix: keep the kind and attributes of annotations in
 typechecked calls

'@typechecked' rejected any string array for 'Array[str]', and ignored
attribute constraints, though 'isinstance()' honours both.
---
 asta/origins.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 6e55b89..9df909e 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -119,6 +119,12 @@ def refresh(
     else:
         refreshed_annotation = annotation
 
+    # The kind (e.g. of ``Array[str]``) and attributes are not in the subscript.
+    if refreshed_annotation is not annotation:
+        if hasattr(annotation, "kind"):
+            refreshed_annotation.kind = annotation.kind
+        refreshed_annotation.kwattrs = annotation.kwattrs
+
     return refreshed_annotation, initialized
 
 
@@ -159,8 +165,10 @@ def check_asta(
 
             # Grab equations from shapecheck call.
             shape_match, shape_equations = shapecheck(value_shape, annotation.shape)
-            attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
-            assert shape_match and attr_match
+            assert shape_match
+
+        attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
+        assert attr_match
 
         equations = equations.union(shape_equations, attr_equations)
 
-- 
2.43.0


From 8e2e20b1f6107e477f02c4a36191e96cabb593e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 04/56] fix: support adding a shape placeholder to a tuple

The README's '(BATCH_SIZE,) + OBS_SHAPE' raised TypeError.
---
 asta/placeholder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asta/placeholder.py b/asta/placeholder.py
index fdbed3e..6c66fa0 100644
--- a/asta/placeholder.py
+++ b/asta/placeholder.py
@@ -33,6 +33,12 @@ class Placeholder:
         """ Instances are empty iterators. """
         raise StopIteration
 
+    def __radd__(self, summand: Any) -> Any:
+        """ Return the concatenation when the left operand is a tuple. """
+        result = self + summand
+        result.contents = [summand] + (self.contents if self.contents else [self])
+        return result
+
     def __add__(self, summand: Any) -> Any:
         """ Return the concatenation. """
         left_contents = self.contents if self.contents else [self]
-- 
2.43.0


From 98f6683f239e88cae40605774c853b3693e48ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 05/56] fix: keep the shape when an alias is subscripted with a
 dtype or attributes

'Array[1, 2][float]' dropped the shape, while 'Array[float][1, 2]' and
'Array[1, 2][float, {...}]' combine the subscripts, as aliases should.
---
 asta/parser.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index 799491f..7c6da9c 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -46,12 +46,10 @@ def parse_subscript(
     isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
-        shape = None
 
     # Adding support for kwargs.
     elif isinstance(item, dict):
         kwattrs = item
-        shape = None
 
     # Case where dtype is Any and shape is scalar.
     elif item in (Scalar, ()):
-- 
2.43.0


From 2d0ba614f93f511637826b69ab02cd8c4821b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:11 +0000
Subject: [PATCH 06/56] fix: make annotation equality and hashes consistent

'Array == Array[float]' was True since numpy equates the float64 dtype with
None, attributes and kinds were ignored, and a cached hash was inherited by
every later subscript. So e.g. 'Optional[Array[float]]' could evaluate to a
cached 'Optional[Array]', which silently weakens the check.
---
 asta/_array.py    | 4 ++++
 asta/_tensor.py   | 4 ++++
 asta/_tftensor.py | 5 ++++-
 asta/classes.py   | 5 +++--
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 06e0c3e..68d5bdf 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -45,6 +45,10 @@ class _ArrayMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if (cls.dtype is None) != (other.dtype is None):
+            return False
+        if cls.kind != other.kind or cls.kwattrs != other.kwattrs:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/_tensor.py b/asta/_tensor.py
index dffe415..64c5be8 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -38,6 +38,10 @@ class _TensorMeta(SubscriptableMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if (cls.dtype is None) != (other.dtype is None):
+            return False
+        if cls.kwattrs != other.kwattrs:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 3eda61a..5830801 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -32,13 +32,16 @@ class _TFTensorMeta(SubscriptableMeta):
         """ Defer to the metaclass which calls ``cls._after_subscription()``. """
         return SubscriptableMeta.__getitem__(cls, item)
 
-    # TODO: Include kwattrs for each of these classes.
     def __eq__(cls, other: Any) -> bool:
         """ If the dtypes and shapes match, they should be equal. """
         if not isinstance(other, _TFTensorMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if (cls.dtype is None) != (other.dtype is None):
+            return False
+        if cls.kwattrs != other.kwattrs:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/classes.py b/asta/classes.py
index 490e98c..d88d7e2 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -81,6 +81,7 @@ class SubscriptableMeta(GenericMeta):
             **cls.__dict__,
             "__args__": item,
             "__origin__": cls,
+            "_hash": 0,
         }
         bases = cls, *cls.__bases__
         result: GenericMeta = type(cls.__name__, bases, body)  # type: ignore
@@ -108,8 +109,8 @@ class SubscriptableMeta(GenericMeta):
         assert hasattr(cls, "shape")
         assert hasattr(cls, "dtype")
         assert hasattr(cls, "kwattrs")
-        if not getattr(cls, "_hash", None):
-            cls._hash = hash(f"{cls.shape}{cls.dtype}{cls.kwattrs}")
+        if not cls.__dict__.get("_hash", None):
+            cls._hash = hash(f"{cls.shape}{cls.dtype}")
         return cls._hash
 
     def __repr__(cls) -> str:
-- 
2.43.0


From 608821d5add2a5bd761a8ae9c3c8997e0905e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:11 +0000
Subject: [PATCH 07/56] fix: handle annotations like Callable[], Type[],
 Literal[] and Iterable[]

A call of a function with such an annotation raised KeyError, or a TypeError
about the arity of the checker function if check-non-asta-types was set.
---
 asta/origins.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 9df909e..9adaaa0 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -553,12 +553,13 @@ def check_annotation(
         equations = check_asta(name, value, annotation, equations, ox)
 
     elif origin is not None:
-        checker_function_map = ORIGIN_TYPE_CHECKERS
-        if ox.check_non_asta_types:
-            checker_function_map.update(NON_ASTA_CHECKERS)  # type: ignore
-        checker_fn: Callable = checker_function_map[origin]
+        checker_fn = ORIGIN_TYPE_CHECKERS.get(origin)
+        non_asta_checker_fn = NON_ASTA_CHECKERS.get(origin)
         if checker_fn:
             equations = checker_fn(name, value, annotation, equations, ox)
+        elif non_asta_checker_fn:
+            if ox.check_non_asta_types:
+                non_asta_checker_fn(name, value, annotation, ox)
         else:
             equations = check_annotation(name, value, origin, equations, ox)
     elif inspect.isclass(annotation):
-- 
2.43.0


From d1064f558f54897b18daa695904a70e94ba1c59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 08/56] fix: check unsubscripted generics on Python 3.9 and
 later

'List', 'Dict', 'Set', 'Sequence' and 'Callable' have no '__args__' there, so
a call of a function annotated with one raised AttributeError.
---
 asta/origins.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 9adaaa0..4c7ebad 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -175,6 +175,12 @@ def check_asta(
     return equations
 
 
+def has_arguments(annotation: Any) -> bool:
+    """ Whether a generic is subscripted. On Python 3.9+, ``List`` has no arguments. """
+    args = getattr(annotation, "__args__", None)
+    return args is not None and args != getattr(annotation, "__parameters__", None)
+
+
 def check_typed_dict(
     name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
 ) -> Set[Expr]:
@@ -213,7 +219,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
 
-    if annotation.__args__:
+    if getattr(annotation, "__args__", None):
         try:
             signature = inspect.signature(value)
         except (TypeError, ValueError):
@@ -333,7 +339,7 @@ def check_list(
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if has_arguments(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
 
@@ -357,7 +363,7 @@ def check_sequence(
         fail_sequence(name, annotation, qualified_name(value), ox)
 
     # Consider removing this test or even just figuring out what it does?
-    if annotation.__args__ not in (None, annotation.__parameters__):
+    if has_arguments(annotation):
         value_type = annotation.__args__[0]
         if value_type is not Any:
 
@@ -382,7 +388,7 @@ def check_dict(
 
     # Equivalently: if annotation is ``Dict[*]``.
     elif annotation is not dict:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if has_arguments(annotation):
             key_type, value_type = annotation.__args__
             if key_type is not Any or value_type is not Any:
                 for k, v in value.items():
@@ -407,7 +413,7 @@ def check_set(
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if has_arguments(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
                 for v in value:
-- 
2.43.0


From b88fd44d6791d8aac0ffa38f5968aacf893ae2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 09/56] fix: accept any value for Any on Python 3.11 and later

'Any' is a class there, so with check-non-asta-types set it was passed to
isinstance(), which raised TypeError.
---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 4c7ebad..8bbc715 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -568,7 +568,7 @@ def check_annotation(
                 non_asta_checker_fn(name, value, annotation, ox)
         else:
             equations = check_annotation(name, value, origin, equations, ox)
-    elif inspect.isclass(annotation):
+    elif inspect.isclass(annotation) and annotation is not Any:
 
         subclass_callable: bool = issubclass(annotation, Callable)  # type: ignore
         has_args: bool = hasattr(annotation, "__args__")
-- 
2.43.0


From c9a2b5f10af79d48a937a366d8054289c425a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 10/56] fix: check the fields of NamedTuple annotations on
 Python 3.9 and later

'_field_types' was removed, so any tuple at all was accepted.
---
 asta/origins.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 8bbc715..2c1cf6d 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -278,14 +278,17 @@ def check_tuple(
     """ Check an argument with annotation ``tuple`` or ``Tuple[]``. """
 
     # Specialized check for NamedTuples.
-    if hasattr(annotation, "_field_types"):
+    if hasattr(annotation, "_fields"):
 
         if not isinstance(value, annotation):
             fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)
             return equations
 
-        # pylint: disable=protected-access
-        for subname, field_type in annotation._field_types.items():
+        # Python 3.9+ has no ``_field_types``.
+        field_types = getattr(annotation, "_field_types", None)
+        if field_types is None:
+            field_types = getattr(annotation, "__annotations__", {})
+        for subname, field_type in field_types.items():
             equations = check_annotation(
                 f"{name}.{subname}", getattr(value, subname), field_type, equations, ox
             )
-- 
2.43.0


From 8d27d859b052856781e97c2fc18134ebb108be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 11/56] fix: tell Tuple[()] and dict subclasses from Tuple and
 TypedDict

On Python 3.11+ 'Tuple[()]' accepted any tuple, and on 3.10+ an annotation
with a dict subclass like 'Counter' rejected any nonempty value.
---
 asta/origins.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 2c1cf6d..86a038a 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -296,6 +296,11 @@ def check_tuple(
     elif not isinstance(value, tuple):
         fail_tuple(name, qualified_name(value), ox)
 
+    elif getattr(annotation, "__args__", None) == ():
+        # ``Tuple[()]`` on Python 3.11+.
+        if value != ():
+            fail_empty_tuple(name, qualified_name(value), ox)
+
     elif not getattr(annotation, "__args__", None):
         # Unparametrized Tuple or plain tuple.
         pass
@@ -578,7 +583,7 @@ def check_annotation(
 
         if issubclass(annotation, Tuple):  # type: ignore[arg-type]
             equations = check_tuple(name, value, annotation, equations, ox)
-        elif issubclass(annotation, dict) and hasattr(annotation, "__annotations__"):
+        elif issubclass(annotation, dict) and hasattr(annotation, "__total__"):
             equations = check_typed_dict(name, value, annotation, equations, ox)
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
-- 
2.43.0


From 29494c9abd5dbf707dee70f988a18cc11e15be35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 12/56] fix: check annotations with subclasses of float and
 complex

With check-non-asta-types set, 'np.float64' accepted any value.
---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 86a038a..2fd0adf 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -588,7 +588,7 @@ def check_annotation(
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
         elif ox.check_non_asta_types:
-            if issubclass(annotation, (float, complex)):
+            if annotation in (float, complex):
                 check_number(name, value, annotation, ox)
             elif subclass_callable and has_args:
                 # Needed on Python 3.5.0 to 3.5.2
-- 
2.43.0


From 3529cca00971ae038c5ba54e61beb30c8dc3816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 13/56] fix: do not let ASTA_TYPECHECK overwrite the configured
 setting

Once it had been seen with a value other than '1', checking stayed off for the
rest of the process, even after it was set to '1' or removed.
---
 asta/decorators.py | 5 +++--
 asta/warning.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 21b9e55..af8102a 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -83,9 +83,10 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         The decorated version of ``decorated``.
     """
     ox: Oxentiel = get_ox()
+    enabled = ox.on
     if "ASTA_TYPECHECK" in os.environ:
-        ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-    if not ox.on:
+        enabled = enabled and os.environ["ASTA_TYPECHECK"] == "1"
+    if not enabled:
         return decorated
 
     # Treat classes.
diff --git a/asta/warning.py b/asta/warning.py
index c04496e..bab719d 100644
--- a/asta/warning.py
+++ b/asta/warning.py
@@ -11,9 +11,10 @@ from asta.constants import Color
 # pylint: disable=invalid-name
 
 ox: Oxentiel = get_ox()
+enabled: bool = ox.on
 if "ASTA_TYPECHECK" in os.environ:
-    ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-if ox.on and not ox.print_passes:
+    enabled = enabled and os.environ["ASTA_TYPECHECK"] == "1"
+if enabled and not ox.print_passes:
     BORDER = "#" * 100
     BORDER = f"{Color.BOLD}{BORDER}{Color.END}"
     INNER = "-" * 100
-- 
2.43.0


From d38508365c5b0a96c5d24bd596eee6bdef899a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:36 +0000
Subject: [PATCH 14/56] fix: read settings from pyproject.toml and setup.cfg as
 documented

---
 asta/config.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/asta/config.py b/asta/config.py
index 2957082..21fad43 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -25,7 +25,7 @@ def _toml_has_config(path: str) -> bool:
 
 
 def _cfg_has_config(path: str) -> bool:
-    parser = configparser.ConfigParser()
+    parser = configparser.ConfigParser(interpolation=None)
     parser.read(path)
     return any(section.startswith("asta.") for section in parser.sections())
 
@@ -70,17 +70,14 @@ def find_default_config_files() -> Generator[str, None, None]:
 
 
 def find_astarc() -> Optional[str]:
-    """ Look for an ``astarc`` file. Return it if found, else return ``None``. """
-    for config_file in find_default_config_files():
-        if config_file.endswith("astarc"):
-            return config_file
-    return None
+    """ Look for a config file. Return the first one found, else return ``None``. """
+    return next(find_default_config_files(), None)
 
 
 # pylint: disable=protected-access
 def read_config(config_path: str) -> configparser.ConfigParser:
     """ Parse a config file from ``config_path``, given a file exists there. """
-    parser = configparser.ConfigParser()
+    parser = configparser.ConfigParser(interpolation=None)
     if config_path.endswith(".toml"):
         with open(config_path, "r") as toml_file:
             content = toml.load(toml_file)
@@ -91,7 +88,8 @@ def read_config(config_path: str) -> configparser.ConfigParser:
             pass
         else:
             for section, values in sections_values.items():
-                parser._sections[section.upper()] = values  # type: ignore[attr-defined]
+                if isinstance(values, dict):
+                    parser._sections[section.upper()] = values  # type: ignore
     else:
         # Use this encoding in order to strip the BOM marker, if any.
         with io.open(config_path, "r", encoding="utf_8_sig") as config_file:
@@ -101,7 +99,7 @@ def read_config(config_path: str) -> configparser.ConfigParser:
         for sect, values in list(parser._sections.items()):  # type: ignore
             if sect.startswith("asta."):
                 sect = sect[len("asta.") :]
-            if not sect.isupper() and values:
+            if sect.upper() not in parser._sections and values:  # type: ignore
                 parser._sections[sect.upper()] = values  # type: ignore[attr-defined]
     return parser
 
-- 
2.43.0


From 06faf356c63ef0cb084282f636520201db054ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:36 +0000
Subject: [PATCH 15/56] fix: do not inspect the elements of a value which
 already failed

---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 2fd0adf..34991f9 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -344,6 +344,7 @@ def check_list(
     """ Check an argument with annotation ``list`` or ``List[]``. """
     if not isinstance(value, list):
         fail_list(name, annotation, qualified_name(value), ox)
+        return equations
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
@@ -369,6 +370,7 @@ def check_sequence(
     """ Check an argument with annotation ``Sequence[*]``. """
     if not isinstance(value, collections.abc.Sequence):
         fail_sequence(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Consider removing this test or even just figuring out what it does?
     if has_arguments(annotation):
@@ -418,6 +420,7 @@ def check_set(
     """ Check an argument with annotation ``Set[*]``. """
     if not isinstance(value, AbstractSet):
         fail_set(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
@@ -460,6 +463,7 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Check an arbitrary class. """
     if not inspect.isclass(value):
         fail_class(name, annotation, qualified_name(value), ox)
+        return
 
     # Needed on Python 3.7+
     if annotation is Type:
-- 
2.43.0


From 293907c2de4c946d18a00557d60a9831bd1110a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 16/56] fix: try every member of a Union when errors are only
 printed

---
 asta/origins.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 34991f9..6da4ce8 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -447,12 +447,18 @@ def check_union(
         # Python 3.6+
         union_params = annotation.__args__
 
-    for type_ in union_params:
-        try:
-            equations = check_annotation(name, value, type_, equations, ox)
-            return equations
-        except TypeError as _err:
-            pass
+    # A mismatch with one of the members is not an error, so don't print it.
+    raise_errors = ox.raise_errors
+    ox.raise_errors = True
+    try:
+        for type_ in union_params:
+            try:
+                equations = check_annotation(name, value, type_, equations, ox)
+                return equations
+            except TypeError as _err:
+                pass
+    finally:
+        ox.raise_errors = raise_errors
 
     typelist = ", ".join(get_type_name(t) for t in union_params)
     fail_union(name, typelist, qualified_name(value), ox)
-- 
2.43.0


From a55781cc2a822d0d80222f82dc74ec6f4d0e1a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 17/56] fix: accept a dtype followed by a TensorShape in
 TFTensor subscripts

---
 asta/_tftensor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 5830801..dc5bacd 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -125,6 +125,11 @@ class _TFTensor(metaclass=_TFTensorMeta):
         """ Set class attributes based on the passed dtype/dim data. """
         if isinstance(item, tf.TensorShape):
             item = tuple(item)
+        elif isinstance(item, tuple):
+            item = tuple(
+                tuple(elem) if isinstance(elem, tf.TensorShape) else elem
+                for elem in item
+            )
         dtype, shape, kwattrs, _ = parse_subscript(cls, item, tf.dtypes.DType)
         cls.dtype = dtype
         cls.shape = shape
-- 
2.43.0


From a0c91bfa5d69bc8abd63575daa320ae538743146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 18/56] fix: check annotations spelled X | Y like Union[X, Y]

---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 6da4ce8..462c587 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
+import types
 import inspect
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
@@ -572,6 +573,10 @@ def check_annotation(
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
+    # Python 3.10+ has ``X | Y``.
+    if isinstance(annotation, getattr(types, "UnionType", ())):
+        origin = Union
+
     # Treat asta types.
     if isinstance(annotation, SubscriptableMeta):
         equations = check_asta(name, value, annotation, equations, ox)
-- 
2.43.0


From b7853626d1c2331ee81ebb58bde54df8b001d563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 19/56] fix: do not print headers for the mismatched members of
 a Union

---
 asta/display.py | 3 ++-
 asta/origins.py | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/asta/display.py b/asta/display.py
index 4132772..862c857 100644
--- a/asta/display.py
+++ b/asta/display.py
@@ -290,7 +290,8 @@ def fail_fallback(name: str, annrep: str, rep: str, ox: Oxentiel) -> None:
 
 def handle_error(err: str, ox: Oxentiel) -> None:
     """ Either print or raise ``err``. """
-    if not ox.print_passes and hasattr(ox, "decorated"):
+    in_union: bool = getattr(ox, "in_union", False)
+    if not ox.print_passes and hasattr(ox, "decorated") and not in_union:
         header = get_header(ox.decorated)
         print(header)
     if ox.raise_errors:
diff --git a/asta/origins.py b/asta/origins.py
index 462c587..c4743a8 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -449,8 +449,9 @@ def check_union(
         union_params = annotation.__args__
 
     # A mismatch with one of the members is not an error, so don't print it.
-    raise_errors = ox.raise_errors
+    raise_errors, in_union = ox.raise_errors, getattr(ox, "in_union", False)
     ox.raise_errors = True
+    ox.in_union = True
     try:
         for type_ in union_params:
             try:
@@ -460,6 +461,7 @@ def check_union(
                 pass
     finally:
         ox.raise_errors = raise_errors
+        ox.in_union = in_union
 
     typelist = ", ".join(get_type_name(t) for t in union_params)
     fail_union(name, typelist, qualified_name(value), ox)
-- 
2.43.0


From b33f0aa1d569b1f7e296442d6dc131a4026276eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:13 +0000
Subject: [PATCH 20/56] fix: assign arguments to parameters the way Python does

---
 asta/decorators.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index af8102a..9e78c0f 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -31,24 +31,15 @@ def validate_annotations(  # type: ignore[no-untyped-def]
     sig = inspect.signature(decorated)
     paramlist = list(sig.parameters)
 
-    # Get a list of kwargs with defaults filled-in.
-    defaults: Dict[str, Any] = {}
-    for k, v in sig.parameters.items():
-        if v.default is not inspect.Parameter.empty:
-            defaults[k] = v.default
-
-    checkable_args: Dict[str, Any] = defaults.copy()
-    checkable_args.update(kwargs)
+    # Assign the arguments to the parameters, with defaults filled-in.
+    bound = sig.bind(*args, **kwargs)
+    bound.apply_defaults()
+    checkable_args: Dict[str, Any] = dict(bound.arguments)
 
     # Remove unannotated instance/class/metaclass reference.
-    pure_args = args
     refs = ("self", "cls", "mcs")
-
     if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
-        pure_args = pure_args[1:]  # type: ignore[assignment]
-    for i, arg in enumerate(pure_args):
-        name = list(annotations.keys())[i]
-        checkable_args[name] = arg
+        checkable_args.pop(paramlist[0])
 
     # Check for mismatch between lengths of arguments/annotations.
     if num_non_return_annots != len(checkable_args):
@@ -61,6 +52,13 @@ def validate_annotations(  # type: ignore[no-untyped-def]
 
         raise TypeError(num_annot_err)
 
+    # A hint for ``*args`` or ``**kwargs`` is for each of the values.
+    for name, param in sig.parameters.items():
+        if name in annotations and param.kind is inspect.Parameter.VAR_POSITIONAL:
+            annotations[name] = Tuple[annotations[name], ...]  # type: ignore[misc]
+        elif name in annotations and param.kind is inspect.Parameter.VAR_KEYWORD:
+            annotations[name] = Dict[str, annotations[name]]  # type: ignore[misc]
+
     return checkable_args
 
 
@@ -133,7 +131,7 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         handle_pass(header, ox)
 
         equations: Set[Expr] = set()
-        annotations: Dict[str, Any] = decorated.__annotations__
+        annotations: Dict[str, Any] = dict(decorated.__annotations__)
         checkable_args: Dict[str, Any] = validate_annotations(
             decorated,
             annotations,
-- 
2.43.0


From 90f691a763ce44906050ba62ee2f2e0f9a6d0e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:02 +0000
Subject: [PATCH 21/56] fix: match datetime64 and timedelta64 arrays of any
 unit for datetime and timedelta

---
 asta/_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asta/_array.py b/asta/_array.py
index 68d5bdf..ad3a5b3 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -115,8 +115,10 @@ class _Array(metaclass=_ArrayMeta):
                 kind = NP_UNSIZED_TYPE_KINDS[item]
             elif item == datetime.datetime:
                 generic_type = np.datetime64
+                kind = "M"
             elif item == datetime.timedelta:
                 generic_type = np.timedelta64
+                kind = "m"
             else:
                 generic_type = item
             dtype = np.dtype(generic_type)
-- 
2.43.0


From ecc0b5593a119163426e578edb517083e1c0d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 22/56] fix: do not wrap a method twice when its class is
 decorated too

---
 asta/decorators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/decorators.py b/asta/decorators.py
index 9e78c0f..6fd5a04 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -87,6 +87,10 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
     if not enabled:
         return decorated
 
+    # Don't decorate anything twice, e.g. a method and then its class.
+    if getattr(decorated, "asta_typechecked", False):
+        return decorated
+
     # Treat classes.
     if inspect.isclass(decorated):
 
@@ -169,5 +173,6 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
 
     _wrapper.__module__ = decorated.__module__
     _wrapper.__name__ = decorated.__name__
+    _wrapper.asta_typechecked = True  # type: ignore[attr-defined]
 
     return _wrapper
-- 
2.43.0


From 6437d4e65e7477ff6e61e2797b8339851d852423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 23/56] fix: try the members of a Union without changing the
 shared settings

---
 asta/display.py |  3 +--
 asta/origins.py | 23 ++++++++++-------------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/asta/display.py b/asta/display.py
index 862c857..4132772 100644
--- a/asta/display.py
+++ b/asta/display.py
@@ -290,8 +290,7 @@ def fail_fallback(name: str, annrep: str, rep: str, ox: Oxentiel) -> None:
 
 def handle_error(err: str, ox: Oxentiel) -> None:
     """ Either print or raise ``err``. """
-    in_union: bool = getattr(ox, "in_union", False)
-    if not ox.print_passes and hasattr(ox, "decorated") and not in_union:
+    if not ox.print_passes and hasattr(ox, "decorated"):
         header = get_header(ox.decorated)
         print(header)
     if ox.raise_errors:
diff --git a/asta/origins.py b/asta/origins.py
index c4743a8..4c49142 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -449,19 +449,16 @@ def check_union(
         union_params = annotation.__args__
 
     # A mismatch with one of the members is not an error, so don't print it.
-    raise_errors, in_union = ox.raise_errors, getattr(ox, "in_union", False)
-    ox.raise_errors = True
-    ox.in_union = True
-    try:
-        for type_ in union_params:
-            try:
-                equations = check_annotation(name, value, type_, equations, ox)
-                return equations
-            except TypeError as _err:
-                pass
-    finally:
-        ox.raise_errors = raise_errors
-        ox.in_union = in_union
+    settings = {k: v for k, v in ox.settings.items() if k != "decorated"}
+    settings["raise_errors"] = True
+    member_ox = Oxentiel(settings, mutable=True)
+
+    for type_ in union_params:
+        try:
+            equations = check_annotation(name, value, type_, equations, member_ox)
+            return equations
+        except TypeError as _err:
+            pass
 
     typelist = ", ".join(get_type_name(t) for t in union_params)
     fail_union(name, typelist, qualified_name(value), ox)
-- 
2.43.0


From 94047519c883beb3c92f6faabbc1368e2e0530d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:29 +0000
Subject: [PATCH 24/56] fix: check the hint None when ordinary annotations are
 checked

---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 4c49142..d05f80d 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -590,6 +590,11 @@ def check_annotation(
                 non_asta_checker_fn(name, value, annotation, ox)
         else:
             equations = check_annotation(name, value, origin, equations, ox)
+
+    # The hint ``None`` stands for ``NoneType``.
+    elif annotation is None:
+        if ox.check_non_asta_types:
+            check_none(name, value, annotation, ox)
     elif inspect.isclass(annotation) and annotation is not Any:
 
         subclass_callable: bool = issubclass(annotation, Callable)  # type: ignore
-- 
2.43.0


From 353c7fc197908ec88f89c39d8d703c03f60b3209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 25/56] fix: take the first element of any Sequence, not only
 of those with slices

---
 asta/origins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index d05f80d..a5beedf 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -3,6 +3,7 @@
 """ Functions for checking type annotations and their origin types. """
 import types
 import inspect
+import itertools
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
 from typing import (
@@ -380,7 +381,7 @@ def check_sequence(
 
             value_iterable = value
             if not ox.check_all_sequence_elements:
-                value_iterable = value_iterable[:1]
+                value_iterable = itertools.islice(value_iterable, 1)
             for i, v in enumerate(value_iterable):
                 element_equations = check_annotation(
                     f"{name}[{i}]", v, value_type, equations, ox
-- 
2.43.0


From 1d3dd37fda57a3b1d27502528cc0a20fe2dc5db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 26/56] fix: do not go on with a check after reporting an unset
 dimension

---
 asta/substitution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asta/substitution.py b/asta/substitution.py
index 3bd8ea5..3bba1ad 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -55,6 +55,7 @@ def substitute(
                     if value is None:
 
                         # If so, we treat as before and raise an error.
+                        initialized = False
                         name = symbol.name
 
                         # Prevents us from printing the same error message twice.
-- 
2.43.0


From 992c31f113ef132bc6ef88b4afce568d9bae347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:49 +0000
Subject: [PATCH 27/56] fix: accept a byte order mark in setup.cfg

---
 asta/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/config.py b/asta/config.py
index 21fad43..cfd4363 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -26,7 +26,7 @@ def _toml_has_config(path: str) -> bool:
 
 def _cfg_has_config(path: str) -> bool:
     parser = configparser.ConfigParser(interpolation=None)
-    parser.read(path)
+    parser.read(path, encoding="utf_8_sig")
     return any(section.startswith("asta.") for section in parser.sections())
 
 
-- 
2.43.0


From 0b2f1f5ee7fb1f55222387aeb48c7ea3107345a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 28/56] fix: equal annotations have equal hashes when a shape
 is a torch.Size

---
 asta/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/parser.py b/asta/parser.py
index 7c6da9c..8766153 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -86,6 +86,10 @@ def parse_subscript(
         empty_err += "Use '{cls.NAME}[None]' to indicate a scalar."
         raise TypeError(empty_err)
 
+    # Equal shapes must look alike, whatever subclass of ``tuple`` was given.
+    if isinstance(shape, tuple):
+        shape = tuple(shape)
+
     if isinstance(shape, tuple) and is_subtuple((..., ...), shape, set())[0]:
         raise TypeError("Invalid shape: repeated '...'")
 
-- 
2.43.0


From 5660b8ba743521d82e2b7ea10f11b2d315ff25c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 29/56] fix: Array[object] equals Array[np.dtype(object)]

---
 asta/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/constants.py b/asta/constants.py
index 5381a6f..c6b5a1c 100644
--- a/asta/constants.py
+++ b/asta/constants.py
@@ -194,7 +194,7 @@ NUMPY_DIM_TYPES: List[type] = CORE_DIM_TYPES
 TORCH_DIM_TYPES: List[type] = CORE_DIM_TYPES + [torch.Size]
 TF_DIM_TYPES: List[type] = CORE_DIM_TYPES + [tf.TensorShape]
 ALL_DIM_TYPES: List[type] = CORE_DIM_TYPES + [torch.Size, tf.TensorShape]
-NP_UNSIZED_TYPE_KINDS: Dict[type, str] = {bytes: "S", str: "U", object: "O"}
+NP_UNSIZED_TYPE_KINDS: Dict[type, str] = {bytes: "S", str: "U"}
 TORCH_DTYPE_MAP: Dict[type, torch.dtype] = {
     int: torch.int32,
     float: torch.float32,
-- 
2.43.0


From 345f41af1ca77955f55c18a48fd1f8410835388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 30/56] fix: annotations with the same concatenation of shapes
 are equal

---
 asta/placeholder.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asta/placeholder.py b/asta/placeholder.py
index 6c66fa0..b847169 100644
--- a/asta/placeholder.py
+++ b/asta/placeholder.py
@@ -24,6 +24,16 @@ class Placeholder:
         name = f"{self.name}" if self.name is not None else ""
         return f"#{name}{content}"
 
+    def __eq__(self, other: Any) -> bool:
+        """ Placeholders for the same shape are equal, also when concatenated anew. """
+        if not isinstance(other, Placeholder):
+            return NotImplemented
+        return self.name == other.name and self.contents == other.contents
+
+    def __hash__(self) -> int:
+        """ Consistent with ``__eq__()``. """
+        return hash(repr(self))
+
     def __iter__(self) -> object:
         """ Make sure instances can be unpacked. """
         self.unpacked = True
-- 
2.43.0


From d79e4045c5d001825160fb81256b41d065fdf060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 31/56] fix: verify the dimensions in a shape which is given as
 a tuple

---
 asta/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/parser.py b/asta/parser.py
index 8766153..84efc27 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -29,6 +29,10 @@ def verify_dimensions(cls: SubscriptableMeta, item: Any) -> None:
             err += f"Valid dimension types: {cls.DIM_TYPES}"
             raise TypeError(err)
 
+        # Sizes which are given as a tuple.
+        elif isinstance(dim, tuple):
+            verify_dimensions(cls, dim)
+
 
 def parse_subscript(
     cls: SubscriptableMeta,
-- 
2.43.0


From b4a2ab2be7403a262602e37e079708f5f4576ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 32/56] fix: raise TypeError when an array is given as the only
 dimension

---
 asta/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/parser.py b/asta/parser.py
index 84efc27..79551a5 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -56,7 +56,7 @@ def parse_subscript(
         kwattrs = item
 
     # Case where dtype is Any and shape is scalar.
-    elif item in (Scalar, ()):
+    elif isscalar or (isinstance(item, tuple) and not item):
         shape = ()
 
     # Case where dtype is not passed in, and there's one input.
-- 
2.43.0


From cb9a6d8e654077d4382d5e19c4578932372ecee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:20 +0000
Subject: [PATCH 33/56] fix: a symbolic attribute does not match what is not a
 number

---
 asta/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/utils.py b/asta/utils.py
index d3efc5c..33f9f7e 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -3,6 +3,7 @@
 """ Typechecking utilities. """
 import random
 import functools
+from numbers import Number
 from typing import Any, Set, Dict, List, Tuple, Union, Iterator, Optional
 
 from sympy import solvers, simplify
@@ -100,6 +101,10 @@ def attrcheck(
             match = False
             break
         if isinstance(value, Expr):
+            # Only a number can be the value of an expression.
+            if not isinstance(attr, Number):
+                match = False
+                break
             equations.add(value - attr)
         elif attr != value:
             match = False
-- 
2.43.0


From 91721ccad08ee39e2fadda0674f2724fbe41bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:26 +0000
Subject: [PATCH 34/56] fix: compare attributes which are arrays as a whole

---
 asta/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asta/utils.py b/asta/utils.py
index 33f9f7e..9ce0ce3 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -6,6 +6,7 @@ import functools
 from numbers import Number
 from typing import Any, Set, Dict, List, Tuple, Union, Iterator, Optional
 
+import numpy as np
 from sympy import solvers, simplify
 from sympy.core.expr import Expr
 from sympy.core.symbol import Symbol
@@ -92,6 +93,7 @@ def attrcheck(
     match = True
     equations: Set[Expr] = set()
     kwattrs = {} if kwattrs is None else kwattrs
+    numpy_types = (np.ndarray, np.generic)
 
     assert isinstance(kwattrs, dict)
 
@@ -106,6 +108,11 @@ def attrcheck(
                 match = False
                 break
             equations.add(value - attr)
+        elif isinstance(attr, numpy_types) or isinstance(value, numpy_types):
+            # Comparing arrays, and numpy scalars with sequences, gives arrays.
+            if not np.array_equal(attr, value):
+                match = False
+                break
         elif attr != value:
             match = False
             break
-- 
2.43.0


From ff4e67e18a6f17b887a84ce146e3d81abb8c2927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 35/56] fix: raise ImportError when checking against a missing
 framework's class

---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index a5beedf..681d127 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -59,6 +59,7 @@ from asta.display import (
     fail_too_many_args,
     type_representation,
 )
+from asta.unusable import UnusableMeta
 from asta.constants import _TORCH_IMPORTED, _TENSORFLOW_IMPORTED, NoneType, tf, torch
 from asta.substitution import substitute
 
@@ -135,6 +136,10 @@ def check_asta(
 ) -> Set[Expr]:
     """ Check asta subscriptable class types. """
 
+    # Raises an ImportError which names the missing framework.
+    if isinstance(annotation, UnusableMeta):
+        annotation._import()
+
     annotation, initialized = refresh(annotation, ox)
 
     # If we haven't set the value of a placeholder used in the annotation, e.g.
-- 
2.43.0


From 66bc8029a6c470be3d38beaf16e6c14ada7f1328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:57 +0000
Subject: [PATCH 36/56] fix: don't print the value when it should have been
 None

---
 asta/display.py | 6 ++++++
 asta/origins.py | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/asta/display.py b/asta/display.py
index 4132772..1442e45 100644
--- a/asta/display.py
+++ b/asta/display.py
@@ -256,6 +256,12 @@ def fail_literal(name: str, options: List[Any], arg: Any, ox: Oxentiel) -> None:
     handle_error(err, ox)
 
 
+def fail_none(name: str, rep: str, ox: Oxentiel) -> None:
+    """ Print/raise error when argument should be ``None``. """
+    err = f"{FAIL}: Argument '{name}' should be None. Actual type: '{rep}'"
+    handle_error(err, ox)
+
+
 def fail_keys(
     name: str,
     expected_keys: FrozenSet[Any],
diff --git a/asta/origins.py b/asta/origins.py
index 681d127..06d2b00 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -35,6 +35,7 @@ from asta.display import (
     fail_dict,
     fail_keys,
     fail_list,
+    fail_none,
     fail_class,
     fail_float,
     fail_tuple,
@@ -524,7 +525,7 @@ def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 def check_none(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck a value annotated with ``NoneType``. """
     if value is not None:
-        fail_literal(name, [None], value, ox)
+        fail_none(name, qualified_name(value), ox)
 
 
 # Equality checks are applied to these.
-- 
2.43.0


From 5429f36163ccc2dcae2980f1baaafe1bd985a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 37/56] fix: accept every class for Type[Any]

---
 asta/origins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 06d2b00..faa0eb8 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -483,6 +483,8 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
         return
 
     expected_class = annotation.__args__[0] if annotation.__args__ else None
+    if expected_class is Any:
+        return
     if expected_class and not issubclass(value, expected_class):
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
-- 
2.43.0


From 7732fd7273b49a1b9443c83d2e24e0e6592ef381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:28 +0000
Subject: [PATCH 38/56] fix: check Literals by type as well as by ==, which
 arrays don't have

---
 asta/origins.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index faa0eb8..a6f1ba7 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -520,8 +520,11 @@ def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
 
 def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck a value annotated with ``Literal[*]``. """
-    if value not in annotation.__args__:
-        fail_literal(name, annotation.__args__, value, ox)
+    options = annotation.__args__
+    if not any(isinstance(value, type(opt)) and value == opt for opt in options):
+        # Values of other types can be large or have no text at all.
+        same = isinstance(value, tuple(type(opt) for opt in options))
+        fail_literal(name, options, value if same else qualified_name(value), ox)
 
 
 def check_none(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
-- 
2.43.0


From 1125244036f74b772bea6f273f547d9e259b780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 39/56] fix: count the optional parameters of a callable as
 ones it can take

---
 asta/origins.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index a6f1ba7..13801e0 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -254,16 +254,20 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
                 # NOTE: Should this output a warning?
                 return
 
+            positional_args = [
+                param
+                for param in signature.parameters.values()
+                if param.kind
+                in (
+                    inspect.Parameter.POSITIONAL_ONLY,
+                    inspect.Parameter.POSITIONAL_OR_KEYWORD,
+                )
+            ]
             num_mandatory_args = len(
                 [
                     param.name
-                    for param in signature.parameters.values()
-                    if param.kind
-                    in (
-                        inspect.Parameter.POSITIONAL_ONLY,
-                        inspect.Parameter.POSITIONAL_OR_KEYWORD,
-                    )
-                    and param.default is inspect.Parameter.empty
+                    for param in positional_args
+                    if param.default is inspect.Parameter.empty
                 ]
             )
             has_varargs = any(
@@ -275,8 +279,8 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
             # NOTE: Consider adding true recursive checking.
             if num_mandatory_args > len(argument_types):
                 fail_too_many_args(name, len(argument_types), num_mandatory_args, ox)
-            elif not has_varargs and num_mandatory_args < len(argument_types):
-                fail_too_few_args(name, len(argument_types), num_mandatory_args, ox)
+            elif not has_varargs and len(positional_args) < len(argument_types):
+                fail_too_few_args(name, len(argument_types), len(positional_args), ox)
     return
 
 
-- 
2.43.0


From da9354ab41c0988ccd12800b1b5d2ae4f4a36651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:52 +0000
Subject: [PATCH 40/56] fix: look at the shape and dtype of arrays only, when
 describing a value

---
 asta/display.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/asta/display.py b/asta/display.py
index 1442e45..d0fe421 100644
--- a/asta/display.py
+++ b/asta/display.py
@@ -47,18 +47,14 @@ def qualified_name(obj: Any) -> str:
 def type_representation(arg: Any) -> str:
     """ Get a string representation of an argument including dtype and shape. """
     rep = repr(type(arg))
-    if hasattr(arg, "shape"):
-        shape = arg.shape
-    if hasattr(arg, "dtype"):
-        dtype = arg.dtype
     if isinstance(arg, np.ndarray):
-        astatype = Array[dtype, shape]  # type: ignore[valid-type, type-arg]
+        astatype = Array[arg.dtype, arg.shape]  # type: ignore[valid-type, type-arg]
         rep = repr(astatype).replace("asta", "numpy")
     elif isinstance(arg, torch.Tensor):
-        astatype = Tensor[dtype, shape]  # type: ignore
+        astatype = Tensor[arg.dtype, arg.shape]  # type: ignore
         rep = repr(astatype).replace("asta", "torch")
     elif isinstance(arg, tf.Tensor):
-        astatype = TFTensor[dtype, shape]  # type: ignore
+        astatype = TFTensor[arg.dtype, arg.shape]  # type: ignore
         rep = repr(astatype).replace("asta", "tf")
     return rep
 
-- 
2.43.0


From 9d2dba49c2a4f77fa6ed1c1f914dbbf3037b96f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 41/56] fix: tell apart symbols and dims of the same name

---
 asta/dims.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asta/dims.py b/asta/dims.py
index db7b5aa..92e76fb 100644
--- a/asta/dims.py
+++ b/asta/dims.py
@@ -11,6 +11,10 @@ from asta.constants import PYATTRS, NoneType, ModuleType
 
 # pylint: disable=redefined-outer-name, too-few-public-methods, no-self-use
 
+# Tells apart the symbols for dims from those in ``asta.symbols``: sympy symbols
+# are equal if and only if their names and assumptions are.
+ASSUMPTIONS: Dict[str, bool] = {"finite": True}
+
 # Dummy map to trick pylint.
 symbol_map: Dict[Symbol, Optional[int]] = {}
 
@@ -46,7 +50,7 @@ class Dimensions:
             return attr
 
         # Handle everything else as a symbol.
-        symbol = symbols(name)
+        symbol = symbols(name, **ASSUMPTIONS)
         if symbol not in self.symbol_map:
             self.symbol_map[symbol] = None
             return symbol
@@ -65,7 +69,7 @@ class Dimensions:
         else:
             if not isinstance(value, int):
                 raise TypeError("Value of a dim must be an integer.")
-            symbol = symbols(name)
+            symbol = symbols(name, **ASSUMPTIONS)
             self.symbol_map[symbol] = value
 
 
-- 
2.43.0


From 037dd81dfdf6ece3612da583eb9fa5190fb4abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 42/56] fix: tell a tuple's length from the expected one in the
 error

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 13801e0..e357188 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -339,7 +339,7 @@ def check_tuple(
         else:
             if len(value) != len(tuple_params):
                 ann_rep = qualified_name(annotation)
-                fail_tuple_length(name, len(tuple_params), ann_rep, len(value), ox)
+                fail_tuple_length(name, len(value), ann_rep, len(tuple_params), ox)
                 return equations
 
             for i, (elem, elem_type) in enumerate(zip(value, tuple_params)):
-- 
2.43.0


From c1bb55d7039bc85bb313c5f30330972e605b248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 43/56] fix: tell a value's type from the protocol in the error

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index e357188..7bbcc67 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -519,7 +519,7 @@ def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck arguments with protocol annotations. """
     if not issubclass(type(value), annotation):
-        fail_protocol(name, type(value).__qualname__, annotation.__qualname__, ox)
+        fail_protocol(name, annotation.__qualname__, type(value).__qualname__, ox)
 
 
 def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
-- 
2.43.0


From 7882b8221f02cfa0ccafc30fc78fdb230bf27551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 44/56] fix: check keys and qualifiers of TypedDicts of mixed
 totality

---
 asta/origins.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 7bbcc67..40debf0 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
 import types
+import typing
 import inspect
 import itertools
 import collections
@@ -83,6 +84,10 @@ try:
 except ImportError:
     Literal = None
 
+KEY_QUALIFIERS = tuple(
+    getattr(typing, key) for key in ("Required", "NotRequired") if hasattr(typing, key)
+)
+
 # pylint: disable=too-many-lines, too-many-nested-blocks, too-many-branches
 
 
@@ -206,14 +211,20 @@ def check_typed_dict(
     if extra_keys:
         fail_keys(name, expected_keys, existing_keys, ox)
 
-    if annotation.__total__:
-        missing_keys = expected_keys - existing_keys
-        if missing_keys:
-            fail_keys(name, expected_keys, existing_keys, ox)
+    # Python 3.9+ tells which keys are required if totality is not uniform.
+    required_keys = getattr(annotation, "__required_keys__", None)
+    if required_keys is None:
+        required_keys = expected_keys if annotation.__total__ else frozenset()
+    missing_keys = required_keys - existing_keys
+    if missing_keys:
+        fail_keys(name, expected_keys, existing_keys, ox)
 
     # pylint: disable=invalid-name
     MISSING_VALUE = object()
     for key, argtype in annotation.__annotations__.items():
+        # Python 3.11+ has ``Required[...]`` and ``NotRequired[...]``.
+        if getattr(argtype, "__origin__", None) in KEY_QUALIFIERS:
+            argtype = argtype.__args__[0]
         argvalue = value.get(key, MISSING_VALUE)
         if argvalue is not MISSING_VALUE:
             equations = check_annotation(
-- 
2.43.0


From d18873f6d3becb494ea70df5a410610f47a5e302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 45/56] fix: check the fields which NamedTuples inherit

---
 asta/origins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 40debf0..38aa05f 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -310,7 +310,11 @@ def check_tuple(
         # Python 3.9+ has no ``_field_types``.
         field_types = getattr(annotation, "_field_types", None)
         if field_types is None:
-            field_types = getattr(annotation, "__annotations__", {})
+            # The fields of a subclass are annotated in its base class.
+            hints: Dict[str, Any] = {}
+            for base in reversed(annotation.__mro__):
+                hints.update(getattr(base, "__annotations__", {}))
+            field_types = {k: hints[k] for k in annotation._fields if k in hints}
         for subname, field_type in field_types.items():
             equations = check_annotation(
                 f"{name}.{subname}", getattr(value, subname), field_type, equations, ox
-- 
2.43.0


From 0636d5138991e1695cc3e1d1623562725f2359b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 46/56] fix: treat Annotated[X, ...] like X, also where X is
 dict or list

---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 38aa05f..ddefdfb 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -600,6 +600,10 @@ def check_annotation(
     # solution, all the annotations' solutions must agree for a given function
     # signature.
 
+    # The notes of ``Annotated[X, ...]`` mean nothing here.
+    if hasattr(annotation, "__metadata__") and hasattr(annotation, "__origin__"):
+        annotation = annotation.__origin__
+
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
-- 
2.43.0


From 1a30b41db382b66688463c7dc458abcb34faa7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 47/56] fix: a symbolic attribute rejects bool values instead
 of failing with an unrelated error

---
 asta/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/utils.py b/asta/utils.py
index 9ce0ce3..41f0774 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -104,7 +104,7 @@ def attrcheck(
             break
         if isinstance(value, Expr):
             # Only a number can be the value of an expression.
-            if not isinstance(attr, Number):
+            if not isinstance(attr, Number) or isinstance(attr, bool):
                 match = False
                 break
             equations.add(value - attr)
-- 
2.43.0


From 63a5cf9a6866c9cfe38fc0093e284648cccd6f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 48/56] fix: a tensor of unknown rank is checked instead of
 raising ValueError

isinstance(tensor, TFTensor) and the report of a check iterated over the
shape of a symbolic tensor even if its rank is not known.
---
 asta/_tftensor.py | 4 ++++
 asta/display.py   | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index dc5bacd..db231ee 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -61,6 +61,10 @@ class _TFTensorMeta(SubscriptableMeta):
             if cls.dtype and cls.dtype != inst.dtype:
                 match = False
 
+            # No shape is known to fit if not even the rank is known.
+            elif inst.shape.rank is None:
+                match = cls.shape is None and attrcheck(inst, cls.kwattrs)[0]
+
             # Handle ellipses.
             else:
 
diff --git a/asta/display.py b/asta/display.py
index d0fe421..5855a8b 100644
--- a/asta/display.py
+++ b/asta/display.py
@@ -54,7 +54,10 @@ def type_representation(arg: Any) -> str:
         astatype = Tensor[arg.dtype, arg.shape]  # type: ignore
         rep = repr(astatype).replace("asta", "torch")
     elif isinstance(arg, tf.Tensor):
-        astatype = TFTensor[arg.dtype, arg.shape]  # type: ignore
+        if arg.shape.rank is None:
+            astatype = TFTensor[arg.dtype]  # type: ignore
+        else:
+            astatype = TFTensor[arg.dtype, arg.shape]  # type: ignore
         rep = repr(astatype).replace("asta", "tf")
     return rep
 
-- 
2.43.0


From e201326a841be5ce1b1129b7699717428e11b592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 49/56] fix: name the right function in reports of calls which
 overlap

---
 asta/decorators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 6fd5a04..bbe2f37 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -129,8 +129,11 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
     def _wrapper(*args: Tuple[Any], **kwargs: Dict[str, Any]) -> Any:
         """ Decorated/typechecked function. """
 
-        # Print header for ``decorated``.
+        # Calls may overlap, so each has its own record of what is decorated.
+        ox = Oxentiel(dict(get_ox().settings), mutable=True)
         ox.decorated = decorated
+
+        # Print header for ``decorated``.
         header: str = get_header(decorated)
         handle_pass(header, ox)
 
@@ -158,7 +161,6 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         ret = decorated(*args, **kwargs)
 
         # Check return.
-        ox.decorated = decorated
         if "return" in annotations:
             annotation = annotations["return"]
             equations = check_annotation("return", ret, annotation, equations, ox)
-- 
2.43.0


From d042ed6836ab60ecaab1cd29a5590e2ad2dfa02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 50/56] fix: accept what a solver cannot solve, unless the
 other equations contradict it

---
 asta/utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/asta/utils.py b/asta/utils.py
index 41f0774..4643e37 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -135,7 +135,19 @@ def astasolver(
     symbols: Set[Symbol] = set()
     for equation in equations:
         symbols = symbols.union(equation.free_symbols)
-    solutions: List[Dict[Symbol, int]] = solvers.solve(equations, symbols, dict=True)
+    solutions: List[Dict[Symbol, int]]
+    try:
+        solutions = solvers.solve(equations, symbols, dict=True)
+    except NotImplementedError:
+        # What sympy can't solve, e.g. ``X // 2 = 3``, only has to hold where the
+        # other equations yield the value of ``X``.
+        easy = {eq for eq in equations if eq.is_polynomial(*symbols)}
+        solutions = solvers.solve(easy, symbols, dict=True) if easy else [{}]
+        solutions = [
+            solution
+            for solution in solutions
+            if not any(eq.subs(solution).is_nonzero for eq in equations)
+        ]
 
     # Removed pruning of symbolic solutions.
     pruned_solutions: List[Dict[Symbol, Expr]] = solutions
-- 
2.43.0


From 57110b68efa09b1e470ce0d2aae3d8fc3c67c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 51/56] fix: reject dimensions which divide by zero

---
 asta/substitution.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asta/substitution.py b/asta/substitution.py
index 3bba1ad..f7f3019 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -3,6 +3,7 @@
 """ Functions for checking type annotations and their origin types. """
 from typing import Any, Set, List, Tuple, Union
 
+from sympy import zoo
 from oxentiel import Oxentiel
 from sympy.core.expr import Expr
 from sympy.core.symbol import Symbol
@@ -67,10 +68,13 @@ def substitute(
                         expression = expression.subs(symbol, value)
 
             # If this is a number (contains no symbols), it ought to be an integer.
-            if isinstance(expression, Number):
+            # A division by zero yields ``zoo``, or ``nan``.
+            if isinstance(expression, Number) or expression.has(zoo):
                 if not isinstance(expression, Integer):
+                    initialized = False
                     fail_numerical_expression(shape[i], expression, ox)
-                expression = int(expression)
+                else:
+                    expression = int(expression)
             dimension_sizes.append(expression)
 
         # Case 2: ``item`` is a placeholder.
-- 
2.43.0


From fbc8c4359162a138ea7e6b1bd890de4fe9613e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 52/56] fix: check protocols with attributes by isinstance

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index ddefdfb..f1ef8f0 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -533,7 +533,7 @@ def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 
 def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck arguments with protocol annotations. """
-    if not issubclass(type(value), annotation):
+    if not isinstance(value, annotation):
         fail_protocol(name, annotation.__qualname__, type(value).__qualname__, ox)
 
 
-- 
2.43.0


From d6d926a4fdd5b05da06a163021b29d84eaebdece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 53/56] fix: compare attributes which are arrays as a whole
 when telling apart annotations

Union[Array[ArrayAttrs...], ...] and Optional raised ValueError, because typing
compares the members.
---
 asta/_array.py    |  4 ++--
 asta/_tensor.py   |  4 ++--
 asta/_tftensor.py |  4 ++--
 asta/utils.py     | 22 ++++++++++++++++++++++
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index ad3a5b3..4654017 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 
 import numpy as np
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, shapecheck, same_attrs
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import NUMPY_DIM_TYPES, NP_UNSIZED_TYPE_KINDS, EllipsisType
@@ -47,7 +47,7 @@ class _ArrayMeta(SubscriptableMeta):
             return False
         if (cls.dtype is None) != (other.dtype is None):
             return False
-        if cls.kind != other.kind or cls.kwattrs != other.kwattrs:
+        if cls.kind != other.kind or not same_attrs(cls.kwattrs, other.kwattrs):
             return False
         return True
 
diff --git a/asta/_tensor.py b/asta/_tensor.py
index 64c5be8..fba5ae5 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import torch
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, shapecheck, same_attrs
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TORCH_DIM_TYPES, TORCH_DTYPE_MAP, EllipsisType
@@ -40,7 +40,7 @@ class _TensorMeta(SubscriptableMeta):
             return False
         if (cls.dtype is None) != (other.dtype is None):
             return False
-        if cls.kwattrs != other.kwattrs:
+        if not same_attrs(cls.kwattrs, other.kwattrs):
             return False
         return True
 
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index db231ee..8d9c827 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import tensorflow as tf
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, shapecheck, same_attrs
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TF_DIM_TYPES, TF_DTYPE_MAP, EllipsisType
@@ -40,7 +40,7 @@ class _TFTensorMeta(SubscriptableMeta):
             return False
         if (cls.dtype is None) != (other.dtype is None):
             return False
-        if cls.kwattrs != other.kwattrs:
+        if not same_attrs(cls.kwattrs, other.kwattrs):
             return False
         return True
 
diff --git a/asta/utils.py b/asta/utils.py
index 4643e37..db0e645 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -120,6 +120,28 @@ def attrcheck(
     return match, equations
 
 
+def same_attrs(
+    first: Optional[Dict[str, Any]], second: Optional[Dict[str, Any]]
+) -> bool:
+    """ Check if two ``kwattrs`` ask for the same values. """
+    if first is None or second is None:
+        return first is second
+    if first.keys() != second.keys():
+        return False
+
+    for key, value in first.items():
+        other = second[key]
+        if value is other:
+            continue
+        if isinstance(value, (np.ndarray, np.generic)):
+            # Comparing arrays gives arrays.
+            if type(other) is not type(value) or not np.array_equal(value, other):
+                return False
+        elif isinstance(other, (np.ndarray, np.generic)) or value != other:
+            return False
+    return True
+
+
 def astasolver(
     equations: Set[Expr],
 ) -> Tuple[bool, Set[Symbol], List[Dict[Symbol, int]]]:
-- 
2.43.0


From d44d107d82468cb5f912a673f618e63557ed4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:29 +0000
Subject: [PATCH 54/56] fix: solve rounding expressions beside powers instead
 of raising ValueError

sympy tries the complex roots of the powers, and cannot compare them.
---
 asta/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index db0e645..fc2af24 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -160,7 +160,7 @@ def astasolver(
     solutions: List[Dict[Symbol, int]]
     try:
         solutions = solvers.solve(equations, symbols, dict=True)
-    except NotImplementedError:
+    except (NotImplementedError, ValueError):
         # What sympy can't solve, e.g. ``X // 2 = 3``, only has to hold where the
         # other equations yield the value of ``X``.
         easy = {eq for eq in equations if eq.is_polynomial(*symbols)}
@@ -168,7 +168,9 @@ def astasolver(
         solutions = [
             solution
             for solution in solutions
-            if not any(eq.subs(solution).is_nonzero for eq in equations)
+            # Sizes are real, and e.g. ``Max`` takes real numbers only.
+            if not any(value.is_real is False for value in solution.values())
+            and not any(eq.subs(solution).is_nonzero for eq in equations)
         ]
 
     # Removed pruning of symbolic solutions.
-- 
2.43.0


From 56832bec8c0839c0a41061c6b9c7963d2120b50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:41 +0000
Subject: [PATCH 55/56] fix: survive whatever error sympy raises on rounding
 expressions

---
 asta/utils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index fc2af24..33ec436 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -142,6 +142,15 @@ def same_attrs(
     return True
 
 
+def is_contradicted(solution: Dict[Symbol, Expr], equations: Set[Expr]) -> bool:
+    """ Whether some equation cannot hold for ``solution``. """
+    try:
+        return any(eq.subs(solution).is_nonzero for eq in equations)
+    except (TypeError, ValueError, AttributeError):
+        # Sizes are real, and e.g. ``Max`` takes real numbers only.
+        return True
+
+
 def astasolver(
     equations: Set[Expr],
 ) -> Tuple[bool, Set[Symbol], List[Dict[Symbol, int]]]:
@@ -160,17 +169,15 @@ def astasolver(
     solutions: List[Dict[Symbol, int]]
     try:
         solutions = solvers.solve(equations, symbols, dict=True)
-    except (NotImplementedError, ValueError):
+    except Exception:  # pylint: disable=broad-except
         # What sympy can't solve, e.g. ``X // 2 = 3``, only has to hold where the
-        # other equations yield the value of ``X``.
+        # other equations yield the value of ``X``. It fails in many ways.
         easy = {eq for eq in equations if eq.is_polynomial(*symbols)}
         solutions = solvers.solve(easy, symbols, dict=True) if easy else [{}]
         solutions = [
             solution
             for solution in solutions
-            # Sizes are real, and e.g. ``Max`` takes real numbers only.
-            if not any(value.is_real is False for value in solution.values())
-            and not any(eq.subs(solution).is_nonzero for eq in equations)
+            if not is_contradicted(solution, equations)
         ]
 
     # Removed pruning of symbolic solutions.
-- 
2.43.0


From d5262f030e95dffe12b1c53c4a4a64787a46a6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:10 +0000
Subject: [PATCH 56/56] fix: put the values of dims and shapes into attribute
 constraints

---
 asta/origins.py      | 28 +++++++++++++++++++++++++++-
 asta/substitution.py |  7 +++++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index f1ef8f0..1f35807 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -63,7 +63,8 @@ from asta.display import (
 )
 from asta.unusable import UnusableMeta
 from asta.constants import _TORCH_IMPORTED, _TENSORFLOW_IMPORTED, NoneType, tf, torch
-from asta.substitution import substitute
+from asta.placeholder import Placeholder
+from asta.substitution import has_dims, substitute
 
 METAMAP: Dict[type, SubscriptableMeta] = {_ArrayMeta: Array}
 
@@ -91,6 +92,23 @@ KEY_QUALIFIERS = tuple(
 # pylint: disable=too-many-lines, too-many-nested-blocks, too-many-branches
 
 
+def refresh_attrs(kwattrs: Dict[str, Any], ox: Oxentiel) -> Tuple[Dict[str, Any], bool]:
+    """ Put the values of dims and shapes variables into attribute constraints. """
+    refreshed: Dict[str, Any] = {}
+    initialized = True
+    for key, value in kwattrs.items():
+        if isinstance(value, Placeholder) or has_dims(value):
+            sizes, _, ready = substitute((value,), ox)
+            initialized = initialized and ready
+            if not isinstance(value, Placeholder):
+                value = sizes[0]
+            elif ready:
+                parts = (size if isinstance(size, tuple) else (size,) for size in sizes)
+                value = tuple(itertools.chain.from_iterable(parts))
+        refreshed[key] = value
+    return refreshed, initialized
+
+
 def refresh(
     annotation: SubscriptableMeta, ox: Oxentiel
 ) -> Tuple[SubscriptableMeta, bool]:
@@ -134,6 +152,14 @@ def refresh(
             refreshed_annotation.kind = annotation.kind
         refreshed_annotation.kwattrs = annotation.kwattrs
 
+    # Neither are the values of variables in the attributes.
+    if annotation.kwattrs:
+        kwattrs, ready = refresh_attrs(annotation.kwattrs, ox)
+        if refreshed_annotation is annotation:
+            refreshed_annotation = subscriptable_class[kwattrs]
+        refreshed_annotation.kwattrs = kwattrs
+        initialized = initialized and ready
+
     return refreshed_annotation, initialized
 
 
diff --git a/asta/substitution.py b/asta/substitution.py
index f7f3019..3a1d1ba 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -29,6 +29,13 @@ def validate_placeholder_contents(
             assert len(elem.contents) == 0
 
 
+def has_dims(value: Any) -> bool:
+    """ Whether ``value`` is an expression with variables from ``asta.dims``. """
+    if not isinstance(value, Expr):
+        return False
+    return not asta.dims.symbol_map.keys().isdisjoint(value.free_symbols)
+
+
 def substitute(
     shape: Tuple[Any, ...], ox: Oxentiel
 ) -> Tuple[List[Any], Set[str], bool]:
-- 
2.43.0

