From 8748cab62b1bd761ee58b96a34cde63d88f3b0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:49 +0000
Subject: [PATCH 01/20] fix: short-circuit in async builder bodies without
 yield

An async (non-generator) body that awaits Nothing/Error leaked the internal
EffectError to the caller instead of finishing with that Nothing/Error.
---
 expression/core/async_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expression/core/async_builder.py b/expression/core/async_builder.py
index 5354d20..b05186b 100644
--- a/expression/core/async_builder.py
+++ b/expression/core/async_builder.py
@@ -116,7 +116,11 @@ class AsyncBuilder(Generic[_T, _M], ABC):  # Corrected Generic definition
                 # to zero().
                 result_value: _T | None
                 if inspect.iscoroutine(body):
-                    result_value = await cast("Awaitable[_T]", body)
+                    try:
+                        result_value = await cast("Awaitable[_T]", body)
+                    except EffectError as error:
+                        # Effect errors (Nothing, Error, etc) short circuits
+                        return await self.run(await self.return_from(cast("_M", error.args[0])))
                 else:
                     result_value = cast("_T | None", body)
                 if result_value is None:
-- 
2.43.0


From 3405ff34dfe0451c79d17f1c4d7209f4145a98a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:44 +0000
Subject: [PATCH 02/20] fix: traverse results from left to right and stop at
 the first error

traverse/sequence documented a left-to-right traversal but called the
function for the last item first and for every item after an error.
---
 expression/extra/result/traversable.py | 35 ++++++++++----------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/expression/extra/result/traversable.py b/expression/extra/result/traversable.py
index 8d7fbd2..6b61926 100644
--- a/expression/extra/result/traversable.py
+++ b/expression/extra/result/traversable.py
@@ -1,11 +1,10 @@
 """Data structures that can be traversed from left to right, performing an action on each element."""
 
 from collections.abc import Callable
-from typing import Any, TypeVar
+from typing import TypeVar
 
-from expression import effect
-from expression.collections import Block, block, seq
-from expression.core import Ok, Result, identity, pipe
+from expression.collections import Block
+from expression.core import Error, Ok, Result, identity
 
 
 _TSource = TypeVar("_TSource")
@@ -18,27 +17,19 @@ def traverse(
 ) -> Result[Block[_TResult], _TError]:
     """Traverses a list of items.
 
-    Threads an applicative computation though a list of items.
+    Threads an applicative computation though a list of items, from left
+    to right, and stops at the first error.
     """
 
-    @effect.result[Block[_TResult], _TError]()
-    def folder(head: _TSource, tail: Result[Block[_TResult], _TError]) -> Any:
-        """Fold back function.
+    values: list[_TResult] = []
+    for item in lst:
+        match fn(item):
+            case Result(tag="ok", ok=value):
+                values.append(value)
+            case Result(error=error):
+                return Error(error)
 
-        Same as:
-        >>> fn(head).bind(lambda head: tail.bind(lambda tail: Ok([head] + tail))).
-        """
-        h: _TResult = yield from fn(head)
-        t: Block[_TResult] = yield from tail
-
-        return Block([h]) + t
-
-    state: Result[Block[_TResult], _TError] = Ok(block.empty)
-    ret = pipe(
-        state,
-        seq.fold_back(folder, lst),
-    )
-    return ret
+    return Ok(Block(values))
 
 
 def sequence(lst: Block[Result[_TSource, _TError]]) -> Result[Block[_TSource], _TError]:
-- 
2.43.0


From 2c3d4acc2186942c2f57dbf8d5bc44ee77cf1e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:07 +0000
Subject: [PATCH 03/20] fix: indexed honours its start index

---
 expression/collections/array.py | 4 ++--
 expression/collections/block.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 3b54c9b..03937e3 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -305,7 +305,7 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
@@ -545,7 +545,7 @@ def indexed(
     source: TypedArray[_TSource],
     start: int = 0,
 ) -> TypedArray[tuple[int, _TSource]]:
-    return source.indexed()
+    return source.indexed(start)
 
 
 def is_empty(source: TypedArray[Any]) -> bool:
diff --git a/expression/collections/block.py b/expression/collections/block.py
index 76e305f..351d7d9 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -219,7 +219,7 @@ class Block(
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
-- 
2.43.0


From bfd33055a32ce4e5b1d7e54493fcceec8b6dbfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:27 +0000
Subject: [PATCH 04/20] fix: filtered, scanned, zipped and unfolded sequences
 can be iterated again

---
 expression/collections/seq.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 76be2b3..a0125e3 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -279,7 +279,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The resulting sequence of computed states.
         """
-        return Seq(itertools.accumulate(self._value, scanner, initial=state))
+        return Seq(scan(scanner, state)(self))
 
     def skip(self, count: int) -> Seq[_TSource]:
         """Skip elements from sequence.
@@ -380,7 +380,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The result sequence.
         """
-        return builtins.zip(self, other)
+        return SeqGen(lambda: builtins.zip(self, other))
 
     def __iter__(self) -> Iterator[_TSource]:
         """Return iterator for sequence."""
@@ -542,7 +542,7 @@ def filter(source: Iterable[_TSource], predicate: Callable[[_TSource], bool]) ->
     Returns:
         A partially applied filter function.
     """
-    return builtins.filter(predicate, source)
+    return SeqGen(lambda: builtins.filter(predicate, source))
 
 
 @curry_flip(1)
@@ -861,7 +861,7 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return itertools.accumulate(source, scanner, initial=state)
+    return SeqGen(lambda: itertools.accumulate(source, scanner, initial=state))
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
@@ -1023,13 +1023,18 @@ def unfold(state: _TState, generator: Callable[[_TState], Option[tuple[_TSource,
         A partially applied unfold function that takes the state and
         returns the result list.
     """
-    while True:
-        result = generator(state)
-        if result.is_none():
-            break
 
-        item, state = result.value
-        yield item
+    def gen() -> Iterator[_TSource]:
+        current = state
+        while True:
+            result = generator(current)
+            if result.is_none():
+                break
+
+            item, current = result.value
+            yield item
+
+    return SeqGen(gen)
 
 
 def zip(
@@ -1063,7 +1068,7 @@ def zip(
         Returns:
             The result sequence.
         """
-        return builtins.zip(source1, source2)
+        return SeqGen(lambda: builtins.zip(source1, source2))
 
     return _zip
 
-- 
2.43.0


From 2484cbc55d71b640f27ace96c560c6589f526c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:13 +0000
Subject: [PATCH 05/20] fix: map with index, concat and collect of sequences
 are lazy

---
 expression/collections/seq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index a0125e3..9545e7e 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -117,7 +117,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Combines the given variable number of enumerations and/or
         enumeration-of-enumerations as a single concatenated enumeration.
         """
-        return Seq(concat(*self))
+        return Seq(collect(identity)(self))
 
     def collect(self, mapping: Callable[[_TSource], Seq[_TResult]]) -> Seq[_TResult]:
         """Collect items from the sequence.
@@ -133,7 +133,7 @@ class Seq(Iterable[_TSource], PipeMixin):
             A sequence comprising the concatenated values from the mapping
             function.
         """
-        return self.map(mapping).concat()
+        return Seq(collect(mapping)(self))
 
     @staticmethod
     def delay(generator: Callable[[], Iterable[_TSource]]) -> Iterable[_TSource]:
@@ -756,7 +756,7 @@ def mapi(source: Iterable[_TSource], mapping: Callable[[int, _TSource], _TResult
     Returns:
         The list of transformed elements.
     """
-    return (*itertools.starmap(mapping, builtins.enumerate(source)),)
+    return SeqGen(lambda: itertools.starmap(mapping, builtins.enumerate(source)))
 
 
 def max(source: Iterable[_TSupportsGreaterThan]) -> _TSupportsGreaterThan:
-- 
2.43.0


From 4d6e4071374ddb9717018f5ecb81ff6642ee3b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:45 +0000
Subject: [PATCH 06/20] fix: scan from an initial state of None

---
 expression/collections/seq.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 9545e7e..502e6fe 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -861,7 +861,15 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return SeqGen(lambda: itertools.accumulate(source, scanner, initial=state))
+
+    def gen() -> Iterator[_TState]:
+        current = state
+        yield current
+        for x in source:
+            current = scanner(current, x)
+            yield current
+
+    return SeqGen(gen)
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
-- 
2.43.0


From 54e4b11bf7a796b1b21867d186dbfc363ca90236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:24 +0000
Subject: [PATCH 07/20] fix: taking from an async sequence reads no further
 than the elements taken

---
 expression/collections/asyncseq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index 7576da8..87acb8d 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -167,12 +167,14 @@ class AsyncSeq(AsyncIterable[TSource]):
         """Returns the first N elements of the sequence."""
 
         async def _take(source: AsyncIterable[TSource]) -> AsyncIterable[TSource]:
+            if count <= 0:
+                return
             i = 0
             async for value in source:
-                if i >= count:
-                    break
                 yield value
                 i += 1
+                if i >= count:
+                    break
 
         return pipe(self, _take)
 
-- 
2.43.0


From 5fd299f7c6d83e43faa65ce8fc32fcde3679efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:46 +0000
Subject: [PATCH 08/20] fix: copies of a subclass of a tagged union keep their
 type

---
 expression/core/tagged_union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/tagged_union.py b/expression/core/tagged_union.py
index fdd17f2..a746d38 100644
--- a/expression/core/tagged_union.py
+++ b/expression/core/tagged_union.py
@@ -168,11 +168,11 @@ def tagged_union(
         # Copy helpers (required by Pydantic)
         # ------------------------------------------------------------------
         def __copy__(self: Any) -> Any:
-            return cls(**{self.tag: getattr(self, self.tag)})
+            return type(self)(**{self.tag: getattr(self, self.tag)})
 
         def __deepcopy__(self: Any, memo: dict[int, Any]) -> Any:
             value = deepcopy(getattr(self, self.tag), memo)
-            return cls(**{self.tag: value})
+            return type(self)(**{self.tag: value})
 
         cls.__copy__ = __copy__
         cls.__deepcopy__ = __deepcopy__
-- 
2.43.0


From 29eac952e6e91ad6c7989d58d52d8a2d0558744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:50 +0000
Subject: [PATCH 09/20] fix: repetition and string parsers handle inputs longer
 than the recursion limit

---
 expression/extra/parser.py | 51 +++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 1ac1192..cc3b731 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -248,23 +248,21 @@ def lift2(fn: Callable[[_A], Callable[[_B], _C]], xP: Parser[_A], yP: Parser[_B]
 
 
 def sequence(parser_list: Block[Parser[_A]]) -> Parser[Block[_A]]:
-    # define the "cons" function, which is a two parameter function
-    @curry(1)
-    def cons(head: _A, tail: Block[_A]) -> Block[_A]:
-        return tail.cons(head)
+    def run(input: Remaining) -> ParseResult[Block[_A]]:
+        values: list[_A] = []
+
+        # run the parsers one after the other, each where the previous one stopped
+        for parser in parser_list:
+            match parser.run(input):
+                case Result(tag="ok", ok=(value, remaining)):
+                    values.append(value)
+                    input = remaining
+                case Result(error=error):
+                    return Error(error)
 
-    # lift it to Parser World
-    cons_p = lift2(cons)
+        return Ok((Block(values), input))
 
-    # process the list of parsers recursively
-    match parser_list:
-        case block.empty:
-            return preturn(block.empty)
-        case Block([head, *tail]):
-            tail_ = sequence(Block(tail))
-            return cons_p(head)(tail_)
-        case _:
-            raise ValueError("invalid parser list")
+    return Parser(run, f"sequence({parser_list})")
 
 
 def pstring(string_input: str) -> Parser[str]:
@@ -278,19 +276,16 @@ def pstring(string_input: str) -> Parser[str]:
 
 
 def parse_zero_or_more(parser: Parser[_A], input: Remaining) -> tuple[Block[_A], Remaining]:
-    # run parser with the input
-    first_result = parser.run(input)
-
-    # test the result for Failure/Success
-    match first_result:
-        case Result(tag="ok", ok=(first_value, input_after_first_parse)):
-            # if parse succeeds, call recursively
-            # to get the subsequent values
-            subsequent_values, remaining_input = parse_zero_or_more(parser, input_after_first_parse)
-            values = subsequent_values.cons(first_value)
-            return values, remaining_input
-        case _:
-            return (block.empty, input)
+    values: list[_A] = []
+
+    # run the parser again where it stopped until it fails
+    while True:
+        match parser.run(input):
+            case Result(tag="ok", ok=(value, remaining)):
+                values.append(value)
+                input = remaining
+            case _:
+                return Block(values), input
 
 
 def many(parser: Parser[_A]) -> Parser[Block[_A]]:
-- 
2.43.0


From f084f745d2e1b69733143bf10dca640a527002ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:17 +0000
Subject: [PATCH 10/20] fix: Map.__eq__ must not equate a map with a longer map
 it is a prefix of

---
 expression/collections/map.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 6dd0b32..a612827 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -237,7 +237,13 @@ class Map(Mapping[_Key, _Value], PipeMixin):
             else:
                 if kv != kv_other:
                     return False
-        return True
+        # Equal only if the other map has no more bindings
+        try:
+            next(iterator)
+        except StopIteration:
+            return True
+        else:
+            return False
 
     def __bool__(self) -> bool:
         return not maptree.is_empty(self._tree)
-- 
2.43.0


From 6cba75cf7381912bfa56c7ee6a1aab764bc0274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:17 +0000
Subject: [PATCH 11/20] fix: map.pick raises KeyError when no binding is picked

---
 expression/collections/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index a612827..a7a7ad4 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -370,7 +370,7 @@ def try_pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[
 
 @curry_flip(1)
 def pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[_Result]]) -> _Result:
-    for res in table.try_pick(chooser):
+    for res in table.try_pick(chooser).to_list():
         return res
     else:
         raise KeyError()
-- 
2.43.0


From 3d92607d14759d2a0c5604c10f6ff772ff6030de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:17 +0000
Subject: [PATCH 12/20] fix: Map.change on an empty map accepts Nothing from
 the change function

---
 expression/collections/maptree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 7f8a54c..710866f 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -325,7 +325,7 @@ def change(k: Key, u: Callable[[Option[Value]], Option[Value]], m: MapTree[Key,
                     return m
 
         case _:
-            for v in u(Nothing):
+            for v in u(Nothing).to_list():
                 return Some(MapTreeLeaf(k, v))
             else:
                 return m
-- 
2.43.0


From 55e36963141f1cf3621082b2f57d6c0e96eae7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:17 +0000
Subject: [PATCH 13/20] fix: building a Map does not recurse once per item

---
 expression/collections/maptree.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 710866f..a658ca5 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -454,12 +454,9 @@ def of_list(xs: Block[tuple[Key, Value]]) -> MapTree[Key, Value]:
 
 
 def mk_from_iterator(acc: MapTree[Key, Value], e: Iterator[tuple[Key, Value]]) -> MapTree[Key, Value]:
-    try:
-        (x, y) = next(e)
-    except StopIteration:
-        return acc
-    else:
-        return mk_from_iterator(add(x, y, acc), e)
+    for x, y in e:
+        acc = add(x, y, acc)
+    return acc
 
 
 def of_seq(xs: Iterable[tuple[Key, Value]]) -> MapTree[Key, Value]:
-- 
2.43.0


From 8b0dbeb703e9033cc2467dc0d1db2b325cd269bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:30 +0000
Subject: [PATCH 14/20] fix: Map.to_seq can be iterated more than once

---
 expression/collections/maptree.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index a658ca5..bd718c6 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -27,7 +27,7 @@ from collections.abc import Callable, Iterable, Iterator
 from dataclasses import dataclass
 from typing import Any, Generic, TypeVar
 
-from expression.core import Nothing, Option, Some, failwith, pipe
+from expression.core import Nothing, Option, Some, failwith
 from expression.core.typing import SupportsLessThanAndHash
 
 from . import block, seq
@@ -516,14 +516,5 @@ def mk_iterator(m: MapTree[Key, Value]) -> Iterator[tuple[Key, Value]]:
 
 
 def to_seq(s: MapTree[Key, Value]) -> Iterable[tuple[Key, Value]]:
-    it = mk_iterator(s)
-
-    def folder(it: Iterator[tuple[Key, Value]]):
-        try:
-            current = next(it)
-        except StopIteration:
-            return Nothing
-        else:
-            return Some((current, it))
-
-    return pipe(it, seq.unfold(folder))
+    # A new iterator for every iteration, so the sequence may be iterated more than once
+    return seq.delay(lambda: mk_iterator(s))
-- 
2.43.0


From 8b592198345abc2de5590abd7ea99bb7963b46a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:12 +0000
Subject: [PATCH 15/20] fix: Map trees stay balanced after removals

---
 expression/collections/maptree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index bd718c6..4878e83 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -107,7 +107,7 @@ def rebalance(t1: MapTree[Key, Value], k: Key, v: Value, t2: MapTree[Key, Value]
         if isinstance(t2.value, MapTreeNode):
             t2_ = t2.value
             # One of the nodes must have height > height t1 + 1
-            if height(t2_.left) > t1h + 1:  # balance left: combination
+            if height(t2_.left) > height(t2_.right):  # balance left: combination
                 if isinstance(t2_.left.value, MapTreeNode):
                     t2l = t2_.left.value
                     return mk(
@@ -127,7 +127,7 @@ def rebalance(t1: MapTree[Key, Value], k: Key, v: Value, t2: MapTree[Key, Value]
             if isinstance(t1.value, MapTreeNode):
                 t1_ = t1.value
                 # One of the nodes must have height > height t2 + 1
-                if height(t1_.right) > t2h + 1:  # balance right: combination
+                if height(t1_.right) > height(t1_.left):  # balance right: combination
                     if isinstance(t1_.right.value, MapTreeNode):
                         t1r = t1_.right.value
                         return mk(
@@ -258,7 +258,7 @@ def splice_out_successor(m: MapTree[Key, Value]) -> tuple[Key, Value, Option[Map
                 return key, value, right
             else:
                 k3, v3, l_ = splice_out_successor(left)
-                return k3, v3, mk(l_, key, value, right)
+                return k3, v3, rebalance(l_, key, value, right)
         case Option(tag="some", some=MapTreeLeaf(key=key, value=value)):
             return key, value, empty
         case _:
@@ -277,7 +277,7 @@ def remove(k: Key, m: MapTree[Key, Value]) -> Option[MapTreeLeaf[Key, Value]]:
                     return left
                 else:
                     sk, sv, r_ = splice_out_successor(right)
-                    return mk(left, sk, sv, r_)
+                    return rebalance(left, sk, sv, r_)
             else:
                 return rebalance(left, key, value, remove(k, right))
         case Option(tag="some", some=MapTreeLeaf(key=key, value=value)):
@@ -304,7 +304,7 @@ def change(k: Key, u: Callable[[Option[Value]], Option[Value]], m: MapTree[Key,
                         return left
                     else:
                         sk, sv, r_ = splice_out_successor(right)
-                        return mk(left, sk, sv, r_)
+                        return rebalance(left, sk, sv, r_)
             else:
                 return rebalance(left, key, value, change(k, u, right))
         case Option(tag="some", some=MapTreeLeaf(key=key, value=value)):
-- 
2.43.0


From dc61adf83fd7adae1806e0922944c5463db47813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:59 +0000
Subject: [PATCH 16/20] fix: check for cancellation under the lock when
 registering a callback

A callback registered while another thread was cancelling the source could pass the
check, and then be added after cancellation had collected the callbacks to call: it was
neither refused nor ever called.
---
 expression/system/cancellation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 0044e34..21aa7bc 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -86,10 +86,10 @@ class CancellationTokenSource(Disposable):
                 pass
 
     def register_internal(self, callback: Callable[[], None]) -> Disposable:
-        if self._is_disposed:
-            raise ObjectDisposedException()
-
         with self._lock:
+            if self._is_disposed:
+                raise ObjectDisposedException()
+
             current = self._id
             self._listeners[current] = callback
             self._id += 1
-- 
2.43.0


From 5c588dd44b27b64b849afa94384d1eeb4e385376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:13 +0000
Subject: [PATCH 17/20] fix: post_and_async_reply completes with the first
 reply, whatever its value

---
 expression/core/mailbox.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 17e05ac..27f5736 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -79,16 +79,19 @@ class MailboxProcessor(Generic[_Msg]):
             The reply from mailbox processor.
         """
         result: _Reply | None = None
+        replied = False
         # This is the continuation for the `done` callback of the awaiting poster.
         continuation: Continuation[_Reply] | None = None
 
         def check_completion() -> None:
-            if result is not None and continuation is not None:
-                continuation(result)
+            if replied and continuation is not None:
+                continuation(result)  # type: ignore
 
         def reply_callback(res: _Reply):
-            nonlocal result
-            result = res
+            nonlocal result, replied
+            if replied:  # only the first reply counts
+                return
+            result, replied = res, True
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-- 
2.43.0


From 3c973050e1e3acdc84f74643e28ba9884fdc9daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:12 +0000
Subject: [PATCH 18/20] fix: concurrent deliveries of a mailbox do not drop a
 message

---
 expression/core/mailbox.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 27f5736..56adc65 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -143,11 +143,8 @@ class MailboxProcessor(Generic[_Msg]):
                 cancel(OperationCanceledError("Mailbox was cancelled"))
             return
 
-        if self.continuation is None:
-            return
-
         with self.lock:
-            if self.messages.empty():
+            if self.continuation is None or self.messages.empty():
                 return
             msg = self.messages.get()
             self.continuation, cont = None, self.continuation
-- 
2.43.0


From 1b4523fe69b2b595352f25a2203b9362a05937b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:27 +0000
Subject: [PATCH 19/20] fix: validate the payload of an option read from JSON

---
 expression/core/option.py | 45 +++++++++++++++------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/expression/core/option.py b/expression/core/option.py
index 76d627d..8694b4c 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -342,37 +342,26 @@ class Option(
             _ = handler(v)
             return Nothing
 
-        python_schema = core_schema.union_schema(
-            [
-                core_schema.is_instance_schema(Option),
-                core_schema.chain_schema(
-                    [
-                        core_schema.none_schema(),
-                        core_schema.no_info_wrap_validator_function(validate_none, none_schema),
-                    ]
-                ),
-                core_schema.chain_schema(
-                    [
-                        # item_tp's schema should ensure the value is an instance of _T
-                        # is_instance_schema doesn't work for Annotated[_T, ...]
-                        # Use the value_schema to validate `values`
-                        core_schema.no_info_wrap_validator_function(validate_some, value_schema),
-                    ]
-                ),
-            ]
-        )
-
-        return core_schema.json_or_python_schema(
-            json_schema=core_schema.chain_schema(
+        none_or_some = [
+            core_schema.chain_schema(
+                [
+                    core_schema.none_schema(),
+                    core_schema.no_info_wrap_validator_function(validate_none, none_schema),
+                ]
+            ),
+            core_schema.chain_schema(
                 [
-                    core_schema.any_schema(),
-                    # after validating the json data convert it to python
-                    core_schema.no_info_before_validator_function(
-                        lambda data: cls(some=data) if data is not None else cls(none=data),
-                        python_schema,
-                    ),
+                    # item_tp's schema should ensure the value is an instance of _T
+                    # is_instance_schema doesn't work for Annotated[_T, ...]
+                    # Use the value_schema to validate `values`
+                    core_schema.no_info_wrap_validator_function(validate_some, value_schema),
                 ]
             ),
+        ]
+        python_schema = core_schema.union_schema([core_schema.is_instance_schema(Option), *none_or_some])
+
+        return core_schema.json_or_python_schema(
+            json_schema=core_schema.union_schema(none_or_some, mode="left_to_right"),
             python_schema=python_schema,
             serialization=core_schema.plain_serializer_function_ser_schema(lambda instance: instance.dict()),
         )
-- 
2.43.0


From d89f0fde3591beffdc0ae4554bd9c4d71f85b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:27 +0000
Subject: [PATCH 20/20] fix: results can be read from JSON

---
 expression/core/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index 384df1a..bd3c300 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -333,13 +333,13 @@ class Result(
                     [
                         core_schema.typed_dict_schema(
                             {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
+                                "tag": core_schema.typed_dict_field(core_schema.literal_schema(["ok"])),
                                 "ok": core_schema.typed_dict_field(ok_schema),
                             }
                         ),
                         core_schema.typed_dict_schema(
                             {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
+                                "tag": core_schema.typed_dict_field(core_schema.literal_schema(["error"])),
                                 "error": core_schema.typed_dict_field(error_schema),
                             }
                         ),
@@ -347,7 +347,7 @@ class Result(
                 ),
                 # after validating the json data convert it to python
                 core_schema.no_info_before_validator_function(
-                    lambda data: cls(data),
+                    lambda data: cls(**data),
                     python_schema,
                 ),
             ]
-- 
2.43.0

