"""C23: reading and writing values through pydantic.

The schemas that the library builds are run: by pydantic_core itself in the concrete runs, and by the interpreter below
(its assumed meaning) in the verifier."""
from collections.abc import Sequence
from typing import Any as AnyType, Optional

from expression import Error, Nothing, Ok, Option, Result, Some
from expression.collections import Block
from pv.lang import ConstT, Int, OneOf, SeqT, contract, emit, symbolic
from pv.prelude import _unsupported

P = "C23"


def c(name, args, code, spec, **k):
    contract(P, name, args, code, spec, **k)


class Item:
    """a payload with a JSON form of its own"""

    def __init__(self, z):
        self.z = z

    def dict(self):
        return {"z": self.z}

    def __eq__(self, o):
        return isinstance(o, Item) and o.z == self.z

    def __hash__(self):
        return 1



class Doc(Item):
    """a payload that is a pydantic model, as far as writing it is concerned"""

    dict = None

    def model_dump(self):
        return {"z": self.z}


def read_doc(data):
    return Doc(read_item(data).z)


def read_item(data):
    if not isinstance(data, dict) or "z" not in data or not isinstance(data["z"], int):
        raise ValueError("no item")
    return Item(data["z"])


class Handler:
    def generate_schema(self, tp):
        from pydantic_core import core_schema as cs
        if tp is Item:
            return cs.no_info_plain_validator_function(read_item)
        if tp is Doc:
            return cs.no_info_plain_validator_function(read_doc)
        if tp is int:
            return cs.int_schema(strict=True)
        if tp is str:
            return cs.str_schema(strict=True)
        if tp is None or tp is type(None):
            return cs.none_schema()
        if tp is AnyType:
            return cs.any_schema()
        if tp is Sequence:
            return cs.list_schema(cs.any_schema())
        if tp == Optional[int]:
            return cs.nullable_schema(cs.int_schema(strict=True))
        for t in (Item, Doc, int, str, Optional[int], Option[int], Option[Item], Result[int, str], Block[int]):
            if tp == Sequence[t]:
                return cs.list_schema(self.generate_schema(t))
        return schema_of(tp)

    def __call__(self, tp):
        return self.generate_schema(tp)


def schema_of(tp):
    cls = getattr(tp, "__origin__", tp)
    return cls.__get_pydantic_core_schema__(tp, Handler())


# ---- the meaning of schemas
class Refused(Exception):
    pass


def call(f, *a):
    try:
        return f(*a)
    except (ValueError, AssertionError):
        raise Refused


def loose(s):
    """a schema that accepts anything: unions prefer the others"""
    t = s["type"]
    if t == "chain":
        return any([loose(x) for x in s["steps"]])
    if t in ("function-wrap", "function-before", "function-after"):
        return loose(s["schema"])
    return t == "any"


def run(s, v, json, raw):
    """v validated by s; json: the input is JSON, raw: v is (part of) the input itself"""
    t = s["type"]
    if t == "any":
        return v
    if t == "none":
        if v is not None:
            raise Refused
        return None
    if t == "int":
        if not isinstance(v, int) or isinstance(v, bool):
            raise Refused
        return v
    if t == "str":
        if not isinstance(v, str):
            raise Refused
        return v
    if t == "literal":
        if v not in s["expected"]:
            raise Refused
        return v
    if t == "is-instance":
        if json and raw or not isinstance(v, s["cls"]):
            raise Refused
        return v
    if t == "nullable":
        return None if v is None else run(s["schema"], v, json, raw)
    if t == "chain":
        for x in s["steps"]:
            v = run(x, v, json, raw)
            raw = False
        return v
    if t == "function-plain":
        return call(s["function"], v)
    if t == "function-wrap":
        return call(s["function"], v, lambda x: run(s["schema"], x, json, raw))
    if t == "function-before":
        return run(s["schema"], call(s["function"], v), json, False)
    if t == "function-after":
        return call(s["function"], run(s["schema"], v, json, raw))
    if t == "json-or-python":
        return run(s["json_schema"] if json else s["python_schema"], v, json, raw)
    if t == "typed-dict":
        if not isinstance(v, dict):
            raise Refused
        out = {}
        for k, field in s["fields"].items():
            if k in v:
                out[k] = run(field["schema"], v[k], json, raw)
            elif field.get("required", True):
                raise Refused
        return out
    if t == "list":
        if not isinstance(v, (list, tuple)):
            raise Refused
        return [run(s["items_schema"], x, json, raw) for x in v]
    if t == "tagged-union":
        if not isinstance(v, dict) or v.get(s["discriminator"]) not in s["choices"]:
            raise Refused
        return run(s["choices"][v[s["discriminator"]]], v, json, raw)
    if t == "union":
        found = []
        for x in s["choices"]:
            try:
                r = run(x, v, json, raw)
            except Refused:
                continue
            if s.get("mode") == "left_to_right" or x["type"] == "is-instance":
                return r
            found.append((loose(x), r))
        if not found:
            raise Refused
        exact = [r for k, r in found if not k]
        if len(exact) > 1:
            _unsupported("a union with several fitting choices")
        return exact[0] if exact else found[0][1]
    _unsupported("kind of schema")


def plain(v):
    """v as pydantic_core writes it when it has no schema for it"""
    if v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    raise TypeError("cannot be written")


def dump(s, v):
    """the JSON data of v"""
    if symbolic():
        return plain(s["serialization"]["function"](v))
    import json

    from pydantic_core import SchemaSerializer
    return json.loads(SchemaSerializer(s).to_json(v))


def dump_python(s, v):
    if symbolic():
        return s["serialization"]["function"](v)
    from pydantic_core import SchemaSerializer
    return SchemaSerializer(s).to_python(v)


def load(s, data, json=True):
    """("value", x) or ("refused",)"""
    if symbolic():
        try:
            return ("value", run(s, data, json, True))
        except Refused:
            return ("refused",)
    import json as js

    from pydantic_core import SchemaValidator, ValidationError
    try:
        v = SchemaValidator(s)
        return ("value", v.validate_json(js.dumps(data)) if json else v.validate_python(data))
    except ValidationError:
        return ("refused",)


# ---- round trips
def code_round(tp, x):
    s = schema_of(tp)
    j = dump(s, x)
    emit("json", j)
    r = load(s, j)
    emit("read", r[0], len(r) == 2 and r[1] == x, len(r) == 2 and type(r[1]) is type(x))
    r = load(s, dump_python(s, x), False)
    emit("read again", r[0], len(r) == 2 and r[1] == x)
    r = load(s, x, False)
    emit("a value is accepted as it is", r[0], len(r) == 2 and r[1] is x)


def spec_round(j):
    emit("json", j)
    emit("read", "value", True, True)
    emit("read again", "value", True)
    emit("a value is accepted as it is", "value", True)


def r(name, tp, args, make, form):
    """make: the value; form: its JSON form"""
    c(f"round trip of {name}", args, lambda *a: code_round(tp, make(*a)), lambda *a: spec_round(form(*a)))


r("Option[int]: Some", Option[int], dict(x=Int), Some, lambda x: x)
r("Option[int]: Nothing", Option[int], dict(), lambda: Nothing, lambda: None)
r("Option[str]", Option[str], dict(x=ConstT("", "a", "null")), Some, lambda x: x)
r("Option[Item]", Option[Item], dict(x=Int), lambda x: Some(Item(x)), lambda x: {"z": x})
r("Option[Doc]", Option[Doc], dict(x=Int), lambda x: Some(Doc(x)), lambda x: {"z": x})
r("Result[Doc, Doc]: Ok", Result[Doc, Doc], dict(x=Int), lambda x: Ok(Doc(x)), lambda x: {"tag": "ok", "ok": {"z": x}})
r("Result[Doc, Doc]: Error", Result[Doc, Doc], dict(x=Int), lambda x: Error(Doc(x)), lambda x: {"tag": "error", "error": {"z": x}})
r("Block[Doc]", Block[Doc], dict(x=Int, y=Int), lambda x, y: Block([Doc(x), Doc(y)]), lambda x, y: [{"z": x}, {"z": y}])
r("Option", Option, dict(x=Int), Some, lambda x: x)
r("Option: Nothing", Option, dict(), lambda: Nothing, lambda: None)
r("Option[Option[int]]", Option[Option[int]], dict(x=Int), lambda x: Some(Some(x)), lambda x: x)
r("Result[int, str]: Ok", Result[int, str], dict(x=Int), Ok, lambda x: {"tag": "ok", "ok": x})
r("Result[int, str]: Error", Result[int, str], dict(x=ConstT("", "a")), Error, lambda x: {"tag": "error", "error": x})
r("Result[int, int]: Ok", Result[int, int], dict(x=Int), Ok, lambda x: {"tag": "ok", "ok": x})
r("Result[int, int]: Error", Result[int, int], dict(x=Int), Error, lambda x: {"tag": "error", "error": x})
r("Result[Item, int]", Result[Item, int], dict(x=Int), lambda x: Ok(Item(x)), lambda x: {"tag": "ok", "ok": {"z": x}})
r("Result[int, Item]", Result[int, Item], dict(x=Int), lambda x: Error(Item(x)), lambda x: {"tag": "error", "error": {"z": x}})
r("Result: Ok", Result, dict(x=Int), Ok, lambda x: {"tag": "ok", "ok": x})
r("Result: Error", Result, dict(x=Int), Error, lambda x: {"tag": "error", "error": x})
r("Result[Option[int], str]: Some", Result[Option[int], str], dict(x=Int), lambda x: Ok(Some(x)), lambda x: {"tag": "ok", "ok": x})
r("Result[Option[int], str]: Nothing", Result[Option[int], str], dict(), lambda: Ok(Nothing), lambda: {"tag": "ok", "ok": None})
r("Option[Result[int, str]]: Ok", Option[Result[int, str]], dict(x=Int), lambda x: Some(Ok(x)), lambda x: {"tag": "ok", "ok": x})
r("Option[Result[int, str]]: Error", Option[Result[int, str]], dict(), lambda: Some(Error("e")), lambda: {"tag": "error", "error": "e"})
r("Block[int]", Block[int], dict(xs=SeqT(Int)), Block, list)
r("Block", Block, dict(xs=SeqT(Int)), Block, list)
r("Block[Item]", Block[Item], dict(x=Int, y=Int), lambda x, y: Block([Item(x), Item(y)]), lambda x, y: [{"z": x}, {"z": y}])
r("Block[Option[int]]", Block[Option[int]], dict(x=Int), lambda x: Block([Some(x), Nothing]), lambda x: [x, None])
r("Option[Block[int]]", Option[Block[int]], dict(xs=SeqT(Int)), lambda xs: Some(Block(xs)), list)
r("Result[Block[int], str]", Result[Block[int], str], dict(xs=SeqT(Int)), lambda xs: Ok(Block(xs)), lambda xs: {"tag": "ok", "ok": list(xs)})


SCALAR = OneOf(Int, ConstT(None), ConstT(True, False), ConstT("", "a"))
SOME = OneOf(Int, ConstT(True, False), ConstT("", "a"))
NUM = OneOf(Int, ConstT(None))
r("Option of a scalar", Option, dict(x=SOME), Some, lambda x: x)
r("Option of a list", Option, dict(x=Int, y=SCALAR), lambda x, y: Some([x, y]), lambda x, y: [x, y])
r("Result of a scalar: Ok", Result, dict(x=SCALAR), Ok, lambda x: {"tag": "ok", "ok": x})
r("Result of a scalar: Error", Result, dict(x=SCALAR), Error, lambda x: {"tag": "error", "error": x})
r("Result of a list", Result, dict(x=SCALAR, y=SCALAR), lambda x, y: Ok([x, y]), lambda x, y: {"tag": "ok", "ok": [x, y]})
r("Result[int or None, int or None]: Ok", Result[Optional[int], Optional[int]], dict(x=NUM), Ok, lambda x: {"tag": "ok", "ok": x})
r("Result[int or None, int or None]: Error", Result[Optional[int], Optional[int]], dict(x=NUM), Error, lambda x: {"tag": "error", "error": x})
r("Block of scalars", Block, dict(x=SCALAR, y=SCALAR, z=SCALAR), lambda x, y, z: Block([x, y, z]), lambda x, y, z: [x, y, z])
r("Block[int or None]", Block[Optional[int]], dict(x=NUM, y=NUM), lambda x, y: Block([x, y]), lambda x, y: [x, y])
r("Block[int or None] of any length", Block[Optional[int]], dict(xs=SeqT(Int)), Block, list)
r("Block[Result[int, str]]", Block[Result[int, str]], dict(x=Int), lambda x: Block([Ok(x), Error("e")]), lambda x: [{"tag": "ok", "ok": x}, {"tag": "error", "error": "e"}])
r("Block[Block[int]]", Block[Block[int]], dict(x=Int), lambda x: Block([Block([x]), Block()]), lambda x: [[x], []])


# ---- data that does not fit
def code_bad(tp, data):
    emit("json", load(schema_of(tp), data))


def bad(name, tp, args, make):
    c(f"refused: {name}", args, lambda *a: code_bad(tp, make(*a)), lambda *a: emit("json", ("refused",)))


bad("Option[int] of a string", Option[int], dict(x=ConstT("", "a")), lambda x: x)
bad("Option[int] of a list", Option[int], dict(x=Int), lambda x: [x])
bad("Option[Item] of an int", Option[Item], dict(x=Int), lambda x: x)
bad("Option[Option[int]] of a string", Option[Option[int]], dict(), lambda: "a")
bad("Result of an int", Result[int, str], dict(x=Int), lambda x: x)
bad("Result of null", Result[int, str], dict(), lambda: None)
bad("Result without a tag", Result[int, str], dict(x=Int), lambda x: {"ok": x})
bad("Result without a payload", Result[int, str], dict(x=ConstT("ok", "error")), lambda x: {"tag": x})
bad("Result with an unknown tag", Result[int, str], dict(x=Int), lambda x: {"tag": "none", "ok": x})
bad("Result with the other tag", Result[int, str], dict(x=Int), lambda x: {"tag": "error", "ok": x})
bad("Result with the other tag: error", Result[int, str], dict(), lambda: {"tag": "ok", "error": "a"})
bad("Result[int, str] with a wrong payload", Result[int, str], dict(), lambda: {"tag": "ok", "ok": "a"})
bad("Result[int, str] with a wrong error", Result[int, str], dict(x=Int), lambda x: {"tag": "error", "error": x})
bad("Block[int] of an int", Block[int], dict(x=Int), lambda x: x)
bad("Block[int] of null", Block[int], dict(), lambda: None)
bad("Block[int] with a wrong item", Block[int], dict(x=Int), lambda x: [x, "a"])
bad("Block[Option[int]] with a wrong item", Block[Option[int]], dict(x=Int), lambda x: [x, None, "a"])
