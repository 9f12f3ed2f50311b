"""The schema constructors of pydantic_core that the verifier knows: descriptions of a validator, read by contracts/c23.py."""
from pv.prelude import _unsupported


def any_schema(**k):
    return {"type": "any", **k}


def none_schema(**k):
    return {"type": "none", **k}


def int_schema(**k):
    return {"type": "int", **k}


def str_schema(**k):
    return {"type": "str", **k}


def bool_schema(**k):
    return {"type": "bool", **k}


def literal_schema(expected, **k):
    return {"type": "literal", "expected": expected, **k}


def is_instance_schema(cls, **k):
    return {"type": "is-instance", "cls": cls, **k}


def nullable_schema(schema, **k):
    return {"type": "nullable", "schema": schema, **k}


def list_schema(items_schema=None, **k):
    return {"type": "list", "items_schema": items_schema, **k}


def union_schema(choices, **k):
    return {"type": "union", "choices": choices, **k}


def tagged_union_schema(choices, discriminator, **k):
    return {"type": "tagged-union", "choices": choices, "discriminator": discriminator, **k}


def chain_schema(steps, **k):
    return {"type": "chain", "steps": steps, **k}


def typed_dict_field(schema, **k):
    return {"type": "typed-dict-field", "schema": schema, **k}


def typed_dict_schema(fields, **k):
    return {"type": "typed-dict", "fields": fields, **k}


def no_info_plain_validator_function(function, **k):
    return {"type": "function-plain", "function": function, **k}


def no_info_wrap_validator_function(function, schema, **k):
    return {"type": "function-wrap", "function": function, "schema": schema, **k}


def no_info_before_validator_function(function, schema, **k):
    return {"type": "function-before", "function": function, "schema": schema, **k}


def no_info_after_validator_function(function, schema, **k):
    return {"type": "function-after", "function": function, "schema": schema, **k}


def json_or_python_schema(json_schema, python_schema, **k):
    return {"type": "json-or-python", "json_schema": json_schema, "python_schema": python_schema, **k}


def plain_serializer_function_ser_schema(function, **k):
    return {"type": "function-plain", "function": function, **k}


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    def unknown(*a, **k):
        _unsupported("pydantic_core.core_schema constructor")
    return unknown
