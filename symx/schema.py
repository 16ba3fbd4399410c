"""JSON-Schema keywords over symbolic instances (the subset the stage 2 schema uses)."""
import json as _json

from .core import SymBool, SymInt
from . import rt

KNOWN = {"$schema", "title", "description", "type", "properties", "required", "items", "anyOf", "enum", "minimum",
         "maximum", "minItems", "maxItems", "additionalProperties", "const", "allOf", "oneOf", "minLength", "maxLength"}


def _type(x, t):
    if isinstance(t, list):
        return any(_type(x, y) for y in t)
    if isinstance(x, (SymBool, bool)):
        return t == "boolean"
    if isinstance(x, (SymInt, int)):
        return t in ("integer", "number")
    return {"object": isinstance(x, dict), "array": isinstance(x, list), "string": isinstance(x, str),
            "number": isinstance(x, float), "integer": isinstance(x, float) and x.is_integer(),
            "null": x is None, "boolean": False}[t]


def ok(x, s):
    if s is True or s is False:
        return s
    if set(s) - KNOWN:
        raise NotImplementedError(sorted(set(s) - KNOWN))
    if "type" in s and not _type(x, s["type"]):
        return False
    if "const" in s and not rt.eq(x, s["const"]):
        return False
    if "enum" in s and not any(rt.eq(x, y) for y in s["enum"]):
        return False
    num = isinstance(x, (int, float, SymInt)) and not isinstance(x, bool)
    if "minimum" in s and num and not x >= s["minimum"]:
        return False
    if "maximum" in s and num and not x <= s["maximum"]:
        return False
    if isinstance(x, str):
        if len(x) < s.get("minLength", 0) or len(x) > s.get("maxLength", len(x)):
            return False
    if isinstance(x, list):
        if len(x) < s.get("minItems", 0) or len(x) > s.get("maxItems", len(x)):
            return False
        if "items" in s and not all(ok(y, s["items"]) for y in x):
            return False
    if isinstance(x, dict):
        props = s.get("properties", {})
        for r in s.get("required", []):
            if rt.dkey(x, r) is rt._absent:
                return False
        for k, v in x.items():
            kk = rt.dkey(props, k)
            if kk is not rt._absent:
                if not ok(v, props[kk]):
                    return False
            elif "additionalProperties" in s and not ok(v, s["additionalProperties"]):
                return False
    if "anyOf" in s and not any(ok(x, y) for y in s["anyOf"]):
        return False
    if "allOf" in s and not all(ok(x, y) for y in s["allOf"]):
        return False
    if "oneOf" in s and sum(1 for y in s["oneOf"] if ok(x, y)) != 1:
        return False
    return True


def validate(instance, schema):
    import jsonschema
    try:
        r = ok(instance, schema)
    except NotImplementedError:
        return jsonschema.validate(rt.concretize(instance), schema)
    if not r:
        raise jsonschema.ValidationError("instance does not conform to the schema")
