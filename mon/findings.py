"""Known findings: genuine defects recorded rather than repaired.

The list lives in /verif/known_findings.json; each entry names the property,
the subject, the kind of violation (tag) and a condition on the input that
identifies the mechanism.  Matching is by that mechanism only.
"""
import json
import os

_HERE = os.path.dirname(os.path.abspath(__file__))
PATH = os.path.join(_HERE, "..", "known_findings.json")
_cache = None


def load():
    global _cache
    if _cache is None:
        try:
            with open(PATH) as fh:
                _cache = json.load(fh)
        except FileNotFoundError:
            _cache = {"known": [], "fixed": []}
    return _cache


def match(prop, subject, tag, case, msg):
    for e in load()["known"]:
        if e["property"] != prop or e["subject"] != subject:
            continue
        if e.get("tag") and e["tag"] != tag:
            continue
        cond = e.get("condition")
        if cond:
            try:
                env = {k: v for k, v in case.items()}
                env["case"] = case
                if not eval(cond, {"__builtins__": {"abs": abs, "float": float, "int": int, "len": len,
                                                    "min": min, "max": max, "any": any, "all": all,
                                                    "sum": sum, "set": set}}, env):
                    continue
            except Exception:
                continue
        return e["id"]
    return None


def describe(fid):
    for e in load()["known"]:
        if e["id"] == fid:
            return e["what"]
    return fid
