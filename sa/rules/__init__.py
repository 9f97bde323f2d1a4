"""all rules, by property"""
import importlib
import os

RULES, TEXT = {}, {}
ASSUME = [
    "the analysed program is what the project's own Makefile compiles (units and flags taken from make -n, generated parsers regenerated)",
    "virtual calls resolve to the overriders visible in those units; calls through function pointers are matched by registration sites",
    "value provenance is path-insensitive except where a rule consults branch conditions; library numerics (sla, MatrixUtils) are taken as vocabulary",
]
for _f in sorted(os.listdir(os.path.dirname(__file__))):
    if _f.endswith(".py") and _f not in ("__init__.py", "common.py"):
        _m = importlib.import_module("rules." + _f[:-3])
        for _k, _v in getattr(_m, "RULES", {}).items():
            RULES.setdefault(_k, []).extend(_v)
        TEXT.update(getattr(_m, "TEXT", {}))
