"""Build every harness and every application once, to warm the cache."""
import os, sys
D = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, D)
import build
from props import PROPS
for p in sorted(PROPS):
    for h in PROPS[p]["harness"]:
        for app in h.get("apps", []):
            with build.Builder(h.get("app_flavor", "fast")) as b:
                b.app(app)
        with build.Builder(h.get("flavor", "asan")) as b:
            b.harness(h["name"], ["vf.cpp"] + h["sources"], extra=h.get("extra", []), ldextra=h.get("ldextra", []),
                      utils=h.get("utils", False), repo=h.get("repo", []))
print("setup done")
