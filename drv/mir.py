"""Loads the MIR dump written by the exporter."""
import json


class Mir:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.types = j["types"]
        self.fns = j["fns"]
        self.roots = j["roots"]
        for m, f in self.fns.items():
            f["m"] = m
            f["def"] = norm(f["def"])
            f["name"] = norm(f["name"])
        for t in self.types:
            t["name"] = norm(t["name"])
            if "def" in t:
                t["def"] = norm(t["def"])
        self.by_name = {}
        for f in self.fns.values():
            self.by_name.setdefault(f["name"], f)
        self.by_ty = {}
        for i, t in enumerate(self.types):
            self.by_ty.setdefault(t["name"], i)

    def ty(self, name):
        return self.by_ty[name]


def norm(s):
    return (s.replace("shim::dendron::", "").replace("dendron::", "")
            .replace("shim::Opaque", "T").replace("Opaque", "T").replace("shim::", ""))
