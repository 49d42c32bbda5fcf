"""Shared context of the rules, findings and evidence."""
import os, json, time, sys
from . import facts as factsmod
from .facts import Broken, strip_targs, VERIF, REPO


class Finding:
    def __init__(self, rule, construct, msg, file="", line=0):
        self.rule, self.construct, self.msg, self.file, self.line = rule, construct, msg, file, line

    def key(self):
        return "%s|%s" % (self.rule, self.construct)

    def __repr__(self):
        return "%s: %s%s" % (self.key(), ("%s:%s: " % (self.file, self.line)) if self.file else "", self.msg)


class Ctx:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.findings = []
        self.cov = {"functions_analysed": 0, "obligations": 0, "discharged": 0, "samples": [], "rules": []}
        self.fnset = set()
        self._cxx = {}
        self._py = None
        self.notes = {}

    # -- facts
    def cxx(self, sel=None, exports=False):
        k = (getattr(sel, "__name__", str(sel)), exports)
        if k not in self._cxx:
            self._cxx[k] = factsmod.load(sel, exports)
        return self._cxx[k]

    def py(self):
        if self._py is None:
            from . import pyfacts
            self._py = pyfacts.load()
        return self._py

    # -- results
    def rule(self, text):
        self.cov["rules"].append(text)

    def ob(self, ok, rule, construct, msg, file="", line=0, sample=None):
        """One obligation: decided on a specific construct. None: its form is not understood, nothing is concluded."""
        if ok is None:
            self.cov["undecided"] = self.cov.get("undecided", 0) + 1
            if os.environ.get("FV_NONE"):
                open(os.environ["FV_NONE"], "a").write("%s|%s|%s\n" % (rule, construct, msg))
            return
        self.cov["obligations"] += 1
        if ok:
            self.cov["discharged"] += 1
            if sample is not False and len(self.cov["samples"]) < 12:
                self.cov["samples"].append("%s %s%s" % (rule, construct, (" (%s:%s)" % (file, line)) if file else ""))
        else:
            f = Finding(rule, construct, msg, file, line)
            if f.key() not in {g.key() for g in self.findings}:
                self.findings.append(f)

    def fail(self, *a, **k):
        self.ob(False, *a, **k)

    def visited(self, E):
        self.fnset |= E.visited

    def need(self, n, at_least, what):
        """A rule that matches (almost) nothing is a broken analysis, not a pass."""
        self.cov.setdefault("instances", {})[what] = n
        if n < at_least:
            raise Broken("%s: only %d instances of %s found (expected at least %d): the analysis lost its anchors" % (self.prop, n, what, at_least))
