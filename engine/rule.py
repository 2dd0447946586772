"""Shared infrastructure of the rules: findings, coverage counters, source locations."""
from .build_ir import AnalysisBroken
from .ir import Program
from .absint import Machine, Throw, Stop, TOP, is_ptr, is_term


class Finding:
    def __init__(self, key, where, msg):
        self.key = key          # stable identification: function + construct, no line numbers
        self.where = where
        self.msg = msg

    def __repr__(self):
        return "%s: %s [%s]" % (self.where, self.msg, self.key)


class Ctx:
    """What one check run sees and reports."""

    def __init__(self, prog, repo, tier):
        self.prog = prog
        self.repo = repo
        self.tier = tier
        self.findings = []
        self.obligations = []       # (name, discharged)
        self.functions = set()
        self.callsites = set()
        self.states = 0
        self.steps = 0
        self.notes = []
        self.truncated = None       # an exploration that was given up: only violations found so far count

    def oblige(self, name, ok, where="", msg="", key=None):
        self.obligations.append((name, bool(ok)))
        if not ok:
            self.findings.append(Finding(key or name, where, msg or name))
        return ok

    def machine(self, **kw):
        return Machine(self.prog, **kw)

    def absorb(self, m):
        self.functions |= {self.prog.funcs[n].dn for n in m.functions if self.prog.funcs[n].in_repo}
        self.callsites |= m.callsites
        self.states += m.nstates
        self.steps += m.steps
        self.truncated = self.truncated or m.truncated

    def need(self, what, n, least):
        if n < least:
            raise AnalysisBroken("%s: %d instances, expected at least %d" % (what, n, least))


def floc(f):
    return "%s:%d" % (f.file, f.line)
