#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides property ID for /repo's current working tree."""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)

from engine import build_ir
from engine.build_ir import AnalysisBroken
from engine.ir import Program
from engine.rule import Ctx


def known(pid):
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key.strip()] = text.strip()
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    table = json.load(open(os.path.join(HERE, "rules", "table.json")))
    if pid not in table:
        print("unknown property " + pid)
        return 2
    ent = table[pid]
    work = tempfile.mkdtemp(prefix="maike-verif-")
    undecided = []
    try:
        prog = None
        units = 0
        if ent.get("ir", True):
            js = os.environ.get("MAIKE_IR_JSON")
            if js:
                units = len(build_ir.program_units())
            else:
                js, units = build_ir.build(work)
            prog = Program(js, units)
        ctx = Ctx(prog, build_ir.REPO, tier)
        for part in ent["parts"]:
            mod, fun = part[0].split(".")
            n = len(ctx.findings)
            ctx.truncated = None
            try:
                getattr(importlib.import_module("rules." + mod), fun)(ctx)
            except AnalysisBroken as e:
                undecided.append("%s: %s" % (part[0], e))
            if len(part) > 1:       # this rule serves several properties: keep what belongs to this one
                ctx.findings[n:] = [f for f in ctx.findings[n:] if f.key.split("/")[-1] in part[1]]
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for u in undecided:
        print("UNDECIDED property=%s %s" % (pid, u))
    if undecided and not ctx.findings and len(undecided) * 2 > len(ent["parts"]):
        print("ANALYSIS-BROKEN property=%s %d of %d rules could not be decided" % (pid, len(undecided), len(ent["parts"])))
        return 3

    kf = known(pid)
    new, old = [], []
    for f in ctx.findings:
        (old if f.key in kf else new).append(f)
    n_ob = len(ctx.obligations)
    if n_ob < ent.get("min_obligations", 1) and not undecided and not ctx.findings:
        print("ANALYSIS-BROKEN property=%s only %d obligations, expected at least %d" % (pid, n_ob, ent.get("min_obligations", 1)))
        return 3
    samples = sorted({n for n, _ in ctx.obligations})[:12]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": ent.get("level", "other"),
        "coverage": {
            "explanation": ent["rule"],
            "rule": ent["rule"],
            "translation_units": units,
            "program_functions": len(prog.repo_funcs()) if prog else 0,
            "functions_analysed": len(ctx.functions),
            "call_sites_resolved": len(ctx.callsites),
            "abstract_states": ctx.states,
            "abstract_steps": ctx.steps,
            "obligations": n_ob,
            "discharged": sum(1 for _, ok in ctx.obligations if ok),
            "samples": samples,
            "functions": sorted(x[:160] for x in ctx.functions)[:40],
            "rules": [p[0] for p in ent["parts"]],
            "undecided": undecided,
            "notes": ctx.notes[:40],
        },
        "assumptions": ent.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for f in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, f.where, kf[f.key]))
    if new:
        rp = os.path.join(HERE, "evidence", pid + ".report.txt")
        with open(rp, "w") as fh:
            for f in new:
                fh.write("%s\n  rule instance: %s\n  %s\n" % (f.where, f.key, f.msg))
        for f in new[:20]:
            print("%s: %s [%s]" % (f.where, f.msg, f.key))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d states=%d (%.1fs)" % (pid, n_ob, len(ctx.functions), ctx.states, time.time() - t0))
    return 0


sys.exit(main())
