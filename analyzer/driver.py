"""Runs one property's check: obligations of the reference model, structural rules; writes evidence."""
from __future__ import annotations
import fnmatch, hashlib, json, os, sys, time, threading, traceback
from .program import AnalysisBroken
from .catalog import PROPS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIZED = ("_minimum", "_er_capacity", "_recirc_capacity", "_eff_mix", "_avg_storage", "_sizing_strat")


def keep(kind, qual, d):
    """does this disagreement concern the property (kind: None, 'state', 'raises')?"""
    out = d.output
    if kind is None or out in ("signature", "operation", "*"):
        return kind is None or (kind == "raises" and out != "signature")
    if kind == "raises":
        return out == "raises"
    if kind == "state":
        if out == "raises" or out.startswith("return"):
            return False
        if qual.split(".")[-1] in ("size", "_size_er_element") and any(s in out for s in SIZED):
            return False
        return True
    return True


def known():
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    out.append(line[len("known:"):].strip())
    except FileNotFoundError:
        pass
    return out


def decide(pid, tier):
    from .refine import Model
    P = PROPS[pid]
    t0 = time.time()
    quick = tier == "quick"
    m = Model(per=40.0 if quick else 120.0, budget=420.0 if quick else 1500.0)
    sel = sorted({q for q in m.obs for pat in P["obs"] if fnmatch.fnmatchcase(q, pat)})
    findings, undecided, samples = [], [], []
    if P["obs"]:
        m.run(set(sel))
    stat = {}
    for q in sel:
        o = m.obs[q]
        key = "congruent" if o.how == "congruent" else o.status
        stat[key] = stat.get(key, 0) + 1
        if o.status == "different":
            ds = [d for d in o.diffs if d.verdict == "different" and keep(P.get("outputs"), q, d)]
            if ds:
                findings.append(dict(rule="model", construct=q, where=ds[0].where or (o.code.loc if o.code else ""),
                                     detail=[dict(output=d.output, code=str(d.code)[:1500], model=str(d.spec)[:1500]) for d in ds[:6]],
                                     how=o.how))
        elif o.status == "undecided":
            undecided.append(dict(operation=q, why=o.how, outputs=[d.output for d in o.diffs[:4]]))
        if len(samples) < 4 and o.code is not None and o.how != "abstract declaration":
            samples.append(dict(operation=q, where=o.code.loc, verdict=o.status, how=o.how))
    edited = [m.obs[q] for q in sel if m.obs[q].code is not None and m.obs[q].how not in ("congruent", "abstract declaration") and m.obs[q].status != "different"]
    if edited and P.get("outputs") is None:
        # caches are compared as if empty; one that is not a function of its key makes the result depend on earlier calls
        from .rules import effects
        try:
            E = effects(m)
            quals = {o.code.qual for o in m.obs.values() if o.code is not None}
            for o in edited:
                for (org, attr), (where, chain) in E.sum[id(o.code)].effects.items():
                    if org[0] in ("global", "memo") and (chain[-1] == o.code.qual or chain[-1] not in quals):
                        findings.append(dict(rule="hidden-state", construct=o.qual, where=where, how="effects",
                                             detail=[dict(output="hidden-state", code=f"modifies {'.'.join(org[1:])} via {' -> '.join(chain)}", model="the result depends on the receiver and the arguments only")]))
                        break
        except Exception as e:
            undecided.append(dict(operation="hidden-state", why=f"{type(e).__name__}: {e}", outputs=[]))
    rulestat = []
    from . import laws
    lawstat, lf = laws.check(m, pid)
    if P.get("outputs") is None:
        findings += lf
    undecided += [dict(operation="law " + x["law"], why="law not decided", outputs=[c for c, v in x["claims"].items() if v == "undecided"])
                  for x in lawstat if "undecided" in x["claims"].values()]
    m.lawstat = lawstat
    if P.get("rules"):
        from . import rules
        for r in P["rules"]:
            try:
                res = rules.RULES[r](m)
            except Exception as e:
                undecided.append(dict(operation="rule " + r, why=f"{type(e).__name__}: {e}", outputs=[traceback.format_exc(limit=-2)]))
                continue
            rulestat.append(dict(rule=r, text=res.text, instances=res.instances, samples=res.samples[:5]))
            if res.instances < res.floor:
                undecided.append(dict(operation="rule " + r, why=f"{res.instances} instances, expected at least {res.floor}", outputs=[]))
            for f in res.findings:
                findings.append(dict(rule=r, construct=f[0], where=f[1], detail=[dict(output=r, code=f[2], model=res.text)], how="rule"))
    return m, sel, findings, undecided, stat, samples, rulestat, time.time() - t0


def body(pid, tier, box):
    try:
        box.append(("ok", decide(pid, tier)))
    except AnalysisBroken as e:
        box.append(("broken", str(e)))
    except Exception:
        box.append(("error", traceback.format_exc()))


def main(pid, tier):
    import analyzer.refine as R
    box = []
    body(pid, tier, box)
    st, res = box[0]
    if st != "ok":
        print(f"ANALYSIS-BROKEN property={pid}: {res}")
        return 2
    m, sel, findings, undecided, stat, samples, rulestat, wall = res
    kn = known()
    new = []
    for f in findings:
        key = f"property={pid} {f['rule']} {f['construct']}"
        if any(k.startswith(key) for k in kn):
            print(f"KNOWN-FINDING: {key}")
        else:
            new.append(f)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    files = sorted({(m.obs[q].code.loc.rsplit(":", 1)[0]) for q in sel if m.obs[q].code is not None})
    cov = dict(
        explanation="Each operation named by the property is translated from /repo's current source into a value-dependence graph and compared, output by output "
                    "(returned value, every field written, condition and type of every raise), with the reference model in specs/ by algebraic normal form; an operation whose canonical "
                    "syntax tree is that of the model is equal given equal callees, which are obligations too. "
                    "Structural rules enumerate code sites. Laws are independent identities over public operations, proved from the current source without the model.",
        operations=len(sel), verdicts=stat, undecided=undecided, files=files, samples=samples,
        rules=rulestat, laws=m.lawstat)
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other", coverage=cov, wall_s=round(wall, 2), violations=len(new),
                       assumptions=["real arithmetic (no rounding), no aliasing between distinct parameters, integers and floats of the documented types",
                                    "library calls (numpy, csv, json, plotly) are deterministic functions of their arguments unless listed as effects",
                                    "an operation the comparison cannot decide is reported under `undecided` and raises no alarm"]), f, indent=1, default=str)
    for u in undecided:
        print(f"UNDECIDED property={pid} {u['operation']}: {u['why']} {u['outputs']}")
    if new:
        rp = os.path.join(ev, f"{pid}.replay.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, findings=new), f, indent=1, default=str)
        for x in new:
            d = x["detail"][0]
            print(f"{x['where']}: [{x['rule']}] {x['construct']}: {d['output']}\n    code : {str(d['code'])[:400]}\n    model: {str(d['model'])[:400]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} operations={len(sel)} {stat} rules={sum(r['instances'] for r in rulestat)} laws={sum(len(x['claims']) for x in m.lawstat)} ({wall:.1f}s)")
    return 0
