#!/usr/bin/env python3
"""C01: selection of checks.  Behaviours of spec/Selection.tla replayed into plugin and standalone tool; random
requests over the whole registry recorded from the real tools and validated by spec/TraceSelection.tla."""
import json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, tlc

INVS = "InvResult InvDisabled InvSortedUnique InvManual InvNothingUnasked InvReported InvErrors InvNotFound"
SAID = re.compile(r"^(Invalid level|Invalid check to disable|Invalid check): ?(.*)$", re.M)


def env_of(req):
    if req["all"]:
        return {"CLAZY_CHECKS": "all_checks"}
    if req["env"]:
        return {"CLAZY_CHECKS": ",".join(req["env"])}
    return {}


def observe_plugin(req, src, order=0, quote=False, extra=()):
    args = []
    if req["level"]:
        args.append(req["level"])
    if req["hasList"]:
        args.insert(order % (len(args) + 1), ",".join(req["list"]))
    if req["extra"]:
        args.append("superfluous")
    env = env_of(req)
    if quote and env:
        env["CLAZY_CHECKS"] = '"' + env["CLAZY_CHECKS"] + '"'
    pos = order // 2 % (len(args) + 1)
    args.insert(pos, "print-requested-checks")
    r = clz.plugin(src, args, env=env, stubs=False, flags=extra)
    return digest_plugin(r), r


def digest_plugin(r):
    said = sorted({(a, b) for a, b in SAID.findall(r.err)})
    if "Too many arguments: " in r.err:
        return dict(outcome="toomany", result=[], said=said, rc=r.rc != 0)
    if "Could not find checks in comma separated string" in r.err:
        return dict(outcome="notfound", result=[], said=said, rc=r.rc != 0)
    m = re.search(r"^Requested checks: (.*)$", r.err, re.M)
    if not m:
        return dict(outcome="crash", result=[], said=said, rc=r.rc)
    res = m.group(1).split(", ") if m.group(1) else []
    return dict(outcome="ok", result=res, said=said, rc=r.rc != 0)


def observe_standalone(req, src):
    if req["extra"] or (req["level"] and req["hasList"]):
        return None, None
    val = req["level"] or ",".join(req["list"])
    opts = ["-list-checks"] + (["-checks=" + val] if val else [])
    r = clz.standalone(src, opts, env=env_of(req), stubs=False)
    said = sorted({(a, b) for a, b in SAID.findall(r.err)})
    if r.rc != 0:
        return dict(outcome="crash", result=[], said=said, rc=r.rc), r
    if not r.out.startswith("Enabled checks:"):
        return dict(outcome="notfound", result=[], said=said, rc=True), r
    return dict(outcome="ok", result=[l.strip() for l in r.out.splitlines()[1:]], said=said, rc=False), r


def standalone_view(req):
    """What the standalone tool asks for: without a list it asks for level1."""
    if not req["level"] and not req["hasList"] or req["hasList"] and req["list"] in ([], [""]):
        return {**req, "level": "level1", "hasList": False, "list": []}
    return req


def norm(o):
    return (o["outcome"], tuple(o["result"]) if o["outcome"] == "ok" else (),
            tuple(map(tuple, o["said"])) if o["outcome"] != "toomany" else ())


def body(ctx):
    reg = clz.registry()
    names = sorted(reg)
    fixes = sorted("fix-" + f for v in reg.values() for f in v[1])
    rows = [dict(name=n, level=reg[n][0], fixits=["fix-" + f for f in reg[n][1]]) for n in names]
    rng = ctx.rng
    with clz.Scratch() as d:
        regp, parp, trp = (os.path.join(d, x) for x in ("reg.json", "par.json", "trace.ndjson"))
        json.dump(rows, open(regp, "w"))
        src = os.path.join(d, "empty.cpp")
        open(src, "w").write("int x;\n")
        lv = {l: [n for n in names if reg[n][0] == l] for l in (0, 1, 2, 3)}
        pick = lambda l: rng.choice(lv[l])
        a, b, c, m = pick(0), pick(1), pick(2), pick(3)
        fx = rng.choice(fixes)
        owner = [n for n in names if fx in ["fix-" + f for f in reg[n][1]]][0]
        toks = [a, b, m, fx, "level0", "level2", "level3", "no-" + a, "no-" + owner, "no-" + fx, "bogus-check", "no-level1"]
        if not ctx.thorough:
            toks = toks
        envtoks = [a, c, m, "level0", "level1", "no-" + a, "no-" + b, "bogus"]
        json.dump(dict(toks=toks, envtoks=envtoks, maxlist=2, maxenv=2, deep=3), open(parp, "w"))
        cfg = "SPECIFICATION Spec\nINVARIANTS %s Emit\n" % INVS
        r = tlc.run("MCSelection", cfg, env=dict(REGISTRY=regp, PARAMS=parp), timeout=600)
        ctx.model(r, "MCSelection")
        ctx.exhaustive = False
        recs = sorted(r.records, key=lambda x: json.dumps(x["req"], sort_keys=True))
        byreq = {json.dumps(x["req"], sort_keys=True): x for x in recs}
        cap = len(recs) if ctx.thorough else 2600
        # every list of up to two items, every environment; a seeded sample of the deep lists
        short = [x for x in recs if len(x["req"]["list"]) <= 2]
        deep = [x for x in recs if len(x["req"]["list"]) > 2]
        rng.shuffle(deep)
        rng.shuffle(short)
        todo = short[:cap] + deep[:max(0, cap - len(short)) if ctx.thorough else 900]
        bad = []

        def one(ix):
            i, rec = ix
            out = []
            exp = dict(outcome=rec["outcome"], result=rec["result"], said=rec["said"])
            o, _ = observe_plugin(rec["req"], src, order=i, quote=(i % 5 == 0 and not rec["req"]["all"]))
            exp["said"] = sorted(map(tuple, exp["said"]))
            if norm(o) != norm(exp):
                o2, run = observe_plugin(rec["req"], src, order=i, quote=(i % 5 == 0 and not rec["req"]["all"]))
                if norm(o2) != norm(exp):
                    out.append(("plugin", rec["req"], exp, o2, run.cmd))
            if i % 2 == 0:
                view = standalone_view(rec["req"])
                want = byreq.get(json.dumps(view, sort_keys=True))
                so, _ = observe_standalone(rec["req"], src)
                if so and want:
                    e2 = dict(outcome=want["outcome"], result=want["result"], said=sorted(map(tuple, want["said"])))
                    if e2["outcome"] == "ok" and not e2["result"]:
                        e2["outcome"] = "notfound"
                    if norm(so) != norm(e2):
                        so2, run = observe_standalone(rec["req"], src)
                        if norm(so2) != norm(e2):
                            out.append(("standalone", rec["req"], e2, so2, run.cmd))
            return out

        res = clz.pmap(one, enumerate(todo))
        for x in res:
            bad += x
        ctx.validated += len(todo)
        for rec in todo[:2]:
            ctx.sample(dict(kind="replayed request", req=rec["req"], outcome=rec["outcome"], n_result=len(rec["result"]), said=rec["said"]))

        # every documented check name and fix-it name alone, and disabled from the highest set
        singles = []
        B = dict(level="", hasList=False, list=[], extra=False, env=[], all=False)
        for n in names:
            singles.append({**B, "hasList": True, "list": [n]})
            singles.append({**B, "env": [n]})
            singles.append({**B, "level": "level2", "hasList": True, "list": [n, "no-" + rng.choice(names)]})
            singles.append({**B, "hasList": True, "list": ["no-" + n, "level2"]})
            singles.append({**B, "all": True, "hasList": True, "list": ["no-" + n]})
        for f in fixes:
            singles.append({**B, "hasList": True, "list": [f]})
            singles.append({**B, "env": [f]})
            singles.append({**B, "hasList": True, "list": ["no-" + f]})
        odd = ["", "level", "level-1", "level10", "levels", "level:", "level/", "Level1", "level0 ", " level0", "no-", "no", "fix-", "fix-" + names[0], names[0] + "x",
               names[0][:-1], names[0].upper(), "no-no-" + names[0], "clazy-" + names[0], "all_checks", "level00", "level9", "-1", "no-all_checks", "*", names[0] + " "]
        for t in odd:
            singles.append({**B, "hasList": True, "list": [t, names[5]]})
            singles.append({**B, "hasList": True, "list": [t]} if t else {**B, "hasList": True, "list": []})
            if t and t != "all_checks":
                singles.append({**B, "env": [t]})
        pool = names + fixes + ["no-" + n for n in names] + ["level0", "level1", "level2"] * 12 + odd[1:] * 2
        n = 2500 if ctx.thorough else 500
        for _ in range(n):
            k = rng.choice([1, 2, 3, 4, 6, 9])
            ek = rng.choice([0, 0, 1, 2, 3, 6])
            env = [rng.choice(pool) for _ in range(ek)]
            if env == ["all_checks"]:
                env = []
            singles.append({**B, "level": rng.choice(["", "", "", "level0", "level1", "level2"]), "hasList": rng.random() < .8,
                            "list": [rng.choice(pool) for _ in range(k)], "env": env,
                            "all": False})
            if not singles[-1]["hasList"]:
                singles[-1]["list"] = []
            elif len(singles[-1]["list"]) == 1 and singles[-1]["list"][0] in ("level0", "level1", "level2"):
                singles[-1].update(level=singles[-1]["list"][0], hasList=False, list=[])
        rec = []

        def record(ix):
            i, q = ix
            o, run = observe_plugin(q, src, order=i)
            out = [("plugin", q, q, o, run.cmd)]
            if i % 3 == 0 and not q["hasList"] or i % 3 == 0 and not q["level"]:
                so, run = observe_standalone(q, src)
                if so:
                    out.append(("standalone", q, standalone_view(q), so, run.cmd))
            return out
        for x in clz.pmap(record, enumerate(singles)):
            rec += x
        validate(ctx, d, regp, trp, rec, bad)
        ctx.count("random_requests_recorded", len(singles))

        # binding demonstration: a corrupted observation must be rejected by the trace specification
        q = {**B, "hasList": True, "list": ["level0", "no-" + lv[0][0]]}
        o, run = observe_plugin(q, src)
        o["result"] = o["result"][1:]
        probe = []
        validate(ctx, d, regp, trp, [("plugin", q, q, o, run.cmd)], probe, count=False)
        if not probe:
            raise tlc.ModelError("the trace specification accepts a corrupted observation")
        ctx.extra["corrupted_observation_rejected"] = True
        effective(ctx, d, reg, bad)
    for fe, q, exp, got, cmd in bad:
        ctx.violation("%s:%s" % (fe, json.dumps(q, sort_keys=True).replace(" ", "")),
                      "%s: request %s: expected %s, got %s" % (fe, q, short_(exp), short_(got)),
                      dict(cmd=cmd, env=env_of(q), expected=exp, observed=got))


def short_(o):
    o = dict(o)
    if len(o.get("result", [])) > 12:
        o["result"] = o["result"][:12] + ["...%d" % len(o["result"])]
    return o


def effective(ctx, d, reg, bad):
    """What is selected is what runs: a probe source triggers checks of every level; the warnings that appear are
    exactly those of the selected checks."""
    import triggers
    src = os.path.join(d, "probe.cpp")
    trig = triggers.write_probe(src)
    base = clz.plugin(src, [",".join(sorted(reg))])
    live = sorted({x.check for x in base.diags if x.check})
    ctx.extra["probe_checks"] = len(live)
    if len(live) < 10:
        raise tlc.ModelError("the probe triggers only %d checks\n%s" % (len(live), base.err[:2000]))
    rng = ctx.rng
    regp, trp = os.path.join(d, "reg.json"), os.path.join(d, "eff.ndjson")
    reqs = []
    B = dict(level="", hasList=False, list=[], extra=False, env=[], all=False)
    for l in ("level0", "level1", "level2"):
        reqs.append({**B, "level": l})
    reqs += [B, {**B, "all": True}]
    for _ in range(200 if ctx.thorough else 60):
        reqs.append({**B, "level": rng.choice(["", "", "level0", "level1", "level2"]), "hasList": True,
                     "list": [rng.choice(["", "", "no-"]) + rng.choice(live) for _ in range(rng.choice([1, 2, 4]))] ,
                     "env": [rng.choice(["", "", "no-"]) + rng.choice(live) for _ in range(rng.choice([0, 1, 2]))]})

    def one(q):
        o, _ = observe_plugin(q, os.path.join(d, "empty.cpp"))
        args = ([q["level"]] if q["level"] else []) + ([",".join(q["list"])] if q["hasList"] else [])
        r = clz.plugin(src, args, env=env_of(q))
        ran = sorted({x.check for x in r.diags if x.check})
        if o["outcome"] != "ok":
            return None
        exp = sorted(set(o["result"]) & set(live))
        if exp != ran:
            return ("plugin-run", q, dict(result=exp), dict(result=ran), r.cmd)
        if not (q["level"] and q["hasList"]):
            v = q["level"] or ",".join(q["list"]) or "level1"
            s = clz.standalone(src, ["-checks=" + v], env=env_of(q))
            so, _ = observe_standalone(q, os.path.join(d, "empty.cpp"))
            ran = sorted({x.check for x in s.diags if x.check})
            exp = sorted(set(so["result"]) & set(live))
            if exp != ran:
                return ("standalone-run", q, dict(result=exp), dict(result=ran), s.cmd)
        return None
    for x in clz.pmap(one, reqs):
        if x:
            again = one(x[1])
            if again:
                bad.append(again)
    ctx.validated += len(reqs)
    ctx.count("effective_runs", len(reqs))


def validate(ctx, d, regp, trp, rec, bad, count=True):
    """Checks recorded observations with TLC; after a rejection goes on behind it."""
    start, rejected = 0, 0
    while start < len(rec):
        rows = []
        for fe, q, view, o, cmd in rec[start:]:
            out = o["outcome"]
            rows.append(dict(req=view, outcome=out, result=o["result"], said=[list(x) for x in o["said"]]))
        tlc.write_ndjson(trp, rows)
        cfg = "SPECIFICATION TSpec\nCONSTRAINT Progress\nPOSTCONDITION Accepted\n"
        r = tlc.run("TraceSelection", cfg, env=dict(REGISTRY=regp, TRACE=trp), workers=1, timeout=600)
        if count:
            ctx.model(r, "TraceSelection")
        c = r.records[-1]["consumed"]
        if count:
            ctx.validated += c
        if c >= len(rows):
            return
        bad.append((rec[start + c][0], rec[start + c][1], dict(outcome="rejected by TraceSelection"), rec[start + c][3], rec[start + c][4]))
        rejected += 1
        if rejected >= 5:
            return
        start += c + 1


if __name__ == "__main__":
    common.main("C01", body)
