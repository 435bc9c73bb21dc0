#!/usr/bin/env python3
"""C12: signals, slots and invokables.  Every class body of a few items (spec/Sections.tla) is written as C++, and what
clazy's dependent checks and both mocs say of it is compared; longer random ones are recorded and validated."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import clz, common, replay, sections, tlc


def rows_of(u, progs, got, by):
    rows = []
    for key, items, uses in progs:
        g = sorted(map(list, got.get(key, ())))
        rows.append(dict(items=items, uses=uses if by == "clazy" else [], got=g, owners=sorted({x[0] for x in g}), by=by))
    return rows


def body(ctx):
    rng, t = ctx.rng, ctx.thorough
    ctx.assumptions.append("the mocs installed here stand for moc: %s" % ", ".join(sections.MOCS))
    with clz.Scratch() as d:
        par = os.path.join(d, "par.json")
        marks = [[], ["INVOKABLE"], ["SIGNAL"], ["SLOT"], ["SCRIPTABLE"]]
        json.dump(dict(plain=["access", "slots", "signals", "other", "friend", "nest", "unnest"], marks=marks, cst=[False], body=True, max=5 if t else 4), open(par, "w"))
        invs = "InvLastSpecifier InvMarksAreLocal InvMoc InvDependent"
        recs = replay.behaviours(ctx, "MCSections", invs, dict(PARAMS=par))
        json.dump(dict(plain=["access", "slots", "signals"], marks=[[], ["INVOKABLE"]], cst=[False], body=False, max=7 if t else 6), open(par, "w"))
        recs += replay.behaviours(ctx, "MCSections", invs, dict(PARAMS=par), name="MCSections (sections)")
        ctx.exhaustive = True
        units, fails = [], []
        for n in range(0, len(recs), 300):
            u, progs = sections.Unit(rng, keywords=rng.random() < .7, plain=n % 600 == 0), []
            for k, x in enumerate(recs[n:n + 300]):
                ids = [i["id"] for i in x["items"] if i["k"] in ("method", "body")]
                uses = [dict(n=1, id=rng.choice(ids), use=rng.choice(["emit", "call", "connect"]))] if ids and rng.random() < .5 else []
                key = "%d" % (n + k)
                progs.append((key, x["items"], u.program(key, x["items"], uses)))
            u.write(d, "mc%d" % n)
            units.append((u, progs))
        want = {str(k): {("m%d" % y["id"], y["type"]) for y in x["types"] if y["type"] != "none"} for k, x in enumerate(recs)}
        nmc = len(units)
        for n in range(400 if t else 80):
            u, progs = sections.Unit(rng, keywords=rng.random() < .7), []
            for k in range(10):
                items, uses = sections.random_items(rng, rng.choice([4, 10, 25]))
                key = "r%d_%d" % (n, k)
                progs.append((key, items, u.program(key, items, uses)))
            u.write(d, "rnd%d" % n)
            units.append((u, progs))

        def one(x):
            u, progs = x
            return u.run(), [u.moc(m) for m in sections.MOCS]
        rows, meta = [], []
        for k, ((u, progs), (g, ms)) in enumerate(zip(units, clz.pmap(one, units))):
            for m in ms:
                if isinstance(m, str):
                    raise tlc.ModelError("%s: %s\n%s" % (u.name, m, text_of(u, "")))
                if k >= nmc or k % 5 == 0:
                    rs = rows_of(u, progs, m, "moc")
                    rows += rs
                    meta += [(u, p, "moc") for p in progs]
                else:
                    # the specification's verdicts, enumerated: moc's lists directly
                    pass
            if isinstance(g, str):
                fails.append((u, ("", [], []), g))
                continue
            if k < nmc:
                ctx.validated += len(progs)
                for p in progs:
                    types = {(o, tag.split()[1]) for o, tag in g.get(p[0], ()) if tag.startswith("fully-qualified")}
                    if types != want[p[0]]:
                        fails.append((u, p, "specified: %s; observed: %s" % (sorted(want[p[0]]), sorted(types))))
            if k >= nmc or k % 5 == 0:
                rows += rows_of(u, progs, g, "clazy")
                meta += [(u, p, "clazy") for p in progs]
        for k in replay.validate(ctx, d, "TraceSections", rows):
            u, p, by = meta[k]
            if by == "moc":
                raise tlc.ModelError("moc and the specification disagree on %s: %s\n%s" % (p[0], rows[k], text_of(u, p[0])))
            fails.append((u, p, "observed: %s" % rows[k]["got"]))
        good = next(r for r in rows if len(r["got"]) > 2 and r["by"] == "clazy")
        replay.must_reject(ctx, d, "TraceSections", {**good, "got": good["got"][1:], "owners": sorted({x[0] for x in good["got"][1:]})})
        replay.must_reject(ctx, d, "TraceSections", {**good, "got": good["got"] + [[good["got"][0][0], "virtual-signal"], [good["got"][0][0], "connect-by-name"]]})
        ctx.extra["class_bodies"] = len(recs)
        import collections
        ctx.extra["reports_recorded"] = dict(collections.Counter(x[0][0] + " " + x[1] for r in rows if r["by"] == "clazy" for x in r["got"]))
        ctx.extra["programs_recorded"] = len(rows)
        ctx.sample(dict(items=good["items"][:8], got=good["got"][:8]))
        for u, p, what in fails:
            ctx.violation("sections %s" % shape(p[1]), what + "\n" + text_of(u, p[0]), dict(items=p[1], uses=p[2], text=text_of(u, p[0]), cmd=getattr(u, "cmd", None), what=what))


def shape(items):
    return " ".join(i["k"] + ("(%s)" % ",".join(i["marks"]) if i.get("marks") else "") for i in items)[:300]


def text_of(u, key):
    h = "\n".join("\n".join(f) for f in u.files)
    a = h.find("C%s_1" % key)
    if not key or a < 0:
        return h[-2500:]
    a = h.rfind("\n", 0, a)
    m = __import__("re").compile(r"\n  (?:class|struct) C(?!%s_)" % key).search(h, a + 1)
    c = [l for l in u.c if "C%s_" % key in l or 1]
    return h[a:m.start() if m else None][:2500]


if __name__ == "__main__":
    common.main("C12", body)
