"""Shared by the checks: validating recorded observations with a trace specification."""
import os
import tlc


def validate(ctx, d, module, rows, env=None, invs="", count=True, limit=5, name="trace.ndjson", timeout=800):
    """rows: JSON-able trace lines.  Returns the indices of the rows the trace specification rejects."""
    rejected, start = [], 0
    p = os.path.join(d, name)
    while start < len(rows) and len(rejected) < limit:
        tlc.write_ndjson(p, rows[start:])
        cfg = "SPECIFICATION TSpec\n" + ("INVARIANTS %s\n" % invs if invs else "") + "CONSTRAINT Progress\nPOSTCONDITION Accepted\n"
        r = tlc.run(module, cfg, env={**(env or {}), "TRACE": p}, workers=1, timeout=timeout)
        if count:
            ctx.model(r, module)
        if not r.records or "consumed" not in r.records[-1]:
            raise tlc.ModelError("%s gave no verdict\n%s" % (module, r.out[-3000:]))
        c = r.records[-1]["consumed"]
        if count:
            ctx.validated += c
        if c >= len(rows) - start:
            break
        rejected.append(start + c)
        start += c + 1
    return rejected


def must_reject(ctx, d, module, row, env=None, what="record"):
    """A corrupted record must be rejected, or the binding is vacuous."""
    if not validate(ctx, d, module, [row], env=env, count=False, name="corrupt.ndjson"):
        raise tlc.ModelError("%s accepts a corrupted %s" % (module, what))
    ctx.count("corrupted_records_rejected")


def behaviours(ctx, module, cfg_invs, env, name=None, timeout=800, extra_cfg=""):
    """Exhaustive model checking; returns the records its Emit invariant printed."""
    r = tlc.run(module, "SPECIFICATION Spec\nINVARIANTS %s Emit\n%s" % (cfg_invs, extra_cfg), env=env, timeout=timeout)
    ctx.model(r, name or module)
    return r.records
