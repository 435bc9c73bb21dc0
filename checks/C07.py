#!/usr/bin/env python3
"""C07: only-qt.  spec/Session.tla replayed into plugin and standalone tool; random histories recorded and validated."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, session

M = lambda f, q, e: dict(front=f, onlyQt=q, export=e)


def body(ctx):
    t = ctx.thorough
    session.check(ctx, [M("standalone", True, False), M("standalone", False, False), M("plugin", True, False)], 3 if t else 2,
                  [M("standalone", True, False)] * 3 + [M("plugin", True, False), M("standalone", False, False), M("plugin", False, False)], 40 if t else 8, 40 if t else 25)


if __name__ == "__main__":
    common.main("C07", body)
