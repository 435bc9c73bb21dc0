#!/usr/bin/env python3
"""C08: exported fix files.  spec/Session.tla replayed into plugin and standalone tool; random histories recorded and validated."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, session

M = lambda f, q, e: dict(front=f, onlyQt=q, export=e)


def body(ctx):
    t = ctx.thorough
    session.check(ctx, [M("standalone", False, True), M("standalone", True, True), M("plugin", False, True), M("plugin", True, True), M("standalone", False, False)], 3 if t else 2,
                  [M("standalone", False, True)] * 3 + [M("plugin", False, True)] * 2 + [M("plugin", True, True), M("standalone", True, True), M("plugin", False, False)], 40 if t else 10, 40 if t else 25)


if __name__ == "__main__":
    common.main("C08", body)
