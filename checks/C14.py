#!/usr/bin/env python3
"""C14: units of a run do not influence each other.  spec/Session.tla replayed into standalone tool and clang-tidy module; random histories recorded and validated."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, session

M = lambda f, q, e: dict(front=f, onlyQt=q, export=e)


def body(ctx):
    t = ctx.thorough
    session.check(ctx, [M("standalone", False, False), M("tidy", False, False)], 4 if t else 3,
                  [M("standalone", False, False)] * 3 + [M("tidy", False, False)], 40 if t else 12, 40 if t else 20, sample=None if t else .5)


if __name__ == "__main__":
    common.main("C14", body)
