#!/usr/bin/env python3
"""C09: plugin, standalone tool and clang-tidy module report the same.  The behaviours of spec/Visit.tla do not mention the
front end: each is replayed into all three, and random programs with comments are compared and validated as traces."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, visitrun

if __name__ == "__main__":
    common.main("C09", lambda ctx: visitrun.run(ctx, "C09", shapes=["plain", "join", "ns", "local", "user", "syscpp", "tmpl", "body", "bodysys", "nested", "body2", "arg", "argdup"],
                                                options=[[]], compare=True))
