#!/usr/bin/env python3
"""C11: code from macros is reported at the use of the macro, once per check, and arguments where they are written.
Every snippet in every macro position of spec/Visit.tla, among plain code, on all front ends; exported fixes too."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, visitrun

if __name__ == "__main__":
    common.main("C11", lambda ctx: visitrun.run(ctx, "C11",
        shapes=["plain", "join", "body", "bodyuser", "bodysys", "nested", "nesteduser", "body2", "body3", "bodyline", "bodyinuser", "bodyinsys", "bodyinarg", "pasted", "arg", "argarg",
                "argdup", "argsys", "arguser", "argnl"],
        options=[[]], fixes=True))
