#!/usr/bin/env python3
"""C10: where code lives decides whether it is analysed.  Every snippet in every file, header kind, template and macro
position of spec/Visit.tla, with and without ignore-included-files and in generated main files, on all front ends."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, visitrun

if __name__ == "__main__":
    common.main("C10", lambda ctx: visitrun.run(ctx, "C10",
        shapes=["plain", "ns", "local", "hole", "holeuser", "user", "sys", "sysdeep", "userdeep", "syspragma", "syscpp", "tmpl", "tmpluser", "tfun", "tmplsys", "bodyuser", "bodysys", "bodyinuser", "bodyinsys", "argsys", "arguser"],
        options=[[], ["ignore-included-files"], ["visit-implicit-code"], ["ignore-included-files", "visit-implicit-code"]], quiet=True))
