#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
from mkprops import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; its behaviours replayed into, and traces recorded from, the real tools"
C = {
 "C01": "exhaustive over request shapes of bounded length in the model; random requests over the whole registry beyond",
 "C02": "all files of 3 lines over 16 comment kinds exhaustively; random longer files as traces",
 "C03": "all files of 3 lines over 17 comment kinds and of 5 lines over range comments; random longer files as traces",
 "C04": "all filters and ignore patterns of bounded size over a fixed layout exhaustively; random layouts, spellings and patterns as traces",
 "C05": "all filters of 2 (thorough: 3) entries of a pool exhaustively; random filters and files as traces",
 "C06": "all lists of 2 names and 2 flags exhaustively, three front ends; random ones as traces",
 "C07": "all histories of 2 (thorough: 3) of 7 units exhaustively; random ones of up to 8 units as traces",
 "C08": "all histories of 2 (thorough: 3) of 7 units exhaustively; random ones of up to 8 units as traces",
 "C09": "all programs of bounded length over places and a construct exhaustively in the model; random programs over snippets covering all 98 checks replayed in three front ends",
 "C10": "all nestings of places (main file, user and system headers, templates, lambdas) of bounded depth exhaustively; every snippet in every place",
 "C11": "all nestings of macro bodies and arguments of bounded depth exhaustively; every snippet in every place",
 "C12": "all class bodies of 4 (thorough: 5) items over 13 kinds, and of 6 (7) over 5, exhaustively, judged by clazy and by both mocs; random longer ones with inheritance, uses and every way of writing them as traces",
 "C13": "all texts of up to 4 (thorough: 4-5) tokens in signatures, template arguments and types, and all types of two (three) levels in three spacings, exhaustively, each written into a C++ context that counts or does not; random longer texts as traces; the specification is compared with the Qt 5 library on every text",
 "C14": "all histories of 3 (thorough: 4) of 7 units exhaustively; random ones of up to 8 units as traces",
 "C17": "7500 units the specification derives for the 26 checks that have fix-its, in all rounds of their life in the model, each analysed, applied, compiled and analysed again with the real Qt 5 and Qt 6; which are chosen and suppressed is random",
 "C18": "all command lines of 2 words over 11 (thorough: 17) in 5 environments, all of 3 (4) words over 5, and all environments, exhaustively; random longer command lines with shell metacharacters as traces; two prefixes, three layouts, two shells",
 "C16": "every listing of every check in the repository, the tools and an installed tree; all registries of 3 checks over 4 levels exhaustively in the model; random requests and what runs for them as traces",
 "C15": "all sets and orders of a bounded number of checks in the model; random sets and programs over all checks as traces",
}
def main():
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in C and os.path.exists(os.path.join(V, "checks", i + ".py")):
            checks.append(dict(property=i, quick_cmd="python3 checks/%s.py" % i, thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % i,
                               technique=TECH, level="model_checking", level_note=C[i]))
        else:
            na.append(dict(property=i, reason="no check built for it yet"))
    m = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", len(na), "not")
main()
