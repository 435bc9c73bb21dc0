"""The clazy script in prefixes of its own, around programs that record how they are called."""
import json, os, shutil, stat, subprocess
import build, clz

RECORD = """#!/usr/bin/env python3
import json, os, sys
with open(os.environ["VERIF_REC"], "a") as f:
    f.write(json.dumps(dict(tool=%r, argv=sys.argv[1:], ld=os.environ.get("LD_LIBRARY_PATH"), env=os.environ.get("VERIF_MARK"), stdin=sys.stdin.read())) + "\\n")
if sys.argv[1:] == ["--version"]:
    print("recorder version 1.2.3")
sys.exit(int(os.environ["VERIF_STATUS"]))
"""
# the same without an interpreter's start
RECORD_SH = """#!/bin/sh
{ printf '%s\\037' {TOOL} "${LD_LIBRARY_PATH-(unset)}" "$VERIF_MARK" "$(cat)" "$#"; for a; do printf '%s\\037' "$a"; done; printf '\\036'; } >> "$VERIF_REC"
if [ "$*" = --version ]; then echo "recorder version 1.2.3"; fi
exit "$VERIF_STATUS"
"""


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    os.chmod(path, 0o755)


class Prefix:
    """layout: installed (bin/clazy, lib/, share/doc/), build (clazy, lib/, bin/clazy-standalone) or none (bin/clazy alone)"""

    def __init__(self, root, layout):
        self.root, self.layout = root, layout
        src = open(os.path.join(build.BUILD, "clazy")).read()
        self.script = os.path.join(root, "clazy" if layout == "build" else "bin/clazy")
        put(self.script, src)
        put(os.path.join(root, "bin/clazy-standalone"), RECORD_SH.replace("{TOOL}", "standalone"))
        self.cxx = os.path.join(root, "tools/clang++")
        put(self.cxx, RECORD_SH.replace("{TOOL}", "compile"))
        self.lib = os.path.join(root, "lib")
        if layout != "none":
            put(os.path.join(self.lib, "ClazyPlugin.so"), "")

    def run(self, inp, checks, rec, how="CLANGXX", shell=None, cwd=None, stdin=""):
        env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "VERIF_REC": rec, "VERIF_STATUS": str(inp["status"]), "VERIF_MARK": "a  b'\"c"}
        if how == "CLANGXX":
            env["CLANGXX"] = "" .join(self.cxx) if " " not in self.root else os.path.relpath(self.cxx, cwd or "/")
        if how == "PATH" or " " in env.get("CLANGXX", ""):
            env.pop("CLANGXX", None)
            env["PATH"] = os.path.dirname(self.cxx) + ":" + env["PATH"]
        if inp["ld"]:
            env["LD_LIBRARY_PATH"] = ":".join(inp["ld"])
        if checks is not None:
            env["CLAZY_CHECKS"] = checks
        if inp["ndk"]:
            env["ANDROID_NDK"] = inp["ndk"]
        cmd = ([shell] if shell else []) + [self.script] + list(inp["argv"])
        p = subprocess.run(cmd, env=env, cwd=cwd or "/", input=stdin, capture_output=True, text=True)
        calls = []
        if os.path.exists(rec):
            for r in open(rec).read().split("\036")[:-1]:
                f = r.split("\037")
                calls.append(dict(tool=f[0], ld=f[1], mark=f[2], stdin=f[3], argv=f[5:-1], n=f[4]))
            os.unlink(rec)
        return p, calls, cmd, env

    def observed(self, inp, p, calls, stdin=""):
        """what the specification calls res; a string when it is none of these"""
        heads = {"--help": "Usage: clazy ", "--version": "clazy version: ", "--list": "List of available clazy checkers:", "--explain": ("== Explanation for checker", "There is no explanation")}
        for w, h in heads.items():
            if p.stdout.startswith(h):
                left = [c for c in calls if not (w == "--version" and c["argv"] == ["--version"])]
                return dict(did=w, argv=[], ld=[], status=p.returncode) if not left else "%s and then %s" % (w, left)
        if not calls:
            if "ANDROID_NDK" in p.stderr + p.stdout:
                return dict(did="refuse", argv=[], ld=[], status=1 if p.returncode else 0)
            return "nothing was run: %d %r %r" % (p.returncode, p.stdout, p.stderr)
        if len(calls) > 1:
            return "more than one thing was run: %s" % calls
        c = calls[0]
        if p.stdout or p.stderr:
            if not (c["argv"] == ["--version"] and p.stdout == "recorder version 1.2.3\n"):
                return "something was said: %r %r" % (p.stdout, p.stderr)
        if c["mark"] != "a  b'\"c" or c["stdin"] != stdin.rstrip("\n"):
            return "the environment or the input was changed: %s" % c
        ld = [] if c["ld"] in ("(unset)",) else c["ld"].split(":")
        real = os.path.realpath(self.lib)
        ld = [("LIB" if self.layout == "installed" else "BUILDLIB") if x and os.path.realpath(os.path.join("/", x)) == real else x for x in ld]
        return dict(did=c["tool"], argv=c["argv"], ld=ld, status=p.returncode)
