#!/usr/bin/env python3
"""mkseed.py FILE: makes seeded/<id>/ from a description
   ID / property / needs / breaks / edits (file, old, new) / C++ demonstration"""
import sys, os, json, subprocess, shutil, importlib.util
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
SH = '''#!/bin/bash
# Fails if the property is broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -g -O0 -fsanitize=address,undefined -fno-sanitize-recover=undefined -Iinclude "$D/demo.cpp" _build/main/libpapilio.a -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''
HEAD = '''#include <papilio/papilio.hpp>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <string>
static int failures = 0;
[[maybe_unused]] static void same(const std::string& got, const std::string& want)
{
    if(got != want) { std::printf("got [%s], expected [%s]\\n", got.c_str(), want.c_str()); ++failures; }
}
[[maybe_unused]] static void ok(bool b, const char* what)
{
    if(!b) { std::printf("not so: %s\\n", what); ++failures; }
}
'''
for s in m.SEEDS:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    diffs = ""
    for f in sorted({e[0] for e in s["edits"]}):
        src = open("/repo/" + f).read(); new = src
        for e in s["edits"]:
            if e[0] == f:
                assert new.count(e[1]) == (e[3] if len(e) > 3 else 1), (s["id"], f, new.count(e[1]), e[1])
                new = new.replace(e[1], e[2])
        os.makedirs("/tmp/mk/a/" + os.path.dirname(f), exist_ok=True); os.makedirs("/tmp/mk/b/" + os.path.dirname(f), exist_ok=True)
        open("/tmp/mk/a/" + f, "w").write(src); open("/tmp/mk/b/" + f, "w").write(new)
        r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd="/tmp/mk", capture_output=True, text=True)
        diffs += r.stdout
    open(d + "/patch.diff", "w").write(diffs)
    open(d + "/demo.sh", "w").write(s.get("sh", SH)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(HEAD + s["demo"])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
shutil.rmtree("/tmp/mk", ignore_errors=True)
