"""mkseed.py FILE: creates /verif/seeded/<id> from a description file:
   id, property, needs, breaks, edits [(file, old, new)], demo (C source; exits nonzero when the property is broken)"""
import sys, os, json, subprocess, shutil, tempfile
DEMO = '''#!/bin/bash
# builds the demonstration against the sources in the current directory (/repo)
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
gcc -g -O1 -fsanitize=address -w -DHAVE_CONFIG_H -D__axl_disable_broken_bool_def__ -D_GNU_SOURCE -DVERSION='"0"' -DPACKAGE_DTD_DIR='"."' -DPACKAGE_TOP_DIR='"."' \\
    -I"$PWD/_build/src" -I"$PWD/src" -I"$PWD/ns" -I"$PWD/babel" "$D/demo.c" src/axl*.c ns/axl*.c babel/axl*.c -o "$W/demo" -lm || exit 99
cd "$W" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''
PRE = '''#include <axl.h>
#include <axl_ns.h>
#include <axl_babel.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
size_t __sanitizer_get_current_allocated_bytes (void);
#define CK(c) do { if (!(c)) { printf ("broken: %s (line %d)\\n", #c, __LINE__); exit (1); } } while (0)
'''


def seed(id, property, needs, breaks, edits, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"])
    try:
        for f, old, new in edits:
            p = w + "/r/" + f
            s = open(p, encoding="latin-1").read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches in %s: %r" % (id, s.count(old), f, old[:80]))
            open(p, "w", encoding="latin-1").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    open(d + "/demo.c", "w").write(PRE + demo)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
