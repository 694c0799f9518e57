#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: make /verif/seeded/<id>/ from specs and confirm each one in a scratch copy of /repo.
A spec is S(id, property, [(file, old, new)...], demo_cpp, needs, breaks). Development aid; no check uses it."""
import os, shutil, subprocess, sys, json, tempfile
SPECS = []
def S(id, prop, edits, demo, needs, breaks, n=1): SPECS.append((id, prop, edits, demo, needs, breaks))
DEMO_SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -Wno-deprecated-declarations -Isrc/libcatnip -Isrc/libcatnip/io "$d/demo.cpp" _build/src/libcatnip/liblibcatnip.a -o "$t/demo" || exit 2
r=$PWD; cd "$t" && CALCJ="$r/_build/calc_J" timeout 100 ./demo
'''
HEAD = '''#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
using namespace std;
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\\n", #c); _exit(1); } } while (0)
// did f end with an error (exception, exit or crash)?
static bool refused(function<void()> f) {
  fflush(stdout); pid_t p = fork();
  if (!p) { if (!freopen("/dev/null", "w", stdout)) _exit(3); try { f(); } catch (...) { _exit(1); } _exit(0); }
  int s; waitpid(p, &s, 0); return !(WIFEXITED(s) && WEXITSTATUS(s) == 0);
}
static void put(const string& name, const string& text) { ofstream f(name); f << text; }
'''
def sh(c, cwd=None, t=600): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
def main():
    exec(open(sys.argv[1]).read(), {"S": S, "__name__": "spec"})
    want = sys.argv[2:]
    base = "/tmp/seedbase"
    def build(d): return sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DENABLE_TESTS=ON -DENABLE_INTEGRATION_TESTS=OFF -DDOWNLOAD_TUTORIAL_FILES=OFF && ninja -C _build", d)
    if not os.path.exists(base):
        sh("git -C /repo archive HEAD --prefix=seedbase/ | tar x -C /tmp"); r = build(base); assert r.returncode == 0, r.stdout[-2000:] + r.stderr
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    for id, prop, edits, demo, needs, breaks in SPECS:
        if want and id not in want: continue
        out = "/verif/seeded/" + id; os.makedirs(out, exist_ok=True)
        w = "/tmp/seedwork"; shutil.rmtree(w, ignore_errors=True)
        sh("git -C /repo archive HEAD --prefix=seedwork/ | tar x -C /tmp"); sh("git init -q && git add -A -f && git -c user.name=a -c user.email=a@b commit -qm x", w)
        bad = None
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p).read()
            if s.count(old) != 1: bad = "%s: %d matches for %r" % (f, s.count(old), old[:60]); break
            open(p, "w").write(s.replace(old, new))
        if bad: print(id, "BAD", bad); shutil.rmtree(out); continue
        patch = sh("git diff", w).stdout; open(out + "/patch.diff", "w").write(patch)
        # removed lines must be original
        cur = None; ln = 0
        for l in patch.split("\n"):
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-"):
                b = sh("git -C /repo blame -s -l -L %d,%d HEAD -- %s" % (ln, ln, cur)).stdout
                if not b.startswith("^5833a18") and not b.startswith("5833a18"): bad = "line added by a fix: " + l
                ln += 1
            elif l.startswith(" "): ln += 1
        if bad: print(id, "WARN", bad)
        open(out + "/demo.cpp", "w").write(HEAD + demo); open(out + "/demo.sh", "w").write(DEMO_SH)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % out, base)
        r = build(w)
        if r.returncode: print(id, "NO BUILD", (r.stdout + r.stderr)[-1500:]); continue
        t = sh("ctest --test-dir _build -j1 --timeout 60", w)
        r1 = sh("bash %s/demo.sh" % out, w)
        ok = r0.returncode == 0 and r1.returncode != 0 and r1.returncode != 2 and t.returncode == 0
        print(id, prop, "OK" if ok else "NOT OK", "base", r0.returncode, "patched", r1.returncode, r1.stdout.strip()[-80:], "tests", t.returncode, "" if t.returncode == 0 else t.stdout[-300:], "" if r0.returncode == 0 else (r0.stdout + r0.stderr)[-1500:])
        sys.stdout.flush(); shutil.rmtree(w)
main()
