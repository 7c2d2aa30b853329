#!/usr/bin/env python3
"""seed.py FILE: turn a bug description into /verif/seeded/<id>/ after confirming it in a scratch copy of /repo (/tmp/sr).

FILE is Python that defines id, property, needs, breaks, edits = [(file, old, new)], demo (C++ source; main returns 0 if fine)."""
import json, os, shutil, subprocess, sys
SR = "/tmp/sr"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def build():
    if not os.path.exists(SR + "/_build/CMakeCache.txt"):
        r = sh("CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_C_FLAGS=-Wno-error "
               "-DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_DOCTEST=/opt/vp/deps/doctest "
               "-DFETCHCONTENT_SOURCE_DIR_LIBSQUISH=/opt/vp/deps/libsquish -DZK_BUILD_TESTS=ON -DZK_BUILD_EXAMPLES=ON" % (SR, SR))
        assert r.returncode == 0, r.stdout
    return sh("ninja -C %s/_build" % SR)


def tests():
    rep = SR + "/_build/rep"
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep)
    sh("python3 /opt/vp/run_doctest.py %s/_build/test-zenkit %s" % (SR, rep), cwd=SR + "/tests")
    ok = {x[5:].strip() for x in open(rep + "/results.txt") if x.startswith("PASS")}
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]


DEMO = '''#!/bin/bash
# Compiles demo.cc against the library built in the current directory; exits 0 if the library behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -O0 -D_ZK_WITH_MMAP=1 -Iinclude -Isrc "$here/demo.cc" _build/libzenkit.a $(find _build -name 'libsquish*.a') -lsquish -o "$t/demo" || exit 8
cd "$t" && timeout 60 ./demo
'''


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    if not os.path.exists(SR):
        sh("git clone -q /repo " + SR)
    sh("git checkout -q -f . && git pull -q --ff-only && git clean -fdq -e _build", cwd=SR)
    assert sh("git rev-parse HEAD", cwd=SR).stdout == sh("git rev-parse HEAD", cwd="/repo").stdout
    d = os.path.join(HERE, "seeded", ns["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(ns.get("demo_sh", DEMO))
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cc", "w").write(ns["demo"].lstrip())
    json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    for f, a, b in ns["edits"]:
        s = open(SR + "/" + f).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(SR + "/" + f, "w").write(s.replace(a, b))
    diff = sh("git diff", cwd=SR).stdout
    base = sh("git log --format=%H --invert-grep --grep='^fix:'", cwd=SR).stdout.split()[0]
    for f in {f for f, _, _ in ns["edits"]}:
        was = sh("git show %s:%s" % (base, f), cwd=SR).stdout.splitlines()
        removed = [x[1:] for x in sh("git diff -- " + f, cwd=SR).stdout.splitlines() if x[:1] == "-" and x[:3] != "---"]
        assert removed and all(x in was for x in removed), ("not a line of the original", [x for x in removed if x not in was])
    open(d + "/patch.diff", "w").write(diff)
    r = build()
    assert r.returncode == 0, r.stdout[-3000:]
    bad = tests()
    assert not bad, bad
    r = sh("bash %s/demo.sh" % d, cwd=SR)
    assert r.returncode != 0 and r.returncode != 8, (r.returncode, r.stdout)
    print("with the bug:", r.returncode, r.stdout.strip()[-200:])
    sh("git checkout -q -f .", cwd=SR)
    assert build().returncode == 0
    r = sh("bash %s/demo.sh" % d, cwd=SR)
    assert r.returncode == 0, (r.returncode, r.stdout)
    print(ns["id"], "ok")


main()
