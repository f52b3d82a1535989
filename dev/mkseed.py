"""dev helper: seed(id, prop, [(file, old, new)...], test source, needs, breaks) writes /verif/seeded/<id>/"""
import difflib, json, pathlib
REPO = pathlib.Path("/repo"); OUT = pathlib.Path("/verif/seeded")
DEMO = '''#!/bin/bash
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/demoXXXX); chmod 755 "$tmp"; export TMPDIR=$tmp
cd "$here"
timeout 250 python -m pytest -q -x -p no:cacheprovider -c /dev/null --rootdir "$here" --basetemp="$tmp/bt" %s test_demo.py
rc=$?
rm -rf "$tmp"
exit $rc
'''
SERVER = "-p pytest_devpi_server -p test_devpi_server.plugin"


def seed(id, prop, edits, test, needs, breaks, plugins=SERVER):
    patch = ""
    files = {}
    for f, old, new in edits:
        s = files.get(f) or (REPO / f).read_text()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        a = (REPO / f).read_text().splitlines(True)
        patch += "diff --git a/%s b/%s\n" % (f, f)
        patch += "".join(difflib.unified_diff(a, s.splitlines(True), "a/" + f, "b/" + f))
    d = OUT / id
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(patch)
    (d / "demo.sh").write_text(DEMO % plugins)
    (d / "test_demo.py").write_text(test)
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
