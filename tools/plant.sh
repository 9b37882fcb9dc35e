#!/bin/bash
# plant.sh NAME PROPERTY NEEDS WHAT EDIT.py DEMO.go
# Makes a planted bug: applies EDIT.py (which calls sub(file, old, new)) to a
# scratch copy of /repo, confirms that it builds, passes the stable tests and
# fails the demonstration, and records it in /verif/seeded/NAME.
set -u
name=$1 prop=$2 needs=$3 what=$4 edit=$5 demo=$6
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
wt=/tmp/wt
rm -rf /tmp/wt; cp -a /repo /tmp/wt || exit 1
cat > /tmp/wt-edit.py <<'P'
def sub(f, a, b, n=1):
    f = '/tmp/wt/' + f
    s = open(f).read()
    assert s.count(a) >= 1, ('not found', f, a)
    open(f, 'w').write(s.replace(a, b, n))
P
cat "$edit" >> /tmp/wt-edit.py
python3 /tmp/wt-edit.py || exit 1
(cd $wt && go build ./...) || { echo "BUILD FAILS"; exit 1; }
sed 's#/repo#/tmp/wt#g; s#/opt/vp/log#/tmp/wtlog#g' /opt/vp/test.sh > /tmp/wt-test.sh
bash /tmp/wt-test.sh /tmp/wt-out.json > /tmp/wt-test.log 2>&1
python3 - <<'P' || exit 1
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o = set(json.load(open('/tmp/wt-out.json'))['passed'])
if b - o:
    print('TESTS FAIL', sorted(b - o)[:5]); sys.exit(1)
P
d=/verif/seeded/$name
mkdir -p $d
cp "$demo" $d/demo.go.txt
cat > $d/demo.sh <<'D'
#!/bin/bash
# Run with cwd at the root of the repository.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/demo.go"
go run "$tmp/demo.go"
D
chmod +x $d/demo.sh
(cd /repo && $d/demo.sh) > /tmp/wt-demo0.log 2>&1 || { echo "DEMO FAILS ON UNCHANGED TREE"; cat /tmp/wt-demo0.log; exit 1; }
if (cd $wt && $d/demo.sh) > /tmp/wt-demo1.log 2>&1; then echo "DEMO PASSES WITH THE CHANGE"; cat /tmp/wt-demo1.log; exit 1; fi
git -C $wt diff > $d/patch.diff
rm -f $wt/hcl/spectests/tmp_*
python3 - "$prop" "$needs" "$what" > $d/meta.json <<'P'
import json, sys
json.dump({"property": sys.argv[1], "needs": sys.argv[2], "what_it_breaks": sys.argv[3]}, sys.stdout, indent=1)
P
echo "PLANTED $name: $(tail -2 /tmp/wt-demo1.log | head -1)"
