#!/bin/bash
# usage: mkseed.sh ID PROPERTY  — turns the uncommitted edit of /repo into /verif/seeded/ID
# (expects /tmp/seed/{main.rs,needs,breaks}; KIND=intl|parser|gen); verifies tests and demo, then restores /repo
set -u
ID=$1; PROP=$2; KIND=${KIND:-intl}
D=/verif/seeded/$ID; mkdir -p $D/src
git -C /repo diff > $D/patch.diff
cp /tmp/seed/main.rs $D/src/main.rs
case $KIND in
 intl) DEPS='intl_pluralrules = { path = "@REPO@/intl_pluralrules" }
unic-langid = "0.9"';;
 parser) DEPS='cldr_pluralrules_parser = { path = "@REPO@/cldr_pluralrules_parser" }';;
 gen) DEPS='make_pluralrules = { path = "@REPO@/make_pluralrules" }';;
esac
cat > $D/Cargo.toml.in <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
$DEPS
[workspace]
X
cat > $D/demo.sh <<'X'
#!/bin/bash
# run with cwd = the repository; builds a small program against it and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/src/main.rs" "$w/src/main.rs"
sed "s|@REPO@|$PWD|" "$here/Cargo.toml.in" > "$w/Cargo.toml"
[ -f "$PWD/Cargo.lock" ] && cp "$PWD/Cargo.lock" "$w/Cargo.lock"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q && exec_rc=0 || exit 3
"$w/target/debug/demo"
X
chmod +x $D/demo.sh
python3 - $D $PROP <<'X'
import json,sys
json.dump(dict(property=sys.argv[2],needs=open('/tmp/seed/needs').read().strip(),what_it_breaks=open('/tmp/seed/breaks').read().strip()),open(sys.argv[1]+'/meta.json','w'),indent=1)
X
cd /repo
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAIL; tail -5 /tmp/b.log; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json;d=json.load(open('/tmp/o.json'));print('tests',{k:(len(v) if hasattr(v,'__len__') else v) for k,v in d.items()})"
bash $D/demo.sh >/tmp/d.out 2>&1; echo "demo with patch rc=$?"; tail -3 /tmp/d.out
(cd /verif && timeout 900 python3-vt check.py $PROP > /tmp/c.out 2>&1; echo "check rc=$?"; grep -h VIOLATION /tmp/c.out; tail -2 /tmp/c.out)
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/b.log 2>&1
bash $D/demo.sh >/tmp/d.out 2>&1; echo "demo clean rc=$?"
