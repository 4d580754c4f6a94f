#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs against /repo (clean tree needed):
# patch applies, builds, 56 tests pass, demo fails with it and passes without.
# With CHECKS=1 also runs the check of the bug's property while it is applied.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  s=/verif/seeded/$id
  demo=$(mktemp -d /tmp/demo.XXXX); cp -a $s/. $demo/; chmod 755 $demo; rm -f $demo/patch.diff $demo/meta.json
  bash /opt/vp/build.sh >/dev/null 2>&1
  timeout 300 bash $demo/demo.sh >$demo.base 2>&1; b=$?
  git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/seed.build 2>&1; then
    bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.tests 2>&1
    t=$(python3 -c "import json;d=json.load(open('/tmp/seed.json'));print(len(d['passed']),len(d['failed']))")
    timeout 300 bash $demo/demo.sh >$demo.bug 2>&1; p=$?
    c=""
    if [ -n "$CHECKS" ]; then
      prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
      c=$( (cd /verif && timeout 900 python3 checks/${prop,,}.py 2>&1; echo "rc=$?") | grep -a "^VIOLATION\|rc=" | cut -c1-160 | sort -u | tail -2 | tr '\n' ' ')
    fi
    echo "$id: base=$b bug=$p tests=$t $c"
    [ $b = 0 ] || tail -5 $demo.base
  else echo "$id: does not build"; tail -5 /tmp/seed.build; fi
  git checkout -q -- .
  rm -rf "$demo" "$demo.base" "$demo.bug"
done
bash /opt/vp/build.sh >/dev/null 2>&1
