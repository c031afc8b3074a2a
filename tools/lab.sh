#!/bin/bash
# Development aid: tries planted bugs in copies of /repo and /verif, bound over the real ones in a mount namespace of its own.
#   lab.sh init                     makes the copies in /tmp/mut
#   lab.sh sync                     brings the copies up to date
#   lab.sh confirm DIR              builds, tests, demonstration with and without DIR/patch.diff
#   lab.sh check DIR|- PROP...      runs the quick checks with DIR/patch.diff applied
#   lab.sh sh CMD                   runs a command in there
L=/tmp/mut
exec 9>/tmp/mut.lock; flock 9
case "$1" in
init) mkdir -p $L; cp -a /repo $L/repo; cp -a /verif $L/verif; cp -a /opt/vp $L/vp; exit ;;
sync) rsync -a --delete --exclude target --exclude work --exclude evidence --exclude seeded /verif/ $L/verif/ 2>/dev/null || {
        (cd /verif && tar cf - --exclude=harness/target --exclude=harness/target-plain --exclude=work --exclude=evidence --exclude=seeded .) | tar xf - -C $L/verif; }
      git -C $L/repo fetch -q /repo HEAD; git -C $L/repo reset -q --hard FETCH_HEAD; exit ;;
esac
mode=$1; shift
[ "$mode" = sh ] || { dir=$1; shift; [ "$dir" = - ] || dir=$(realpath "$dir"); rm -rf $L/dir; [ "$dir" = - ] || cp -r "$dir" $L/dir; }
cat > $L/inner.sh <<'I'
mount --bind $L/repo /repo && mount --bind $L/verif /verif && mount --bind $L/vp /opt/vp || exit 9
cd /repo; git checkout -q -- .; git status --short | head -3
demo() { (cd /repo; timeout 300 bash $L/dir/demo.sh > $L/demo-$1.log 2>&1; echo "demo $1: exit $?"); }
case $mode in
sh) cd /verif; "$@" ;;
confirm)
  bash /opt/vp/build.sh > $L/build0.log 2>&1 || echo "BUILD FAILS without"
  demo without
  git apply $L/dir/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
  if bash /opt/vp/build.sh > $L/build.log 2>&1; then
    bash /opt/vp/test.sh $L/res.json > /dev/null 2>&1
    python3 - <<'P'
import json
b = json.load(open('/opt/vp/BASELINE.json'))['stable']; r = json.load(open('/tmp/mut/res.json'))
p = r.get('passed') or [k for k, v in r.items() if v in ('passed', 'pass', True)]
bad = [x for x in b if x not in set(p)]
print('tests:', len(b) - len(bad), 'of', len(b), bad[:5])
P
    demo with
  else echo "BUILD FAILS with"; tail -5 $L/build.log; fi
  git checkout -q -- . ;;
check)
  [ -e $L/dir/patch.diff ] && { git apply $L/dir/patch.diff || exit 1; }
  cd /verif
  for p in "$@"; do timeout 900 ./check.py $p --tier ${TIER:-quick} > $L/check-$p.log 2>&1; rc=$?; echo "$p: exit $rc $(grep -c '^VIOLATION' $L/check-$p.log) $(sed -n '/^VIOLATION/{n;p;q}' $L/check-$p.log | cut -c1-220) $(grep -m1 ERROR $L/check-$p.log | cut -c1-200)"; done
  cd /repo; git checkout -q -- . ;;
esac
I
export L mode
unshare -Urm bash $L/inner.sh "$@"
