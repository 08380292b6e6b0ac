# usage: seedtest.sh ID...   verifies seeded bugs: applies, builds, tests pass, demo fails; and demo passes without
for id in "$@"; do
d=/verif/seeded/$id
cd /repo; git diff --quiet || { echo DIRTY; exit 1; }
bash $d/demo.sh >/tmp/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id NOAPPLY"; continue; }
t=$(bash /tmp/t.sh 2>&1 | tail -3 | tr '\n' ' ')
bash $d/demo.sh >/tmp/demo1.log 2>&1; r1=$?
git checkout -- .
echo "$id clean=$r0 patched=$r1 tests=$t :: $(tail -1 /tmp/demo1.log | cut -c1-150)"
done
