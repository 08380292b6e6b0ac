# usage: seedrun.sh ID PROP [args]: runs a check against a seeded bug
id=$1; p=$2; shift 2
cd /repo; git diff --quiet || { echo DIRTY; exit 1; }
git apply /verif/seeded/$id/patch.diff || exit 1
bash /tmp/run.sh -prop $p "$@" 2>&1 | grep -E "^scenario|^  [a-z]|VIOL|quick:|thorough:" | cut -c1-250 
git checkout -- .
