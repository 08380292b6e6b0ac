# usage: mkseed.sh ID PROP "needs" "breaks"  : saves /repo's diff as seeded bug and resets /repo; main.go from /tmp/main.go
d=/verif/seeded/$1; mkdir -p $d
cd /repo && git diff > $d/patch.diff && git checkout -- .
cp /tmp/seedlib/lib.go /tmp/seedlib/demo.sh $d/; cp /tmp/main.go $d/main.go
python3 - "$@" <<'P'
import json,sys
i,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
gofmt -l $d
