bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAIL; tail /tmp/build.log; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def ps(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    print(x.keys()); return set()
m=sorted(ps(b)-ps(t)); print(len(ps(b)),len(ps(t)),"missing",len(m),[x[:60]+"..."+x[-60:] for x in m[:3]])
P
