. /opt/vp/env.sh
mkdir -p /tmp/sc
cd /verif/engine && go build -o /tmp/sc/mcbuild ./mcbuild && /tmp/sc/mcbuild -scratch /tmp/sc -o /tmp/sc/worker
