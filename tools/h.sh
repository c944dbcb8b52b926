#!/bin/bash
# h.sh PID SECONDS [ROOT] [SEED]: runs one harness against a scratch build
R=${3:-/repo}; D=/tmp/hb-$(echo $R | md5sum | cut -c1-6)
if [ ! -d $D ] || [ -n "$REBUILD" ]; then mkdir -p $D.n; python3 -c "
import sys; sys.path.insert(0,'/verif/replay'); import build_copy; e=build_copy.build('$R','$D.n'); print(e or 'built')"; [ -d $D ] && find $D -delete; mv $D.n $D; fi
env -i PATH=/opt/venv/bin:/usr/bin:/bin LC_ALL=C.UTF-8 PYTHONUTF8=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore HOME=/root /opt/venv/bin/python /verif/replay/harness.py $1 --root $D --seconds ${2:-5} --seed ${4:-1} | python3 -c "import sys,json; d=json.load(sys.stdin); f=d.get(\"failure\"); print(d[\"evaluations\"],d[\"distinct_nontrivial\"],\"FAIL\" if f else \"ok\"); print((f[\"message\"][:1500]+\"\\n\"+json.dumps(f[\"case\"],ensure_ascii=False)[:${CH:-1500}]) if f else \"\")"
