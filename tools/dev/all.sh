cd /verif
for c in $(seq -w 1 27); do /opt/venv/bin/python run.py C$c --seed ${1:-1} > /tmp/o.$c 2>&1; echo "C$c rc=$? $(head -1 /tmp/o.$c)"; grep VIOL /tmp/o.$c; done
