# several checks at several seeds, 7 at a time: seeds.sh "1 2 3" C04 C05 ...
cd /verif
s=$1; shift
for c in "$@"; do for k in $s; do echo $c $k; done; done | xargs -P 7 -L 1 bash -c '/opt/venv/bin/python run.py $0 --seed $1 > /tmp/o.$0.$1 2>&1; rc=$?; echo "$0 seed=$1 rc=$rc $(head -1 /tmp/o.$0.$1)"; grep VIOL /tmp/o.$0.$1'
