# sweep planted bugs, 4 at a time
cd /verif
printf '%s\n' "$@" | xargs -P ${P:-4} -n 1 bash tools/sweep.sh
