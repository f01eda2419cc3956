#!/bin/bash
# mut.sh WORKERS MUTANTS LOG: mutate.py run, each worker with its own copies of /repo and /verif mounted in their places
n=$1; q=$2; log=$3
for w in $(seq "$n"); do
  (
    d=/tmp/m$w; mkdir -p "$d/verif"
    rm -rf "$d/repo"; cp -a /repo "$d/repo"; git -C "$d/repo" checkout -q -- .
    [ -e "$d/verif/.build" ] || cp -a /verif/.build "$d/verif/.build"
    rsync -a --delete --exclude .build --exclude evidence --exclude __pycache__ /verif/ "$d/verif/"
    mkdir -p "$d/verif/evidence"
    unshare -Urm bash -c 'mount --bind "$1/repo" /repo && mount --bind "$1/verif" /verif && exec python3 -B /verif/dev/mutate.py run "$2" "$3"' _ "$d" "$q" "$log"
  ) &
done
wait
