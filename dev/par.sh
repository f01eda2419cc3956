#!/bin/bash
# par.sh WORKERS LOG ID...: try_seed.sh over the planted bugs, each worker with its own copies of /repo and /verif mounted in their places
n=$1; log=$2; shift 2
: > "$log"
q=$(mktemp); printf '%s\n' "$@" > "$q"
for w in $(seq "$n"); do
  (
    d=/tmp/w$w; mkdir -p "$d/repo" "$d/verif"
    [ -e "$d/verif/.build" ] || cp -a /verif/.build "$d/verif/.build"
    rm -rf "$d/repo"; cp -a /repo "$d/repo"; git -C "$d/repo" checkout -q -- .
    for f in /verif/* /verif/.git*; do b=$(basename "$f"); [ "$b" = evidence ] && continue; rm -rf "$d/verif/$b"; cp -a "$f" "$d/verif/$b"; done
    mkdir -p "$d/t" "$d/verif/evidence"
    unshare -Urm bash -c '
      mount --bind "$1/repo" /repo && mount --bind "$1/verif" /verif || exit 1
      while :; do
        id=$(flock "$2" sh -c "head -1 \"$2\"; sed -i 1d \"$2\"")
        [ -n "$id" ] || break
        T="$1/t" bash /verif/dev/try_seed.sh $id > "$1/t/out" 2>&1
        flock "$3" cat "$1/t/out" >> "$3"
        i=${id%% *}; cp "$1/t/seed.demo1" "/tmp/seedlogs/$i.d1"; cp "$1"/t/seed.check.* /tmp/seedlogs/ 2>/dev/null
      done' _ "$d" "$q" "$log"
  ) &
done
wait
rm -f "$q"
echo done >> "$log"
