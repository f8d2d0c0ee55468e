#!/bin/sh
# RUSTC_WRAPPER: counts the regions of jbcrs' code that are entered, and of nothing else
rustc="$1"; shift
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
case "$name" in
  jbcrs) exec "$rustc" "$@" -Cinstrument-coverage -Cllvm-args=--instrprof-atomic-counter-update-all ;;
  jbmon) exec "$rustc" "$@" --cfg jbcov ;;
esac
exec "$rustc" "$@"
