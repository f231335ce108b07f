#!/bin/bash
# RUSTC_WRAPPER: /repo's crate is compiled against simstd instead of std, bb8 against simpl instead of parking_lot.
# Both are dependencies of the simulated tokio; the very builds it was given are used.
name= out= hash= simstd= simpl= tokio= prev= args=("$@")
for a in "$@"; do
  case "$prev" in
  --crate-name) name=$a ;;
  --out-dir) out=$a ;;
  -C) case "$a" in extra-filename=*) hash=${a#extra-filename=} ;; esac ;;
  --extern)
    case "$a" in
    simstd=*) simstd=${a#*=} ;;
    simpl=*) simpl=${a#*=} ;;
    tokio=*) tokio=${a#*=} ;;
    esac ;;
  esac
  prev=$a
done
used() { # which build of simstd ($1=1) or simpl ($1=2) belongs to this build of tokio
  local f="${tokio%.*}.sim"
  [ -f "$f" ] || { echo "rustcw: $f is missing" >&2; exit 1; }
  sed -n "$1p" "$f"
}
case "$name" in
tokio)
  [ -n "$simstd" ] && printf '%s\n%s\n' "$simstd" "$simpl" >"$out/libtokio$hash.sim" ;;
tchannel_rs)
  f=$(used 1) || exit 1
  args+=(--extern "std=$f") ;;
bb8)
  f=$(used 2) || exit 1
  for i in "${!args[@]}"; do
    case "${args[$i]}" in parking_lot=*) args[$i]="parking_lot=$f" ;; esac
  done ;;
esac
exec "${args[@]}"
