#!/bin/bash
# cargo's RUSTC_WRAPPER: wrap.sh <rustc> <args...>
# Workspace crates go through the fact-writing driver, everything else through
# plain rustc.  Two pinned dependencies do not compile with a current compiler
# as they are; only their build for the analysis is adjusted:
#  - proc-macro2 1.0.56 probes for a nightly API that has changed since;
#  - time 0.3.20 needs one type annotation (inference change in rustc 1.80).
r=$1; shift
args=(); crate=; prev=
for a in "$@"; do
  case "$a" in
    proc_macro_span) a=procmacro2_span_disabled;;
    */time-0.3.20/src/lib.rs)
      p="$VF_SCRATCH/time-0.3.20"
      if [ ! -d "$p" ]; then
        cp -r "$(dirname "$(dirname "$a")")" "$p.tmp$$"
        sed -i 's/collect::<Result<Box<_>, _>>()?/collect::<Result<Box<[_]>, _>>()?/' "$p.tmp$$/src/format_description/parse/mod.rs"
        mv -T "$p.tmp$$" "$p" 2>/dev/null || true
      fi
      a="$p/src/lib.rs";;
  esac
  [ "$prev" = --crate-name ] && crate=$a
  prev=$a
  args+=("$a")
done
case "$crate" in
  juno|juno_axum|juno_derive) exec "$VF_DRIVER" "$r" "${args[@]}";;
  *) exec "$r" "${args[@]}";;
esac
