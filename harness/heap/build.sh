#!/bin/bash
# build.sh OUTDIR COLLECTOR...  Builds the driver against /repo's working tree.
set -e
R=${REPO:-/repo}
H=$(cd "$(dirname "$0")" && pwd)
OUT=$1; shift
mkdir -p "$OUT"
if [ "${VH_MAIN:-heapdrv}" = heapdrv ]; then
  gcc -O1 -shared -fPIC -o "$OUT/libvhso.so" "$H/solib.c"
  VH_LIBS="$VH_LIBS -L$OUT -lvhso -Wl,-rpath,\$ORIGIN"
fi
build_one() {
  local c=$1 stem f libs=""
  case $c in
    bdw) stem=bdw; f="-DGC_CONSERVATIVE_ROOTS=1 -DGC_CONSERVATIVE_TRACE=1"; libs="$(pkg-config --libs bdw-gc)";;
    semi) stem=semi; f="-DGC_PRECISE_ROOTS=1";;
    pcc) stem=pcc; f="-DGC_PRECISE_ROOTS=1 -DGC_PARALLEL=1";;
    generational-pcc) stem=pcc; f="-DGC_PRECISE_ROOTS=1 -DGC_PARALLEL=1 -DGC_GENERATIONAL=1";;
    *mmc) stem=mmc; f="-DVH_CAN_PIN=1 -DVH_EVACUATION_MAY_FAIL=1"
      case $c in heap-conservative-*) f="$f -DGC_CONSERVATIVE_ROOTS=1 -DGC_CONSERVATIVE_TRACE=1";;
                 stack-conservative-*) f="$f -DGC_CONSERVATIVE_ROOTS=1";;
                 *) f="$f -DGC_PRECISE_ROOTS=1";; esac
      case $c in *parallel-*) f="$f -DGC_PARALLEL=1";; esac
      case $c in *generational-*) f="$f -DGC_GENERATIONAL=1";; esac;;
    *) echo "unknown collector $c" >&2; exit 2;;
  esac
  case $f in *MAY_FAIL*) ;; *) f="$f -DVH_EVACUATION_MAY_FAIL=0";; esac
  local dbg="-DNDEBUG"; [ -n "$VH_DEBUG" ] && dbg="-DGC_DEBUG=1"
  local O="${VH_OPT:--O2}"
  local F=($O -g -w -fno-strict-aliasing -fvisibility=hidden $dbg $f $VH_CFLAGS
    -I"$R/api" -I"$R/src" -I"$H" -I"$H/../sched" -DGC_ATTRS="\"$R/api/$stem-attrs.h\""
    -DVH_STEM="\"$stem\"" -DCOLLECTOR="\"$c\"" -DGC_EMBEDDER="\"$H/vh-embedder.h\"")
  local M=${VH_MAIN:-heapdrv}
  local S=("$H/$M.c" "$R/src/gc-platform-gnu-linux.c" "$R/src/gc-stack.c" "$R/src/gc-options.c"
    "$R/src/gc-tracepoint.c" "$R/src/gc-ephemeron.c" "$R/src/gc-finalizer.c" "$R/src/$stem.c")
  local W=""
  if [ $M = heapdrv ] && gcc "${F[@]}" -fsyntax-only "$H/ephwrap.c" 2>/dev/null; then
    S+=("$H/ephwrap.c"); W="-Wl,--wrap=gc_prepare_pending_ephemerons"
  fi
  if [ -n "$VH_SCHED" ]; then
    # Under the deterministic scheduler (harness/sched/vsched.h).
    local D="$OUT/obj-$c" o=() x
    mkdir -p "$D"
    for x in "${S[@]}"; do
      local san=-fsanitize=thread
      case $x in "$H"/*) san=;; esac
      gcc "${F[@]}" -DVSCHED $san -c -o "$D/$(basename "$x").o" "$x" || return 1
      o+=("$D/$(basename "$x").o")
    done
    gcc -O2 -g -w -c -o "$D/vsched.o" "$H/../sched/vsched.c" || return 1
    gcc $W $(cat "$H/../sched/wrap.txt") -o "$OUT/$M-$c" "${o[@]}" "$D/vsched.o" $VH_LIBS -lpthread -lm $libs
  else
    gcc "${F[@]}" $W -o "$OUT/$M-$c" "${S[@]}" $VH_LIBS -lpthread -lm $libs
  fi
}
pids=()
for c in "$@"; do build_one "$c" & pids+=($!); done
rc=0
for p in "${pids[@]}"; do wait $p || rc=1; done
exit $rc
