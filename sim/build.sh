#!/bin/bash
# Builds the simulator against /repo's current working tree.
#   build.sh OUTDIR [plain|san|portable]
# san: with the address and undefined behaviour sanitizers; portable: with the stream
# interface scnlib uses where it does not know the internals of FILE
# Objects are cached in OUTDIR by the hash of everything they are made from.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
OUT=$1
MODE=${2:-plain}
mkdir -p "$OUT"
exec 9>"$OUT/.lock"
flock 9
CXX=g++
BASE="-std=c++17 -g1 -U_FORTIFY_SOURCE -fno-pie -I$REPO/include -I$REPO/src -DSCN_DISABLE_FAST_FLOAT=1 -DSCN_REGEX_BACKEND=0"
COV="-fsanitize-coverage=trace-pc"
OPT="-O1"
SAN=""
if [ "$MODE" = san ]; then SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"; OPT="-O1"; fi
[ "$MODE" = portable ] && BASE="$BASE -DSCN_SIM_PORTABLE_FILE"
REPOHASH=$( (cd "$REPO" && find include src -type f \( -name '*.h' -o -name '*.hpp' -o -name '*.cpp' -o -name '*.cc' -o -name '*.inl' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -c1-16)
WRAPS="flockfile funlockfile ftrylockfile ungetc getc fgetc fgets fread feof ferror clearerr __uflow pthread_mutex_lock pthread_mutex_unlock __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort malloc calloc realloc free strdup newlocale duplocale freelocale pthread_once pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock"
LD=""
for w in $WRAPS; do LD="$LD -Wl,--wrap=$w"; done
pids=()
objs=()
compile() { # src flags usesrepo
  local src=$1 flags=$2 dep=$3 h
  h=$( (sha256sum "$src" "$HERE"/*.h; echo "$flags $dep $MODE"; [ "$dep" = repo ] && echo "$REPOHASH") | sha256sum | cut -c1-16)
  local o="$OUT/$MODE-$(basename "$src" .cpp)-$h.o"
  objs+=("$o")
  if [ ! -f "$o" ]; then
    find "$OUT" -maxdepth 1 -name "$MODE-$(basename "$src" .cpp)-*.o" -delete
    ( $CXX $flags -c "$src" -o "$o.tmp" && mv "$o.tmp" "$o" ) &
    pids+=($!)
  fi
}
for f in "$REPO"/src/scn/*.cpp; do compile "$f" "$BASE $OPT $COV $SAN" repo; done
for f in "$HERE"/ops_*.cpp; do compile "$f" "$BASE $OPT $COV $SAN" repo; done
for f in props gen recs plan main rt; do compile "$HERE/$f.cpp" "-std=c++17 -g1 -O1 -U_FORTIFY_SOURCE -fno-pie $( [ $f = rt ] && echo '-fno-builtin-malloc' ) $SAN" none; done
rc=0
for p in "${pids[@]:-}"; do [ -n "$p" ] && { wait "$p" || rc=1; }; done
[ $rc = 0 ] || { echo "build failed" >&2; exit 2; }
H=$( (printf '%s\n' "${objs[@]}"; echo "$LD") | sha256sum | cut -c1-16)
BIN="$OUT/sim-$MODE-$H"
if [ ! -x "$BIN" ]; then
  find "$OUT" -maxdepth 1 -name "sim-$MODE-*" -delete
  $CXX -no-pie $SAN -o "$BIN.tmp" "${objs[@]}" $LD -lpthread && mv "$BIN.tmp" "$BIN" || { echo "link failed" >&2; exit 2; }
fi
echo "$BIN"
