#!/bin/bash
# build.sh REPO TMPDIR DRIVER.cpp OUT : library objects + checker
set -e
REPO=$1; T=$2; DRIVER=$3; OUT=$4
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$T/inc/osl" "$T/obj"
if [ -f "$REPO/include/osl/scop.h.in" ]; then
  sed -e 's/@PACKAGE_VERSION@/verif/g; s/@[A-Z_]*@/0/g' "$REPO/include/osl/scop.h.in" > "$T/inc/osl/scop.h"
fi
GMP=${VERIF_NOGMP:+no}
if [ -z "$GMP" ]; then DEF="-DOSL_GMP_IS_HERE"; else DEF=""; fi
SAN="-fsanitize=address,undefined -fno-sanitize=vptr,nonnull-attribute,returns-nonnull-attribute,alignment -fno-sanitize-recover=all"
CF="-O1 -g -fno-omit-frame-pointer -w -I$T/inc -I$REPO/include $DEF"
RED=""
for s in malloc calloc realloc free strdup strndup; do RED="$RED --redefine-sym $s=vf_$s"; done
export REPO T SAN CF RED
compile() {
  src=$1
  o="$T/obj/$(echo "${src#$REPO/}" | tr '/' '_').o"
  gcc -std=gnu99 $CF $SAN -c "$src" -o "$o.tmp" && objcopy $RED "$o.tmp" "$o" && rm -f "$o.tmp"
}
export -f compile
( find "$REPO/source" -name '*.c' | sort | xargs -P 8 -I{} bash -c 'compile {}' ) &
p1=$!
g++ -std=c++17 $CF -I"$HERE" -c "$HERE/mc.cpp" -o "$T/mc.o" &
p2=$!
g++ -std=c++17 $CF -O1 -g0 -I"$HERE" -c "$DRIVER" -o "$T/driver.o" &
p3=$!
# a driver may run the scenarios of other checks under another judgement
for m in $(sed -n 's,^// modules:,,p' "$DRIVER"); do
  echo "g++ -std=c++17 $CF -O1 -g0 -I$HERE -Dproperty=property_$m -Dsetup=setup_$m -c $(dirname "$DRIVER")/$m.cpp -o $T/mod_$m.o"
done | xargs -P 8 -I{} bash -c '{}'
wait $p1; wait $p2; wait $p3
MODS=$(ls "$T"/mod_*.o 2>/dev/null || true)
g++ $SAN -Wl,--wrap=exit "$T/driver.o" $MODS "$T/mc.o" "$T"/obj/*.o -o "$OUT" -lgmp
