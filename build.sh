#!/bin/bash
# build.sh VARIANT -> prints the path of the simulator binary, built from /repo's
# current working tree.  Variants: st (single thread, address sanitizer), mt (scheduler),
# mm and tg (as st, with the material maps / the volume model queries of src/geartgeo).
# Builds are kept by the content of all sources; nothing is written to /repo.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${GEAR_REPO:-/repo}
variant=$1
cache=${GEARSIM_CACHE:-$here/build}
base=st; [ "$variant" = mt ] && base=mt
rkey=$( { cat "$repo"/src/gearsurf/*.cc "$repo"/src/gearimpl/*.cc "$repo"/src/gearxml/*.cc "$repo"/cmake/GearConfig.h.cmake.in "$repo"/CMakeLists.txt
          find "$repo/include" -type f | LC_ALL=C sort | xargs cat
          ls "$repo"/src/gearsurf/*.cc "$repo"/src/gearimpl/*.cc "$repo"/src/gearxml/*.cc; find "$repo/include" -type f | LC_ALL=C sort
          cat "$here/build.sh"; clang++ --version; } | sha256sum | cut -c1-16)
skey=$( { echo "$rkey"; cat "$here"/sim/*.cc "$here"/sim/*.h "$here"/sim/rootstub/*
          case "$variant" in mm|tg) find "$repo/src/geartgeo" -type f | LC_ALL=C sort | xargs cat;; esac; } | sha256sum | cut -c1-16)
lib=$cache/lib-$base-$rkey
out=$cache/sim-$variant-$skey
mkdir -p "$cache"
exec 9>"$cache/lock"
flock 9
if [ -x "$out/sim" ]; then touch "$out" "$lib" 2>/dev/null || :; echo "$out/sim"; exit 0; fi
# keep only the few newest builds
for k in lib:5 sim:7; do ls -1dt "$cache"/${k%:*}-*/ 2>/dev/null | tail -n +${k#*:} | while read -r d; do rm -rf "$d"; done; done
mkdir -p "$out" "$lib/gen/gear"
ver() { sed -n "s/^ *SET( *\${ *PROJECT_NAME *}_VERSION_$1 *\([0-9]*\) *).*/\1/Ip" "$repo/CMakeLists.txt" | head -1; }
ma=$(ver MAJOR) mi=$(ver MINOR) pa=$(ver PATCH)
sed -e "s/@GEAR_VERSION_MAJOR@/${ma:-1}/g; s/@GEAR_VERSION_MINOR@/${mi:-0}/g; s/@GEAR_VERSION_PATCH@/${pa:-0}/g; s/^#cmakedefine .*//" "$repo/cmake/GearConfig.h.cmake.in" > "$lib/gen/gear/GearConfig.h"
inc="-I$repo/include -I$repo/include/gear -I$lib/gen"
if [ "$variant" = mt ]; then
  # instrumented for our own runtime (sim/mt_rt.cc); the library is linked by itself so that
  # its copies of inline functions are the instrumented ones
  libflags="-O1 -fPIC -fsanitize=thread"
  simflags="-O1"; ldflags="-pthread"
else
  libflags="-O1 -fsanitize=address -fno-omit-frame-pointer"
  simflags="-O0 -fno-delete-null-pointer-checks -DSIM_ASAN"; ldflags="-fsanitize=address"
fi
case "$variant" in
mt) sims="mt_props mt_rt mt_wrap" extra=;;
mm) sims="p_map st" extra=$(ls "$repo"/src/geartgeo/MaterialMap*.cc);;
tg) sims="p_tgeo st" extra=$(ls "$repo"/src/geartgeo/*.cc); inc="$inc -I$here/sim/rootstub";;
*) sims="p_io p_hist p_merge st" extra=;;
esac
{
  echo "rule lib"; echo "  command = clang++ -std=c++17 -g1 $libflags $inc -w -c \$in -o \$out"
  echo "rule sim"; echo "  command = clang++ -std=c++17 -g1 $simflags $inc -I$here/sim -w -c \$in -o \$out"
  echo "rule link"; echo "  command = clang++ -g1 $ldflags -rdynamic -o \$out \$in -lCLHEP -ldl"
  objs= libobjs=
  for b in geo p_io p_hist main disk ask p_merge util alloc $sims; do          # the slow ones first
    case " $sims " in *" $b "*) ;; *) case "$b" in p_*) continue;; esac;; esac
    case " $objs " in *"/sim_$b.o "*) continue;; esac
    echo "build $out/sim_$b.o: sim $here/sim/$b.cc"; objs="$objs $out/sim_$b.o"
  done
  [ "$variant" = tg ] && { echo "build $out/sim_rootstub.o: sim $here/sim/rootstub/rootstub.cc"; objs="$objs $out/sim_rootstub.o"; }
  for f in $extra; do
    b=tgeo_$(basename "$f" .cc)
    echo "build $out/$b.o: lib $f"; objs="$objs $out/$b.o"
  done
  for f in "$repo"/src/gearsurf/*.cc "$repo"/src/gearimpl/*.cc "$repo"/src/gearxml/*.cc; do
    b=$(basename "$(dirname "$f")")_$(basename "$f" .cc)
    [ -f "$lib/complete" ] || echo "build $lib/$b.o: lib $f"
    libobjs="$libobjs $lib/$b.o"
  done
  if [ "$variant" = mt ]; then
    wrap=$(grep -oE '__wrap_[A-Za-z_]+[A-Za-z0-9_]*' "$here/sim/mt_rt.cc" | sed 's/^__wrap_//' | grep -v '^_$' | sort -u)
    S=_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE K=_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE
    wrap="$wrap $(sed -n 's/^WRAP[SD]([a-z0-9_]*, STR "\([^"]*\)".*/\1/p' "$here/sim/mt_wrap.cc" | sed "s/^/$S/") $(sed -n 's/^WRAP[SD]([a-z0-9_]*, STRK "\([^"]*\)".*/\1/p' "$here/sim/mt_wrap.cc" | sed "s/^/$K/") $(sed -n 's/^WRAP[SD]([a-z0-9_]*, "\([^"]*\)".*/\1/p' "$here/sim/mt_wrap.cc")"
    echo "rule so"; echo "  command = clang++ -g1 -shared -Wl,-Bsymbolic-functions $(for w in $wrap; do printf -- '-Wl,--wrap=%s ' "$w"; done) -o \$out \$in -lCLHEP"
    echo "build $out/libgear.so: so $libobjs"
    echo "rule mlink"; echo "  command = clang++ -g1 $ldflags -rdynamic -o \$out \$in -Wl,-rpath,$out -lCLHEP -ldl"
    echo "build $out/sim.tmp: mlink $objs $out/libgear.so"
  else
    echo "build $out/sim.tmp: link $objs $libobjs"
  fi
} > "$out/build.ninja"
ninja -C "$out" -f build.ninja -j "$(nproc)" >"$out/log" 2>&1 9>&- || { grep -v '^\[' "$out/log" | tail -40 >&2; rm -rf "$out"; exit 3; }
touch "$lib/complete"
mv "$out/sim.tmp" "$out/sim"
rm -f "$out"/*.o
echo "$out/sim"
