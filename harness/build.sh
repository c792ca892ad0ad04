#!/bin/bash
# builds the driver from /repo's working tree: build.sh OUTDIR FEATURES...
set -e
H=$(cd "$(dirname "$0")" && pwd); OUT=$1; shift
REPO=${REPO:-/repo}
mkdir -p "$OUT"
SAN="-O0 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fsanitize-ignorelist=$H/ubsan_ignore.txt"; LSAN=address,undefined
case " $* " in *" tsan "*) SAN="-O1 -fsanitize=thread -DVERIF_TSAN"; LSAN=thread;; esac
CXX="clang++ $VERIF_CXXFLAGS -std=c++17 -g1 $SAN -DNDEBUG -w -I$REPO/include -I$REPO/src_yaml_interface -I$REPO/src_json_interface -I$REPO/src_toml_interface -I$H"
CC="clang -g1 -O1 -fsanitize=address -w -DLUA_USE_LINUX -DLUA_COMPAT_5_3"
SRC=()
for f in "$REPO"/src/*.cc; do SRC+=("$f"); done
SRC+=("$H/drv_main.cc" "$H/drv_core.cc")
LIBS="-lm -ldl -lpthread"
for feat in "$@"; do case $feat in
  json) SRC+=("$H/drv_json.cc"); for f in "$REPO"/src_json_interface/*.cc; do SRC+=("$f"); done;;
  yaml) SRC+=("$H/drv_yaml.cc"  "$REPO"/src_yaml_interface/*.cc);;
  toml) SRC+=("$H/drv_toml.cc"  "$REPO"/src_toml_interface/*.cc);;
  cif)  SRC+=("$H/drv_cif.cc");;
  lua)  SRC+=("$H/drv_lua.cc"); for f in "$REPO"/src_lua_interface/*.cc; do case $f in *Pmain.cc) ;; *) SRC+=("$f");; esac; done; LUA=1;;
  table) SRC+=("$H/drv_table.cc");;
  print) SRC+=("$H/drv_print.cc");;
  mex) SRC+=("$H/drv_mex.cc" "$REPO/src_matlab_interface/GenericContainerInterface_matlab.cc"); CXX="$CXX -I$H/mex";;
esac; done
one() { src=$1; o="$2"; eval "$3 -c '$src' -o '$o'" || { echo "FAILED $src"; exit 1; }; }
export -f one
{
for s in "${SRC[@]}"; do echo "$s|$OUT/$(basename "$s").o|$CXX"; done
if [ -n "$LUA" ]; then L=$REPO/src_lua_interface/lua-5.4.6/src; for s in $L/*.c; do case $s in */lua.c|*/luac.c) ;; *) echo "$s|$OUT/lua_$(basename "$s").o|$CC -I$L";; esac; done; fi
} > "$OUT/jobs"
xargs -a "$OUT/jobs" -d '\n' -P 8 -I{} bash -c 'IFS="|" read -r s o c <<< "{}"; case $s in *drv_lua*|*Interface_lua*) c="$c -I'"$REPO"'/src_lua_interface/lua-5.4.6/src";; esac; one "$s" "$o" "$c"'
clang++ $VERIF_CXXFLAGS -fsanitize=$LSAN "$OUT"/*.o -o "$OUT/drv" $LIBS
