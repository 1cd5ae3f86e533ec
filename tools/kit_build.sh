# Builds demo.cpp with the library's sources. usage: kit_build.sh KITDIR OUT SOURCE...   (run with cwd = repository)
# tree-gen and ANTLR cannot be installed offline: the kit holds stand-ins that read the repository's .tree and .g4 files.
set -e
K=$1; OUT=$2; MAIN=$3; shift 3; R=$PWD; W=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX"); trap 'rm -rf "$W"' EXIT
FL="-std=c++20 -O0 -w -DFMT_HEADER_ONLY -I$K -I$W/gen -I$R/include"
python3 "$K/treegen.py" "$R" "$W/gen" >/dev/null; python3 "$K/antlrgen.py" "$R" "$W/gen" >/dev/null
i=0; : >"$W/list"
for s in "$MAIN" "$@"; do i=$((i+1)); case "$s" in gen:*) f="$W/gen/${s#gen:}"; [ -f "$f" ] || f=$(find "$W/gen" -name "${s#gen:}" | head -1);; /*) f="$s";; *) f="$R/$s";; esac; echo "$f $W/$i.o" >>"$W/list"; done
xargs -P 8 -L 1 sh -c "g++ $FL -c \"\$0\" -o \"\$1\"" <"$W/list"
g++ "$W"/*.o -o "$OUT"
