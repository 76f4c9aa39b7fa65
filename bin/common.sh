# Sourced by the commands of bin/: builds the simulation binary for the current working tree.
V=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
REPO=${REPO:-/repo}
export LC_ALL=C PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset CXXFLAGS CPPFLAGS LDFLAGS CPATH

tree_hash() {
  { (cd "$REPO" && find src experiments secure-computation-library/src secure-computation-library/include \
       -type f \( -name '*.cc' -o -name '*.h' -o -name '*.cpp' -o -name '*.hpp' \) -print0 | sort -z | xargs -0 sha256sum)
    (cd "$V" && find sim harness Makefile -type f -print0 | sort -z | xargs -0 sha256sum)
    g++ -march=native -E -v - </dev/null 2>&1 | grep cc1
    echo "$REPO"; } | sha256sum | cut -c1-20
}

# build TARGET: sets SIMRUN
build() {
  local target=${1:-simrun} h
  h=$(tree_hash) || return 1
  mkdir -p "$V/build"
  local d=build/$h
  exec 9>"$V/build/.lock"
  flock 9
  if [ ! -x "$V/$d/$target" ]; then
    # keep the two most recent other builds
    (cd "$V/build" && ls -dt [0-9a-f]*/ 2>/dev/null | tail -n +3 | while read -r o; do rm -rf "$V/build/${o%/}"; done)
    if ! make -C "$V" -j"$(nproc)" REPO="$REPO" B="$d" "$d/$target" >"$V/build/log.$h" 2>&1; then
      echo "BUILD FAILED:" >&2
      grep -E 'error|Error' "$V/build/log.$h" | head -20 >&2
      return 1
    fi
    rm -f "$V/build/log.$h"
  fi
  flock -u 9
  SIMRUN=$V/$d/$target
}
