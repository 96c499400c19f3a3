# Sourced by demo.sh: a scratch directory $T, and the built silverfox under a chosen clock.
SF=$PWD/target/debug/silverfox
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -shared -fPIC -o "$T/clock.so" "$HERE/clock.c" || exit 2
mkdir "$T/w"
cd "$T/w" || exit 2
# sf "<date and time, UTC>" <arguments>: stdout and stderr go to $T/out
sf() {
    local when; when=$(date -u -d "$1" +%s); shift
    env -u SILVERFOX_FILE -u LEDGER_FILE TZ="${ZONE:-UTC}" DEMO_NOW="$when" LD_PRELOAD="$T/clock.so" "$SF" "$@" > "$T/out" 2>&1
}
fail() { echo "FAILED: $*"; echo "--- output"; cat "$T/out"; for f in "$T"/w/*.sfox; do echo "--- $f"; cat "$f"; done; exit 1; }
has() { grep -Eq -- "$1" "${2:-$T/out}" || fail "no line matches: $1"; }
lacks() { ! grep -Eq -- "$1" "${2:-$T/out}" || fail "a line matches: $1"; }
