# sourced by the other scripts: the Go environment, and how the machinery is built
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
  if [ -x "$d/go" ]; then export PATH=$d:$PATH; break; fi
done
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
HARNESS=$(cd "$(dirname "${BASH_SOURCE[0]}")/harness" && pwd)

# build DIR: builds DIR/vrun
build() {
  (cd "$HARNESS" && go build -o "$1/vrun" .) >"$1/build.log" 2>&1
}

# build_race DIR: builds DIR/vrun_race, which the variants with the race detector use
build_race() {
  if (cd "$HARNESS" && CGO_ENABLED=1 go build -race -o "$1/vrun_race" .) >"$1/race.log" 2>&1; then
    export VRUN_RACE=$1/vrun_race
  else
    echo "note: no binary with the race detector can be built, data races are not looked for" >&2
    tail -5 "$1/race.log" >&2
  fi
}
