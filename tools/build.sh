# build_harness SCRATCH ID: builds $SCRATCH/vh from /repo's working tree
# (and, for the extractor's command line checks, $SCRATCH/xtemplate).
build_harness() {
  local s=$1 id=$2 flags=
  mkdir -p "$s/run"
  cat > "$s/go.work" <<W
go 1.25.0

use (
	$here/harness
	$REPO
	$REPO/cmd/xtemplate
)
W
  cp "$here/tools/go.work.sum" "$s/go.work.sum"
  cat > "$s/overlay.json" <<O
{"Replace": {"$REPO/cmd/xtemplate/verifbridge/bridge.go": "$here/harness/bridge/bridge.go"}}
O
  export GOWORK=$s/go.work
  [ "$id" = C21 ] && flags=-race
  # With edge counters in the code under test for the coverage-guided part; without them that part is left out.
  if [ -n "$flags" ] || ! (cd "$here/harness" && go build -buildvcs=false -tags verifcov -gcflags='github.com/youthlin/t/...=-d=libfuzzer' -ldflags=-checklinkname=0 -overlay "$s/overlay.json" -o "$s/vh" .) 2> "$s/cov.log"; then
    (cd "$here/harness" && go build -buildvcs=false $flags -overlay "$s/overlay.json" -o "$s/vh" .) || return 1
  fi
  case $id in
    C26|C27|C28|C29|C31|C33|C35) (cd "$REPO/cmd/xtemplate" && go build -buildvcs=false -o "$s/xtemplate" .) || return 1 ;;
  esac
  export GOWORK=off
}
