# Sourced by check.sh: builds the harness from /repo's current working tree.
# usage: vbuild DIR [race]
VERIF=${VERIF:-/verif}
REPO=${REPO:-/repo}
export HOME=/root
export PATH=/opt/veriftools/go1.25.14/bin:$PATH
unset GOROOT GOFLAGS
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build

vbuild() {
	local B=$1 race=$2
	mkdir -p "$B" || return 2
	cp "$REPO/go.mod" "$B/typast.mod" && cp "$REPO/go.sum" "$B/typast.sum" || return 2
	go mod edit -replace=github.com/mewmew/mathclass="$VERIF/sim/standin/mathclass" \
		-require=github.com/anishathalye/porcupine@v1.3.1 "$B/typast.mod" || return 2
	(cd "$VERIF/sim/simgen" && go build -o "$B/simgen" .) || return 2
	"$B/simgen" -repo "$REPO" -out "$B/gen" -rt "$VERIF/sim/rt" -harness "$VERIF/sim/harness" -modfile "$B/typast.mod" || return 2
	(cd "$REPO" && go build -mod=mod -modfile="$B/typast.mod" -overlay="$B/gen/overlay.json" ${race:+-race} \
		-o "$B/harness${race:+-race}" ./internal/verifsim/harness) || return 2
}
