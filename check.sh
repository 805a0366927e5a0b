#!/bin/bash
# check.sh PROPERTY quick|thorough [more arguments for the simulator]
# check.sh replay FILE
T0=$(date +%s)
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0 GOPROXY=off GOTOOLCHAIN=local
PROP=$1; TIER=${2:-quick}; shift 2
B=$(mktemp -d /tmp/sadlsim.XXXXXX) || exit 2
trap 'rm -rf "$B"' EXIT
trap 'exit 2' INT TERM
build() {
  (cd "$HERE/sim/prep" && go build -o "$B/prep" .) || return 2
  "$B/prep" -repo "${SADL_REPO:-/repo}" -sim "$HERE/sim" -out "$B" "$@" || return 2
}
SEED=${VERIF_SEED:-1}
case " $* " in *" -seed "*) SEED=$(echo " $*" | sed 's/.* -seed \([0-9]*\).*/\1/');; esac
EXTRA=""
unusable() { # PROPERTY WHAT LOG: the generated code is of no use to anyone
  mkdir -p "$HERE/replays" "$HERE/evidence"
  R="$HERE/replays/$1-unusable.json"
  python3 - "$1" "$2" "$3" "$R" "$HERE/evidence/$1.json" "$SEED" <<'PY'
import json,sys,datetime
p,what,log,r,e,seed=sys.argv[1:]
msg=what+": "+open(log).read()[:4000]
json.dump({"property":p,"class":"unusable","message":msg,"seed":int(seed)},open(r,"w"),indent=1)
json.dump({"property_id":p,"result":"violation","violation":msg,"finished":datetime.datetime.now().isoformat()},open(e,"w"),indent=1)
PY
  echo "$1 violated: $2"
  echo "VIOLATION property=$1 replay=$R"
  exit 1
}
compiles() { # does the generated code compile as it is, without the simulator?
  mkdir -p "$B/plain" && cp -r "$B/svc/." "$B/plain" && rm -f "$B"/plain/*/zz_glue.go
  for m in mux handlers; do cp -r "$HERE/sim/stubs/github.com_gorilla_$m" "$B/plain/_$m"; printf 'module github.com/gorilla/%s\n\ngo 1.20\n' $m >"$B/plain/_$m/go.mod"; done
  printf 'module simgen\n\ngo 1.20\n\nrequire (\n\tgithub.com/gorilla/mux v0.0.0\n\tgithub.com/gorilla/handlers v0.0.0\n)\nreplace github.com/gorilla/mux => ./_mux\nreplace github.com/gorilla/handlers => ./_handlers\n' >"$B/plain/go.mod"
  (cd "$B/plain" && go build ./... ) >"$B/plain.log" 2>&1
}
built() { # build, and say so if it is the generated code that does not compile
  build $EXTRA >"$B/log" 2>&1 && return
  case "$1 $EXTRA" in P1[26]*-gen*) compiles || { cat "$B/plain.log" >&2; unusable $1 "the generated code does not compile" "$B/plain.log"; };; esac
  cat "$B/log" >&2; echo "check: cannot build the simulator from the tree" >&2; exit 2
}
extra() { # what has to be built in
  case $1 in
  P13|P14|P15|P17) EXTRA="-cmd";;
  P10|P12|P16) # code generated from the tree
    build >"$B/log" 2>&1 && mkdir -p "$B/svc" || { cat "$B/log" >&2; echo "check: cannot build the simulator from the tree" >&2; exit 2; }
    "$B/sim" -emit "$B/svc" -seed "$SEED" $([ $1 = P16 ] && echo -client) >"$B/log" 2>&1 || {
      cat "$B/log" >&2
      grep -q "generating service" "$B/log" && [ $1 != P10 ] && unusable $1 "the services cannot be generated" "$B/log"
      echo "check: cannot generate the services" >&2; exit 2; }
    EXTRA="-gen $B/svc";;
  esac
}
[ "$PROP" = replay ] || extra $PROP
if [ "$PROP" = replay ]; then
  FILE=$TIER
  P=$(sed -n 's/.*"property": *"\(P[0-9]*\)".*/\1/p' "$FILE" | head -1)
  SEED=$(sed -n 's/^ *"seed": *\([0-9]*\).*/\1/p' "$FILE" | head -1); SEED=${SEED:-1}
  extra $P
  built $P
  "$B/sim" -build "$B" -replay "$FILE" "$@"
  exit $?
fi
built $PROP
"$B/sim" -prop "$PROP" -tier "$TIER" -seed "$SEED" -build "$B" -t0 "$T0" \
  -evidence "$HERE/evidence/$PROP.json" -replays "$HERE/replays" -known "$HERE/known_findings.json" "$@"
