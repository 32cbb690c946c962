[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS= GOPROXY=off GONOSUMDB=* GONOSUMCHECK=1 GOTOOLCHAIN=local
