cd "$(dirname "$0")/../vc" && mkdir -p ../bin && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/vc .
