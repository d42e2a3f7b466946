export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOENV=off GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GO111MODULE=off GOPROXY=off GOFLAGS= GOWORK=off GOPATH=${SIMPLEGP:-/tmp/simplegp}:/verif/go:/repo/lib/go GOCACHE=/verif/.gocache CGO_ENABLED=0
