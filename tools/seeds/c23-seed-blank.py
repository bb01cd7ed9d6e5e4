prop='C23'; pkg='.'
needs='a blank element in the list of seed peers that is not the last one'
breaks='the seed peers after a blank are ignored'
edits=[('parameters.go','if len(a) == 0 {\n\t\t\tcontinue','if len(a) == 0 {\n\t\t\tbreak')]
demo='''package main

import (
	"testing"

	"github.com/wavesplatform/gowaves/pkg/settings"
)

func TestSeedDemo(t *testing.T) {
	a, err := parseSeedPeers("45.1.1.1:6868, ,45.1.1.2:6868", settings.MainNet)
	if err != nil {
		t.Fatal(err)
	}
	if len(a) < 2 || a[len(a)-1].String() != "45.1.1.2:6868" {
		t.Fatal(a)
	}
}
'''
