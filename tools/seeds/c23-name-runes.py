prop='C23'; pkg='.'
needs='a node name of more than 255 bytes but at most 255 characters'
breaks='a too long name is accepted'
edits=[('parameters.go','if len(str) > math.MaxUint8','if utf8.RuneCountInString(str) > math.MaxUint8'),('parameters.go','	"strings"\n','	"strings"\n	"unicode/utf8"\n')]
demo='''package main

import (
	"strings"
	"testing"
)

func TestSeedDemo(t *testing.T) {
	if _, err := checkName(strings.Repeat("a", 255)); err != nil {
		t.Fatal("a good name is refused")
	}
	if _, err := checkName(strings.Repeat("\u00fc", 128)); err == nil {
		t.Fatal("a name of 256 bytes is accepted")
	}
}
'''
