prop='C07'; pkg='chains'
needs='cumulative scores that differ only above the low 64 bits, or wrap around them'
breaks='forks are ordered by the low 64 bits of their score, so a heavier fork whose score passed 2^64 is ranked below a lighter one'
edits=[('chains/entities.go','''	r := a[i].Score.Cmp(a[j].Score)
''','''	r := cmp.Compare(a[i].Score.Uint64(), a[j].Score.Uint64())
'''),('chains/entities.go','''import (
	"fmt"''','''import (
	"cmp"
	"fmt"''')]
demo=CH+'''func TestSeedDemo(t *testing.T) {
	l := zdLinkage(t)
	a := zdChain(t, l, "a", l.genesis, 2, 1, "1.0.0.1") // 2 blocks of score 2^64
	zdChain(t, l, "b", l.genesis, 1, 2, "1.0.1.1")     // one of 2^63
	fs, err := l.Forks(nil)
	if err != nil || len(fs) != 2 || fs[0].HeadBlock != a || !fs[0].Longest {
		t.Fatalf("forks: %v %v", fs, err)
	}
}
'''
