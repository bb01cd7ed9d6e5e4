prop='C09'; pkg='chains'
needs='a base target that is a power of two'
breaks='the dividend is 2^64-1, so the score is one too small exactly when the base target divides 2^64'
edits=[('chains/utils.go','"18446744073709551616"','"18446744073709551615"')]
demo=CH+'''func TestSeedDemo(t *testing.T) {
	for _, bt := range []uint64{1, 2, 64, 1 << 40, 1 << 63, 3, 100} {
		want := new(big.Int).Div(new(big.Int).Lsh(big.NewInt(1), 64), new(big.Int).SetUint64(bt))
		if got := calculateScore(bt); got.Cmp(want) != 0 {
			t.Fatalf("score of base target %d is %s, want %s", bt, got, want)
		}
	}
}
'''
