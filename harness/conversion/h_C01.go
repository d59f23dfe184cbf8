package conversion

import "gitlab.com/thorchain/tss/go-tss/verifrt"

// C01: t+1 is the smallest group of at least two thirds of n.
// bound: every n from 1 to 2^31 (floating point decided by cvc5)
func VerifH_C01_Threshold() {
	n := verifrt.Int("n")
	verifrt.Assume(n >= 1 && n <= 1<<31)
	t, err := GetThreshold(n)
	verifrt.Reach("called")
	verifrt.Assert(err == nil, "C01-no-error-for-positive-size")
	verifrt.Assert(verifrt.And(3*(t+1) >= 2*n, 3*t < 2*n), "C01-threshold-is-two-thirds")
}

// C01: a negative size is refused.
// bound: every negative int
func VerifH_C01_Negative() {
	n := verifrt.Int("n")
	verifrt.Assume(n < 0)
	_, err := GetThreshold(n)
	verifrt.Reach("called")
	verifrt.Assert(err != nil, "C01-negative-size-refused")
}
