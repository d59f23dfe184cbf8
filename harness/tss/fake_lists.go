package tss

import (
	"encoding/base64"

	"gitlab.com/thorchain/tss/go-tss/verifrt"
)

// c14Perm returns an arbitrary reordering.
func c14Perm(a []string) []string {
	rest := append([]string{}, a...)
	var out []string
	for len(rest) > 0 {
		i := verifrt.Choose("order", len(rest))
		out = append(out, rest[i])
		rest = append(append([]string{}, rest[:i]...), rest[i+1:]...)
	}
	return out
}

// c14Same tells whether two lists hold the same strings, each as often.
func c14Same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	rest := append([]string{}, b...)
	for _, x := range a {
		found := false
		for i, y := range rest {
			if x == y {
				rest = append(rest[:i], rest[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func c12Encode(raw [][]byte) []string {
	var msgs []string
	for _, r := range raw {
		msgs = append(msgs, base64.StdEncoding.EncodeToString(r))
	}
	return msgs
}
