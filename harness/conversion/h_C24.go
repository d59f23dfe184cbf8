package conversion

import "gitlab.com/thorchain/tss/go-tss/verifrt"

// c24Comp is a symbolic numeric component of up to max digits and its value.
func c24Comp(name string, max int) (string, uint64) {
	n := verifrt.Choose(name+"-len", max) + 1
	s := verifrt.Str(name, n)
	v := uint64(0)
	for i := 0; i < n; i++ {
		verifrt.Assume(verifrt.And(s[i] >= '0', s[i] <= '9'))
		v = v*10 + uint64(s[i]-'0')
	}
	if n > 1 {
		verifrt.Assume(s[0] != '0')
	}
	return s, v
}

// C24: versions are compared component by component as numbers.
// bound: both versions fully symbolic, 1..2 digits per component (quick), 1..3 (thorough)
// outside: longer components
func VerifH_C24_NumericOrder() {
	max := 2
	if verifrt.Thorough() {
		max = 3
	}
	a1, x1 := c24Comp("a1", max)
	a2, x2 := c24Comp("a2", max)
	a3, x3 := c24Comp("a3", max)
	b1, y1 := c24Comp("b1", max)
	b2, y2 := c24Comp("b2", max)
	b3, y3 := c24Comp("b3", max)
	lt, err := VersionLTCheck(a1+"."+a2+"."+a3, b1+"."+b2+"."+b3)
	verifrt.Reach("compared")
	verifrt.Assert(err == nil, "C24-wellformed-versions-compare")
	want := verifrt.Or(x1 < y1, verifrt.And(x1 == y1, x2 < y2), verifrt.And(x1 == y1, x2 == y2, x3 < y3))
	verifrt.Assert(lt == want, "C24-numeric-order")
}

// c24Num recognises a numeric identifier without leading zero.
func c24Num(s string) bool {
	if len(s) == 0 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !verifrt.And(s[i] >= '0', s[i] <= '9') {
			return false
		}
	}
	return len(s) == 1 || s[0] != '0'
}

func c24Ident(s string) bool {
	if len(s) == 0 {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !verifrt.Or(verifrt.And(c >= '0', c <= '9'), verifrt.And(c >= 'a', c <= 'z'), verifrt.And(c >= 'A', c <= 'Z'), c == '-') {
			return false
		}
	}
	return true
}

// c24Dots splits at dots and applies f to every part.
func c24Dots(s string, f func(string) bool) bool {
	from := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			if !f(s[from:i]) {
				return false
			}
			from = i + 1
		}
	}
	return true
}

// c24Pre: identifier; a numeric one has no leading zero.
func c24Pre(s string) bool {
	if !c24Ident(s) {
		return false
	}
	num := true
	for i := 0; i < len(s); i++ {
		num = verifrt.And(num, s[i] >= '0', s[i] <= '9')
	}
	if num {
		return len(s) == 1 || s[0] != '0'
	}
	return true
}

// c24Valid is an independent recogniser of semantic versions.
func c24Valid(s string) bool {
	d1 := -1
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			d1 = i
			break
		}
	}
	if d1 < 0 || !c24Num(s[:d1]) {
		return false
	}
	s = s[d1+1:]
	d1 = -1
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			d1 = i
			break
		}
	}
	if d1 < 0 || !c24Num(s[:d1]) {
		return false
	}
	s = s[d1+1:]
	for i := 0; i < len(s); i++ {
		if s[i] == '+' {
			if !c24Dots(s[i+1:], c24Ident) {
				return false
			}
			s = s[:i]
			break
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			if !c24Dots(s[i+1:], c24Pre) {
				return false
			}
			s = s[:i]
			break
		}
	}
	return c24Num(s)
}

// C24: a malformed version is an error, a well-formed one never is.
// bound: every string of up to 5 (quick) or 6 (thorough) 7-bit characters
// outside: longer strings, non-ASCII characters
func VerifH_C24_Malformed() {
	max := 5
	if verifrt.Thorough() {
		max = 6
	}
	n := verifrt.Choose("len", max+1)
	s := verifrt.Str("v", n)
	for i := 0; i < n; i++ {
		verifrt.Assume(s[i] < 0x80)
	}
	_, err := VersionLTCheck(s, "0.14.0")
	_, err2 := VersionLTCheck("0.14.0", s)
	ok := c24Valid(s)
	if ok {
		verifrt.Reach("valid")
	} else {
		verifrt.Reach("invalid")
	}
	verifrt.Assert((err == nil) == ok, "C24-malformed-version-is-an-error")
	verifrt.Assert((err2 == nil) == ok, "C24-malformed-version-is-an-error")
}
