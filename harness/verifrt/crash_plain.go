//go:build !verifcrash
// +build !verifcrash

package verifrt

func crashBegin()    {}
func faultBegin()    {}
func crashEnd() bool { return false }
