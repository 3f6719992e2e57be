//go:build ctlhash

package main

import "hash/maphash"

const controlled = true

func installHash() {
	maphash.VerifFn = contentHash
	maphash.VerifMakeSeed = func() uint64 { return curSeed }
}

// uninstallHash leaves a fixed strong hash and real random seeds.
func uninstallHash() {
	maphash.VerifFn = nil
	maphash.VerifMakeSeed = nil
}
