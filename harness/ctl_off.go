//go:build !ctlhash

package main

const controlled = false

func installHash()   {}
func uninstallHash() {}
