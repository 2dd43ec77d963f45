//go:build !verifcov

package main

func covCounters() []byte { return nil }

var cmpSeen [0]byte
var cmpOn bool
