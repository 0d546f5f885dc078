//go:build go1.22

package main

import (
	"flychain/crypto"
	"flychain/zzverifsim/kit"
)

func main() {
	kit.SetupRun = append(kit.SetupRun, func() {
		if kit.Cur != "C22" {
			crypto.S256() // set up once per process
		}
	})
	kit.Main()
}
