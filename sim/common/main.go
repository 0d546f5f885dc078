//go:build go1.22

package main

import "flychain/zzverifsim/kit"

func main() { kit.Main() }
