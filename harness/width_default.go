//go:build !orgxwidth

package main

func newLibWidth(amb bool) func(rune) int { return runewidthOf(amb) }
