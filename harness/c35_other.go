//go:build !amd64

package main

func isaReturns(c *Ctx) { panic("harness: C35 has no isa build here") }
