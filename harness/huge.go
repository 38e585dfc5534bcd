//go:build !amd64

package main

func hugeOps(c *Ctx, sel func(*Op) bool)                                    {}
func hugeReduce(c *Ctx, name string, f func([]float32) float32, isMax bool) {}
