//go:build !amd64

package main

func (ctx *Ctx) wideBits() {}

func (ctx *Ctx) wideMoves(types string) {}
