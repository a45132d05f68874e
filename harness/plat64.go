//go:build amd64 || arm64

package main

import "syscall"

const (
	wordBits = 64
	hugeSize = int64(1)<<33 + 1<<13
)

func mmapSparse(n int64) ([]byte, error) {
	return syscall.Mmap(-1, 0, int(n), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
}
