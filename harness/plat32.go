//go:build !amd64 && !arm64

package main

import "syscall"

const (
	wordBits = 32
	// bit positions beyond the 32-bit range, in an address space that can hold it
	hugeSize = int64(1)<<29 + 1<<13
)

func mmapSparse(n int64) ([]byte, error) {
	return syscall.Mmap(-1, 0, int(n), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
}
