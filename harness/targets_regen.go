//go:build regen

package main

import r3 "regen.local/crunch/v3"

func init() {
	extraTargets = append(extraTargets,
		addTarget(&Target{ID: "regen.v3.Buffer", Ver: 3,
			New:      func(s ...[]byte) any { return r3.NewBuffer(s...) },
			Overread: r3.BufferOverreadError, Underread: r3.BufferUnderreadError,
			Overwrite: r3.BufferOverwriteError, Underwrite: r3.BufferUnderwriteError,
			InvalidCount: r3.BufferInvalidByteCountError}, (*r3.Buffer)(nil)),
		addTarget(&Target{ID: "regen.v3.MiniBuffer", Ver: 3, Mini: true,
			New: func(s ...[]byte) any { var b *r3.MiniBuffer; r3.NewMiniBuffer(&b, s...); return b },
			Into: func(p any, s ...[]byte) any {
				b := p.(*r3.MiniBuffer)
				r3.NewMiniBuffer(&b, s...)
				return b
			}}, (*r3.MiniBuffer)(nil)))
}
