package main

import (
	"bytes"
	"fmt"
)

// KNew stands for a construction.
const KNew Kind = 200

// vast carries out single operations that move hundreds of megabytes, and looks at
// every byte. The contents repeat with a period that no block size is a multiple of.
func (ctx *Ctx) vast(kinds ...Kind) {
	if ctx.stop.Load() {
		return
	}
	cov := newCov()
	defer ctx.merge(cov)
	r := newR(mix(ctx.Seed, 251))
	const period = 65521
	pat := make([]byte, period+1<<16)
	r.Read(pat[:period])
	for i := period; i < len(pat); i++ {
		pat[i] = pat[i-period]
	}
	// the byte at position i of a buffer is pat[(i+shift)%period], xored
	fill := func(b []byte, shift int64) {
		for i := 0; i < len(b); {
			i += copy(b[i:], pat[(int64(i)+shift)%period:])
		}
	}
	diff := func(b []byte, shift int64, x byte) int {
		var tmp [1 << 16]byte
		for i := 0; i < len(b); i += len(tmp) {
			c := b[i:min(i+len(tmp), len(b))]
			w := pat[(int64(i)+shift)%period:][:len(c)]
			if x != 0 {
				for j := range w {
					tmp[j] = w[j] ^ x
				}
				w = tmp[:len(c)]
			}
			if !bytes.Equal(c, w) {
				return i + mismatch(c, w)
			}
		}
		return -1
	}
	flat := func(b []byte, x byte) int {
		var tmp [1 << 16]byte
		for j := range tmp {
			tmp[j] = x
		}
		for i := 0; i < len(b); i += len(tmp) {
			c := b[i:min(i+len(tmp), len(b))]
			if !bytes.Equal(c, tmp[:len(c)]) {
				return i + mismatch(c, tmp[:len(c)])
			}
		}
		return -1
	}
	sizes := []int64{1<<26 + 1, 1<<27 + 5, 300<<20 - 3}
	if ctx.Thorough {
		sizes = append(sizes, 1<<30+1<<20+7)
	}
	top := sizes[len(sizes)-1]
	store, other := make([]byte, top+64), make([]byte, top+64)
	for _, t := range targets {
		for _, k := range kinds {
			switch k {
			case KNew, KGrow, KSetAll, KClearAll, KFlipAll, KWriteBytes, KReadBytes:
			default:
				continue
			}
			for _, size := range sizes {
				if ctx.stop.Load() {
					return
				}
				o := &Op{K: k, N: 1}
				if k != KNew && o.method(t) == "" {
					continue
				}
				at, bad := -1, ""
				check := func(what string, i int) {
					if i >= 0 && at < 0 {
						at, bad = i, what
					}
				}
				mem := store[:size:size]
				fill(mem, 0)
				s := newSubj(t, t.New(mem))
				var res *Res
				switch k {
				case KNew: // several slices, one after another
					h := size/3 + 1
					fill(other[:size], 7)
					s = newSubj(t, t.New(mem[:h:h], other[:size-h], mem[:5]))
					res = &Res{}
					l := s.live()
					if int64(len(l)) != size+5 {
						check("the size", len(l))
					} else {
						check("the first part", diff(l[:h], 0, 0))
						check("the second part", diff(l[h:size], 7, 0))
						check("the last part", diff(l[size:], 0, 0))
					}
				case KGrow:
					o.N = int64(1 + r.Intn(5000))
					res = s.exec(o)
					l := s.live()
					if int64(len(l)) != size+o.N {
						check("the size", len(l))
					} else {
						check("the contents before", diff(l[:size], 0, 0))
						check("the added bytes", flat(l[size:], 0))
					}
				case KSetAll, KClearAll, KFlipAll:
					res = s.exec(o)
					l := s.live()
					switch {
					case int64(len(l)) != size:
						check("the size", len(l))
					case k == KFlipAll:
						check("the contents", diff(l, 0, 0xFF))
					case k == KSetAll:
						check("the contents", flat(l, 0xFF))
					default:
						check("the contents", flat(l, 0))
					}
				case KWriteBytes:
					o.N, o.Off = 0, int64(r.Intn(9))
					n := size - o.Off - int64(r.Intn(9))
					fill(other[:n], 11)
					o.Data = other[:n]
					res = s.exec(o)
					o.Data = nil
					l := s.live()
					if int64(len(l)) != size {
						check("the size", len(l))
					} else {
						check("the bytes before", diff(l[:o.Off], 0, 0))
						check("the bytes written", diff(l[o.Off:o.Off+n], 11, 0))
						check("the bytes behind", diff(l[o.Off+n:], o.Off+n, 0))
						check("the argument", diff(other[:n], 11, 0))
					}
				case KReadBytes:
					o.Off = int64(r.Intn(9))
					o.N = size - o.Off - int64(r.Intn(9))
					res = s.exec(o)
					if int64(len(res.Raw)) != o.N {
						check("the length of the result", len(res.Raw))
					} else {
						check("the result", diff(res.Raw, o.Off, 0))
					}
					check("the contents", diff(s.live(), 0, 0))
				}
				if res.Panicked {
					ctx.report(&Viol{Text: fmt.Sprintf("%s: %s panicked on a buffer of %d bytes: %v", t.ID, vastName(o), size, res.Panic), Kind: "vast"})
					return
				}
				if at >= 0 {
					ctx.report(&Viol{Text: fmt.Sprintf("%s: %s with a buffer of %d bytes: %s wrong (at or of %d)", t.ID, vastName(o), size, bad, at), Kind: "vast"})
					return
				}
				cov.hit(hashInt(hashInt(hashStr(hash0, t.ID), int64(k)), size), true)
				cov.count("operations that move 64 MiB and more", 1)
			}
		}
	}
}

func vastName(o *Op) string {
	if o.K == KNew {
		return "construction from several slices"
	}
	return o.String()
}
