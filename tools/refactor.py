#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo, to see that every check stays quiet.
usage: refactor.py NAME DIR    (edits DIR in place);   refactor.py --list"""
import re, sys, os, subprocess

R = {}
def refactor(f): R[f.__name__] = f; return f
def rd(d, p): return open(os.path.join(d, p)).read()
def wr(d, p, s): open(os.path.join(d, p), 'w').write(s)
def sub(d, p, pairs):
    s = rd(d, p)
    for a, b in pairs:
        assert a in s, (p, a)
        s = s.replace(a, b)
    wr(d, p, s)
def rx(d, p, a, b, flags=re.S):
    s = rd(d, p); t, n = re.subn(a, b, s, flags=flags)
    assert n, (p, a)
    wr(d, p, t); return n
def regen(d):
    subprocess.check_call('t=$(mktemp -d) && cp -r %s/generation $t/g && cd $t/g && go build -o $t/x . && cd %s/v3 && $t/x -generation complex >/dev/null && gofmt -w *.generated.go' % (d, d), shell=True)

CP = ['v1/buffer.go', 'v2/buffer.go']
MB = ['v1/minibuf.go', 'v2/minibuf.go']
V3T = ['v3/_buffer.go', 'v3/_minibuf.go']
V3G = ['v3/buffer.generated.go', 'v3/minibuf.generated.go']

@refactor
def locked_closure(d):
    """v1/v2: the critical sections of the bit and whole-buffer operations run in a closure passed to a helper"""
    for p in CP:
        s = rd(d, p)
        s, n = re.subn(r'(func \(b \*Buffer\) (clearallbits|setallbits|flipallbits|seekbit|seek|grow|refresh|alignbit|alignbyte|setbit|setbits|flipbit)\([^)]*\) \{\n)\n\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n(.*?)\n\}\n', lambda m: m.group(1) + '\n\tb.exclusive(func() {\n' + m.group(3) + '\n\t})\n\n}\n', s, flags=re.S)
        assert n >= 10, n
        s += '\nfunc (b *Buffer) exclusive(section func()) {\n\n\tb.Mutex.Lock()\n\tdefer b.Mutex.Unlock()\n\tsection()\n\n}\n'
        wr(d, p, s)

@refactor
def rename_fields(d):
    sub(d, 'v1/buffer.go', [('b.cursor.', 'b.seqMu.'), ('cursor sync.Mutex', 'seqMu sync.Mutex')])

@refactor
def explicit_unlock(d):
    """v1/v2: unlock before panicking / after the work instead of defer where no panic can occur in between"""
    for p in CP:
        s = rd(d, p)
        for name in ('clearallbits', 'setallbits', 'flipallbits', 'refresh', 'alignbit', 'alignbyte'):
            s, n = re.subn(r'(func \(b \*Buffer\) %s\(\) \{\n\n\tb\.Lock\(\)\n)\tdefer b\.Unlock\(\)\n(.*?)\n\}\n' % name, lambda m: m.group(1) + re.sub(r'(\t+)return\n', r'\1b.Unlock()\n\1return\n', m.group(2)) + '\n\tb.Unlock()\n\n}\n', s, flags=re.S)
            assert n == 1
        s, n = re.subn(r'(func \(b \*Buffer\) flipbit\(off int64\) \{\n\n\tb\.Lock\(\)\n)\tdefer b\.Unlock\(\)\n(.*?)\n\}\n', lambda m: m.group(1) + m.group(2).replace('\t\tpanic', '\t\tb.Unlock()\n\t\tpanic') + '\n\tb.Unlock()\n\n}\n', s, flags=re.S)
        assert n == 1
        wr(d, p, s)

@refactor
def rwmutex(d):
    """v1/v2: sync.RWMutex, reads under RLock"""
    for p in CP:
        s = rd(d, p)
        s = s.replace('\n\tsync.Mutex\n}', '\n\tsync.RWMutex\n}')
        s, n = re.subn(r'(func \(b \*Buffer\) (?:read\w*)\([^{]*\{\n)\n\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)', r'\1\n\tb.RLock()\n\tdefer b.RUnlock()', s)
        assert n >= 4, n
        wr(d, p, s)

@refactor
def one_lock(d):
    """v1/v2: sequential bit and seek operations hold the embedded lock throughout instead of a second one"""
    for p in CP:
        s = rd(d, p)
        arg = '' if False else ''
        # bits
        s = s.replace('''	out = b.readbit(b.boff)
	b.seekbit(1, true)
	return
''', '''	b.Lock()
	defer b.Unlock()

	out = b.getbit(b.boff)
	b.boff++
	return
''')
        s = s.replace('''	b.setbit(b.boff, data)
	b.seekbit(1, true)
''', '''	b.Lock()
	defer b.Unlock()

	b.putbit(b.boff, data)
	b.boff++
''')
        assert s.count('b.getbit(b.boff)') == 1 and s.count('b.putbit(b.boff, data)') == 1
        wr(d, p, s)

@refactor
def atomic_seek_inline(d):
    """v1/v2: seek/seekbit/align inlined in the public methods"""
    for p in CP:
        s = rd(d, p)
        for pub, priv, f in (('Seek', 'seek', 'off'), ('SeekBit', 'seekbit', 'boff')):
            s, n = re.subn(r'(func \(b \*Buffer\) %s\(off int64, relative bool\) \{.*?)\tb\.%s\(off, relative\)\n' % (pub, priv), lambda m: m.group(1) + '\tb.Lock()\n\tdefer b.Unlock()\n\n\tif !relative {\n\n\t\tb.%s = 0\n\n\t}\n\tb.%s += off\n' % (f, f), s, count=1, flags=re.S)
            assert n == 1
        wr(d, p, s)

@refactor
def live_sizes(d):
    """sizes computed from the slice rather than cached"""
    for p in CP:
        sub(d, p, [('func (b *Buffer) Capacity() int64 {\n\n\treturn b.cap', 'func (b *Buffer) Capacity() int64 {\n\n\treturn int64(len(b.buf))'),
                   ('func (b *Buffer) BitCapacity() int64 {\n\n\treturn b.bcap', 'func (b *Buffer) BitCapacity() int64 {\n\n\treturn int64(len(b.buf)) << 3')])
    for p in V3T[:1] + V3G[:1]:
        sub(d, p, [('ByteCapacity() int64 {\n\n\treturn b.cap', 'ByteCapacity() int64 {\n\n\treturn int64(len(b.buf))')])

@refactor
def panic_helper(d):
    for p in ['v1/buffer.go', 'v2/buffer.go', 'v3/buffer.generated.go']:
        s = rd(d, p)
        s = re.sub(r'panic\((Buffer\w+(?:read|write)Error)\)', r'refuse(\1)', s)
        s += '\nfunc refuse(err Error) {\n\n\tpanic(err)\n\n}\n'
        wr(d, p, s)
    s = rd(d, 'v3/_buffer.go')
    # the template keeps panicking; the generator emits panics: only the shipped file uses the helper
@refactor
def check_order(d):
    """negative positions are looked at first"""
    for p in ['v1/buffer.go', 'v2/buffer.go', 'v3/buffer.generated.go']:
        s = rd(d, p)
        s, n = re.subn(r'(\tif off > \(b\.bcap - 1\) \{\s*panic\(Buffer\w+Error\)\s*\}\n)\n?(\tif off < 0x00 \{\s*panic\(Buffer\w+Error\)\s*\}\n)', r'\2\n\1', s)
        assert n >= 2
        wr(d, p, s)

@refactor
def bulk_ops(d):
    """whole-buffer operations word-wise, with tails"""
    body = {'flip': 'x ^= 0xFFFFFFFFFFFFFFFF', 'set': 'x = 0xFFFFFFFFFFFFFFFF', 'clear': 'x = 0'}
    for p, imp in (('v1/buffer.go', 0), ('v2/buffer.go', 1)):
        s = rd(d, p)
        for nm, st in body.items():
            s, n = re.subn(r'(func \(b \*Buffer\) %sallbits\(\) \{\n\n\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n).*?\n\}\n' % nm, lambda m: m.group(1) + '''
	p := b.buf
	for len(p) >= 8 {

		x := binary.LittleEndian.Uint64(p)
		%s
		binary.LittleEndian.PutUint64(p, x)
		p = p[8:]

	}
	for i := range p {

		x := uint64(p[i])
		%s
		p[i] = byte(x)

	}

}
''' % (st, st), s, flags=re.S)
            assert n == 1
        if imp: s = s.replace('import "sync"', 'import (\n\t"encoding/binary"\n\t"sync"\n)') if 'import "sync"' in s else s.replace('import (\n', 'import (\n\t"encoding/binary"\n')
        wr(d, p, s)

@refactor
def bits_masked(d):
    """v1/v2: readbits byte-wise"""
    for p in CP:
        s = rd(d, p)
        s, n = re.subn(r'(func \(b \*Buffer\) readbits\(off, n int64\) \(\w+ uint64\) \{\n\n\tb\.Lock\(\)\n\tdefer b\.Unlock\(\)\n).*?\n\}\n', lambda m: re.sub(r'\(\w+ uint64\)', 'uint64', m.group(1)) + '''
	if n <= 0 {

		return 0

	}
	b.getbit(off)
	b.getbit(off + n - 1)
	var v uint64
	for n > 0 {

		bit := off % 8
		take := 8 - bit
		if take > n {

			take = n

		}
		chunk := uint64(b.buf[off/8]) >> uint64(8-bit-take) & (1<<uint64(take) - 1)
		v = v<<uint64(take) | chunk
		off += take
		n -= take

	}
	return v

}
''', s, flags=re.S)
        assert n == 1
        wr(d, p, s)

@refactor
def v2_encoding_binary(d):
    """v2: integers through encoding/binary"""
    for p in ['v2/buffer.go', 'v2/minibuf.go']:
        s = rd(d, p)
        for bits in (16, 32, 64):
            B = bits // 8
            for en, lib in (('LE', 'LittleEndian'), ('BE', 'BigEndian')):
                s, n = re.subn(r'(\n\twrite_loop:\n)((?:\t\tb\.buf\[[^\n]*\n)+)(\n\t\ti\+\+)', r'\1\2\3', s)
                s, n = re.subn(r'(func \(b \*\w+\) writeU%d%s\(.*?write_loop:\n)(?:\t\tb\.buf\[[^\n]*\n)+' % (bits, en), lambda m: m.group(1) + '\t\tbinary.%s.PutUint%d(b.buf[off+int64(i*%d):], data[i])\n' % (lib, bits, B), s, count=1, flags=re.S)
                assert n == 1
                s, n = re.subn(r'(func \(b \*(\w+)\) readU%d%s\(.*?read_loop:\n\t\t)(\(\*out\)|out)\[i\] = [^\n]*(?:\n\t\t\tuint[^\n]*)+\n' % (bits, en), lambda m: m.group(1) + m.group(3) + '[i] = binary.%s.Uint%d(b.buf[off+i*%d:])\n' % (lib, bits, B), s, count=1, flags=re.S)
                assert n == 1
        s = s.replace('import "sync"', 'import (\n\t"encoding/binary"\n\t"sync"\n)') if 'import "sync"' in s else s.replace('import (\n', 'import (\n\t"encoding/binary"\n')
        wr(d, p, s)

@refactor
def v3_loops(d):
    """v3: labels and gotos in template and generated code become for loops"""
    for p in V3T + V3G:
        s = rd(d, p)
        s, n = re.subn(r'\n\t\{\n\t(\w+_loop):\n(.*?)\n\t\ti\+\+\n\t\tif i < n \{\n+\t\t\tgoto \1\n+\t\t\}\n*\t\}\n', lambda m: '\n\tfor ; i < n; i++ {\n' + m.group(2) + '\n\t}\n', s, flags=re.S)
        assert n >= 5, (p, n)
        wr(d, p, s)
    # the generator emits loops too
    s = rd(d, 'generation/complex.go')
    for w in ('read', 'write'):
        s = s.replace('''						loop.Id("%s_loop:")
''' % w, '').replace('''						loop.Id("i").Op("++")
						loop.If(jen.Id("i").Op("<").Id("n")).
							Block(jen.Goto().Id("%s_loop"))
''' % w, '')
    s = s.replace('body.BlockFunc(func(loop *jen.Group) {', 'body.For(jen.Empty(), jen.Id("i").Op("<").Id("n"), jen.Id("i").Op("++")).BlockFunc(func(loop *jen.Group) {')
    wr(d, 'generation/complex.go', s)

@refactor
def v3_shipped_only(d):
    """only the shipped files are edited: buffer words through a helper, local variables"""
    for p in V3G:
        s = rd(d, p)
        s, n = re.subn(r'\tb\.SeekByte\((.*), true\)', r'\tb.off += \1', s)
        assert n > 10
        s = s.replace('b.bcap = b.cap * 8', 'b.bcap = b.cap << 3')
        wr(d, p, s)

@refactor
def v3_floats_math(d):
    """v3: float conversions through math, shipped files and generator"""
    for p in V3G:
        s = rd(d, p)
        s, n = re.subn(r'\*\(\*float(32|64)\)\(unsafe\.Pointer\(&u\)\)', r'math.Float\1frombits(u)', s)
        s, k = re.subn(r'\*\(\*uint(32|64)\)\(unsafe\.Pointer\(&data\[i\]\)\)', r'math.Float\1bits(data[i])', s)
        assert n and k
        s = s.replace('import "unsafe"', 'import "math"')
        wr(d, p, s)
    for p in V3T:
        sub(d, p, [('import "unsafe"', 'import "math"')])
    s = rd(d, 'generation/complex.go')
    s, n = re.subn(r'orChain\.Op\("\*"\)\.Parens\(jen\.Op\("\*"\)\.Id\(intType\)\)\.Parens\(jen\.Id\("unsafe"\)\.Dot\("Pointer"\)\.\s*Call\(jen\.Op\("&"\)\.Id\("u"\)\)\)', r'orChain.Id("math").Dot("Float" + arguments[3] + "frombits").Call(jen.Id("u"))', s)
    s, k = re.subn(r'jen\.Op\("\*"\)\.Parens\(jen\.Op\("\*"\)\.Id\(strings\.Join\(\[\]string\{"uint", arguments\[3\]\}, ""\)\)\)\.Parens\(jen\.Id\("unsafe"\)\.Dot\("Pointer"\)\.\s*Call\(jen\.Op\("&"\)\.Id\("data"\)\.Index\(jen\.Id\("i"\)\)\)\)', r'jen.Id("math").Dot("Float" + arguments[3] + "bits").Call(jen.Id("data").Index(jen.Id("i")))', s)
    assert n == 2 and k == 5, (n, k)
    wr(d, 'generation/complex.go', s)

@refactor
def v3_grow_append(d):
    """v3: Grow through append and explicit doubling, same for templates"""
    for p in V3T + V3G:
        s = rd(d, p)
        s, n = re.subn(r'\ttmp := make\(\[\]byte, b\.cap\+n, \(int64\(cap\(b\.buf\)\)\+n\)\*2\)\n\tcopy\(tmp, b\.buf\)\n\tb\.buf = tmp\n', '\troom := 2 * (n + int64(cap(b.buf)))\n\tb.buf = append(make([]byte, 0, room), b.buf...)[:b.cap+n]\n', s)
        assert n == 1
        s, n = re.subn(r'\t\tfor i := b\.cap; i < b\.cap\+n; i\+\+ \{\s*b\.buf\[i\] = 0\s*\}\n', '\t\tfresh := b.buf[b.cap:]\n\t\tfor i := range fresh {\n\n\t\t\tfresh[i] = 0\n\n\t\t}\n', s)
        assert n == 1
        wr(d, p, s)

@refactor
def v3_bits_direct(d):
    """v3: sequential bit operations update the cursor directly; SetBits keeps one mask per bit"""
    for p in V3T + V3G:
        s = rd(d, p)
        s = s.replace('\tb.SeekBit(1, true)\n', '\tb.boff++\n').replace('\tb.SeekBit(n, true)\n', '\tb.boff += n\n')
        s = s.replace('uint(7-(off%8))', 'uint(^off&7)')
        wr(d, p, s)

@refactor
def mini_loops(d):
    """v1/v2 MiniBuffer: for loops, helpers for single bits"""
    for p in MB:
        s = rd(d, p)
        s, n = re.subn(r'\n\t\{\n\t(\w+_loop):\n(.*?)\n\t\ti\+\+\n\t\tif i < n \{\n+\t\t\tgoto \1\n+\t\t\}\n*\t\}\n', lambda m: '\n\tfor ; i < n; i++ {\n' + m.group(2) + '\n\t}\n', s, flags=re.S)
        assert n >= 5 or p[1] == '1', (p, n)
        s = s.replace('1 << uint(7-(off%8))', '0x80 >> uint(off&7)')
        wr(d, p, s)

@refactor
def new_single_path(d):
    """constructors: no switch; sizes computed up front for several slices"""
    for p in ['v1/buffer.go', 'v2/buffer.go']:
        s = rd(d, p)
        s, n = re.subn(r'\tdefault:\n\t\tfor _, s := range slices \{\s*buf\.buf = append\(buf\.buf, s\.\.\.\)\s*\}\n', '''	default:
		total := 0
		for _, s := range slices {

			total += len(s)

		}
		joined := make([]byte, 0, total)
		for _, s := range slices {

			joined = append(joined, s...)

		}
		buf.buf = joined
''', s)
        assert n == 1
        s = s.replace('	buf.refresh()\n	return\n', '	buf.cap = int64(len(buf.buf))\n	buf.bcap = buf.cap << 3\n	return buf\n')
        wr(d, p, s)

@refactor
def v1_complex_rewrite(d):
    """v1: complex writes encode straight into their place, complex reads through a closure"""
    for p in ['v1/buffer.go']:
        s = rd(d, p)
        for bits, zero in ((16, 2), (32, 4), (64, 8)):
            s, n = re.subn(r'\t\t\ttdata = \[\]byte\{[^}]*\}\n\t\t\tendian\.PutUint%d\(tdata, adata\[i\]\)\n(\n\t\t\tdata\[[^\n]*)+\n?((\t\t\tdata\[[^\n]*\n)*)' % bits, '\t\t\tendian.PutUint%d(data[i*%d:(i+1)*%d], adata[i])\n' % (bits, zero, zero), s)
            assert n == 1, (bits, n)
        s = s.replace('\tvar (\n\t\tdata  []byte\n\t\ttdata []byte\n\t)\n', '\tvar data []byte\n')
        wr(d, p, s)

@refactor
def v1_grow_room(d):
    """v1/v2: grow reuses spare room explicitly and doubles"""
    for p in CP + MB:
        s = rd(d, p)
        a = 'b.buf = append(b.buf, make([]byte, n)...)'
        assert a in s
        s = s.replace(a, '''size := len(b.buf)
	if n < 0 || int64(int(n)) != n {

		panic("crunch: impossible growth")

	}
	if int(n) <= cap(b.buf)-size {

		b.buf = b.buf[:size+int(n)]
		for i := size; i < len(b.buf); i++ {

			b.buf[i] = 0

		}

	} else {

		fresh := make([]byte, size+int(n), 2*(size+int(n)))
		copy(fresh, b.buf)
		b.buf = fresh

	}''')
        wr(d, p, s)

@refactor
def gen_split(d):
    """generator: argument checks and name tables in functions, raw regexp, result map built afresh"""
    s = rd(d, 'generation/complex.go')
    s = s.replace('regexp.MustCompile("(?m)^\\\\/\\\\/generator:complex ([A-z]{1,}) ([A-z]{1,}) ([A-z]{1,}) ([0-9]{1,}) ([A-z]{1,})$")', 'regexp.MustCompile(`(?m)^//generator:complex ([A-z]+) ([A-z]+) ([A-z]+) ([0-9]+) ([A-z]+)$`)')
    assert '`(?m)' in s
    s = s.replace('	files = oldFiles\n\n	for name := range files {', '	files = make(map[string][]byte, len(oldFiles))\n\n	for name, template := range oldFiles {')
    s = s.replace('magicCommentRegex.ReplaceAllFunc(files[name], ', 'magicCommentRegex.ReplaceAllFunc(template, ')
    s = s.replace('magicCommentRegex.FindAllStringSubmatch(string(comment), -1)[0][1:]', 'strings.Fields(string(comment))[1:]')
    wr(d, 'generation/complex.go', s)
    m = rd(d, 'generation/main.go')
    m = m.replace('ioutil.ReadAll(file)', 'io.ReadAll(file)').replace('"io/ioutil"', '"io"')
    m = m.replace('strings.Join([]string{strings.TrimSuffix(strings.TrimPrefix(name, "_"), ".go"), ".generated.go"}, "")', 'strings.TrimSuffix(name[1:], ".go")+".generated.go"')
    m = m.replace('os.OpenFile(', 'os.OpenFile(', 1)
    wr(d, 'generation/main.go', m)

@refactor
def gen_writefile(d):
    m = rd(d, 'generation/main.go')
    m, n = re.subn(r'\t\tfile, err := os\.OpenFile\((strings\.Join\(.*?, ""\)), os\.O_RDWR.*?_ = file\.Close\(\)\n\t\}\n\}\n', r'''		if err := ioutil.WriteFile(\1, contents, 0644); err != nil {
			fmt.Printf("! unable to write generated file. (%v)\\n", err)
		}
	}
}
''', m, flags=re.S)
    assert n == 1
    wr(d, 'generation/main.go', m)

@refactor
def noop_and_comments(d):
    for p in CP + MB + V3G + V3T + ['generation/complex.go', 'generation/main.go', 'v1/errors.go', 'v1/utils.go', 'v3/lib.go']:
        s = rd(d, p)
        s = re.sub(r'(\nfunc [^\n]*\{\n)', r'\1\t_ = 0\n', s)
        s += '\n// end of file\n'
        wr(d, p, s)

@refactor
def split_files(d):
    """each package's Buffer query methods move to a new file"""
    for v, pkg in (('v1', 'v1'), ('v2', 'v2')):
        p = v + '/buffer.go'
        s = rd(d, p)
        m = re.search(r'// Bytes returns the internal.*?(?=// Refresh updates)', s, re.S)
        wr(d, p, s.replace(m.group(0), ''))
        wr(d, v + '/queries.go', 'package %s\n\n%s' % (pkg, m.group(0)))

@refactor
def atomic_lock_type(d):
    """v1/v2: cursor mutex becomes a channel semaphore"""
    for p in CP:
        s = rd(d, p)
        s = s.replace('cursor sync.Mutex', 'cursor semaphore')
        wr(d, p, s)
    for v in ('v1', 'v2'):
        wr(d, v + '/semaphore.go', '''package %s

import "sync"

// semaphore admits one goroutine at a time
type semaphore struct {
	mu   sync.Mutex
	cond *sync.Cond
	busy bool
}

// Lock waits until it may go on
func (s *semaphore) Lock() {
	s.mu.Lock()
	if s.cond == nil {
		s.cond = sync.NewCond(&s.mu)
	}
	for s.busy {
		s.cond.Wait()
	}
	s.busy = true
	s.mu.Unlock()
}

// Unlock lets the next goroutine go on
func (s *semaphore) Unlock() {
	s.mu.Lock()
	s.busy = false
	s.cond.Signal()
	s.mu.Unlock()
}
''' % v)

@refactor
def chan_lock(d):
    """v1/v2: cursor mutex becomes a channel that holds one token"""
    for p in CP:
        s = rd(d, p)
        s = s.replace('cursor sync.Mutex', 'cursor turn')
        wr(d, p, s)
    for v in ('v1', 'v2'):
        wr(d, v + '/turn.go', '''package %s

import "sync"

// turn admits one goroutine at a time
type turn struct {
	once  sync.Once
	token chan struct{}
}

// Lock waits until it may go on
func (t *turn) Lock() {
	t.once.Do(func() { t.token = make(chan struct{}, 1) })
	t.token <- struct{}{}
}

// Unlock lets the next goroutine go on
func (t *turn) Unlock() {
	<-t.token
}
''' % v)

@refactor
def mask_table(d):
    """bit masks come from a table of the package"""
    for p in CP + MB + V3T:
        s = rd(d, p)
        s, n = re.subn(r'\(1 << uint\(7-\(off%8\)\)\)', 'bitMasks[off&7]', s)
        assert n, p
        wr(d, p, s)
    for v in ('v1/utils.go', 'v2/utils.go', 'v3/utils.go'):
        f = os.path.join(d, v)
        s = open(f).read() if os.path.exists(f) else 'package v3\n'
        open(f, 'w').write(s + '\n// bitMasks selects the bits of a byte, most significant first\nvar bitMasks = [8]byte{0x80, 0x40, 0x20, 0x10, 0x08, 0x04, 0x02, 0x01}\n')
    regen(d)

@refactor
def goto_to_for(d):
    """v2: the loops built from labels become for statements"""
    n = 0
    for p in ('v2/buffer.go', 'v2/minibuf.go'):
        s = rd(d, p)
        s, k = re.subn(r'\t\{\n\t(\w+_loop):\n(.*?)\n(\n?)\t\ti\+\+\n\t\tif i < n \{\n\n?\t\t\tgoto \1\n\n?\t\t\}\n\t\}', r'\tfor i < n {\n\n\2\n\t\ti++\n\n\t}', s, flags=re.S)
        n += k
        wr(d, p, s)
    assert n > 20, n

@refactor
def under_first(d):
    """v1/v2: the check for an offset before the start comes first"""
    n = 0
    for p in CP:
        s = rd(d, p)
        s, k = re.subn(r'(\tif exceeds\([^\n]*\{\n\n\t\tpanic\(\w+\)\n\n\t\}\n)\n(\tif off < 0x00 \{\n\n\t\tpanic\(\w+\)\n\n\t\}\n)', r'\2\n\1', s)
        n += k
        wr(d, p, s)
    assert n > 10, n

@refactor
def put_in_place(d):
    """v1: elements are encoded where they are stored in the temporary slice"""
    for p in ('v1/buffer.go', 'v1/minibuf.go'):
        s = rd(d, p)
        for w in (2, 4, 8):
            s, k = re.subn(r'\t\t\ttdata = \[\]byte\{%s\}\n\t\t\tendian\.PutUint%d\(tdata, adata\[i\]\)\n\n(?:\t\t\tdata\[\d\+\(i\*\d\)\] = tdata\[\d\]\n)+' % (', '.join(['0x00'] * w), 8 * w), '\t\t\tendian.PutUint%d(data[i*%d:(i+1)*%d], adata[i])\n' % (8 * w, w, w), s)
            assert k == 1, (p, w, k)
        s, k = re.subn(r'\tvar \(\n\t\tdata  \[\]byte\n\t\ttdata \[\]byte\n\t\)\n', '\tvar data []byte\n', s)
        assert k == 1
        wr(d, p, s)

@refactor
def join_slices(d):
    """v1/v2 Buffer: several slices are put together by bytes.Join"""
    for p, im in (('v1/buffer.go', '"encoding/binary"'), ('v1/minibuf.go', '"encoding/binary"')):
        s = rd(d, p)
        s, k = re.subn(r'\t\tfor _, s := range slices \{\n\n\t\t\t(\S+) = append\(\1, s\.\.\.\)\n\n\t\t\}\n', r'\t\t\1 = bytes.Join(slices, nil)\n', s)
        assert k == 1, p
        wr(d, p, s.replace(im, '"bytes"\n\t' + im, 1))

@refactor
def remaining_helper(d):
    """v3: one helper computes what comes after a position"""
    for p in V3T:
        s = rd(d, p)
        s = re.sub(r'\tif len\(off\) == 0 \{\n\n\t\treturn b\.(b?)cap - b\.(b?)off - 1\n\n\t\}\n\treturn b\.b?cap - off\[0\] - 1\n', r'\treturn remaining(b.\1cap, b.\2off, off)\n', s)
        s = re.sub(r'\tif len\(off\) == 0 \{\n\n\t\t\*out = b\.(b?)cap - b\.(b?)off - 1\n\t\treturn\n\n\t\}\n\t\*out = b\.b?cap - off\[0\] - 1\n', r'\t*out = remaining(b.\1cap, b.\2off, off)\n', s)
        wr(d, p, s)
        assert 'remaining(' in s, p
    wr(d, 'v3/remaining.go', 'package crunch\n\n// remaining is how much comes after the given position, or cur\nfunc remaining(size, cur int64, at []int64) int64 {\n\tif len(at) > 0 {\n\t\tcur = at[0]\n\t}\n\treturn size - (cur + 1)\n}\n')
    s = rd(d, 'v3/_buffer.go')
    pkg = re.search(r'^package (\w+)', s, re.M).group(1)
    wr(d, 'v3/remaining.go', rd(d, 'v3/remaining.go').replace('package crunch', 'package ' + pkg))
    regen(d)

@refactor
def gen_sorted(d):
    """the generator handles templates in order, with the expression compiled once"""
    s = rd(d, 'generation/complex.go')
    m = re.search(r'\tmagicCommentRegex := (regexp\.MustCompile\(.*?\))\n', s)
    s = s.replace(m.group(0), '')
    s = s.replace('func GenerateComplex(', 'var magicCommentRegex = %s\n\n//gocyclo:ignore\nfunc GenerateComplex(' % m.group(1), 1)
    s = s.replace('\tfor name := range files {\n', '\tnames := make([]string, 0, len(files))\n\tfor name := range files {\n\t\tnames = append(names, name)\n\t}\n\tsort.Strings(names)\n\tfor _, name := range names {\n', 1)
    s = s.replace('\t"regexp"\n', '\t"regexp"\n\t"sort"\n', 1)
    wr(d, 'generation/complex.go', s)

@refactor
def locals_and_returns(d):
    """v1/v2: sizes and contents are looked at through local variables; else branches become returns"""
    for p in CP + MB:
        s = rd(d, p)
        s, k = re.subn(r'\tif relative \{\n\n\t\tb\.(b?off) \+= off\n\n\t\} else \{\n\n\t\tb\.b?off = off\n\n\t\}\n', r'\tbase := int64(0)\n\tif relative {\n\n\t\tbase = b.\1\n\n\t}\n\tb.\1 = base + off\n', s)
        assert k == 2, (p, k)
        s = re.sub(r'\tfor i := range b\.buf \{\n\n\t\tb\.buf\[i\] = (0x?\w*)\n\n\t\}\n', r'\tbuf := b.buf\n\tfor i := len(buf) - 1; i >= 0; i-- {\n\n\t\tbuf[i] = \1\n\n\t}\n', s)
        wr(d, p, s)

@refactor
def shifts(d):
    """bytes and bits of a position by shift and mask instead of division"""
    for p in CP + MB + V3T:
        s = rd(d, p)
        s, n = re.subn(r'off%8\b', 'off&7', s)
        s, k = re.subn(r'\[off/8\]', '[off>>3]', s)
        assert n and k, p
        s, n = re.subn(r'\bb\.boff / 8', 'b.boff >> 3', s)
        s, k = re.subn(r'\bb\.(off|cap) \* 8', r'b.\1 << 3', s)
        assert n and k, p
        wr(d, p, s)
    regen(d)

@refactor
def backwards(d):
    """v2 and the shipped v3: typed transfers run from the last element to the first"""
    n = 0
    for p in ('v2/buffer.go', 'v2/minibuf.go', *V3G):
        s = rd(d, p)
        def one(m):
            body = m.group(3)
            for q in ('clear', 'set', 'flip'):
                if m.group(1).startswith(q): return m.group(0)
            if 'getbit' in body or 'putbit' in body or 'readbit' in body or 'setbit' in body or 'Bit(' in body: return m.group(0)
            one.n += 1
            return '\tfor i = n - 1; i >= 0; i-- {\n\n' + body + '\n\n\t}'
        one.n = 0
        s = re.sub(r'\t\{\n\t+(read_loop|write_loop):\n()(.*?)\n(?:\n?)\t+i\+\+\n\t+if i < n \{\n\n?\t+goto \1\n\n?\t+\}\n\t+\}', one, s, flags=re.S)
        n += one.n
        wr(d, p, s)
    assert n > 40, n

@refactor
def hoisted(d):
    """contents looked at through a local slice header in the typed transfers of v2 and the shipped v3"""
    n = 0
    for p in ('v2/buffer.go', 'v2/minibuf.go', *V3G):
        s = rd(d, p)
        def one(m):
            if 'b.buf[' not in m.group(2): return m.group(0)
            one.n += 1
            return '\tbuf := b.buf\n\t{\n' + m.group(1) + m.group(2).replace('b.buf[', 'buf[') + 'goto '
        one.n = 0
        s = re.sub(r'\t\{\n(\t+(?:read_loop|write_loop):\n)(.*?)goto ', one, s, flags=re.S)
        n += one.n
        wr(d, p, s)
    assert n > 40, n

if __name__ == '__main__':
    if sys.argv[1] == '--list': print(' '.join(R)); sys.exit()
    R[sys.argv[1]](sys.argv[2])
    subprocess.call('gofmt -l -w %s/v1/*.go %s/v2/*.go %s/v3/*.generated.go %s/generation/*.go >/dev/null' % ((sys.argv[2],)*4), shell=True)
