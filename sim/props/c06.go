package props

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"a0sim/hb"
	"a0sim/life"
	"a0sim/sched"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"

	"a0sim/world"
)

// packPayload runs the real pipeline up to the encoded payload.
func packPayload() []byte {
	info, err := here.Current()
	if err != nil {
		unpackable("here.Current: %v", err)
	}
	decls, err := parser.Parse(info, world.A.Flags...)
	if err != nil {
		unpackable("parse: %v", err)
	}
	var bb bytes.Buffer
	if err := pkgutil.Stuff(&bb, info, decls); err != nil {
		unpackable("stuff: %v", err)
	}
	return bb.Bytes()
}

// unpackable ends a run whose module cannot be packed, which is not its
// subject; the driver does not accept it if many do.
func unpackable(f string, a ...interface{}) {
	hb.Quiet()
	life.Log("UNPACKABLE "+f, a...)
	stat("unpackable", 1)
	life.Res.Trivial = true
	life.Finish()
}

// packLive puts the module's files into a package that lives here.
func packLive() *mem.Pkger {
	info, err := here.Current()
	if err != nil {
		unpackable("here.Current: %v", err)
	}
	decls, err := parser.Parse(info, world.A.Flags...)
	if err != nil {
		unpackable("parse: %v", err)
	}
	files, err := decls.Files()
	if err != nil {
		unpackable("files: %v", err)
	}
	p, err := mem.New(info)
	if err != nil {
		unpackable("new: %v", err)
	}
	// Add brings what is below a directory along
	lean := sched.W(3) == 2
	held := map[string]bool{}
	for _, fl := range files {
		if d := filepath.Dir(fl.Abs); lean && held[d] {
			held[fl.Abs] = true
			continue
		}
		f, err := os.Open(fl.Abs)
		if err != nil {
			unpackable("open: %v", err)
		}
		if fi, err := f.Stat(); err == nil && fi.IsDir() {
			held[fl.Abs] = true
		}
		if err := p.Add(f); err != nil {
			unpackable("add: %v", err)
		}
		f.Close()
	}
	return p
}

// damage corrupts b in one way drawn from the environment. It also says how.
func damage(b []byte) ([]byte, string) {
	c := append([]byte(nil), b...)
	n := len(c)
	if n == 0 {
		return c, "nothing"
	}
	// positions favour the ends, where headers and checksums are
	pos := func(what string) int {
		switch sched.Env(what+" region", 6) {
		case 0, 1:
			return sched.Env(what, min(n, 40))
		case 2, 3:
			return n - 1 - sched.Env(what, min(n, 40))
		}
		return sched.Env(what, n)
	}
	span := func(at int) int {
		l := 1 + sched.Env("length", []int{1, 2, 8, 16, 64, 512, 4096}[sched.Env("length class", 7)])
		return min(l, n-at)
	}
	switch k := sched.Env("damage", 12); k {
	case 0, 1:
		at, bit := pos("byte"), sched.Env("bit", 8)
		c[at] ^= 1 << uint(bit)
		return c, fmt.Sprintf("bit %d of byte %d of %d flipped", bit, at, n)
	case 2:
		m := 2 + sched.Env("flips", 8)
		for i := 0; i < m; i++ {
			c[pos("byte")] ^= 1 << uint(sched.Env("bit", 8))
		}
		return c, fmt.Sprintf("%d bits flipped", m)
	case 3:
		at := pos("cut")
		return c[:at], fmt.Sprintf("cut off after %d of %d bytes", at, n)
	case 4:
		at := pos("cut")
		return c[at:], fmt.Sprintf("first %d of %d bytes lost", at, n)
	case 5:
		at := pos("block")
		l := span(at)
		return append(append(append([]byte(nil), c[:at+l]...), c[at:at+l]...), c[at+l:]...), fmt.Sprintf("bytes %d to %d doubled", at, at+l)
	case 6:
		at := pos("block")
		l := span(at)
		return append(append([]byte(nil), c[:at]...), c[at+l:]...), fmt.Sprintf("bytes %d to %d of %d lost", at, at+l, n)
	case 7:
		at := pos("block")
		l := span(at)
		z := byte(0)
		if sched.Env("zero digit", 2) == 1 {
			z = '0'
		}
		for i := at; i < at+l; i++ {
			c[i] = z
		}
		return c, fmt.Sprintf("bytes %d to %d of %d overwritten with %q", at, at+l, n, z)
	case 8:
		a, b := pos("block"), pos("block")
		if a > b {
			a, b = b, a
		}
		l := min(span(a), b-a, n-b)
		for i := 0; i < l; i++ {
			c[a+i], c[b+i] = c[b+i], c[a+i]
		}
		return c, fmt.Sprintf("%d bytes at %d and %d swapped", l, a, b)
	case 9:
		at := pos("block")
		l := span(at)
		ins := world.Bytes(l, uint64(sched.Env("content", 1<<16)))
		if sched.Env("hex", 2) == 1 {
			ins = []byte(hex.EncodeToString(ins))[:l]
		}
		return append(append(append([]byte(nil), c[:at]...), ins...), c[at:]...), fmt.Sprintf("%d bytes inserted at %d of %d", l, at, n)
	case 10:
		l := 1 + sched.Env("tail", 64)
		switch sched.Env("tail kind", 4) {
		case 0:
			return append(c, make([]byte, l)...), fmt.Sprintf("%d zero bytes appended", l)
		case 1:
			return append(c, bytes.Repeat([]byte("0"), 2*l)...), fmt.Sprintf("%d zero digits appended", 2*l)
		case 2:
			return append(c, c...), "written twice"
		}
		return append(c, world.Bytes(l, uint64(l))...), fmt.Sprintf("%d bytes appended", l)
	}
	at := pos("digit")
	d := "0123456789abcdef"[sched.Env("digit", 16)]
	old := c[at]
	c[at] = d
	return c, fmt.Sprintf("byte %d of %d: %q instead of %q", at, n, d, old)
}

// C06: a damaged payload is refused or harmless.
func init() {
	All["C06"] = func() {
		life.Res.Sample = sampleApp()
		pl := packPayload()
		p, err := mem.UnmarshalEmbed(pl)
		if err != nil {
			fail("sound", "the undamaged payload is refused: %v", err)
		}
		want, err := p.MarshalJSON()
		if err != nil {
			fail("sound", "the undamaged package cannot be serialised: %v", err)
		}
		bin := unarmour(pl)
		if sched.W(3) == 2 {
			decodeTogether(pl, bin, want)
			return
		}
		for i := 0; i < 24; i++ {
			bad, how := spoil(pl, bin)
			if bytes.Equal(bad, pl) {
				continue
			}
			believed(bad, how, want)
		}
	}
}

// unarmour undoes the text encoding of a payload.
func unarmour(pl []byte) []byte {
	if b, err := hex.DecodeString(string(pl)); err == nil {
		return b
	}
	if b, err := base64.StdEncoding.DecodeString(string(pl)); err == nil {
		return b
	}
	return pl
}

// armour encodes b as the payload pl is.
func armour(pl, b []byte) []byte {
	if _, err := hex.DecodeString(string(pl)); err == nil {
		return []byte(hex.EncodeToString(b))
	}
	if _, err := base64.StdEncoding.DecodeString(string(pl)); err == nil {
		return []byte(base64.StdEncoding.EncodeToString(b))
	}
	return b
}

// spoil damages the payload pl, which encodes bin.
func spoil(pl, bin []byte) (bad []byte, how string) {
	if sched.Env("below the text encoding", 3) == 2 {
		var b []byte
		b, how = damage(bin)
		return armour(pl, b), "compressed data: " + how
	}
	bad, how = damage(pl)
	if sched.Env("again", 4) == 3 {
		var h string
		bad, h = damage(bad)
		how += ", " + h
	}
	return bad, how
}

// believed decodes a damaged payload: it must be refused or give the package
// that serialises to want.
func believed(bad []byte, how string, want []byte) {
	stat("corruptions", 1)
	sched.T.Fired["corruption"]++
	q, err, panicked := tryUnmarshal(bad)
	if panicked != "" {
		fail("panic", "decoding panics (%s): %s", how, panicked)
	}
	if err != nil {
		stat("refused", 1)
		if !startRefused(q, err) {
			fail("started", "damaged (%s), it is refused (%v), but the program that holds it goes on without it: Apply takes the result", how, err)
		}
		return
	}
	got, err := q.MarshalJSON()
	if err != nil {
		fail("believed", "damaged (%s), it decodes without error to a package that cannot be serialised: %v", how, err)
	}
	if !bytes.Equal(got, want) {
		at := diffAt(got, want)
		fail("believed", "damaged (%s), it decodes without error to a different package: %d bytes of JSON, %d in the original; at byte %d %q, not %q", how, len(got), len(want), at, near(got, at), near(want, at))
	}
	stat("harmless", 1)
}

// decodeTogether decodes several payloads at the same time, as a program does
// that packages are applied to in the init functions of plugins or in
// goroutines: each result is that of its own payload.
func decodeTogether(pl, bin, want []byte) {
	// another package of about the same shape
	other, err := mem.New(here.Info{ImportPath: "other", Dir: "/other", Module: here.Module{Path: "other", Dir: "/other"}})
	if err != nil {
		fail("new", "mem.New: %v", err)
	}
	for i, n := 0, 1+sched.W(3); i < n; i++ {
		f, err := other.Create(fmt.Sprintf("/f%d", i))
		if err != nil {
			fail("create", "Create: %v", err)
		}
		f.Write(world.Content(true))
		f.Close()
	}
	owant, err := other.MarshalJSON()
	if err != nil {
		fail("sound", "MarshalJSON: %v", err)
	}
	opl, err := embed.Encode(owant)
	if err != nil {
		fail("sound", "Encode: %v", err)
	}
	obin := unarmour(opl)
	sound := func(pl, want []byte) {
		p, err, panicked := tryUnmarshal(pl)
		if panicked != "" {
			fail("panic", "decoding panics: %s", panicked)
		}
		if err != nil {
			fail("sound", "an undamaged payload, decoded together with others, is refused: %v", err)
		}
		got, err := p.MarshalJSON()
		if err != nil {
			fail("sound", "an undamaged package cannot be serialised: %v", err)
		}
		if !bytes.Equal(got, want) {
			at := diffAt(got, want)
			fail("mixed", "an undamaged payload, decoded together with others, gives %d bytes of JSON, not %d; at byte %d %q, not %q", len(got), len(want), at, near(got, at), near(want, at))
		}
		stat("sound", 1)
	}
	var fs []func()
	for i, n := 0, 2+sched.W(2); i < n; i++ {
		var ops []func()
		for j, m := 0, 1+sched.W(3); j < m; j++ {
			first := (i+sched.W(2))%2 == 0
			raw := sched.W(4) == 3
			hurt := sched.W(3) == 2
			ops = append(ops, func() {
				p, b, w := pl, bin, want
				if !first {
					p, b, w = opl, obin, owant
				}
				switch {
				case hurt:
					bad, how := spoil(p, b)
					if !bytes.Equal(bad, p) {
						believed(bad, how, w)
					}
				case raw:
					// what was decoded stays what it is
					d, err := embed.Decode(p)
					if err != nil {
						fail("sound", "an undamaged payload, decoded together with others, is refused: %v", err)
					}
					sched.Y(-20)
					if ok, _ := decodeRaw(p); !bytes.Equal(d, ok) {
						fail("mixed", "Decode gives %d bytes that are not those that were encoded, or does not leave them alone", len(d))
					}
					stat("sound", 1)
				default:
					sound(p, w)
				}
			})
		}
		fs = append(fs, func() {
			for _, o := range ops {
				o()
			}
		})
	}
	runTasks(expectPoints(), fs...)
}

// startRefused does what the generated source does when the program starts: the
// results of UnmarshalEmbed are handed to Apply in the initialisation of a
// variable, where nobody looks at a returned error.
func startRefused(q *mem.Pkger, err error) (ended bool) {
	defer func() {
		if r := recover(); r != nil {
			ended = true
		}
	}()
	pkger.Apply(q, err)
	return false
}

func tryUnmarshal(b []byte) (p *mem.Pkger, err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = strings.SplitN(fmt.Sprint(r), "\n", 2)[0]
		}
	}()
	p, err = mem.UnmarshalEmbed(b)
	return
}
