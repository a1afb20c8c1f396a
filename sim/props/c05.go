package props

import (
	"bytes"
	"encoding/json"

	"a0sim/kern"
	"a0sim/life"
	"a0sim/world"
)

type outputs struct {
	World             world.State
	Parse, List, JSON string
	Pack              []byte
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func near(b []byte, i int) string {
	lo, hi := i-60, i+60
	if lo < 0 {
		lo = 0
	}
	if hi > len(b) {
		hi = len(b)
	}
	if lo > hi {
		lo = hi
	}
	return string(b[lo:hi])
}

// C05: two machines that differ in everything but the tree give the same output.
func init() {
	All["C05"] = func() {
		life.Res.Sample = sampleApp()
		w := world.Save()
		run := func(args ...string) []byte {
			kern.K.Out = nil
			if err := cli(args...); err != nil {
				fail("error", "pkger %v fails: %v", args, err)
			}
			return append([]byte(nil), kern.K.Out...)
		}
		inc := packArgs()
		if world.A.Out != "" {
			inc = inc[2:]
		}
		var o outputs
		// every command starts from the pristine tree
		o.Parse = string(run("parse", world.A.Mod))
		o.Pack = nil
		run(packArgs()...)
		if n := kern.Look(outPath()); n != nil {
			o.Pack = n.Data
		}
		world.Reload(w)
		o.List = string(run(append([]string{"list"}, inc...)...))
		world.Reload(w)
		o.JSON = string(run(append([]string{"list", "-json"}, inc...)...))
		o.World = w
		if life.Req.State == nil {
			b, err := json.Marshal(o)
			if err != nil {
				life.Broken("%v", err)
			}
			life.Res.Next = b
			return
		}
		var first outputs
		if err := json.Unmarshal(life.Req.State, &first); err != nil {
			life.Broken("%v", err)
		}
		cmp := func(what string, a, b []byte) {
			if !bytes.Equal(a, b) {
				i := diffAt(a, b)
				fail(what, "%s differs between two machines with the same tree at byte %d: %q and %q", what, i, near(a, i), near(b, i))
			}
		}
		cmp("parse output", []byte(first.Parse), []byte(o.Parse))
		cmp("list output", []byte(first.List), []byte(o.List))
		cmp("list -json output", []byte(first.JSON), []byte(o.JSON))
		if !bytes.Equal(first.Pack, o.Pack) {
			pa, ea := payload(first.Pack, "")
			pb, eb := payload(o.Pack, "")
			if ea == nil && eb == nil {
				da, e1 := decodeRaw(pa)
				db, e2 := decodeRaw(pb)
				if e1 == nil && e2 == nil {
					cmp("embedded data", da, db)
				}
			}
			cmp("pkged.go", first.Pack, o.Pack)
		}
	}
}
