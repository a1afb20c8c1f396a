// Package props holds the workloads and oracles, one per property.
package props

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"path"

	"a0sim/hb"
	"a0sim/kern"
	"a0sim/life"
	"a0sim/sched"

	"github.com/markbates/pkger/pkging"
)

// All maps property ids to their workloads.
var All = map[string]func(){}

func fail(code, f string, a ...interface{}) { hb.Quiet(); life.Fail(code, f, a...) }

func stat(k string, n int64) { hb.Quiet(); life.Res.Stats[k] += n }

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%s", len(b), hex.EncodeToString(h[:6]))
}

// goMode converts disk permission bits to os.FileMode.
func goMode(n *kern.Node) os.FileMode {
	m := os.FileMode(n.Mode & 0777)
	if n.Mode&04000 != 0 {
		m |= os.ModeSetuid
	}
	if n.Mode&02000 != 0 {
		m |= os.ModeSetgid
	}
	if n.Mode&01000 != 0 {
		m |= os.ModeSticky
	}
	if n.IsDir() {
		m |= os.ModeDir
	}
	if n.IsLnk() {
		m |= os.ModeSymlink
	}
	return m
}

var _ pkging.Pkger
var _ = io.EOF
var _ = sched.W

func pathDir(p string) string { return path.Dir(p) }
