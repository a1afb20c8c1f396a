From 97770bffa2518eee65a86220f660f375f888e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 01/35] fix: reading or seeking an empty file of an in-memory
 package

Read failed with an error instead of io.EOF, Seek pretended to succeed.
---
 pkging/mem/file.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 2d4d244..d5cad9d 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -31,7 +31,7 @@ type File struct {
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if !f.isDir() && f.reader == nil {
 		f.reader = bytes.NewReader(f.data)
 	}
 
@@ -70,7 +70,7 @@ func (f *File) Close() error {
 
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if !f.isDir() && f.reader == nil {
 		f.reader = bytes.NewReader(f.data)
 	}
 
@@ -81,6 +81,10 @@ func (f *File) Read(p []byte) (int, error) {
 	return 0, fmt.Errorf("unable to read %s", f.Name())
 }
 
+func (f *File) isDir() bool {
+	return f.info != nil && f.info.IsDir()
+}
+
 // Write writes len(b) bytes to the File. It returns the number of bytes written and an error, if any. Write returns a non-nil error when n != len(b).
 func (f *File) Write(b []byte) (int, error) {
 	if f.writer == nil {
-- 
2.43.0


From 883b79ca65a7a0138e1e13a6692525228516a512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 02/35] fix: embed files of other modules under their own
 module path

They were filed under the current module with their absolute path on the
packing machine and could not be opened by the packed program. here.Dir
answered all directories without Go files with the first one's information.
---
 here/here.go      | 13 ++++++++++++-
 pkging/mem/add.go | 37 +++++++++++++++++++++++++++++++------
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/here/here.go b/here/here.go
index f87a061..63b25a6 100644
--- a/here/here.go
+++ b/here/here.go
@@ -9,6 +9,17 @@ type Module = here.Module
 type Path = here.Path
 
 var Here = here.New()
-var Dir = Here.Dir
 var Package = Here.Package
 var Current = Here.Current
+
+// Dir attempts to gather info for the requested directory.
+func Dir(p string) (Info, error) {
+	i, err := Here.Dir(p)
+	if err != nil || len(i.ImportPath) > 0 {
+		return i, err
+	}
+	// Directories without Go files have no import path, and Here.Dir answers
+	// all of them with what it found for the first one. What it found for p
+	// is filed under p.
+	return Here.Package(p)
+}
diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index a77379a..4aa13a1 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -4,7 +4,9 @@ import (
 	"bytes"
 	"io"
 	"os"
+	"path"
 	"path/filepath"
+	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -19,11 +21,6 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		if err != nil {
 			return err
 		}
-		pt, err := fx.Parse(f.Name())
-		if err != nil {
-			return err
-		}
-
 		dir := f.Name()
 		if !info.IsDir() {
 			dir = filepath.Dir(dir)
@@ -33,6 +30,11 @@ func (fx *Pkger) Add(files ...*os.File) error {
 		if err != nil {
 			return err
 		}
+
+		pt, err := fx.parseFile(f.Name(), her)
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			err = filepath.Walk(f.Name(), func(path string, info os.FileInfo, err error) error {
 				if err != nil {
@@ -45,7 +47,7 @@ func (fx *Pkger) Add(files ...*os.File) error {
 				}
 				defer f.Close()
 
-				pt, err := fx.Parse(path)
+				pt, err := fx.parseFile(path, her)
 				if err != nil {
 					return err
 				}
@@ -102,3 +104,26 @@ func (fx *Pkger) Add(files ...*os.File) error {
 
 	return nil
 }
+
+// parseFile returns the path by which the file name, in the package her, is
+// known. Files outside of the current package belong to another module.
+func (fx *Pkger) parseFile(name string, her here.Info) (here.Path, error) {
+	rel, err := filepath.Rel(fx.Here.Dir, name)
+	if err == nil && !isOutside(rel) {
+		return fx.Parse(name)
+	}
+
+	rel, err = filepath.Rel(her.Module.Dir, name)
+	if err != nil || isOutside(rel) || len(her.Module.Dir) == 0 {
+		return fx.Parse(name)
+	}
+
+	return here.Path{
+		Pkg:  her.Module.Path,
+		Name: path.Join("/", filepath.ToSlash(rel)),
+	}, nil
+}
+
+func isOutside(rel string) bool {
+	return rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator))
+}
-- 
2.43.0


From d78432b6898c52a93bebaf7f45e4898a599386a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:39 +0000
Subject: [PATCH 03/35] fix: pkgutil.Stuff reports write errors

---
 pkging/pkgutil/stuff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 0fbf02d..1169a30 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -57,5 +57,5 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 	}
 
 	_, err = w.Write(b)
-	return nil
+	return err
 }
-- 
2.43.0


From c968adb581e61caa2e7dc0041bdedda71cf0d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 04/35] fix: write pkged.go completely or not at all

Write errors were ignored, an interrupted or failing pack left a partial
pkged.go behind (which breaks the next build and pack), panics turned into
success, and a declared output directory got the half-written file embedded.
---
 cmd/pkger/cmds/pack.go | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index d91e4cf..bb99873 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -1,6 +1,7 @@
 package cmds
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"os"
@@ -129,18 +130,14 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 		return err
 	}
 
-	os.RemoveAll(out)
-	defer func() {
-		if err := recover(); err != nil {
-			os.RemoveAll(out)
+	tmp := out + ".tmp"
+	for _, fp := range []string{out, tmp} {
+		if err := os.RemoveAll(fp); err != nil {
+			return err
 		}
-	}()
-
-	f, err := os.Create(out)
-	if err != nil {
-		return err
 	}
-	defer f.Close()
+
+	f := &bytes.Buffer{}
 
 	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
 	fmt.Fprintf(f, "// +build !skippkger\n\n")
@@ -155,5 +152,30 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 
 	fmt.Fprintf(f, "`)))\n")
 
+	// out appears only once it is complete
+	if err := writeFile(tmp, f.Bytes()); err != nil {
+		os.Remove(tmp)
+		return err
+	}
+	if err := os.Rename(tmp, out); err != nil {
+		os.Remove(tmp)
+		return err
+	}
+
 	return nil
 }
+
+func writeFile(name string, b []byte) error {
+	f, err := os.Create(name)
+	if err != nil {
+		return err
+	}
+
+	if _, err = f.Write(b); err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	return err
+}
-- 
2.43.0


From 09e2e7854a6a7ecdbec7a475587bf3952c3c4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 05/35] fix: parse modules whose own directory is named like an
 ignored folder

A module in a directory such as .dotfiles or vendor-app was skipped as a
whole and packed without any of its declared files.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 72fd023..e09d5e3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -201,7 +201,7 @@ func (p *Parser) parse() error {
 
 		base := filepath.Base(path)
 		for _, x := range defaultIgnoredFolders {
-			if strings.HasPrefix(base, x) {
+			if path != root && strings.HasPrefix(base, x) {
 				return filepath.SkipDir
 			}
 		}
-- 
2.43.0


From 31be7a4d960d136820e115ae17b330ef6fe644b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 06/35] fix: report declarations that cannot be resolved
 instead of dropping them

---
 parser/source.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index be58036..c0cc55f 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -35,7 +35,7 @@ func (p *ParsedSource) Parse() error {
 
 func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 	s = node.Name
-	if node.Obj.Kind != ast.Con {
+	if node.Obj == nil || node.Obj.Kind != ast.Con {
 		return
 	}
 	// As per ast package a Con object is always a *ValueSpec,
@@ -44,7 +44,7 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 		// The const var can be defined inline with other vars,
 		// as in `const a, b = "a", "b"`.
 		for i, v := range x.Names {
-			if v.Name == node.Name {
+			if v.Name == node.Name && i < len(x.Values) {
 				s = p.valueNode(x.Values[i])
 				break
 			}
@@ -163,8 +163,8 @@ func (p *ParsedSource) parse() error {
 		n := ce.Args[0]
 		val, err := p.value(n)
 		if err != nil {
-			p.err = fmt.Errorf("%s: %s", err, n)
-			return false
+			// Only known when the program runs, nothing is declared.
+			return true
 		}
 
 		info, err := here.Dir(filepath.Dir(p.Abs))
@@ -197,7 +197,7 @@ func (p *ParsedSource) parse() error {
 		return true
 	}
 	ast.Walk(fn, p.Ast)
-	return nil
+	return p.err
 }
 
 func (p *ParsedSource) DeclsMap() (map[string]Decls, error) {
-- 
2.43.0


From a250dcf268bf12a972f63263a183f2ebe26cdc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 07/35] fix: list files below a nested module under the path
 they are embedded by

---
 parser/walk.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/walk.go b/parser/walk.go
index eed6d91..e56c23f 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -70,9 +70,11 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			}
 		}
 
-		n := strings.TrimPrefix(path, her.Module.Dir)
+		// Modules further down belong to the tree that is being walked.
+		mod := d.file.Here
+		n := strings.TrimPrefix(path, mod.Module.Dir)
 
-		pt, err := her.Parse(n)
+		pt, err := mod.Parse(n)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From c2badb3e1a30afaaf295551f625226d70bf5325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:54 +0000
Subject: [PATCH 08/35] fix: do not take a go command that cannot run for a
 directory without Go files

---
 here/here.go | 71 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 2 deletions(-)

diff --git a/here/here.go b/here/here.go
index 63b25a6..2c2430b 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,10 @@
 package here
 
 import (
+	"fmt"
+	"io/ioutil"
+	"strings"
+
 	"github.com/gobuffalo/here"
 )
 
@@ -10,7 +14,19 @@ type Path = here.Path
 
 var Here = here.New()
 var Package = Here.Package
-var Current = Here.Current
+
+// Current returns the Info representing the current Go module
+func Current() (Info, error) {
+	i, err := Here.Current()
+	if err != nil || len(i.ImportPath) > 0 {
+		return i, err
+	}
+	// see Dir
+	if i, err = here.New().Current(); err != nil {
+		return i, err
+	}
+	return verify(i.Dir, i)
+}
 
 // Dir attempts to gather info for the requested directory.
 func Dir(p string) (Info, error) {
@@ -21,5 +37,56 @@ func Dir(p string) (Info, error) {
 	// Directories without Go files have no import path, and Here.Dir answers
 	// all of them with what it found for the first one. What it found for p
 	// is filed under p.
-	return Here.Package(p)
+	if i, err = Here.Package(p); err != nil {
+		return i, err
+	}
+	return verify(p, i)
+}
+
+// verify checks an answer that knows of no Go package in dir. It can be due to
+// a go command that could not be run.
+func verify(dir string, i Info) (Info, error) {
+	if len(i.ImportPath) > 0 {
+		return i, nil
+	}
+	if len(i.Module.Path) > 0 {
+		ok, err := hasGoFiles(dir)
+		if err != nil {
+			return Info{}, err
+		}
+		if !ok {
+			return i, nil
+		}
+		if _, err = here.New().Package(dir); err != nil {
+			for _, s := range []string{"no Go files", "build constraints exclude"} {
+				if strings.Contains(err.Error(), s) {
+					return i, nil
+				}
+			}
+			return Info{}, err
+		}
+	}
+
+	i, err := here.New().Dir(dir)
+	if err != nil {
+		return i, err
+	}
+	if len(i.Module.Path) == 0 {
+		return Info{}, fmt.Errorf("could not find the module of %s", dir)
+	}
+	return i, nil
+}
+
+func hasGoFiles(dir string) (bool, error) {
+	fis, err := ioutil.ReadDir(dir)
+	if err != nil {
+		return false, err
+	}
+	for _, fi := range fis {
+		n := fi.Name()
+		if !fi.IsDir() && strings.HasSuffix(n, ".go") && !strings.HasPrefix(n, "_") && !strings.HasPrefix(n, ".") {
+			return true, nil
+		}
+	}
+	return false, nil
 }
-- 
2.43.0


From 8e094c70c3fe3d19bf47c3bc85c34840b57b2d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 09/35] fix: do not use the file system root when the module is
 not known

---
 pkger.go              | 43 ++++++++++++++++++++++++++++++++-----------
 pkging/stdos/stdos.go |  8 +++++++-
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/pkger.go b/pkger.go
index 5f56a51..d0e242b 100644
--- a/pkger.go
+++ b/pkger.go
@@ -29,10 +29,31 @@ func impl() pkging.Pkger {
 	return current
 }
 
+// located returns the implementation to use, and first makes up for a go
+// command that could not tell the current module when the program started.
+func located() pkging.Pkger {
+	p := impl()
+	if d, ok := p.(*stdos.Pkger); ok && len(d.Here.Dir) == 0 {
+		her, err := here.Current()
+		if err != nil {
+			return p
+		}
+		n, err := stdos.New(her)
+		if err != nil {
+			return p
+		}
+		gil.Lock()
+		disk = n
+		gil.Unlock()
+		return impl()
+	}
+	return p
+}
+
 type Dir string
 
 func (d Dir) Open(name string) (http.File, error) {
-	f, err := impl().Open(string(d))
+	f, err := located().Open(string(d))
 	if err != nil {
 		return nil, err
 	}
@@ -41,52 +62,52 @@ func (d Dir) Open(name string) (http.File, error) {
 
 // Parse the string in here.Path format.
 func Parse(p string) (here.Path, error) {
-	return impl().Parse(p)
+	return located().Parse(p)
 }
 
 // Current returns the here.Info representing the current Pkger implementation.
 func Current() (here.Info, error) {
-	return impl().Current()
+	return located().Current()
 }
 
 // Info returns the here.Info of the here.Path
 func Info(p string) (here.Info, error) {
-	return impl().Info(p)
+	return located().Info(p)
 }
 
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func Create(p string) (pkging.File, error) {
-	return impl().Create(p)
+	return located().Create(p)
 }
 
 // MkdirAll creates a directory named path, along with any necessary parents, and returns nil, or else returns an error. The permission bits perm (before umask) are used for all directories that MkdirAll creates. If path is already a directory, MkdirAll does nothing and returns nil.
 func MkdirAll(p string, perm os.FileMode) error {
-	return impl().MkdirAll(p, perm)
+	return located().MkdirAll(p, perm)
 }
 
 // Open opens the named file for reading. If successful, methods on the returned file can be used for reading; the associated file descriptor has mode O_RDONLY.
 func Open(p string) (pkging.File, error) {
-	return impl().Open(p)
+	return located().Open(p)
 }
 
 // Stat returns a FileInfo describing the named file.
 func Stat(name string) (os.FileInfo, error) {
-	return impl().Stat(name)
+	return located().Stat(name)
 }
 
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
 func Walk(p string, wf filepath.WalkFunc) error {
-	return impl().Walk(p, wf)
+	return located().Walk(p, wf)
 }
 
 // Remove removes the named file or (empty) directory.
 func Remove(name string) error {
-	return impl().Remove(name)
+	return located().Remove(name)
 }
 
 // RemoveAll removes path and any children it contains. It removes everything it can but returns the first error it encounters. If the path does not exist, RemoveAll returns nil (no error).
 func RemoveAll(name string) error {
-	return impl().RemoveAll(name)
+	return located().RemoveAll(name)
 }
 
 // Include is a no-op that directs the pkger tool to include the desired file or folder.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index b811702..66c5304 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -63,13 +63,16 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 
 // Current returns the here.Info representing the current Pkger implementation.
 func (f *Pkger) Current() (here.Info, error) {
+	if len(f.Here.Dir) == 0 {
+		return f.Here, fmt.Errorf("the current package is not known")
+	}
 	return f.Here, nil
 }
 
 // Info returns the here.Info of the here.Path
 func (f *Pkger) Info(p string) (here.Info, error) {
 	info, ok := f.infos.Load(p)
-	if ok {
+	if ok && len(info.Dir) > 0 {
 		return info, nil
 	}
 
@@ -77,6 +80,9 @@ func (f *Pkger) Info(p string) (here.Info, error) {
 	if err != nil {
 		return info, err
 	}
+	if len(info.Dir) == 0 {
+		return info, fmt.Errorf("the directory of package %q is not known", p)
+	}
 	f.infos.Store(p, info)
 	return info, nil
 }
-- 
2.43.0


From aa157ee2e0762735303114a610dd0b4695eb192f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 10/35] fix: make pkged.go independent of map order and inode
 numbers

---
 parser/parser.go  |  4 ++++
 pkging/mem/add.go | 12 ++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e09d5e3..592a4e2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 
@@ -133,6 +134,9 @@ func (p *Parser) ParseDir(abs string, mode parser.Mode) ([]*ParsedSource, error)
 			srcs = append(srcs, s)
 		}
 	}
+	sort.Slice(srcs, func(a, b int) bool {
+		return srcs[a].Abs < srcs[b].Abs
+	})
 
 	return srcs, nil
 }
diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index 4aa13a1..6970b2b 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -59,7 +59,7 @@ func (fx *Pkger) Add(files ...*os.File) error {
 
 				mf := &File{
 					Here:   her,
-					info:   pkging.NewFileInfo(info),
+					info:   newFileInfo(info),
 					path:   pt,
 					pkging: fx,
 				}
@@ -85,7 +85,7 @@ func (fx *Pkger) Add(files ...*os.File) error {
 
 		mf := &File{
 			Here:   her,
-			info:   pkging.NewFileInfo(info),
+			info:   newFileInfo(info),
 			path:   pt,
 			pkging: fx,
 		}
@@ -124,6 +124,14 @@ func (fx *Pkger) parseFile(name string, her here.Info) (here.Path, error) {
 	}, nil
 }
 
+// newFileInfo leaves out what only holds for the machine the file is on, such
+// as its inode number.
+func newFileInfo(info os.FileInfo) *pkging.FileInfo {
+	fi := pkging.NewFileInfo(info)
+	fi.Details.Sys = nil
+	return fi
+}
+
 func isOutside(rel string) bool {
 	return rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator))
 }
-- 
2.43.0


From bd548975abeb5b833f65212652810cf5191df7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 11/35] fix: first concurrent uses of a package's maps could
 lose entries

---
 internal/maps/files.go |  5 +----
 internal/maps/infos.go | 10 +++-------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/internal/maps/files.go b/internal/maps/files.go
index 3b3b6ac..c0a003e 100644
--- a/internal/maps/files.go
+++ b/internal/maps/files.go
@@ -17,13 +17,10 @@ import (
 // value: pkging.File
 type Files struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Files) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
diff --git a/internal/maps/infos.go b/internal/maps/infos.go
index 0eed02f..ce8cf94 100644
--- a/internal/maps/infos.go
+++ b/internal/maps/infos.go
@@ -16,13 +16,10 @@ import (
 // value: here.Info
 type Infos struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Infos) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
@@ -33,7 +30,7 @@ func (m *Infos) Data() *sync.Map {
 
 func (m *Infos) MarshalJSON() ([]byte, error) {
 	mm := map[string]interface{}{}
-	m.data.Range(func(key, value interface{}) bool {
+	m.Data().Range(func(key, value interface{}) bool {
 		mm[fmt.Sprintf("%s", key)] = value
 		return true
 	})
@@ -62,8 +59,7 @@ func (m *Infos) Delete(key string) {
 // A false return indicates either the key was not found
 // or the value is not of type here.Info
 func (m *Infos) Load(key string) (here.Info, bool) {
-	m.Data()
-	i, ok := m.data.Load(key)
+	i, ok := m.Data().Load(key)
 	if !ok {
 		return here.Info{}, false
 	}
-- 
2.43.0


From f6f8c93d414eabc417b09fdd6121adb588f69a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:29 +0000
Subject: [PATCH 12/35] fix: closing an in-memory file changes its size and
 data together

---
 pkging/mem/embed.go |  5 +++--
 pkging/mem/file.go  | 38 +++++++++++++++++++++++++++-----------
 pkging/mem/mem.go   |  5 +++--
 3 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index a7086ed..f09b8b5 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -18,12 +18,13 @@ func (p *Pkger) MarshalJSON() ([]byte, error) {
 		if !ok {
 			return true
 		}
+		info, data := f.contents()
 		ef := embed.File{
-			Info:   f.info,
+			Info:   info,
 			Here:   f.Here,
 			Path:   f.path,
 			Parent: f.parent,
-			Data:   f.data,
+			Data:   data,
 		}
 		files[key.String()] = ef
 		return true
diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index d5cad9d..a134a77 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sync"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -20,6 +21,7 @@ var _ pkging.File = &File{}
 
 type File struct {
 	Here   here.Info
+	mu     sync.RWMutex // of info and data
 	info   *pkging.FileInfo
 	path   here.Path
 	data   []byte
@@ -32,7 +34,8 @@ type File struct {
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
 	if !f.isDir() && f.reader == nil {
-		f.reader = bytes.NewReader(f.data)
+		_, data := f.contents()
+		f.reader = bytes.NewReader(data)
 	}
 
 	if sk, ok := f.reader.(io.Seeker); ok {
@@ -59,19 +62,30 @@ func (f *File) Close() error {
 		return nil
 	}
 
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	f.data = f.writer.Bytes()
 
-	fi := f.info
+	// others may hold on to the previous info
+	fi := pkging.NewFileInfo(f.info)
 	fi.Details.Size = int64(len(f.data))
 	fi.Details.ModTime = pkging.ModTime(time.Now())
 	f.info = fi
 	return nil
 }
 
+// contents returns the info and the data that belongs to it.
+func (f *File) contents() (*pkging.FileInfo, []byte) {
+	f.mu.RLock()
+	defer f.mu.RUnlock()
+	return f.info, f.data
+}
+
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
 	if !f.isDir() && f.reader == nil {
-		f.reader = bytes.NewReader(f.data)
+		_, data := f.contents()
+		f.reader = bytes.NewReader(data)
 	}
 
 	if f.reader != nil {
@@ -82,7 +96,8 @@ func (f *File) Read(p []byte) (int, error) {
 }
 
 func (f *File) isDir() bool {
-	return f.info != nil && f.info.IsDir()
+	info, _ := f.contents()
+	return info != nil && info.IsDir()
 }
 
 // Write writes len(b) bytes to the File. It returns the number of bytes written and an error, if any. Write returns a non-nil error when n != len(b).
@@ -95,29 +110,30 @@ func (f *File) Write(b []byte) (int, error) {
 }
 
 // Info returns the here.Info of the file
-func (f File) Info() here.Info {
+func (f *File) Info() here.Info {
 	return f.Here
 }
 
 // Stat returns the FileInfo structure describing file. If there is an error, it will be of type *PathError.
-func (f File) Stat() (os.FileInfo, error) {
-	if f.info == nil {
+func (f *File) Stat() (os.FileInfo, error) {
+	info, _ := f.contents()
+	if info == nil {
 		return nil, os.ErrNotExist
 	}
-	return f.info, nil
+	return info, nil
 }
 
 // Name retuns the name of the file in pkger format
-func (f File) Name() string {
+func (f *File) Name() string {
 	return f.path.String()
 }
 
 // Path returns the here.Path of the file
-func (f File) Path() here.Path {
+func (f *File) Path() here.Path {
 	return f.path
 }
 
-func (f File) String() string {
+func (f *File) String() string {
 	return f.Path().String()
 }
 
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 1590e3e..d725ad6 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -180,11 +180,12 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 	if !ok {
 		return nil, os.ErrNotExist
 	}
+	info, data := f.contents()
 	nf := &File{
 		pkging: fx,
-		info:   pkging.NewFileInfo(f.info),
+		info:   pkging.NewFileInfo(info),
 		path:   f.path,
-		data:   f.data,
+		data:   data,
 		Here:   f.Here,
 	}
 
-- 
2.43.0


From 00659af4f1f1bc37317be247427433239e9467e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:16 +0000
Subject: [PATCH 13/35] fix: Walk and RemoveAll of in-memory packages respect
 path boundaries and packages

---
 pkging/mem/mem.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index d725ad6..eada735 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -75,7 +76,7 @@ func (fx *Pkger) RemoveAll(name string) error {
 	}
 
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
-		if strings.HasPrefix(key.Name, pt.Name) {
+		if isBelow(key, pt) {
 			fx.files.Delete(key)
 		}
 		return true
@@ -208,27 +209,28 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
 func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	keys := f.files.Keys()
+	sort.Slice(keys, func(a, b int) bool {
+		return order(keys[a]) < order(keys[b])
+	})
 
 	pt, err := f.Parse(p)
 	if err != nil {
 		return err
 	}
 
-	skip := "!"
+	skip := here.Path{Pkg: "!"}
 	for _, k := range keys {
-		if k.Pkg != pt.Pkg {
-			continue
-		}
-		if !strings.HasPrefix(k.Name, pt.Name) {
+		if !isBelow(k, pt) {
 			continue
 		}
-		if strings.HasPrefix(k.Name, skip) {
+		if isBelow(k, skip) {
 			continue
 		}
 
 		fl, ok := f.files.Load(k)
 		if !ok {
-			return os.ErrNotExist
+			// removed in the meantime
+			continue
 		}
 
 		fi, err := fl.Stat()
@@ -240,8 +242,14 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 
 		err = wf(k.String(), fi, nil)
 		if err == filepath.SkipDir {
-
-			skip = k.Name
+			skip = k
+			if !fi.IsDir() {
+				// skips what remains of the directory
+				skip.Name = path.Dir(k.Name)
+			}
+			if k == pt {
+				return nil
+			}
 			continue
 		}
 
@@ -251,3 +259,18 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	}
 	return nil
 }
+
+// isBelow reports whether pt is root, or in the tree below root.
+func isBelow(pt here.Path, root here.Path) bool {
+	if pt.Pkg != root.Pkg {
+		return false
+	}
+	dir := strings.TrimSuffix(root.Name, "/")
+	return pt.Name == root.Name || strings.HasPrefix(pt.Name, dir+"/")
+}
+
+// order makes paths sort in the order of a walk: a directory is followed by
+// what is below it.
+func order(pt here.Path) string {
+	return pt.Pkg + "\x00" + strings.Replace(pt.Name, "/", "\x00", -1)
+}
-- 
2.43.0


From f54e889b23056c1e87e9e328e45f67f1bf2b04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 14/35] fix: creating and removing in-memory files follows
 package os and is atomic

---
 pkging/mem/mem.go | 84 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 18 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index eada735..f3440c6 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -7,6 +7,8 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+	"sync"
+	"syscall"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -31,6 +33,7 @@ type Pkger struct {
 	Here  here.Info
 	infos *maps.Infos
 	files *maps.Files
+	mu    sync.Mutex // held while the set of files changes
 }
 
 // Current returns the here.Info representing the current Pkger implementation.
@@ -60,8 +63,20 @@ func (fx *Pkger) Remove(name string) error {
 		return err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
 	if _, ok := fx.files.Load(pt); !ok {
-		return &os.PathError{"remove", pt.String(), fmt.Errorf("no such file or directory")}
+		return &os.PathError{Op: "remove", Path: pt.String(), Err: os.ErrNotExist}
+	}
+
+	empty := true
+	fx.files.Range(func(key here.Path, file pkging.File) bool {
+		empty = key == pt || !isBelow(key, pt)
+		return empty
+	})
+	if !empty {
+		return &os.PathError{Op: "remove", Path: pt.String(), Err: syscall.ENOTEMPTY}
 	}
 
 	fx.files.Delete(pt)
@@ -75,6 +90,9 @@ func (fx *Pkger) RemoveAll(name string) error {
 		return err
 	}
 
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
 		if isBelow(key, pt) {
 			fx.files.Delete(key)
@@ -87,7 +105,6 @@ func (fx *Pkger) RemoveAll(name string) error {
 
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func (fx *Pkger) Create(name string) (pkging.File, error) {
-	fx.MkdirAll("/", 0755)
 	pt, err := fx.Parse(name)
 	if err != nil {
 		return nil, err
@@ -98,11 +115,23 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
-	dir := filepath.Dir(pt.Name)
-	if dir != "/" {
-		if _, err := fx.Stat(dir); err != nil {
-			return nil, err
-		}
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+
+	if err := fx.mkdirAll(here.Path{Pkg: pt.Pkg, Name: "/"}, 0755); err != nil {
+		return nil, err
+	}
+
+	dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
+	fi, err := fx.stat(dir)
+	if err != nil {
+		return nil, err
+	}
+	if !fi.IsDir() {
+		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: syscall.ENOTDIR}
+	}
+	if fi, err := fx.stat(pt); err == nil && fi.IsDir() {
+		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: syscall.EISDIR}
 	}
 
 	f := &File{
@@ -110,7 +139,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		path: pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
-				Name:    filepath.Base(name),
+				Name:    path.Base(pt.Name),
 				Mode:    0644,
 				ModTime: pkging.ModTime(time.Now()),
 			},
@@ -129,34 +158,49 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	fx.mu.Lock()
+	defer fx.mu.Unlock()
+	return fx.mkdirAll(pt, perm)
+}
+
+func (fx *Pkger) mkdirAll(pt here.Path, perm os.FileMode) error {
+	if fi, err := fx.stat(pt); err == nil {
+		if !fi.IsDir() {
+			return &os.PathError{Op: "mkdir", Path: pt.String(), Err: syscall.ENOTDIR}
+		}
+		return nil
+	}
+
 	dir, name := path.Split(pt.Name)
 
-	if dir != "/" {
-		if err := fx.MkdirAll(dir, perm); err != nil {
+	if name != "" {
+		if err := fx.mkdirAll(here.Path{Pkg: pt.Pkg, Name: path.Clean(dir)}, perm); err != nil {
 			return err
 		}
 	}
 
+	her, err := fx.Info(pt.Pkg)
+	if err != nil {
+		her = fx.Here
+	}
+
 	if dir == "/" && name == "" {
-		dir = filepath.Base(fx.Here.Dir)
+		name = filepath.Base(her.Dir)
 	}
 
 	f := &File{
-		Here:   fx.Here,
+		Here:   her,
 		pkging: fx,
 		path:   pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
 				IsDir:   true,
 				Name:    name,
-				Mode:    perm,
+				Mode:    os.ModeDir | perm,
 				ModTime: pkging.ModTime(time.Now()),
 			},
 		},
 	}
-	if err := f.Close(); err != nil {
-		return err
-	}
 	fx.files.Store(pt, f)
 	return nil
 
@@ -175,7 +219,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 	fl, ok := fx.files.Load(pt)
 	if !ok {
-		return nil, os.ErrNotExist
+		return nil, &os.PathError{Op: "open", Path: pt.String(), Err: os.ErrNotExist}
 	}
 	f, ok := fl.(*File)
 	if !ok {
@@ -199,11 +243,15 @@ func (fx *Pkger) Stat(name string) (os.FileInfo, error) {
 	if err != nil {
 		return nil, err
 	}
+	return fx.stat(pt)
+}
+
+func (fx *Pkger) stat(pt here.Path) (os.FileInfo, error) {
 	f, ok := fx.files.Load(pt)
 	if ok {
 		return f.Stat()
 	}
-	return nil, fmt.Errorf("could not stat %s", pt)
+	return nil, &os.PathError{Op: "stat", Path: pt.String(), Err: os.ErrNotExist}
 }
 
 // Walk walks the file tree rooted at root, calling walkFn for each file or directory in the tree, including root. All errors that arise visiting files and directories are filtered by walkFn. The files are walked in lexical order, which makes the output deterministic but means that for very large directories Walk can be inefficient. Walk does not follow symbolic links. - That is from the standard library. I know. Their grammar teachers can not be happy with them right now.
-- 
2.43.0


From e1dce432a66333c23156179473ded7be8c6eedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:34 +0000
Subject: [PATCH 15/35] fix: list directories of in-memory packages in pages,
 open by exact path

---
 pkging/mem/file.go | 95 ++++++++++++++++++++--------------------------
 pkging/mem/mem.go  |  4 ++
 2 files changed, 46 insertions(+), 53 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index a134a77..43a42bb 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -8,7 +8,9 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"sync"
+	"syscall"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -29,6 +31,8 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	pkging pkging.Pkger
+
+	entries []os.FileInfo // left for Readdir, nil before the first call
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
@@ -38,6 +42,10 @@ func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
 		f.reader = bytes.NewReader(data)
 	}
 
+	if f.isDir() && ofpkginget == 0 && whence == io.SeekStart {
+		f.entries = nil
+	}
+
 	if sk, ok := f.reader.(io.Seeker); ok {
 		return sk.Seek(ofpkginget, whence)
 	}
@@ -143,81 +151,62 @@ func (f *File) String() string {
 //
 // If n <= 0, Readdir returns all the FileInfo from the directory in a single slice. In this case, if Readdir succeeds (reads all the way to the end of the directory), it returns the slice and a nil error. If it encounters an error before the end of the directory, Readdir returns the FileInfo read until that point and a non-nil error.
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
-	var infos []os.FileInfo
-	root := f.Path().String()
-	err := f.pkging.Walk(root, func(path string, info os.FileInfo, err error) error {
+	if !f.isDir() {
+		return nil, &os.PathError{Op: "readdir", Path: f.Name(), Err: syscall.ENOTDIR}
+	}
+
+	if f.entries == nil {
+		infos, err := f.readdir()
 		if err != nil {
-			return err
+			return nil, err
 		}
+		f.entries = infos
+	}
 
-		if count > 0 && len(infos) == count {
-			return io.EOF
+	infos := f.entries
+	if count > 0 {
+		if len(infos) == 0 {
+			return nil, io.EOF
 		}
-
-		if root == path {
-			return nil
+		if len(infos) > count {
+			infos = infos[:count:count]
 		}
+	}
+	f.entries = f.entries[len(infos):]
+	return infos, nil
+}
 
-		pt, err := f.pkging.Parse(path)
+// readdir returns all entries of the directory.
+func (f *File) readdir() ([]os.FileInfo, error) {
+	infos := []os.FileInfo{}
+	root := f.Path().String()
+	err := f.pkging.Walk(root, func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
 		}
-		if pt.Name == f.parent.Name {
+
+		rel := strings.Trim(strings.TrimPrefix(path, root), "/")
+		if rel == "" || strings.Contains(rel, "/") {
 			return nil
 		}
 
 		infos = append(infos, info)
-		if info.IsDir() && path != root {
+		if info.IsDir() {
 			return filepath.SkipDir
 		}
 
 		return nil
 	})
-
-	if err != nil {
-		if _, ok := err.(*os.PathError); ok {
-			return infos, nil
-		}
-		if err != io.EOF {
-			return nil, err
-		}
-	}
-	return infos, nil
-
+	return infos, err
 }
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	pt, err := f.Here.Parse(name)
-	if err != nil {
-		return nil, err
-	}
+	pt := f.path
+	pt.Name = path.Join("/", pt.Name, path.Join("/", name))
 
-	if pt == f.path {
-		return f, nil
-	}
-
-	pt.Name = path.Join(f.Path().Name, pt.Name)
-
-	di, err := f.pkging.Open(pt.String())
-	if err != nil {
-		return nil, err
-	}
-
-	fi, err := di.Stat()
-	if err != nil {
-		return nil, err
-	}
-
-	if fi.IsDir() {
-		d2 := &File{
-			info:   pkging.NewFileInfo(fi),
-			Here:   di.Info(),
-			path:   pt,
-			parent: f.path,
-			pkging: f.pkging,
-		}
-		di = d2
+	if fx, ok := f.pkging.(*Pkger); ok {
+		return fx.open(pt)
 	}
-	return di, nil
+	return f.pkging.Open(pt.String())
 }
diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index f3440c6..5ae3a84 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -217,6 +217,10 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 		}
 	}
 
+	return fx.open(pt)
+}
+
+func (fx *Pkger) open(pt here.Path) (pkging.File, error) {
 	fl, ok := fx.files.Load(pt)
 	if !ok {
 		return nil, &os.PathError{Op: "open", Path: pt.String(), Err: os.ErrNotExist}
-- 
2.43.0


From 69c5032e660b7757f8cecb6ef703760940b3d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:39 +0000
Subject: [PATCH 16/35] fix: close files that are not handed out

---
 pkger.go              | 1 +
 pkging/stdos/stdos.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pkger.go b/pkger.go
index d0e242b..d844829 100644
--- a/pkger.go
+++ b/pkger.go
@@ -57,6 +57,7 @@ func (d Dir) Open(name string) (http.File, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
 	return f.Open(name)
 }
 
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 66c5304..cbb31ff 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -55,6 +55,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 
 	info, err := f.Stat()
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	nf.info = pkging.NewFileInfo(info)
@@ -127,6 +128,7 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 	info, err := f.Stat()
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	nf.info = pkging.NewFileInfo(info)
-- 
2.43.0


From c640eb5b552b952b9c002bfa54254f5b83fd643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 17/35] fix: MkdirAll on disk of a path with a package

---
 pkging/stdos/stdos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index cbb31ff..75a6832 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -98,7 +98,7 @@ func (f *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	return os.MkdirAll(filepath.Join(info.Dir, p), perm)
+	return os.MkdirAll(filepath.Join(info.Dir, pt.Name), perm)
 }
 
 // Open opens the named file for reading. If successful, methods on the returned file can be used for reading; the associated file descriptor has mode O_RDONLY.
-- 
2.43.0


From 549fbb1b2444912e654f7e010918f8a8f609e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:50 +0000
Subject: [PATCH 18/35] fix: paths on disk do not lead out of their package

---
 pkging/stdos/stdos.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 75a6832..9e59101 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -3,6 +3,7 @@ package stdos
 import (
 	"fmt"
 	"os"
+	"path"
 	"path/filepath"
 	"strings"
 
@@ -138,7 +139,13 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	pt, err := f.Here.Parse(p)
+	if err != nil {
+		return pt, err
+	}
+	// backslashes can hide elements that lead out of the package
+	pt.Name = path.Join("/", pt.Name)
+	return pt, nil
 }
 
 // Stat returns a FileInfo describing the named file.
-- 
2.43.0


From 2029503d30af25a9eef41844205274fff820a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:13 +0000
Subject: [PATCH 19/35] fix: Walk on disk hands errors to the callback

---
 pkging/stdos/stdos.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 9e59101..cb86fb3 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -183,11 +183,7 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 	}
 
 	fp := filepath.Join(info.Dir, pt.Name)
-	err = filepath.Walk(fp, func(path string, fi os.FileInfo, err error) error {
-		if err != nil {
-			return err
-		}
-
+	err = filepath.Walk(fp, func(path string, fi os.FileInfo, werr error) error {
 		pt, err := f.Parse(fmt.Sprintf("%s:%s", pt.Pkg, path))
 		if err != nil {
 			return err
@@ -201,7 +197,10 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 		path = strings.TrimPrefix(path, info.Dir)
 		path = strings.ReplaceAll(path, "\\", "/")
 		pt.Name = path
-		return wf(pt.String(), pkging.NewFileInfo(fi), nil)
+		if fi == nil {
+			return wf(pt.String(), nil, werr)
+		}
+		return wf(pt.String(), pkging.NewFileInfo(fi), werr)
 	})
 
 	return err
-- 
2.43.0


From 9c3f1a755b117c0bbfae35ade3e5436a19ee3043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:37 +0000
Subject: [PATCH 20/35] fix: Stat of a disk file sees what was written since it
 was opened

---
 pkging/stdos/file.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 35845cf..38feccb 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -60,14 +60,9 @@ func (f *File) Path() here.Path {
 
 // Stat returns the FileInfo structure describing file. If there is an error, it will be of type *PathError.
 func (f *File) Stat() (os.FileInfo, error) {
-	if f.info != nil {
-		return f.info, nil
-	}
-
 	info, err := f.File.Stat()
 	if err != nil {
 		return nil, err
 	}
-	f.info = pkging.NewFileInfo(info)
-	return f.info, nil
+	return pkging.NewFileInfo(info), nil
 }
-- 
2.43.0


From 0f7d298c2a65a33f8b7e6823131d462f4fdf623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:34 +0000
Subject: [PATCH 21/35] fix: open files below a directory of another package on
 disk

---
 pkging/stdos/file.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 38feccb..4005f4a 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -45,8 +45,9 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	fp := path.Join(f.Path().Name, name)
-	f2, err := f.pkging.Open(fp)
+	pt := f.Path()
+	pt.Name = path.Join(pt.Name, name)
+	f2, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 19bb78bdd3fa0d0cc207e971691e7159bb11ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:59 +0000
Subject: [PATCH 22/35] fix: files opened through a directory on disk lie below
 it

A backslash in the name was taken for a slash after the name had been
cleaned: GET /..%5Cmain.go of http.FileServer(pkger.Dir("/public")) served a
file outside of the directory.
---
 pkging/stdos/file.go  | 11 ++++++-----
 pkging/stdos/stdos.go |  5 ++++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 4005f4a..4670ebf 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -4,6 +4,7 @@ import (
 	"net/http"
 	"os"
 	"path"
+	"path/filepath"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -46,12 +47,12 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
 	pt := f.Path()
-	pt.Name = path.Join(pt.Name, name)
-	f2, err := f.pkging.Open(pt.String())
-	if err != nil {
-		return nil, err
+	pt.Name = path.Join(pt.Name, path.Join("/", filepath.ToSlash(name)))
+
+	if fx, ok := f.pkging.(*Pkger); ok {
+		return fx.open(pt)
 	}
-	return f2, nil
+	return f.pkging.Open(pt.String())
 }
 
 // Path returns the here.Path of the file
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index cb86fb3..82876f4 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -108,13 +108,16 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 	if err != nil {
 		return nil, err
 	}
+	return fx.open(pt)
+}
 
+func (fx *Pkger) open(pt here.Path) (pkging.File, error) {
 	her, err := fx.Info(pt.Pkg)
 	if err != nil {
 		return nil, err
 	}
 
-	name = filepath.Join(her.Dir, pt.Name)
+	name := filepath.Join(her.Dir, pt.Name)
 	f, err := os.Open(name)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c2b8112241b2e4eae60c2c2406dd171789528938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 23/35] fix: do not pass package names to the go command that
 it takes for flags

---
 here/here.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/here/here.go b/here/here.go
index 2c2430b..0540e97 100644
--- a/here/here.go
+++ b/here/here.go
@@ -13,7 +13,15 @@ type Module = here.Module
 type Path = here.Path
 
 var Here = here.New()
-var Package = Here.Package
+
+// Package attempts to gather info for the requested package.
+func Package(p string) (Info, error) {
+	if strings.HasPrefix(p, "-") {
+		// the go command would take it for a flag
+		return Info{}, fmt.Errorf("malformed package name %q", p)
+	}
+	return Here.Package(p)
+}
 
 // Current returns the Info representing the current Go module
 func Current() (Info, error) {
-- 
2.43.0


From 9db354f49c35b632c5100ff4b8917df69c544233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:29 +0000
Subject: [PATCH 24/35] fix: a name below a file does not exist when served
 from disk

http.FileServer(pkger.Dir("/public")) answered GET /foo.txt/x with status 500.
---
 pkging/stdos/file.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 4670ebf..7884408 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"syscall"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -50,7 +51,12 @@ func (f *File) Open(name string) (http.File, error) {
 	pt.Name = path.Join(pt.Name, path.Join("/", filepath.ToSlash(name)))
 
 	if fx, ok := f.pkging.(*Pkger); ok {
-		return fx.open(pt)
+		f2, err := fx.open(pt)
+		if pe, ok := err.(*os.PathError); ok && pe.Err == syscall.ENOTDIR {
+			// there is nothing below a file, as http.Dir has it
+			err = &os.PathError{Op: pe.Op, Path: pe.Path, Err: os.ErrNotExist}
+		}
+		return f2, err
 	}
 	return f.pkging.Open(pt.String())
 }
-- 
2.43.0


From 177cc1ecaa05898c9f64d84b0c1e76354e5a77e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 25/35] fix: check what is found when the go command fails
 repeatedly

---
 here/here.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/here/here.go b/here/here.go
index 0540e97..b80d755 100644
--- a/here/here.go
+++ b/here/here.go
@@ -57,32 +57,38 @@ func verify(dir string, i Info) (Info, error) {
 	if len(i.ImportPath) > 0 {
 		return i, nil
 	}
-	if len(i.Module.Path) > 0 {
-		ok, err := hasGoFiles(dir)
-		if err != nil {
-			return Info{}, err
-		}
-		if !ok {
-			return i, nil
+	if len(i.Module.Path) == 0 {
+		var err error
+		i, err = here.New().Dir(dir)
+		if err != nil || len(i.ImportPath) > 0 {
+			return i, err
 		}
-		if _, err = here.New().Package(dir); err != nil {
-			for _, s := range []string{"no Go files", "build constraints exclude"} {
-				if strings.Contains(err.Error(), s) {
-					return i, nil
-				}
-			}
-			return Info{}, err
+		if len(i.Module.Path) == 0 {
+			return Info{}, fmt.Errorf("could not find the module of %s", dir)
 		}
 	}
 
-	i, err := here.New().Dir(dir)
+	ok, err := hasGoFiles(dir)
 	if err != nil {
-		return i, err
+		return Info{}, err
 	}
-	if len(i.Module.Path) == 0 {
-		return Info{}, fmt.Errorf("could not find the module of %s", dir)
+	if !ok {
+		return i, nil
+	}
+	if _, err = here.New().Package(dir); err != nil {
+		for _, s := range []string{"no Go files", "build constraints exclude"} {
+			if strings.Contains(err.Error(), s) {
+				return i, nil
+			}
+		}
+		return Info{}, err
+	}
+
+	i, err = here.New().Dir(dir)
+	if err == nil && len(i.ImportPath) == 0 {
+		return Info{}, fmt.Errorf("could not find the package in %s", dir)
 	}
-	return i, nil
+	return i, err
 }
 
 func hasGoFiles(dir string) (bool, error) {
-- 
2.43.0


From dc2b4b21e080b89e7e0e8f9c1d7983598cf08983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 26/35] fix: concurrent lookups could leave the working
 directory changed

---
 here/here.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/here/here.go b/here/here.go
index b80d755..2a060e1 100644
--- a/here/here.go
+++ b/here/here.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"strings"
+	"sync"
 
 	"github.com/gobuffalo/here"
 )
@@ -14,6 +15,10 @@ type Path = here.Path
 
 var Here = here.New()
 
+// chdir is held while the working directory may be another one, to look into
+// directories.
+var chdir sync.Mutex
+
 // Package attempts to gather info for the requested package.
 func Package(p string) (Info, error) {
 	if strings.HasPrefix(p, "-") {
@@ -25,6 +30,8 @@ func Package(p string) (Info, error) {
 
 // Current returns the Info representing the current Go module
 func Current() (Info, error) {
+	chdir.Lock()
+	defer chdir.Unlock()
 	i, err := Here.Current()
 	if err != nil || len(i.ImportPath) > 0 {
 		return i, err
@@ -38,6 +45,8 @@ func Current() (Info, error) {
 
 // Dir attempts to gather info for the requested directory.
 func Dir(p string) (Info, error) {
+	chdir.Lock()
+	defer chdir.Unlock()
 	i, err := Here.Dir(p)
 	if err != nil || len(i.ImportPath) > 0 {
 		return i, err
-- 
2.43.0


From 0c5aa09de54f2999dc96577087673c4f6960e60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 27/35] fix: pack files on disk that the program also creates

A path given to MkdirAll or Create was left out of what is packed and
listed, even when it is on disk and declared, by the module or as part of
a dependency with a path of the same name. Such a path is left out only if
it does not exist.
---
 parser/open.go | 8 ++++----
 parser/walk.go | 7 -------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/parser/open.go b/parser/open.go
index 85ec71e..8b0d2b8 100644
--- a/parser/open.go
+++ b/parser/open.go
@@ -48,10 +48,6 @@ func (d OpenDecl) Value() (string, error) {
 }
 
 func (d OpenDecl) Files(virtual map[string]string) ([]*File, error) {
-	if _, ok := virtual[d.value]; ok {
-		return nil, nil
-	}
-
 	her := d.file.Here
 	pt := d.file.Path
 
@@ -59,6 +55,10 @@ func (d OpenDecl) Files(virtual map[string]string) ([]*File, error) {
 
 	osf, err := os.Stat(fp)
 	if err != nil {
+		if _, ok := virtual[d.value]; ok && os.IsNotExist(err) {
+			// it is created when the program runs
+			return nil, nil
+		}
 		return nil, err
 	}
 
diff --git a/parser/walk.go b/parser/walk.go
index e56c23f..49e3269 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -79,13 +79,6 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		if _, ok := virtual[n]; ok {
-			if info.IsDir() {
-				return filepath.SkipDir
-			}
-			return nil
-		}
-
 		files = append(files, &File{
 			Abs:  path,
 			Path: pt,
-- 
2.43.0


From 6aecbb0fbf3441cccee11028e04adec93a95c283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:00 +0000
Subject: [PATCH 28/35] fix: directories with Go files for other builds only

---
 here/here.go | 46 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/here/here.go b/here/here.go
index 2a060e1..40ff6ed 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,8 +1,12 @@
 package here
 
 import (
+	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"os"
+	"os/exec"
+	"path/filepath"
 	"strings"
 	"sync"
 
@@ -48,6 +52,9 @@ func Dir(p string) (Info, error) {
 	chdir.Lock()
 	defer chdir.Unlock()
 	i, err := Here.Dir(p)
+	if excluded(err) {
+		return fromExcludedDir(p)
+	}
 	if err != nil || len(i.ImportPath) > 0 {
 		return i, err
 	}
@@ -60,6 +67,36 @@ func Dir(p string) (Info, error) {
 	return verify(p, i)
 }
 
+// excluded tells whether the go command failed because the Go files of a
+// directory are all meant for other builds.
+func excluded(err error) bool {
+	return err != nil && strings.Contains(err.Error(), "build constraints exclude")
+}
+
+// fromExcludedDir gathers info for such a directory, which holds no package,
+// just like a directory without Go files.
+func fromExcludedDir(p string) (Info, error) {
+	fi, err := os.Stat(p)
+	if err != nil {
+		return Info{}, err
+	}
+	if !fi.IsDir() {
+		p = filepath.Dir(p)
+	}
+	i := Info{Dir: p, Name: filepath.Base(p)}
+
+	c := exec.Command("go", "list", "-json", "-m")
+	c.Dir = p
+	b, err := c.Output()
+	if err != nil {
+		return Info{}, fmt.Errorf("could not find the module of %s: %s", p, err)
+	}
+	if err = json.Unmarshal(b, &i.Module); err != nil {
+		return Info{}, err
+	}
+	return i, nil
+}
+
 // verify checks an answer that knows of no Go package in dir. It can be due to
 // a go command that could not be run.
 func verify(dir string, i Info) (Info, error) {
@@ -69,6 +106,9 @@ func verify(dir string, i Info) (Info, error) {
 	if len(i.Module.Path) == 0 {
 		var err error
 		i, err = here.New().Dir(dir)
+		if excluded(err) {
+			return fromExcludedDir(dir)
+		}
 		if err != nil || len(i.ImportPath) > 0 {
 			return i, err
 		}
@@ -85,10 +125,8 @@ func verify(dir string, i Info) (Info, error) {
 		return i, nil
 	}
 	if _, err = here.New().Package(dir); err != nil {
-		for _, s := range []string{"no Go files", "build constraints exclude"} {
-			if strings.Contains(err.Error(), s) {
-				return i, nil
-			}
+		if excluded(err) || strings.Contains(err.Error(), "no Go files") {
+			return i, nil
 		}
 		return Info{}, err
 	}
-- 
2.43.0


From 0e542fdfb62d891d744d9fe82042f5e7bb50ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:24 +0000
Subject: [PATCH 29/35] fix: paths are not parsed for an unknown current
 package

---
 pkging/stdos/stdos.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 82876f4..00c2cf1 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -146,6 +146,11 @@ func (f *Pkger) Parse(p string) (here.Path, error) {
 	if err != nil {
 		return pt, err
 	}
+	if len(pt.Pkg) == 0 {
+		if _, err = f.Current(); err != nil {
+			return here.Path{}, err
+		}
+	}
 	// backslashes can hide elements that lead out of the package
 	pt.Name = path.Join("/", pt.Name)
 	return pt, nil
-- 
2.43.0


From be36f26106809d089cca5e276524ace7dba8db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:07 +0000
Subject: [PATCH 30/35] fix: stat and list fail if their output cannot be
 written

---
 cmd/pkger/cmds/list.go | 8 ++++++--
 cmd/pkger/cmds/stat.go | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/cmd/pkger/cmds/list.go b/cmd/pkger/cmds/list.go
index ab3598a..942638d 100644
--- a/cmd/pkger/cmds/list.go
+++ b/cmd/pkger/cmds/list.go
@@ -73,9 +73,13 @@ func (e *listCmd) Exec(args []string) error {
 		return err
 	}
 
-	fmt.Println(jay.ImportPath)
+	if _, err := fmt.Println(jay.ImportPath); err != nil {
+		return err
+	}
 	for _, f := range jay.Files {
-		fmt.Println(" >", f.Path)
+		if _, err := fmt.Println(" >", f.Path); err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/cmd/pkger/cmds/stat.go b/cmd/pkger/cmds/stat.go
index 3312559..6062c0b 100644
--- a/cmd/pkger/cmds/stat.go
+++ b/cmd/pkger/cmds/stat.go
@@ -45,12 +45,16 @@ func (f *statCmd) Exec(args []string) error {
 				return err
 			}
 			for _, ff := range files {
-				fmt.Println(pkging.NewFileInfo(ff))
+				if _, err := fmt.Println(pkging.NewFileInfo(ff)); err != nil {
+					return err
+				}
 			}
 			continue
 		}
 
-		fmt.Println(pkging.NewFileInfo(fi))
+		if _, err := fmt.Println(pkging.NewFileInfo(fi)); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 4780acd8c2fa79a5790d5b1f38873e101a9aa71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:38 +0000
Subject: [PATCH 31/35] fix: info without arguments tells of the current
 package

---
 cmd/pkger/cmds/info.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/pkger/cmds/info.go b/cmd/pkger/cmds/info.go
index e7e0f09..d675137 100644
--- a/cmd/pkger/cmds/info.go
+++ b/cmd/pkger/cmds/info.go
@@ -6,6 +6,7 @@ import (
 	"os"
 
 	"github.com/markbates/pkger"
+	"github.com/markbates/pkger/here"
 )
 
 type infoCmd struct {
@@ -28,8 +29,12 @@ func (r *infoCmd) Exec(args []string) error {
 		args = []string{"."}
 	}
 	for _, a := range args {
-
-		fi, err := pkger.Info(a)
+		find := pkger.Info
+		if a == "." {
+			// the package itself, which has no such import path
+			find = func(string) (here.Info, error) { return pkger.Current() }
+		}
+		fi, err := find(a)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0ae043d3d0000643b3be2ea0ba9a4e07bae3f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:34 +0000
Subject: [PATCH 32/35] fix: Remove through layers removes what some of them
 hold

---
 pkging/wrap.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkging/wrap.go b/pkging/wrap.go
index 438f955..8db4d74 100644
--- a/pkging/wrap.go
+++ b/pkging/wrap.go
@@ -120,16 +120,19 @@ func (w withPkger) Walk(p string, wf filepath.WalkFunc) error {
 	return nil
 }
 
-// Remove removes the named file or (empty) directory.
+// Remove removes the named file or (empty) directory, wherever it is.
 func (w withPkger) Remove(p string) error {
-	err := w.base.Remove(p)
-	if err != nil {
-		return err
-	}
 	if w.parent != nil {
-		return w.parent.Remove(p)
+		if _, err := w.parent.Stat(p); err == nil {
+			if err := w.parent.Remove(p); err != nil {
+				return err
+			}
+			if _, err := w.base.Stat(p); err != nil {
+				return nil
+			}
+		}
 	}
-	return nil
+	return w.base.Remove(p)
 }
 
 // RemoveAll removes path and any children it contains. It removes everything it can but returns the first error it encounters. If the path does not exist, RemoveAll returns nil (no error).
-- 
2.43.0


From e9b503f36376798fd15774b639740e4039bb98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:18 +0000
Subject: [PATCH 33/35] fix: directories whose Go files make no package

---
 here/here.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/here/here.go b/here/here.go
index 40ff6ed..e8633ee 100644
--- a/here/here.go
+++ b/here/here.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"regexp"
 	"strings"
 	"sync"
 
@@ -68,11 +69,28 @@ func Dir(p string) (Info, error) {
 }
 
 // excluded tells whether the go command failed because the Go files of a
-// directory are all meant for other builds.
+// directory do not make a package: they are all meant for other builds or of
+// several packages, are not really Go, or no import path can name them.
 func excluded(err error) bool {
-	return err != nil && strings.Contains(err.Error(), "build constraints exclude")
+	if err == nil {
+		return false
+	}
+	for _, s := range []string{
+		"build constraints exclude",
+		"found packages",
+		"malformed import path",
+		"invalid input directory name",
+	} {
+		if strings.Contains(err.Error(), s) {
+			return true
+		}
+	}
+	return syntaxError.MatchString(err.Error())
 }
 
+// syntaxError is how the go command begins to report one.
+var syntaxError = regexp.MustCompile(`\.go:[0-9]+:[0-9]+: `)
+
 // fromExcludedDir gathers info for such a directory, which holds no package,
 // just like a directory without Go files.
 func fromExcludedDir(p string) (Info, error) {
-- 
2.43.0


From a6467d10f492c97a1cbf9d0520f185744d263baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:13 +0000
Subject: [PATCH 34/35] fix: write modification times in UTC, not in the zone
 of the machine that packs

---
 pkging/mod_time.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkging/mod_time.go b/pkging/mod_time.go
index d81a32c..408bdb0 100644
--- a/pkging/mod_time.go
+++ b/pkging/mod_time.go
@@ -10,7 +10,8 @@ const timeFmt = time.RFC3339Nano
 type ModTime time.Time
 
 func (m ModTime) MarshalJSON() ([]byte, error) {
-	t := time.Time(m)
+	// the offset of a time zone would lose seconds, and tell where it was written
+	t := time.Time(m).UTC()
 	return json.Marshal(t.Format(timeFmt))
 }
 
-- 
2.43.0


From 4b0fac4eff0b775c2d0b418aeafa1d2b0747f49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:13 +0000
Subject: [PATCH 35/35] fix: resolve symbolic links in the directories of
 packages

---
 here/here.go | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/here/here.go b/here/here.go
index e8633ee..fb44fd7 100644
--- a/here/here.go
+++ b/here/here.go
@@ -1,6 +1,7 @@
 package here
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -30,13 +31,17 @@ func Package(p string) (Info, error) {
 		// the go command would take it for a flag
 		return Info{}, fmt.Errorf("malformed package name %q", p)
 	}
-	return Here.Package(p)
+	return physical(Here.Package(p))
 }
 
 // Current returns the Info representing the current Go module
 func Current() (Info, error) {
 	chdir.Lock()
 	defer chdir.Unlock()
+	return physical(current())
+}
+
+func current() (Info, error) {
 	i, err := Here.Current()
 	if err != nil || len(i.ImportPath) > 0 {
 		return i, err
@@ -52,6 +57,10 @@ func Current() (Info, error) {
 func Dir(p string) (Info, error) {
 	chdir.Lock()
 	defer chdir.Unlock()
+	return physical(dir(p))
+}
+
+func dir(p string) (Info, error) {
 	i, err := Here.Dir(p)
 	if excluded(err) {
 		return fromExcludedDir(p)
@@ -68,6 +77,26 @@ func Dir(p string) (Info, error) {
 	return verify(p, i)
 }
 
+// physical replaces the directories of i by those that they are once symbolic
+// links are resolved. A directory has only one such name, whichever way the
+// go command got there, and Walk looks into it.
+func physical(i Info, err error) (Info, error) {
+	for _, d := range []*string{&i.Dir, &i.Root, &i.Module.Dir, &i.Module.GoMod} {
+		if err != nil || len(*d) == 0 {
+			continue
+		}
+		p, e := filepath.EvalSymlinks(*d)
+		if os.IsNotExist(e) {
+			continue
+		}
+		*d, err = p, e
+	}
+	if err != nil {
+		return Info{}, err
+	}
+	return i, nil
+}
+
 // excluded tells whether the go command failed because the Go files of a
 // directory do not make a package: they are all meant for other builds or of
 // several packages, are not really Go, or no import path can name them.
@@ -142,7 +171,11 @@ func verify(dir string, i Info) (Info, error) {
 	if !ok {
 		return i, nil
 	}
-	if _, err = here.New().Package(dir); err != nil {
+	// not by its name, which the go command may know as another one
+	c, ebb := exec.Command("go", "list", "-find"), &bytes.Buffer{}
+	c.Dir, c.Stderr = dir, ebb
+	if err = c.Run(); err != nil {
+		err = fmt.Errorf("%s: %s", err, ebb)
 		if excluded(err) || strings.Contains(err.Error(), "no Go files") {
 			return i, nil
 		}
-- 
2.43.0

