From 038714d75f3a4a58894aca369f21563c5d94420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:02 +0000
Subject: [PATCH 01/55] fix: squash: keep hiding what was whited out when a
 directory takes the name

Squashing [.wh.foo] with [foo/] dropped the whiteout, so that the contents
of a foo/ in the base image reappeared.
---
 pkg/squash/vfs.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 2a0c1a5..babfcd3 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -159,6 +159,10 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 	}
 
 	wasFile := f.header != nil && f.header.Typeflag != tar.TypeDir
+	wasWhiteout := false
+	if f.parent != nil {
+		_, wasWhiteout = f.parent.children[".wh."+path.Base(f.name)]
+	}
 
 	f.header = hdr
 	f.body = body
@@ -167,21 +171,26 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 		// Changing a directory to a non-directory will implicitly whiteout anything in that
 		// directory.
 		f.children = nil
-	} else if wasFile {
+	} else if wasFile || wasWhiteout {
 		// If we previously changed a directory to a non-directory, then changing it back
 		// risks discarding that implicit whiteout, so if we change a file to a directory,
 		// make a potential previous implicit whiteout explicit.  I say "potential" because
 		// without the entire layer stack (which this function explicitly doesn't require),
 		// we can't know if any given file was such a dir-to-non-dir conversion.
-		whFile, err := f.Get(".wh..wh..opq", true, true)
-		if err != nil {
-			return err
+		//
+		// Similarly, if there is an explicit whiteout of the name, then we're about to
+		// discard it (below), so the directory must not let what was whited out show
+		// through.
+		if f.children == nil {
+			f.children = make(map[string]*fsfile)
 		}
-		if err := whFile.Set(&tar.Header{
-			Typeflag: tar.TypeReg,
-			Mode:     0o644,
-		}, nil); err != nil {
-			return err
+		f.children[".wh..wh..opq"] = &fsfile{ //nolint:exhaustivestruct
+			name:   path.Join(f.name, ".wh..wh..opq"),
+			parent: f,
+			header: &tar.Header{ //nolint:exhaustivestruct
+				Typeflag: tar.TypeReg,
+				Mode:     0o644,
+			},
 		}
 	}
 	if f.parent != nil {
-- 
2.43.0


From 139adebad03a1f79434ca6dc6b1bbc904d1ad324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:15 +0000
Subject: [PATCH 02/55] fix: squash: preserve hard links

A hard link entry was kept as a name to be resolved by whoever extracts the
squashed layer, but by then that name may have been written after the link,
overwritten, or removed; and the io/fs view of it was an empty file.  Have it
share the target's header and content as of when the entry is applied.
---
 pkg/squash/vfs.go    | 35 +++++++++++++++++++++++++++++++++--
 pkg/squash/vfs_fs.go |  6 ++++--
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index babfcd3..c65791c 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -158,6 +158,22 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 		hdr = &_hdr
 	}
 
+	// A hard link is another name for whatever its target is *right now*; what happens to the
+	// target's name later doesn't matter.  We represent this by having the two share the same
+	// header; .WriteTo() will turn that back in to a hard link.  If the target isn't in the
+	// layers that we have, then we've no choice but to leave the entry as-is.
+	if hdr.Typeflag == tar.TypeLink {
+		root := f
+		for root.parent != root {
+			root = root.parent
+		}
+		tgt, err := fsGet(root, strings.TrimLeft(hdr.Linkname, "/"), false, false)
+		if err == nil && tgt.header != nil && tgt.header.Typeflag != tar.TypeDir {
+			hdr = tgt.header
+			body = tgt.body
+		}
+	}
+
 	wasFile := f.header != nil && f.header.Typeflag != tar.TypeDir
 	wasWhiteout := false
 	if f.parent != nil {
@@ -212,6 +228,12 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 }
 
 func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
+	return f.writeTo(tarWriter, make(map[*tar.Header]string))
+}
+
+// writeTo implements WriteTo; "written" keeps track of the name that each file was first written
+// as, for use as the target of hard links.
+func (f *fsfile) writeTo(tarWriter *tar.Writer, written map[*tar.Header]string) error {
 	name := f.name
 
 	if f.header != nil {
@@ -220,10 +242,19 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 		}
 		hdr := *f.header // shallow copy
 		hdr.Name = name
+		body := f.body
+		if linkname, isLink := written[f.header]; isLink {
+			hdr.Typeflag = tar.TypeLink
+			hdr.Linkname = linkname
+			hdr.Size = 0
+			body = nil
+		} else {
+			written[f.header] = name
+		}
 		if err := tarWriter.WriteHeader(&hdr); err != nil {
 			return err
 		}
-		if _, err := tarWriter.Write(f.body); err != nil {
+		if _, err := tarWriter.Write(body); err != nil {
 			return err
 		}
 	}
@@ -248,7 +279,7 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 
 	for _, childName := range childNames {
 		child := f.children[childName]
-		if err := child.WriteTo(tarWriter); err != nil {
+		if err := child.writeTo(tarWriter, written); err != nil {
 			return err
 		}
 	}
diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 7dd2b05..997e631 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -79,7 +79,7 @@ func (f *fsfileReader) Stat() (fs.FileInfo, error) {
 		}
 	}
 	hdr := *f.tgt.header // shallow copy
-	hdr.Name = f.lnk.header.Name
+	hdr.Name = f.lnk.name
 	return hdr.FileInfo(), nil
 }
 
@@ -180,7 +180,9 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 
 			var lnkDirEnt fs.DirEntry
 			if lnk.header != nil {
-				lnkDirEnt = fs.FileInfoToDirEntry(lnk.header.FileInfo())
+				hdr := *lnk.header // shallow copy
+				hdr.Name = lnk.name
+				lnkDirEnt = fs.FileInfoToDirEntry(hdr.FileInfo())
 			} else {
 				lnkDirEnt = missingDirEntry(childname)
 			}
-- 
2.43.0


From 81dc55822022aff0e152e329fb5ec75415cdecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:36 +0000
Subject: [PATCH 03/55] fix: squash: don't overflow the stack on a symlink that
 refers to itself

Looking up a path through a symlink such as "a -> a/x" recursed for ever;
give up with ELOOP like a real filesystem does.
---
 pkg/squash/vfs.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index c65791c..11b8703 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -27,7 +27,15 @@ type fsfile struct {
 	body   []byte
 }
 
+// maxLinks is the number of symlinks that we are willing to follow while looking up a path.
+const maxLinks = 255
+
 func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
+	return fsGetCounted(dir, pathname, create, followLinks, new(int))
+}
+
+// fsGetCounted implements fsGet, adding the number of symlinks followed to "links".
+func fsGetCounted(dir *fsfile, pathname string, create, followLinks bool, links *int) (*fsfile, error) {
 	pathname = path.Clean(pathname)
 
 	done := 0 // index of the next byte in pathname to look at
@@ -47,13 +55,13 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 			break
 		}
 		var err error
-		dir, err = dir.Get(pathname[done:done+slash], create, false)
+		dir, err = dir.getCounted(pathname[done:done+slash], create, false, links)
 		done += slash + 1
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.Get(pathname[done:], create, followLinks)
+	ret, err := dir.getCounted(pathname[done:], create, followLinks, links)
 	if err != nil {
 		return nil, err
 	}
@@ -61,6 +69,11 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 }
 
 func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
+	return f.getCounted(child, create, followLinks, new(int))
+}
+
+// getCounted implements Get, adding the number of symlinks followed to "links".
+func (f *fsfile) getCounted(child string, create, followLinks bool, links *int) (*fsfile, error) {
 	var ret *fsfile
 
 	switch child {
@@ -70,7 +83,14 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			newF, err := fsGet(f.parent, f.header.Linkname, create, true)
+			if *links++; *links > maxLinks {
+				return nil, &fs.PathError{
+					Op:   "vfs.readlink(dir)",
+					Path: "/" + f.name,
+					Err:  ErrLoop,
+				}
+			}
+			newF, err := fsGetCounted(f.parent, f.header.Linkname, create, true, links)
 			if err != nil {
 				return nil, &fs.PathError{
 					Op:   "vfs.readlink(dir)",
@@ -127,7 +147,14 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 			}
 		}
 		stack[ret] = struct{}{}
-		target, err := fsGet(ret.parent, ret.header.Linkname, create, false)
+		if *links++; *links > maxLinks {
+			return nil, &fs.PathError{
+				Op:   "vfs.readlink",
+				Path: "/" + ret.name,
+				Err:  ErrLoop,
+			}
+		}
+		target, err := fsGetCounted(ret.parent, ret.header.Linkname, create, false, links)
 		if err != nil {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
-- 
2.43.0


From a5672ede9dc730333085594bebef677e20b99277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:31 +0000
Subject: [PATCH 04/55] fix: squash: resolve symlinks to "/"

A symlink to "/" was taken to refer to a file with an empty name.
---
 pkg/squash/vfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 11b8703..6e65dea 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -79,7 +79,7 @@ func (f *fsfile) getCounted(child string, create, followLinks bool, links *int)
 	switch child {
 	case "..":
 		ret = f.parent
-	case ".":
+	case ".", "": // "" is what's left of "/"
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-- 
2.43.0


From a1b772750163665e0daf53567cd85c0a52531bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:29 +0000
Subject: [PATCH 05/55] fix: squash: don't insist on the USTAR format of the
 input

An entry that is written under a longer name than it was read under (because
of a symlink in its path, or as a hard link) may not fit in to it.
---
 pkg/squash/vfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 6e65dea..13ed0eb 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -269,6 +269,10 @@ func (f *fsfile) writeTo(tarWriter *tar.Writer, written map[*tar.Header]string)
 		}
 		hdr := *f.header // shallow copy
 		hdr.Name = name
+		if hdr.Format == tar.FormatUSTAR {
+			// The name might be different than (and longer than) it was in the input.
+			hdr.Format = tar.FormatUnknown
+		}
 		body := f.body
 		if linkname, isLink := written[f.header]; isLink {
 			hdr.Typeflag = tar.TypeLink
-- 
2.43.0


From c6fda6ed8fe5befcf86d1a4e52ec1dcf790d6ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:48 +0000
Subject: [PATCH 06/55] fix: squash: list directories that contain dangling
 symlinks

---
 pkg/squash/vfs_fs.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 997e631..7b7f575 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -187,12 +187,10 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 				lnkDirEnt = missingDirEntry(childname)
 			}
 
-			tgt, err := lnk.Get(".", false, true) // follow symlinks
-			if err != nil {
-				return nil, err
-			}
 			var tgtDirEnt fs.DirEntry
-			if tgt.header != nil {
+			if tgt, err := lnk.Get(".", false, true); err != nil { // follow symlinks
+				tgtDirEnt = lnkDirEnt // dangling symlink
+			} else if tgt.header != nil {
 				tgtDirEnt = fs.FileInfoToDirEntry(tgt.header.FileInfo())
 			} else {
 				tgtDirEnt = missingDirEntry(childname)
-- 
2.43.0


From 585a2bc53b5a26018c7aec404ce28f090465f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:11 +0000
Subject: [PATCH 07/55] fix: squash: don't expose whiteout markers as files in
 the io/fs view

---
 pkg/squash/vfs.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 13ed0eb..618c42f 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -124,6 +124,10 @@ func (f *fsfile) getCounted(child string, create, followLinks bool, links *int)
 			}
 		}
 		// Look up the child
+		if !create && strings.HasPrefix(child, ".wh.") {
+			// Whiteout markers aren't files.
+			break
+		}
 		if f.children == nil {
 			f.children = make(map[string]*fsfile)
 		}
-- 
2.43.0


From c112800be71e3ad87678713da8f474c6a983d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:12 +0000
Subject: [PATCH 08/55] fix: squash: don't write to the tree in read-only
 lookups

It made using the io/fs.FS from several goroutines a data race.
---
 pkg/squash/vfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 618c42f..f6f29d5 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -128,7 +128,7 @@ func (f *fsfile) getCounted(child string, create, followLinks bool, links *int)
 			// Whiteout markers aren't files.
 			break
 		}
-		if f.children == nil {
+		if create && f.children == nil {
 			f.children = make(map[string]*fsfile)
 		}
 		if _, ok := f.children[child]; create && !ok {
-- 
2.43.0


From de95de39fbcf1620367ca618f527e69ef11d595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:47 +0000
Subject: [PATCH 09/55] fix: dir: a hard link entry has no content, so its size
 is 0

---
 pkg/dir/dir.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index a482fee..7e65d64 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -104,6 +104,7 @@ func LayerFromDir(
 			if os.SameFile(entry.Info, info) {
 				header.Typeflag = tar.TypeLink
 				header.Linkname = entry.Name
+				header.Size = 0
 				break
 			}
 		}
-- 
2.43.0


From 42443bc87cd3c1d49858886e886cce1f4e143579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:48 +0000
Subject: [PATCH 10/55] fix: dir: accept and validate every spelling of
 --prefix

---
 pkg/dir/dir.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 7e65d64..8a53381 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -4,6 +4,7 @@ package dir
 import (
 	"archive/tar"
 	"bytes"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
@@ -49,6 +50,13 @@ func LayerFromDir(
 	var log []logEntry
 
 	if prefix != nil {
+		// Work on a copy; don't clobber the caller's struct.
+		cleaned := *prefix
+		prefix = &cleaned
+		prefix.DirName = path.Clean(prefix.DirName)
+		if !fs.ValidPath(prefix.DirName) {
+			return nil, fmt.Errorf("invalid prefix: %q", prefix.DirName)
+		}
 		if prefix.Mode == 0 {
 			prefix.Mode = 0o755
 		}
-- 
2.43.0


From 68c22141d6f5cb672864de9e90f88e5813f35cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:49 +0000
Subject: [PATCH 11/55] fix: dir: follow IN_DIRNAME if it is a symlink, and
 reject non-directories

---
 pkg/dir/dir.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 8a53381..236b3a1 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -81,7 +81,15 @@ func LayerFromDir(
 		}
 	}
 
-	err := filepath.Walk(dirname, func(filename string, info fs.FileInfo, e error) error {
+	dirInfo, err := os.Stat(dirname)
+	if err != nil {
+		return nil, err
+	}
+	if !dirInfo.IsDir() {
+		return nil, fmt.Errorf("not a directory: %q", dirname)
+	}
+	// The trailing slash makes the walk descend in to dirname even if it is a symlink.
+	err = filepath.Walk(dirname+string(filepath.Separator), func(filename string, info fs.FileInfo, e error) error {
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From 8820eec9af2364a7178daba6503280791759bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:50 +0000
Subject: [PATCH 12/55] fix: dir: apply --chown-* before writing the header

---
 cmd_layer_dir.go               | 2 +-
 pkg/dir/dir.go                 | 6 +++---
 userdocs/ocibuild_layer_dir.md | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd_layer_dir.go b/cmd_layer_dir.go
index b89d24a..2648711 100644
--- a/cmd_layer_dir.go
+++ b/cmd_layer_dir.go
@@ -54,7 +54,7 @@ func init() {
 		"Force symbolic user name of the read files to be `uname`; an empty value uses the user name")
 	cmd.Flags().IntVar(&flagChOwn.GID, "chown-gid", -1,
 		"Force the numeric group ID of read files to be `GID`; use a value <0 to use the actual GID")
-	cmd.Flags().StringVar(&flagChOwn.GName, "chown-gname", "root",
+	cmd.Flags().StringVar(&flagChOwn.GName, "chown-gname", "",
 		"Force symbolic group name of the read files to be `gname`; an empty value uses the actual group name")
 
 	argparserLayer.AddCommand(cmd)
diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 236b3a1..197a793 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -139,9 +139,6 @@ func LayerFromDir(
 		if header.ChangeTime.After(clampTime) {
 			header.ChangeTime = clampTime
 		}
-		if err := tarWriter.WriteHeader(header); err != nil {
-			return err
-		}
 		if chown != nil {
 			if chown.UID >= 0 {
 				header.Uid = chown.UID
@@ -156,6 +153,9 @@ func LayerFromDir(
 				header.Gname = chown.GName
 			}
 		}
+		if err := tarWriter.WriteHeader(header); err != nil {
+			return err
+		}
 		if header.Typeflag == tar.TypeReg {
 			reader, err := os.Open(filename)
 			if err != nil {
diff --git a/userdocs/ocibuild_layer_dir.md b/userdocs/ocibuild_layer_dir.md
index a3c8f63..1598d10 100644
--- a/userdocs/ocibuild_layer_dir.md
+++ b/userdocs/ocibuild_layer_dir.md
@@ -10,7 +10,7 @@ ocibuild layer dir [flags] IN_DIRNAME >OUT_LAYERFILE
 
 ```
       --chown-gid GID         Force the numeric group ID of read files to be GID; use a value <0 to use the actual GID (default -1)
-      --chown-gname gname     Force symbolic group name of the read files to be gname; an empty value uses the actual group name (default "root")
+      --chown-gname gname     Force symbolic group name of the read files to be gname; an empty value uses the actual group name
       --chown-uid UID         Force the numeric user ID of read files to be UID; a value of <0 uses the actual UID (default -1)
       --chown-uname uname     Force symbolic user name of the read files to be uname; an empty value uses the user name
   -h, --help                  help for dir
-- 
2.43.0


From 3d6a6b0e5e5c16fce5ad04a15f044a04e25cb939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:06 +0000
Subject: [PATCH 13/55] fix: py_compile: don't let the umask or the clock in to
 the output

The mode of the .pyc files depended on the umask, and their time on when the
compiler ran.
---
 pkg/python/py_compile.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index c70b0cf..eade216 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -1,6 +1,7 @@
 package python
 
 import (
+	"archive/tar"
 	"context"
 	"fmt"
 	"io"
@@ -174,8 +175,18 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 			if err != nil {
 				return err
 			}
+			header := &tar.Header{
+				Typeflag: tar.TypeReg,
+				Name:     fullname,
+				Mode:     0o644,
+				Size:     int64(len(content)),
+				ModTime:  info.ModTime(),
+			}
+			if !clampTime.IsZero() {
+				header.ModTime = clampTime
+			}
 			ret = append(ret, &fsutil.InMemFileReference{
-				FileInfo:  info,
+				FileInfo:  header.FileInfo(),
 				MFullName: fullname,
 				MContent:  content,
 			})
-- 
2.43.0


From 35a817300964f40c9e099dd56f7fc6df58252a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 14/55] fix: py_compile: report an empty command line instead
 of crashing

---
 pkg/python/py_compile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index eade216..7eed14a 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -38,6 +38,9 @@ type Compiler func(
 //
 //     plat.Compile = ExternalCompiler("python3", "-m", "compileall")
 func ExternalCompiler(cmdline ...string) (Compiler, error) {
+	if len(cmdline) == 0 {
+		return nil, fmt.Errorf("no command given for compiling Python source files")
+	}
 	exe, err := dexec.LookPath(cmdline[0])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 46fe1b4c14f5b719c6735e4cd2667ed379cb95fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:47 +0000
Subject: [PATCH 15/55] fix: entry_points: import only the first component of a
 dotted callable

"from m import a.b" is a syntax error; the launcher has to import "a" and
call "a.b()".
---
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index ee915cd..12740a2 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -27,7 +27,7 @@ var (
 # -*- coding: utf-8 -*-
 import re
 import sys
-from {{ .Module }} import {{ .Func }}
+from {{ .Module }} import {{ .ImportName }}
 if __name__ == '__main__':
     sys.argv[0] = re.sub(r'(-script\.pyw|\.exe)?$', '', sys.argv[0])
     sys.exit({{ .Func }}())
-- 
2.43.0


From b9baa4839026d8cd9056f5b838d5b131183b65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:48 +0000
Subject: [PATCH 16/55] fix: bdist: don't hand directories to the byte compiler

A directory entry whose name ends in ".py" was written to the compiler's
scratch directory as a file, so that its contents could not be written
below it, or a .pyc was made for it.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 4df8590..54ac662 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -344,7 +344,7 @@ func (wh *wheel) installToVFS(
 	//      enough to remove .pyc even if it is not mentioned in RECORD.)
 	var srcs []fsutil.FileReference //nolint:prealloc // 'continue' is quite likely
 	for _, file := range vfs {
-		if !strings.HasSuffix(file.Name(), ".py") {
+		if file.IsDir() || !strings.HasSuffix(file.Name(), ".py") {
 			continue
 		}
 		srcs = append(srcs, file)
-- 
2.43.0


From 2ed500100213cf400c0c553d5b96a84233f64669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:49 +0000
Subject: [PATCH 17/55] fix: bdist: normalize the install scheme

A scheme directory such as "//usr/lib" left a leading slash that sent the
search for parent directories in to an endless loop, and "/usr/../../x"
placed files outside of the root of the layer.
---
 pkg/python/pypa/bdist/misc.go                | 4 ++--
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/python/pypa/bdist/misc.go b/pkg/python/pypa/bdist/misc.go
index c50a4d7..6423e8c 100644
--- a/pkg/python/pypa/bdist/misc.go
+++ b/pkg/python/pypa/bdist/misc.go
@@ -27,8 +27,8 @@ func sanitizePlatformForLayer(plat python.Platform) (python.Platform, error) {
 		&plat.Scheme.Data,
 	}
 	for _, pathPtr := range paths {
-		clean := strings.TrimPrefix(filepath.ToSlash(*pathPtr), "/")
-		*pathPtr = clean
+		clean := path.Clean("/" + filepath.ToSlash(*pathPtr))
+		*pathPtr = strings.TrimPrefix(clean, "/")
 	}
 
 	return plat, nil
diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 12740a2..a1d49d9 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -102,7 +102,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				}
 				header := &tar.Header{
 					Typeflag: tar.TypeReg,
-					Name:     path.Join(plat.Scheme.Scripts[1:], key),
+					Name:     strings.TrimPrefix(path.Join("/", plat.Scheme.Scripts, key), "/"),
 					Mode:     0o755,
 					Size:     int64(buf.Len()),
 					ModTime:  clampTime,
-- 
2.43.0


From 77d13f18b0619bf2b34ca127da0a89d742772483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:58 +0000
Subject: [PATCH 18/55] fix: bdist: spread the .data directory in a fixed order

The loop renamed entries of the map that it was iterating over, so whether
a renamed entry was visited again, and which one of two entries for the
same destination survived, was up to Go's map order.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 54ac662..68db221 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -287,10 +287,15 @@ func (wh *wheel) installToVFS(
 	}
 	vfsTypes := make(map[string]string)
 	dataDir := path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data")
+	var dataNames []string //nolint:prealloc // 'continue' is quite likely
 	for fullName := range vfs {
 		if !strings.HasPrefix(fullName, dataDir+"/") {
 			continue
 		}
+		dataNames = append(dataNames, fullName)
+	}
+	sort.Strings(dataNames)
+	for _, fullName := range dataNames {
 		relName := strings.TrimPrefix(fullName, dataDir+"/")
 		parts := strings.SplitN(relName, "/", 2)
 		key := parts[0]
-- 
2.43.0


From dfd5a2fa87c8263523eebac6679402171b6d25d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:59 +0000
Subject: [PATCH 19/55] fix: bdist: reject a .data/{key} that isn't a directory

A regular file there took the place of the install directory itself.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 68db221..3fe52b6 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -320,6 +320,9 @@ func (wh *wheel) installToVFS(
 			return nil, "", fmt.Errorf("unsupported wheel data type %q: %q",
 				key, path.Join(strings.TrimSuffix(distInfoDir, ".dist-info")+".data", relName))
 		}
+		if rest == "" && !vfs[fullName].IsDir() {
+			return nil, "", fmt.Errorf("wheel data type %q is not a directory", key)
+		}
 		newFullName := path.Join(dstDataDir, rest)
 		vfsTypes[newFullName] = key
 		if err := rename(vfs, fullName, newFullName); err != nil {
-- 
2.43.0


From 02a2967b9a27d01f725d8bd38e0167c08d58f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:00 +0000
Subject: [PATCH 20/55] fix: bdist: reject a wheel that puts files below a
 regular file

It can't be installed, but a layer came out of it all the same.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 3fe52b6..4df9e5a 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -148,7 +148,10 @@ func InstallWheel(
 	// ensure that parent directories exist
 	for filename := range vfs {
 		for dir := path.Dir(filename); dir != "."; dir = path.Dir(dir) {
-			if _, exists := vfs[dir]; !exists {
+			if parent, exists := vfs[dir]; exists && !parent.IsDir() {
+				return nil, fmt.Errorf("bdist.InstallWheel: %q is not a directory, but contains %q",
+					dir, filename)
+			} else if !exists {
 				vfs[dir] = &fsutil.InMemFileReference{
 					FileInfo: (&tar.Header{
 						Typeflag: tar.TypeDir,
-- 
2.43.0


From 0202c13097c20f42e5cc0307549382f53dbcbb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:01 +0000
Subject: [PATCH 21/55] fix: bdist: don't let entries of a wheel slip by the
 RECORD check

 - The check looks files up by name, and so only saw the first one of
   several entries with the same name; but it is the last one that is
   installed.
 - An entry whose mode claims that it's a directory was skipped, but is
   installed as a regular file if its name doesn't end in "/".
 - An entry named "../x" was installed outside of the install scheme.
---
 .../pypa/bdist/binary_distribution_format.go       | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 4df9e5a..91a498b 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -828,11 +828,21 @@ func (wh *wheel) integrityCheck() error {
 	}
 
 	todo := make(map[string]struct{})
+	isDir := make(map[string]bool)
 	for _, file := range wh.zip.File {
-		if file.FileInfo().IsDir() {
+		name := path.Clean(file.Name)
+		if !fs.ValidPath(name) {
+			return fmt.Errorf("invalid filename in wheel zip archive: %q", file.Name)
+		}
+		// Don't trust file.FileInfo().IsDir(), installing goes by just the name too.
+		fileIsDir := strings.HasSuffix(file.Name, "/")
+		if otherIsDir, exists := isDir[name]; exists && !(fileIsDir && otherIsDir) {
+			return fmt.Errorf("duplicate filename in wheel zip archive: %q", file.Name)
+		}
+		isDir[name] = fileIsDir
+		if fileIsDir {
 			continue
 		}
-		name := path.Clean(file.Name)
 		switch name {
 		case path.Join(distInfoDir, "RECORD.jws"):
 			// skip
-- 
2.43.0


From df0d99522f8353eff5362c2de6d9aef7fc9e2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 22/55] fix: entry_points: reject script names that aren't
 filenames

A name like "../../etc/x" placed the script outside of the scripts
directory.
---
 pkg/python/pypa/entry_points/entry_points.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index a1d49d9..53eafae 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -80,6 +80,10 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				continue
 			}
 			for key, val := range sectionData {
+				if key == "" || key == "." || key == ".." || strings.Contains(key, "/") {
+					return fmt.Errorf("entry_points.txt: %q: invalid script name: %q",
+						sectionName, key)
+				}
 				m := reFuncRef.FindStringSubmatch(val)
 				if m == nil {
 					return fmt.Errorf("entry_points.txt: %q: %q: not a function reference: %q",
-- 
2.43.0


From e42ed93cd345ae924ef6e0ae0e51f6f97d798696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:02 +0000
Subject: [PATCH 23/55] fix: entry_points: create scripts in a fixed order

If a name is both a console script and a GUI script, then which one was
installed was up to Go's map order.  PIP lets the GUI script win.
---
 pkg/python/pypa/entry_points/entry_points.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 53eafae..d524fc0 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -69,12 +69,15 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 			return err
 		}
 
-		interesting := map[string]string{
-			"console_scripts": plat.ConsoleShebang,
-			"gui_scripts":     plat.GraphicalShebang,
+		interesting := []struct {
+			sectionName, shebang string
+		}{
+			{"console_scripts", plat.ConsoleShebang},
+			{"gui_scripts", plat.GraphicalShebang},
 		}
 
-		for sectionName, shebang := range interesting {
+		for _, section := range interesting {
+			sectionName, shebang := section.sectionName, section.shebang
 			sectionData, ok := configData[sectionName]
 			if !ok {
 				continue
-- 
2.43.0


From 62c5845d8e39ee4aba3ce63366b79700fe00a138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:37 +0000
Subject: [PATCH 24/55] fix: bdist: don't emit the root directory itself

If a scheme directory is "/", then a directory entry of the wheel for it
ended up in the layer as an entry named "/", which changes the owner of the
image's root directory.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 91a498b..e9da1fa 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -349,6 +349,10 @@ func (wh *wheel) installToVFS(
 	//
 	// create(vfs, path.Join(dstDir, distInfoDir, "RECORD"), TODO(vfs))
 
+	// The root directory isn't ours.
+	delete(vfs, "")
+	delete(vfs, ".")
+
 	//   e. Remove empty ``distribution-1.0.data`` directory.
 	delete(vfs, path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data"))
 	//   f. Compile any installed .py to .pyc. (Uninstallers should be smart
-- 
2.43.0


From d8578a2ea70e293b53bea6a40ac88369e0f51b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:44 +0000
Subject: [PATCH 25/55] fix: gobuild: replace the --output file atomically

The old layer file was removed and the new one written in place, so a full
disk, an error, or an interruption left a missing or partial layer file
behind; and the next run might then not even be able to read it in order to
compare with it.  Write the layer to a temporary file next to it, and rename
that in to place once it is complete and on disk.
---
 cmd_layer_gobuild.go | 64 +++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/cmd_layer_gobuild.go b/cmd_layer_gobuild.go
index 62bb008..d7d7f1b 100644
--- a/cmd_layer_gobuild.go
+++ b/cmd_layer_gobuild.go
@@ -2,10 +2,12 @@ package main
 
 import (
 	"errors"
-	"io"
+	"fmt"
 	"os"
+	"path/filepath"
 
 	"github.com/datawire/dlib/dlog"
+	ociv1 "github.com/google/go-containerregistry/pkg/v1"
 	"github.com/spf13/cobra"
 
 	"github.com/datawire/ocibuild/pkg/cliutil"
@@ -14,6 +16,41 @@ import (
 	"github.com/datawire/ocibuild/pkg/reproducible"
 )
 
+// writeLayerFile atomically replaces the file: at every moment, and however this gets interrupted,
+// the file has either its old content or the complete new content.
+func writeLayerFile(layer ociv1.Layer, filename string) (err error) {
+	tmpFilename := fmt.Sprintf("%s.%d.tmp", filename, os.Getpid())
+	tmpFile, err := os.OpenFile(tmpFilename, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0o666)
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			_ = os.Remove(tmpFilename)
+		}
+	}()
+	if err := fsutil.WriteLayer(layer, tmpFile); err != nil {
+		_ = tmpFile.Close()
+		return err
+	}
+	if err := tmpFile.Sync(); err != nil {
+		_ = tmpFile.Close()
+		return err
+	}
+	if err := tmpFile.Close(); err != nil {
+		return err
+	}
+	if err := os.Rename(tmpFilename, filename); err != nil {
+		return err
+	}
+	dir, err := os.Open(filepath.Dir(filename))
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+	return dir.Sync()
+}
+
 func init() {
 	var outputFilename string
 	cmd := &cobra.Command{
@@ -29,19 +66,12 @@ func init() {
 			"changes; to prevent this, use the --output=FILENAME flag, which avoids " +
 			"updating the layer file if the only changes are timestamps.",
 		Args: cliutil.WrapPositionalArgs(cobra.MinimumNArgs(1)),
-		RunE: func(flags *cobra.Command, args []string) (err error) {
-			maybeSetErr := func(_err error) {
-				if _err != nil && err == nil {
-					err = _err
-				}
-			}
-
+		RunE: func(flags *cobra.Command, args []string) error {
 			layer, err := gobuild.LayerFromGo(flags.Context(), reproducible.Now(), args)
 			if err != nil {
 				return err
 			}
 
-			outputWriter := io.Writer(os.Stdout)
 			if outputFilename != "" {
 				// Check if the layer changed.
 				if oldLayer, err := fsutil.OpenLayer(outputFilename); err != nil {
@@ -59,21 +89,11 @@ func init() {
 					}
 				}
 
-				// Open the file for writing.
-				if err := os.Remove(outputFilename); err != nil && !errors.Is(err, os.ErrNotExist) {
-					return err
-				}
-				outputFile, err := os.OpenFile(outputFilename, os.O_CREATE|os.O_WRONLY, 0o666)
-				if err != nil {
-					return err
-				}
-				defer func() {
-					maybeSetErr(outputFile.Close())
-				}()
-				outputWriter = outputFile
+				// Replace the file.
+				return writeLayerFile(layer, outputFilename)
 			}
 
-			if err := fsutil.WriteLayer(layer, outputWriter); err != nil {
+			if err := fsutil.WriteLayer(layer, os.Stdout); err != nil {
 				return err
 			}
 
-- 
2.43.0


From f482dac52905d036b759260fed2b7ba2a4485ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:40 +0000
Subject: [PATCH 26/55] fix: fsutil: ignore all timestamps when comparing
 layers

headersEqualExceptTimestamps assigned ModTime twice instead of
ChangeTime, and compared the PAX records that carry the timestamps (and
the archive format, which can depend on whether there are any).  So
layers that differ only in a ctime, or in a timestamp that needs a PAX
record, were reported as different.
---
 pkg/fsutil/diff.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index a58e213..cfdbcfc 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -38,11 +38,31 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 func headersEqualExceptTimestamps(a, b tar.Header) bool {
 	b.ModTime = a.ModTime
 	b.AccessTime = a.AccessTime
-	b.ModTime = a.ModTime
+	b.ChangeTime = a.ChangeTime
+
+	// Whether a header needs PAX (or GNU) extensions may depend on just the timestamps.
+	b.Format = a.Format
+	a.PAXRecords = withoutTimestampRecords(a.PAXRecords)
+	b.PAXRecords = withoutTimestampRecords(b.PAXRecords)
 
 	return reflect.DeepEqual(a, b)
 }
 
+func withoutTimestampRecords(in map[string]string) map[string]string {
+	var out map[string]string
+	for k, v := range in {
+		switch k {
+		case "mtime", "atime", "ctime":
+			continue
+		}
+		if out == nil {
+			out = make(map[string]string, len(in))
+		}
+		out[k] = v
+	}
+	return out
+}
+
 func LayersEqualExceptTimestamps(aLayer, bLayer ociv1.Layer) (equal bool, err error) {
 	maybeSetErr := func(_err error) {
 		if _err != nil && err == nil {
-- 
2.43.0


From 6cc57d5abacbcf1d3217a88974bad085495c8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:29 +0000
Subject: [PATCH 27/55] fix: image build: report an unreadable config instead
 of crashing

The error of ConfigFile() was thrown away.  The config gets computed from
the layers, so if one of those can't be read (damaged gzip data, an I/O
error) and any --config.* flag is given, then the program crashed with a nil
pointer dereference.
---
 cmd_image_build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd_image_build.go b/cmd_image_build.go
index 4735172..686072b 100644
--- a/cmd_image_build.go
+++ b/cmd_image_build.go
@@ -159,7 +159,10 @@ func init() {
 			}
 
 			if !flags.config.IsZero() {
-				configFile, _ := img.ConfigFile()
+				configFile, err := img.ConfigFile()
+				if err != nil {
+					return err
+				}
 
 				flags.config.ApplyTo(&configFile.Config)
 
-- 
2.43.0


From aa0abca315158120c45487c610efc49f8c428054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:47 +0000
Subject: [PATCH 28/55] fix: fsutil: reject an image whose config doesn't list
 each of its layers

If the config of an image file lists fewer diff_ids than the manifest lists
layers, then go-containerregistry crashes with an index out of range (if the
layers are compressed) or silently drops layers (if they aren't).
---
 pkg/fsutil/open.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/fsutil/open.go b/pkg/fsutil/open.go
index 9ca808b..e1510d0 100644
--- a/pkg/fsutil/open.go
+++ b/pkg/fsutil/open.go
@@ -2,6 +2,7 @@ package fsutil
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
@@ -38,8 +39,31 @@ func PathOpener(filename string) ociv1tarball.Opener {
 	}
 }
 
+// checkLayerCount checks that an image's config and manifest agree on the number of layers, which
+// go-containerregistry relies on.
+func checkLayerCount(opener ociv1tarball.Opener, img ociv1.Image) error {
+	configFile, err := img.ConfigFile()
+	if err != nil {
+		return err
+	}
+	manifest, err := ociv1tarball.LoadManifest(opener)
+	if err != nil {
+		return err
+	}
+	for _, descriptor := range manifest {
+		if a, b := len(descriptor.Layers), len(configFile.RootFS.DiffIDs); a != b {
+			return fmt.Errorf("manifest lists %d layers, but config lists %d diff_ids", a, b)
+		}
+	}
+	return nil
+}
+
 func OpenImage(filename string) (ociv1.Image, error) {
-	img, err := ociv1tarball.Image(PathOpener(filename), nil)
+	opener := PathOpener(filename)
+	img, err := ociv1tarball.Image(opener, nil)
+	if err == nil {
+		err = checkLayerCount(opener, img)
+	}
 	if err != nil {
 		return nil, &fs.PathError{
 			Op:   "open imagefile",
-- 
2.43.0


From b440e812f312ad2abf5eb6467d844b255f940248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:36 +0000
Subject: [PATCH 29/55] fix: fsutil: don't let the header format in to the
 comparison of layers

Whether a name is stored in a PAX record or in the header proper may
depend on just the timestamp (one that doesn't fit in a USTAR header
makes the whole header a PAX one), so it isn't a difference.
---
 pkg/fsutil/diff.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index cfdbcfc..7ec2a99 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -42,18 +42,22 @@ func headersEqualExceptTimestamps(a, b tar.Header) bool {
 
 	// Whether a header needs PAX (or GNU) extensions may depend on just the timestamps.
 	b.Format = a.Format
-	a.PAXRecords = withoutTimestampRecords(a.PAXRecords)
-	b.PAXRecords = withoutTimestampRecords(b.PAXRecords)
+	a.PAXRecords = withoutHeaderRecords(a.PAXRecords)
+	b.PAXRecords = withoutHeaderRecords(b.PAXRecords)
 
 	return reflect.DeepEqual(a, b)
 }
 
-func withoutTimestampRecords(in map[string]string) map[string]string {
+// withoutHeaderRecords drops the timestamps, and the records that duplicate other fields of the
+// tar.Header.
+func withoutHeaderRecords(in map[string]string) map[string]string {
 	var out map[string]string
 	for k, v := range in {
 		switch k {
 		case "mtime", "atime", "ctime":
 			continue
+		case "path", "linkpath", "size", "uid", "gid", "uname", "gname":
+			continue
 		}
 		if out == nil {
 			out = make(map[string]string, len(in))
-- 
2.43.0


From bb4cd15507dc3c857234d72a6aea68df20d8d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:28 +0000
Subject: [PATCH 30/55] fix: dockerutil: remove the image even if the Context
 gets canceled

If ctx is Done, then dexec kills the `docker image rm` right away (or
doesn't even start it), leaving the image behind.
---
 pkg/dockerutil/docker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/dockerutil/docker.go b/pkg/dockerutil/docker.go
index 061bb3d..8880787 100644
--- a/pkg/dockerutil/docker.go
+++ b/pkg/dockerutil/docker.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"time"
 
+	"github.com/datawire/dlib/dcontext"
 	"github.com/datawire/dlib/dexec"
 	"github.com/google/go-containerregistry/pkg/name"
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
@@ -34,6 +35,7 @@ func WithImage(
 		return err
 	}
 	defer func() {
+		ctx := dcontext.WithoutCancel(ctx) // clean up even if ctx is canceled
 		maybeSetErr(dexec.CommandContext(ctx, "docker", "image", "rm", tag.String()).Run())
 	}()
 	cmd := dexec.CommandContext(ctx, "docker", "image", "load")
-- 
2.43.0


From 492eaccfaa03b3cb08cd9e1316598ca1979713cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:51 +0000
Subject: [PATCH 31/55] fix: dockerutil: don't rely on the clock for a unique
 tag

Two concurrent calls of WithImage that look at the clock within its
resolution got the same tag, so each replaced and removed the image of
the other.
---
 pkg/dockerutil/docker.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/dockerutil/docker.go b/pkg/dockerutil/docker.go
index 8880787..766ca40 100644
--- a/pkg/dockerutil/docker.go
+++ b/pkg/dockerutil/docker.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"os"
+	"sync/atomic"
 	"time"
 
 	"github.com/datawire/dlib/dcontext"
@@ -13,9 +14,12 @@ import (
 	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
 )
 
+var tagCount uint64 //nolint:gochecknoglobals // has to be unique in the process
+
 func newTag(repo string) (name.Tag, error) {
-	return name.NewTag(fmt.Sprintf("ocibuild.local/%s:%d.%d",
-		repo, os.Getpid(), time.Now().UnixNano()))
+	// Concurrent calls may see the same time.
+	return name.NewTag(fmt.Sprintf("ocibuild.local/%s:%d.%d.%d",
+		repo, os.Getpid(), time.Now().UnixNano(), atomic.AddUint64(&tagCount, 1)))
 }
 
 func WithImage(
-- 
2.43.0


From 8a7716a55ea0b2eaf1b299b5aa43f1a6e3225243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:54 +0000
Subject: [PATCH 32/55] fix: py_compile: don't write to the caller's command
 line

Appending to a slice of the caller's command line overwrites the element
after its end if there is capacity left, and concurrent calls of the
compiler then overwrite each other's arguments.
---
 pkg/python/py_compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index 7eed14a..2646057 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -129,7 +129,7 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 		}
 
 		// Run the compiler
-		cmd := dexec.CommandContext(ctx, exe, append(cmdline[1:],
+		cmd := dexec.CommandContext(ctx, exe, append(append([]string{}, cmdline[1:]...),
 			"-s", tmpdir, // strip-dir for the in-.pyc filename
 			"-p", "/", // prepend-dir for the in-.pyc filename
 			tmpdir, // directory to compile
-- 
2.43.0


From 43d7376804038ee984c2dea34e4ab7d1a2cde8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:55 +0000
Subject: [PATCH 33/55] fix: fsutil: don't reorder the caller's file references

LayerFromFileReferences sorted the slice it was given, in place.
---
 pkg/fsutil/fileref.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/fsutil/fileref.go b/pkg/fsutil/fileref.go
index c045ad0..4b7d544 100644
--- a/pkg/fsutil/fileref.go
+++ b/pkg/fsutil/fileref.go
@@ -28,6 +28,7 @@ func LayerFromFileReferences(
 	clampTime time.Time,
 	opts ...ociv1tarball.LayerOption,
 ) (ociv1.Layer, error) {
+	vfs = append([]FileReference{}, vfs...) // don't reorder the caller's slice
 	sort.Slice(vfs, func(i, j int) bool {
 		// Do a part-wise comparison, rather than a simple string compare on .Fullname(),
 		// because "-" < "/" < EOF.
-- 
2.43.0


From d5dd2cc3e460ec469ff4723ad9796192847900f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:57 +0000
Subject: [PATCH 34/55] fix: pep440: parse "<" and ">" clauses

The operators are one character long, so skipping two characters cuts off
the first character of the version, unless a space follows.
---
 pkg/python/pep440/02_version_specifiers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index a8da602..abc84ae 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -172,10 +172,10 @@ func parseSpecifierClause(str string) (SpecifierClause, error) {
 		str = str[2:]
 	case strings.HasPrefix(str, "<"):
 		ret.CmpOp = CmpOpLT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, ">"):
 		ret.CmpOp = CmpOpGT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, "==="):
 		return ret, fmt.Errorf("specifiers with === are not supported; versions must be PEP 440 compliant")
 	default:
-- 
2.43.0


From 257a735a6c193f0b83dbe539ed3f2f7936e83262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:58 +0000
Subject: [PATCH 35/55] fix: pep440: Select: prefer the choices that are not
 excluded

The test was inverted, so that the excluded choices (such as pre-releases)
were preferred over the others.
---
 pkg/python/pep440/02_version_specifiers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index abc84ae..579bc13 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -626,7 +626,7 @@ func (spec Specifier) Select(choices []Version, exclusionBehavior ExclusionBehav
 	var bestExcluded *Version
 	for _, choice := range choices {
 		if spec.Match(choice) {
-			if exclusionBehavior == nil || !exclusionBehavior.Allow(choice) {
+			if exclusionBehavior == nil || exclusionBehavior.Allow(choice) {
 				if best == nil || best.Cmp(choice) < 0 {
 					val := choice
 					best = &val
-- 
2.43.0


From aa3ac334cdf666223e333afb24add82b2447d0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:00 +0000
Subject: [PATCH 36/55] fix: pep592: ExcludeYanked: exclude what is yanked

... rather than what isn't.
---
 pkg/python/pep592/yank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 98e6eab..86784c1 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -36,5 +36,5 @@ func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
 	_, yanked := e.yankedVersions[v.String()]
-	return yanked
+	return !yanked
 }
-- 
2.43.0


From ef4f75b40fb4ece5c66705beb7525f8a30cf98bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:01 +0000
Subject: [PATCH 37/55] fix: pep440: ignore local version labels in ordered
 comparisons, and post-releases in ">"

"Except where specifically noted below, [...] local version labels MUST be
ignored entirely when checking if candidate versions match a given version
specifier", so that "<=1.0" does match 1.0+local.

"The exclusive ordered comparison >V MUST NOT allow a post-release of the
given version unless V itself is a post release", and "MUST NOT match a local
version of the specified version".
---
 pkg/python/pep440/02_version_specifiers.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 579bc13..6642b61 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -477,11 +477,11 @@ func matchPrefixExclude(spec, ver Version) bool {
 //
 // Local version identifiers are NOT permitted in this version specifier.
 func matchLE(spec, ver Version) bool {
-	return spec.Cmp(ver) >= 0
+	return spec.PublicVersion.Cmp(ver.PublicVersion) >= 0
 }
 
 func matchGE(spec, ver Version) bool {
-	return spec.Cmp(ver) <= 0
+	return spec.PublicVersion.Cmp(ver.PublicVersion) <= 0
 }
 
 //
@@ -519,7 +519,16 @@ func matchLT(spec, ver Version) bool {
 }
 
 func matchGT(spec, ver Version) bool {
-	return spec.Cmp(ver) < 0
+	if spec.PublicVersion.Cmp(ver.PublicVersion) >= 0 {
+		return false
+	}
+	if spec.Post == nil && ver.Post != nil {
+		base := ver.PublicVersion
+		base.Post = nil
+		base.Dev = nil
+		return spec.PublicVersion.Cmp(base) != 0
+	}
+	return true
 }
 
 //
-- 
2.43.0


From 69293c334e8a9edd58c058685b024d775d2c035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:33 +0000
Subject: [PATCH 38/55] fix: simple_repo_api: consider all spellings of the
 selected version

"1.0" and "1.0.0" are the same version, so the wheels of the selected version
can't be looked up by its string.
---
 pkg/python/pypa/simple_repo_api/pypa_repo_api.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 3092c07..6aa0cc4 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -47,7 +47,6 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		return nil, err
 	}
 	// 1. Filter by version
-	version2links := make(map[string][]pep503.FileLink)
 	var whlLinks []pep503.FileLink //nolint:prealloc // 'continue' is quite likely
 	var versions []pep440.Version  //nolint:prealloc // 'continue' is quite likely
 	for _, link := range links {
@@ -58,7 +57,6 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		if !c.SupportedTags.Supports(linkInfo.CompatibilityTag) {
 			continue
 		}
-		version2links[linkInfo.Version.String()] = append(version2links[linkInfo.Version.String()], link)
 		whlLinks = append(whlLinks, link)
 		versions = append(versions, linkInfo.Version)
 	}
@@ -71,7 +69,12 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 	if selectedVersion == nil {
 		return nil, fmt.Errorf("no matches for %q %q", pkgname, version.String())
 	}
-	links = version2links[selectedVersion.String()]
+	links = nil
+	for i, link := range whlLinks {
+		if versions[i].Cmp(*selectedVersion) == 0 {
+			links = append(links, link)
+		}
+	}
 	if len(links) == 1 {
 		ret := links[0]
 		return &ret, nil
-- 
2.43.0


From 6f40aa39b7d0a0ba83ff94566658b7f74208dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:33 +0000
Subject: [PATCH 39/55] fix: simple_repo_api: take yanked files one by one

A file is yanked, not a version: if only some of the files of a version are
yanked, then the others are as good as any.  And a yanked file isn't to be
selected if another file will do, even if the version is the best one, or
if that other one is a pre-release.
---
 .../pypa/simple_repo_api/pypa_repo_api.go     | 39 +++++++++++--------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 6aa0cc4..7af3062 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -47,25 +47,32 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		return nil, err
 	}
 	// 1. Filter by version
-	var whlLinks []pep503.FileLink //nolint:prealloc // 'continue' is quite likely
-	var versions []pep440.Version  //nolint:prealloc // 'continue' is quite likely
-	for _, link := range links {
-		linkInfo, err := bdist.ParseFilename(link.Text)
-		if err != nil {
-			continue
+	var whlLinks []pep503.FileLink
+	var versions []pep440.Version
+	var selectedVersion *pep440.Version
+	for _, allowYanked := range []bool{false, true} {
+		whlLinks, versions = nil, nil
+		for _, link := range links {
+			if pep592.IsYanked(link) && !allowYanked {
+				continue
+			}
+			linkInfo, err := bdist.ParseFilename(link.Text)
+			if err != nil {
+				continue
+			}
+			if !c.SupportedTags.Supports(linkInfo.CompatibilityTag) {
+				continue
+			}
+			whlLinks = append(whlLinks, link)
+			versions = append(versions, linkInfo.Version)
 		}
-		if !c.SupportedTags.Supports(linkInfo.CompatibilityTag) {
-			continue
+		selectedVersion = version.Select(versions, pep440.ExcludePreReleases{
+			AllowList: nil, // TODO
+		})
+		if selectedVersion != nil {
+			break
 		}
-		whlLinks = append(whlLinks, link)
-		versions = append(versions, linkInfo.Version)
 	}
-	selectedVersion := version.Select(versions, pep440.MultiExcluder{
-		pep440.ExcludePreReleases{
-			AllowList: nil, // TODO
-		},
-		pep592.ExcludeYanked(whlLinks),
-	})
 	if selectedVersion == nil {
 		return nil, fmt.Errorf("no matches for %q %q", pkgname, version.String())
 	}
-- 
2.43.0


From 4ff27e1499c76e9294a726698c9f0a63ef3a3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:34 +0000
Subject: [PATCH 40/55] fix: simple_repo_api: select the highest build tag

... rather than the lowest one.  And don't let the order of the links decide
between two wheels that are equally good.
---
 pkg/python/pypa/simple_repo_api/pypa_repo_api.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 7af3062..049355f 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -109,7 +109,10 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 	sort.Slice(links, func(i, j int) bool {
 		iInfo, _ := bdist.ParseFilename(links[i].Text)
 		jInfo, _ := bdist.ParseFilename(links[j].Text)
-		return iInfo.BuildTag.Cmp(jInfo.BuildTag) < 0
+		if d := iInfo.BuildTag.Cmp(jInfo.BuildTag); d != 0 {
+			return d > 0
+		}
+		return links[i].Text < links[j].Text
 	})
 	ret := links[0]
 	return &ret, nil
-- 
2.43.0


From 75086dceb565c4a5dd5c8f77f695b9879d17e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:35 +0000
Subject: [PATCH 41/55] fix: pep503: understand PEP 440 specifiers in
 data-requires-python

PEP 440 took over from PEP 345, so that requirements such as
">=3.6, !=3.9.*" or "~=3.7" are common.  They weren't understood, and so were
taken to be satisfied.
---
 pkg/python/pep503/simple_repo_api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index fba7170..bd9f61f 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -266,6 +266,11 @@ func (c Client) ListPackageFiles(ctx context.Context, pkgname string) ([]FileLin
 		if c.Python != nil {
 			if reqPy := link.DataAttrs["data-requires-python"]; reqPy != "" {
 				ok, err := pep345.HaveRequiredPython(*c.Python, reqPy)
+				if err != nil {
+					var spec pep440.Specifier
+					spec, err = pep440.ParseSpecifier(reqPy)
+					ok = err == nil && spec.Match(*c.Python)
+				}
 				if err == nil && !ok {
 					continue
 				}
-- 
2.43.0


From ef28061fe85a8d1f7f76f08dade9702768b1254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:56 +0000
Subject: [PATCH 42/55] fix: pep503: download the signature rather than the
 file

"If there is a GPG signature for a particular distribution file it MUST live
alongside that file with the same name with a .asc appended to it."
---
 pkg/python/pep503/simple_repo_api.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index bd9f61f..4f841f9 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -293,14 +293,24 @@ func (l FileLink) Get(ctx context.Context) ([]byte, error) {
 var ErrNoSignature = errors.New("no signature")
 
 func (l FileLink) GetSignature(ctx context.Context) ([]byte, error) {
+	sigURL, err := url.Parse(l.HRef)
+	if err != nil {
+		return nil, err
+	}
+	sigURL.Path += ".asc"
+	if sigURL.RawPath != "" {
+		sigURL.RawPath += ".asc"
+	}
+	sigURL.Fragment = "" // the checksum of the file, not of the signature
+	sigURL.RawFragment = ""
 	switch l.DataAttrs["data-gpg-sig"] {
 	case "false":
 		return nil, ErrNoSignature
 	case "true":
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL.String())
 		return content, err
 	default:
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL.String())
 		var httpErr *HTTPError
 		if err != nil && errors.As(err, &httpErr) && httpErr.StatusCode == http.StatusNotFound {
 			err = ErrNoSignature
-- 
2.43.0


From e2f9731894f2484a2ec1a9f28cc38570efb9cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:07 +0000
Subject: [PATCH 43/55] fix: pyinspect: stat paths of an image that end in a
 slash

io/fs doesn't accept such paths, nor the empty path that "/" became, so a
scheme directory that is written like that (as the headers directory usually
is) was taken to not exist.
---
 pkg/python/pyinspect/fs_image.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/fs_image.go b/pkg/python/pyinspect/fs_image.go
index d22343c..b2b622d 100644
--- a/pkg/python/pyinspect/fs_image.go
+++ b/pkg/python/pyinspect/fs_image.go
@@ -100,7 +100,11 @@ func (sys *ImageFS) Stat(name string) (FileInfo, error) {
 	if err := sys.ensureInitialized(); err != nil {
 		return nil, err
 	}
-	fileinfo, err := fs.Stat(sys.imgFS, name[1:])
+	fsName := strings.TrimPrefix(path.Clean(name), "/")
+	if fsName == "" {
+		fsName = "."
+	}
+	fileinfo, err := fs.Stat(sys.imgFS, fsName)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3b892ca954e9d6650f8ecfd5ac701721ead08716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:30 +0000
Subject: [PATCH 44/55] fix: pyinspect: reject an incomplete report

A report that lacks the magic number, tags, version or scheme paths made for
a platform file without them, or one that `layer wheel` doesn't accept.
---
 pkg/python/pyinspect/pyinspect.go | 32 +++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pkg/python/pyinspect/pyinspect.go b/pkg/python/pyinspect/pyinspect.go
index aeb07ef..7e00be1 100644
--- a/pkg/python/pyinspect/pyinspect.go
+++ b/pkg/python/pyinspect/pyinspect.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io/fs"
+	"path"
 	"strings"
 
 	"github.com/datawire/dlib/dexec"
@@ -86,6 +87,34 @@ type DynamicInfo struct {
 	Scheme         python.Scheme
 }
 
+// validate checks that a report is complete.
+func (data *DynamicInfo) validate() error {
+	if data.MagicNumberB64 == "" {
+		return fmt.Errorf("report does not include the magic number")
+	}
+	if len(data.Tags) == 0 {
+		return fmt.Errorf("report does not include any tags")
+	}
+	if data.VersionInfo.Major == 0 || data.VersionInfo.ReleaseLevel == "" {
+		return fmt.Errorf("report does not include the version")
+	}
+	for _, pair := range []struct {
+		name string
+		val  string
+	}{
+		{"purelib", data.Scheme.PureLib},
+		{"platlib", data.Scheme.PlatLib},
+		{"headers", data.Scheme.Headers},
+		{"scripts", data.Scheme.Scripts},
+		{"data", data.Scheme.Data},
+	} {
+		if !path.IsAbs(pair.val) {
+			return fmt.Errorf("report does not include an absolute path for scheme %q: %q", pair.name, pair.val)
+		}
+	}
+	return nil
+}
+
 func Dynamic(ctx context.Context, cmdline ...string) (*DynamicInfo, error) {
 	cmd := dexec.CommandContext(ctx, cmdline[0], append(cmdline[1:], "-c", `
 import json
@@ -121,5 +150,8 @@ json.dump({
 	if err := json.Unmarshal(bs, &data); err != nil {
 		return nil, err
 	}
+	if err := data.validate(); err != nil {
+		return nil, fmt.Errorf("running Python: %w", err)
+	}
 	return &data, nil
 }
-- 
2.43.0


From 653010fdd0d5119fd7fb62989fd75da83d96aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:00 +0000
Subject: [PATCH 45/55] fix: pyinspect: don't skip a directory because its
 owner has no name

The owner of another directory was reported instead.
---
 pkg/python/pyinspect/fs_native.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pkg/python/pyinspect/fs_native.go b/pkg/python/pyinspect/fs_native.go
index 25cc0e4..130bb80 100644
--- a/pkg/python/pyinspect/fs_native.go
+++ b/pkg/python/pyinspect/fs_native.go
@@ -1,6 +1,7 @@
 package pyinspect
 
 import (
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -26,20 +27,23 @@ func (NativeFS) Stat(name string) (FileInfo, error) {
 		return nil, err
 	}
 	raw := fileinfo.Sys().(*syscall.Stat_t) //nolint:forcetypeassert // if not, this is a bug and it should crash
-	usr, err := user.LookupId(fmt.Sprintf("%v", raw.Uid))
-	if err != nil {
+	var uname, gname string                 // it's OK for an ID to not have a name
+	if usr, err := user.LookupId(fmt.Sprintf("%v", raw.Uid)); err == nil {
+		uname = usr.Username
+	} else if unknown := user.UnknownUserIdError(0); !errors.As(err, &unknown) {
 		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
 	}
-	grp, err := user.LookupGroupId(fmt.Sprintf("%v", raw.Gid))
-	if err != nil {
+	if grp, err := user.LookupGroupId(fmt.Sprintf("%v", raw.Gid)); err == nil {
+		gname = grp.Name
+	} else if unknown := user.UnknownGroupIdError(""); !errors.As(err, &unknown) {
 		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
 	}
 	return &fileInfo{
 		FileInfo: fileinfo,
 		uid:      int(raw.Uid),
 		gid:      int(raw.Gid),
-		uname:    usr.Username,
-		gname:    grp.Name,
+		uname:    uname,
+		gname:    gname,
 	}, nil
 }
 
-- 
2.43.0


From a8ad5c34a7852ff499a7ad06cfc3f6b5a606c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:07 +0000
Subject: [PATCH 46/55] fix: python inspect: report errors from looking at the
 scheme directories

The owner of another directory was reported instead.
---
 cmd_python_inspect.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd_python_inspect.go b/cmd_python_inspect.go
index 2ddc9c2..577ba68 100644
--- a/cmd_python_inspect.go
+++ b/cmd_python_inspect.go
@@ -3,8 +3,11 @@ package main
 import (
 	"context"
 	"encoding/base64"
+	"errors"
 	"fmt"
+	"io/fs"
 	"os"
+	"syscall"
 
 	"github.com/datawire/dlib/dexec"
 	"github.com/datawire/dlib/dlog"
@@ -18,6 +21,7 @@ import (
 	"github.com/datawire/ocibuild/pkg/fsutil"
 	"github.com/datawire/ocibuild/pkg/python"
 	"github.com/datawire/ocibuild/pkg/python/pyinspect"
+	"github.com/datawire/ocibuild/pkg/squash"
 )
 
 func init() {
@@ -108,7 +112,11 @@ func init() {
 			for _, dir := range dirs {
 				info, err := sys.Stat(dir)
 				if err != nil {
-					continue
+					if errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ENOTDIR) ||
+						errors.Is(err, squash.ErrMissing) {
+						continue
+					}
+					return err
 				}
 				plat.UID = info.UID()
 				plat.GID = info.GID()
-- 
2.43.0


From bf80cfec5da0a1cafd1e2a219a513ee4ed47f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:51 +0000
Subject: [PATCH 47/55] fix: gobuild: don't let the umask in to the layer

The modes of the binaries depended on the umask of the user that runs ocibuild.
---
 pkg/gobuild/gobuild.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/gobuild/gobuild.go b/pkg/gobuild/gobuild.go
index 14180af..8290e35 100644
--- a/pkg/gobuild/gobuild.go
+++ b/pkg/gobuild/gobuild.go
@@ -4,6 +4,7 @@ package gobuild
 import (
 	"context"
 	"os"
+	"path/filepath"
 	"time"
 
 	"github.com/datawire/dlib/dexec"
@@ -51,6 +52,17 @@ func LayerFromGo(
 		return nil, err
 	}
 
+	// Don't let the umask in to the layer.
+	binaries, err := os.ReadDir(tmpdir)
+	if err != nil {
+		return nil, err
+	}
+	for _, binary := range binaries {
+		if err := os.Chmod(filepath.Join(tmpdir, binary.Name()), 0o755); err != nil {
+			return nil, err
+		}
+	}
+
 	ownership := dir.Ownership{
 		UID:   0,
 		UName: "root",
-- 
2.43.0


From 75feb0ec5954c767a04bd8e0e5e8d9debd35f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:14 +0000
Subject: [PATCH 48/55] fix: dockerutil: don't wait twice for `docker image
 load`

If waiting failed, waiting again never returned.
---
 pkg/dockerutil/docker.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/dockerutil/docker.go b/pkg/dockerutil/docker.go
index 766ca40..9ef2a7a 100644
--- a/pkg/dockerutil/docker.go
+++ b/pkg/dockerutil/docker.go
@@ -50,9 +50,12 @@ func WithImage(
 	if err := cmd.Start(); err != nil {
 		return err
 	}
+	waited := false
 	defer func() {
 		_ = pipe.Close()
-		_ = cmd.Wait()
+		if !waited {
+			_ = cmd.Wait()
+		}
 	}()
 	if err := ociv1tarball.Write(tag, img, pipe); err != nil {
 		return err
@@ -60,6 +63,7 @@ func WithImage(
 	if err := pipe.Close(); err != nil {
 		return err
 	}
+	waited = true
 	if err := cmd.Wait(); err != nil {
 		return err
 	}
-- 
2.43.0


From abd1dbcc96cefa28c34d2c9da617d7a74cf73df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:16 +0000
Subject: [PATCH 49/55] fix: squash: a whiteout marker stored as a hard link
 isn't a name of its target

Otherwise squashing turned the target in to a hard link to the marker, and so lost the file.
---
 pkg/squash/vfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index f6f29d5..e5cac9a 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -193,7 +193,10 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 	// target's name later doesn't matter.  We represent this by having the two share the same
 	// header; .WriteTo() will turn that back in to a hard link.  If the target isn't in the
 	// layers that we have, then we've no choice but to leave the entry as-is.
-	if hdr.Typeflag == tar.TypeLink {
+	//
+	// Whiteout markers aren't files, so they aren't another name for anything, even if they're
+	// stored as a hard link.
+	if hdr.Typeflag == tar.TypeLink && !strings.HasPrefix(path.Base(f.name), ".wh.") {
 		root := f
 		for root.parent != root {
 			root = root.parent
-- 
2.43.0


From e1c639d673fadb72891724273ed3547ca8e10f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:18 +0000
Subject: [PATCH 50/55] fix: python: keep the pre-release number of the
 platform's Python

CPython 3.11.0rc2 was taken for 3.11.0rc0 when judging a Requires-Python.
---
 pkg/python/platform.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/python/platform.go b/pkg/python/platform.go
index ffb6860..32f31d2 100644
--- a/pkg/python/platform.go
+++ b/pkg/python/platform.go
@@ -43,11 +43,11 @@ func (vi VersionInfo) PEP440() (*pep440.Version, error) {
 	}
 	switch vi.ReleaseLevel {
 	case "alpha":
-		ret.Pre = &pep440.PreRelease{L: "a", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "a", N: vi.Serial}
 	case "beta":
-		ret.Pre = &pep440.PreRelease{L: "b", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "b", N: vi.Serial}
 	case "candidate":
-		ret.Pre = &pep440.PreRelease{L: "rc", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "rc", N: vi.Serial}
 	case "final":
 		ret.Pre = nil
 	default:
-- 
2.43.0


From c4d1749f5c84fa7355d40dd95912190d5471047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:17 +0000
Subject: [PATCH 51/55] fix: squash: a PAX global header isn't a file

It was put in to the squashed layer (and the filesystem view) as a file of that name, replacing any
actual file of that name.
---
 pkg/squash/readlayer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/squash/readlayer.go b/pkg/squash/readlayer.go
index 1971833..b5ab645 100644
--- a/pkg/squash/readlayer.go
+++ b/pkg/squash/readlayer.go
@@ -42,6 +42,11 @@ func parseLayer(layer ociv1.Layer, omitContent bool) (*layerFS, error) {
 			return nil, fmt.Errorf("reading tar: %w", err)
 		}
 
+		if header.Typeflag == tar.TypeXGlobalHeader {
+			// This is metadata about the archive, rather than a file.
+			continue
+		}
+
 		cleanName := path.Clean(header.Name)
 		if strings.HasPrefix(cleanName, "/") || strings.HasPrefix(cleanName, "../") || cleanName == ".." {
 			return nil, fmt.Errorf("layer contains file outside of image root: %q", header.Name)
-- 
2.43.0


From 9df03f0ba64bbcf2458cb30714b784771b45bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:17 +0000
Subject: [PATCH 52/55] fix: squash: don't lose the content of sparse files

The tar.Reader fills in the holes of a file that's stored in GNU's sparse format, but leaves the type
of the entry; when writing the filled in content with that type, readers of the squashed layer see
an empty file.
---
 pkg/squash/readlayer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/squash/readlayer.go b/pkg/squash/readlayer.go
index b5ab645..ed7f6e4 100644
--- a/pkg/squash/readlayer.go
+++ b/pkg/squash/readlayer.go
@@ -47,6 +47,11 @@ func parseLayer(layer ociv1.Layer, omitContent bool) (*layerFS, error) {
 			continue
 		}
 
+		if header.Typeflag == tar.TypeGNUSparse {
+			// The tar.Reader has filled in the holes; the tar.Writer can't write holes.
+			header.Typeflag = tar.TypeReg
+		}
+
 		cleanName := path.Clean(header.Name)
 		if strings.HasPrefix(cleanName, "/") || strings.HasPrefix(cleanName, "../") || cleanName == ".." {
 			return nil, fmt.Errorf("layer contains file outside of image root: %q", header.Name)
-- 
2.43.0


From 6279bc8dad0c9d69e045965663ff7877f200462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:56 +0000
Subject: [PATCH 53/55] fix: squash: the parent of a symlink is the parent of
 what it points to

A symlink to "other-symlink/../file" was resolved as if it pointed to "file".
---
 pkg/squash/vfs.go | 51 ++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index e5cac9a..06e5387 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -31,13 +31,14 @@ type fsfile struct {
 const maxLinks = 255
 
 func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
-	return fsGetCounted(dir, pathname, create, followLinks, new(int))
+	return fsGetCounted(dir, path.Clean(pathname), create, followLinks, new(int))
 }
 
 // fsGetCounted implements fsGet, adding the number of symlinks followed to "links".
+//
+// Unlike fsGet, it doesn't path.Clean() the pathname, since "symlink/.." is the parent of the
+// directory that the symlink points to.
 func fsGetCounted(dir *fsfile, pathname string, create, followLinks bool, links *int) (*fsfile, error) {
-	pathname = path.Clean(pathname)
-
 	done := 0 // index of the next byte in pathname to look at
 
 	// handle absolute paths
@@ -76,30 +77,38 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 func (f *fsfile) getCounted(child string, create, followLinks bool, links *int) (*fsfile, error) {
 	var ret *fsfile
 
+	if child != "" && child != "." && f.header != nil && f.header.Typeflag == tar.TypeSymlink {
+		if *links++; *links > maxLinks {
+			return nil, &fs.PathError{
+				Op:   "vfs.readlink(dir)",
+				Path: "/" + f.name,
+				Err:  ErrLoop,
+			}
+		}
+		newF, err := fsGetCounted(f.parent, f.header.Linkname, create, true, links)
+		if err != nil {
+			return nil, &fs.PathError{
+				Op:   "vfs.readlink(dir)",
+				Path: "/" + f.name,
+				Err:  err,
+			}
+		}
+		f = newF
+	}
+
 	switch child {
 	case "..":
+		if !create && f.header != nil && f.header.Typeflag != tar.TypeDir {
+			return nil, &fs.PathError{
+				Op:   "vfs.readdir",
+				Path: "/" + f.name,
+				Err:  ErrNotDir,
+			}
+		}
 		ret = f.parent
 	case ".", "": // "" is what's left of "/"
 		ret = f
 	default:
-		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			if *links++; *links > maxLinks {
-				return nil, &fs.PathError{
-					Op:   "vfs.readlink(dir)",
-					Path: "/" + f.name,
-					Err:  ErrLoop,
-				}
-			}
-			newF, err := fsGetCounted(f.parent, f.header.Linkname, create, true, links)
-			if err != nil {
-				return nil, &fs.PathError{
-					Op:   "vfs.readlink(dir)",
-					Path: "/" + f.name,
-					Err:  err,
-				}
-			}
-			f = newF
-		}
 		// Accessing "foo/bar" implies that "foo" is a directory; if it isn't, then white it
 		// out.
 		if f.header != nil && f.header.Typeflag != tar.TypeDir {
-- 
2.43.0


From 81a9ae0af0570afe46b1e205c661f2de6a2a7dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:51 +0000
Subject: [PATCH 54/55] fix: python inspect: look up a relative interpreter
 name only once

The relative path ended up in the platform file, and so in shebangs, where it's relative to wherever
the script gets run.  (When inspecting an image, the path is already made absolute.)
---
 pkg/python/pyinspect/fs_native.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/fs_native.go b/pkg/python/pyinspect/fs_native.go
index 130bb80..2f6d0bb 100644
--- a/pkg/python/pyinspect/fs_native.go
+++ b/pkg/python/pyinspect/fs_native.go
@@ -58,6 +58,11 @@ func (NativeFS) LookPath(file string) (string, error) {
 				Err:  eerr.Err,
 			}
 		}
+		return "", err
 	}
-	return val, err
+	if !filepath.IsAbs(val) {
+		// A shebang with a relative path would be relative to wherever the script gets run.
+		return filepath.Abs(val)
+	}
+	return val, nil
 }
-- 
2.43.0


From 5563d05c18746cfe05f375c7363c9eaba3802940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:18 +0000
Subject: [PATCH 55/55] fix: squash: a page of a directory listing belongs to
 the caller

Appending to a page that ReadDir returned overwrote the entries of the
pages to come (or the pages that other goroutines had got).
---
 pkg/squash/vfs_fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 7b7f575..2b77d0f 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -211,7 +211,7 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 	ret := f.dirents[f.pos:]
 	if n > 0 {
 		if n < len(ret) {
-			ret = ret[:n]
+			ret = ret[:n:n] // the caller may append to it
 		}
 		if len(ret) == 0 {
 			return nil, io.EOF
-- 
2.43.0

