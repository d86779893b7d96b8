//go:build verif && go1.21

package util

import (
	"errors"
	"fmt"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// What the path functions of the standard library make of their arguments: names that depend on those only.

func c26Join(a, b string) string { return fmt.Sprintf("%q/%q", a, b) }
func c26Name(path string) string { return fmt.Sprintf("%x", path) }
func c26Is(what, path string) bool {
	return fmt.Sprintf("%X", path) == what
}

// c26Below says whether the name relative to a directory leads below it.
func c26Below(name string) bool {
	return !(name == "" || name == "." || name == ".." || strings.HasPrefix(name, "../"))
}

type c26Path struct{ path string }

type c26Info struct{ dir bool }

func (i c26Info) Name() string       { return "" }
func (i c26Info) Size() int64        { return 0 }
func (i c26Info) Mode() os.FileMode  { return 0 }
func (i c26Info) ModTime() time.Time { return time.Time{} }
func (i c26Info) IsDir() bool        { return i.dir }
func (i c26Info) Sys() interface{}   { return nil }

// c26Tree is what walking or matching meets: any number of paths below any directory, files, directories, symbolic links
// to either and what cannot be read.
type c26Tree struct {
	dir     string
	sub     string // the directory below it to walk, if any
	n       int
	paths   []c26Path
	isDir   []bool // directories, not links to one
	fails   []bool // cannot be read
	started int
}

func c26New(dir string) *c26Tree {
	t := &c26Tree{dir: dir, n: v.AnyInt(0, 1<<40)}
	t.paths = make([]c26Path, t.n)
	v.HavocSlice(t.paths)
	t.isDir = make([]bool, t.n)
	v.HavocSlice(t.isDir)
	t.fails = make([]bool, t.n)
	v.HavocSlice(t.fails)
	failed := errors.New("failed")
	v.External("path/filepath.Join", func(elem ...string) string {
		v.Assert("two names are joined", len(elem) == 2)
		return c26Join(elem[0], elem[1])
	})
	v.External("path/filepath.Clean", func(path string) string { return fmt.Sprintf("%U", path) })
	v.External("path/filepath.Rel", func(base, target string) (string, error) {
		v.Assert("names are relative to the directory", base == dir)
		if c26Is("unrelated", target) {
			return "", failed
		}
		return c26Name(target), nil
	})
	v.External("os.Stat", func(path string) (os.FileInfo, error) {
		if c26Is("missing", path) {
			return nil, failed
		}
		return c26Info{c26Is("directory", path)}, nil
	})
	v.External("path/filepath.Walk", func(root string, fn filepath.WalkFunc) error {
		t.started++
		// a separator at its end makes it the directory itself, whether or not it is a link to one
		v.Assert("the walk starts at the directory", t.sub == "" && (root == fmt.Sprintf("%U", dir)+"/" || root == dir+"/") ||
			t.sub != "" && root == c26Join(dir, t.sub))
		for i := 0; i < t.n; i++ {
			var info os.FileInfo = c26Info{t.isDir[i]}
			var err error
			if t.fails[i] {
				info, err = nil, failed
			}
			if e := fn(t.paths[i].path, info, err); e != nil {
				return e
			}
		}
		return nil
	})
	return t
}

// name is the name of the i-th path, "" if it does not lead below the directory.
func (t *c26Tree) named(i int) bool {
	return !c26Is("unrelated", t.paths[i].path) && c26Below(c26Name(t.paths[i].path))
}

func (t *c26Tree) dirRow(i int) bool { return !t.fails[i] && t.isDir[i] && t.named(i) }

func c26IsFile(path string) bool { return !c26Is("missing", path) && !c26Is("directory", path) }

// Filtering keeps exactly the songs, in order: w is any name.
//
//govc:norun
func C26_Songs(w int) {
	n := v.AnyInt(0, 1<<40)
	names := make([]c26Path, n)
	v.HavocSlice(names)
	files := make([]string, n)
	v.HavocSlice(files)
	v.Assume(v.Forall(0, n, func(k int) bool { return names[k].path == files[k] }))
	v.Requires(0 <= w && w < n)
	song := strings.HasSuffix(names[w].path, ".mp3")
	count := v.Rec(int64(0), func(k int, prev int64) int64 {
		if strings.HasSuffix(names[k].path, ".mp3") {
			return prev + 1
		}
		return prev
	})
	at := int(count(w))
	v.External("path/filepath.Ext", func(path string) string {
		if strings.HasSuffix(path, ".mp3") {
			return ".mp3"
		}
		other := v.Any[string]()
		v.Assume(other != ".mp3")
		return other
	})
	v.Inv(func() bool { return v.Forall(0, n, func(k int) bool { return files[k] == names[k].path }) })
	v.Inv(func(i int, r []string) bool { return int64(len(r)) == count(i+1) && len(r) <= i+1 })
	v.Inv(func(i int, r []string) bool {
		return i < w || 0 <= at && (!song || at < len(r) && r[at] == names[w].path)
	})
	v.Inv(func(i int, r []string) bool { return 0 <= i && i <= n && int64(len(r)) == count(i) && len(r) <= i })
	v.Inv(func(i int, r []string) bool {
		return i <= w || 0 <= at && (!song || at < len(r) && r[at] == names[w].path)
	})
	got := FilterSongs(files)
	v.Ensures("as many names are kept as are songs", int64(len(got)) == count(n))
	if song {
		v.Ensures("every song is kept, in order", 0 <= at && at < len(got) && got[at] == names[w].path)
	}
	v.Ensures("the names given are unchanged", v.Forall(0, n, func(k int) bool { return files[k] == names[k].path }))
	v.Ensures("there is a list", got != nil)
}

// Listing directories: every one below the directory by its relative name, in the order met.
//
//govc:norun
func C26_SubDirs(dir string, w int) {
	t := c26New(dir)
	v.Requires(0 <= w && w < t.n)
	count := v.Rec(int64(0), func(k int, prev int64) int64 {
		if t.dirRow(k) {
			return prev + 1
		}
		return prev
	})
	listed := t.dirRow(w)
	at := int(count(w))
	v.Inv(func(i int, r []string) bool { return int64(len(r)) == count(i) && len(r) <= i })
	v.Inv(func(i int, r []string) bool {
		return i <= w || 0 <= at && (!listed || at < len(r) && r[at] == c26Name(t.paths[w].path))
	})
	got := ListAllSubDirs(dir)
	v.Ensures("the directory is walked", t.started == 1)
	v.Ensures("as many directories are listed as there are", int64(len(got)) == count(t.n))
	if listed {
		v.Ensures("every directory is listed by its relative name", 0 <= at && at < len(got) && got[at] == c26Name(t.paths[w].path))
	}
	v.Ensures("there is a list", got != nil)
}

func (t *c26Tree) fileRow(i int) bool {
	return !t.fails[i] && t.named(i) && c26IsFile(c26Join(t.dir, c26Name(t.paths[i].path)))
}

// Listing files: every one below the directory, or one below that, by its name relative to the directory, in the order met.
//
//govc:norun
func C26_Files(dir, sub string, w int) {
	t := c26New(dir)
	t.sub = sub
	v.Requires(0 <= w && w < t.n)
	// what is a directory when met is one when looked at again
	v.Assume(v.Forall(0, t.n, func(i int) bool {
		return !t.isDir[i] || !c26IsFile(c26Join(dir, c26Name(t.paths[i].path)))
	}))
	count := v.Rec(int64(0), func(k int, prev int64) int64 {
		if t.fileRow(k) {
			return prev + 1
		}
		return prev
	})
	listed := t.fileRow(w)
	at := int(count(w))
	v.Inv(func(i int, r []string) bool { return int64(len(r)) == count(i) && len(r) <= i })
	v.Inv(func(i int, r []string) bool {
		return i <= w || 0 <= at && (!listed || at < len(r) && r[at] == c26Name(t.paths[w].path))
	})
	got := ListAllFiles(dir, sub)
	v.Ensures("the directory is walked", t.started == 1)
	v.Ensures("as many files are listed as there are", int64(len(got)) == count(t.n))
	if listed {
		v.Ensures("every file is listed by its relative name", 0 <= at && at < len(got) && got[at] == c26Name(t.paths[w].path))
	}
	v.Ensures("there is a list", got != nil)
}

// Matching: every file matched that is below the directory, by its relative name, in order.
//
//govc:norun
func C26_Glob(dir, pattern string, w int) {
	t := c26New(dir)
	v.Requires(0 <= w && w < t.n)
	literal := fmt.Sprintf("%c", dir)
	v.External("strings.NewReplacer", func(oldnew ...string) *strings.Replacer {
		v.Assert("what patterns give a meaning is taken literally in the directory", len(oldnew) == 8 &&
			oldnew[0] == "\\" && oldnew[1] == "\\\\" && oldnew[2] == "*" && oldnew[3] == "\\*" &&
			oldnew[4] == "?" && oldnew[5] == "\\?" && oldnew[6] == "[" && oldnew[7] == "\\[")
		return &strings.Replacer{}
	})
	v.External("(*strings.Replacer).Replace", func(_ *strings.Replacer, s string) string {
		v.Assert("the directory is taken literally", s == dir)
		return literal
	})
	bad := v.AnyBool()
	failed := errors.New("failed")
	v.External("path/filepath.Glob", func(p string) ([]string, error) {
		t.started++
		v.Assert("the pattern is matched below the directory", p == c26Join(literal, pattern))
		if bad {
			return nil, failed
		}
		matches := make([]string, t.n)
		v.HavocSlice(matches)
		v.Assume(v.Forall(0, t.n, func(k int) bool { return matches[k] == t.paths[k].path }))
		v.Inv(func(r []string) bool {
			return v.Forall(0, t.n, func(k int) bool { return matches[k] == t.paths[k].path })
		})
		return matches, nil
	})
	row := func(i int) bool { return t.named(i) && c26IsFile(t.paths[i].path) }
	count := v.Rec(int64(0), func(k int, prev int64) int64 {
		if row(k) {
			return prev + 1
		}
		return prev
	})
	listed := row(w)
	at := int(count(w))
	v.Inv(func(i int, r []string) bool { return int64(len(r)) == count(i+1) && len(r) <= i+1 })
	v.Inv(func(i int, r []string) bool {
		return i < w || 0 <= at && (!listed || at < len(r) && r[at] == c26Name(t.paths[w].path))
	})
	got, err := ListGlobFiles(dir, pattern)
	v.Ensures("the pattern is matched", t.started == 1)
	v.Ensures("an invalid pattern is reported", (err != nil) == bad)
	v.Ensures("there is a list", got != nil)
	if bad {
		v.Ensures("an invalid pattern matches nothing", len(got) == 0)
		return
	}
	v.Ensures("as many files are listed as match", int64(len(got)) == count(t.n))
	if listed {
		v.Ensures("every file that matches is listed by its relative name", 0 <= at && at < len(got) && got[at] == c26Name(t.paths[w].path))
	}
}

// The same on real directories, however they are written.
//
//govc:bounded
func C26_Run(seed int) {
	tmp, err := ioutil.TempDir("", "c26")
	if err != nil {
		return
	}
	defer os.RemoveAll(tmp)
	word := func() string {
		parts := []string{"a", "b", ".mp3", ".mp3", ".", "[1]", "x*", " ", "ä", "a?", "-", "\\", "mp3", ".MP3", "._", "~", "A"}
		w := ""
		for k := v.AnyInt(1, 3); k > 0; k-- {
			w += parts[v.AnyInt(0, len(parts)-1)]
		}
		if w == "." || w == ".." {
			w = "a"
		}
		return w
	}
	base := word()
	music := tmp + "/" + base
	if v.AnyBool() {
		music = tmp + "/" + word() + "/" + base
	}
	os.MkdirAll(music, 0700)
	ioutil.WriteFile(filepath.Dir(music)+"/out.mp3", nil, 0600)
	ioutil.WriteFile(music+"x.mp3", nil, 0600)
	dirs := []string{""}
	var files []string
	used := map[string]bool{}
	for k := v.AnyInt(0, 8); k > 0; k-- {
		name := filepath.Join(dirs[v.AnyInt(0, len(dirs)-1)], word())
		if used[name] {
			continue
		}
		used[name] = true
		switch v.AnyInt(0, 6) {
		case 6: // a link to a file
			os.Symlink(filepath.Dir(music)+"/out.mp3", music+"/"+name)
			files = append(files, name)
		case 0, 1:
			os.Mkdir(music+"/"+name, 0700)
			dirs = append(dirs, name)
		case 2:
			os.Symlink(".", music+"/"+name) // a link to a directory
		default:
			ioutil.WriteFile(music+"/"+name, nil, 0600)
			files = append(files, name)
		}
	}
	dir := music // ways of writing the music directory
	switch v.AnyInt(0, 9) {
	case 8:
		dir += "/."
	case 9:
		dir += "//.//"
	case 0:
		dir += "/"
	case 1:
		dir += "//"
	case 2:
		dir = filepath.Dir(dir) + "/./" + base
	case 3:
		dir = tmp + "/../" + filepath.Base(tmp) + music[len(tmp):]
	case 4:
		os.Symlink(music, tmp+"/link to [it]")
		dir = tmp + "/link to [it]"
	case 5, 6, 7:
		if wd, err := os.Getwd(); err == nil && os.Chdir(music) == nil {
			defer os.Chdir(wd)
			dir = []string{".", "./", "../" + base, "../" + base + "/"}[v.AnyInt(0, 3)]
		}
	}
	same := func(what string, got, expected []string) {
		got, expected = append([]string{}, got...), append([]string{}, expected...)
		sort.Strings(got)
		sort.Strings(expected)
		v.Ensures(what, fmt.Sprintf("%q", got) == fmt.Sprintf("%q", expected))
	}
	below := func(names []string, sub string) (r []string) {
		for _, n := range names {
			if sub == "" || strings.HasPrefix(n, sub+"/") {
				r = append(r, n)
			}
		}
		return
	}
	sub := dirs[v.AnyInt(0, len(dirs)-1)]
	same("every file below the directory is listed once, by its relative name", ListAllFiles(dir, ""), files)
	same("every file below a sub directory is listed once, by its relative name", ListAllFiles(dir, sub), below(files, sub))
	same("every directory below the directory is listed once, by its relative name", ListAllSubDirs(dir), dirs[1:])
	for _, f := range ListAllFiles(dir, "..") {
		v.Ensures("nothing outside the directory is listed", f != "" && !strings.HasPrefix(f, "/") && !strings.HasPrefix(f, "../") && IsFile(music+"/"+f))
	}
	same("a missing directory has no files", ListAllFiles(dir+"/missing", ""), nil)
	same("a missing directory has no directories", ListAllSubDirs(dir+"/missing"), nil)
	glob := func(sub, pattern string, ok func(name string) bool) {
		var expected []string
		for _, f := range files {
			if filepath.Dir(f) == filepath.Clean(sub) && ok(filepath.Base(f)) {
				expected = append(expected, f)
			}
		}
		quoted := strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[").Replace(sub)
		got, err := ListGlobFiles(dir, filepath.Join(quoted, pattern))
		v.Ensures("a valid pattern is not refused", err == nil)
		same("every file that matches is listed once, by its relative name", got, expected)
	}
	glob(sub, "*", func(string) bool { return true })
	glob(sub, "*.mp3", func(n string) bool { return strings.HasSuffix(n, ".mp3") })
	glob("", "a*", func(n string) bool { return strings.HasPrefix(n, "a") })
	got, err := ListGlobFiles(dir, "../*")
	v.Ensures("nothing outside the directory matches", err == nil && len(got) == 0)
	got, err = ListGlobFiles(dir, "[")
	v.Ensures("an invalid pattern is reported", err != nil && len(got) == 0)
	songs := FilterSongs(files)
	k := 0
	for _, f := range files {
		if len(f) >= 4 && f[len(f)-4:] == ".mp3" {
			v.Ensures("every song is kept", k < len(songs) && songs[k] == f)
			k++
		}
	}
	v.Ensures("only songs are kept", k == len(songs))
}
