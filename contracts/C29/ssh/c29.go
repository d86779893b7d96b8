//go:build verif && go1.21

package ssh

import (
	"encoding/json"
	"errors"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// Reading the users file leaves no file open, whatever the file is like.
//
//govc:norun
func C29_Users(filename string) {
	opened := 0
	var last *os.File
	v.External("os.Open", func(name string) (*os.File, error) {
		if v.AnyBool() {
			return nil, errors.New("missing")
		}
		last = new(os.File)
		opened++
		return last, nil
	})
	v.External("(*os.File).Close", func(f *os.File) error {
		if f != nil && f == last {
			last = nil
			opened--
		}
		return v.Any[error]()
	})
	v.External("encoding/json.NewDecoder", func(r io.Reader) *json.Decoder {
		f, ok := r.(*os.File)
		v.Assert("an open file is read", ok && f != nil && f == last)
		return new(json.Decoder)
	})
	v.External("(*encoding/json.Decoder).Decode", func(d *json.Decoder, x interface{}) error {
		v.Assert("an open file is read", opened > 0)
		if p, ok := x.(*map[string]UserAuth); ok {
			*p = v.Any[map[string]UserAuth]()
		}
		return v.Any[error]()
	})
	ReadUsersFile(filename)
	v.Ensures("no file is left open", opened == 0)
	v.Cover("the end")
}

// The same with real files (executed).
//
//govc:bounded
func C29_RunUsers(seed int) {
	dir, err := ioutil.TempDir("", "c29")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	texts := []string{"", "{}", "{\"a\":{\"password\":\"x\"}}", "{", "[]", "{\"a\":1}", "{\"a\":{\"pubKey\":\"x\"}}", strings.Repeat("x", 5000)}
	name := filepath.Join(dir, "users.json")
	switch v.AnyInt(0, 5) {
	case 0: // missing
	case 1:
		os.Mkdir(name, 0755)
	default:
		ioutil.WriteFile(name, []byte(texts[v.AnyInt(0, len(texts)-1)]), 0644)
	}
	for k := 0; k < 3; k++ {
		ReadUsersFile(name)
		n := 0
		fds, _ := ioutil.ReadDir("/proc/self/fd")
		for _, fd := range fds {
			if to, err := os.Readlink(filepath.Join("/proc/self/fd", fd.Name())); err == nil && strings.HasPrefix(to, dir) {
				n++
			}
		}
		v.Ensures("no file is left open after reading the users file", n == 0)
	}
}
