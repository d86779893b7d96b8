//go:build verif && go1.21

package ssh

import (
	"bytes"
	"encoding/json"
	"errors"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"

	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/gliderlabs/ssh"
)

type c21Context struct {
	ssh.Context
	user string
}

func (c *c21Context) User() string         { return c.user }
func (c *c21Context) RemoteAddr() net.Addr { return nil }

type c21Key struct {
	ssh.PublicKey
	blob []byte
}

func (k *c21Key) Type() string    { return "c21" }
func (k *c21Key) Marshal() []byte { return k.blob }

// A password login succeeds exactly for a known user with exactly his password, which is not empty.
//
//govc:norun
func C21_Password(users map[string]UserAuth, user, password string) {
	v.Impl[ssh.Context, *c21Context]()
	var check func(ctx ssh.Context, password string) bool
	v.External("github.com/gliderlabs/ssh.PasswordAuth", func(f ssh.PasswordHandler) ssh.Option {
		check = f
		return nil
	})
	createPasswordAuthOption(users)
	v.Ensures("a check is installed", check != nil)
	auth, known := users[user]
	ok := check(&c21Context{user: user}, password)
	v.Ensures("a password login succeeds exactly with the user's password", ok == (known && auth.Password != "" && auth.Password == password))
}

// A key login succeeds exactly for a known user with exactly his key, if that parses.
//
//govc:norun
func C21_Key(users map[string]UserAuth, user string, parses, equal bool) {
	v.Impl[ssh.Context, *c21Context]()
	auth, known := users[user]
	stored, given := &c21Key{}, &c21Key{}
	var check func(ctx ssh.Context, key ssh.PublicKey) bool
	v.External("github.com/gliderlabs/ssh.PublicKeyAuth", func(f ssh.PublicKeyHandler) ssh.Option {
		check = f
		return nil
	})
	v.External("github.com/gliderlabs/ssh.ParsePublicKey", func(b []byte) (ssh.PublicKey, error) {
		v.Assert("the user's key is parsed", known && len(b) == len(auth.PubKey) && (len(b) == 0 || &b[0] == &auth.PubKey[0]))
		if !parses || len(b) == 0 {
			return nil, errors.New("no key")
		}
		return stored, nil
	})
	v.External("github.com/gliderlabs/ssh.KeysEqual", func(a, b ssh.PublicKey) bool {
		x, xok := a.(*c21Key)
		y, yok := b.(*c21Key)
		v.Assert("the key given is compared with the key stored", xok && yok && (x == stored && y == given || x == given && y == stored))
		return equal
	})
	createPublicKeyAuthOption(users)
	v.Ensures("a check is installed", check != nil)
	ok := check(&c21Context{user: user}, given)
	v.Ensures("a key login succeeds exactly with the user's key", ok == (known && len(auth.PubKey) > 0 && parses && equal))
}

// The server is started with both checks, with and without a host key.
//
//govc:norun
func C21_Installed(users map[string]UserAuth, address, file string, readable bool) {
	HostKeyFile = file
	password, key, served := 0, 0, 0
	v.External("github.com/gliderlabs/ssh.PasswordAuth", func(f ssh.PasswordHandler) ssh.Option {
		v.Assert("there is a check", f != nil)
		return func(*ssh.Server) error { password++; return nil }
	})
	v.External("github.com/gliderlabs/ssh.PublicKeyAuth", func(f ssh.PublicKeyHandler) ssh.Option {
		v.Assert("there is a check", f != nil)
		return func(*ssh.Server) error { key++; return nil }
	})
	v.External("github.com/gliderlabs/ssh.HostKeyFile", func(name string) ssh.Option {
		v.Assert("the host key is that of the file", name == file)
		return func(*ssh.Server) error { return nil }
	})
	v.External("github.com/LogicalOverflow/music-sync/util.CheckFile", func(name string) error {
		if readable {
			return nil
		}
		return errors.New("not readable")
	})
	v.External("github.com/gliderlabs/ssh.Handle", func(h ssh.Handler) { v.Assert("sessions are handled", h != nil) })
	v.External("github.com/gliderlabs/ssh.ListenAndServe", func(at string, h ssh.Handler, options ...ssh.Option) error {
		v.Assert("the server listens where it should", at == address)
		for _, o := range options {
			o(nil)
		}
		v.Assert("both checks are installed", password > 0 && key > 0)
		served++
		return errors.New("stopped")
	})
	StartSSH(address, users)
	v.Ensures("the server is started once, with both checks", served == 1)
}

// Logins over tables of users, against the library as it is (executed).
//
//govc:bounded
func C21_Run(seed int) {
	names := []string{"", "a", "b", "A", "a "}
	passwords := []string{"", "x", "X", "xy", "x "}
	blobs := [][]byte{nil, {}, {1, 2, 3}, c21Ed(1), c21Ed(2), c21Ed(2)[:20]}
	users := map[string]UserAuth{}
	for n := v.AnyInt(0, 4); n > 0; n-- {
		users[names[v.AnyInt(0, 4)]] = UserAuth{Password: passwords[v.AnyInt(0, 4)], PubKey: blobs[v.AnyInt(0, 5)]}
	}
	server := &ssh.Server{}
	for _, o := range getSSHOptions(users) {
		o(server)
	}
	v.Ensures("both checks are installed", server.PasswordHandler != nil && server.PublicKeyHandler != nil)
	for _, n := range names {
		u, known := users[n]
		for _, p := range passwords {
			ok := server.PasswordHandler(&c21Context{user: n}, p)
			v.Ensures("a password login succeeds exactly with the user's password", ok == (known && u.Password != "" && u.Password == p))
		}
		for _, b := range blobs[3:5] {
			k, err := ssh.ParsePublicKey(b)
			if err != nil {
				panic(err)
			}
			ok := server.PublicKeyHandler(&c21Context{user: n}, k)
			v.Ensures("a key login succeeds exactly with the user's key", ok == (known && string(u.PubKey) == string(b)))
		}
	}
}

// c21Ed is a key in wire format.
func c21Ed(x byte) []byte {
	b := append([]byte{0, 0, 0, 11}, "ssh-ed25519"...)
	b = append(b, 0, 0, 0, 32)
	for i := 0; i < 32; i++ {
		b = append(b, x)
	}
	return b
}

// The table of users is exactly that of the file, and there is none of a file that cannot be read (executed).
//
//govc:bounded
func C21_File(seed int) {
	dir, err := ioutil.TempDir("", "c21")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	names := []string{"", "a", "b", "A", "a ", "äö", "B"}
	passwords := []string{"", "x", "X", "xy", " x "}
	blobs := [][]byte{nil, {1, 2, 3}, c21Ed(1), c21Ed(2)}
	users := map[string]UserAuth{}
	for n := v.AnyInt(0, 6); n > 0; n-- {
		users[names[v.AnyInt(0, 6)]] = UserAuth{Password: passwords[v.AnyInt(0, 4)], PubKey: blobs[v.AnyInt(0, 3)]}
	}
	text, _ := json.Marshal(users)
	good := true
	switch v.AnyInt(0, 4) {
	case 0:
		text, good = text[:v.AnyInt(0, len(text)-1)], false
	case 1:
		text, good = bytes.Replace(text, []byte("}}"), []byte(", \"password\": 5}}"), 1), len(users) == 0
	}
	file := filepath.Join(dir, "users.json")
	if v.AnyInt(0, 9) == 0 {
		good = false
	} else if err := ioutil.WriteFile(file, text, 0600); err != nil {
		panic(err)
	}
	got, err := ReadUsersFile(file)
	v.Ensures("a file that cannot be read or decoded is an error", (err == nil) == good)
	v.Ensures("no user is taken from such a file", good || len(got) == 0)
	if !good {
		return
	}
	v.Ensures("the users are those of the file", len(got) == len(users))
	for n, u := range users {
		g, known := got[n]
		v.Ensures("every user has the password and key of the file", known && g.Password == u.Password && string(g.PubKey) == string(u.PubKey))
	}
}
