//go:build verif && go1.21

package ssh

import (
	"errors"
	"fmt"
	"github.com/LogicalOverflow/music-sync/ssh/parser"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/chzyer/readline"
	"github.com/gliderlabs/ssh"
	"io"
	"net"
	"sort"
	"strings"
)

const c23Pkg = "github.com/LogicalOverflow/music-sync/ssh."

// What sorting relies on: the order is that of the names, and swapping exchanges two commands.
func C23_Order(i, j int) {
	n := v.AnyInt(1, v.Bound(1<<40, 6))
	l := make([]Command, n)
	v.HavocSlice(l)
	v.Requires(0 <= i && i < n && 0 <= j && j < n)
	old := v.Snap(l)
	s := commandsByName(l)
	v.Ensures("all commands are sorted", s.Len() == n)
	v.Ensures("commands are sorted by name", s.Less(i, j) == (l[i].Name < l[j].Name))
	s.Swap(i, j)
	v.Ensures("swapping exchanges two commands", c23Same(l[i], old[j]) && c23Same(l[j], old[i]))
	v.Ensures("swapping leaves the others", v.Forall(0, n, func(k int) bool { return k == i || k == j || c23Same(l[k], old[k]) }))
}

// c23Same compares the texts of commands; when executed also whether they do the same.
func c23Same(a, b Command) bool {
	return a.Name == b.Name && a.Usage == b.Usage && a.Info == b.Info
}

func c23Sorted(l []Command) bool {
	return v.Forall(0, len(l), func(i int) bool {
		return v.Forall(0, i, func(j int) bool { return l[j].Name <= l[i].Name })
	})
}

// Registering keeps all commands, adds the new one, and keeps the list sorted. Sorting is used by its contract.
//
//govc:norun
func C23_Register(name, usage, info string) {
	n := v.AnyInt(0, 1<<40)
	all := make([]Command, n+1)
	v.HavocSlice(all)
	commands = make([]Command, n)
	copy(commands, all[:n])
	v.Requires(c23Sorted(commands))
	all[n] = Command{Name: name, Usage: usage, Info: info}
	to := make([]int, n+1)   // where each command went
	from := make([]int, n+1) // where each command came from
	for i := range to {
		to[i], from[i] = i, i
	}
	sorts := 0
	perm := func(l []Command) {
		sorts++
		m := len(l)
		old := make([]Command, m)
		copy(old, l)
		v.HavocSlice(l)
		v.Assert("the whole list is sorted, once", m == n+1 && sorts == 1)
		v.HavocSlice(to)
		v.HavocSlice(from)
		v.Assume(v.Forall(0, m, func(i int) bool {
			return 0 <= to[i] && to[i] < m && from[to[i]] == i && c23Same(l[to[i]], old[i])
		}))
		v.Assume(v.Forall(0, m, func(i int) bool {
			return 0 <= from[i] && from[i] < m && to[from[i]] == i && c23Same(l[i], old[from[i]])
		}))
		v.Assume(c23Sorted(l))
	}
	v.External("sort.Sort", func(d sort.Interface) { perm([]Command(d.(commandsByName))) })
	v.External("sort.Stable", func(d sort.Interface) { perm([]Command(d.(commandsByName))) })
	v.External("sort.Slice", func(d interface{}, less func(i, j int) bool) { perm(d.([]Command)) })
	v.External("sort.SliceStable", func(d interface{}, less func(i, j int) bool) { perm(d.([]Command)) })
	v.Inv(func(i int) bool { return v.Forall(0, i, func(k int) bool { return to[k] == k && from[k] == k }) })
	RegisterCommand(all[n])
	v.Ensures("one command is added", len(commands) == n+1)
	v.Ensures("the list is sorted by name", c23Sorted(commands))
	v.Ensures("every command stays, once", v.Forall(0, n+1, func(i int) bool {
		return 0 <= to[i] && to[i] < n+1 && from[to[i]] == i && c23Same(commands[to[i]], all[i])
	}))
	v.Ensures("only registered commands are in the list", v.Forall(0, n+1, func(i int) bool {
		return 0 <= from[i] && from[i] < n+1 && to[from[i]] == i
	}))
}

// A name finds a command of that name exactly if there is one.
//
//govc:norun
func C23_ByName(name string, w int) {
	n := v.AnyInt(0, v.Bound(1<<40, 6))
	commands = make([]Command, n)
	v.HavocSlice(commands)
	v.Requires(c23Sorted(commands))
	v.Inv(func(i int) bool { return v.Forall(0, i, func(k int) bool { return commands[k].Name != name }) })
	v.Inv(func(i int, c *Command) bool {
		return c != nil || v.Forall(0, i, func(k int) bool { return commands[k].Name != name })
	})
	v.Inv(func(i int, c *Command) bool {
		return c == nil || c.Name == name && 0 < i && i <= n && c23Same(*c, commands[i-1])
	})
	v.External("sort.Search", func(n int, f func(int) bool) int {
		i := v.AnyInt(0, n)
		v.Assume(i == n || f(i))
		v.Assume(i == 0 || !f(i-1))
		return i
	})
	c := commandByName(name)
	if c == nil {
		v.Ensures("a registered name is found", v.Forall(0, n, func(k int) bool { return commands[k].Name != name }))
		return
	}
	found := *c
	v.Ensures("the command found has that name", found.Name == name)
	v.Ensures("the command found is registered", v.Exists(0, n, func(k int) bool { return c23Same(found, commands[k]) }))
}

// Registrations in any order (executed).
//
//govc:bounded
func C23_History(seed int) {
	saved := commands
	defer func() { commands = saved }()
	commands = make([]Command, 0)
	names := []string{"a", "b", "B", "ä", "", "ab", "queue", "clear"}
	count := make(map[string]int)
	for k := 0; k < v.AnyInt(0, 14); k++ {
		name, id := names[v.AnyInt(0, len(names)-1)], fmt.Sprint("command ", k)
		count[name]++
		RegisterCommand(Command{Name: name, Info: id, ExecFunc: func([]string) (string, bool) { return id, true }})
		v.Ensures("one command is added", len(commands) == k+1)
		v.Ensures("the list is sorted by name", c23Sorted(commands))
		seen := make(map[string]bool)
		for _, c := range commands {
			r, _ := c.Exec(nil)
			v.Ensures("commands keep what they do", r == c.Info)
			seen[r] = true
		}
		v.Ensures("every command stays, once", len(seen) == k+1)
		for _, n := range names {
			c := commandByName(n)
			v.Ensures("a name is found exactly if registered", (c != nil) == (count[n] > 0) && (c == nil || c.Name == n))
			if c != nil {
				r, _ := c.Exec(nil)
				v.Ensures("commands keep what they do", r == c.Info)
			}
		}
	}
}

// c23World is one session: the lines typed, what they ran and what was printed.
type c23World struct {
	line     string
	name     string   // the command the line names
	params   []string // and its parameters
	known    bool     // whether the command is registered
	result   string
	accepted bool
	usage    string

	entered bool // whether there is a line to run
	ran     int
	badRun  bool
	out     string
	ended   bool
}

type c23Net struct{ ssh.Session }

func (c23Net) RemoteAddr() net.Addr { return nil }
func (c23Net) User() string         { return "" }
func (c23Net) Close() error         { return nil }

// next is any line.
func (w *c23World) next() {
	w.line, w.name, w.known, w.result = v.Any[string](), v.Any[string](), v.Any[bool](), v.Any[string]()
	w.accepted, w.usage = v.Any[bool](), v.Any[string]()
	w.params = make([]string, v.AnyInt(0, 1<<40))
	v.HavocSlice(w.params)
	w.entered, w.ran, w.badRun, w.out = true, 0, false, ""
}

func (w *c23World) exec(args []string) (string, bool) {
	w.ran++
	v.Assert("a command gets exactly its parameters", len(args) == len(w.params) && v.Forall(0, len(args), func(i int) bool { return args[i] == w.params[i] }))
	return w.result, w.accepted
}

func (w *c23World) install() {
	v.External("github.com/LogicalOverflow/music-sync/ssh/parser.ParseCommand", func(line string) parser.ParsedCommand {
		v.Assert("the line entered is what is run", w.entered && line == w.line)
		return parser.ParsedCommand{Command: w.name, Parameters: w.params}
	})
	v.External(c23Pkg+"commandByName", func(name string) *Command {
		if name != w.name {
			return &Command{Name: name, ExecFunc: func([]string) (string, bool) {
				v.Assert("only the command named is run", false)
				return "", true
			}}
		}
		if !w.known {
			return nil
		}
		return &Command{Name: w.name, Usage: w.usage, ExecFunc: w.exec}
	})
	v.External("fmt.Fprint", func(to io.Writer, a ...interface{}) (int, error) {
		v.Assert("one text is printed", len(a) == 1)
		w.out = w.out + a[0].(string)
		return 0, nil
	})
	v.External("fmt.Fprintln", func(to io.Writer, a ...interface{}) (int, error) {
		v.Assert("one text is printed", len(a) == 1)
		w.out = w.out + a[0].(string) + "\n"
		return 0, nil
	})
	v.External("fmt.Fprintf", func(to io.Writer, format string, a ...interface{}) (int, error) {
		w.out = w.out + fmt.Sprintf(format, a...)
		return 0, nil
	})
}

// done tells whether the line entered last has been dealt with as it should be.
func (w *c23World) done() bool {
	if !w.entered {
		return w.ran == 0
	}
	if w.known {
		text := w.result
		if strings.HasSuffix(text, "\n") {
			text = text[:len(text)-1]
		}
		if !w.accepted {
			text = Command{Name: w.name, Usage: w.usage}.usage()
		}
		return w.ran == 1 && w.out == text+"\n"
	}
	switch w.name {
	case "clear":
		return w.ran == 0 && w.out == "\033[H"
	case "exit":
		return w.ran == 0
	}
	return w.ran == 0 && w.out == "Unknown command '"+w.name+"'. Type 'help' for help.\n"
}

func (w *c23World) isExit() bool { return w.entered && !w.known && w.name == "exit" }

// One line runs the command it names and prints its answer.
//
//govc:norun
func C23_Line() {
	w := &c23World{}
	w.install()
	w.next()
	s := &session{Session: c23Net{}, ex: &readline.Instance{}}
	go1 := s.handleLine(w.line)
	v.Ensures("a line does what it names, once, and the answer is printed", w.done())
	v.Ensures("exit ends the session and no other line does", go1 == !w.isExit())
}

// serve lets any lines be entered, until the session ends.
func (w *c23World) serve() {
	failed := errors.New("failed")
	v.External("(*github.com/chzyer/readline.Instance).Readline", func(i *readline.Instance) (string, error) {
		v.Assert("a line is dealt with before the next one is read", w.done())
		v.Assert("nothing is read after the end of the session", !w.ended && !w.isExit())
		w.next()
		switch v.AnyInt(0, 3) {
		case 0:
			return w.line, nil
		case 1:
			w.entered = false
			return w.line, readline.ErrInterrupt
		case 2:
			w.entered, w.ended = false, true
			return "", io.EOF
		}
		w.entered, w.ended = false, true
		return "", failed
	})
	v.Inv(func() bool { return w.done() })
	v.Inv(func() bool { return !w.ended && !w.isExit() })
}

// A whole session: every line entered is run, in order, until the session ends.
//
//govc:norun
func C23_Session() {
	w := &c23World{}
	w.install()
	w.serve()
	s := &session{Session: c23Net{}, ex: &readline.Instance{}}
	s.readLoop()
	v.Ensures("a session ends by exit or the end of the connection only", w.ended || w.isExit())
	v.Ensures("a line does what it names, once, and the answer is printed", w.done())
}

// c23Remote is a connection with a terminal of any size, or without one.
type c23Remote struct {
	ssh.Session
	window   ssh.Window
	terminal bool
	closed   int
	told     int
}

func (c *c23Remote) RemoteAddr() net.Addr        { return nil }
func (c *c23Remote) User() string                { return "" }
func (c *c23Remote) Stderr() io.ReadWriter       { return nil }
func (c *c23Remote) Write(b []byte) (int, error) { return len(b), nil }
func (c *c23Remote) Close() error                { c.closed++; return nil }
func (c *c23Remote) Pty() (ssh.Pty, <-chan ssh.Window, bool) {
	sizes := make(chan ssh.Window)
	close(sizes)
	return ssh.Pty{Window: c.window}, sizes, c.terminal
}

// Every connection with a terminal, of whatever size, gets a session, and every connection is closed in the end.
//
//govc:norun
func C23_Connection(width, height int, terminal, fails bool) {
	w := &c23World{}
	w.install()
	w.serve()
	made, left := 0, 0
	v.External("github.com/chzyer/readline.NewEx", func(cfg *readline.Config) (*readline.Instance, error) {
		if fails {
			return nil, errors.New("no line editor")
		}
		made++
		return &readline.Instance{Config: cfg}, nil
	})
	v.External("(*github.com/chzyer/readline.Instance).Clean", func(*readline.Instance) {})
	v.External("(*github.com/chzyer/readline.Instance).Close", func(*readline.Instance) error { left++; return nil })
	c := &c23Remote{window: ssh.Window{Width: width, Height: height}, terminal: terminal}
	sessionHandler(c)
	v.Ensures("a session is held exactly on a terminal", (made == 1) == (terminal && !fails) && made <= 1)
	v.Ensures("a session ends by exit or the end of the connection only", made == 0 || w.ended || w.isExit())
	v.Ensures("a line does what it names, once, and the answer is printed", made == 0 || w.done())
	v.Ensures("the connection is closed", c.closed > 0 && left == made)
}

// c23Typed is a terminal on which a text is typed.
type c23Typed struct {
	ssh.Session
	in  io.Reader
	out *c23Out
}

type c23Out struct {
	mu   chan bool
	text []byte
}

func (o *c23Out) Write(b []byte) (int, error) {
	o.mu <- true
	o.text = append(o.text, b...)
	<-o.mu
	return len(b), nil
}

func (c23Typed) RemoteAddr() net.Addr { return nil }
func (c23Typed) User() string         { return "" }
func (c23Typed) Close() error         { return nil }

// Sessions as typed on a terminal (executed).
//
//govc:bounded
func C23_Run(seed int) {
	saved := commands
	defer func() { commands = saved }()
	commands = make([]Command, 0)
	var ran []string
	names := []string{"a", "aa", "b", "exit2", "run"}
	for _, name := range names {
		if v.AnyInt(0, 3) == 0 {
			continue
		}
		name := name
		RegisterCommand(Command{Name: name, Usage: "arguments of " + name, ExecFunc: func(args []string) (string, bool) {
			ran = append(ran, name+fmt.Sprintf("%q", args))
			return "answer of " + name + "\n", len(args) < 2
		}})
	}
	typed, over := "", false
	var want, answers []string
	for k := v.AnyInt(0, 5); k > 0; k-- {
		name := append(names, "", "clear", "exit", "Exit", "ru", "runs")[v.AnyInt(0, len(names)+5)]
		line, params := name, []string{}
		for i := v.AnyInt(0, 2); i > 0; i-- {
			p := []string{"x", "1", "-3", "exit", "-", "--", "Ä", "*"}[v.AnyInt(0, 7)]
			params = append(params, p)
			line += " " + p
		}
		if v.AnyInt(0, 3) == 0 {
			typed += line + "\x03" // interrupted
			continue
		}
		typed += line + "\n"
		if over {
			continue
		}
		c := false
		for _, r := range commands {
			c = c || r.Name == name
		}
		switch {
		case c:
			want = append(want, name+fmt.Sprintf("%q", params))
			if len(params) < 2 {
				answers = append(answers, "answer of "+name)
			} else {
				answers = append(answers, "Usage: "+name+" arguments of "+name)
			}
		case name == "exit":
			over = true
		case name != "clear":
			answers = append(answers, "Unknown command '"+name+"'")
		}
	}
	out := &c23Out{mu: make(chan bool, 1)}
	nothing := func() error { return nil }
	cfg := &readline.Config{Prompt: "> ", Stdin: readline.NewCancelableStdin(strings.NewReader(typed)), Stdout: out, Stderr: out, StdinWriter: out, ForceUseInteractive: true,
		FuncIsTerminal: func() bool { return true }, FuncMakeRaw: nothing, FuncExitRaw: nothing, FuncGetWidth: func() int { return 80 }, FuncOnWidthChanged: func(func()) {}}
	ex, err := readline.NewEx(cfg)
	if err != nil {
		return
	}
	s := &session{Session: c23Typed{}, ex: ex}
	s.readLoop()
	ex.Close()
	v.Ensures("the lines entered are run, in order, and no others", fmt.Sprint(ran) == fmt.Sprint(want))
	out.mu <- true
	text := string(out.text)
	<-out.mu
	for _, a := range answers {
		i := strings.Index(text, a)
		v.Ensures("the answer is printed", i >= 0)
		text = text[i+len(a):]
	}
	v.Ensures("an answer is printed once", !strings.Contains(text, "nswer"))
}
