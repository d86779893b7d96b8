//go:build verif && go1.21

package ssh

import (
	"fmt"
	"github.com/LogicalOverflow/music-sync/ssh/parser"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"strconv"
	"strings"
)

const c25Parser = "github.com/LogicalOverflow/music-sync/ssh/parser."

// c25Spelled is the text of a printed line whose last word is the given one and whose other words are those typed: any
// text that depends on that word only. What printed lines look like is stated and proved for C24.
func c25Spelled(last string) string { return fmt.Sprintf("%q", last) }

// c25Line is any line whose last word is spelled with the given end.
type c25Line struct {
	line      []rune
	separated bool // the line ends in a separator
	escaping  bool // it ends in a backslash that is not escaped itself
	before    int  // backslashes before the last character
	last      int  // backslashes at the end
}

func c25NewLine() *c25Line {
	n := v.AnyInt(0, 1<<40)
	l := &c25Line{line: make([]rune, n)}
	v.HavocSlice(l.line)
	c25Count := func(n int) int {
		k := v.AnyInt(0, n)
		v.Assume(v.Forall(0, k, func(i int) bool { return l.line[n-1-i] == '\\' }))
		v.Assume(v.Forall(k, k+1, func(i int) bool { return i == n || l.line[n-1-i] != '\\' }))
		return k
	}
	l.last = c25Count(n)
	l.escaping = l.last%2 == 1
	if n > 0 {
		l.before = c25Count(n - 1)
		l.separated = l.line[n-1] == ' ' && l.before%2 == 0
	}
	// counting backslashes from the end
	v.Inv(func(k int) bool { return 0 <= k && (k <= l.last || k <= l.before) })
	v.Inv(func(k int) bool { return 0 <= k && k <= l.last })
	v.Inv(func(k int) bool { return 0 <= k && k <= l.before })
	v.Inv(func(i int) bool { return n-1-l.last <= i && i < n })
	v.Inv(func(i int) bool { return n-l.last <= i && i <= n })
	v.Inv(func(i int, e bool) bool { return e == ((n-1-i)%2 == 1) })
	v.Inv(func(i int, e bool) bool { return e == ((n-i)%2 == 1) })
	v.Inv(func(k int, e bool) bool { return e == (k%2 == 1) })
	v.Inv(func(i int, k int) bool { return k == n-1-i })
	v.Inv(func(i int, k int) bool { return k == n-i })
	return l
}

// c25Is states that a suggestion is the end of a printed line from position from on, continuing an escape if there is one.
func c25Is(s, printed []rune, from int, escaping bool) bool {
	at := 0
	if escaping {
		at = 1
		if len(s) == 0 || s[0] != '\\' {
			return false
		}
	}
	return len(s) == at+len(printed)-from && v.Forall(0, len(printed)-from, func(i int) bool { return s[at+i] == printed[from+i] })
}

type c25Name struct{ name string }

const c25Sac = "(*github.com/LogicalOverflow/music-sync/ssh.sshAutoCompleter)."

// Completing a command offers exactly the registered commands, clear and exit that start with what is typed, in order:
// w is any one of them.
//
//govc:norun
//govc:looptimeout 20
func C25_Commands(typed string, w int) {
	n := v.AnyInt(0, 1<<40)
	commands = make([]Command, n)
	v.HavocSlice(commands)
	names := make([]c25Name, n+2)
	v.HavocSlice(names)
	names[0].name, names[1].name = "clear", "exit"
	v.Assume(v.Forall(2, n+2, func(k int) bool { return names[k].name == commands[k-2].Name }))
	v.Requires(0 <= w && w < n+2)
	end := v.AnyInt(0, 1<<40)
	v.External("("+c25Parser+"ParsedCommand).Unparse", func(c parser.ParsedCommand) string {
		v.Assert("the line printed is a command", len(c.Parameters) == 0)
		s := c25Spelled(c.Command)
		v.Assume(v.Or(!strings.HasPrefix(c.Command, typed), len([]rune(s)) > end))
		return s
	})
	printed := []rune(c25Spelled(names[w].name))
	match := strings.HasPrefix(names[w].name, typed)
	v.Assume(v.Or(!match, len(printed) > end))
	count := v.Rec(int64(0), func(k int, prev int64) int64 {
		if strings.HasPrefix(names[k].name, typed) {
			return prev + 1
		}
		return prev
	})
	at := int(count(w))
	v.Inv(func(cs []string) bool { return cs[0] == "clear" && cs[1] == "exit" })
	v.Inv(func(i int, cs []string) bool { return len(cs) == i+3 })
	v.Inv(func(i int, cs []string) bool {
		return v.Forall(0, i+3, func(k int) bool { return k >= len(cs) || cs[k] == names[k].name })
	})
	v.Inv(func(i int, r [][]rune) bool { return int64(len(r)) == count(i+1) && len(r) <= i+1 })
	v.Inv(func(i int, r [][]rune) bool { return i < w || 0 <= at && (!match || at < len(r)) })
	v.Inv(func(i int, r [][]rune) bool {
		return i < w || !match || 0 <= at && at < len(r) && len(r[at]) == len(printed)-end
	})
	v.Inv(func(i int, r [][]rune) bool {
		return i < w || !match || 0 <= at && at < len(r) && c25Is(r[at], printed, end, false)
	})
	got := (&sshAutoCompleter{}).commandsWithPrefix(parser.ParsedCommand{Command: typed, Parameters: []string{}}, end, nil)
	v.Ensures("as many commands are suggested as start with what is typed", int64(len(got)) == count(n+2))
	if match {
		v.Ensures("every command that starts with what is typed is suggested", 0 <= at && at < len(got))
		v.Ensures("a suggestion completes the command typed", c25Is(got[at], printed, end, false))
	}
}

// Looking up a command finds one exactly if there is one of that name.
//
//govc:norun
func C25_ByName(name string, w int) {
	n := v.AnyInt(0, 1<<40)
	commands = make([]Command, n)
	v.HavocSlice(commands)
	v.Requires(0 <= w && w < n)
	v.Inv(func(i int) bool { return i < w || commands[w].Name != name })
	v.Inv(func(i int, c *Command) bool { return i <= w || commands[w].Name != name || c != nil })
	v.Inv(func(i int, c *Command) bool {
		return c == nil || c.Name == name && 0 < i && i <= n && commands[i-1].Name == name
	})
	c := commandByName(name)
	v.Ensures("a registered command is found", v.Or(commands[w].Name != name, c != nil))
	if c != nil {
		v.Ensures("the command found has that name", c.Name == name)
		v.Ensures("the command found is a registered one", v.Exists(0, n, func(i int) bool { return commands[i].Name == name }))
	}
}

// Completing a parameter offers exactly the options of the command that start with what is typed, in order: w is any one.
//
//govc:norun
//govc:looptimeout 20
func C25_Args(command, arg string, w int) {
	m := v.AnyInt(1, 1<<40)
	params := make([]string, m)
	v.HavocSlice(params)
	params[m-1] = arg
	type typed struct{ word string }
	words := make([]typed, m)
	v.HavocSlice(words)
	v.Assume(v.Forall(0, m, func(k int) bool { return words[k].word == params[k] }))
	n := v.AnyInt(0, 1<<40)
	names := make([]c25Name, n)
	v.HavocSlice(names)
	options := make([]string, n)
	v.HavocSlice(options)
	v.Assume(v.Forall(0, n, func(k int) bool { return names[k].name == options[k] }))
	v.Requires(0 <= w && w < n)
	asked := 0
	known := v.AnyBool()
	v.External("github.com/LogicalOverflow/music-sync/ssh.commandByName", func(name string) *Command {
		v.Assert("the command typed is looked up", name == command)
		if !known {
			return nil
		}
		return &Command{Name: command, OptionsFunc: func(prefix string, i int) []string {
			v.Assert("the options asked for are those of the last parameter", prefix == arg && i == m-1)
			asked++
			return options
		}}
	})
	end := v.AnyInt(0, 1<<40)
	v.External("("+c25Parser+"ParsedCommand).Unparse", func(c parser.ParsedCommand) string {
		v.Assert("the line printed is the same command", c.Command == command && len(c.Parameters) == m)
		v.Assert("the line printed has the same other parameters", v.Forall(0, m-1, func(k int) bool { return c.Parameters[k] == words[k].word }))
		s := c25Spelled(c.Parameters[m-1])
		v.Assume(v.Or(!strings.HasPrefix(c.Parameters[m-1], arg), len([]rune(s)) > end))
		return s
	})
	printed := []rune(c25Spelled(names[w].name))
	match := strings.HasPrefix(names[w].name, arg)
	v.Assume(v.Or(!match, len(printed) > end))
	count := v.Rec(int64(0), func(k int, prev int64) int64 {
		if strings.HasPrefix(names[k].name, arg) {
			return prev + 1
		}
		return prev
	})
	at := int(count(w))
	// filtering
	v.Inv(func() bool { return v.Forall(0, n, func(k int) bool { return options[k] == names[k].name }) })
	v.Inv(func(i int, r []string) bool { return int64(len(r)) == count(i+1) && len(r) <= i+1 })
	v.Inv(func(i int, r []string) bool {
		return i < w || 0 <= at && (!match || at < len(r) && r[at] == names[w].name)
	})
	v.Inv(func(r []string) bool {
		return v.Forall(0, len(r), func(k int) bool { return strings.HasPrefix(r[k], arg) })
	})
	v.Inv(func(i int, r []string) bool { return 0 <= i && i <= n && int64(len(r)) == count(i) && len(r) <= i })
	v.Inv(func(i int, r []string) bool {
		return i <= w || 0 <= at && (!match || at < len(r) && r[at] == names[w].name)
	})
	// both at once
	v.Inv(func(i int, r [][]rune) bool { return int64(len(r)) == count(i+1) && len(r) <= i+1 })
	v.Inv(func(i int, r [][]rune) bool {
		return i < w || !match || 0 <= at && at < len(r) && len(r[at]) == len(printed)-end
	})
	v.Inv(func(i int, r [][]rune) bool {
		return i < w || !match || 0 <= at && at < len(r) && c25Is(r[at], printed, end, false)
	})
	v.Inv(func(i int, r [][]rune) bool { return 0 <= i && i <= n && int64(len(r)) == count(i) && len(r) <= i })
	v.Inv(func(i int, r [][]rune) bool {
		return i <= w || !match || 0 <= at && at < len(r) && len(r[at]) == len(printed)-end
	})
	v.Inv(func(i int, r [][]rune) bool {
		return i <= w || !match || 0 <= at && at < len(r) && c25Is(r[at], printed, end, false)
	})
	// printing
	v.Inv(func(k int, r [][]rune) bool { return len(r) == k+1 })
	v.Inv(func(k int, r [][]rune) bool {
		return k < at || !match || 0 <= at && at < len(r) && len(r[at]) == len(printed)-end
	})
	v.Inv(func(k int, r [][]rune) bool {
		return k < at || !match || 0 <= at && at < len(r) && c25Is(r[at], printed, end, false)
	})
	v.Inv(func() bool { return v.Forall(0, m-1, func(k int) bool { return params[k] == words[k].word }) })
	got := (&sshAutoCompleter{}).commandArgOptionsWithPrefix(parser.ParsedCommand{Command: command, Parameters: params}, end, nil)
	if !known {
		v.Ensures("an unknown command has no options", len(got) == 0)
		return
	}
	v.Ensures("as many options are suggested as start with what is typed", int64(len(got)) == count(n))
	if match {
		v.Ensures("every option that starts with what is typed is suggested", 0 <= at && at < len(got))
		v.Ensures("a suggestion completes the parameter typed", c25Is(got[at], printed, end, false))
	}
}

// Whether a line ends in an escape: it ends in an odd number of backslashes.
//
//govc:norun
func C25_Escaping() {
	l := c25NewLine()
	v.Ensures("an odd number of backslashes at the end escapes what follows", isEscaping(l.line) == l.escaping)
	v.Cover("a line ending in an escape")
}

// A line is completed at its end: the command while no parameter has been started, the last parameter otherwise.
//
//govc:norun
//govc:looptimeout 5
func C25_Do(w int) {
	l := c25NewLine()
	n := v.AnyInt(0, 1<<40)
	params := make([]string, n, n+v.AnyInt(0, 4))
	v.HavocSlice(params)
	command := v.Any[string]()
	v.External(c25Parser+"ParseCommand", func(line string) parser.ParsedCommand {
		v.Assert("the line typed is parsed", line == string(l.line))
		return parser.ParsedCommand{Command: command, Parameters: params}
	})
	all := n
	if l.separated {
		all = n + 1
	}
	typed := func(c parser.ParsedCommand) {
		v.Assert("the command completed is the one typed", c.Command == command && len(c.Parameters) == all)
		v.Assert("the parameters are those typed", v.Forall(0, n, func(k int) bool { return c.Parameters[k] == params[k] }))
		v.Assert("a separator starts a new parameter", !l.separated || c.Parameters[all-1] == "")
	}
	v.External("github.com/LogicalOverflow/music-sync/ssh.isEscaping", func(line []rune) bool {
		if len(line) == len(l.line) {
			return l.escaping
		}
		v.Assert("the line typed, or all but its last character, is checked for an escape at its end", len(line) == len(l.line)-1)
		return l.before%2 == 1
	})
	printed := v.Any[string]()
	v.Assume(len(printed) > 0)
	v.External("("+c25Parser+"ParsedCommand).Unparse", func(c parser.ParsedCommand) string {
		typed(c)
		return printed
	})
	suggestions := make([][]rune, v.AnyInt(0, 1<<40))
	v.HavocSlice(suggestions)
	v.Requires(0 <= w && w < len(suggestions))
	words := make([]rune, len(suggestions[w]))
	v.HavocSlice(words)
	v.Assume(v.Forall(0, len(words), func(k int) bool { return words[k] == suggestions[w][k] }))
	of := 0
	complete := func(what int) func(_ *sshAutoCompleter, c parser.ParsedCommand, pos int, result [][]rune) [][]rune {
		return func(_ *sshAutoCompleter, c parser.ParsedCommand, pos int, result [][]rune) [][]rune {
			typed(c)
			v.Assert("the completion starts where the typed words end", pos == len([]rune(printed))-1)
			v.Assert("nothing else is suggested", len(result) == 0)
			of += what
			return suggestions
		}
	}
	v.External(c25Sac+"commandsWithPrefix", complete(1))
	v.External(c25Sac+"commandArgOptionsWithPrefix", complete(2))
	v.Inv(func(i int, got [][]rune) bool { return len(got) == len(suggestions) })
	v.Inv(func(i int, got [][]rune) bool { return i < w || c25Is(got[w], words, 0, true) })
	v.Inv(func(i int, got [][]rune) bool { return i >= w || c25Is(got[w], words, 0, false) })
	got, length := (&sshAutoCompleter{}).Do(l.line, len(l.line))
	v.Ensures("the command is completed while no parameter is started, else the last parameter", of == 1 && all == 0 || of == 2 && all > 0)
	v.Ensures("the whole line is kept", length == len(l.line))
	v.Ensures("all suggestions are offered", len(got) == len(suggestions))
	v.Ensures("an escape at the end is continued", c25Is(got[w], words, 0, l.escaping))
}

// The same for any line, with the real parser: what the suggestions add to the line parses to what they stand for.
//
//govc:bounded
func C25_Run(seed int) {
	alphabet := []rune("aabA  \\\\\"'äß語-")
	word := func(min, max int) []rune {
		l := make([]rune, v.AnyInt(min, max))
		for i := range l {
			l[i] = alphabet[v.AnyInt(0, len(alphabet)-1)]
		}
		return l
	}
	wordsOf := func() []string {
		ws := make([]string, v.AnyInt(0, 5))
		for i := range ws {
			ws[i] = string(word(1, 4)) // none is empty: an empty word cannot be typed
		}
		return ws
	}
	commands = nil
	options := map[string][]string{}
	for i, name := range wordsOf() {
		if _, ok := options[name]; ok || name == "clear" || name == "exit" {
			continue
		}
		os := wordsOf()
		if v.AnyInt(0, 19) == 0 { // a large directory
			for i := v.AnyInt(60, 300); i > 0; i-- {
				os = append(os, "a"+strconv.Itoa(i))
			}
		}
		options[name] = os
		c := Command{Name: name}
		if i%4 < 3 {
			c.OptionsFunc = func(string, int) []string { return append([]string{}, os...) }
		} else {
			options[name] = nil
		}
		commands = append(commands, c)
	}
	line := word(0, 8)
	if n := len(commands); n > 0 && v.AnyBool() { // a line that has something to complete
		c := commands[v.AnyInt(0, n-1)]
		l := []rune(parser.ParsedCommand{Command: c.Name}.Unparse())
		if os := options[c.Name]; len(os) > 0 && v.AnyInt(0, 2) > 0 {
			o := []rune(parser.ParsedCommand{Command: os[v.AnyInt(0, len(os)-1)]}.Unparse())
			if v.AnyBool() {
				l = append(l, ' ')
			}
			l = append(l, o[:v.AnyInt(0, len(o)-1)]...)
		} else {
			l = l[:v.AnyInt(0, len(l)-1)]
		}
		line = l
	}
	n := len(line)
	back := 0
	for back < n-1 && line[n-2-back] == '\\' {
		back++
	}
	separated := n > 0 && line[n-1] == ' ' && back%2 == 0
	cmd := parser.ParseCommand(string(line))
	typed := append([]string{cmd.Command}, cmd.Parameters...)
	if separated {
		typed = append(typed, "")
	}
	last := len(typed) - 1
	var expected []string
	if last == 0 {
		for _, c := range append([]Command{{Name: "clear"}, {Name: "exit"}}, commands...) {
			if strings.HasPrefix(c.Name, cmd.Command) {
				expected = append(expected, fmt.Sprintf("%q", []string{c.Name}))
			}
		}
	} else {
		for _, o := range options[cmd.Command] {
			if strings.HasPrefix(o, typed[last]) {
				expected = append(expected, fmt.Sprintf("%q", append(append([]string{}, typed[:last]...), o)))
			}
		}
	}
	got, length := (&sshAutoCompleter{}).Do(append([]rune{}, line...), n)
	v.Ensures("the line is kept", length == n)
	v.Ensures("nothing is left out and nothing else is suggested", len(got) == len(expected))
	for i, s := range got {
		c := parser.ParseCommand(string(line) + string(s))
		v.Ensures("a suggestion completes the line to what it stands for", fmt.Sprintf("%q", append([]string{c.Command}, c.Parameters...)) == expected[i])
	}
	if len(got) > 0 {
		v.Cover("something suggested")
	}
}
