//go:build verif && go1.21

package parser

import (
	"fmt"
	"github.com/LogicalOverflow/music-sync/ssh/parser/shell_parser"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/antlr/antlr4/runtime/Go/antlr"
	"reflect"
	"strings"
)

const c24Antlr = "github.com/antlr/antlr4/runtime/Go/antlr."
const c24Shell = "github.com/LogicalOverflow/music-sync/ssh/parser/shell_parser."

// c24Char is any character of a word as the grammar sees it: its text in the line and what it stands for.
func c24Char() (text, stands string) {
	switch v.AnyInt(0, 3) {
	case 0:
		return "\\ ", " "
	case 1:
		return "\\\\", "\\"
	case 2:
		return "\\", "\\" // followed by neither
	}
	text = v.Any[string]()
	v.Assume(len(text) >= 1 && len(text) <= 4 && text[0] != '\\' && text[0] != ' ')
	return text, text
}

// The words of a line are what its characters stand for: the first is the command, the others that are not empty are
// the parameters. The generated lexer and parser stand for the tree of the grammar in Shell.g4, walked in order.
//
//govc:norun
func C24_Words(line string) {
	v.External(c24Antlr+"NewInputStream", func(data string) *antlr.InputStream {
		v.Assert("the whole line is read", data == line)
		return &antlr.InputStream{}
	})
	v.External(c24Shell+"NewShellLexer", func(input antlr.CharStream) *shell_parser.ShellLexer { return &shell_parser.ShellLexer{} })
	v.External("(*"+c24Antlr+"BaseLexer).SetChannel", func(l *antlr.BaseLexer, c int) {})
	v.External(c24Antlr+"NewCommonTokenStream", func(l antlr.Lexer, c int) *antlr.CommonTokenStream { return &antlr.CommonTokenStream{} })
	v.External(c24Shell+"NewShellParser", func(input antlr.TokenStream) *shell_parser.ShellParser { return &shell_parser.ShellParser{} })
	v.External("(*"+c24Shell+"ShellParser).Line", func(p *shell_parser.ShellParser) shell_parser.ILineContext { return &shell_parser.LineContext{} })
	v.External("reflect.TypeOf", func(x interface{}) reflect.Type { return nil })

	cc := &shell_parser.CharacterContext{BaseParserRuleContext: &antlr.BaseParserRuleContext{}}
	rc := &shell_parser.RawStringContext{BaseParserRuleContext: &antlr.BaseParserRuleContext{}}
	sc := &shell_parser.CommandStringContext{BaseParserRuleContext: &antlr.BaseParserRuleContext{}}
	text, start := "", 0
	v.External("(*"+c24Antlr+"BaseParserRuleContext).GetText", func(p *antlr.BaseParserRuleContext) string { return text })
	v.External("(*"+c24Antlr+"BaseParserRuleContext).GetChildOfType", func(p *antlr.BaseParserRuleContext, i int, t reflect.Type) antlr.RuleContext {
		v.Assert("the word is looked for", i == 0)
		return sc
	})
	v.External("(*"+c24Antlr+"BaseParserRuleContext).GetSourceInterval", func(p *antlr.BaseParserRuleContext) *antlr.Interval {
		return &antlr.Interval{Start: start, Stop: start}
	})

	want := ParsedCommand{}
	word := ""
	m := v.AnyInt(0, 1<<40)
	v.External("(*"+c24Antlr+"ParseTreeWalker).Walk", func(w *antlr.ParseTreeWalker, listener antlr.ParseTreeListener, t antlr.Tree) {
		l := listener.(*shellListener)
		walkWord := func() {
			start++
			sc = &shell_parser.CommandStringContext{BaseParserRuleContext: &antlr.BaseParserRuleContext{}}
			word = ""
			l.EnterCommandString(sc)
			l.EnterRawString(rc)
			v.Inv(func() bool { return l.currentString == word })
			n := v.AnyInt(0, 1<<40)
			for j := 0; j < n; j++ {
				stands := ""
				text, stands = c24Char()
				l.EnterCharacter(cc)
				l.ExitCharacter(cc)
				word += stands
			}
			l.ExitRawString(rc)
			l.ExitCommandString(sc)
		}
		l.EnterLine(&shell_parser.LineContext{})
		c := &shell_parser.CommandContext{BaseParserRuleContext: &antlr.BaseParserRuleContext{}}
		l.EnterCommand(c)
		walkWord()
		l.ExitCommand(c)
		want.Command = word
		v.Inv(func(i int) bool {
			return len(l.cmd.Parameters) == len(want.Parameters) && len(want.Parameters) <= i && l.cmd.Command == want.Command &&
				v.Forall(0, len(want.Parameters), func(k int) bool { return l.cmd.Parameters[k] == want.Parameters[k] })
		})
		for i := 0; i < m; i++ {
			p := &shell_parser.ParameterContext{BaseParserRuleContext: &antlr.BaseParserRuleContext{}}
			l.EnterParameter(p)
			walkWord()
			l.ExitParameter(p)
			if word != "" {
				want.Parameters = append(want.Parameters, word)
			}
		}
		l.ExitLine(&shell_parser.LineContext{})
	})
	cmd := ParseCommand(line)
	v.Ensures("the first word is the command", cmd.Command == want.Command)
	v.Ensures("there are as many parameters as further words", len(cmd.Parameters) == len(want.Parameters))
	v.Ensures("the further words are the parameters, in order", v.Forall(0, len(want.Parameters), func(k int) bool { return cmd.Parameters[k] == want.Parameters[k] }))
}

// An escaped word reads back as the word: reading it character by character gives the characters of the word, meets no
// separator, and ends at its end.
//
//govc:norun
func C24_Escape(word string) {
	off := func(k int) int64 { return int64(k) } // where character k of the word ended up
	e := word
	// escape replaces the characters a and b by two each
	escape := func(s string, a, b byte, as, bs string) string {
		v.Assert("the word is escaped", s == e)
		cur := v.Rec(int64(0), func(k int, prev int64) int64 {
			if s[k] == a || s[k] == b {
				return prev + 2
			}
			return prev + 1
		})
		e = v.Any[string]()
		v.Assume(int64(len(e)) == cur(len(s)))
		at := func(i int64) byte {
			if i < 0 || i >= int64(len(e)) {
				return 0
			}
			return e[i]
		}
		v.Assume(v.Forall(0, len(s), func(k int) bool {
			o := cur(k)
			if s[k] == a {
				return 0 <= o && o+2 <= int64(len(e)) && at(o) == as[0] && at(o+1) == as[1]
			}
			if s[k] == b {
				return 0 <= o && o+2 <= int64(len(e)) && at(o) == bs[0] && at(o+1) == bs[1]
			}
			return 0 <= o && o+1 <= int64(len(e)) && at(o) == s[k]
		}))
		before := off
		off = func(k int) int64 { return cur(int(before(k))) }
		return e
	}
	var pairs []string
	v.External("strings.NewReplacer", func(oldnew ...string) *strings.Replacer {
		pairs = oldnew
		return &strings.Replacer{}
	})
	v.External("(*strings.Replacer).Replace", func(r *strings.Replacer, s string) string {
		v.Assert("two characters are escaped by one more each", len(pairs) == 4 && len(pairs[0]) == 1 && len(pairs[1]) == 2 && len(pairs[2]) == 1 && len(pairs[3]) == 2)
		return escape(s, pairs[0][0], pairs[2][0], pairs[1], pairs[3])
	})
	v.External("strings.Replace", func(s, old, new string, n int) string {
		v.Assert("every such character is escaped by one more", len(old) == 1 && len(new) == 2 && n < 0)
		return escape(s, old[0], old[0], new, new)
	})
	v.External("strings.ReplaceAll", func(s, old, new string) string {
		v.Assert("every such character is escaped by one more", len(old) == 1 && len(new) == 2)
		return escape(s, old[0], old[0], new, new)
	})
	ParsedCommand{Command: word}.Unparse()
	i := int64(0)
	k := 0
	v.Inv(func(k int) bool { return 0 <= k && k <= len(word) && i == off(k) && i <= int64(len(e)) })
	for k < len(word) {
		v.Assert("the word is as long as it should be", 0 <= i && i < int64(len(e)))
		c, next := e[i], byte(' ')
		if i+1 < int64(len(e)) {
			next = e[i+1]
		}
		if c == '\\' && (next == ' ' || next == '\\') {
			c = next
			i += 2
		} else {
			v.Assert("a word holds no separator", c != ' ')
			i++
		}
		v.Assert("every character reads back", c == word[k])
		k++
	}
	v.Ensures("the word ends where it should", i == int64(len(e)))
}

// A command is printed as its escaped words, each followed by a separator. words and escaped are what is printed: the
// command and its parameters.
//
//govc:norun
func C24_Print() {
	n := v.AnyInt(0, 1<<40)
	words := make([]string, n+1)
	mid := make([]string, n+1)
	escaped := make([]string, n+1)
	v.HavocSlice(words)
	v.HavocSlice(mid)
	v.HavocSlice(escaped)
	v.Assume(v.Forall(0, n+1, func(i int) bool { return words[i] != "" }))
	calls := 0
	v.External("strings.NewReplacer", func(oldnew ...string) *strings.Replacer {
		v.Assert("spaces and backslashes are escaped by a backslash", len(oldnew) == 4 &&
			(oldnew[0] == "\\" && oldnew[1] == "\\\\" && oldnew[2] == " " && oldnew[3] == "\\ " ||
				oldnew[0] == " " && oldnew[1] == "\\ " && oldnew[2] == "\\" && oldnew[3] == "\\\\"))
		return &strings.Replacer{}
	})
	v.External("(*strings.Replacer).Replace", func(r *strings.Replacer, s string) string {
		v.Assert("the words are escaped in order", calls <= n && s == words[calls])
		calls++
		return escaped[calls-1]
	})
	replace := func(s, old, new string) string {
		if old == "\\" && new == "\\\\" {
			v.Assert("the words are escaped in order", calls <= n && s == words[calls])
			return mid[calls]
		}
		v.Assert("spaces are escaped after backslashes", old == " " && new == "\\ " && calls <= n && s == mid[calls])
		calls++
		return escaped[calls-1]
	}
	v.External("strings.Replace", func(s, old, new string, n int) string {
		v.Assert("every such character is escaped", n < 0)
		return replace(s, old, new)
	})
	v.External("strings.ReplaceAll", func(s, old, new string) string { return replace(s, old, new) })
	line := v.Rec(escaped[0]+" ", func(k int, prev string) string { return prev + escaped[k+1] + " " })
	got := ""
	cmd := ParsedCommand{Command: words[0], Parameters: words[1:]}
	v.Inv(func(l string) bool { return 1 <= calls && calls <= n+1 && l == line(calls-1) })
	v.Inv(func(i int) bool { return calls == i+1 }) // counting words done
	v.Inv(func(i int) bool { return calls == i+2 }) // or holding the index of the last one
	got = cmd.Unparse()
	v.Ensures("the line is the escaped words, each followed by a separator", got == line(n) && calls == n+1)
}

// c24Split is what a line means: words between unescaped spaces, the empty ones not counted.
func c24Split(line []rune) (command string, params []string) {
	var word []rune
	first := true
	end := func() {
		if first {
			command = string(word)
		} else if len(word) > 0 {
			params = append(params, string(word))
		}
		first, word = false, nil
	}
	for i := 0; i < len(line); i++ {
		if line[i] == '\\' && i+1 < len(line) && (line[i+1] == ' ' || line[i+1] == '\\') {
			i++
			word = append(word, line[i])
		} else if line[i] == ' ' {
			end()
		} else {
			word = append(word, line[i])
		}
	}
	end()
	return
}

// Lines and commands through the generated lexer and parser (executed).
//
//govc:bounded
func C24_Run(seed int) {
	alphabet := []rune("aab  \\\\\\\"'äß語😀-\u00a0\t.")
	any := func(max int) []rune {
		l := make([]rune, v.AnyInt(0, max))
		for i := range l {
			l[i] = alphabet[v.AnyInt(0, len(alphabet)-1)]
		}
		return l
	}
	line := any(14)
	command, params := c24Split(line)
	cmd := ParseCommand(string(line))
	v.Ensures("the first word is the command", cmd.Command == command)
	v.Ensures("the further words are the parameters, in order", fmt.Sprintf("%q", cmd.Parameters) == fmt.Sprintf("%q", params))
	printed := ParsedCommand{Command: "c" + string(any(4))}
	for k := v.AnyInt(0, 3); k > 0; k-- {
		if p := any(6); v.AnyInt(0, 5) == 0 {
			printed.Parameters = append(printed.Parameters, printed.Command)
		} else if len(p) > 0 {
			printed.Parameters = append(printed.Parameters, string(p))
		}
	}
	back := ParseCommand(printed.Unparse())
	v.Ensures("a printed command parses back", back.Command == printed.Command && fmt.Sprintf("%q", back.Parameters) == fmt.Sprintf("%q", printed.Parameters))
}
