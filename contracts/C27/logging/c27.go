//go:build verif && go1.21

package log

import (
	"bytes"
	"fmt"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"io"
	"strings"
)

// c27Cutoffs sets arbitrary cutoffs and returns the one that counts for the logger.
func c27Cutoffs(name string) Level {
	DefaultCutoffLevel = v.Any[Level]()
	CutoffLevels = v.Any[map[string]Level]()
	if cutoff, ok := CutoffLevels[name]; ok {
		return cutoff
	}
	return DefaultCutoffLevel
}

type c27Writer struct{ id int }

func (w *c27Writer) Write(p []byte) (int, error) { return len(p), nil }

// c27Replaced states that a text has the value for its placeholder.
func c27Replaced(oldnew []string, placeholder, value string) bool {
	n := len(oldnew) / 2
	return v.Exists(0, n, func(i int) bool { return oldnew[2*i] == placeholder }) &&
		v.Forall(0, n, func(i int) bool { return oldnew[2*i] != placeholder || oldnew[2*i+1] == value })
}

// A message is written once exactly if its level reaches the cutoff of its logger, with its level, name, date and text.
//
//govc:norun
func C27_Logger(name, msg string, level Level) {
	v.InitPackage("")
	cutoff := c27Cutoffs(name)
	out, errs := &c27Writer{1}, &c27Writer{2}
	OutputWriter, ErrorWriter = out, errs
	date := v.Any[string]()
	DateProvider = func() string { return date }
	written := 0
	text := v.Any[string]()
	v.External("strings.NewReplacer", func(oldnew ...string) *strings.Replacer {
		v.Assert("the message has its level", c27Replaced(oldnew, "{lvl}", LevelNames[level].Short))
		v.Assert("the message has the name of its logger", c27Replaced(oldnew, "{name}", (name + "    ")[:4]))
		v.Assert("the message has its date", c27Replaced(oldnew, "{date}", date))
		v.Assert("the message has its text", c27Replaced(oldnew, "{message}", msg))
		return &strings.Replacer{}
	})
	v.External("(*strings.Replacer).Replace", func(_ *strings.Replacer, s string) string {
		v.Assert("the message has the format of messages", s == "[{lvl}] [{name}] {date}: {message}")
		return text
	})
	v.External("fmt.Fprintln", func(w io.Writer, a ...interface{}) (int, error) {
		written++
		v.Assert("messages below warning go to the normal output, others to the error output", w == io.Writer(out) && level < LevelWarn || w == io.Writer(errs) && level >= LevelWarn)
		v.Assert("the message is written", len(a) == 1 && a[0] == interface{}(text))
		return 0, nil
	})
	GetLogger(name)(msg, level)
	v.Ensures("a message is written once exactly if its level reaches the cutoff", written == 1 && cutoff <= level || written == 0 && level < cutoff)
	v.Cover("a message")
}

// Looking up a level finds the one of that name, and off if there is none.
//
//govc:norun
func C27_LevelByName(name string) {
	named := func(l Level) bool {
		n := LevelNames[l]
		return strings.ToLower(n.Full) == strings.ToLower(name) || strings.ToLower(n.Short) == strings.ToLower(name)
	}
	LevelNames = v.Any[map[Level]LevelName]()
	_, off := LevelNames[LevelOff]
	v.Assume(!off)
	v.Inv(func() bool {
		return v.ForallOf(func(l Level) bool { return !v.Visited(l) || !named(l) })
	})
	got := LevelByName(name)
	_, known := LevelNames[got]
	v.Ensures("a level found has that name", got == LevelOff || known && named(got))
	v.Ensures("off is found only if no level has that name", got != LevelOff || v.ForallOf(func(l Level) bool {
		_, ok := LevelNames[l]
		return l == LevelOff || !ok || !named(l)
	}))
}

// Each way to log a message logs it once, formatted and at its level.
//
//govc:log
func C27_Forms(kind int, msg string) {
	v.Requires(0 <= kind && kind < 12)
	calls := 0
	var text string
	var level Level
	l := Logger(func(m string, lv Level) { calls, text, level = calls+1, m, lv })
	switch kind {
	case 0:
		l.Trace(msg)
	case 1:
		l.Debug(msg)
	case 2:
		l.Info(msg)
	case 3:
		l.Warn(msg)
	case 4:
		l.Error(msg)
	case 5:
		l.Fatal(msg)
	case 6:
		l.Tracef("%s", msg)
	case 7:
		l.Debugf("%s", msg)
	case 8:
		l.Infof("%s", msg)
	case 9:
		l.Warnf("%s", msg)
	case 10:
		l.Errorf("%s", msg)
	case 11:
		l.Fatalf("%s", msg)
	}
	v.Ensures("the message is logged once", calls == 1)
	v.Ensures("the message is logged as it is", text == msg)
	v.Ensures("the message is logged at its level", int(level) == kind%6)
}

// The levels in order, with their names.
//
//govc:norun
func C27_Levels() {
	v.InitPackage("")
	v.Ensures("the levels are in order", LevelTrace < LevelDebug && LevelDebug < LevelInfo && LevelInfo < LevelWarn &&
		LevelWarn < LevelError && LevelError < LevelFatal && LevelFatal < LevelOff)
	v.Ensures("trace is named so", LevelTrace.FullName() == "TRACE" && LevelTrace.ShortName() == "TRC")
	v.Ensures("debug is named so", LevelDebug.FullName() == "DEBUG" && LevelDebug.ShortName() == "DBG")
	v.Ensures("info is named so", LevelInfo.FullName() == "INFO" && LevelInfo.ShortName() == "INF")
	v.Ensures("warn is named so", LevelWarn.FullName() == "WARN" && LevelWarn.ShortName() == "WRN")
	v.Ensures("error is named so", LevelError.FullName() == "ERROR" && LevelError.ShortName() == "ERR")
	v.Ensures("fatal is named so", LevelFatal.FullName() == "FATAL" && LevelFatal.ShortName() == "FTL")
	v.Ensures("there is no other level", len(LevelNames) == 6)
	v.Ensures("no logger has a cutoff of its own at first", len(CutoffLevels) == 0)
	v.Ensures("messages go to the output and errors to the error output at first", OutputWriter != nil && ErrorWriter != nil)
}

// The same with what is really written.
//
//govc:bounded
func C27_Run(seed int) {
	out, errs := &bytes.Buffer{}, &bytes.Buffer{}
	oldOut, oldErrs, oldDate, oldCutoff, oldCutoffs := OutputWriter, ErrorWriter, DateProvider, DefaultCutoffLevel, CutoffLevels
	defer func() {
		OutputWriter, ErrorWriter, DateProvider, DefaultCutoffLevel, CutoffLevels = oldOut, oldErrs, oldDate, oldCutoff, oldCutoffs
	}()
	OutputWriter, ErrorWriter = out, errs
	DateProvider = func() string { return "now" }
	names := []string{"comm", "ssh", "play", "a", "longer", "longest", "long", "comms"}
	shorts := []string{"TRC", "DBG", "INF", "WRN", "ERR", "FTL"}
	texts := []string{"", "text", "{lvl}", "{name}{message}", "100%", "a\nb", "ä", "{date}", "{msg} {level}"}
	loggers := map[string]Logger{}
	for _, n := range names {
		loggers[n] = GetLogger(n)
	}
	expOut, expErr := "", ""
	for k := v.AnyInt(1, 6); k > 0; k-- {
		CutoffLevels = map[string]Level{}
		DefaultCutoffLevel = Level(v.AnyInt(0, 6))
		for _, n := range names {
			if v.AnyBool() {
				CutoffLevels[n] = Level(v.AnyInt(0, 6))
			}
		}
		name, level, text := names[v.AnyInt(0, len(names)-1)], v.AnyInt(0, 5), texts[v.AnyInt(0, len(texts)-1)]
		loggers[name](text, Level(level))
		cutoff, ok := CutoffLevels[name]
		if !ok {
			cutoff = DefaultCutoffLevel
		}
		if int(cutoff) <= level {
			m := fmt.Sprintf("[%s] [%-4.4s] now: %s\n", shorts[level], name, text)
			if level < 3 {
				expOut += m
			} else {
				expErr += m
			}
		}
	}
	v.Ensures("messages are written exactly if enabled, to the right output", out.String() == expOut && errs.String() == expErr)
	fulls := []string{"trace", "debug", "info", "warn", "error", "fatal", "off", "none"}
	for i, f := range fulls {
		expected := Level(i)
		if i > 6 {
			expected = LevelOff
		}
		v.Ensures("a level is found by its name in any case", LevelByName(f) == expected && LevelByName(strings.ToUpper(f)) == expected && LevelByName(strings.Title(f)) == expected)
		if i < 6 {
			v.Ensures("a level is found by its short name in any case", LevelByName(shorts[i]) == expected && LevelByName(strings.ToLower(shorts[i])) == expected)
		}
	}
}
