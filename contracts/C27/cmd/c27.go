//go:build verif && go1.21

package cmd

import (
	"bytes"
	"fmt"
	"github.com/LogicalOverflow/music-sync/logging"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/urfave/cli"
	"io/ioutil"
	"strings"
)

func c27Key(name string) string   { return fmt.Sprintf("%q", name) } // the name of a switch without its aliases
func c27Value(key string) string  { return fmt.Sprintf("%x", key) }  // the value given for it
func c27Level(v string) log.Level { return log.Level(len(fmt.Sprintf("%X", v))) }

// The switches set the cutoffs of exactly the loggers they name: w is any of them, other the name of any other logger.
//
//govc:norun
func C27_Switches(other string, w int) {
	n := v.AnyInt(0, 1<<40)
	loggingFlags = make([]LoggingFlag, n)
	v.HavocSlice(loggingFlags)
	v.Requires(0 <= w && w < n)
	v.Assume(v.Forall(0, n, func(k int) bool {
		return (k == w || loggingFlags[k].logName != loggingFlags[w].logName) && loggingFlags[k].logName != other
	}))
	log.CutoffLevels = v.Any[map[string]log.Level]()
	v.Assume(log.CutoffLevels != nil)
	log.DefaultCutoffLevel = v.Any[log.Level]()
	before, general := v.Snap(log.CutoffLevels), log.DefaultCutoffLevel
	v.External("strings.Split", func(s, sep string) []string {
		v.Assert("the aliases of a switch are separated by commas", sep == ",")
		return []string{c27Key(s)}
	})
	v.External("(github.com/urfave/cli.StringFlag).GetName", func(f cli.StringFlag) string { return f.Name })
	v.External("(*github.com/urfave/cli.Context).String", func(_ *cli.Context, key string) string { return c27Value(key) })
	v.External("github.com/LogicalOverflow/music-sync/logging.LevelByName", func(name string) log.Level { return c27Level(name) })
	name, given := loggingFlags[w].logName, c27Value(c27Key(loggingFlags[w].StringFlag.Name))
	same := func(name string) bool {
		a, oka := before[name]
		b, okb := log.CutoffLevels[name]
		return oka == okb && (!oka || a == b)
	}
	set := func() bool {
		l, ok := log.CutoffLevels[name]
		return ok && l == c27Level(given)
	}
	v.Inv(func() bool { return same(other) })
	v.Inv(func(i int) bool {
		return i < w && same(name) || i >= w && (given == "" && same(name) || given != "" && set())
	})
	HandleLoggingFlags(&cli.Context{})
	v.Ensures("a switch that is given sets the cutoff of the logger it names", given == "" || set())
	v.Ensures("a switch that is not given leaves it", given != "" || same(name))
	v.Ensures("other loggers are left", same(other))
	if d := c27Value("logging"); d != "" {
		v.Ensures("the general switch sets the default", log.DefaultCutoffLevel == c27Level(d))
	} else {
		v.Ensures("the default is left without the general switch", log.DefaultCutoffLevel == general)
	}
}

// The switch made for a logger is named after it and knows its name.
//
//govc:norun
//govc:norun
func C27_NewSwitch(name string) {
	f := newLoggingFlag(name)
	v.Ensures("the switch is for the logger", f.logName == name)
	v.Ensures("the switch is named after the logger", f.Name == name+"-logging")
}

// The same for the switches there are, as given on the command line, and what the loggers then write.
//
//govc:bounded
func C27_RunSwitches(seed int) {
	names := []string{"comm", "play", "shed", "ssh", "time"}
	levels := []string{"trace", "DEBUG", "inf", "warn", "error", "FTL", "off", "what"}
	oldOut, oldErrs, oldCutoff, oldCutoffs := log.OutputWriter, log.ErrorWriter, log.DefaultCutoffLevel, log.CutoffLevels
	defer func() {
		log.OutputWriter, log.ErrorWriter, log.DefaultCutoffLevel, log.CutoffLevels = oldOut, oldErrs, oldCutoff, oldCutoffs
	}()
	log.CutoffLevels = map[string]log.Level{}
	log.DefaultCutoffLevel = log.LevelInfo
	cutoff := map[string]int{}
	args := []string{"music-sync"}
	general := 2
	set := func(name string) int {
		l := v.AnyInt(0, len(levels)-1)
		args = append(args, "--"+name, levels[l])
		if l > 6 {
			l = 6
		}
		return l
	}
	for _, n := range names {
		if v.AnyBool() {
			cutoff[n] = set(n + "-logging")
		}
	}
	if v.AnyBool() {
		general = set("logging")
	}
	app := cli.NewApp()
	app.Writer, app.ErrWriter = ioutil.Discard, ioutil.Discard
	app.Flags = AddLoggingFlags(nil)
	app.Action = func(ctx *cli.Context) error {
		HandleLoggingFlags(ctx)
		return nil
	}
	v.Ensures("the switches are accepted", app.Run(args) == nil)
	for _, n := range append(names, "else") {
		l, ok := cutoff[n]
		if !ok {
			l = general
		}
		for level := 0; level < 6; level++ {
			out := &bytes.Buffer{}
			log.OutputWriter, log.ErrorWriter = out, out
			log.GetLogger(n)("text", log.Level(level))
			v.Ensures("the switches decide what is written", strings.HasSuffix(out.String(), "text\n") == (l <= level) && (out.Len() > 0) == (l <= level))
		}
	}
}
