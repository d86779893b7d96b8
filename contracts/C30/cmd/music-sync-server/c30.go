//go:build verif && go1.21

package main

import (
	"fmt"
	"time"

	"github.com/LogicalOverflow/music-sync/cmd"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/ssh"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
	"github.com/urfave/cli"
)

// c30Given are the values given on the command line, by the name of the parameter.
type c30Given struct {
	ints    map[string]int
	times   map[string]time.Duration
	strings map[string]string
}

func c30Key(name string) string { return fmt.Sprintf("%q", name) } // the name of a parameter without its aliases

func c30Attach() *c30Given {
	g := &c30Given{v.Any[map[string]int](), v.Any[map[string]time.Duration](), v.Any[map[string]string]()}
	v.External("(github.com/urfave/cli.IntFlag).GetName", func(f cli.IntFlag) string { return f.Name })
	v.External("(github.com/urfave/cli.DurationFlag).GetName", func(f cli.DurationFlag) string { return f.Name })
	v.External("(github.com/urfave/cli.StringFlag).GetName", func(f cli.StringFlag) string { return f.Name })
	v.External("github.com/LogicalOverflow/music-sync/cmd.FlagKey", func(f cli.Flag) string { return c30Key(f.GetName()) })
	v.External("(*github.com/urfave/cli.Context).Int", func(_ *cli.Context, key string) int { return g.ints[key] })
	v.External("(*github.com/urfave/cli.Context).Duration", func(_ *cli.Context, key string) time.Duration { return g.times[key] })
	v.External("(*github.com/urfave/cli.Context).String", func(_ *cli.Context, key string) string { return g.strings[key] })
	rate, size := g.int(cmd.SampleRateFlag), g.int(cmd.StreamChunkSizeFlag)
	v.Requires(0 < rate && rate <= 1<<40 && 0 <= size && size <= 1<<32)
	return g
}

func (g *c30Given) int(f cli.IntFlag) int                 { return g.ints[c30Key(f.Name)] }
func (g *c30Given) time(f cli.DurationFlag) time.Duration { return g.times[c30Key(f.Name)] }
func (g *c30Given) string(f cli.StringFlag) string        { return g.strings[c30Key(f.Name)] }

// effective states that every streaming parameter has the value given for it.
func (g *c30Given) effective() bool {
	return schedule.StreamChunkSize == g.int(cmd.StreamChunkSizeFlag) &&
		schedule.SampleRate == g.int(cmd.SampleRateFlag) &&
		schedule.NanBreakSize == g.int(cmd.NanBreakSizeFlag) &&
		schedule.TimeSyncCycles == g.int(cmd.TimeSyncCyclesFlag) &&
		schedule.TimeSyncInterval == g.time(cmd.TimeSyncIntervalFlag) &&
		schedule.TimeSyncCycleDelay == g.time(cmd.TimeSyncCycleDelayFlag) &&
		schedule.StreamStartDelay == g.time(cmd.StreamStartDelayFlag) &&
		schedule.StreamDelay == g.time(cmd.StreamDelayFlag) &&
		g.chunkTime()
}

// chunkTime states that the chunk duration is the chunk size divided by the sample rate, in whole nanoseconds.
func (g *c30Given) chunkTime() bool {
	rate, total := g.int(cmd.SampleRateFlag), g.int(cmd.StreamChunkSizeFlag)*1000000000
	return int(schedule.StreamChunkTime) == total/rate
}

// Every streaming parameter given takes effect unchanged, and the chunk duration follows from them.
//
//govc:norun
func C30_Params() {
	g := c30Attach()
	setScheduleVars(&cli.Context{})
	v.Ensures("the chunk size is the one given", schedule.StreamChunkSize == g.int(cmd.StreamChunkSizeFlag))
	v.Ensures("the sample rate is the one given", schedule.SampleRate == g.int(cmd.SampleRateFlag))
	v.Ensures("the break size is the one given", schedule.NanBreakSize == g.int(cmd.NanBreakSizeFlag))
	v.Ensures("the number of time sync cycles is the one given", schedule.TimeSyncCycles == g.int(cmd.TimeSyncCyclesFlag))
	v.Ensures("the time sync interval is the one given", schedule.TimeSyncInterval == g.time(cmd.TimeSyncIntervalFlag))
	v.Ensures("the time sync cycle delay is the one given", schedule.TimeSyncCycleDelay == g.time(cmd.TimeSyncCycleDelayFlag))
	v.Ensures("the start delay is the one given", schedule.StreamStartDelay == g.time(cmd.StreamStartDelayFlag))
	v.Ensures("the stream delay is the one given", schedule.StreamDelay == g.time(cmd.StreamDelayFlag))
	v.Ensures("the chunk duration is the chunk size divided by the sample rate", g.chunkTime())
}

type c30Sender struct{ id int }

func (*c30Sender) SendMessage(m proto.Message) error { return nil }

// The server streams with the parameters given, to the clients connected to the address given.
//
//govc:norun
func C30_Serve(dirErr, listenErr, usersErr bool) {
	g := c30Attach()
	broken := fmt.Errorf("broken")
	sender := &c30Sender{1}
	users := v.Any[map[string]ssh.UserAuth]()
	served := 0
	v.External("github.com/LogicalOverflow/music-sync/cmd.HandleLoggingFlags", func(*cli.Context) {})
	v.External("github.com/LogicalOverflow/music-sync/cmd.WaitForInterrupt", func() {
		v.Assert("the server is started", served == 1)
	})
	v.External("github.com/LogicalOverflow/music-sync/util.CheckDir", func(dir string) error {
		if dirErr {
			return broken
		}
		return nil
	})
	v.External("github.com/LogicalOverflow/music-sync/comm.StartServer", func(address string) (comm.MessageSender, error) {
		v.Assert("the server listens at the address given", address == fmt.Sprintf("%s:%d", g.string(cmd.ListenAddressFlag), g.int(cmd.ListenPortFlag)))
		if listenErr {
			return nil, broken
		}
		return sender, nil
	})
	v.External("github.com/LogicalOverflow/music-sync/ssh.ReadUsersFile", func(name string) (map[string]ssh.UserAuth, error) {
		if usersErr {
			return nil, broken
		}
		return users, nil
	})
	v.External("github.com/LogicalOverflow/music-sync/ssh.StartSSH", func(address string, u map[string]ssh.UserAuth) {})
	v.External("github.com/LogicalOverflow/music-sync/schedule.Server", func(s comm.MessageSender) {
		v.Assert("the server sends to its clients", s == comm.MessageSender(sender))
		v.Assert("every streaming parameter given has taken effect", g.effective())
		v.Assert("songs are read from the music directory given", playback.AudioDir == g.string(cmd.MusicDirFlag))
		v.Cover("the server")
		served++
	})
	err := run(&cli.Context{})
	v.Ensures("the server streams unless it cannot be started", served == 1 && err == nil || served == 0 && err != nil)
	v.Ensures("the server streams if nothing fails", served == 1 || dirErr || listenErr || usersErr)
}

// Every streaming parameter can be given on the command line.
//
//govc:norun
func C30_Main() {
	app := &cli.App{}
	v.External("github.com/LogicalOverflow/music-sync/cmd.NewApp", func(usage string) *cli.App { return app })
	v.External("github.com/LogicalOverflow/music-sync/cmd.AddLoggingFlags", func(f []cli.Flag) []cli.Flag { return f })
	v.External("os.Exit", func(int) {})
	started := 0
	v.External("(*github.com/urfave/cli.App).Run", func(a *cli.App, _ []string) error {
		v.Assert("the app is the one made", a == app)
		for _, f := range []cli.IntFlag{cmd.ListenPortFlag, cmd.TimeSyncCyclesFlag, cmd.StreamChunkSizeFlag, cmd.NanBreakSizeFlag, cmd.SampleRateFlag} {
			found := false
			for _, g := range app.Flags {
				if i, ok := g.(cli.IntFlag); ok {
					found = v.Or(found, i.Name == f.Name)
				}
			}
			v.Assert("every streaming parameter that is a number can be given", found)
		}
		for _, f := range []cli.DurationFlag{cmd.TimeSyncIntervalFlag, cmd.TimeSyncCycleDelayFlag, cmd.StreamStartDelayFlag, cmd.StreamDelayFlag} {
			found := false
			for _, g := range app.Flags {
				if i, ok := g.(cli.DurationFlag); ok {
					found = v.Or(found, i.Name == f.Name)
				}
			}
			v.Assert("every streaming parameter that is a duration can be given", found)
		}
		for _, f := range []cli.StringFlag{cmd.ListenAddressFlag, cmd.MusicDirFlag} {
			found := false
			for _, g := range app.Flags {
				if i, ok := g.(cli.StringFlag); ok {
					found = v.Or(found, i.Name == f.Name)
				}
			}
			v.Assert("the address and the music directory can be given", found)
		}
		v.Assert("the app does something", a.Action != nil)
		started++
		return nil
	})
	main()
	v.Ensures("the app is run", started == 1)
}

// The same with a real command line (executed).
//
//govc:bounded
func C30_Line(seed int) {
	size, rate, gap, cycles := v.AnyInt(0, 1000000), v.AnyInt(1, 200000), v.AnyInt(0, 100000), v.AnyInt(0, 1000)
	times := map[string]time.Duration{}
	args := []string{"server", fmt.Sprintf("--stream-chunk-size=%d", size), fmt.Sprintf("--sample-rate=%d", rate),
		fmt.Sprintf("--song-break-size=%d", gap), fmt.Sprintf("--time-sync-cycles=%d", cycles)}
	for _, name := range []string{"stream-delay", "stream-start-delay", "time-sync-interval", "time-sync-cycle-delay"} {
		times[name] = time.Duration(v.AnyInt(0, 1<<40))
		args = append(args, fmt.Sprintf("--%s=%s", name, times[name]))
	}
	ran := false
	app := cmd.NewApp(usage)
	app.Flags = cmd.AddLoggingFlags([]cli.Flag{cmd.TimeSyncIntervalFlag, cmd.TimeSyncCyclesFlag, cmd.TimeSyncCycleDelayFlag, cmd.StreamChunkSizeFlag,
		cmd.StreamStartDelayFlag, cmd.StreamDelayFlag, cmd.NanBreakSizeFlag, cmd.SampleRateFlag})
	app.Action = func(ctx *cli.Context) error {
		setScheduleVars(ctx)
		ran = true
		return nil
	}
	v.Ensures("the command line is understood", app.Run(args) == nil && ran)
	v.Ensures("the chunk size is the one given", schedule.StreamChunkSize == size)
	v.Ensures("the sample rate is the one given", schedule.SampleRate == rate)
	v.Ensures("the break size is the one given", schedule.NanBreakSize == gap)
	v.Ensures("the number of time sync cycles is the one given", schedule.TimeSyncCycles == cycles)
	v.Ensures("the time sync interval is the one given", schedule.TimeSyncInterval == times["time-sync-interval"])
	v.Ensures("the time sync cycle delay is the one given", schedule.TimeSyncCycleDelay == times["time-sync-cycle-delay"])
	v.Ensures("the start delay is the one given", schedule.StreamStartDelay == times["stream-start-delay"])
	v.Ensures("the stream delay is the one given", schedule.StreamDelay == times["stream-delay"])
	v.Ensures("the chunk duration is the chunk size divided by the sample rate", int(schedule.StreamChunkTime) == size*1000000000/rate)
}
