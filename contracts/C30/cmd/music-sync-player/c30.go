//go:build verif && go1.21

package main

import (
	"fmt"

	"github.com/LogicalOverflow/music-sync/cmd"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/schedule"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
	"github.com/urfave/cli"
)

type c30pSender struct{ id int }

func (*c30pSender) SendMessage(m proto.Message) error { return nil }

func c30pKey(name string) string { return fmt.Sprintf("%q", name) } // the name of a parameter without its aliases

// A player plays at the sample rate given, connected to the server given.
//
//govc:norun
func C30_Play(refused bool) {
	ints, strings := v.Any[map[string]int](), v.Any[map[string]string]()
	v.External("(github.com/urfave/cli.IntFlag).GetName", func(f cli.IntFlag) string { return f.Name })
	v.External("(github.com/urfave/cli.StringFlag).GetName", func(f cli.StringFlag) string { return f.Name })
	v.External("github.com/LogicalOverflow/music-sync/cmd.FlagKey", func(f cli.Flag) string { return c30pKey(f.GetName()) })
	v.External("(*github.com/urfave/cli.Context).Int", func(_ *cli.Context, key string) int { return ints[key] })
	v.External("(*github.com/urfave/cli.Context).String", func(_ *cli.Context, key string) string { return strings[key] })
	v.External("github.com/LogicalOverflow/music-sync/cmd.HandleLoggingFlags", func(*cli.Context) {})
	sender := &c30pSender{1}
	playing := 0
	v.External("github.com/LogicalOverflow/music-sync/cmd.WaitForInterrupt", func() {
		v.Assert("the player is started", playing == 1)
	})
	v.External("github.com/LogicalOverflow/music-sync/comm.ConnectToServer", func(address string, _ comm.TypedPackageHandler) (comm.MessageSender, error) {
		v.Assert("the player connects to the address given", address == fmt.Sprintf("%s:%d", strings[c30pKey(cmd.ServerAddressFlag.Name)], ints[c30pKey(cmd.ServerPortFlag.Name)]))
		if refused {
			return nil, fmt.Errorf("refused")
		}
		return sender, nil
	})
	v.External("github.com/LogicalOverflow/music-sync/schedule.Player", func(s comm.MessageSender) {
		v.Assert("the player talks to the server", s == comm.MessageSender(sender))
		v.Assert("the sample rate given has taken effect", schedule.SampleRate == ints[c30pKey(cmd.SampleRateFlag.Name)])
		v.Cover("the player")
		playing++
	})
	err := run(&cli.Context{})
	v.Ensures("the player plays if it is connected", !refused && playing == 1 && err == nil || refused && playing == 0 && err != nil)
}
