//go:build verif && go1.21

package schedule

import (
	"context"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"
	v "github.com/LogicalOverflow/music-sync/verifspec"
	"github.com/golang/protobuf/proto"
)

type c30To struct{ id int }

func (c30To) SendMessage(m proto.Message) error { return nil }

// The server streams a playlist with the break size configured to its clients, once.
//
//govc:norun
func C30_Server() {
	SampleRate, NanBreakSize = v.Any[int](), v.Any[int]()
	v.Requires(0 < SampleRate && 0 <= NanBreakSize)
	sender := comm.MessageSender(c30To{v.Any[int]()})
	pl := &playback.Playlist{}
	made, looping, streaming := 0, 0, 0
	v.External("github.com/LogicalOverflow/music-sync/metadata.GetLyricsProvider", func() metadata.LyricsProvider { return nil })
	v.External("github.com/LogicalOverflow/music-sync/metadata.GetProvider", func() metadata.Provider { return nil })
	v.External("github.com/LogicalOverflow/music-sync/playback.NewPlaylist", func(size int, songs []string, breakSize int) *playback.Playlist {
		v.Assert("the break size is the one configured", breakSize == NanBreakSize)
		v.Assert("samples can be buffered", 0 < size)
		made++
		return pl
	})
	v.External("(*github.com/LogicalOverflow/music-sync/playback.Playlist).StreamLoop", func(p *playback.Playlist, ctx context.Context) {
		v.Assert("the playlist is the one made", made == 1 && p == pl)
		looping++
	})
	v.External("(*github.com/LogicalOverflow/music-sync/schedule.serverState).streamMusic", func(ss *serverState) {
		v.Assert("the playlist streamed is the one made", made == 1 && ss.playlist == pl)
		v.Assert("chunks are sent to the clients", ss.sender == sender)
		v.Cover("streaming")
		streaming++
	})
	v.External("github.com/LogicalOverflow/music-sync/ssh.RegisterCommand", func(ssh.Command) {})
	Server(sender)
	v.Ensures("the playlist is decoded once", looping == 1)
	v.Ensures("the playlist is streamed once", streaming == 1)
}

type c30Asks struct{ asked, others *int }

func (a c30Asks) SendMessage(m proto.Message) error {
	if _, ok := m.(*comm.TimeSyncRequest); ok {
		*a.asked++
	} else {
		*a.others++
	}
	return v.Any[error]()
}

// One time sync asks for the time as often as configured, with the delay configured in between.
//
//govc:norun
func C30_Sync() {
	TimeSyncCycles, TimeSyncCycleDelay = v.Any[int](), v.Any[time.Duration]()
	v.Requires(0 <= TimeSyncCycles)
	asked, others, reset, slept := 0, 0, 0, 0
	v.External("github.com/LogicalOverflow/music-sync/timing.ResetOffsets", func(n int) {
		v.Assert("every answer of the time sync is kept", n == TimeSyncCycles && asked == 0)
		reset++
	})
	v.External("github.com/LogicalOverflow/music-sync/timing.GetRawTime", func() int64 { return v.Any[int64]() })
	v.External("time.Sleep", func(d time.Duration) {
		v.Assert("the delay between cycles is the one configured", d == TimeSyncCycleDelay)
		slept++
	})
	v.Inv(func(i int) bool { return asked == i && slept == i && others == 0 && reset == 1 })
	syncTime(c30Asks{&asked, &others})
	v.Ensures("a time sync has the number of cycles configured", asked == TimeSyncCycles && others == 0)
	v.Ensures("the cycles of a time sync are apart", slept >= asked-1)
}

// A player plays at the sample rate configured and syncs its time in the interval configured.
//
//govc:norun
//govc:endless
func C30_Player() {
	SampleRate, TimeSyncInterval = v.Any[int](), v.Any[time.Duration]()
	v.Requires(0 < TimeSyncInterval)
	sender := comm.MessageSender(c30To{v.Any[int]()})
	fails := v.Any[error]()
	synced, ticks := 0, 0
	v.External("github.com/LogicalOverflow/music-sync/playback.Init", func(rate int) error {
		v.Assert("the sample rate is the one configured", rate == SampleRate)
		v.Cover("playing")
		return fails
	})
	v.External("os.Exit", func(int) { v.Assume(false) })
	v.External("github.com/LogicalOverflow/music-sync/schedule.syncTime", func(s comm.MessageSender) {
		v.Assert("the time is that of the server", s == sender)
		synced++
	})
	v.External("time.Tick", func(d time.Duration) <-chan time.Time {
		v.Assert("the interval is the one configured", d == TimeSyncInterval)
		v.Cover("syncing")
		ticks++
		return v.NewSource[time.Time]()
	})
	v.Inv(func(i int) bool { return synced == i+1 && ticks == 1 })
	Player(sender)
	v.Ensures("time is synced for ever", false)
}
