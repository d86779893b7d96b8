//go:build verif && go1.21

package main

import (
	"github.com/LogicalOverflow/music-sync/comm"
	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// No chunk, volume or time reply crashes the player's handlers, also before playback was started.
func C10_Player(start, id int64, low, high []float64, volume float64) {
	h := newPlayerPackageHandler()
	h.HandleSetVolumeRequest(&comm.SetVolumeRequest{Volume: volume}, nil)
	h.HandleTimeSyncResponse(&comm.TimeSyncResponse{ClientSendTime: start, ServerRecvTime: id}, nil)
	h.HandleQueueChunkRequest(&comm.QueueChunkRequest{StartTime: start, ChunkId: id, SampleLow: low, SampleHigh: high}, nil)
	v.Ensures("handled without a crash", true)
}
