//go:build verif && go1.21

package main

import (
	"sort"

	"github.com/LogicalOverflow/music-sync/comm"
	v "github.com/LogicalOverflow/music-sync/verifspec"
)

// No decoded message crashes the infoer's handlers. (Decoding never puts nil into a list.)
//
//govc:norun
func C10_Infoer(info *comm.NewSongInfo, chunk *comm.ChunkInfo, pause *comm.PauseInfo, volume *comm.SetVolumeRequest) {
	v.Requires(info != nil && chunk != nil && pause != nil && volume != nil)
	v.Requires(v.Forall(0, len(info.Lyrics), func(i int) bool {
		return info.Lyrics[i] != nil && v.Forall(0, len(info.Lyrics[i].Atoms), func(j int) bool { return info.Lyrics[i].Atoms[j] != nil })
	}))
	v.External("sort.Sort", func(x sort.Interface) { v.Assert("the list is sorted", x != nil) })
	v.External("sort.Stable", func(x sort.Interface) { v.Assert("the list is sorted", x != nil) })
	currentState = &state{Songs: v.Any[[]upcomingSong](), Chunks: v.Any[[]upcomingChunk](), Pauses: v.Any[[]pauseToggle]()}
	h := &infoerPackageHandler{}
	h.HandleNewSongInfo(info, nil)
	h.HandleChunkInfo(chunk, nil)
	h.HandlePauseInfo(pause, nil)
	h.HandleSetVolumeRequest(volume, nil)
	v.Ensures("handled without a crash, the state stays usable", !v.Held(&currentState.SongsMutex) && !v.Held(&currentState.ChunksMutex) && !v.Held(&currentState.PausesMutex))
}

//govc:bounded
func C10_InfoerRun(start, length int64, first, size uint64, name string) {
	s := &comm.NewSongInfo{FirstSampleOfSongIndex: first, SongFileName: name, SongLength: length}
	for i := v.AnyInt(0, 8); i > 0; i-- {
		l := &comm.NewSongInfo_SongLyricsLine{}
		for j := v.AnyInt(0, 2); j > 0; j-- {
			l.Atoms = append(l.Atoms, &comm.NewSongInfo_SongLyricsAtom{Timestamp: start, Caption: name})
		}
		s.Lyrics = append(s.Lyrics, l)
	}
	if v.AnyBool() {
		s.Metadata = &comm.NewSongInfo_SongMetadata{Title: name}
	}
	h := newInfoerPackageHandler()
	v.Ensures("handled without a crash", !v.CatchPanic(func() {
		h.HandleNewSongInfo(s, nil)
		h.HandleChunkInfo(&comm.ChunkInfo{StartTime: start, FirstSampleIndex: first, ChunkSize: size}, nil)
		h.HandlePauseInfo(&comm.PauseInfo{Playing: v.AnyBool(), ToggleSampleIndex: first}, nil)
		h.HandleSetVolumeRequest(&comm.SetVolumeRequest{Volume: v.Any[float64]()}, nil)
		h.HandleTimeSyncResponse(&comm.TimeSyncResponse{ClientSendTime: start, ServerRecvTime: length}, nil)
	}))
	if len(currentState.Songs) > 20 {
		currentState.Songs, currentState.Chunks, currentState.Pauses = nil, nil, nil
	}
}
