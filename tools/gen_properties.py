#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Playlist edits are exactly the documented sequence operations",
  "For every playlist content and every song and index, adding appends the song, inserting puts it at the index clipped to the bounds of the playlist and shifts nothing else out of order, and removing takes out and returns exactly the song at the clipped index (nothing and an empty name on an empty playlist). "
  "Every other song keeps its relative order and no edit ever crashes the server. "
  "A listing handed out is a copy: later edits do not change it and changing it does not change the playlist.",
  ["inputs", "histories"], "all playlists of any length, all songs, all int indices (including negative, equal to and beyond the length), all sequences of edits",
  "the tests edit a handful of fixed lists with fixed indices; the boundary index equal to the length, spare slice capacity and aliasing between listings and the playlist are not sampled",
  ["playback/playlist.go"], [("AddSong/InsertSong/RemoveSong/Songs", "playback/playlist.go")],
  ["Playlist.Songs", "return value of RemoveSong"], [("songs", "ordered playlist", "playback/playlist.go")])

p("C02", "Playback advances one song at a time, wraps, and jumps exactly where asked",
  "The next song to stream is always the one at the current position modulo the playlist length, for every position a user can set (including negative and beyond the end) and every playlist; an empty playlist yields no song and never a crash. "
  "When a song has been streamed to its end, or cannot be opened, playback moves on by exactly one song; when a jump is requested while a song streams, that song is cut off and the jump target is streamed next, without being skipped or advanced past.",
  ["inputs", "histories"], "all playlists, all positions, all song lengths, all points at which a jump request arrives",
  "tests check a few positions on small lists and one streamer; they never reach negative positions or combine end of song with a pending jump",
  ["playback/playlist.go"], [("nextSong/SetPos/Pos/shouldBreakStreamerPushLoop", "playback/playlist.go")],
  ["Playlist.Pos", "Playlist.CurrentSong"], [("position", "index of the song to stream", "playback/playlist.go")])

p("C03", "The sample stream is complete, ordered, paired and correctly numbered",
  "The stream a server produces is, for every song content, exactly the song's samples in order, each once, with left and right values of the same sample always at the same stream position; pausing inserts only silence markers and never drops or repeats a song sample, and between two songs exactly the configured number of silence markers is inserted. "
  "The stream index reported with each block handed out is the index of its first sample, with block after block contiguous, and the write index always equals the number of sample pairs produced.",
  ["inputs", "histories", "schedules"], "all song contents and lengths, all block sizes, all pause/resume times, all break sizes",
  "tests push a few short buffers; pause at arbitrary points, partial last buffers and index continuity over many blocks are not covered",
  ["playback/playlist.go"], [("pushStreamer/pushBuffer/pushSample/pushNanSamples/pushNanBreak", "playback/playlist.go"), ("Fill/copyFloatChannel", "playback/playlist.go")],
  ["Playlist.Fill"], [("sampleIndexWrite/sampleIndexRead", "stream positions", "playback/playlist.go")])

p("C04", "Song starts and pause toggles are announced exactly, with the right stream index",
  "Every time a song starts streaming exactly one announcement is made, carrying the song's name, its length and the stream index of its first sample. "
  "A pause or resume is announced exactly once per change of the playing state, with the new state and the stream index of the first sample it affects, and nothing is announced while the state is unchanged.",
  ["inputs", "histories"], "all playing-state histories, all stream indices, all songs",
  "tests toggle once or twice at index 0 and look at one announcement",
  ["playback/playlist.go"], [("pushStreamer/callPauseToggleHandler", "playback/playlist.go")],
  ["new song handler", "pause toggle handler"], [("playingLast", "last announced state", "playback/playlist.go")])

p("C05", "The player's sample queue is a bounded first-in first-out queue",
  "For every capacity and every history of additions and removals, samples leave the player's queue in exactly the order and with exactly the timestamps they entered, none lost, duplicated or overwritten, and looking at the front sample does not remove it. "
  "The queue never holds more than its capacity, its reported length is the number of samples in it, an addition to a full queue waits instead of overwriting and a removal from an empty one waits instead of returning stale data.",
  ["inputs", "histories"], "all capacities of at least one, all interleaved add/remove/peek histories including index wrap-around any number of times",
  "tests run one capacity and a few wraps; the wrap-around arithmetic for all head/tail positions is a data-structure invariant",
  ["playback/timed_sample_queue.go"], [("ring buffer with doubled index range", "playback/timed_sample_queue.go")],
  ["Add/Remove/Peek/Len"], [("head/tail", "ring positions modulo twice the capacity", "playback/timed_sample_queue.go")])

p("C06", "Received chunks are played at the time they are stamped with",
  "Every sample of a received chunk gets the time at which it has to be played: the chunk's start time plus its position divided by the sample rate, and chunks are unpacked in order of arrival, each sample once. "
  "When a player has to (re)align, it plays background sound until the first queued sample is due, drops exactly the samples that are already overdue, and then continues with the first sample that is not overdue; when aligned it plays queued samples in order and stops aligning only at a silence marker.",
  ["inputs", "histories"], "all chunk contents, start times, sample rates, output buffer sizes and current times",
  "tests unpack one small chunk with a fixed rate and never exercise re-alignment",
  ["playback/streamer.go"], [("ReadChunks", "playback/streamer.go"), ("streamSync/streamDirect", "playback/streamer.go")],
  ["timedMultiStreamer output"], [("syncing", "re-alignment in progress", "playback/streamer.go")])

p("C07", "Samples become correctly clipped, scaled and laid out 16-bit PCM",
  "For every pair of sample values and every volume, the bytes written to the sound device are, frame by frame and left before right, the little-endian 16-bit value of the sample times the volume, clipped to full scale: louder input never gives a smaller output value and values at or beyond full scale never wrap to the other sign. "
  "The two received channel arrays are combined position by position, as far as the shorter one reaches, without mixing channels.",
  ["inputs"], "all sample values, all volumes, all buffer lengths, all pairs of channel lengths",
  "tests compare a few dozen sample values; wrap-around at full scale is a single boundary point",
  ["playback/playback.go"], [("convertSampleToBytes/samplesToAudioBuf/CombineSamples", "playback/playback.go")],
  ["bytes passed to the audio device"])

p("C08", "The clock offset is the exact floor of the average of the measured offsets",
  "After every completed time synchronisation the offset is the floor of the mean of the per-round offsets, each half (rounded toward zero) of the sum of the outward and return clock differences; it changes only when the last expected round has been received and then uses every round exactly once. "
  "If the two directions take equally long the estimate of a round is the true offset, and otherwise it is off by at most half the round-trip time; the synchronised clock is always the raw clock plus the current offset.",
  ["inputs", "histories"], "all timestamp quadruples in the range of real clocks, all numbers of rounds, all orders of arrival",
  "the single test feeds a few hand-picked timestamps; exactness of the average for large counts and negative sums is not sampled",
  ["timing/timing.go"], [("UpdateOffset/ResetOffsets/GetSyncedTime", "timing/timing.go")],
  ["GetSyncedTime minus GetRawTime"], [("offset/offsets", "current offset, rounds collected", "timing/timing.go")])

p("C09", "A message sent on a connection arrives whole however the bytes are split",
  "Whatever way the network splits reads and writes, a sender writes exactly the frame (an 8-byte little-endian length followed by that many envelope bytes) in order with no byte lost or repeated, reporting the first write error, and a receiver consumes exactly one frame and delivers the message that was sent. "
  "Reading an exact number of bytes returns precisely those bytes in order and stops at the first error without consuming beyond the requested number.",
  ["inputs", "schedules", "fault_sequences"], "all messages, all ways of splitting reads and writes, all error points",
  "tests use an in-memory pipe that delivers whole buffers",
  ["comm/package_util.go"], [("toWire/sendWire", "comm/package_util.go"), ("readWire/readBytes", "comm/package_util.go")],
  ["bytes on the connection", "messages handed to the handler"])

p("C10", "Malformed or hostile input on a connection never crashes and is never delivered",
  "Whatever bytes a peer sends, the server or client never crashes: a frame with an impossible length, a truncated frame, an unknown message type, or data that does not decompress or decode is reported as an error and no message is delivered for it. "
  "After such an error, or any read error, the connection is closed and no further message of it is handled.",
  ["inputs", "fault_sequences"], "all byte sequences, all lengths announced, all truncation points",
  "tests only send well-formed messages",
  ["comm/package_util.go", "comm/conn_handler.go"], [("readWire/handleConnection", "comm/package_util.go, comm/conn_handler.go")],
  ["messages handed to the handler", "Close of the connection"])

p("C11", "Broadcasts reach exactly the connections subscribed to the message's channel",
  "A broadcast of a message that belongs to channels is sent once to every registered connection that subscribed to at least one of them and to no other; messages without a channel go once to every registered connection. "
  "Audio data belongs to the audio channel only, volume to audio and meta, and chunk, song and pause information to meta only; failed sends are all reported and do not keep the message from the other connections.",
  ["inputs", "histories"], "all sets of connections and subscriptions, all message types, all combinations of failing connections",
  "tests use three connections and a few messages",
  ["comm/message_sender.go", "comm/package_util.go"], [("SendMessage/isSubscribed/containsChannel/channelOf", "comm/message_sender.go, comm/package_util.go")],
  ["bytes written to each connection", "returned error"])

p("C12", "The registry holds exactly the live connections and their subscriptions",
  "A connection is in the registry from the moment it was added until it was removed; removing one takes out exactly that connection, leaves every other connection and its subscriptions untouched, and forgets its subscriptions. "
  "Subscribing adds exactly the requested channel to exactly the requesting connection; every access to the registry is made under its lock and the lock is always released.",
  ["inputs", "histories", "schedules"], "all registries, all sequences of add, remove and subscribe",
  "tests add and remove in a fixed order and never look at the subscriptions of a removed connection",
  ["comm/message_sender.go"], [("AddConn/DelConn/Subscribe", "comm/message_sender.go")],
  ["connections that receive broadcasts"], [("connections/channels", "registry", "comm/message_sender.go")])

p("C13", "Every received message reaches exactly the handler for its type",
  "Each received message is passed exactly once, unchanged and with the connection it came from, to the handler for its own type and to no other handler; messages of any other type are ignored. "
  "The server answers every time request with exactly one reply that echoes the client's send time and carries a receive time not after its send time, answers every ping with exactly one pong, both to the requesting connection only, and on a subscription registers it and then runs the new-client handler for that channel and connection.",
  ["inputs"], "all message types and contents, all connections",
  "tests dispatch one empty message per type and look at whether the method was called",
  ["comm/package_handler.go"], [("TypedPackageHandler.Handle", "comm/package_handler.go"), ("serverPackageHandler", "comm/package_handler.go")],
  ["handler calls", "replies on the connection"])

p("C14", "A new subscriber is told exactly the current state its channel carries",
  "On subscribing to audio a client is sent the current volume and nothing else; on subscribing to meta it is sent the current volume, the newest song if there is one, and every remembered pause toggle in order, each once; for any other channel it is sent nothing. "
  "Everything is sent to the subscribing client only.",
  ["inputs", "histories"], "all volumes, songs, pause lists and channels",
  "tests call the three helper senders separately with a few fixed states",
  ["schedule/server_state.go"], [("createClientHandler/sendVolume/sendNewestSong/sendPauses", "schedule/server_state.go")],
  ["messages sent to the new client"])

p("C15", "Song information carries exactly the song's lyrics and tags, end to end",
  "When a song starts, the announcement sent to all clients and remembered for later ones carries the start index, name and length it was started with and exactly the lyrics (every line, every word, its time and text, in order, empty lines included) and the title, artist and album found for that file. "
  "An infoer that receives such an announcement stores exactly the same start index, name, length, lyrics and tags.",
  ["inputs"], "all lyrics and tags, all indices, names and lengths",
  "tests convert a few small lyrics in one direction each",
  ["schedule/server_state.go", "cmd/music-sync-infoer/infoer_package_handler.go"], [("toWireLyrics/createNewSongHandler", "schedule/server_state.go"), ("HandleNewSongInfo", "cmd/music-sync-infoer/infoer_package_handler.go")],
  ["NewSongInfo messages", "infoer state"])

p("C16", "Forgetting old pauses on the server never changes any displayed position",
  "Every pause toggle that happens is remembered and announced once; forgetting old ones removes only toggles at the front of the list that lie at or before the start of the newest song, so that the paused time an infoer computes from the remaining list for the newest song is the same as from the full list. "
  "The most recent toggle always stays, the order of the remaining ones is kept, and the server never crashes whatever the list and the newest song are.",
  ["inputs", "histories"], "all pause lists (sorted by index), all newest songs",
  "tests try a table of small lists with expected remainders",
  ["schedule/server_state.go"], [("removablePauses/removeOldPauses/createPauseToggleHandler", "schedule/server_state.go")],
  ["pause messages sent to later subscribers"], [("pauses", "remembered toggles", "schedule/server_state.go")])

p("C17", "The infoer's chunk clock converts the current time to the right stream position",
  "The stream position shown for a time is that of the first chunk whose end is not before that time, at the chunk's first index plus the time elapsed since the chunk's start times the sample rate; with no such chunk it is 0. "
  "Chunks are dropped exactly when their end lies before the current time, in order and never others, and the ones that remain stay unchanged and sorted by stream index however they arrived.",
  ["inputs", "histories"], "all chunk lists, times and sample rates in the range of real use, all orders of arrival",
  "tests check a table of small cases",
  ["cmd/music-sync-infoer/state.go", "cmd/music-sync-infoer/infoer_package_handler.go"], [("currentSample/removeOldChunks/endTime/length", "cmd/music-sync-infoer/state.go"), ("HandleChunkInfo", "cmd/music-sync-infoer/infoer_package_handler.go")],
  ["playbackInformation.CurrentSample"])

p("C18", "The infoer shows the right song, playing state and paused time",
  "The current song is the known song with the greatest start index before the current position, whatever order the announcements arrived in, and none if there is no such song; the playing state is that of the last toggle before the current position (playing if there is none). "
  "The paused time attributed to the current song is the total length of the paused stretches between its start and the current position, and dropping old toggles never changes it or the playing state.",
  ["inputs", "histories"], "all song and toggle lists, all positions not before the song's start, all arrival orders",
  "tests check a table of small cases",
  ["cmd/music-sync-infoer/state.go", "cmd/music-sync-infoer/infoer_package_handler.go"], [("currentSong/pausesInCurrentSong/handlePause/removeOldPauses", "cmd/music-sync-infoer/state.go")],
  ["playbackInformation"])

p("C19", "Displayed time, length and progress follow from position, pauses and rate",
  "The time shown in a song is the number of its samples played so far, not counting pauses, divided by the sample rate, the song's length likewise, and the progress is played samples over length; all are zero before a song is known. "
  "The displayed values always come from one consistent evaluation of the current position, song and pauses, and no state makes the display crash.",
  ["inputs"], "all states, times and positive sample rates in the range of real use",
  "one test compares a table of states",
  ["cmd/music-sync-infoer/state.go"], [("Info", "cmd/music-sync-infoer/state.go")],
  ["playbackInformation"])

p("C20", "The lyrics display shows exactly the sung lines, newest first, word by word",
  "The lyrics shown are the lines up to the first line that begins after the current time, newest at the top and older ones below, exactly as many as fit and blank where there are none. "
  "Each shown line consists of exactly the words due within the next tenth of a second or earlier, in order; no lyrics content, including empty lines, and no display height crashes it.",
  ["inputs"], "all lyrics, times and display heights",
  "tests use one song and a few times",
  ["cmd/music-sync-infoer/main.go"], [("lyricsHistory/lyricsNextLine/lyricsBuildLine", "cmd/music-sync-infoer/main.go")],
  ["lines drawn"])

p("C21", "Only a known user with the right password or key gets a control session",
  "A password login succeeds exactly if the user exists, has a non-empty password and presents exactly that password; a key login succeeds exactly if the user exists, has a stored key that parses, and presents exactly that key. "
  "Every other attempt is rejected for every user table, and both checks are always installed on the control server.",
  ["inputs"], "all user tables, user names, passwords and keys",
  "tests try a small table of users and credentials",
  ["ssh/options.go"], [("createPasswordAuthOption/createPublicKeyAuthOption/getSSHOptions", "ssh/options.go")],
  ["result of the authentication callbacks"])

p("C22", "Commands act exactly on valid arguments and change nothing on invalid ones",
  "A control command whose required argument is missing or not a number is answered with the usage message and changes no state and sends no message; this holds for remove, jump, volume and queue. "
  "With valid arguments, remove and jump act on exactly the given position, volume stores and broadcasts exactly the given volume once, pause and resume set the playing state, and queue inserts the matching songs contiguously in listing order at the given position (or appends them).",
  ["inputs", "histories"], "all argument lists, all playlists and states",
  "tests run each command with two or three argument lists from a fresh state",
  ["schedule/server_state_commands.go"], [("parse*Param and *Command", "schedule/server_state_commands.go")],
  ["playlist, volume, messages sent, command result"])

p("C23", "Every registered command can be found, and lines run the command they name",
  "After any sequence of registrations the command list holds every registered command exactly once and is sorted by name, and looking a name up finds a command of exactly that name if and only if one is registered. "
  "A line entered in a session runs the command it names with exactly its parameters and prints its result or, if the command rejects them, its usage; unknown commands are reported, exit ends the session and nothing else does.",
  ["inputs", "histories"], "all command names and registration orders, all lines",
  "tests register a few names in one order; session lines are not tested at all",
  ["ssh/command.go", "ssh/session_handler.go"], [("RegisterCommand/commandByName/help", "ssh/command.go"), ("handleLine/execCommand", "ssh/session_handler.go")],
  ["commands run", "text printed"])

p("C24", "Command lines are split into words exactly, and printed commands parse back",
  "A line is split at unescaped spaces into a command and its parameters, a backslash makes the following space or backslash part of the word, and every character, including non-ASCII ones, is kept unchanged. "
  "Printing a command with parameters as a line and parsing that line gives back exactly the same command and parameters, for all words that are not empty.",
  ["inputs"], "all command lines, all commands with parameters",
  "tests parse and print a few ASCII lines",
  ["ssh/parser/parser.go", "ssh/parser/Shell.g4"], [("ParseCommand/Unparse/shellListener", "ssh/parser/parser.go")],
  ["ParsedCommand"])

p("C25", "Completion offers exactly the valid continuations and never crashes",
  "For every line and cursor at its end, completion returns without crashing, and every suggestion appended to the typed text gives a line that names a registered command (or clear or exit) whose name starts with the typed prefix, or the same command with its last parameter completed to one of the command's options that starts with the typed parameter. "
  "No matching command or option is left out.",
  ["inputs"], "all typed lines, all registered commands and options",
  "tests complete a few ASCII prefixes",
  ["ssh/auto_completer.go"], [("Do/commandsWithPrefix/commandArgOptionsWithPrefix/filterByPrefix", "ssh/auto_completer.go")],
  ["suggestions returned"])

p("C26", "Listings hold exactly the songs below the music directory, by relative name",
  "Listing and pattern matching return every file (never a directory) below the music directory that qualifies, each once, by its path relative to the music directory, so that joining it to the music directory names that file again; filtering songs keeps exactly the names ending in .mp3, in order. "
  "This holds for every music directory given, including ones with a trailing slash, and unreadable or missing directories give an empty listing, never a crash.",
  ["inputs", "configurations"], "all directory trees and names, all ways of writing the music directory",
  "tests list one fixed tree with one spelling of the directory",
  ["util/file_utils.go"], [("walker/removeDirPrefix/ListAllFiles/ListAllSubDirs/ListGlobFiles/FilterSongs", "util/file_utils.go")],
  ["returned names"])

p("C27", "Log messages are written exactly when enabled, and to the right place",
  "A message is written exactly if its level is at least the cutoff configured for its logger, or the default cutoff if none is configured; then it is written once, with its own level, name and text, messages below warning to the normal output and the others to the error output. "
  "The per-logger command line switch changes the cutoff of exactly the logger it names, the general switch changes exactly the default, and an unknown level name means off.",
  ["inputs", "configurations"], "all loggers, levels, cutoffs, messages and switch values",
  "tests check a few combinations of level and cutoff, and never whether the switch affects the logger",
  ["logging/logger.go", "logging/cutoff.go", "logging/level.go", "cmd/flags.go"], [("GetLogger/shouldLog/cutoffLevel/LevelByName", "logging"), ("HandleLoggingFlags", "cmd/flags.go")],
  ["log output"])

p("C28", "Errors collected concurrently are all reported, once each",
  "After waiting, a collector reports an error exactly if at least one was added, and then an error that contains every added error exactly once and the given base message; with none added it reports no error. "
  "The combined text contains the base message and, numbered from 0 in order, the text of every collected error.",
  ["inputs", "schedules"], "all numbers of errors and all interleavings of additions",
  "tests add a fixed number of errors in one order",
  ["util/collector.go", "util/multi_error.go"], [("Add/Wait/Err", "util/collector.go"), ("Error", "util/multi_error.go")],
  ["returned error"])

p("C29", "Every file opened is closed again, on success and on every failure",
  "Opening a song for streaming, reading lyrics, reading tags and reading the users file each close every file they opened on every path, except that a successfully opened song stays open until it has been streamed, after which it is closed. "
  "No failure (missing file, unreadable or malformed content) leaks an open file, so that a server can play any number of songs.",
  ["inputs", "fault_sequences", "histories"], "all file contents, all failure points, any number of songs",
  "tests open files but never count what stays open",
  ["playback/playback.go", "playback/playlist.go", "metadata/lyrics_provider.go", "metadata/metadata_provider.go", "ssh/ssh.go"],
  [("getStreamer/StreamLoop", "playback"), ("CollectLyrics/CollectMetadata", "metadata"), ("ReadUsersFile", "ssh/ssh.go")],
  ["open file descriptors of the process"])

p("C30", "The chunk schedule is contiguous in time and index, and consistently described",
  "Chunk number n is stamped with the stream start time plus n times the chunk duration, carries exactly the next chunk-size samples of the stream and the stream index of its first sample, and is announced to infoers with the same start time and index and its true size; chunks are numbered 0, 1, 2, ... without gaps. "
  "The chunk duration in use is the chunk size divided by the sample rate, and every streaming parameter given on the command line takes effect unchanged.",
  ["inputs", "histories", "configurations"], "all chunk sizes, sample rates and durations, any number of chunks",
  "the streaming loop and the configuration are not tested at all",
  ["schedule/server_state.go", "cmd/music-sync-server/main.go"], [("streamMusic", "schedule/server_state.go"), ("setScheduleVars", "cmd/music-sync-server/main.go")],
  ["QueueChunkRequest and ChunkInfo messages"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
