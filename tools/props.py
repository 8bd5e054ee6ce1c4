#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the committed file is the output)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

# ---------------------------------------------------------------- core media
p("C01", "Ring buffer is a bounded FIFO that discards only the oldest elements",
  "For any history of single-element and bulk pushes, pops, peeks, reads and writes on a ring buffer of any capacity of at least one, elements come out exactly once, unchanged and in insertion order. When more is stored than fits, exactly the oldest excess elements are discarded (a non-forcing push refuses instead). Reported lengths, counts and empty/EOF results always agree with that queue.",
  ["inputs", "histories"], "every history of ring operations, every chunk length, every capacity, every element value",
  "TestBuffer walks a few fixed histories on one capacity; wrap-around bugs need a particular combination of read position, write position and chunk length.",
  ["ring/buffer.go"], [("Push/Pop/Read/Write index arithmetic modulo capacity with a full flag", "ring/buffer.go:New..Write")],
  ["ring.Buffer exported methods"], [("read/write/full", "positions and full flag", "ring/buffer.go")])
p("C02", "Frame re-chunking preserves the sample stream and emits only full frames",
  "However the input is split into writes, a full-frame writer passes on the concatenation of the input, in order and without loss or duplication, in frames of exactly the requested size; only closing it may emit one shorter final frame. If the destination rejects a frame the error is returned and every sample not part of an attempted frame is still delivered, once, by later writes or close. Closing always closes the destination.",
  ["inputs", "histories", "fault_sequences"], "every splitting of the input into writes, every frame size, every pattern of destination errors",
  "TestFullFrames uses one frame size, one split and a destination that never fails.",
  ["buffers.go"], [("append to a carry buffer, slice off whole frames, keep the remainder", "buffers.go:flush")],
  ["media.FullFrames", "destination WriteSample/Close"])
p("C03", "Serialised frames have their declared size and the right bytes",
  "For every frame type (16-bit PCM, A-law, mu-law, G.722, Opus) copying a frame to a large-enough buffer writes exactly its declared size: PCM little-endian two bytes per sample, the others byte for byte, leaving the rest of the buffer alone. A smaller buffer yields a short-buffer error, zero bytes reported and an untouched destination.",
  ["inputs"], "every sample value, every frame length and destination length",
  "No test covers CopyTo directly; endianness, off-by-one and sign bugs show on particular values and lengths only.",
  ["pcm.go", "g711/alaw.go", "g711/ulaw.go", "g722/g722.go", "opus/opus.go"], [("Size/CopyTo", "pcm.go:CopyTo")], ["Frame.Size", "Frame.CopyTo"])
p("C04", "Mono/stereo conversion duplicates and averages samples exactly",
  "Converting mono to stereo puts each sample in both channels; converting stereo to mono yields for every pair the exact average of the two samples (rounded toward zero), for all 16-bit values, also in place. Converting to stereo and back is the identity, nothing beyond the result is written, and a destination that is too small panics before anything is written.",
  ["inputs"], "every pair of 16-bit samples, every length, in-place or separate buffers",
  "No test calls the converters; overflow needs two loud samples of the same sign.",
  ["pcm.go"], [("MonoToStereo / StereoToMono", "pcm.go")], ["media.MonoToStereo", "media.StereoToMono"])
p("C05", "Stored and forwarded media does not alias the caller's buffer",
  "A component that keeps media beyond the call that delivered it (frame collector, sample buffer, WebRTC sample writer, RTP packet buffer, jitter handler, WebM writer, full-frame writer, mixer input and the output a mixer fills) keeps its own copy: what it later exposes equals what it was given, whatever the caller does to its buffer afterwards, and it never changes the caller's buffer.",
  ["inputs", "histories"], "every content and length, every overwriting of the caller's buffer after the call",
  "Tests never reuse the input buffer after writing it, so a missing copy is invisible to them.",
  ["pcm.go", "buffers.go", "rtp/rtp.go", "webm/writer.go", "mixer/mixer.go"], [("slices.Clone / append / copy before storing", "pcm.go, rtp/rtp.go")], ["stored frames after the caller overwrote its buffer"])
p("C06", "Switch writer routes each sample to the writer attached at that moment",
  "At any point of any history of attach, detach, enable, disable, write and close, a sample written to a switch writer goes, unchanged and once, to the currently attached writer if the switch is enabled, and nowhere otherwise. Attaching returns the previously attached writer without closing it, closing closes exactly the attached writer and detaches it, and errors of the attached writer are returned. The sample rate can be set once, only if it was left open, and using it unset panics. When operations run at the same time, every writer ever attached is handed back, closed or still attached exactly once, a sample reaches at most one writer, and one of several settings of the rate is accepted.",
  ["inputs", "histories", "fault_sequences"], "every history of switch operations and writer errors; every sample rate",
  "No test exercises the switch; mistakes show only after particular sequences such as disable, swap, enable, close.",
  ["media.go"], [("atomic pointer, atomic rate and disabled flag", "media.go:SwitchWriter")], ["SwitchWriter methods", "attached writers"])
p("C07", "Multi-writer delivers to every writer even when some fail",
  "Every write and close on a multi-writer reaches each member exactly once, in order, whatever errors other members return. If any member fails an error from a failing member is returned, otherwise none, and its sample rate is that of the first member (zero if there are none).",
  ["inputs", "fault_sequences"], "every number of members and every pattern of member errors",
  "No test uses failing members.",
  ["media.go"], [("loop remembering the last error", "media.go:MultiWriter")], ["member WriteSample/Close calls", "returned error"])
p("C08", "Raw file writer stores the exact byte stream and reports write faults",
  "After any sequence of writes and a close, the file received exactly the concatenation of the serialised frames, in order, whatever the frame sizes. A fault of the underlying file is reported by a write or by close, and close closes the underlying file exactly once even when flushing fails.",
  ["inputs", "histories", "fault_sequences"], "every sequence of frame sizes and contents; every position of a file fault",
  "No test covers the file writer, its buffer reuse across shrinking and growing frames, or faults.",
  ["media.go", "dump.go"], [("reused scratch buffer plus bufio.Writer", "media.go:fileWriter")], ["bytes passed to the io.WriteCloser", "Close results"])
p("C09", "Sample pipe hands over every sample in order and never strands a peer",
  "Under every interleaving of readers, writers and closers, each sample written to a pipe is read exactly once and in order, and a write returns success only after all its samples were read; an empty write is read once as no samples. After either side is closed every pending or later operation returns promptly with the close error (end-of-stream for a plain writer close, closed-pipe for a plain reader close), and the first close error is the one kept.",
  ["schedules", "inputs"], "every interleaving of reads, writes and closes; every chunk and buffer length",
  "The pipe has no test; the Go scheduler would show only a few of the interleavings of close with blocked operations.",
  ["pipe.go"], [("rendezvous channels plus done channel", "pipe.go:read/write/closeRead/closeWrite")], ["PipeReader/PipeWriter results"])
p("C10", "Audio playback writes each frame once, in order, until done or failed",
  "Playing a list of frames writes them to the destination in order, exactly one per tick, and returns success right after the last one. It stops without writing more when the context is cancelled (returning its error) or when the destination fails (returning that error).",
  ["inputs", "fault_sequences", "schedules"], "every number of frames, every position of a write error, every order of ticks and cancellation",
  "No test covers playback; cancellation racing a tick is not sampled.",
  ["pcm.go"], [("ticker loop", "pcm.go:PlayAudio")], ["media.PlayAudio", "destination WriteSample"])
p("C11", "Resampling writer delivers all resampler output once and in order",
  "Whatever the resampling engine consumes and yields per call, the resampling writer feeds it every input sample once and in order (holding back less than one output sample's worth) and passes all of its output on, in order, without loss or duplication. Until closing, only full frames are emitted, their size corresponding to the largest input frame so far, and never is a full frame held back. Closing drains the engine completely, then the remaining samples, releases the engine and closes the destination. Equal rates bypass the engine; engine and destination errors of a write are returned.",
  ["inputs", "histories", "fault_sequences"], "every split of the input, every number of samples the engine yields per call, every engine or destination error",
  "TestResample checks two rate pairs with one frame size on one file and compares only durations.",
  ["resample.go", "resample_soxr.go"], [("append into a growing buffer, flush whole frames", "resample_soxr.go:WriteSample/flush/Resample")], ["destination WriteSample/Close", "calls into the engine"])
p("C12", "Codec registry: enablement and lookups are consistent",
  "After any history of registering, enabling and disabling codecs, a codec is enabled exactly if the last setting for its name (ignoring letter case; registering a codec marked disabled counts as disabling) did not disable it. The enabled list is the registered codecs in order without the disabled ones, name lookup in SDP finds the latest registered codec of that name in any letter case with or without an explicit single channel suffix and never returns a disabled one, payload-type lookup returns the latest static codec of that type and never fails for any type, and every registration callback sees every codec once whether it was installed before or after.",
  ["histories", "inputs"], "every history of registry operations; every name casing; every payload type byte",
  "Tests toggle one or all codecs in one order with one casing.",
  ["codecs.go", "sdp/codecs.go", "rtp/codecs.go"], [("disabled map keyed by lower-cased name", "codecs.go"), ("registration callbacks filling name and type tables", "sdp/codecs.go, rtp/codecs.go")], ["media.EnabledCodecs", "media.CodecEnabledByName", "sdp.CodecByName", "rtp.CodecByPayloadType"])
p("C13", "Diagnostic dumps record the exact streams without changing them",
  "A dump writer passes every frame and the close to its destination exactly once and unchanged, with the destination's errors, and its file, named after the sample rate and format, gets exactly the serialised frames in order and is closed once; file faults are reported and leave a prefix of the stream. With the LK_DUMP switches on, G.722 decoding and encoding, RTP media and resampling deliver what they deliver without, and every stream has a file of its own.",
  ["inputs", "fault_sequences", "histories"], "every frame content and length, failures of the destination and of the file at every point",
  "Dumps have no test and are switched on by the environment only.",
  ["dump.go", "g722/g722.go", "rtp/codecs.go", "resample.go"], [("DumpWriter, DumpWriterPCM16", "dump.go"), ("LK_DUMP_G722, LK_DUMP_MEDIA, LK_DUMP_RESAMPLE", "g722/g722.go, rtp/codecs.go, resample.go")], ["the destination's frames and closes", "the dump files"])
p("C14", "In-memory readers and writers and adapters pass media through exactly",
  "Reading a sample buffer with reads of any sizes delivers its samples once and in order and never changes it; frame and sample writers keep everything written, with its boundaries, after what the destination already held, and nothing after close; every frame written to a WebRTC track writer becomes one sample with its bytes and the configured duration; no-op closers never close what they wrap but forward everything else; handler and codec adapters call exactly what they were built from; clearing zeroes exactly the frame. Errors are returned unchanged and sample rates are those configured.",
  ["inputs", "histories"], "every content, every sequence of frame and read sizes, failures at every point, every rate and duration",
  "Tests use these adapters as scaffolding for other tests, with whole frames and without failures.",
  ["pcm.go", "media.go", "rtp/rtp.go", "rtp/codecs.go"], [("bufferReaderPCM16, frameWriterPCM16, bufferWriterPCM16, sampleWriter", "pcm.go"), ("NopCloser", "media.go"), ("HandlerFunc, NewNopCloser", "rtp/rtp.go"), ("audioCodec", "rtp/codecs.go")], ["destinations' frames and closes", "buffers"])

p("C15", "Destinations of another sample rate are reached through exactly one resampler",
  "Attaching a writer to a switch, or decoding A-law, mu-law or G.722 for a destination, directly or as an RTP codec, works for every sample rate of the destination: what the switch is given, or what the codec decodes at its own rate, passes in order and completely through one resampler from that rate to the destination's and all of its output reaches the destination, without any resampler if the rates are equal. The attached writer and the decoder take samples of the switch's or the codec's rate, closing them (for a switch also after they were handed back) drains and releases the resampler and closes the destination once. Encoders refuse rates their codec does not have.",
  ["inputs", "configurations", "histories"], "every pair of rates, every content, every sequence of attached writers",
  "Tests attach and decode at the native rate; a swapped or missing resampler only changes pitch and speed.",
  ["media.go", "resample.go", "g711/alaw.go", "g711/ulaw.go", "g722/g722.go", "rtp/codecs.go"], [("Swap", "media.go"), ("ResampleWriter", "resample.go"), ("DecodeALaw, DecodeULaw, Decode", "g711, g722"), ("DecodeRTP", "rtp/codecs.go")], ["engines created, their rates, inputs and releases", "destination samples and closes"])

# ---------------------------------------------------------------- codecs
p("G01", "G.711 decoding matches the ITU-T expansion for every byte",
  "Decoding any A-law or mu-law byte yields the ITU-T G.711 linear value scaled to 16 bits, and the codec's writer, sample method and table functions agree.",
  ["inputs"], "all 256 codes of both laws, any frame",
  "The sweep test file samples the codes that one tone sweep happens to contain.",
  ["g711/g711.go", "g711/alaw.go", "g711/ulaw.go"], [("expansion tables built at start-up", "g711/g711.go:init")], ["DecodeALawTo/DecodeULawTo", "ALawSample.Decode", "ULawSample.Decode"])
p("G02", "G.711 encoding picks a nearest code, is monotone and round-trips",
  "Encoding any 16-bit sample yields a code whose decoded value is within half a quantisation step of the sample (within the sample's four-unit input resolution and saturating at the extremes), larger samples never decode to smaller values, and encoding a decoded code yields the same code (the two mu-law zeros identified).",
  ["inputs"], "all 65536 sample values and all code bytes, both laws",
  "The sweep test compares one recording; segment boundaries and extremes are not all in it.",
  ["g711/g711.go"], [("compression tables built by inverting the expansion", "g711/g711.go:buildLawTable")], ["EncodeALawTo/EncodeULawTo"])
p("G03", "G.711 stream codecs transform each frame independently of earlier frames",
  "For any sequence of frame sizes, each frame written to a G.711 encoder or decoder reaches the destination once, with the same number of samples, each equal to the per-sample code of its own input, regardless of the sizes and contents of earlier frames. Errors of the destination are returned and closing closes it once.",
  ["inputs", "histories", "fault_sequences"], "every sequence of frame lengths (growing, shrinking, empty) and contents",
  "Tests use one whole-file frame; stale data in the reused buffer needs shrinking or growing frames.",
  ["g711/alaw.go", "g711/ulaw.go"], [("reused scratch buffer resized per frame", "g711/alaw.go:WriteSample")], ["destination WriteSample"])
p("G04", "G.722 stream codecs emit the right amount of data for every frame",
  "For any sequence of frame sizes the G.722 decoder delivers, per frame, two samples per byte (one in 8 kHz mode) and the encoder one byte per two samples, rounded up (one per sample in 8 kHz mode), each frame forwarded once and coded exactly as the underlying codec codes it, regardless of earlier frame sizes; the sample rate of the destination selects the mode.",
  ["inputs", "histories"], "every sequence of frame lengths and contents, both rates",
  "The G.722 package has no test at all.",
  ["g722/g722.go"], [("size computation and reused scratch buffer", "g722/g722.go:decodeSize/encodeSize/WriteSample")], ["destination WriteSample"])
p("O01", "Opus decoder adapts every packet to the configured channel count",
  "Whatever mix of mono and stereo packets arrives, each successfully decoded packet is delivered once in the configured channel layout: mono duplicated to both channels, stereo averaged, otherwise unchanged, with exactly the decoded number of samples. Empty packets are ignored, and the inner decoder is replaced exactly when the packet channel count changes.",
  ["inputs", "histories"], "every sequence of mono/stereo packets and decoded lengths, both targets",
  "The opus package has no test; stale-buffer and reset bugs need channel changes mid-stream.",
  ["opus/opus.go", "pcm.go"], [("resetForSample, MonoToStereo, StereoToMono", "opus/opus.go:WriteSample")], ["destination WriteSample"])
p("O02", "Opus decoder tolerates at most five consecutive corrupt packets",
  "Up to five corrupted packets in a row are skipped silently without output, the sixth in a row is reported as an error, any successfully decoded packet resets the count, and every other decoding error is reported immediately.",
  ["fault_sequences", "histories"], "every sequence of good, corrupt and otherwise failing packets",
  "No test feeds corrupt packets.",
  ["opus/opus.go"], [("successiveErrorCount", "opus/opus.go:WriteSample")], ["WriteSample error", "destination WriteSample"])
p("O03", "Opus encoder forwards every encoded frame once and reports failures",
  "Every frame written to an Opus encoder is encoded exactly once, unchanged, by an encoder of the destination's sample rate and the configured channel count, and exactly the bytes the encoder produced are delivered once, in order. Failures to create the encoder, to encode, to deliver or to close are returned, and a frame that was not encoded is not delivered.",
  ["inputs", "fault_sequences"], "every frame content and length, every encoded length and content, every pattern of encoder and destination failures",
  "The opus package has no test; mixed-up buffers or swallowed errors need particular failures.",
  ["opus/opus.go"], [("encoder.WriteSample, Encode", "opus/opus.go")], ["destination WriteSample and Close"])
p("W01", "WebM blocks carry every frame at its exact media time",
  "Every frame written to a WebM writer becomes one block with the frame's bytes, in order, time-stamped with the number of frames written before it times the frame duration, truncated to milliseconds, for every frame duration. The file declares one audio track with the codec, sampling rate, channels and frame duration given. Errors are returned and close closes the block writer.",
  ["inputs", "histories"], "every frame duration (also below or not a multiple of a millisecond), every number of frames, every content",
  "The WebM writer is only used with 20 ms frames and never checked; drift needs a fractional-millisecond duration.",
  ["webm/writer.go"], [("time accumulator", "webm/writer.go:WriteSample")], ["block writer Write calls"])
p("E01", "Decoded audio resources are re-split without losing samples",
  "Reading an audio resource yields the decoder's samples in order and complete, scaled to 16 bits, split into 20 ms frames of which only the last may be shorter, whatever amounts the decoder returns per call.",
  ["inputs", "histories"], "every sequence of read sizes of the decoder",
  "No test reads a resource; only specific read sizes expose splitting mistakes.",
  ["res/embed.go"], [("collect then split", "res/embed.go:ReadOggAudioFile")], ["res.ReadOggAudioFile result"])

# ---------------------------------------------------------------- jitter buffer
p("J01", "Jitter buffer delivers packets in sequence order, at most once, unmodified",
  "Whatever order, loss and duplication packets of a stream arrive with, the packets handed to the handler are packets that were pushed, unmodified, each sequence number at most once, in increasing sequence order modulo 2^16 (within the reordering window, across the wrap-around).",
  ["inputs", "histories", "schedules"], "every arrival order, loss and duplication of packets, every starting sequence number, all arrival and expiry times",
  "Tests push a handful of hand-made orders from a random start; duplicates are never pushed.",
  ["jitter/buffer.go", "jitter/packet.go"], [("sorted linked list keyed by sequence number, late packets rejected against last popped", "jitter/buffer.go:push/popReady")], ["PacketFunc callback"],
  [("prevSN", "last sequence number taken from the list", "jitter/buffer.go"), ("head/tail", "sorted list of held packets", "jitter/buffer.go")])
p("J02", "Jitter buffer neither delays contiguous packets nor skips gaps early",
  "A complete sample that directly follows the last delivered packet is handed over as soon as its last packet arrives. A complete sample behind a missing packet is handed over exactly when the missing packet shows up or once the buffer handles an event at least the configured latency after the sample's first packet was received, never earlier.",
  ["inputs", "histories", "schedules"], "every arrival order and every arrival and event time, every latency",
  "Tests use real sleeps with one latency and one gap.",
  ["jitter/buffer.go"], [("expiry comparison in popReady", "jitter/buffer.go:popReady")], ["PacketFunc callback relative to pushes and clock"])
p("J03", "Jitter buffer hands over only complete samples",
  "Every handler call carries one complete sample: its first packet starts a sample, its last packet, and no earlier one, ends it, and its sequence numbers are consecutive. Packets of samples that never complete are dropped after the latency instead of being delivered.",
  ["inputs", "histories", "schedules"], "every arrival order, loss and duplication of multi-packet samples",
  "Tests lose one head and one tail packet in one pattern.",
  ["jitter/buffer.go", "jitter/packet.go"], [("isComplete / popSample / dropIncomplete", "jitter/packet.go, jitter/buffer.go")], ["PacketFunc callback"])
p("J04", "Jitter buffer statistics account for every packet",
  "At any moment the number of packets pushed equals packets popped plus dropped plus still held plus ignored padding, where packets that arrive too late and duplicates count as dropped, and from the first delivered packet on, every sequence number up to the last one consumed has been counted exactly once as popped, dropped from the buffer or lost. Loss notifications carry the current lost and dropped totals and are issued whenever either grows. Statistics that were handed out do not change afterwards.",
  ["inputs", "histories", "schedules"], "every arrival order, loss and duplication, all times",
  "Tests compare totals after a few fixed scenarios.",
  ["jitter/buffer.go"], [("stats counters", "jitter/buffer.go")], ["Buffer.Stats", "Buffer.Size", "PacketLossFunc"])
p("J05", "Flushing the jitter buffer empties it, delivering what is complete",
  "Flush hands over every complete sample held, in order, without waiting for the latency, drops every incomplete one, and leaves the buffer empty; packets pushed afterwards are handled as usual.",
  ["inputs", "histories"], "every buffer content reachable by pushes",
  "Two fixed flush scenarios are tested.",
  ["jitter/buffer.go"], [("Flush", "jitter/buffer.go:Flush")], ["PacketFunc callback", "Buffer.Size", "Buffer.Stats"])
p("J06", "Padding packets keep the sequence contiguous but are never delivered",
  "Padding packets are never handed to the handler, but a padding packet in sequence does not delay or count as lost for the packets after it; padding received before the first delivered sample is ignored.",
  ["inputs", "histories"], "every interleaving of media and padding packets in every order",
  "No test pushes padding.",
  ["jitter/buffer.go"], [("Padding checks in push and popSample", "jitter/buffer.go")], ["PacketFunc callback", "Buffer.Stats"])
p("J07", "A stream restart is delivered without waiting or loss accounting",
  "When the sender jumps to a far-away sequence number (3000 or more ahead, or clearly more than 3000 behind) and the new stream begins at the start of a sample, in-order packets of the new stream are handed over immediately and in order after the ones before it, while those behind a gap in the new stream wait as usual, and the jump is not counted as loss.",
  ["inputs", "histories"], "every jump distance that the window treats as a restart, every start",
  "One jump of half the sequence space is tested.",
  ["jitter/buffer.go"], [("discont flag", "jitter/buffer.go:push")], ["PacketFunc callback", "Buffer.Stats"])

# ---------------------------------------------------------------- RTP
p("R01", "RTP sequence numbers are consecutive across all streams of a sender",
  "The packets a sequence writer passes on carry consecutive sequence numbers modulo 2^16 starting at zero, one constant SSRC and version 2, each with the payload type, timestamp, marker and payload of its event, however many streams interleave, also concurrently. A packet the transport rejects does not consume a sequence number and its error is returned.",
  ["inputs", "histories", "fault_sequences", "schedules"], "every interleaving of streams and events, every transport fault position, wrap-around",
  "Tests interleave streams in five fixed patterns and never fail the transport.",
  ["rtp/rtp.go"], [("SeqWriter.WriteEvent under a mutex", "rtp/rtp.go")], ["Writer.WriteRTP calls"])
p("R02", "RTP timestamps advance per frame and streams stay aligned",
  "While timestamps stay within 32 bits without wrap-around, a stream used alone stamps successive frames exactly one frame duration apart plus explicitly requested delays, follow-up payloads repeat the timestamp of the first, and a failed write does not advance it. A stream that resumes more than 25 frames behind the most advanced stream of its sender continues at the latter's timestamp, and otherwise keeps its own; the sender's most advanced timestamp never decreases.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every sequence of writes, delays and resets on several streams; every start timestamp and frame duration; every interleaving",
  "Tests use fixed patterns with 20 ms frames from timestamp zero.",
  ["rtp/rtp.go"], [("Stream.writePayload/Delay and SeqWriter.CurTS compare-and-swap loop", "rtp/rtp.go")], ["packet timestamps", "Stream.GetCurrentTimestamp", "SeqWriter.CurTS"])
p("R03", "RTP mux dispatches each packet to the handler of its payload type",
  "After any history of registrations, removals and default changes, a packet is given once, unchanged, to the handler currently registered for its payload type, else to the current default, else dropped without error, for every payload type byte; the handler's error is returned. Handlers may change registrations or dispatch packets themselves, and a handler that is busy holds up neither registrations nor other packets.",
  ["inputs", "histories"], "every payload type value, every history of registrations",
  "The mux has no test; the static/dynamic boundary is one value among 256.",
  ["rtp/mux.go"], [("static array below the first dynamic type, map above", "rtp/mux.go")], ["Handler.HandleRTP calls"])
p("R04", "RTP write streams put exactly header plus payload on the wire",
  "For every header and every payload, each RTP write issues exactly one datagram consisting of the marshalled header followed by the payload, so that parsing it (when it is not flagged as padded) gives back the same header fields and payload, independent of earlier packets' sizes; marshalling and connection errors are returned and nothing is sent for an unmarshallable header.",
  ["inputs", "histories", "fault_sequences"], "every header field value, CSRC count, extension and payload length; every sequence of packet sizes",
  "No test covers the UDP session.",
  ["rtp/session.go"], [("writeStream.WriteRTP reusing a buffer", "rtp/session.go")], ["net.Conn Write"])
p("R05", "RTP sessions deliver each stream's packets intact and in order",
  "Under every interleaving of the receive loop, readers and close, the packets a reader obtains from a stream are packets of that SSRC, in arrival order, each once, with the header (including header extensions) and payload of that same packet, unaffected by later datagrams. Oversized or unparsable datagrams are ignored, each SSRC is accepted as a new stream once, up to ten packets a reader has not yet asked for are kept without losing any, and after close readers are released with end-of-stream.",
  ["schedules", "inputs"], "every interleaving of receive loop, reader and close; every datagram content and SSRC pattern",
  "No test covers the UDP session; the hand-over between receive loop and reader depends on the interleaving.",
  ["rtp/session.go"], [("AcceptStream demultiplexing by SSRC; readStream direct hand-over or queue", "rtp/session.go:write/ReadRTP")], ["ReadStream.ReadRTP", "Session.AcceptStream"])
p("R06", "UDP port selection tries exactly the ports of the requested range",
  "Listening in a port range at an IPv4 or IPv6 address tries, at that address, only ports inside the (normalised) range, each at most once, until one succeeds; it fails only after every port of the range was found in use, and any error other than address-in-use is returned at once. A single-port range tries that port, an unset range lets the system choose, an empty range fails without trying.",
  ["inputs", "fault_sequences"], "every range bounds, every random start, every pattern of bind outcomes",
  "No test covers listening; wrap-around at the range end depends on a random start.",
  ["rtp/listen.go"], [("bindRange", "rtp/listen.go")], ["bind attempts and result"])
p("R07", "RTP handlers forward packets, surface errors and close exactly once",
  "The receive loop passes every packet it reads to its handler in order, stops at the first read or handler error returning that error, and always closes the handler exactly once. The jitter handler forwards in-order packets to its handler unchanged within the same call, reports a handler error from that call, and closing it closes its handler.",
  ["inputs", "histories", "fault_sequences"], "every packet sequence and every position of read and handler errors",
  "No test covers the loop or the jitter handler's error path.",
  ["rtp/rtp.go", "rtp/jitter.go"], [("HandleLoop", "rtp/rtp.go"), ("jitterHandler", "rtp/jitter.go")], ["Handler calls", "returned errors"])
p("R08", "RTP media streams carry each encoded frame as one packet and back",
  "Writing PCM frames through a codec's RTP encoder emits one packet per frame with the frame's encoded bytes, the stream's payload type and no marker, and feeding those packets to the codec's RTP decoder delivers exactly the decoded frames in order, for the G.711 codecs at their native rate.",
  ["inputs", "histories"], "every sequence of frames and contents",
  "Tests check timestamps of one G.711 pipeline only.",
  ["rtp/codecs.go", "rtp/rtp.go"], [("EncodeRTP/DecodeRTP wiring", "rtp/codecs.go")], ["packets written", "PCM delivered"])

# ---------------------------------------------------------------- DTMF, tones
p("D01", "DTMF events survive encoding and decoding",
  "Encoding a telephone event with a known digit or an explicit code and decoding the four bytes gives back the same code, digit, end flag, duration and volume (six bits); every four-byte payload decodes to its RFC 4733 fields and re-encodes to itself apart from the reserved bit. Shorter input or output buffers give an error, RTP decoding accepts exactly marked packets, and each of the sixteen keypad digits has its own code and standard tone pair.",
  ["inputs"], "every event field value, every payload byte and length, every digit byte",
  "Two payloads are tested.",
  ["dtmf/dtmf.go"], [("Encode/Decode/Tone tables", "dtmf/dtmf.go")], ["dtmf.Encode", "dtmf.Decode", "dtmf.DecodeRTP", "dtmf.Tone"])
p("D02", "DTMF sequences produce a well-formed event stream for any digits",
  "For any digit string and start timestamp from which timestamps do not wrap around, writing it emits for every keypad digit, in order, one event: packets all with the same timestamp, the first alone marked, durations growing by one frame per packet, ended by three end packets with the final duration. On a stream of its own the timestamps of successive events are apart by exactly the 250 ms of the event, the 250 ms pause after it and half a second for each 'w' in between; unknown characters emit no event and never move a timestamp back, in-band audio, when requested, is one full frame per tick and audible only while an event lasts, and audio and events can each be absent.",
  ["inputs", "fault_sequences"], "every digit string up to a length, every start timestamp, audio present or not, cancellation and error positions",
  "One digit string is tested in real time, without audio.",
  ["dtmf/dtmf.go", "rtp/rtp.go"], [("Write loop driven by a ticker", "dtmf/dtmf.go:Write")], ["packets on the event stream", "audio frames"])
p("T01", "Tone playback follows the programmed tone/silence cadence",
  "Playing a cadence writes one full frame per tick at the destination rate, audible exactly while a tone of the cadence is active and silent exactly during its silences, each segment lasting its duration rounded up to whole frames, repeating forever until the context is cancelled or the destination fails, whose error is returned. The predefined tones are the ETSI ones: 425 Hz continuously, one second in five (ringing) and half a second in one (busy).",
  ["inputs", "histories", "fault_sequences"], "every list of tone and silence durations, every error position",
  "No test covers tones.",
  ["tones/tones.go"], [("Play loop", "tones/tones.go:Play")], ["destination WriteSample"])
p("T02", "Generated tones fill the frame, stay within the amplitude and keep phase",
  "Generating a tone fills every sample of the frame with a value whose magnitude does not exceed the requested amplitude, silence for an empty frequency list, returns the start time plus the duration, and several frequencies are mixed as the mean of the single tones, and the time at which each sample is evaluated depends only on its position, so consecutive frames are phase-continuous.",
  ["inputs"], "every frame length, start time, amplitude and one or two frequencies",
  "No test covers tones; overflow needs specific phases.",
  ["tones/tones.go"], [("Generate", "tones/tones.go:Generate")], ["tones.Generate output"])

# ---------------------------------------------------------------- mixer
p("X01", "Mixed output is the saturated sum of the playing inputs",
  "Every mixed frame has the full frame length and each of its samples is the sum of the corresponding next samples of all inputs that are playing, limited to plus/minus 32767; inputs that are buffering, empty or removed contribute silence, and an input that runs short contributes what it has followed by silence.",
  ["inputs", "histories"], "every sample value, number of inputs, buffered amounts and history of adds, removes and writes",
  "Tests use at most two inputs with a few chosen samples.",
  ["mixer/mixer.go"], [("mixInputs accumulates in 32 bits, mixOnce clamps", "mixer/mixer.go")], ["output WriteSample"])
p("X02", "Mixer inputs buffer before playing, restart after starving, drop oldest",
  "A new or starved input stays silent until at least its minimum number of frames (half the limit plus one) is buffered and then plays its samples in order without gaps until it runs empty. Samples written beyond the buffer limit displace exactly the oldest ones, and every sample is either mixed exactly once or displaced.",
  ["inputs", "histories"], "every history of writes of any size and mixes, every buffer limit",
  "Tests follow one fixed history with one frame size.",
  ["mixer/mixer.go", "ring/buffer.go"], [("Input.readSample buffering flag, ring buffer", "mixer/mixer.go")], ["output WriteSample", "Input.WriteSample"])
p("X03", "Mixer keeps real-time pace: no drift, bounded catch-up",
  "Whenever it wakes up, the mixer produces as many frames as frame durations have elapsed since the last produced frame's time, give or take a quarter frame, never more than the input buffer limit at once (after which it resynchronises to now) and none if it is early, so that without resynchronisation the total number of frames never differs from elapsed time by more than one frame.",
  ["schedules", "inputs"], "every sequence of wake-up times, frame durations and buffer limits",
  "One catch-up scenario with real sleeps is tested.",
  ["mixer/mixer.go"], [("mixUpdate", "mixer/mixer.go")], ["number of mixed frames per wake-up"])
p("X04", "Mixer statistics and input membership are exact",
  "At any time the track count is the number of added minus removed inputs, totals of input frames and samples, mixes and output frames and samples equal what was written and produced, dropped samples equal the written samples that were displaced, and write errors equal failed output writes. Closing an input twice or closing a foreign or absent one changes nothing, and a stopped mixer adds no inputs.",
  ["histories", "fault_sequences", "inputs"], "every history of add, remove, write, mix and stop operations with output errors",
  "Statistics are never checked by tests.",
  ["mixer/mixer.go"], [("Stats counters, RemoveInput", "mixer/mixer.go")], ["mixer.Stats", "NewInput/Close"])

p("L01", "Stopped or closed components end their background work",
  "After a mixer is stopped or a jitter buffer closed, at any moment (also while a mix or a timer is due, and with an output channel while the output is slow or failing), its goroutines end once the output returns, its ticker or timer is stopped, and it delivers nothing more by itself (apart from a delivery already due or under way when it was stopped); using or stopping it again is harmless. Playback of audio, tones and DTMF returns after completion, cancellation or failure with its ticker released.",
  ["schedules", "histories", "fault_sequences"], "every moment of stopping within every history of events, every interleaving of stop with a due tick or timer, every point of cancellation or failure",
  "Tests stop components only when idle and never look at what is left running.",
  ["mixer/mixer.go", "jitter/buffer.go", "pcm.go", "tones/tones.go", "dtmf/dtmf.go"], [("Mixer.start/writer/Stop", "mixer/mixer.go"), ("Buffer.Close and its goroutine", "jitter/buffer.go"), ("PlayAudio, tones.Play, dtmf.Write", "pcm.go, tones/tones.go, dtmf/dtmf.go")], ["goroutines and tickers left after Stop/Close", "output writes after Stop"])
p("K01", "Components meant for concurrent use are free of data races",
  "Any two operations (including String) of a switch writer, frame buffer, sample buffer writer, resampling writer, pipe, mixer and its inputs, jitter buffer, RTP sequence writer and its streams, payload type mux or RTP session (one reader per stream) that run at the same time never access the same memory without synchronisation when one of them writes it, and never deadlock.",
  ["schedules", "inputs"], "every pair of operations under every interleaving, and the components' own goroutines",
  "Tests run almost everything from one goroutine; the race detector only sees what a test happens to run concurrently.",
  ["media.go", "buffers.go", "pcm.go", "resample_soxr.go", "pipe.go", "mixer/mixer.go", "jitter/buffer.go", "rtp/rtp.go", "rtp/mux.go", "rtp/session.go"], [("SwitchWriter atomics", "media.go"), ("mutexes of Mixer/Input/Buffer/Mux/SeqWriter/Stream/session", "mixer/mixer.go, jitter/buffer.go, rtp/mux.go, rtp/rtp.go, rtp/session.go")], ["all exported operations of these components"])

# ---------------------------------------------------------------- SDP / SRTP
p("S01", "Offer and answer agree on codec, payload types and addresses",
  "For any enabled codec sets on both sides that share an audio codec, answering an offer and applying the answer give both sides the same audio codec, audio payload type and DTMF payload type, all of which the offer listed, the highest-priority common codec being chosen, the first one listed among equals; each side's remote address is the other's local one. Without a common codec both fail with the no-common-media error.",
  ["configurations", "inputs"], "every pair of enabled codec sets, every address and port",
  "Tests enable all codecs, or all but one, and never connect both halves.",
  ["sdp/offer.go", "sdp/codecs.go"], [("SelectAudio, OfferMedia, AnswerMedia, ParseMedia", "sdp/offer.go")], ["sdp.NewOffer", "Offer.Answer", "Answer.Apply"])
p("S02", "Encryption policy is enforced in every negotiation",
  "With encryption required, negotiation either yields keys for a profile both sides listed or fails, never plain RTP; with encryption disabled, no keys are ever negotiated or offered; with encryption allowed, keys are negotiated exactly if the peer offers a common profile. The media protocol and crypto attributes of the generated descriptions always match what was negotiated.",
  ["configurations", "inputs"], "all policy combinations of both sides and every list of peer crypto profiles",
  "Tests use one require/require session and a few parsed offers.",
  ["sdp/offer.go", "srtp/srtp.go"], [("Answer/Apply policy checks, SelectCrypto", "sdp/offer.go")], ["Offer.Answer", "Answer.Apply", "MediaConfig.Crypto"])
p("S03", "Both ends of a negotiated SRTP session hold mirrored keys",
  "When offer and answer negotiate encryption, the answerer's sending key, salt and key identifier are the offerer's receiving ones and vice versa, under the same profile and echoing the tag of the offered entry, for all key bytes; generated profiles have the key and salt lengths of their cipher and fresh random content, and keys survive being written to and parsed from the crypto attribute.",
  ["inputs", "configurations"], "every key and salt byte, every order and subset of offered profiles, with and without key identifiers",
  "The integration test uses one profile order and a hand-mirrored configuration.",
  ["sdp/offer.go", "srtp/srtp.go"], [("SelectCrypto swap, appendCryptoProfiles, parseSRTPProfile", "sdp/offer.go"), ("DefaultProfiles", "srtp/srtp.go")], ["MediaConfig.Crypto of both sides", "answer attributes"])
p("S04", "Crypto attributes are parsed per RFC 4568 and never crash",
  "Every crypto attribute value is either parsed into exactly its tag, suite, key, salt, lifetime and key identifier, ignored, or rejected with an error, and never crashes the process; accepted profiles of a known suite always have a full-length key. Lifetimes 2^0..2^63 and positive decimals, and key identifiers of 1 to 8 bytes whose value fits, with or without a lifetime, parse to their exact values in big-endian form; others are rejected.",
  ["inputs"], "every key length, lifetime text and key identifier value and length",
  "Tests parse one lifetime, one key identifier and two well-formed keys.",
  ["sdp/offer.go"], [("parseSRTPProfile, parseLifetime, parseMKI", "sdp/offer.go")], ["sdp.ParseMedia result on crypto attributes"])
p("S05", "Media descriptions from the peer are parsed without crash or confusion",
  "Parsing any audio media section never crashes; each codec listed in the result carries the payload type number written in the section and is the enabled codec of that name or static type, entries with unparsable payload types or ones above 127 are ignored, and DTMF is recognised exactly from its telephone-event mapping in any letter case.",
  ["inputs", "configurations"], "every payload type number and format text, mapping order and codec enablement",
  "Tests parse a dozen well-formed sections.",
  ["sdp/offer.go", "rtp/codecs.go"], [("ParseMedia, CodecByPayloadType", "sdp/offer.go, rtp/codecs.go")], ["sdp.ParseMedia"])
p("S06", "Audio destination comes from the most specific connection line",
  "The audio destination of a description is the address of the connection line in force (the media-level one if present, else the session-level one) if that is of internet type, else of an internet-type origin, with the port of the first audio section; a missing, unusable or unparsable address, or a missing audio section, is an error and never a crash.",
  ["inputs", "configurations"], "every combination of present, absent and non-internet entries; every port",
  "Tests cover four of the combinations.",
  ["sdp/helpers.go"], [("GetAudioDest", "sdp/helpers.go")], ["sdp.GetAudioDest", "sdp.GetAudio"])
p("S07", "Generated offers list each enabled codec once with a unique payload type",
  "For any enabled codec set the offer lists exactly the enabled codecs, static ones first and each group by descending priority, with pairwise distinct payload types (dynamic ones from 101 up), a mapping line per listed type, the DTMF type flagged iff telephone events are enabled, and address and port as requested.",
  ["configurations", "inputs"], "every subset of enabled codecs, every address and port, all encryption modes",
  "Tests generate three offers.",
  ["sdp/offer.go", "codecs.go"], [("OfferCodecs, OfferMedia", "sdp/offer.go")], ["sdp.OfferMedia", "sdp.NewOffer"])
p("S08", "SRTP streams carry each packet's own header and payload",
  "Reading from an encrypted stream yields exactly the header and payload of the decrypted packet: the payload placed at the start of the caller's buffer with its length, the header complete including extensions and unaffected by later reads, and unparsable packets or transport errors reported as errors without data. Writing hands the header and payload to the encrypting session once and unchanged, and returns its errors.",
  ["inputs", "fault_sequences"], "every decrypted packet content, CSRC count, extension and payload length",
  "The integration test reads two packets without header extensions.",
  ["srtp/srtp.go"], [("readStream.ReadRTP parses in place and moves the payload", "srtp/srtp.go")], ["ReadStream.ReadRTP"])
p("S09", "Generated session descriptions are well-formed and say what was negotiated",
  "Every generated offer and answer is a well-formed session description for one permanent audio session whose origin and connection lines name the requested address with its address family (IP4 or IP6) and whose section has the requested port. An answer lists exactly the negotiated codec and, if negotiated, telephone events, with their mappings under the offered payload types, the negotiated key if any, 20 ms packets and both directions, and continues the offer's session identifier with a higher version; its text is accepted again and says the same.",
  ["inputs", "configurations"], "every payload type, port and session identifier, all policies, IPv4 and IPv6 addresses",
  "Tests compare two generated descriptions with IPv4 addresses.",
  ["sdp/offer.go"], [("AnswerMedia, NewOffer, Offer.Answer", "sdp/offer.go")], ["the generated description, its fields and its text"])

p("P01", "A negotiated call carries its audio and telephone events from end to end",
  "When two sides exchange an offer and an answer, each encodes and sends with the negotiated codec and payload types, and the other passes what its RTP session receives through a jitter buffer and a payload-type mux to the negotiated decoders, then every frame of audio sent is heard exactly once, in order and as the codec renders it, and every digit pressed is received once, in order, no matter how the network reorders or repeats packets after the first; a lost packet costs only itself, and what is behind it is heard once it is as old as the jitter buffer's latency. This holds in both directions.",
  ["inputs", "histories", "configurations", "fault_sequences"], "every common codec, all audio, every order of a few packets, loss at any position, long calls with swapped and repeated packets",
  "Tests exercise the parts alone; no test connects description, session, jitter buffer, mux and codecs.",
  ["sdp/offer.go", "rtp/session.go", "rtp/rtp.go", "rtp/jitter.go", "rtp/mux.go", "rtp/codecs.go", "jitter/buffer.go", "dtmf/dtmf.go", "g711/ulaw.go", "g722/g722.go"],
  [("NewOffer, Answer, Apply", "sdp/offer.go"), ("session", "rtp/session.go"), ("HandleJitter", "rtp/jitter.go"), ("Mux", "rtp/mux.go"), ("EncodeRTP, DecodeRTP", "rtp/codecs.go"), ("Write, DecodeRTP", "dtmf/dtmf.go")],
  ["audio frames delivered", "digits delivered", "errors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
