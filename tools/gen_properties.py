#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every stream is conforming AV1 and decodes to the encoder's reconstruction",
  "For every accepted configuration and every sequence of input pictures, the packets the encoder emits form an AV1 stream that independent conforming decoders accept without error. Decoding yields exactly one picture per packet, in packet order, with the configured size, chroma format and bit depth. Each decoded picture (before film grain is applied) is bit-for-bit equal, over the whole visible area of every plane, to the reconstruction returned with that packet.",
  ["inputs", "configurations"],
  "All accepted configurations (sizes, chroma formats, bit depths, speeds and individual tool settings, tiles, GOP and rate modes) and all picture contents.",
  "The encode/decode tests use a few sizes and one noise-like content with one setting varied at a time, compare chroma with the size rounded down, and never combine tools, tiles, chroma formats and GOP shapes.",
  ["src/encoder.rs", "src/header.rs", "src/context/", "src/ec.rs", "src/predict.rs", "src/mc.rs", "src/transform/", "src/quantize/", "src/deblock.rs", "src/cdef.rs", "src/lrf.rs", "src/segmentation.rs", "src/tiling/"],
  [("tile coding and reconstruction", "src/encoder.rs:encode_tile, encode_tile_group, encode_block_post_cdef"),
   ("frame and sequence headers", "src/header.rs:write_frame_header_obu, write_sequence_header_obu"),
   ("in-loop filters applied to the reconstruction", "src/deblock.rs, src/cdef.rs, src/lrf.rs"),
   ("reference and entropy state update", "src/encoder.rs:update_rec_buffer")],
  ["Packet.data decoded by dav1d and libaom", "Packet.rec"])

p("C02", "Each submitted frame comes out exactly once, in order, with its own data",
  "For every interleaving of submitting frames, asking for packets and flushing, the encoder eventually returns exactly one packet per accepted frame, numbered 0,1,2,... in submission order, each carrying the source picture and the user data attached to that very frame. Nothing is lost, duplicated or swapped, and after the last packet the encoder reports the end of the stream on every further request. Frames offered after a flush, or after the first frame of a still picture, are refused and leave the output unchanged, and requests that the encoder answers by asking for more input change neither the packets nor their bytes.",
  ["histories", "configurations"],
  "All call sequences over {submit, submit with parameters, flush, request packet}, all GOP shapes, look-ahead depths and frame counts.",
  "The API tests drive a handful of fixed submit/receive patterns, mostly with all-black frames, so swapped or misattributed pictures and unusual interleavings are not observed.",
  ["src/api/context.rs", "src/api/internal.rs", "src/api/lookahead.rs"],
  [("frame queue and output ordering", "src/api/internal.rs:ContextInner::receive_packet, send_frame, build_output..., finalize_packet"),
   ("status codes", "src/api/context.rs:Context::send_frame, receive_packet, flush"),
   ("reorder arithmetic", "src/api/internal.rs:InterConfig")],
  ["return values of every API call", "Packet.input_frameno, source, opaque, rec"])

p("C03", "Output does not depend on threads, scheduling or other encoders running",
  "For a given configuration (apart from the thread settings) and input, the encoder produces byte-identical packets and identical reconstructions on every run. The result does not depend on the number of worker threads, on whether a shared or private thread pool is used, on how threads are scheduled, or on other encoders running in the same process at the same time.",
  ["schedules", "configurations"],
  "All thread counts, pool arrangements, thread schedules and concurrent neighbours, for multi-tile and single-tile encodes with and without look-ahead and rate control.",
  "Unit tests run one encode at a time with default threading and never compare two runs; a schedule-dependent result shows up only when runs under different schedules are compared.",
  ["src/api/internal.rs", "src/encoder.rs", "src/api/config/mod.rs", "src/tiling/", "src/me.rs", "src/api/lookahead.rs"],
  [("parallel tile encode and ordered gather", "src/encoder.rs:encode_tile_group"),
   ("motion-search statistics shared between frames", "src/me.rs, src/encoder.rs:FrameState"),
   ("pool creation", "src/api/config/mod.rs:new_thread_pool")],
  ["Packet.data and Packet.rec across runs"])

p("C04", "Output bytes do not depend on the CPU instruction-set level",
  "For every configuration and input, the packets and reconstructions are byte-identical whichever CPU feature level the encoder is told to use, from portable code up to the best level of the machine.",
  ["inputs", "configurations"],
  "All feature levels selectable on this machine (portable, SSE2, SSSE3, SSE4.1, AVX2, AVX-512), all tool settings, bit depths, block sizes and contents.",
  "The tests run at the machine's own level only, or compare single kernels on a few random blocks; a divergence that needs particular content inside a full encode is not compared anywhere.",
  ["src/asm/x86/", "src/cpu_features/", "src/mc.rs", "src/dist.rs", "src/predict.rs", "src/transform/", "src/quantize/", "src/cdef.rs", "src/lrf.rs", "src/x86/"],
  [("dispatch tables", "src/asm/x86/*.rs, src/cpu_features/x86.rs"), ("portable kernels", "the `rust` modules of mc, dist, predict, transform, cdef, sad_plane")],
  ["Packet.data per CPU level"])

p("C05", "No memory error, undefined behaviour or internal failure on accepted input",
  "For every accepted configuration and every picture content, encoding performs no out-of-bounds, use-after-free or uninitialised memory access, including inside hand-written assembly. It triggers no arithmetic overflow and no failed internal assertion, and never panics.",
  ["inputs", "configurations"],
  "All accepted configurations and pixel values (including extremes and out-of-range samples for the bit depth being excluded), frame sizes down to the minimum and with odd edges.",
  "The tests run without sanitizers, on benign content and mostly aligned sizes; out-of-bounds reads that land in padding, and uninitialised reads, do not fail an ordinary test.",
  ["src/asm/", "src/x86/", "src/tiling/", "src/util/", "src/frame/", "src/context/", "src/encoder.rs", "src/mc.rs"],
  [("unsafe plane regions and tile views", "src/tiling/plane_region.rs, src/tiling/tile*.rs"), ("uninitialised scratch buffers", "src/util/uninit.rs, src/util/align.rs"), ("assembly entry points", "src/asm/x86/")],
  ["AddressSanitizer, valgrind memcheck and Miri reports", "debug assertions and overflow checks", "guard zones around kernel operands"])

p("C06", "Encoding threads never race on shared memory",
  "Under every schedule, worker threads that encode tiles, run look-ahead or serve the channel interface never access the same memory concurrently with at least one write and no ordering between them. Separate encoders sharing one thread pool do not race either.",
  ["schedules"],
  "All interleavings of tile workers, look-ahead tasks, channel threads and concurrently running encoders, with any tile layout.",
  "Data races are invisible to ordinary tests unless the bad interleaving happens and changes a checked value.",
  ["src/encoder.rs", "src/tiling/", "src/api/internal.rs", "src/api/channel/", "src/me.rs"],
  [("disjoint mutable tile views made with unsafe code", "src/tiling/tiler.rs:TileContextIterMut, src/tiling/tile_state.rs, tile_motion_stats.rs, tile_blocks.rs"), ("reader/writer lock on motion statistics", "src/me.rs:FrameMEStats, src/encoder.rs"), ("channel threads", "src/api/channel/mod.rs")],
  ["ThreadSanitizer reports"])

p("C07", "Configuration validation accepts exactly what the encoder can encode",
  "Creating an encoder fails with the documented error for every configuration that breaks a documented limit (frame size, aspect ratio, look-ahead, key frame and switch frame intervals, tile counts, time base, reservoir delay, colour and timing constraints, level, rate-control requirements), and succeeds for every other one; it never panics. Every accepted configuration can then encode frames to completion.",
  ["configurations"],
  "All values of all public configuration fields, including extreme and contradictory combinations.",
  "The tests check a few boundary values of width, height, look-ahead and tiles one at a time; interactions and extremes of the remaining fields are untested.",
  ["src/api/config/mod.rs", "src/api/config/encoder.rs", "src/api/config/rate.rs", "src/tiling/tiler.rs", "src/levels.rs", "src/encoder.rs"],
  [("validation", "src/api/config/mod.rs:Config::validate"), ("tile layout", "src/tiling/tiler.rs:TilingInfo::from_target_tiles"), ("sequence set-up", "src/encoder.rs:Sequence::new")],
  ["result of creating the encoder", "InvalidConfig variants", "a short encode with each accepted configuration"])

p("C08", "The stream's headers and metadata say what the user configured",
  "Every coded sequence begins with headers that state the configured picture size, display size from the aspect ratio, bit depth, chroma format and sample position, colour description and range, timing information, still-picture flag, level and film grain parameters. Configured mastering-display and content-light metadata accompany every key frame. Each ITU-T T.35 message attached to an input frame is present exactly once, unmodified, in the packet that shows that frame and in no other.",
  ["configurations", "inputs"],
  "All values of the descriptive configuration fields, all GOP shapes, and any set of per-frame metadata.",
  "Tests look at decoded pixels, not at header fields, and attach no metadata to reordered frames.",
  ["src/header.rs", "src/encoder.rs", "src/api/internal.rs", "src/api/color.rs", "src/api/config/encoder.rs"],
  [("sequence header", "src/header.rs:write_sequence_header, write_color_config"), ("metadata OBUs", "src/header.rs:write_metadata_obu, write_t35_metadata_obu; src/encoder.rs:encode_frame"), ("render size", "src/api/config/encoder.rs:render_size"), ("film grain lookup by time", "src/encoder.rs:get_film_grain_at")],
  ["OBUs of every packet, parsed independently", "fields reported by dav1d"])

p("C09", "The container header agrees with the stream it describes",
  "The codec configuration record offered for containers is well formed, and its profile, level, tier, bit depth, monochrome, subsampling and sample position fields agree with the sequence header found in the encoded stream. It is the same for every way of obtaining it (direct, channel and C interfaces) and at every point of the encode.",
  ["configurations", "histories"],
  "All accepted configurations and all points in time during an encode.",
  "One test compares the record with a constant for the default configuration.",
  ["src/api/context.rs", "src/api/channel/data.rs", "src/capi.rs", "src/header.rs"],
  [("av1C writer", "src/api/context.rs:container_sequence_header; src/api/channel/data.rs:container_sequence_header"), ("sequence header writer", "src/header.rs:write_sequence_header_obu")],
  ["the record's bytes against the first packet's sequence header OBU"])

p("C10", "Key frames obey requests and limits, and decoding can start at any of them",
  "A frame submitted with a key frame request is coded as a key frame, the first frame always is, and two consecutive key frames are never further apart than the configured maximum interval, nor, unless requested or the maximum forces it, closer than the configured minimum. Switch frames appear at the configured interval in low-latency mode, where frames are coded in display order with none hidden. A decoder started at any key frame decodes the rest of the stream to exactly the same pictures.",
  ["inputs", "configurations", "histories"],
  "All interval settings, override patterns, scene contents, reordering modes and frame counts.",
  "The tests check a few hand-picked intervals on blank frames and never start a decoder in the middle of a stream.",
  ["src/api/internal.rs", "src/scenechange (av-scenechange)", "src/encoder.rs", "src/api/config/encoder.rs"],
  [("key frame decision", "src/api/internal.rs:compute_keyframe_placement, next_keyframe_input_frameno"), ("reference reset at key frames", "src/encoder.rs:FrameInvariants::new_key_frame"), ("switch frames", "src/api/internal.rs, src/encoder.rs:new_inter_frame")],
  ["Packet.frame_type", "frame headers", "decoder output from each key frame"])

p("C11", "Quantizer and bitrate settings are honoured",
  "In constant-quality mode the quantizer of a single intra picture depends only on the configured value, never on the content, and grows with it; in a sequence, a clearly coarser setting gives every frame a coarser quantizer. In bitrate mode no frame uses a quantizer clearly finer than the configured minimum, or coarser than the configured maximum, gives that frame in constant-quality mode. Over a long enough sequence whose content can be coded at the target within those bounds, the bits spent stay close to the target bitrate. The quantizer reported with a packet is the one used by the frame coded in it.",
  ["inputs", "configurations"],
  "All quantizer limits, bitrates, time bases, reservoir delays, contents and passes.",
  "Tests of rate control only check that encoding runs and that pass data is exchanged; no test measures bits or reads quantizers from the stream.",
  ["src/rate.rs", "src/quantize/", "src/api/internal.rs", "src/encoder.rs"],
  [("quantizer choice", "src/rate.rs:select_qi, calc_flat_quantizer, QuantizerParameters"), ("reservoir accounting", "src/rate.rs:update_state")],
  ["base quantizer in the frame headers", "Packet.qp", "Packet.data sizes"])

p("C12", "Multi-pass data is complete, and malformed pass data is refused safely",
  "A first pass emits one data record per coded frame and one final summary that counts exactly those frames, and feeding them to a second pass over the same input lets it run to completion without asking for more data than was produced. Truncated, corrupted or arbitrary pass data makes the encoder report an error, or encode a valid stream, but never panic, hang or corrupt memory.",
  ["inputs", "fault_sequences", "configurations"],
  "All inputs and GOP shapes for the exchange, and all byte strings offered as pass data.",
  "Tests feed only genuine data of a few fixed encodes; no test offers damaged data.",
  ["src/rate.rs", "src/api/context.rs", "src/api/config/rate.rs", "src/api/internal.rs"],
  [("emission", "src/rate.rs:emit_frame_data, emit_summary, twopass_out"), ("parsing", "src/rate.rs:parse_summary, parse_frame_data_packet, twopass_in"), ("gating", "src/api/context.rs:rc_*; src/rate.rs:ready, twopass_in_frames_needed")],
  ["return values of the pass-data calls", "packets of the second pass"])

p("C13", "The channel interface delivers the same stream as the direct interface",
  "Driving the encoder through channels, from any mix of producer and consumer timings and for any number of threads, yields the same packets, in the same order and with the same bytes, as the direct interface asked for packets as soon as it has them (single pass and first pass, including the pass data). A second-pass or parallel-GOP channel delivers one packet per frame, in order, each with its own picture, data and requested frame type, as a stream that decodes to the returned reconstructions; the second pass gives the same bytes whatever the timing. Closing the sender always leads to the remaining packets and then to disconnection; dropping either end never hangs or crashes anybody.",
  ["schedules", "configurations"],
  "All thread schedules of sender, receiver and encoder, blocking and non-blocking calls, channel limits, single and multi-pass modes.",
  "The channel tests push a few blank frames in one pattern and do not compare the bytes with the direct interface.",
  ["src/api/channel/mod.rs", "src/api/channel/data.rs"],
  [("encoder thread loop", "src/api/channel/mod.rs:new_channel_internal"), ("pass-data feeding", "src/api/channel/mod.rs:feed_pass_data, send_pass_data"), ("frame limits", "src/api/channel/data.rs:FrameSender")],
  ["packets received from the channel", "disconnection"])

p("C14", "The C interface is equivalent and keeps its ownership promises",
  "An encode driven through the C interface gives the same bytes, frame numbers, frame types, sources and reconstructions as the same encode through the native interface, and the same status codes. Every object is released exactly once by its release function, opaque data is handed back with its own packet or destroyed exactly once otherwise, and malformed configuration strings or pass-data buffers yield an error code rather than a crash.",
  ["histories", "configurations"],
  "All call sequences that respect the documented ownership rules, all key/value strings, and all byte strings offered as pass data.",
  "One test forwards opaque pointers for one encode, without leak or use-after-free detection and without comparing output.",
  ["src/capi.rs"],
  [("wrappers", "src/capi.rs:rav1e_send_frame, rav1e_receive_packet, rav1e_packet_unref"), ("opaque ownership", "src/capi.rs:FrameOpaque"), ("configuration strings", "src/capi.rs:option_match, rav1e_config_parse"), ("pass data framing", "src/capi.rs:decode_slice")],
  ["C calls and callbacks", "AddressSanitizer/LeakSanitizer reports"])

p("C15", "The command-line encoder turns a Y4M file into the matching IVF file",
  "For every valid Y4M input and option set, the command-line encoder writes an IVF file with a correct header whose packets, sizes and consecutive timestamps hold exactly the stream the library produces for the selected frames and options, and its reconstruction output equals the decoded video. Skip and limit select exactly the requested frames, two-pass runs through a statistics file work, and bad input or options end in a non-zero exit with a message, never in a success with truncated output (a last frame cut short counts as the end of the input).",
  ["inputs", "configurations"],
  "All Y4M formats, sizes and frame counts, all option combinations, files or pipes, and damaged inputs.",
  "The binary tests run seven fixed command lines on one tiny file and only check that the process succeeds.",
  ["src/bin/rav1e.rs", "src/bin/rav1e-ch.rs", "src/bin/common.rs", "src/bin/decoder/y4m.rs", "src/bin/muxer/"],
  [("main loop", "src/bin/rav1e.rs:process_frame, do_encode"), ("options", "src/bin/common.rs:parse_config"), ("Y4M input", "src/bin/decoder/y4m.rs"), ("output", "src/bin/muxer/ivf.rs, src/bin/muxer/y4m.rs")],
  ["output files and exit status"])

p("C16", "IVF writing and reading are inverse, and the reader is robust",
  "Whatever is written with the IVF writer is read back identically by the IVF reader: stream size, time base and, for any number of packets, timestamps and data bytes. The reader returns an error for truncated or foreign data and never panics, returns bytes that were not in the file, or allocates memory for data that is not there.",
  ["inputs"],
  "All header values and packet sequences, all truncation points and all byte strings.",
  "Three tests read three constant byte strings; nothing is written and read back.",
  ["ivf/src/lib.rs"],
  [("writer", "ivf/src/lib.rs:write_ivf_header, write_ivf_frame"), ("reader", "ivf/src/lib.rs:read_header, read_packet")],
  ["bytes written and values read"])

p("C17", "Entropy-coded symbols decode back exactly, and cost estimates agree",
  "For every sequence of symbols, bits, literals and integer codes and every adaptive or fixed probability table, the coded bytes decode back to the same sequence with an independent AV1 range decoder, and adaptation leaves the same tables on both sides. Recording and replaying, rolling back to a checkpoint, and merely counting give the same bytes and the same bit totals as coding directly.",
  ["inputs", "histories"],
  "All symbol sequences and tables of all alphabet sizes, of any length, including carry chains, and all nestings of checkpoints and rollbacks.",
  "The unit tests encode a few dozen fixed symbols.",
  ["src/ec.rs", "src/context/cdf_context.rs"],
  [("range coder", "src/ec.rs:WriterBase, StorageBackend, done"), ("integer codes", "src/ec.rs:write_golomb, write_quniform, write_subexp, *_with_ref"), ("adaptation", "src/ec.rs:symbol_with_update, src/context/cdf_context.rs")],
  ["bytes from the encoder fed to an independent decoder"])

p("C18", "Tile layouts cover the picture exactly once and respect AV1's limits",
  "For every frame size, frame rate, chroma format and requested tile layout, the tiles chosen are non-empty rectangles on superblock boundaries that cover the picture exactly once, within the format's limits on tile width, tile area and tile counts, and as many as requested where the limits and the picture allow. The layout reported before encoding equals the layout found in the stream.",
  ["configurations", "inputs"],
  "All frame sizes up to the format's limits, all requested tile counts, chroma formats and frame rates.",
  "The tests check a short list of sizes and a handful of requested layouts.",
  ["src/tiling/tiler.rs", "src/encoder.rs", "src/header.rs", "src/api/config/mod.rs"],
  [("layout computation", "src/tiling/tiler.rs:TilingInfo::from_target_tiles"), ("choice of a layout for a tile count", "src/encoder.rs:Sequence / Config::tiling_info"), ("tile header", "src/header.rs (tile info)")],
  ["tile layout report", "tile info in the frame headers"])

p("C19", "Input pictures are read-only and only their visible pixels matter",
  "Encoding never changes the pixels of a picture the caller submitted, even when the same picture is shared between several frames or encoders, and the source picture returned with a packet shows the submitted pixels. The stream depends only on the visible pixels: not on what lies in the padding around them, on the memory layout chosen for the pictures of the sequence, or on whether storage is shared (a shared picture's owner pads it once, as the interface demands).",
  ["inputs", "histories"],
  "All contents of visible and padding samples, shared or separate storage, sizes not multiple of the block size.",
  "No test fills padding with other data, shares pictures or compares the returned source.",
  ["src/api/context.rs", "src/api/internal.rs", "src/frame/", "src/encoder.rs", "src/api/lookahead.rs"],
  [("padding of submitted pictures", "src/api/internal.rs:send_frame; v_frame Plane::pad"), ("shared ownership", "Arc<Frame>"), ("edge handling", "src/encoder.rs, src/me.rs, src/api/lookahead.rs")],
  ["checksums of submitted pictures before, during and after encoding", "Packet.data across variants"])

p("C20", "Latency and memory stay bounded, and everything is released at the end",
  "The encoder needs no more frames ahead of the next packet than its look-ahead and reordering settings imply, and always makes progress: after a flush, every request returns a packet or advances towards one until the end of the stream. The number of pictures it keeps alive is bounded independently of stream length. Dropping the encoder and its packets at any moment releases every submitted picture and every piece of user data.",
  ["histories", "configurations"],
  "All stream lengths, look-ahead depths, GOP shapes and abandonment points.",
  "Tests use short streams, never count live pictures and always run encodes to completion.",
  ["src/api/internal.rs", "src/api/context.rs"],
  [("garbage collection", "src/api/internal.rs:garbage_collect"), ("readiness", "src/api/internal.rs:needs_more_frame_q_lookahead, needs_more_fi_lookahead, receive_packet"), ("reference frames", "src/encoder.rs:ReferenceFramesSet")],
  ["weak references to submitted pictures and user data", "submit/receive trace"])

p("C21", "A saved configuration restores the same encoder",
  "Every encoder configuration written out in its textual form and read back equals the original, and encoding with it gives the same bytes. Reading malformed or unrelated text fails with an error rather than yielding a different configuration silently.",
  ["configurations", "inputs"],
  "All field values of the encoder configuration.",
  "No test serialises a configuration.",
  ["src/api/config/encoder.rs", "src/api/config/speedsettings.rs", "src/api/color.rs", "src/api/util.rs", "src/bin/common.rs"],
  [("serialisation", "derive(Serialize, Deserialize) on the configuration types, feature `serialize`"), ("save/load options", "src/bin/common.rs, src/bin/rav1e.rs")],
  ["text written and configuration read back", "packets"])

p("C22", "Accelerated kernels equal the portable ones and touch only their block",
  "For every block size, bit depth, sub-pixel position, filter, transform type, prediction mode and sample values, each accelerated motion-compensation, prediction, distortion, transform, and filter kernel returns the same result as the portable implementation. It writes nothing outside its destination block.",
  ["inputs", "configurations"],
  "All legal operand shapes, strides, parameters, bit depths and extreme sample values at every CPU level of the machine.",
  "The kernel tests use one random pattern per shape, rarely extremes, and do not look outside the destination block.",
  ["src/mc.rs", "src/predict.rs", "src/dist.rs", "src/transform/", "src/cdef.rs", "src/lrf.rs", "src/asm/x86/", "src/x86/"],
  [("dispatch", "src/asm/x86/*.rs"), ("assembly", "src/x86/*.asm")],
  ["kernel outputs and guard zones"])

p("C23", "The reconstruction stays close to the source as the quantizer promises",
  "For every content and configuration in constant-quality mode, each plane of every reconstructed picture is close to the submitted picture with the same number: its mean squared error stays within a bound set by the quantizer, from near-identical at the finest setting. No plane, tile or block is left uncoded, swapped with another plane or taken from another picture.",
  ["inputs", "configurations"],
  "All contents, chroma formats, bit depths, tile layouts, speeds and quantizers.",
  "Tests compare reconstruction with decoded output only, so an encoder that consistently codes the wrong picture, plane or position still passes them.",
  ["src/encoder.rs", "src/rdo.rs", "src/quantize/", "src/transform/", "src/rate.rs", "src/predict.rs"],
  [("residual coding", "src/encoder.rs:encode_tx_block"), ("mode decision", "src/rdo.rs"), ("quantizer tables", "src/quantize/")],
  ["Packet.rec against Packet.source and the submitted picture"])

p("C24", "Scene changes start with a key frame, and nothing else adds one",
  "With the fast scene detection, an abrupt change between two calm scenes is coded as a key frame at exactly the frame where the new scene begins, if the minimum interval since the last key frame has passed and neither another change nor the start or end of the video is only a few frames away. A calm scene gets no key frames other than the first frame of the video, requested ones and those at the maximum interval. With detection off, these are the only key frames whatever the content. The slower detection may predict across a change and skip it, but never places the key frame late. Requesting key frames does not disturb the detection of the others.",
  ["inputs", "configurations", "histories"],
  "All contents, sizes, formats, intervals, key frame requests, detection modes and latency modes.",
  "Tests look at a few fixed sequences with single cuts, mostly with blank pictures, and never combine detection with requests.",
  ["src/api/internal.rs", "src/api/config/encoder.rs", "src/api/config/speedsettings.rs"],
  [("placement", "src/api/internal.rs:compute_keyframe_placement, send_frame, next_keyframe_input_frameno"), ("detector", "av-scenechange SceneChangeDetector")],
  ["frame types of the packets against the submitted pictures"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
