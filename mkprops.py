#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

API = "rfxcodec_encode / rfxcodec_encode_ex (include/rfxcodec_encode.h)"

prop("C01", "Encoding stays inside the caller's buffers at every capacity",
 "Whatever output capacity the caller declares, and whatever the tile, region and quantisation arguments, an encode call never writes outside the first *cdata_bytes bytes of the output buffer and never reads outside the pixel area, region, tile and quantisation arrays it was given. It never modifies those inputs, and a successful call reports no more bytes than the declared capacity.",
 ["inputs", "configurations", "fault_sequences"],
 "every output capacity from 0 up to 'everything fits', for every pixel format, entropy coder, alpha setting, progressive mode, number of regions, quantisation sets and tiles, and every tile size 1..64 x 1..64",
 "The tests always pass a generous output buffer and do not look around it; the property quantifies over every capacity and over exactly-sized inputs, where one missing space check is silent heap corruption in the caller.",
 ["src/rfxencode_compose.c", "src/rfxencode_tile.c", "src/rfxencode_alpha.c", "src/rfxencode_diff_rlgr1.c", "src/rfx_bitstream.h", "src/rfxencode_rgb_to_yuv.c"],
 [("space check before each block", "rfx_compose_message_*, rfx_pro_compose_message_*"), ("per component worst-case reservation", "check_and_rfx_encode"), ("per byte check in the progressive coder", "CheckWrite/CodeGR in rfxencode_diff_rlgr1.c"), ("edge replication instead of reading past partial tiles", "rfx_encode_format_rgb / _argb")],
 [("STREAM.p/size", "write cursor and capacity", "src/rfxcommon.h")], [API])

prop("C02", "Every message is a well-formed, self-consistent RemoteFX block sequence",
 "The output of every successful encode call parses completely, with nothing left over, as the sequence of RemoteFX (or RemoteFX Progressive) blocks the protocol prescribes, with every block length, count and data-size field equal to what is actually there. The regions, quantisation tables, tile positions, per-tile quantisation indices, screen size and coding properties found in it are exactly the ones the caller supplied.",
 ["inputs", "configurations", "histories"],
 "all pixel formats, entropy coders, alpha and progressive modes; any number of regions, quantisation sets and tiles; any tile position, size and order; first and later frames; full and partial (space-limited) results",
 "The tests only look at the returned tile count and the number of bytes; no test parses a message, so a wrong length field, a swapped field or a dropped region passes them.",
 ["src/rfxencode_compose.c", "src/rfxcommon.h", "src/rfxconstants.h"],
 [("block writers with back-patched lengths", "rfx_compose_message_*, rfx_pro_compose_message_*"), ("tile-count and tile-data-size back-patching", "rfx_compose_message_tileset, rfx_pro_compose_message_region")],
 [("enc->properties", "coding properties announced per tile set", "src/rfxencode_compose.c")], [API])

prop("C03", "Entropy coding is lossless for every coefficient sequence",
 "For every sequence of 4096 coefficients the encoder can produce, decoding the emitted RLGR bits with the RLGR1 or RLGR3 decoding rules yields exactly those coefficients, and the byte count returned is exactly the length of the code. This holds for all four entropy coders the library exports (RLGR1, RLGR3 and the two differential-coding variants), and coders of the same kind agree bit for bit.",
 ["inputs", "programs"],
 "every reachable adaptive state (run parameter, Golomb parameter, bit phase, end-of-data position) combined with every kind of next symbol (zero runs of every length class, both signs, every magnitude class); every last-DPCM length",
 "The state of the adaptive coder depends on everything coded so far, so a wrong transition only shows after a specific history; the tests compress a handful of images and never decode.",
 ["src/rfxencode_rlgr1.c", "src/rfxencode_rlgr3.c", "src/rfxencode_diff_rlgr1.c", "src/rfxencode_diff_rlgr3.c", "src/rfx_bitstream.h", "src/rfxencode_differential.c"],
 [("adaptive run-length/Golomb-Rice state machine", "rfx_rlgr1_encode, rfx_rlgr3_encode, rfx_encode_diff_rlgr1, rfx_encode_diff_rlgr3")],
 [("kp, krp, bit position", "adaptive coder state", "src/rfxencode_rlgr*.c, src/rfxencode_diff_rlgr*.c")],
 ["rfxcodec_encode_get_internals() entry points", API])

prop("C04", "CPU acceleration never changes the output",
 "For the same calls, an encoder that uses the SSE2 or SSE4.1 code paths, one that was told not to use acceleration, one running on a CPU reporting any other feature set, and a build without SIMD code all produce byte-identical messages. The exported accelerated transform entry points compute exactly the same coefficients as the portable transform plus quantisation.",
 ["inputs", "configurations"],
 "every CPU feature report x acceleration flag x entropy coder x pixel format; every impulse position, extremal input and quantisation value, and every source buffer alignment",
 "The tests run one CPU type and one built-in image, and compare nothing with the portable path; a wrong lane, rounding or saturation in hand-written assembly needs a specific pixel position or value.",
 ["src/amd64/rfxcodec_encode_dwt_shift_amd64_sse2.asm", "src/amd64/rfxcodec_encode_dwt_shift_amd64_sse41.asm", "src/amd64/rfxencode_tile_amd64.c", "src/rfxencode_dwt.c", "src/rfxencode_quantization.c", "src/rfxencode.c", "src/amd64/cpuid_amd64.asm"],
 [("run-time dispatch on CPUID", "rfxcodec_encode_create_ex"), ("hand-written SIMD transform", "src/amd64/*.asm")], [], [API, "rfxcodec_encode_get_internals() entry points"])

prop("C05", "Tile payloads carry exactly the quantised wavelet coefficients",
 "Every classic (non-progressive) tile component in a message decodes to exactly the coefficients that the RemoteFX forward pipeline prescribes for that tile's pixels: colour conversion (for RGB inputs), three-level 5/3 wavelet transform, rounding quantisation with the quantisation set selected for that component and tile, and delta coding of the lowest band. No coefficient is ever saturated, wrapped, dropped or misplaced.",
 ["inputs", "configurations"],
 "every colour, every pixel position and sub-band, every quantisation value 6..15 in every one of the ten sub-band slots, every quantisation index, extremal images that maximise each coefficient",
 "No test decodes a tile; a sign, rounding, overflow or band-order error in a specific sub-band, position or quantisation value leaves counts and sizes unchanged.",
 ["src/rfxencode_dwt.c", "src/rfxencode_quantization.c", "src/rfxencode_differential.c", "src/rfxencode_rgb_to_yuv.c", "src/rfxencode_tile.c", "src/amd64/rfxencode_tile_amd64.c"],
 [("forward transform", "rfx_dwt_2d_encode"), ("quantisation", "rfx_quantization_encode"), ("colour conversion", "rfx_encode_rgb_to_yuv_tile")], [], [API])

prop("C06", "A conforming decoder reproduces the picture within quantisation error",
 "Decoding any message with a conforming decoder (entropy decoding, dequantisation, inverse wavelet transform, inverse colour conversion) gives, pixel for pixel, the picture that the prescribed pipeline gives with the quantisation tables the message carries. Hence every pixel of every full or partial tile is reproduced within the error those tables imply - a few grey levels at the finest tables - in classic and in progressive mode, also when progressive tiles are sent as differences.",
 ["inputs", "configurations"],
 "every solid colour level, every impulse/edge/checkerboard/extremal pattern and position, every quantisation value, classic and progressive, RGB and YUV input",
 "Nothing in the tests decodes; picture fidelity is the codec's purpose and depends on all stages being mutually inverse for every image.",
 ["src/rfxencode_dwt.c", "src/rfxencode_dwt_rem.c", "src/rfxencode_dwt_shift_rem.c", "src/rfxencode_quantization.c", "src/rfxencode_rgb_to_yuv.c", "src/rfxencode_rlgr1.c", "src/rfxencode_rlgr3.c", "src/rfxencode_diff_rlgr1.c"],
 [("5/3 lifting transform", "rfxencode_dwt.c"), ("reduce-extrapolate transform", "rfxencode_dwt_rem.c, rfxencode_dwt_shift_rem.c")], [], [API])

prop("C07", "Each tile is built from exactly its own source pixels",
 "The picture in a tile depends only on the pixels of the source rectangle that the tile names, located by the caller's stride and pixel format, and lands at the tile's own grid position; for an RGB tile narrower or shorter than 64 the last column and last row are repeated to fill it (YUV tiles are always complete). Pixels outside that rectangle, stride padding, the order of tiles in the call and the other tiles never influence it.",
 ["inputs", "configurations"],
 "every tile position on the grid, every stride, every tile size 1..64 x 1..64, every pixel format, alpha on and off, any tile order and multiplicity",
 "The tests use one full-frame image with a packed stride; off-by-one strides, wrong edge replication or cross-tile bleed need particular sizes, strides or positions.",
 ["src/rfxencode_compose.c", "src/rfxencode_rgb_to_yuv.c", "src/rfxencode_tile.c"],
 [("tile address computation", "rfx_compose_message_tileset, rfx_pro_compose_message_region"), ("edge replication", "rfx_encode_format_rgb, rfx_encode_format_argb")], [], [API])

prop("C08", "Alpha channels are transmitted losslessly",
 "When a call asks for alpha, each tile carries an alpha plane that decodes to exactly the source alpha values of that tile (with edge replication for partial RGB tiles), whatever the alpha image, including planes for which run-length coding would not save space. Its declared length lets the reader find the end of the tile, and asking for alpha never changes the colour planes.",
 ["inputs", "configurations"],
 "every run structure of a row (every run length 1..64, every raw length, every mixture), every pair of vertically adjacent values, compressible and incompressible planes around the raw/RLE switch, every size of partial tile, both colour orders and YUV input",
 "No test decodes alpha; a run-length boundary (15/16/31/32/47/48), a wrap in the vertical delta, or the raw fallback needs specific pixel data.",
 ["src/rfxencode_alpha.c", "src/rfxencode_compose.c", "src/rfxencode_tile.c", "src/rfxencode_rgb_to_yuv.c"],
 [("vertical delta + RLE", "fdelta, fpack, fout in rfxencode_alpha.c"), ("raw fallback", "rfx_encode_plane")], [], [API])

prop("C09", "Progressive decoders never drift from the encoder's tile history",
 "In progressive mode, a client that applies each returned message in order (adding difference tiles to what it holds for that position, replacing with full tiles) always holds exactly the quantised coefficients of the most recently encoded content of every tile position. This is true after any history of calls: repeated positions, changing content and quantisation, key-frame requests, space-limited calls that deliver only some tiles, and calls that fail.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of operations up to the depth bound over {encode A/B/C at position p/q, same position twice in a call, change quantisation, key frame, too small buffer, invalid argument, allocation failure}, and every one of the 64 x 64 tile positions",
 "Drift depends on the history and on when calls fail or are cut short; the tests do single independent encodes and never reconstruct the client side.",
 ["src/rfxencode_compose.c", "src/rfxencode.c", "src/rfxencode_diff_rlgr1.c"],
 [("per-position reference coefficients", "rfx_pro_compose_message_region"), ("history update only after the tile fits", "rfx_pro_compose_message_region"), ("key-frame reset", "rfxencode_reset_encoder")],
 [("enc->rbs[64][64]", "what the client holds per position", "src/rfxencode.h")], [API])

prop("C10", "A failed call leaves the encoder able to continue as if it never happened",
 "When an encode call fails (too little output space, an invalid tile position or quantisation index in progressive mode, out of memory), the encoder stays usable and the next successful call yields what it would have yielded had the failed call never been made: nothing the peer needs (stream header, frame numbering, reference content) is lost. In progressive mode a failed key-frame request may only have the additional effect that the next success is a key frame.",
 ["fault_sequences", "histories", "configurations"],
 "every output capacity that makes a call fail, every position of an invalid tile in the tile list, every failing allocation, at every point of every short history of calls, in classic and progressive mode",
 "The tests never make a call fail and then continue; recovery depends on the fault point and the history before it.",
 ["src/rfxencode.c", "src/rfxencode_compose.c"],
 [("frame/header state update", "rfxcodec_encode_ex, rfx_compose_message_header, rfx_compose_message_frame_begin"), ("argument checks", "rfx_pro_compose_message_region")],
 [("enc->frame_idx, enc->header_processed", "stream position", "src/rfxencode.h")], [API])

prop("C11", "Stream headers come exactly once and frame numbers are consecutive",
 "The first successful message of an encoder starts with the complete stream header and later messages carry none, except that a progressive key-frame request starts the stream again with a header and frame number 0. Frame numbers of successful messages start at 0 and increase by exactly one, for arbitrarily long sessions and whatever mixture of tile counts, partial results and flags is used.",
 ["histories", "configurations"],
 "every sequence of calls up to the depth bound, and a session of more than 65536 frames, in classic and progressive mode, several encoders interleaved",
 "A test encodes a few frames and does not read frame numbers; wrap-around, key-frame and zero-tile cases need long or special histories.",
 ["src/rfxencode.c", "src/rfxencode_compose.c"],
 [("first-frame test", "rfxcodec_encode_ex"), ("frame counter", "rfx_compose_message_frame_begin, rfx_pro_compose_message_frame_begin"), ("key-frame reset", "rfxencode_reset_encoder")],
 [("enc->frame_idx, enc->header_processed", "stream position", "src/rfxencode.h")], [API])

prop("C12", "Output is a function of the call history and arguments only",
 "Two encoders given the same sequence of calls produce byte-identical messages, regardless of what was in the output buffer or the heap beforehand, of where the buffers lie in memory, of what other encoders in the process did, and of the order or company in which tiles are encoded. In classic mode, tiles of later calls do not depend on earlier calls at all.",
 ["histories", "inputs", "configurations"],
 "every ordered sequence of calls up to the depth bound (content, size, alpha, quantisation, format), every output prefill class, heap contents, buffer alignment, and interleaving with other encoders",
 "A read of stale scratch memory is invisible unless the preceding call left specific data there; tests use one fresh encoder per image.",
 ["src/rfxencode.c", "src/rfxencode_tile.c", "src/rfxencode_compose.c", "src/rfx_bitstream.h", "src/rfxencode_rgb_to_yuv.c", "src/rfxencode_alpha.c"],
 [("scratch buffers fully rewritten before use", "dwt_buffer*, y_r_buffer.. in struct rfxencode"), ("bit writer masks old bits", "src/rfx_bitstream.h")], 
 [("enc->dwt_buffer*, y_r/u_g/v_b/a_buffer", "per-encoder scratch", "src/rfxencode.h")], [API])

prop("C13", "Encoders used from different threads do not interfere",
 "Under every thread schedule, threads that each create, use and destroy their own encoder obtain exactly the messages they would obtain alone. The library keeps no mutable state shared between encoders.",
 ["schedules", "configurations"],
 "all interleavings at shared-memory-access granularity up to the preemption bound of two threads that create, encode (each format, coder, alpha, progressive, accelerated and not) and destroy",
 "The tests are single threaded; a shared scratch buffer or lazily initialised table only shows under a specific interleaving.",
 ["src/rfxencode.c", "src/rfxencode_tile.c", "src/rfxencode_compose.c", "src/rfxencode_alpha.c", "src/amd64/rfxencode_tile_amd64.c"],
 [("all mutable state lives in the handle", "struct rfxencode")], [("none shared", "no writable globals", "src/")], [API])

prop("C14", "Space-limited calls deliver an exact, maximal-progress prefix of the tiles",
 "When the output space does not suffice, the returned count n says exactly how many of the tiles, taken in order, are in the message, and these are bit for bit the tiles an unlimited call would have produced; re-submitting the remaining tiles until all are done delivers every tile exactly once. More capacity never delivers fewer tiles, and with ample space for the worst case every tile is delivered, never truncated, whatever its content.",
 ["inputs", "fault_sequences", "histories"],
 "every output capacity from 0 to 'everything fits' for several tile lists in each mode; the worst-case content for each entropy coder and quantisation",
 "The tests always have ample space; the property quantifies over every capacity and over worst-case contents.",
 ["src/rfxencode_compose.c", "src/rfxencode_tile.c", "src/rfx_bitstream.h", "src/rfxencode_diff_rlgr1.c"],
 [("tile checkpointing", "tiles_end_checkpoint in rfx_compose_message_tileset, tile_end_pos in rfx_pro_compose_message_region"), ("worst-case reservation", "TILE_SIZE_UPPER_LIMIT in rfxencode_tile.c")], [], [API])

prop("C15", "No memory is leaked, and allocation failure is reported cleanly",
 "After an encoder is destroyed, all memory the library allocated for it has been released, exactly once, whatever sequence of calls preceded, including failed creations, failed encodes and progressive key frames. If any allocation fails, the affected call reports failure (or a shorter result) and the process neither crashes nor corrupts the encoder; creation failure returns no handle and leaves nothing allocated.",
 ["fault_sequences", "histories"],
 "every sequence of operations up to the depth bound x every subset of at most two failing allocations",
 "Tests never destroy under scrutiny nor inject allocation failures; leaks and double frees depend on the history and the fault point.",
 ["src/rfxencode.c", "src/rfxencode_compose.c", "src/rfxcommon.h"],
 [("history release", "clear_encoder_rbs"), ("error paths of creation", "rfxcodec_encode_create_ex"), ("allocation check", "xnew use in rfx_pro_compose_message_region")],
 [("enc->rbs", "heap blocks owned by the encoder", "src/rfxencode.h")], [API, "malloc/calloc/free"])

prop("C16", "Progressive tiles carry exactly the reduce-extrapolate coefficients",
 "Every progressive tile component, full or difference (after adding it to the preceding content), decodes to exactly the coefficients that the RemoteFX Progressive forward pipeline prescribes for that tile's pixels: the three-level 5/3 reduce-extrapolate wavelet transform with band sizes 33/31, 17/16 and 9/8, and rounding quantisation with the selected set. No coefficient wraps, and a tile is marked as a difference only if it decodes as one.",
 ["inputs", "configurations"],
 "every pixel position and sub-band, every quantisation value 6..15 in every sub-band slot, every quantisation index, extremal images that maximise each coefficient, full and difference coding",
 "No test decodes progressive tiles; odd band sizes make boundary errors that need specific positions.",
 ["src/rfxencode_dwt_rem.c", "src/rfxencode_dwt_shift_rem.c", "src/rfxencode_compose.c", "src/rfxencode_diff_rlgr1.c"],
 [("reduce-extrapolate transform and quantisation", "rfx_rem_dwt_shift_encode"), ("difference selection", "COEF_DIFF_COUNT in rfx_pro_compose_message_region")], [], [API])

prop("C17", "All pixel formats encode the same picture identically",
 "The same picture given as BGRA, RGBA, BGR, RGB, or as YUV tiles holding the converted values yields identical tile data (apart from alpha, which only the 32-bit and YUV inputs carry), with and without alpha. The unused fourth byte never influences the colour planes.",
 ["inputs", "configurations"],
 "all colours, all tile sizes, all formats, both entropy coders, alpha on and off",
 "The tests use one format at a time and compare nothing across formats.",
 ["src/rfxencode_rgb_to_yuv.c", "src/rfxencode_compose.c", "src/rfxencode.c"],
 [("format unpacking", "rfx_encode_format_rgb, rfx_encode_format_argb"), ("bytes per pixel", "rfxcodec_encode_create_ex")], [], [API])

prop("C18", "Creation options and entry points do what they announce",
 "Creation succeeds exactly for the five documented pixel formats and reports an error without producing a handle for any other; both creation functions and both encode functions behave the same for the same arguments, and destroying a null handle is harmless. The entropy coder announced in the stream header and tile-set properties is the one the payload is coded with, for every combination of creation flags; flags that are not about coding never change the output.",
 ["inputs", "configurations"],
 "every format value in a wide range, every combination of creation flags, every encode flag combination, screen sizes over the whole 16-bit range",
 "Tests use a few flag combinations and never check the announced properties against the payload.",
 ["src/rfxencode.c", "src/rfxencode_compose.c", "include/rfxcodec_encode.h", "include/rfxcodec_common.h"],
 [("format switch and coder selection", "rfxcodec_encode_create_ex"), ("properties", "rfx_compose_message_context")], [], ["rfxcodec_encode_create / _create_ex / _destroy / _encode / _encode_ex"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
import sys
for p in P:
    assert len(p["title"]) <= 80, p["id"]
