#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; both are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), technique, note))


SE = "symbolic execution of the library's LLVM IR with z3"

prop("C01", "Encoding never writes outside the caller's output buffer",
     "For every output buffer size, an encode call writes only inside the buffer the caller gave, whatever tiles, rectangles, quantisers and picture it is asked to code, and the length it reports never exceeds that size. This holds for ordinary, alpha-carrying and progressive messages, for calls that fail, and for tiles whose data turns out larger than the space left.",
     ["inputs", "configurations"], "every buffer capacity from 0 up, every number of tiles/rectangles/quantiser sets, every component size the coders can produce",
     "tests use one ample buffer; an overflow needs a capacity that ends inside one particular header or component",
     ["src/rfxencode_compose.c", "src/rfxencode.c", "src/rfxcommon.h", "src/rfxencode_tile.c", "src/rfxencode_alpha.c"],
     [("space checks before each block", "rfxencode_compose.c"), ("component coder's size argument", "rfxencode_tile.c check_and_rfx_encode")],
     SE + ": capacity and component lengths symbolic, every store bounds-checked", "two tiles, three component sizes, all capacities up to 200000")

prop("C02", "Encoding reads only the caller's picture and never changes its inputs",
     "An encode call reads only pixels inside the picture the caller described (the last row need not extend to the full stride) and only the tile, rectangle and quantiser entries it was told about. It modifies none of them, also for tiles cut off by the right or bottom edge.",
     ["inputs", "configurations"], "every tile position and size, stride, pixel format and picture that ends exactly at its last pixel",
     "a read of a few bytes past an edge tile goes unnoticed in tests, whose buffers are padded, and depends on position, size and format together",
     ["src/rfxencode_tile.c", "src/rfxencode_rgb_to_yuv.c", "src/rfxencode_compose.c", "src/rfxencode_rlgr3.c"],
     [("pixel unpacking", "rfxencode_rgb_to_yuv.c"), ("tile data address", "rfxencode_compose.c")],
     SE + ": exact-size read-only inputs, every load bounds-checked", "see DESIGN.md")

prop("C03", "Classic messages are well formed and describe the request",
     "A successful non-progressive encode call produces exactly one sequence of blocks as the RemoteFX protocol lays them out: the rectangles, quantiser table, tile positions, quantiser choices and entropy coder the caller asked for, block lengths that match the bytes present, and a reported message length equal to the sum of the blocks. Each tile's three component lengths delimit the coder's output for that tile.",
     ["inputs", "configurations"], "every rectangle, quantiser byte, tile position, quantiser index, picture size and component length",
     "tests check the tile count and a file size; a wrong length or field for particular values (over 255, more than one tile, an index other than 0) passes",
     ["src/rfxencode_compose.c", "src/rfxencode.c"],
     [("block writers", "rfxencode_compose.c"), ("header writer", "rfxencode_compose.c rfx_compose_message_header")],
     SE + ": an independent parser over the symbolic output", "fields symbolic over their full range")

prop("C04", "Progressive messages are well formed and describe the request",
     "A successful progressive encode call produces exactly one sequence of blocks as the progressive RemoteFX protocol lays them out: the rectangles, quantiser table, tile positions and quantiser choices the caller asked for, block lengths that match the bytes present, and a reported message length equal to the sum of the blocks. Tiles that name a missing quantiser or lie outside the 64 by 64 tile grid are never part of a message.",
     ["inputs", "configurations"], "every rectangle, quantiser byte and index, tile position and capacity",
     "tests check the tile count and a file size only",
     ["src/rfxencode_compose.c", "src/rfxencode.c"],
     [("progressive region and tile writers", "rfxencode_compose.c"), ("tile validity test", "rfxencode_compose.c")],
     SE + ": an independent parser over the symbolic output", "fields symbolic over their full range")

prop("C05", "Stream header once, frames numbered consecutively, failures consume nothing",
     "Over any sequence of encode calls on one encoder, the stream header is in the first message that is delivered and in no later one, and delivered frames are numbered 0, 1, 2 and so on. A call that fails uses up neither the header nor a frame number, and a progressive key request starts over with a header and frame 0.",
     ["histories", "inputs"], "every sequence of successful calls, failing calls and key requests",
     "tests make one call per encoder with a sufficient buffer",
     ["src/rfxencode.c", "src/rfxencode_compose.c"],
     [("frame counter and header flag", "rfxencode.c rfxcodec_encode_ex"), ("encoder reset", "rfxencode.c rfxencode_reset_encoder")],
     SE + ": capacities, key flags and starting frame number symbolic over call sequences", "sequences of 3 calls, any frame number")

prop("C06", "RLGR1 entropy coding is lossless",
     "With sufficient space, the RLGR1 coders' output decodes, by the published RLGR1 decoding procedure, to exactly the 4096 coefficients that were given, and the reported length is enough for the decoder. This holds for the portable coder and for the fast one that also takes differences over the last values.",
     ["inputs"], "every coefficient value, run length and coder state",
     "a wrong bit appears only for particular magnitudes, runs, parameter states and bit alignments, and tests never decode",
     ["src/rfxencode_rlgr1.c", "src/rfxencode_diff_rlgr1.c", "src/rfx_bitstream.h"],
     [("run and Golomb-Rice coding", "rfxencode_rlgr1.c"), ("word-wise bit output", "rfxencode_diff_rlgr1.c")],
     SE + ": decode(encode(x)) == x with an independent decoder, coefficient windows symbolic", "see DESIGN.md")

prop("C07", "RLGR3 entropy coding is lossless",
     "With sufficient space, the RLGR3 coders' output decodes, by the published RLGR3 decoding procedure, to exactly the 4096 coefficients that were given, and the reported length is enough for the decoder. This holds for the portable coder and for the fast one that also takes differences over the last values.",
     ["inputs"], "every coefficient value, run length and coder state",
     "a wrong bit appears only for particular magnitudes, pairs, runs, parameter states and bit alignments, and tests never decode",
     ["src/rfxencode_rlgr3.c", "src/rfxencode_diff_rlgr3.c", "src/rfx_bitstream.h"],
     [("pair coding", "rfxencode_rlgr3.c"), ("word-wise bit output", "rfxencode_diff_rlgr3.c")],
     SE + ": decode(encode(x)) == x with an independent decoder, coefficient windows symbolic", "see DESIGN.md")

prop("C08", "Entropy coders respect the space they are given",
     "Given any amount of space, the entropy coders write nothing beyond it and return no length above it. The fast coders report failure rather than return a shortened stream, and with space for the whole stream every coder's output is the same whatever more is offered.",
     ["inputs"], "every capacity and every coefficient content",
     "tests give every coder ample space",
     ["src/rfxencode_rlgr1.c", "src/rfxencode_rlgr3.c", "src/rfxencode_diff_rlgr1.c", "src/rfxencode_diff_rlgr3.c", "src/rfx_bitstream.h"],
     [("bounds check per written byte", "rfx_bitstream.h"), ("space check of the fast coders", "rfxencode_diff_rlgr1.c, rfxencode_diff_rlgr3.c")],
     SE + ": capacity symbolic, every store bounds-checked", "see DESIGN.md")

prop("C09", "The accelerated transforms compute what the portable code computes",
     "For every picture tile and every legal quantiser, the SSE2 and SSE4.1 transform-and-quantise routines produce the same 4096 coefficients as the portable transform followed by the portable quantisation. They read only the tile and quantiser they are given, at any alignment, and change neither.",
     ["inputs", "configurations"], "all pixel values of a tile, all legal quantiser values",
     "256 to the power 4096 tiles; a lane, rounding or saturation difference shows only for particular pixels and quantisers, and tests compare sizes",
     ["src/amd64/rfxcodec_encode_dwt_shift_amd64_sse2.asm", "src/amd64/rfxcodec_encode_dwt_shift_amd64_sse41.asm", "src/rfxencode_dwt.c", "src/rfxencode_quantization.c"],
     [("assembly kernels", "src/amd64"), ("portable equivalents", "rfxencode_dwt.c, rfxencode_quantization.c")],
     "symbolic execution of the assembled kernels (lifted from the object file) and of the portable IR, equality discharged by z3", "see DESIGN.md")

prop("C10", "The classic transform is the protocol's 5/3 wavelet, for all pixels",
     "For every 64 by 64 plane, the classic forward transform yields exactly the three-level 5/3 lifting analysis of the RemoteFX protocol, with its band order, mirror edges and rounding.",
     ["inputs"], "all 4096 pixel values",
     "one wrong tap, edge or rounding changes few coefficients for few pictures, and tests compare sizes",
     ["src/rfxencode_dwt.c"], [("lifting passes", "rfxencode_dwt.c")],
     SE + ": all 4096 pixels symbolic, coefficient-wise equality with a reference transform", "no bound: every plane")

prop("C11", "The reduce-extrapolate transform and its quantisation are exact",
     "For every 64 by 64 plane and legal quantiser, the transform used for progressive tiles yields exactly the reduce-extrapolate analysis of the progressive RemoteFX protocol: 31/33, 16/17 and 8/9 sample bands in order, linear extrapolation at the far edges, and each band rounded and shifted by its own quantiser value.",
     ["inputs", "configurations"], "all pixels, all ten quantiser values from 6 to 15",
     "as for the classic transform; odd band sizes make off-by-one errors local to an edge row or column",
     ["src/rfxencode_dwt_shift_rem.c", "src/rfxencode_dwt_rem.c"], [("lifting passes", "rfxencode_dwt_shift_rem.c"), ("band quantisation", "rfxencode_dwt_shift_rem.c")],
     SE + ": all pixels and quantiser values symbolic, coefficient-wise equality with a reference", "four corner pixels in 15..240 (known finding)")

prop("C12", "Quantisation rounds each band by its own quantiser value",
     "For every coefficient a transform can produce and every legal quantiser, classic quantisation divides each coefficient by its band's power of two with rounding to nearest, and each of the ten bands uses the quantiser value that names it.",
     ["inputs", "configurations"], "all coefficients of 16 bits in the transform's range, all ten values from 6 to 15",
     "a swapped band or a wrong rounding for one value passes tests that use one quantiser set and compare sizes",
     ["src/rfxencode_quantization.c"], [("band loop", "rfxencode_quantization.c rfx_quantization_encode")],
     SE + ": all coefficients and quantiser values symbolic", "no bound within the stated ranges")

prop("C16", "A progressive decoder stays in step with the encoder",
     "For every sequence of progressive encode calls, a decoder that applies each delivered tile (as an original, or as a difference to what it holds for that position) always holds exactly the quantised coefficients of the picture last sent for that position. Failed calls, tiles left out, key requests and failed allocations never make the two disagree.",
     ["histories", "inputs", "fault_sequences"], "every sequence of pictures, tile choices, capacities, key requests and allocation failures",
     "a wrong difference shows only in a later frame and only in a decoder; tests never decode and send one frame",
     ["src/rfxencode_compose.c", "src/rfxencode.c", "src/rfxencode_diff_rlgr1.c"],
     [("per-tile history", "rfxencode_compose.c"), ("original or difference choice", "rfxencode_compose.c"), ("reset", "rfxencode.c")],
     SE + ": sessions with symbolic pictures, coefficients, keys, capacities and allocation outcomes against a decoder model", "up to 3 calls")

prop("C17", "A partial result is a prefix of the request",
     "The number an encode call returns is the number of tiles in the message, and those are the first so many of the requested tiles, in order and complete. Tiles are left out only from the first one that does not fit or cannot be coded, and with enough space and valid tiles all are sent.",
     ["inputs"], "every capacity and every component length",
     "tests have room for every tile",
     ["src/rfxencode_compose.c", "src/rfxencode.c"],
     [("tile loop", "rfxencode_compose.c")],
     SE + ": capacity and component lengths symbolic, the message parsed", "as C01")

prop("C13", "Colour conversion is the protocol's fixed-point matrix, for every pixel",
     "For every pixel of an RGB picture, in each of the four RGB formats, the Y, Cb and Cr bytes that are coded are the protocol's conversion of that pixel in 16-bit fixed point, rounded down: (19595R+38470G+7471B)/65536, (-11071R-21736G+32807B)/65536+128 and (32756R-27429G-5327B)/65536+128. No pixel saturates or wraps differently, with or without an alpha plane.",
     ["inputs", "configurations"], "all 2^24 colours at every position of a tile, four formats",
     "a coefficient or rounding off by one changes few colours by one step, and tests compare sizes of one picture",
     ["src/rfxencode_rgb_to_yuv.c", "src/rfxencode_tile.c"], [("matrix", "rfxencode_rgb_to_yuv.c")],
     SE + ": all pixels of the tile symbolic, plane-wise equality with the matrix", "all pixels of a full tile")

prop("C14", "Every coded sample comes from the right pixel of the picture",
     "A tile codes exactly the pixels of the 64 by 64 square at its position: the colour channels in the order of the picture's format, the given stride respected, and the planes of a planar picture taken as they are. Where the picture ends inside the tile, its last column and last row are repeated; with an alpha plane the same holds for the alpha channel.",
     ["inputs", "configurations"], "every tile position, width and height from 1 to 64, stride, format and pixel content",
     "partial tiles of a particular width or height, or a stride larger than the row, are not in the tests, which also never look at the coded samples",
     ["src/rfxencode_tile.c", "src/rfxencode_rgb_to_yuv.c", "src/rfxencode_compose.c"],
     [("unpacking and edge replication", "rfxencode_rgb_to_yuv.c rfx_encode_format_rgb, rfx_encode_format_argb"), ("tile address", "rfxencode_compose.c rfx_compose_message_tileset")],
     SE + ": all pixels symbolic, tile width or height symbolic, planes compared with a reference", "see DESIGN.md")

prop("C15", "Alpha planes are coded without loss",
     "For every alpha plane, the alpha data of a tile decodes, by the protocol's planar run-length scheme or as raw bytes, to exactly the 64 by 64 alpha values of the tile's pixels. The alpha length in the tile delimits that data.",
     ["inputs"], "every alpha plane; every run and literal length in a row",
     "a wrong byte needs a run or literal segment of one particular length, next to another, and tests never decode alpha",
     ["src/rfxencode_alpha.c", "src/rfxencode_tile.c", "src/rfxencode_compose.c"],
     [("row deltas and run-length packing", "rfxencode_alpha.c fdelta, fpack, fout"), ("raw fallback", "rfxencode_alpha.c rfx_encode_plane")],
     SE + ": windows of symbolic alpha bytes at every column, all segment lengths, decoded by an independent decoder", "see DESIGN.md")

prop("C18", "Encoders are created, used and destroyed without leaks or invalid memory use",
     "Creating an encoder succeeds exactly for the five known pixel formats unless memory runs out, and a failed creation leaves nothing allocated. Whatever calls were made in between, including progressive sessions, key requests and calls that failed for lack of memory, destroying an encoder releases all it ever allocated, once; destroying no encoder is harmless.",
     ["inputs", "histories", "fault_sequences"], "every size, format and flag word, every allocation failing or not, every sequence of calls",
     "tests never fail an allocation and do not count blocks; a leak needs a particular history",
     ["src/rfxencode.c", "src/rfxencode_compose.c"],
     [("creation", "rfxencode.c rfxcodec_encode_create_ex"), ("per-tile history blocks", "rfxencode.c clear_encoder_rbs"), ("destruction", "rfxencode.c rfxcodec_encode_destroy")],
     SE + ": parameters and each allocation's outcome symbolic, heap tracked", "up to 3 calls")

prop("C19", "Processor features and flags never change what is coded",
     "Whatever features the processor reports and whatever acceleration flag is given, a tile's coded components decode to the same coefficients, coded with the entropy coder asked for. Accelerated routines run only when the processor reports their instruction set and acceleration is not disabled.",
     ["configurations"], "every CPUID result and flag combination",
     "a test machine has one processor",
     ["src/rfxencode.c", "src/rfxencode_tile.c", "src/amd64/funcs_amd64.h"],
     [("choice of the component coder", "rfxencode.c rfxcodec_encode_create_ex"), ("component coders", "rfxencode_tile.c")],
     SE + ": CPUID results and flags symbolic, the message decoded", "one tile")

prop("C20", "Non-progressive messages do not depend on earlier calls or other encoders",
     "Apart from the stream header and the frame number, what a non-progressive encode call delivers depends only on that call's picture, tiles, rectangles, quantisers and flags. Earlier calls on the same encoder, whatever their tiles were, and calls on other encoders in between leave no trace in it.",
     ["histories", "inputs"], "every pair of successive requests, every interleaving of calls on two encoders",
     "tests make one call per encoder; stale data from a larger earlier tile shows only in a later partial one",
     ["src/rfxencode_tile.c", "src/rfxencode.c", "src/rfxencode.h"],
     [("per-encoder scratch planes", "rfxencode.h struct rfxencode"), ("edge replication", "rfxencode_rgb_to_yuv.c")],
     SE + ": sequences of calls with symbolic pixels and symbolic choice of encoder and picture, each message decoded", "up to 3 calls, 2 encoders")

prop("C21", "Messages are a function of the request: no stale or uninitialised bytes",
     "Two encoders created alike and given the same sequence of requests deliver the same results, lengths and bytes, whatever the output buffers, the heap and the stack contained before. No byte of a delivered message is left over from the caller's buffer or from uninitialised memory, in ordinary, alpha-carrying and progressive messages.",
     ["inputs", "histories"], "every previous content of buffers and memory, every capacity, sequences of calls",
     "in tests the memory happens to be zero; leaked bytes change nothing a size comparison sees",
     ["src/rfxencode_compose.c", "src/rfxencode_alpha.c", "src/rfxencode.c", "src/rfxencode_diff_rlgr1.c", "src/rfxencode_diff_rlgr3.c"],
     [("fields filled in later", "rfxencode_compose.c stream_seek"), ("final partial words", "rfxencode_diff_rlgr1.c, rfxencode_diff_rlgr3.c")],
     SE + ": uninitialised memory symbolic, two runs compared byte by byte (self-composition)", "up to 3 calls")

prop("C22", "A delivered message decodes to the tile's quantised transform",
     "Every tile of a delivered non-progressive message, decoded with the message's own entropy coder and its own quantiser index, gives exactly the quantised 5/3 wavelet coefficients of the colour-converted tile, for each of the three components with its own quantiser. This holds across pixel formats, tile orders, quantiser choices and both entropy coders.",
     ["inputs", "configurations"], "every combination of format, tile position and order, quantiser index per component and entropy coder, over a set of pictures",
     "the parts can each be right and be put together wrongly (components swapped, a quantiser of another component, a tile of another position); tests compare sizes",
     ["src/rfxencode_tile.c", "src/rfxencode_compose.c", "src/rfxencode.c"],
     [("component pipeline", "rfxencode_tile.c rfx_encode_component_rlgr1 and its variants"), ("tile loop", "rfxencode_compose.c")],
     SE + ": whole messages decoded by an independent decoder, tile order, quantiser indices, picture and entropy coder symbolic", "pictures from a fixed set")

prop("C23", "Encoders share no mutable state",
     "Once an encoder has been used, encode calls change nothing outside that encoder, the output buffer and the length argument: no data shared between encoders is altered. Encoders can therefore be used from different threads at the same time.",
     ["schedules", "histories"], "every interleaving of calls on different encoders, at any instruction",
     "a shared scratch buffer behaves correctly in any single-threaded test",
     ["src/rfxencode.c", "src/rfxencode_tile.c", "src/rfxencode_alpha.c"],
     [("all working memory is per encoder", "rfxencode.h struct rfxencode")],
     SE + ": the library's global data compared before and after each call on every path", "absence of writes makes interleavings immaterial")

LATER = []
import sys
sys.path.insert(0, os.path.join(V, "tools"))
import jobs
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, t, n in sorted(P, key=lambda x: x[0]['id']):
        if d["id"] in jobs.PROPS:
            f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": d["id"], "quick_cmd": "python3 tools/check.py %s" % d["id"], "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py %s --tier thorough" % d["id"],
                 "technique": t, "level": "other", "level_note": "solver verdict over all values within bounds: " + n} for d, t, n in P if d["id"] in jobs.PROPS],
     "not_applicable": [], "notes": "No hooks in /repo. DESIGN.md describes engine, harnesses, bounds and findings."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
missing = set(jobs.PROPS) - {d["id"] for d, t, n in P}
print("properties", len(m["checks"]), "unlisted jobs:", missing, "without jobs:", [d["id"] for d, t, n in P if d["id"] not in jobs.PROPS])
