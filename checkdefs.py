"""What each check runs and how its evidence is worded."""

REAL = [
    "all of jpeg-decoder as compiled from /repo's working tree: parser, Huffman decoding, IDCT, upsampling, colour conversion, lossless decoding, workers (immediate, multithreaded, rayon)",
    "std (threads, channels, mutexes, parking) and rayon/rayon-core/crossbeam: real code, running on a simulated kernel interface",
]
STUB = [
    "futex, thread creation/join, sched_yield, sleep, clock and getrandom calls of the process: replaced by a seeded single-CPU scheduler with virtual time (sim/src/interpose.rs, sched.rs)",
    "the allocator: real memory through a counting, optionally guard-paged layer (sim/src/mem.rs)",
    "the byte source (any std::io::Read): simulated source with short reads, EINTR, stalls, errors, premature end, panics and blocking (sim/src/reader.rs)",
]
ASSUMPTIONS = [
    "sequentially consistent memory: threads are switched at futex operations, at atomic-free preemption points (every instrumented edge of the decoder) and at reads; weak-memory reorderings are not simulated",
    "x86-64 with SSSE3; NEON and WebAssembly code is not compiled here",
    "images come from the generator in sim/src/jpeg.rs: mostly up to 312x93 samples; one in a thousand is larger (up to 65535 lines or columns, up to 2090x2076, up to 70000 blocks)",
]

_IMG = "a run draws an image (process, precision, components, sampling, scan script, tables, restart intervals, metadata), a call history, a delivery plan, a calling thread, a pool size and a schedule from one seed; "

PROPS = {
    "P01": dict(quick=80000, rule=_IMG + "it is decoded with two different deliveries of the same (well-formed or damaged) bytes and all outcomes are compared; non-trivial: the second delivery cuts, interrupts or stalls at least one read, or threads were switched"),
    "P02": dict(quick=80000, rule=_IMG + "the source fails at a drawn byte; non-trivial: the failure was hit or lies behind the last needed byte of a completed call, or threads were switched"),
    "P03": dict(quick=100000, rule=_IMG + "stored bytes and segments are damaged by up to several faults of ten kinds; non-trivial: the bytes differ from the undamaged file and a call was made on them, or threads were switched"),
    "P04": dict(quick=80000, cross=True, rule=_IMG + "the result is compared with the reference model, with an undisturbed run and between worker back ends; non-trivial: the decode succeeded and was compared, with threads switched or fully sequentially",
                assumptions=["SIMD builds are compared with the model within 6 per sample and 1.6 on average (the SSSE3 IDCT and colour conversion round differently); platform_independent builds exactly"]),
    "P05": dict(quick=40000, rule=_IMG + "one to three decodes run one after the other or at the same time, with source faults and panics; non-trivial: every run",
                assumptions=["memory: what remains after all decoders are dropped must not exceed 2 KiB (no pool) or 16 KiB (pool): caches of std and rayon"]),
    "P06": dict(quick=40000, rule=_IMG + "two to four decoders run alone and then together (threads, pool tasks, or interleaved calls on one thread); non-trivial: every run"),
    "P07": dict(quick=60000, rule=_IMG + "a history of up to ten calls is compared with its plain form and with the expected info after every call; non-trivial: every run"),
    "P08": dict(quick=60000, rule=_IMG + "one to several images on one stream, followed by nothing, bytes, a failing or a blocking source; non-trivial: every run"),
    "P09": dict(quick=80000, rule=_IMG + "the returned buffer and the dimensions are compared with what info() and the scale rule imply; non-trivial: a decode succeeded, or threads were switched"),
    "P10": dict(quick=80000, rule=_IMG + "a limit around the decoded size, or a hostile declared size, with allocation accounting; non-trivial: every run"),
    "P11": dict(quick=60000, rule=_IMG + "metadata segments are lost, repeated, reordered, misnumbered and miscounted, and compared with an oracle over the segments that arrived; non-trivial: at least one metadata segment"),
    "P12": dict(quick=100000, rule=_IMG + "restart intervals are lost, repeated or exchanged, or bits inside one interval damaged; non-trivial: the undamaged image decodes and a fault was applied"),
    "P13": dict(quick=80000, rule=_IMG + "scans are lost; progressive results are compared with the model of the received coefficients; non-trivial: every run",
                assumptions=["comparison with the model as for P04"]),
    "P14": dict(quick=80000, rule=_IMG + "one to five pieces of noise are inserted; non-trivial: every run"),
    "P15": dict(quick=40000, configs=["ns", "np"], rule=_IMG + "thread creations are refused by number; non-trivial: at least one thread was refused, or threads were switched"),
    "P16": dict(quick=80000, rule=_IMG + "transient errors, premature ends and panics of the source, then more calls on the same decoder, also after success with further scans on the stream; non-trivial: a decode was attempted after a failed or completed one, or threads were switched"),
    "P17": dict(quick=40000, rule=_IMG + "scans, tables, comments and metadata are repeated far beyond what the frame needs, workers are starved, and the peak of all memory the decoder and its threads hold is compared with a multiple of the frame; non-trivial: every run",
                assumptions=["allocations made by tasks on rayon's own threads are not attributed to the decoder; builds without rayon count everything"]),
    "P18": dict(quick=60000, rule=_IMG + "one header field becomes invalid, or a segment is moved, inserted or removed so that the stream contradicts itself; non-trivial: every run"),
    "P19": dict(quick=40000, rule=_IMG + "some part of the stream (scans, tables, segments, fill, height, width, calls) is there 1, 2 and 17 times over, and the steps, allocated bytes and reads of the three decodes are compared with each other and with fixed multiples of the data and frame; non-trivial: every run",
                assumptions=["steps are instrumented edges of the decoder: time spent inside one library call (memcpy, sort, formatting) is not counted"]),
    "P21": dict(quick=60000, rule=_IMG + "headers are changed to, or gain, those of a feature outside the supported set; non-trivial: every run"),
    "P23": dict(quick=60000, rule=_IMG + "the same coefficients or samples are coded a second (and third) time with another process, scan script, tables, restart intervals and segment order, sometimes with a complete scan sent twice; the decoded bytes must be equal; non-trivial: all decodes succeeded and were compared"),
}
