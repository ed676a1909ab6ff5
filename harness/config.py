"""Which sources, targets, flavours and bounds each property's check uses."""
BUILT = ["sse2", "ssse3", "sse4", "avx2", "avx3", "scalar"]
MORE = ["dl", "spr", "emu"]
ALLT = BUILT + ["dl", "zen4", "spr", "emu"]
def vec(src, flags=None, more=MORE):
    q = [dict(src=src, targets=BUILT, flavors=["gcc"], flags=flags or [])]
    if more: q.append(dict(src=src, targets=more, flavors=["clang"], flags=flags or []))
    t = [dict(src=src, targets=[x for x in ALLT if x != "emu"], flavors=["gcc"], flags=flags or []), dict(src=src, targets=ALLT, flavors=["clang"], flags=flags or [])]
    return q, t
def V(*srcs, **kw):
    more = kw.pop("more", MORE); tflags = kw.pop("tflags", None)
    q, t = [], []
    for s in srcs:
        a, b = vec(s, more=more)
        for u in b: u['flags'] = list(tflags or [])
        q += a; t += b
    return dict(kw, units=q, thorough=dict(units=t, goal_s=900, query_ms=120000, **kw.pop("thorough_kw", {})))
def sc(src, *flagsets):
    """Scalar code: one target, both compilers; extra flag sets select the portable alternatives."""
    u = [dict(src=src, targets=["sse2"], flavors=["gcc", "clang"], flags=[])]
    for f in flagsets: u.append(dict(src=src, targets=["sse2"], flavors=["gcc"], flags=list(f)))
    return u
def S(src, *flagsets, **kw):
    t = kw.pop("tflags", [])
    b = kw.pop("base", []); q = [dict(u, flags=b + u["flags"]) for u in sc(src, *flagsets)]; th = [dict(u, flags=u["flags"] + t) for u in q]
    return dict(kw, units=q, thorough=dict(units=th, goal_s=900, query_ms=120000))
def join(a, *more):
    for b in more:
        a["units"] += b["units"]; a["thorough"]["units"] += b["thorough"]["units"]
    return a
CPU = ["-UHWY_COMPILE_ONLY_STATIC", "-fno-pic", "-fno-pie"]
def X(quick, thorough, **kw):
    """Explicit units (source, targets, flavors, flags) for both tiers."""
    u = lambda l: [dict(src=a, targets=b, flavors=c, flags=d) for a, b, c, d in l]
    return dict(kw, units=u(quick), thorough=dict(units=u(thorough), goal_s=900, query_ms=120000))
LANES = "all vector sizes 1, 2, 4 ... full width of each x86 target, every lane value"
PROPS = {
 "C01": V("C01.cc", bounds=LANES),
 "C02": V("C02.cc", bounds=LANES),
 "C03": join(V("C03.cc", query_ms=60000, goal_s=150, bounds=LANES + "; 8- to 32-bit lanes: every dividend and divisor; 64-bit lanes: 24 divisors, 256 dividends around 28 points each. Divisor: 1000+ divisors (every divisor below 1024, within 2 of every power of two, and others), every dividend; Divisor64: 580 divisors, every 64-bit dividend", outside="64-bit lanes: other divisors and dividends"), S("C03s.cc", ["-DHWY_HAVE_DIV128=0"])),
 "C04": V("C04.cc", bounds=LANES),

 "C05": V("C05.cc", bounds=LANES),
 "C11": V("C11.cc", goal_s=45, bounds=LANES, outside="the sign of a zero returned by Round, Trunc, Ceil and Floor; GetExponent of zero, subnormal, infinite and NaN lanes; NaN payloads; MulByPow2, MulByFloorPow2, Approximate*; Round on HWY_SCALAR and HWY_EMU128 is decided for f32; for f64 not within the time of either tier"),
 "C10": V("C10.cc", goal_s=30, bounds=LANES, outside="NaN to integer; f16 infinities and NaNs (promotion); f64 to f32 above FLT_MAX may give FLT_MAX or infinity; f32 to bf16 may truncate or round, and on Zen 4 and later targets subnormals may become zero; f64 NearestInt to i64 on HWY_SCALAR and HWY_EMU128, 64-bit integer to float on SSE2..SSE4 in the quick tier where undecided within the goal's time; Float to integer ...InRange conversions out of range"),
 "C12": V("C12.cc", "C12b.cc", bounds=LANES + ", every valid index/amount/mask-independent pattern", outside="Per4LaneBlockShuffle: in the quick tier for u16, u32, u64 full vectors only (all 256 patterns)"),
 "C06": V("C06.cc", bounds=LANES),
 "C07": V("C07.cc", bounds=LANES + ", every mask", outside="AllTrue..FindLastTrue of 16-lane vectors on EMU128 (one branch per lane)"),
 "C08": V("C08.cc", bounds=LANES + ", every mask", outside="masked integer division (quotients: C03) on EMU128"),
 "C09": V("C09.cc", bounds="all vector sizes 1, 2, 4 ... full width of each x86 target, every lane value"),
 "C13": V("C13.cc", tflags=["-DVP_DEEP=1"], bounds=LANES + "; vectors of up to 8 lanes: every mask; longer vectors: every data, the mask's bytes are one chosen byte before, one after, and in between one out of 12 (thorough: 256) bytes at each position"),
 "C14": V("C14.cc", bounds=LANES + ", every mask, every count; objects of exactly the accessible size", outside="LoadN with a count above Lanes(d) and fewer accessible elements than a 64-byte block"),
 "C16": V("C16.cc", bounds=LANES + ", every mask; floating-point sums: one arbitrary lane, the others zero (or masked out); floating-point minima/maxima: arbitrary non-NaN values up to 4 lanes, beyond that values of one sign below 2", outside="rounding of floating-point sums"),
 "C15": V("C15.cc", bounds=LANES + "; gather/scatter tables of 5 elements, every index, mask and count; LoadInterleaved/StoreInterleaved 2, 3 and 4"),
 "C17": V("C17.cc", bounds="every state, key and operand; AESKeyGenAssist for all 10 round constants and 255; vectors of 16 bytes up to full width"),
 "C18": S("C18.cc", ["-U__SIZEOF_INT128__"], query_ms=40000, goal_s=120, bounds="every argument, except: DivCeil and RoundUpTo/RoundDownTo with the listed divisors and every dividend, or every pair below 4096 and 256"),
 "C26": S("C26.cc", tflags=["-DVP_OPS=4"], bounds="BitSet64: every state and operation (Foreach: up to 4 members, and every suffix range); BitSet4096<N> for N = 64, 100, 128, 192: every history of 3 operations; N = 512: 2; N = 4096: 1 (thorough: one more each); Foreach with up to 3 members (N = 128), 2 (N = 256), 1 (N = 4096); PopCount itself is C18"),
 "C19": V("C19.cc", bounds=LANES + "; counts 0 to 3N+1 for N <= 4 lanes, for longer vectors 12 counts around the multiples of N up to 3N; arrays of exactly that many elements. CopyIf: every selection of up to 9 elements, for more a chosen byte (nibble for 16 lanes or more) of the selection at the start, middle or end and three backgrounds; every Find/Replace value. One functor per number of inputs", outside="counts beyond 3N+1"),
 "C21": V("C21.cc", tflags=["-DVP_DEEP=1"], bounds="every raw value of kBits bits and every packed bit pattern, in exactly sized arrays: Pack8 1-8 and Pack16 1-16 for vectors of 16 bytes up to full width (thorough: all sizes), Pack32 1-32 with 4 lanes (thorough: full), Pack64 for 18 widths (thorough: 1-64) with 2 lanes (thorough: full); frame of reference: every reference value, one lane", outside="raw values of more than kBits bits"),
 "C24": V("C24.cc", tflags=["-DVP_DEEP=1"], bounds="full vectors of each target; counts 1 to 9N+1 for N <= 4 lanes (thorough: 8), for longer vectors 16 counts around the multiples of N up to 8N+1; arrays of exactly that many elements; units: map of one and two inputs with index, converting map (6 type pairs), sum, dot product, find with early exit", outside="other user-defined units; count 0"),
 "C25": S("C25.cc", bounds="AllocateAlignedBytes: payloads of 8 sizes at every position of the cyclic offset (up to 9 live blocks), blocks at 4 misalignments (placement: at any address); every payload size up to 2^64 - 1 for the size arithmetic; AllocateAligned item counts: every count for items of 1, 2, 3, 4, 8, 12, 100 bytes; arrays of 1 to 6 objects of 1, 3, 8, 40 bytes; AlignedNDArray up to 3 x 35 and 3 x 3 x 17 for 16- and 32-byte vectors", outside="size 0 (aborts), AlignedAllocator::allocate with an overflowing element count, constructors that throw"),
    "C22": V("C22.cc", bounds="xoshiro256++ state and seeds fully symbolic; sequences of up to two calls to every generating entry point (arrays up to 4 vectors plus a partial one, fixed arrays of 1, 3, L, 2L, 2L+1) followed by one more vector; Jump/LongJump over their full 256 steps; thread numbers 0..2; the conversion to double for every 64-bit output", outside="longer histories (each call is checked from an arbitrary state, and the state after it is compared, so longer histories compose); std::seed use; statistical quality"),
    "C29": S("C29.cc", base=["-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], bounds="numbers of 1 to 9 digits with suffix (and 12 digits), any 0 to 3 bytes that are no number, any 4 bytes at any of 3 positions; lists of one term of 1 to 3 digits or two of 1 or 2 (ranges of up to 3), ranges over a power of ten, any limit; any text of up to 4 bytes; files of 0 to 300 bytes read in pieces of any of 4 sizes with an interrupted open, read and close; every count of processors; affinity sets of up to 2 members and every single one; topologies of up to 3 processors with any one-digit ids (package, core, L3) and two nodes; cache descriptions of 2 caches", outside="ids above 9 digits and lists with more than 1024 processors (the program aborts), Windows, macOS, FreeBSD; system calls are stand-ins"),
    "C30": S("C30.cc", bounds="vector sizes 1, 4, 16, 32, 64 and 128 bytes; every width up to 2^32 - 1 for the row size; images of up to 5 widths and 4 heights of 1, 2, 4, 8 byte pixels; every move, shrink and swap of two images; Image3 as well", outside="externally owned memory aligned to less than HWY_ALIGNMENT"),
    "C31": S("C31.cc", tflags=["-DVP_DEEP=1"], bounds="every value; counting sort of up to 4, half-sample mode of up to 9 sorted values and of every arrangement of up to 3, median of every arrangement of up to 4 (thorough: 5), median absolute deviation of up to 3; bins: up to 5 notifications over two accumulators; moments: up to 5 values and up to three accumulators of up to 3, compared as polynomials over the reals (coefficients to 1e-11); list: every removal order up to 5 positions, any two removals among 24, the largest counts", outside="rounding of the moments; log, exp, sqrt, pow (stand-ins); skewness and kurtosis beyond the central moments; 64-bit samples of 2^63 or more in the median absolute deviation; the cost estimator of the auto-tuner"),
    "C23": V("C23.cc", tflags=["-DVP_DEEP=1"], bounds="dot products of float, double, bfloat16 (both and one operand) and int16 arrays, all eight assumption masks, counts 0 to 5N+1 for N <= 4 lanes, for longer vectors 16 counts up to 9N-1 (thorough: 0 to 9N), vectors of 16 bytes and full width; matrix times vector: one to a few rows around the parallel chunk, columns around the unroll factors, tasks in ascending and descending order; floating-point elements of magnitude 1 to 2 with 7 or 15 random significand bits, compared as polynomials over the reals", outside="rounding of floating-point results (terms lost, duplicated, misplaced or of the wrong sign are found, rounding differences are not)"),
    "C28": X([("C28.cc", ["sse2", "avx3"], ["gcc"], CPU), ("C28.cc", ["sse2"], ["clang"], CPU + ["-DVP_DISPATCH"]), ("C28.cc", ["avx2"], ["clang"], CPU + ["-DVP_DISPATCH", "-DVP_OPS=2"]), ("C28.cc", ["sse4"], ["clang"], CPU + ["-DVP_DISPATCH", "-DVP_OPS=2", "-DHWY_DISABLED_TARGETS=(HWY_AVX2|HWY_AVX3)"])],
             [("C28.cc", ["sse2", "ssse3", "sse4", "avx2", "avx3", "spr"], ["gcc", "clang"], CPU), ("C28.cc", ["sse2", "sse4", "avx2", "avx3", "spr"], ["clang"], CPU + ["-DVP_DISPATCH", "-DVP_OPS=4"])], goal_s=150,
             bounds="every content of the CPUID leaves 0, 1, 7.0, 7.1, 24h and 80000001h and of XCR0; every mask of disabled and of mocked targets (63 bits); any 3 (thorough: 4) of disable, mock, ask, call in any order, then a call; dispatch tables of the targets clang 18 compiles by default for a baseline of SSE2 and AVX2, and for SSE4 without AVX2 and AVX3", outside="macOS, Arm, POWER, RISC-V, LoongArch detection; processors whose maximum extended leaf is below 80000001h"),
    "C27": X([("C27.cc", ["scalar"], ["gcc"], []), ("C27.cc", ["scalar"], ["gcc"], ["-DVP_BIG", "-DVP_THREADS=64", "-DVP_SLOTS=512"])], [("C27.cc", ["scalar"], ["gcc", "clang"], ["-DVP_DEEP=1"]), ("C27.cc", ["scalar"], ["gcc", "clang"], ["-DVP_BIG", "-DVP_THREADS=64", "-DVP_SLOTS=512"])], goal_s=300,
             bounds="pools of 0 to 3 threads: every wait and barrier type, spin instruction, and 64-bit begin, up to threads + 3 tasks, with threads taking turns; every schedule that deviates from taking turns up to once (2 and 3 threads) or twice (1 thread; thorough: 2 and 3 times), where a deviation is a preemption before any atomic operation, another thread after a block, a spurious futex wake-up, or a load that returns the previous value where acquire and release permit it, during startup, Run, a change of configuration, and destruction; 61 to 63 threads taking turns with one delayed thread; division of up to 11 tasks among up to 5 workers; victims of up to 24 (thorough: 64) workers", outside="more deviations; loads older than the previous value; the tuner's choice (a stand-in); thread names, affinity, timers; unbounded progress under unfair schedules"),
    "C20": X([("C20.cc", ["scalar", "sse2", "avx2", "avx3"], ["gcc"], [])], [("C20.cc", ["scalar", "sse2", "ssse3", "sse4", "avx2", "avx3"], ["gcc", "clang"], [])], goal_s=200,
             bounds="sort, partial sort and select (every k) of 0 to 3 keys (16-bit lanes without SIMD: 4) of all values, including NaN and infinities, ascending and descending, for 16-, 32- and 64-bit integers, float, double, K32V32, K64V64, 128-bit keys; the sorting networks on 1 to 16 two-valued keys of which 10 are arbitrary, at three places among four patterns (without SIMD: 1 to 6 keys), for 64-bit, 32-bit and float keys; arrays of exactly that many keys", outside="arrays above the base case of the quicksort (the partitioning forks into paths whose queries are out of the solver's reach), 17 keys or more, float16"),
}
