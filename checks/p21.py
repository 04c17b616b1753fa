"""P21: durations and bitrates follow from the header's figures."""
from fractions import Fraction
from sa.common import *
from checks.p20 import E, sweep, at, le, total36, rate20, MPC_RATES, ape_new, L, B, const

RULE = ("the duration a decoder computes is its header's sample (or tick) count over its rate, and its bitrates are the bits of the stream or file over that duration, for every value of the "
        "header's fields and of the lengths; both up to the rounding to milliseconds and kbit/s")
EXPLANATION = ("Abstract interpretation of the compiler's MIR over bit provenance (see P20): duration and bitrate are obtained as terms over header bits, file and stream length, and compared with "
               "the reference formula as functions; a difference is reported with values on which the two differ by more than rounding.")

KB = lambda r: r.randrange(2000, 1 << 30)
HZ = lambda r: r.choice((8000, 16000, 22050, 32000, 44100, 48000, 96000, 192000))
CNT = lambda r: r.choice((r.randrange(5000, 1 << 18), r.randrange(1 << 18, 1 << 31)))
LEN = {"#stream_length": KB, "#file_length": KB, "#end": KB}


def dur(samples, rate):
    def f(V):
        n, hz = samples(V), rate(V)
        return (Fraction(n * 1000, hz), 1) if n > 0 and hz and n * 1000 < hz << 50 else None
    return f


def kbps(length, samples, rate):
    def f(V):
        n, hz, b = samples(V), rate(V), length(V)
        if n <= 0 or not hz or n * 1000 < 50 * hz:
            return None
        ms = Fraction(n * 1000, hz)
        want = b * 8 / ms
        return (want, 1 + want / (ms - 2) * 2) if want < 4000000 else None
    return f


sym = lambda name: lambda V: V.sym(name)
file, stream, end = sym("#file_length"), sym("#stream_length"), sym("#end")
ZERO = const(0)


def figs(adt, samples, rate, overall, audio, zero=True, names=("duration", "overall_bitrate", "audio_bitrate")):
    out = {f"{adt}.{names[0]}": [dur(samples, rate), ZERO]}
    for n, length in zip(names[1:], (overall, audio)):
        if length:
            out[f"{adt}.{n}"] = [kbps(length, samples, rate), ZERO]
    return out


def F(fn, figures, cases=None, syms=None, **kw):
    return E(fn, {}, cases=cases, figures=figures, syms={**LEN, **(syms or {})}, **kw)


def ape(total, rate, cases):
    return F("ape::properties::read_properties", figs("ApeProperties", total, rate, file, stream), cases=cases)


def ape_all():
    out = []
    for extra in (0, 8):
        H = 48 + extra
        total = (lambda H: lambda V: (V.le(H + 12, 4) - 1) * V.le(H + 4, 4) + V.le(H + 8, 4))(H)
        out.append(ape(total, L(H + 20, 4), [(f"descriptor {52 + extra}", {**at(0, le(3990, 2)), **at(4, le(52 + extra, 4))})]))
    for v, level, bpf in ((3950, 2000, 73728 * 4), (3940, 2000, 73728), (3900, 4000, 73728), (3800, 4000, 73728), (3800, 2000, 9216), (3700, 2000, 9216)):
        total = (lambda bpf: lambda V: (V.le(20, 4) - 1) * bpf + V.le(24, 4))(bpf)
        out.append(ape(total, L(8, 4), [(f"v{v}/level{level}", {**at(0, le(v, 2)), **at(2, le(level, 2)), **at(4, [0, 0])})]))
    return out


ogg = lambda V: max(0, V.sym("PageHeader.abgp") - V.sym("PageHeader.abgp@"))
ABGP = {"PageHeader.abgp": lambda r: r.randrange(10000, 1 << 33), "PageHeader.abgp@": lambda r: r.choice((0, r.randrange(0, 1 << 14)))}


def thousand(f):
    def g(V):
        x = f(V)
        x = x - (1 << 32) if x >> 31 else x
        return (Fraction(x, 1000), 1) if x > 0 else None
    return g


def blind(length):
    """length over an assumed second, for streams whose duration is not known"""
    return lambda V: (Fraction(length(V) * 8, 1000), 1)


MD = [dur(B(d, n), B(t, 4)) for d, n in ((16, 4), (24, 8)) for t in (12, 20)]
sv7 = lambda V: V.le(1, 4)
sv7rate = lambda V: MPC_RATES[V.bits(7, 1, 0)]


def sv7pcm(V):
    n = V.le(1, 4)
    if not n:
        return 0
    return n * 1152 - (1152 - (V.bits(20, 6, 0) << 4 | V.bits(19, 7, 4)))


POS = ("$pos", "$last_frame_offset", "#last_frame_offset")
RATES = ("MpegProperties.audio_bitrate@", "Header.bitrate@")


def cbr(pos, rate):
    """from the first byte of the first frame to the last of the last"""
    return lambda V: (Fraction((V.sym(pos) + V.sym("Header.len") - V.sym("#first_frame.1")) * 8, V.sym(rate)), 1)


def over(ms):
    def f(V):
        t = ms(V)[0]
        want = Fraction(V.sym("#file_length") * 8) / t
        return (want, 1 + want / (t - 2) * 2) if t > 50 and want < 4000000 else None
    return f


def times(x, k):
    return x and (x[0] * k, x[1])


def sv46(f, v, delay):
    return lambda V: (f(V) - (v < 6)) * 1152 - delay


wavpcm = lambda depth: lambda V: V.sym("#stream_length") // (V.le(2, 2) * (depth // 8)) if 0 < V.le(2, 2) < 256 else 0
RATE4 = lambda V: V.le(4, 4)
aiffrate = lambda V: V.sym("as_f64")

ENTRIES = [
    F("flac::properties::read_properties", figs("FlacProperties", total36, rate20, file, stream)),
    *ape_all(),
    F("ogg::opus::properties::read_properties", figs("OpusProperties", lambda V: max(0, ogg(V) - V.le(10, 2, 1)), const(48000), end, None), syms=ABGP),
    F("ogg::vorbis::properties::read_properties", {
        "VorbisProperties.duration": [dur(ogg, L(12, 4, 1)), ZERO], "VorbisProperties.overall_bitrate": [kbps(end, ogg, L(12, 4, 1)), blind(end), ZERO],
        "VorbisProperties.audio_bitrate": [thousand(L(20, 4, 1)), ZERO]}, syms=ABGP),
    F("ogg::speex::properties::read_properties", {
        "SpeexProperties.duration": [dur(ogg, L(36, 4, 1)), ZERO], "SpeexProperties.overall_bitrate": [kbps(end, ogg, L(36, 4, 1)), blind(end), ZERO],
        "SpeexProperties.audio_bitrate": [thousand(L(52, 4, 1)), ZERO]}, syms=ABGP),
    *[F("iff::wav::properties::read_properties", {
        "WavProperties.duration": [dur(wavpcm(d), RATE4), dur(lambda V: V.sym("#stream_length"), L(8, 4)), ZERO],
        "WavProperties.overall_bitrate": [kbps(file, wavpcm(d), RATE4), kbps(file, lambda V: V.sym("#stream_length"), L(8, 4)), ZERO],
        "WavProperties.audio_bitrate": [lambda V: (Fraction(V.le(8, 4) * 8, 1000), 1), kbps(lambda V: V.sym("#stream_length"), wavpcm(d), RATE4), ZERO]},
        cases=[(f"pcm {d}", {**at(0, le(1, 2)), **at(14, le(d, 2))})]) for d in (8, 16, 24)],
    *[F("iff::wav::properties::read_properties", {
        "WavProperties.duration": [dur(wavpcm(d), RATE4), dur(lambda V: V.sym("#stream_length"), L(8, 4)), ZERO]},
        cases=[(f"extensible {v} in {d}", {**at(0, le(0xFFFE, 2)), **at(14, le(d, 2)), **at(18, le(v, 2)), **at(24, [1, 0])})]) for d, v in ((32, 24), (16, 12))],
    F("iff::aiff::properties::read_properties", figs("AiffProperties", B(2, 4), aiffrate, file, lambda V: V.sym("#stream_length")), syms={"as_f64": HZ}),
    F("wavpack::properties::read_properties", figs("WavPackProperties", L(12, 4), sym("WavPackProperties.sample_rate"), end, stream), syms={"WavPackProperties.sample_rate": HZ},
      within="wavpack::properties::read_properties"),
    F("musepack::sv8::properties::read", figs("MpcSv8Properties", lambda V: V.sym("StreamHeader.sample_count@") - V.sym("StreamHeader.beginning_silence@"), sym("StreamHeader.sample_rate@"),
                                              stream, None, names=("duration", "average_bitrate")),
      syms={"StreamHeader.sample_count@": CNT, "StreamHeader.beginning_silence@": lambda r: r.randrange(0, 3000), "StreamHeader.sample_rate@": HZ}),
    F("musepack::sv7::properties::MpcSv7Properties::read", {
        "MpcSv7Properties.duration": [dur(lambda V: V.le(1, 4) * 1152, sv7rate), dur(sv7pcm, sv7rate), ZERO],
        "MpcSv7Properties.average_bitrate": [kbps(stream, sv7pcm, sv7rate), kbps(stream, lambda V: sv7(V) * 1152 - 1152, sv7rate), kbps(stream, lambda V: sv7(V) * 1152 - 481, sv7rate), ZERO]}),
    *[F("musepack::sv4to6::properties::MpcSv4to6Properties::read", {
        "MpcSv4to6Properties.duration": [dur(sv46(f, v, 481), const(44100)), dur(sv46(f, v, 576), const(44100)), ZERO],
        "MpcSv4to6Properties.average_bitrate": [*[kbps(stream, sv46(f, v, d), const(44100)) for d in (576, 481)], lambda V: V.le(0, 4) >> 23, ZERO]},
        cases=[(f"sv{v}", {(1, 3): v & 1, (1, 4): v >> 1 & 1, (1, 5): v >> 2, (1, 6): 0, (1, 7): 0, (2, 0): 0, (2, 1): 0, (2, 2): 0, (2, 3): 0, (2, 4): 0})],
        wrong={"MpcSv4to6Properties.average_bitrate": ("over-1152", [(lambda g: lambda V: times(g(V), Fraction(1000, 1152)))(kbps(stream, sv46(f, v, 576), const(44100))), lambda V: V.le(0, 4) >> 23])})
      for v, f in ((4, L(6, 2)), (5, L(4, 4)), (6, L(4, 4)))],
    F("mpeg::properties::read_properties", {
        "MpegProperties.duration": [dur(lambda V: V.sym("VbrHeader.frames@") * V.sym("Header.samples@"), sym("Header.sample_rate@")), *[cbr(p, b) for p in POS for b in RATES], ZERO],
        "MpegProperties.overall_bitrate": [kbps(file, lambda V: V.sym("VbrHeader.frames@") * V.sym("Header.samples@"), sym("Header.sample_rate@")),
                                           *[over(cbr(p, b)) for p in POS for b in RATES], ZERO],
        "MpegProperties.audio_bitrate": [kbps(sym("VbrHeader.size@"), lambda V: V.sym("VbrHeader.frames@") * V.sym("Header.samples@"), sym("Header.sample_rate@")), sym("Header.bitrate@"), ZERO]},
      syms={"VbrHeader.frames@": lambda r: r.randrange(20, 1 << 20), "Header.samples@": lambda r: r.choice((384, 576, 1152)), "Header.sample_rate@": HZ, "VbrHeader.size@": KB,
            "Header.bitrate@": lambda r: r.randrange(8, 448), "MpegProperties.audio_bitrate@": lambda r: r.randrange(8, 448), "#last_frame_offset": KB, "$pos": KB, "$last_frame_offset": KB,
            "#first_frame.1": lambda r: r.randrange(0, 2000), "Header.len": lambda r: r.randrange(24, 3000)},
      named=("pos", "last_frame_offset")),
    F("aac::properties::read_properties", {
        "AACProperties.duration": [lambda V: (Fraction(V.sym("#stream_length") * 8, V.sym("ADTSHeader.bitrate@")), 1), ZERO], "AACProperties.audio_bitrate": [sym("ADTSHeader.bitrate@"), ZERO],
        "AACProperties.overall_bitrate": [sym("ADTSHeader.bitrate@"), ZERO]}, syms={"ADTSHeader.bitrate@": lambda r: r.randrange(8, 1000)}),
    F("aac::header::ADTSHeader::read", {
        "ADTSHeader.bitrate": lambda V: adts(V)}, cases=[(f"rate {i}", {(2, 2): i & 1, (2, 3): i >> 1 & 1, (2, 4): i >> 2 & 1, (2, 5): i >> 3}) for i in (3, 4, 8)],
      wrong={"ADTSHeader.bitrate": ("over-1024", [lambda V: times(adts(V), Fraction(1000, 1024))])}),
    F("mp4::properties::read_properties", {
        "Mp4Properties.duration": [*MD, ZERO],
        "Mp4Properties.audio_bitrate": [*[kbps(lambda V: V.sym("AtomInfo.len") - 8, B(d, n), B(t, 4)) for d, n in ((16, 4), (24, 8)) for t in (12, 20)],
                                        lambda V: (Fraction((V.sym("AtomInfo.len") - 8) * 8, V.sym("Mp4Properties.duration")), 1)],
        "Mp4Properties.overall_bitrate": lambda V: (Fraction(V.sym("#file_length") * 8, V.sym("Mp4Properties.duration")), 1)},
      syms={"AtomInfo.len": KB, "Mp4Properties.duration": lambda r: r.randrange(50, 1 << 24)}, within="mp4::properties::read_properties"),
]


def adts(V):
    n = (V.bits(3, 1, 0) << 11 | V.byte(0, 4) << 3 | V.bits(5, 7, 5))
    hz = (96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350)[V.bits(2, 5, 2)]
    return (Fraction(n * 8 * hz, 1024 * 1000), 2)


def run(prog, res, tier):
    d, u, runs, seen = sweep(prog, res, ENTRIES, "figures", "figure")
    res.coverage["decoders and cases run"] = len(runs)
    res.coverage["figures decided, over all cases"] = d
    res.floor("figures decided", len(seen), 25)
    res.coverage["figures undecided"] = u
