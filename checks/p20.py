"""P20: header fields are decoded from the bytes the formats give them."""
import itertools, os, re
from fractions import Fraction
from sa.common import *
from sa.prov import Prov, renamed, stores, canon, isx, node
from sa.terms import differ, known, Val

RULE = ("in every decoder of a stream header or of a tag's own header, each field is made of exactly the bytes and bits the format gives it, in its byte order, "
        "with the format's bias and table; which branch is taken is fixed by assumptions on selector bits")
EXPLANATION = ("Abstract interpretation of the compiler's MIR over bit provenance: reads yield symbolic bits tied to the position in the stream they come from, arithmetic on them "
               "yields terms; a term that is not the format's is reported with bit values on which the two differ.")


def at(off, vals):
    """assumption: the bytes at `off` are `vals`"""
    return {(off + i, b): v >> b & 1 for i, v in enumerate(vals) for b in range(8)}


def le(n, w):
    return list(n.to_bytes(w, "little"))


def be(n, w):
    return list(n.to_bytes(w, "big"))


class E:
    def __init__(self, fn, fields, cases=None, args=None, pos=True, enums=None, figures=None, within=None, syms=None, wrong=None, named=()):
        self.named = named
        self.fn, self.fields, self.args, self.pos, self.enums = fn, fields, args or {}, pos, enums or {}
        self.cases = cases or [("", {})]
        self.figures = figures or {}
        self.within = within
        self.syms = syms or {}
        self.wrong = wrong or {}      # what a recorded finding computes instead: field -> (its name, formulas)


L = lambda off, n, s=0: lambda V: V.le(off, n, s)
B = lambda off, n, s=0: lambda V: V.be(off, n, s)
bit = lambda byte, hi, lo=None, s=0: lambda V: V.bits(byte, hi, hi if lo is None else lo, s)
const = lambda c: lambda V: c


def signed(f, w):
    def g(V):
        x = f(V)
        return x - (1 << w) if x >> (w - 1) else x
    return g


def plus(f, k):
    return lambda V: f(V) + k


def tab(t, f):
    return lambda V: t[f(V)] if f(V) < len(t) else None


def synch(off):
    return lambda V: sum((V.byte(0, off + i) & 0x7F) << (7 * (3 - i)) for i in range(4))


AAC_RATES = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350]
WV_RATES = [6000, 8000, 9600, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 96000, 192000]
MPC_RATES = [44100, 48000, 37800, 32000]
total36 = lambda V: (V.bits(13, 3, 0) << 32) | V.be(14, 4)
rate20 = lambda V: V.be(10, 3) >> 4


def ape_new(extra):
    H = 48 + extra      # after "MAC ": the version and the rest of the descriptor

    return E("ape::properties::read_properties", {
        "ApeProperties.version": L(0, 2), "ApeProperties.bit_depth": L(H + 16, 2), "ApeProperties.channels": L(H + 18, 2), "ApeProperties.sample_rate": L(H + 20, 4)},
        cases=[(f"v{v}", {**at(0, le(v, 2)), **at(4, le(52 + extra, 4))}) for v in (3980, 3990)])


def ape_old(v, level, bpf):
    H = 2
    out = []
    for fl, depth in ((1, 8), (9, 8), (8, 24), (0, 16), (2, 16)):
        out.append(E("ape::properties::read_properties", {
            "ApeProperties.version": L(0, 2), "ApeProperties.bit_depth": const(depth), "ApeProperties.channels": L(H + 4, 2), "ApeProperties.sample_rate": L(H + 6, 4)},
            cases=[(f"v{v}/level{level}/flags{fl}", {**at(0, le(v, 2)), **at(H, le(level, 2)), **at(H + 2, le(fl, 2))})]))
    return out


def wavpack():
    F = 28      # flags
    fields = {"WVHeader.version": L(8, 2), "WVHeader.block_size": L(4, 4), "WVHeader.total_samples": L(12, 4), "WVHeader.samples": L(20, 4), "WVHeader.flags": L(24, 4)}
    return [E("wavpack::properties::parse_wv_header", fields)]


RATE = {1: ([32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448], [32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384],
            [32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320]),
        2: ([32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256], [8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160], [8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160])}


def mpeg_headers():
    """the 32 bits of an MPEG audio frame header, for every version, layer and bitrate index"""
    out = []
    word = {1: ("x", ("b", 32, tuple((0, 3 - i // 8, i % 8) for i in range(32))))}
    n = 0
    for vb, vn, div, ri in ((3, "V1", 1, 1), (2, "V2", 2, 2), (0, "V2_5", 4, 2)):
        for lb, ln in ((3, 1), (2, 2), (1, 3)):
            samples = 384 if ln == 1 else 576 if ln == 3 and vb != 3 else 1152
            for bi in range(1, 15):
                n += 1
                rate = RATE[ri][ln - 1][bi - 1]
                sri, pad, mode = n % 3, n % 2, n % 4
                hz = (44100, 48000, 32000)[sri] // div
                ln4 = 12 * rate * 1000 // hz * 4 if ln == 1 else samples // 8 * rate * 1000 // hz
                side = (17 if mode == 3 else 32) if vb == 3 else (9 if mode == 3 else 17)
                bits = {(1, 3): vb & 1, (1, 4): vb >> 1, (1, 1): lb & 1, (1, 2): lb >> 1, **{(2, 4 + k): bi >> k & 1 for k in range(4)},
                        (2, 2): sri & 1, (2, 3): sri >> 1, (2, 1): pad, (3, 6): mode & 1, (3, 7): mode >> 1}
                fields = {"Header.version": ("enum", vn), "Header.layer": ("enum", f"Layer{ln}"), "Header.bitrate": const(rate), "Header.sample_rate": const(hz), "Header.samples": const(samples),
                          "Header.len": const(ln4 + pad * (4 if ln == 1 else 1)), "Header.channel_mode": ("enum", ("Stereo", "JointStereo", "DualChannel", "SingleChannel")[mode])}
                if ln == 3:
                    fields["Header.data_start"] = const(side + 4)
                if bi == 1:
                    fields.update({"Header.copyright": bit(3, 3), "Header.original": bit(3, 2)})
                    if mode == 1:
                        fields["Header.mode_extension"] = bit(3, 5, 4)
                out.append(E("mpeg::header::Header::read", fields, cases=[(f"{vn}/{ln}/{rate}", bits)], args=dict(word)))
    for i, nm in ((1, "MS5015"), (2, "Reserved"), (3, "CCIT_J17")):
        out.append(E("mpeg::header::Header::read", {"Header.emphasis": ("enum", nm)}, cases=[(nm, {(3, 0): i & 1, (3, 1): i >> 1})], args=dict(word)))
    return out


ENTRIES = [
    E("flac::properties::read_properties", {
        "FlacProperties.sample_rate": rate20, "FlacProperties.channels": plus(bit(12, 3, 1), 1),
        "FlacProperties.bit_depth": lambda V: (V.bits(12, 0, 0) << 4 | V.bits(13, 7, 4)) + 1, "FlacProperties.signature": B(18, 16)}),
    ape_new(0), ape_new(8), *ape_old(3950, 2000, 0), *ape_old(3800, 4000, 0),
    E("ogg::opus::properties::read_properties", {
        "OpusProperties.version": L(8, 1, 1), "OpusProperties.channels": L(9, 1, 1), "OpusProperties.input_sample_rate": L(12, 4, 1), "OpusProperties.output_gain": signed(L(16, 2, 1), 16)}),
    E("ogg::vorbis::properties::read_properties", {
        "VorbisProperties.version": L(7, 4, 1), "VorbisProperties.channels": L(11, 1, 1), "VorbisProperties.sample_rate": L(12, 4, 1),
        "VorbisProperties.bitrate_maximum": signed(L(16, 4, 1), 32), "VorbisProperties.bitrate_nominal": signed(L(20, 4, 1), 32), "VorbisProperties.bitrate_minimum": signed(L(24, 4, 1), 32)}),
    E("ogg::speex::properties::read_properties", {
        "SpeexProperties.version": L(28, 4, 1), "SpeexProperties.sample_rate": L(36, 4, 1), "SpeexProperties.mode": L(40, 4, 1), "SpeexProperties.channels": L(48, 4, 1),
        "SpeexProperties.nominal_bitrate": signed(L(52, 4, 1), 32), "SpeexProperties.vbr": lambda V: int(V.le(60, 4, 1) == 1)}),
    E("iff::wav::properties::read_properties", {
        "WavProperties.channels": L(2, 2), "WavProperties.sample_rate": L(4, 4), "WavProperties.bit_depth": L(14, 2), "WavProperties.format": ("enum", "PCM")},
        cases=[("pcm", {**at(0, le(1, 2)), **at(14, [16, 0])})]),
    E("iff::wav::properties::read_properties", {"WavProperties.bit_depth": L(14, 2), "WavProperties.format": ("enum", "IEEE_FLOAT")}, cases=[("float", {**at(0, le(3, 2)), **at(14, [32, 0])})]),
    E("iff::wav::properties::read_properties", {
        "WavProperties.channels": L(2, 2), "WavProperties.sample_rate": L(4, 4), "WavProperties.bit_depth": L(18, 2), "WavProperties.format": ("enum", "PCM")},
        cases=[("extensible", {**at(0, le(0xFFFE, 2)), **at(18, [24, 0]), **at(24, [1, 0])})]),
    E("iff::wav::properties::read_fmt_chunk", {
        "FmtChunk.format_tag": [L(0, 2), L(24, 2)], "FmtChunk.channels": L(2, 2), "FmtChunk.sample_rate": L(4, 4), "FmtChunk.bytes_per_second": L(8, 4), "FmtChunk.block_align": L(12, 2),
        "FmtChunk.bits_per_sample": L(14, 2), "ExtensibleFmtChunk.valid_bits_per_sample": L(18, 2), "ExtensibleFmtChunk.channel_mask": L(20, 4)}),
    E("iff::aiff::properties::read_properties", {
        "AiffProperties.channels": B(0, 2), "AiffProperties.sample_size": B(6, 2), "F80.signed": bit(8, 7), "F80.exponent": lambda V: V.be(8, 2) & 0x7FFF, "F80.fraction": B(10, 8)}),
    E("aac::header::ADTSHeader::read", {
        "ADTSHeader.version": ("enum", "V4"), "ADTSHeader.sample_rate": tab(AAC_RATES, bit(2, 5, 2)), "ADTSHeader.channels": lambda V: V.bits(2, 0, 0) << 2 | V.bits(3, 7, 6),
        "ADTSHeader.original": bit(3, 5), "ADTSHeader.copyright": bit(3, 4), "ADTSHeader.len": lambda V: V.bits(3, 1, 0) << 11 | V.byte(0, 4) << 3 | V.bits(5, 7, 5), "ADTSHeader.has_crc": const(1)},
        cases=[("v4", {(1, 3): 0, (1, 0): 0})]),
    E("aac::header::ADTSHeader::read", {"ADTSHeader.version": ("enum", "V2"), "ADTSHeader.has_crc": const(0)}, cases=[("v2", {(1, 3): 1, (1, 0): 1})]),
    *[E("aac::header::ADTSHeader::read", {"ADTSHeader.audio_object_ty": ("enum", n)}, cases=[(n, {(2, 6): i & 1, (2, 7): i >> 1})])
      for i, n in enumerate(("AacMain", "AacLowComplexity", "AacScalableSampleRate", "AacLongTermPrediction"))],
    *wavpack(),
    E("musepack::sv8::properties::StreamHeader::read", {
        "StreamHeader.crc": B(0, 4), "StreamHeader.stream_version": B(4, 1), "StreamHeader.sample_rate": tab(MPC_RATES, bit(0, 7, 5, 1)), "StreamHeader.max_used_bands": plus(bit(0, 4, 0, 1), 1),
        "StreamHeader.channels": plus(bit(1, 7, 4, 1), 1), "StreamHeader.ms_used": bit(1, 3, 3, 1), "StreamHeader.audio_block_frames": lambda V: 4 ** V.bits(1, 2, 0, 1)}),
    E("musepack::sv8::properties::ReplayGain::read", {
        "ReplayGain.version": B(0, 1), "ReplayGain.title_gain": B(1, 2), "ReplayGain.title_peak": B(3, 2), "ReplayGain.album_gain": B(5, 2), "ReplayGain.album_peak": B(7, 2)}),
    E("musepack::sv8::properties::EncoderInfo::read", {
        "EncoderInfo.pns_tool": bit(0, 0), "EncoderInfo.major": B(1, 1), "EncoderInfo.minor": B(2, 1), "EncoderInfo.build": B(3, 1), "EncoderInfo.profile": lambda V: Fraction(V.bits(0, 7, 1), 8)}),
    E("musepack::sv7::properties::MpcSv7Properties::read", {
        "MpcSv7Properties.frame_count": L(1, 4), "MpcSv7Properties.intensity_stereo": bit(8, 7), "MpcSv7Properties.mid_side_stereo": bit(8, 6), "MpcSv7Properties.max_band": bit(8, 5, 0),
        "MpcSv7Properties.sample_freq": tab(MPC_RATES, bit(7, 1, 0)), "MpcSv7Properties.max_level": L(5, 2), "MpcSv7Properties.true_gapless": bit(20, 7), "MpcSv7Properties.channels": const(2),
        "MpcSv7Properties.last_frame_length": [lambda V: V.bits(20, 6, 0) << 4 | V.bits(19, 7, 4), const(0)], "MpcSv7Properties.fast_seeking_safe": bit(19, 3), "MpcSv7Properties.encoder_version": B(24, 1)},
      wrong={"MpcSv7Properties.encoder_version": ("low-byte", [B(21, 1)])}),
    *[E("musepack::sv7::properties::MpcSv7Properties::read", {"MpcSv7Properties.link": ("enum", n)}, cases=[(n, {(7, 2): i & 1, (7, 3): i >> 1})])
      for i, n in enumerate(("VeryLowStartOrEnd", "LoudEnd", "LoudStart", "LoudStartAndEnd"))],
    E("musepack::sv4to6::properties::MpcSv4to6Properties::read", {
        "MpcSv4to6Properties.stream_version": lambda V: V.le(0, 4) >> 11 & 0x3FF, "MpcSv4to6Properties.max_band": lambda V: V.le(0, 4) >> 6 & 0x1F,
        "MpcSv4to6Properties.mid_side_stereo": lambda V: V.le(0, 4) >> 21 & 1, "MpcSv4to6Properties.channels": const(2), "MpcSv4to6Properties.sample_rate": const(44100)}),
    *[E("musepack::sv4to6::properties::MpcSv4to6Properties::read", {"MpcSv4to6Properties.frame_count": [f, (lambda f: lambda V: max(f(V) - 1, 0))(f)] if v < 6 else f},
        cases=[(f"sv{v}", {(1, 3): v & 1, (1, 4): v >> 1 & 1, (1, 5): v >> 2, (1, 6): 0, (1, 7): 0, (2, 0): 0, (2, 1): 0, (2, 2): 0, (2, 3): 0, (2, 4): 0})])
      for v, f in ((4, L(6, 2)), (5, L(4, 4)), (6, L(4, 4)))],
    E("mpeg::header::VbrHeader::read", {"VbrHeader.frames": B(8, 4), "VbrHeader.size": B(12, 4), "VbrHeader.ty": [("enum", "Xing")]}, cases=[("Xing", at(0, b"Xing"))]),
    E("mpeg::header::VbrHeader::read", {"VbrHeader.frames": B(8, 4), "VbrHeader.size": B(12, 4), "VbrHeader.ty": [("enum", "Info")]}, cases=[("Info", at(0, b"Info"))]),
    E("mpeg::header::VbrHeader::read", {"VbrHeader.frames": B(14, 4), "VbrHeader.size": B(10, 4), "VbrHeader.ty": ("enum", "Vbri")}, cases=[("VBRI", at(0, b"VBRI"))]),
    E("mp4::properties::Mdhd::parse", {"Mdhd.timescale": B(12, 4), "Mdhd.duration": B(16, 4)}, cases=[("v0", at(0, [0]))]),
    E("mp4::properties::Mdhd::parse", {"Mdhd.timescale": B(20, 4), "Mdhd.duration": B(24, 8)}, cases=[("v1", at(0, [1]))]),
    E("mp4::properties::alac_properties", {"Mp4Properties.bit_depth": B(9, 1, 1), "Mp4Properties.channels": B(13, 1, 1), "Mp4Properties.sample_rate": B(24, 4, 1)}),
    E("ogg_pager::header::PageHeader::read", {
        "PageHeader.header_type_flag": L(5, 1), "PageHeader.abgp": L(6, 8), "PageHeader.stream_serial": L(14, 4), "PageHeader.sequence_number": L(18, 4), "PageHeader.checksum": L(22, 4)}),
    *mpeg_headers(),
    E("id3::v2::frame::header::parse::parse_v2_header", {"parse_v2_header.*2": B(3, 3)}),
    E("id3::v2::frame::header::parse::parse_header", {"parse_header.*2": [synch(4), B(4, 4)]}, args={3: 1}),
    E("id3::v2::frame::header::parse::parse_header", {"parse_header.*2": B(4, 4)}, args={3: 0}),
    E("mp4::properties::flac_properties", {
        "Mp4Properties.bit_depth": lambda V: (V.bits(12, 0, 0, 1) << 4 | V.bits(13, 7, 4, 1)) + 1, "Mp4Properties.channels": plus(bit(12, 3, 1, 1), 1), "Mp4Properties.sample_rate": lambda V: V.be(10, 3, 1) >> 4}),
    E("mp4::properties::mp4a_properties", {
        "Mp4Properties.channels": [lambda V: V.bits(1, 6, 3, 1), const(8), lambda V: V.bits(1, 0, 0, 1) << 3 | V.bits(2, 7, 5, 1), lambda V: V.bits(4, 6, 3, 1),
                                   lambda V: V.bits(4, 0, 0, 1) << 3 | V.bits(5, 7, 5, 1), plus(B(13, 1, 1), 1)],
        "Mp4Properties.extended_audio_object_type": [bit(0, 7, 3, 1), lambda V: 32 + (V.bits(0, 2, 0, 1) << 3 | V.bits(1, 7, 5, 1))],
        "Mp4Properties.sample_rate": [tab(AAC_RATES, lambda V: V.bits(0, 2, 0, 1) << 1 | V.bits(1, 7, 7, 1)), tab(AAC_RATES, bit(1, 4, 1, 1)), lambda V: (V.be(1, 4, 1) >> 7) & 0xFFFFFF,
                                      lambda V: (V.be(1, 4, 1) >> 1) & 0xFFFFFF, B(4, 4, 1)],
        "Mp4Properties.audio_bitrate": lambda V: V.be(9, 4, 1) // 1000}),
    E("mp4::properties::read_stsd::read_inner", {"Mp4Properties.channels": [L(17, 1, 1), L(43, 1, 1)], "Mp4Properties.sample_rate": B(24, 2, 1)}, within="mp4::properties::read_stsd::read_inner"),
    *[E("mp4::atom_info::AtomInfo::read_inner", {"AtomInfo.len": f, "AtomInfo.extended": const(x)}, cases=[(n, b)])
      for n, x, f, b in (("32-bit size", 0, B(0, 4), {(3, 1): 1, (3, 7): 0}), ("64-bit size", 1, B(8, 8), at(0, [0, 0, 0, 1])))],
    *[E("iff::aiff::properties::read_properties", {"AiffProperties.compression_type": ("enum", c.strip())}, cases=[(c, at(18, c.encode()))], args={})
      for c in ("ACE2", "ACE8", "MAC3", "MAC6", "sowt", "fl32", "fl64", "alaw", "ulaw", "ULAW", "ALAW", "FL32")],
    E("iff::aiff::properties::read_properties", {"AiffProperties.compression_type": ("enum", "None")}, cases=[("NONE", at(18, b"NONE"))]),
    E("iff::chunk::Chunks::<R, B>::next", {"Chunk.size": [L(4, 4), B(4, 4)]}),
    E("picture::Picture::from_flac_bytes_inner", {
        "PictureInformation.width": B(0, 4, 1), "PictureInformation.height": B(4, 4, 1), "PictureInformation.color_depth": B(8, 4, 1), "PictureInformation.num_colors": B(12, 4, 1)}),
    E("ape::tag::read::read_ape_tag", {"read_ape_tag.ret.0.1.0.0": [L(12, 4), plus(L(12, 4), 32)], "read_ape_tag.ret.0.1.0.1": L(16, 4)}),
    E("wavpack::properties::read_properties", {
        "WavPackProperties.version": L(8, 2), "WavPackProperties.bit_depth": lambda V: ((V.bits(24, 1, 0) + 1) * 8) - (V.le(24, 4) >> 13 & 0x1F) if (V.bits(24, 1, 0) + 1) * 8 >= (V.le(24, 4) >> 13 & 0x1F) else None,
        "WavPackProperties.lossless": lambda V: 1 - V.bits(24, 3, 3), "WavPackProperties.channels": [const(1), const(2)], "WavPackProperties.sample_rate": tab(WV_RATES + [0], lambda V: V.le(24, 4) >> 23 & 15)},
        within="wavpack::properties::read_properties"),
    E("wavpack::properties::get_extended_meta_info", {
        "WavPackProperties.channels": [B(0, 1, 1), lambda V: V.byte(1, 0) | V.bits(2, 3, 0, 1) << 8, lambda V: (V.byte(1, 0) | V.bits(2, 3, 0, 1) << 8) + 1],
        "WavPackProperties.channel_mask": [L(1, k, 1) for k in (1, 2, 3, 4)] + [L(3, k, 1) for k in (3, 4)]}),
    E("id3::v2::items::chapter_frame::ChapterFrame::<'static>::parse", {
        "ChapterFrame.times.0": B(0, 4, 1), "ChapterFrame.times.1": B(4, 4, 1), "ChapterFrame.offsets.0": B(8, 4, 1), "ChapterFrame.offsets.1": B(12, 4, 1)}, within="id3::v2::items::chapter_frame::ChapterFrame::<'static>::parse"),
    E("id3::v2::items::table_of_contents_frame::ChapterTableOfContentsFrame::<'static>::parse", {
        "ChapterTableOfContentsFrame.flags.0": bit(0, 1, 1, 1), "ChapterTableOfContentsFrame.flags.1": bit(0, 0, 0, 1)},
        within="id3::v2::items::table_of_contents_frame::ChapterTableOfContentsFrame::<'static>::parse"),
    E("id3::v2::items::event_timing_codes_frame::EventTimingCodesFrame::<'a>::parse", {"Event.timestamp": [B(2, 4), B(0, 4, 1)]}),
    E("id3::v2::items::language_frame::LanguageFrame::parse", {"LanguageFrame.language": ("from", 1), "LanguageFrame.encoding": bit(0, 7, 0)}),
    E("id3::v2::items::audio_text_frame::AudioTextFrame::<'_>::parse", {"AudioTextFrame.encoding": bit(0, 7, 0), "AudioTextFrameFlags.scrambling": bit(0, 0, 0, 1)}),
    E("id3::v2::items::popularimeter::PopularimeterFrame::<'a>::parse", {"PopularimeterFrame.rating": L(0, 1, 1)}),
    E("flac::block::Block::read", {"Block.last": bit(0, 7), "Block.ty": bit(0, 6, 0)}),
    E("id3::v2::header::Id3v2Header::parse", {"Id3v2Header.size": synch(6)}),
]


def payload(v):
    """inside of Some / Ok / a newtype"""
    n = 0
    while isinstance(v, tuple) and v[0] == "s" and n < 4:
        h = v[1]
        inner = [(p, x) for p, x in v[2]]
        if h is not None and h[0] == "e" and h[1] in ("core::option::Option", "core::result::Result"):
            inner = [(p[2:], x) for p, x in inner if len(p) >= 2 and p[0][0] == "v" and p[1] == ("f", 0)]
        elif h is None and len(inner) == 1 and inner[0][0] == (("f", 0),):
            inner = [((), inner[0][1])]
        else:
            return v
        if len(inner) != 1 or inner[0][0] != ():
            return None
        v = inner[0][1]
        n += 1
    return v


def flat(v):
    """parts of a returned value: (path, value); variants are skipped in the path"""
    if isinstance(v, tuple) and v[0] == "s":
        for p, x in v[2]:
            if any(e[0] == "v" and e[2] == "Err" for e in p):
                continue
            yield "".join(f".{e[1]}" for e in p if e[0] == "f"), x
        if v[1] is not None:
            yield "", v[1]
    else:
        yield "", v


ALIAS = {"stream_len": "stream_length", "file_len": "file_length"}


def args_of(sp, fn, given):
    out = []
    for k in range(fn.argc):
        if k + 1 in given:
            g = given[k + 1]
            if isx(g) and g[1][0] == "b":
                from sa.prov import mk, val
                g = val(mk([sp.bits_in.get(b[1:], b) if b not in (0, 1) else b for b in g[1][2]]))
            out.append(g)
        else:
            out.append(("x", ("f", f"#{ALIAS.get(fn.locals[k + 1][1], fn.locals[k + 1][1]) or k + 1}")) if sp.int_ty(fn, fn.locals[k + 1][0]) else None)
    return tuple(out)


def width(prog, sp, adt, field):
    """(largest value, is it an integer) of a field's type"""
    a = prog.adts.get(adt)
    for f in a["vs"][0]["f"] if a else ():
        if f[0] == field:
            t = a["crate"].tys[f[1]]
            if t.get("n") == "core::option::Option":
                t = a["crate"].tys[t["a"][0]]
            b = t.get("bits")
            if b:
                return (1 << b) - 1
    return None


def spread(n, lim=24):
    """a term without alternatives inside, for every choice of them"""
    if n[0] == "alt":
        return [y for x in sorted(n[1], key=repr) for y in spread(x, lim)][:lim]
    if n[0] == "op":
        return [n[:2] + xs for xs in itertools.islice(itertools.product(*[spread(x, lim) for x in n[2:]]), lim)]
    if n[0] == "idx":
        return [("idx", n[1], x) for x in spread(n[2], lim)]
    if n[0] == "not":
        return [("not", x) for x in spread(n[1], lim)]
    return [n]


def alternatives(v):
    n = node(v)
    return None if n is None else spread(n)


def names(n):
    """named quantities of a term"""
    if n[0] == "f":
        return {n[1]}
    if n[0] == "op":
        return set().union(*[names(x) for x in n[2:]], set())
    if n[0] == "idx":
        return names(n[2])
    if n[0] == "not":
        return names(n[1])
    return set()


def judge(prog, v, refs, limit, forced, syms, hit=None):
    """-> None | "undecided" | text"""
    v = payload(v)
    refs = refs if isinstance(refs, list) else [refs]
    if v is None:
        return "undecided"
    if isinstance(refs[0], tuple) and refs[0][0] == "enum":
        want = {r[1] for r in refs}
        alts = alternatives(v)
        if alts is None or any(x[0] != "e" for x in alts):
            if isinstance(v, tuple) and v[0] == "s" and v[1] and v[1][0] == "e":
                alts = [v[1]]
            else:
                return "undecided"
        got = {prog.adts[x[1]]["vs"][x[2]]["n"] for x in alts if x[1] in prog.adts}
        if not got:
            return "undecided"
        return None if got <= want else f"is {' or '.join(sorted(got))}, not {' or '.join(sorted(want))}"
    if isinstance(refs[0], tuple) and refs[0][0] == "from":
        if not (isinstance(v, tuple) and v[0] == "buf"):
            return "undecided"
        return None if any(v[2] == r[1] for r in refs) else f"starts at byte {v[2]} where the format has it at {refs[0][1]}"
    alts = alternatives(v)
    if alts is None:
        return "undecided"
    und = False
    for x in alts:
        if x[0] == "f" and renamed(x)[1] not in syms:
            continue
        x = renamed(x)
        if not known(x) or names(x) - set(syms):
            und = True
            continue
        rs = []
        for r in refs:
            rs.append(differ(x, r, limit, forced, syms))
            if rs[-1] is None:
                break
        if None in rs:
            if rs[0] is None and hit is not None:
                hit.append(1)
            continue
        if "undefined" in rs and not any(isinstance(r, tuple) for r in rs):
            continue        # a division by zero whatever the input
        if "undecided" in rs:
            und = True
            continue
        V, got, want = next(r for r in rs if isinstance(r, tuple))
        want = want[0] if isinstance(want, tuple) else want
        return f"is {canon(x)[:160]}, which is {float(got) if not isinstance(got, int) else got} where the format says {float(want) if not isinstance(want, int) else want}"
    return "undecided" if und else None


def sweep(prog, res, entries, which, tag):
    """judge the stores of every entry's runs against its reference formulas"""
    decided = undecided = 0
    runs = {}
    seen = set()
    for en in entries:
        fields = getattr(en, which)
        if not fields:
            continue
        fn = prog.fns.get(en.fn)
        if fn is None:
            continue        # renamed or inlined: the floor notices when too much is gone
        for name, forced in en.cases:
            sp = Prov(prog, bits=forced, named=en.named, **({"enums": en.enums} if en.enums else {}))
            ret = sp.run(fn, args_of(sp, fn, en.args) + (("#pos", (0, 0)),))[1]
            st = stores(prog, sp)
            out = ret[1] if isinstance(ret, tuple) and ret[0] == "s" else ret
            if isinstance(out, tuple) and out[0] == "e" and out[1:] in (("core::result::Result", 1), ("core::option::Option", 0)):
                res.add(f"{tag}:refused:{fn.name}", f"{en.fn}: a well-formed header{' (' + name + ')' if name else ''} is never decoded: every path ends without a result", fn.loc())
            for path, v in flat(ret):
                st[(en.fn, "ret" + path)] = [(en.fn, v, fn.loc(), "set")]
            t, pre = fn.local_ty(0), ""
            while t.get("n") in ("core::option::Option", "core::result::Result") and t.get("a"):
                t, pre = fn.ty(t["a"][0]), pre + ".0"
            a = prog.adts.get(t.get("n"))
            if a and not a["enum"]:        # what the decoder returns counts, not what it stores on the way
                got = {p[0] for p in flat(ret)}
                for i, f in enumerate(a["vs"][0]["f"]):
                    q = f"{pre}.{i}"
                    if a["crate"].tys[f[1]].get("n") == "core::option::Option" and q + ".0" in got:
                        q += ".0"
                    if q in got:
                        st[(t["n"], f[0])] = [x for x in st.get((t["n"], f[0]), []) if x[0] != en.fn] + st[(en.fn, "ret" + q)]
            byname = {}
            for (adt, f), xs in st.items():
                key = f"{adt.split('::')[-1]}.{f}"
                byname.setdefault(key, []).extend((adt, f) + x for x in xs)
                for x in xs:
                    if isinstance(x[1], tuple) and x[1][0] == "s":
                        for path, y in flat(x[1]):
                            if path and key + path in fields:
                                byname.setdefault(key + path, []).append((adt, f + path, x[0], y) + x[2:])
            for field, refs in fields.items():
                xs = byname.get(field, [])
                if en.within:
                    xs = [x for x in xs if x[2] == en.within]
                vs = {}
                later = {x[2] for x in xs if x[5] == "set"}
                for adt, f, fid, v, loc, how in xs:
                    if how == "new" and fid in later and (v in (0, None) or isinstance(v, tuple) and v[0] == "e"):
                        continue        # a placeholder that the function fills in
                    vs.setdefault(v, (adt, f, fid, loc))
                ok, und, bad, hit = False, False, False, []
                for v, (adt, f, fid, loc) in vs.items():
                    if isx(v) and v[1][0] == "f" and renamed(v[1])[1] not in en.syms:
                        continue
                    j = judge(prog, v, refs, width(prog, sp, adt, f), forced, en.syms, hit)
                    if os.environ.get("P20_DEBUG"):
                        print(en.fn, name, field, j)
                    if j is None:
                        ok = True
                    elif j != "undecided":
                        w = en.wrong.get(field)
                        w = ":" + w[0] if w and judge(prog, v, w[1], width(prog, sp, adt, f), forced, en.syms) is None else ""
                        res.add(f"{tag}:{field}:{fn.name}{w}", f"{en.fn}{' (' + name + ')' if name else ''}: {field} {j}", loc)
                        ok = bad = True
                    else:
                        und = True
                if tag == "figure" and ok and not und and not bad and not hit:
                    res.add(f"{tag}:{field}:{fn.name}", f"{en.fn}{' (' + name + ')' if name else ''}: {field} never follows from the header's figures", fn.loc())
                decided += ok
                if ok:
                    seen.add((en.fn, field))
                undecided += not ok
                if not ok and os.environ.get("P20_DEBUG"):
                    print("UNDECIDED", en.fn, name, field, [str(v)[:150] for v in vs])
            runs[(en.fn, name)] = len(sp.final)
    return decided, undecided, runs, seen


def run(prog, res, tier):
    d, u, runs, seen = sweep(prog, res, ENTRIES, "fields", "field")
    res.coverage["decoders and cases run"] = len(runs)
    res.coverage["fields decided, over all cases"] = d
    res.floor("fields decided", len(seen), 100)
    res.coverage["fields undecided"] = u
