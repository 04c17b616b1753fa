"""The properties: one table from which mkmanifest.py writes properties.jsonl and MANIFEST.json."""

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, level_note=None, na=None, observe=None, design=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level_note=level_note, na=na, observe=observe, design=design))


TRUST = " Trusted: rustc's type-checked MIR for the all-features build, the fact extractor in driver/, and the analysis code."

prop("P05", "A failed write, resize or seek makes the save fail",
     "Whenever writing to, resizing or repositioning the file fails at any point while a tag is saved or removed, the call "
     "reports an error; it never reports success for a save whose bytes did not all reach the file. A write that may store "
     "fewer bytes than it was given is never taken for a complete one.",
     ["fault_sequences", "inputs"], "every failing file operation at every step of every save or remove, for every file and tag",
     "The tests never inject I/O failures: they save to memory and to healthy temporary files only.",
     ["lofty/src/tag/tag_ext.rs", "lofty/src/tag/utils.rs", "lofty/src/util/io.rs", "lofty/src/id3/v2/write/mod.rs",
      "lofty/src/id3/v1/write.rs", "lofty/src/ape/tag/write.rs", "lofty/src/mp4/ilst/write.rs", "lofty/src/flac/write.rs",
      "lofty/src/ogg/tag/write.rs", "lofty/src/iff/wav/tag/write.rs", "lofty/src/iff/aiff/tag.rs", "ogg_pager/src/packets.rs"],
     [{"name": "error propagation with `?` from every file operation", "where": "all save_to/remove_from paths"}],
     "interprocedural effect analysis + error-path dataflow over MIR",
     "Every call on the save and remove paths that can write, truncate or seek the file is found through the call graph, and its "
     "error is followed along every control-flow path to the function's return." + TRUST)

prop("P06", "A refused save leaves the file untouched",
     "When saving or removing a single tag is refused, because the tag cannot be encoded, the format does not take it or the "
     "existing file is malformed, the file still has the bytes it had before the call. Once the first byte of the file has been "
     "changed, only a failure of the file's own reads, writes, seeks or resizes can still make the call report an error.",
     ["inputs", "histories"], "every tag, every file and every reason a save can be refused",
     "The tests assert that a few saves fail; none compares the file before and after, and each reason for refusal is a path of its own.",
     ["lofty/src/id3/v2/write/mod.rs", "lofty/src/id3/v2/write/chunk_file.rs", "lofty/src/id3/v1/write.rs", "lofty/src/ape/tag/write.rs",
      "lofty/src/mp4/ilst/write.rs", "lofty/src/flac/write.rs", "lofty/src/ogg/tag/write.rs", "lofty/src/iff/wav/tag/write.rs",
      "lofty/src/iff/aiff/tag/mod.rs", "lofty/src/tag/tag_ext.rs"],
     [{"name": "encode first, then truncate and write", "where": "every format's writer"}],
     "interprocedural effect ordering (mutation before rejection) over MIR",
     "Which parameters of a function are the file, which calls change it and which sites can refuse the request are propagated through "
     "the call graph; a refusal reachable from the successful return of a change is reported. Buffers in memory are told apart by type. "
     "Saving a whole file (AudioFile::save_to) writes its tags one after the other and is not one request; reads "
     "from memory inside callees are not taken for refusals." + TRUST)

prop("P07", "A more lenient parsing mode never rejects what a stricter one accepts",
     "A file that can be read in a stricter parsing mode can also be read in every more lenient mode: leniency only turns "
     "errors into tolerated conditions. No error is raised in a lenient mode at a point where the stricter mode would have carried on.",
     ["inputs", "configurations"], "every input file and every pair of parsing modes",
     "The tests exercise chosen malformed files in one or two modes; the relation is over all files and all pairs of modes.",
     ["lofty/src/config/parse_options.rs", "lofty/src/id3/v2/frame/read.rs", "lofty/src/mpeg/read.rs", "lofty/src/mp4/ilst/read.rs",
      "lofty/src/mp4/atom_info.rs", "lofty/src/ogg/tag/read.rs", "lofty/src/flac/read.rs", "lofty/src/util/text.rs"],
     [{"name": "branches on the parsing mode", "where": "throughout the readers"}],
     "conditional constant propagation per mode, CFG comparison",
     "Every function is specialised to each mode by conditional constant propagation and the live control-flow graphs are compared "
     "at every mode-dependent branch. Differences in values computed per mode (as opposed to branches) are not compared." + TRUST)

prop("P08", "What the parsing options exclude is not read",
     "With reading of tags, of audio properties or of cover art switched off in the parsing options, no reader of any format "
     "produces tag content, properties or pictures respectively.",
     ["inputs", "configurations"], "every input file of every format and every setting of the three options",
     "The tests read a few files with one option off at a time and look at one item.",
     ["lofty/src/config/parse_options.rs", "lofty/src/file/audio_file.rs", "lofty/src/flac/read.rs", "lofty/src/ape/read.rs",
      "lofty/src/ape/tag/read.rs", "lofty/src/id3/v2/frame/content.rs", "lofty/src/mp4/ilst/read.rs", "lofty/src/ogg/tag/read.rs"],
     [{"name": "tests of read_tags, read_properties and read_cover_art", "where": "every format's reader"}],
     "interprocedural conditional constant propagation with the option fixed; reachability of tag, properties and picture construction",
     "What remains live with the option off is computed per calling context with structured values; every construction or change of "
     "a tag, properties or picture value there is reported. Cover art in ID3v2 and APE is decided by dominance of a test of the picture key; "
     "whether that test compares correctly for every spelling is not decided." + TRUST)

prop("P09", "Native tag keys and generic keys translate into each other as the standards say",
     "For every tag format, the native key a generic item key is written under is legal in that format, is the one its standard or common practice fixes, and "
     "is read back as that item key (or as its documented partner where the format has one native key for both). No two native keys of a format that differ only "
     "in case mean different things. Every identifier of ID3v2.2 and ID3v2.3 is upgraded to the ID3v2.4 frame with the same meaning.",
     ["inputs"], "all item keys of all tag formats, all native keys and old frame identifiers",
     "The tests name a handful of the about 340 keys; a swapped or misspelt one loses data silently, and case variants depend on hash order.",
     ["lofty/src/tag/item.rs", "lofty/src/id3/v2/util/upgrade.rs"],
     [{"name": "forward match and inverse LazyLock map per format", "where": "gen_map! in lofty/src/tag/item.rs"},
      {"name": "V2_KEYS, V3_KEYS", "where": "lofty/src/id3/v2/util/upgrade.rs"}],
     "table extraction from MIR by conditional constant propagation over all enum values; comparison of both directions and with a reviewed table",
     "The reviewed table (oracle/keys.json) was transcribed from this tree and checked against the ID3v2, APEv2, RIFF, AIFF, Vorbis and MP4 conventions and MusicBrainz Picard's mapping by hand; "
     "that the map lookup itself ignores case is part of the library it calls." + TRUST)

prop("P14", "Saving a generic Tag equals converting it to the format's tag and saving that",
     "For each tag format, the parts of a Tag (items, pictures, looked-up keys) and the kinds of item value (text, locator, binary) stored when it is converted "
     "to the format's own tag type are those stored when the Tag itself is saved to any file type it can be written to. Item keys needing special treatment "
     "(flags, number pairs, ratings) get it both ways. A native value is split into number and total only where both are written under that native key. "
     "MP4 values that are not text (number pairs, flags, the advisory rating) are translated from the item's text, and the fixed ID3v1 fields and MP4 numbers "
     "and rating become items when their tag is converted to a Tag.",
     ["inputs"], "all tag formats, writable file types, item keys and kinds of value",
     "The two conversions are separate code for most formats; tests save a few text items one way, so a key or kind handled on one side only goes unseen.",
     ["lofty/src/tag/utils.rs", "lofty/src/ape/tag/mod.rs", "lofty/src/ogg/tag.rs", "lofty/src/iff/wav/tag/mod.rs", "lofty/src/iff/aiff/tag.rs",
      "lofty/src/id3/v1/tag.rs", "lofty/src/id3/v2/tag/conversion.rs", "lofty/src/mp4/ilst/mod.rs"],
     [{"name": "From<Tag>/MergeTag for the format's tag", "where": "ApeTag, VorbisComments, RiffInfoList, AiffTextChunks, Id3v1Tag, Id3v2Tag, Ilst"},
      {"name": "by-reference conversions", "where": "dump_tag, write_tag, tagitems_into_ape, create_vorbis_comments_ref, tagitems_into_riff, from_tag"}],
     "conditional constant propagation over MIR per item key, value kind and file type; comparison of the specialisations of the two conversions",
     "Which items are stored and whether they take the special branch is decided; that both branches compute the same bytes is not. The lookups of Id3v1 and AIFF "
     "are compared as sets of keys." + TRUST)

prop("P19", "ID3v2 identifiers mean one kind of frame to parser, converter and writer",
     "A frame read from an ID3v2 tag is one the writer accepts under the same identifier, so a tag that was read can be saved. Every item key with an ID3v2 "
     "identifier is converted to the kind of frame that identifier is parsed into, or to a TXXX frame if the identifier is not a standard one; none is "
     "dropped for lack of a case. Saved as ID3v2.3, the frames that version does not have become the ones it has instead: TDRC becomes TYER, TDAT and TIME, "
     "TDOR becomes TORY, TIPL and TMCL become IPLS.",
     ["inputs"], "every frame identifier the code or the standards name, every item key",
     "One frame kind missing from one of three tables makes saving fail, or drops an item, for that identifier only; no test reads and saves every frame.",
     ["lofty/src/id3/v2/frame/content.rs", "lofty/src/id3/v2/write/frame.rs", "lofty/src/id3/v2/tag/conversion.rs", "lofty/src/tag/item.rs"],
     [{"name": "match on the identifier", "where": "parse_content, verify_frame"},
      {"name": "match on the item key and the collections it fills", "where": "from_tag, item_to_frame"}],
     "conditional constant propagation following constant strings, per frame identifier and item key; taint of the conversion's collections to the frames built from them",
     "Values an item may have (a rating that does not parse, a value of the wrong kind) can still be refused; the property is about keys and kinds." + TRUST)

prop("P10", "Accessor getters, setters and removers of a field act on the same data",
     "For every tag type and every field of Accessor, the setter stores its value under the key (or in the field) the getter looks at first, as a kind of value the "
     "getter reads, and narrows no number. The setter and the remover deal with every key or field the getter falls back on; setting one "
     "number of a track or disk pair, or removing the total, keeps the other. len(), is_empty() and clear() agree on what a tag holds.",
     ["inputs", "histories"], "all tag types, accessor fields, and values",
     "The tests set and get a few fields on otherwise empty tags; leftovers under alternative keys, pairs and large numbers are not sampled.",
     ["lofty/src/tag/accessor.rs", "lofty/src/tag/mod.rs", "lofty/src/ape/tag/mod.rs", "lofty/src/ogg/tag.rs", "lofty/src/id3/v1/tag.rs", "lofty/src/id3/v2/tag.rs",
      "lofty/src/mp4/ilst/mod.rs", "lofty/src/iff/wav/tag/mod.rs", "lofty/src/iff/aiff/tag/mod.rs"],
     [{"name": "impl Accessor", "where": "Tag, ApeTag, VorbisComments, Id3v1Tag, Id3v2Tag, Ilst, RiffInfoList, AiffTextChunks"},
      {"name": "TagExt::len, is_empty, clear", "where": "the same types"}],
     "forward flow of key constants and of the value parameter through each accessor's MIR to the fields and methods of the tag; conditional constant propagation for the value kinds",
     "That a removal or replacement helper of the tag (retain, remove, insert) does what its name says is not decided here." + TRUST)

prop("P11", "The tag support table tells what reading, saving and removing do",
     "For every file type and tag type, tag_support() gives the documented answer; the file type's reader can fill exactly the readable tags and hands them all over, "
     "with its own file type, to the generic TaggedFile; saving a writable tag reaches the writer for that tag type. A non-empty tag that is not writable for the "
     "file is refused, TaggedFile skips it when saving, and holds and removes exactly the readable types. Primary tag types and extensions are the documented ones.",
     ["inputs"], "all 12 file types x 7 tag types, all extensions",
     "Tests try some of the 84 pairs; the table, the readers' fields, and five dispatchers are separate code, partly generated.",
     ["lofty/src/file/file_type.rs", "lofty/src/tag/tag_ext.rs", "lofty/src/tag/tag_type.rs", "lofty/src/tag/utils.rs", "lofty/src/file/tagged_file.rs",
      "lofty/src/probe.rs", "lofty_attr/src/lofty_file.rs", "lofty_attr/src/lofty_tag.rs", "lofty_attr/src/internal.rs"],
     [{"name": "tag_support, primary_tag_type, from_ext, EXTENSIONS", "where": "lofty/src/file/file_type.rs"},
      {"name": "TagExt::save_to, TagType::remove_from, TaggedFile::save_to, insert_tag", "where": "gates"},
      {"name": "write_tag, Probe::read_inner, derived AudioFile and From<XFile>", "where": "dispatch"}],
     "conditional constant propagation specialising every dispatcher to each pair and each answer; reachability of readers and writers in the specialised call graph",
     "That the reached reader or writer does its work is the business of other properties; detection by content is not compared with a table." + TRUST)

prop("P15", "Written sizes and counts are those of what follows",
     "In every tag a writer produces, each size field is the length of what it announces, each count the number of records that follow, in the width and byte order of the format, "
     "and chunks of odd size are padded to an even one. Frame flags announce exactly the extra bytes that are written, and every record has the layout of its format.",
     ["inputs", "configurations"], "every tag content and every write options",
     "The tests write tags of a few small, mostly ASCII items of even and odd size; a size that is wrong for other contents makes readers lose what follows.",
     ["lofty/src/id3/v1/write.rs", "lofty/src/id3/v2/write/mod.rs", "lofty/src/id3/v2/write/frame.rs", "lofty/src/ape/tag/write.rs", "lofty/src/ogg/tag/write.rs", "lofty/src/flac/block.rs",
      "lofty/src/picture/mod.rs", "lofty/src/iff/wav/tag/write.rs", "lofty/src/iff/aiff/tag/mod.rs", "lofty/src/id3/v2/write/chunk_file.rs", "lofty/src/mp4/ilst/write.rs"],
     [{"name": "encoders of tags, items, frames, chunks, blocks and atoms", "where": "every format's write module"}],
     "abstract interpretation of MIR: written bytes as symbolic pieces, with a relational (affine) domain over integers written, buffer lengths and positions; the pieces of every exit and every loop iteration "
     "parsed by the format's grammar",
     "Covers what is encoded in memory (tags, frames, blocks, chunks, atoms), not the splicing of it into the file. The contents of text and of ID3v2 frames are opaque (a length). Wrapping of sizes beyond their "
     "width is P13's. Where a size depends on the result of a call that is not modelled, the relation is counted as undecided." + TRUST,
     design="*Oracle*: `checks/p15.py` SPECS, a grammar per writer (APE, ID3v1, ID3v2 frames and tag, Vorbis Comments, FLAC blocks and pictures, RIFF, AIFF, MP4 atoms), written from the format standards. "
     "*Engine*: `sa/emit.py` runs the writer over MIR with callees inlined: buffers, cursors, seeks back and overwriting, vectors, iterator loops (affine hull at loop heads, each iteration's pieces kept apart), "
     "`Option`/`Result` branches, and remainders modulo 2. ID3v2 frames are run once per combination of the flags that add bytes.")

prop("P16", "Enumerated codes, flag bits and constant tables are the standards'",
     "Every code stored for an enumeration (picture type, text encoding, event, channel, timestamp format and synchronised-text type, MP4 data type, advisory rating and "
     "audio object type, Musepack profile and link) is decoded to, and encoded from, the variant the standard gives it; so are ID3v2 tag, frame and restriction flag bits, "
     "picture MIME types, channel layouts and star ratings. Constant tables (genres, bitrates, sample rates, frame sizes, checksums, signatures) have the standards' contents.",
     ["inputs"], "all 256 codes, all variants, all flag bits, all table entries",
     "Each code is a separate constant, the tests sample a handful; one wrong entry goes unnoticed until a file uses it.",
     ["lofty/src/picture.rs", "lofty/src/id3/v2/restrictions.rs", "lofty/src/id3/v2/header.rs", "lofty/src/id3/v2/frame/mod.rs", "lofty/src/properties/channel_mask.rs",
      "lofty/src/mpeg/constants.rs", "lofty/src/mp4/ilst/data_type.rs", "lofty/src/tag/items/popularimeter.rs", "lofty/src/musepack"],
     [{"name": "functions from and to a code", "where": "from_u8, as_u8, parse_*, as_*_byte(s), try_from of the coded enumerations"},
      {"name": "constant tables", "where": "BITRATES, SAMPLE_RATES, GENRES, CRC tables, signatures"}],
     "conditional constant propagation of each decoder and encoder for each code, variant and flag combination, against tables transcribed from the standards; compiler-evaluated constants compared with them",
     "Only the codes are decided, not that the byte handed to a decoder is the right one of the file." + TRUST)

prop("P12", "Looking leaves the reader where it was; rewriting starts at the front",
     "Guessing a file's type (whether or not one is found), measuring a stream, and looking for an ID3v2 tag or a pattern that is not there leave the reader "
     "at the position it had. Saving several tags to one file handle rewinds it before each of them. A writer that replaces the whole "
     "file empties it and writes the new contents from offset zero, so that nothing of the old contents stays behind or in front.",
     ["inputs", "histories"], "every content, starting position and path through the functions",
     "A misplaced reader shows only for contents that take the one path that does not seek back, or for a particular combination of tags.",
     ["lofty/src/probe.rs", "lofty/src/util/io.rs", "lofty/src/id3/mod.rs", "lofty/src/file/tagged_file.rs", "lofty/src/flac/mod.rs",
      "lofty_attr/src/lofty_file.rs", "lofty/src/iff/wav/tag/write.rs", "lofty/src/ape/tag/write.rs", "lofty/src/ogg/tag/write.rs"],
     [{"name": "saved position restored with SeekFrom::Start", "where": "guess_inner, stream_len_hack, find_id3v2, RevPatternSearcher::search"},
      {"name": "rewind, truncate(0), write_all", "where": "whole-file writers"}],
     "path-sensitive symbolic position analysis (typestate) over MIR with function summaries",
     "Exits with an error are exempt. Positions are symbols, so a relative seek that happens to lead back is not accepted." + TRUST)

prop("P13", "Every Ogg page written is numbered and carries the checksum of its bytes",
     "Every page written to an Ogg file, whether new or carried over from the old file, has a checksum computed over exactly the "
     "header and content that are written, and pages carried over are numbered consecutively after the new ones. When the rest of "
     "the file cannot be read as pages, it is kept as it is rather than dropped.",
     ["inputs"], "every Ogg file, tag size and number of pages",
     "A stale checksum or number shows only for page counts, packet sizes and damaged tails that the sample files do not have; "
     "the tests compare no page checksums after a save.",
     ["ogg_pager/src/lib.rs", "ogg_pager/src/packets.rs", "ogg_pager/src/paginate.rs", "ogg_pager/src/crc.rs", "lofty/src/ogg/tag/write.rs"],
     [{"name": "checksum recomputation before serialisation", "where": "ogg_pager/src/packets.rs, lofty/src/ogg/tag/write.rs"}],
     "interprocedural typestate analysis over MIR; constant table comparison",
     "May-analysis of page states (stale checksum, unnumbered) over all paths with function summaries; the checksum table is "
     "compared as evaluated by the compiler. The checksum loop itself and the lacing arithmetic are not proved." + TRUST)

prop("P18", "The resolver registry is never locked while resolvers run or code panics",
     "Using lofty from inside a custom resolver never deadlocks, and a resolver or caller that panics (also by looking up an unregistered "
     "type or registering a name twice) leaves detection and reading working for everyone else: the registry's lock is never held while "
     "code of a resolver runs, while something can panic, or while the lock is taken again. A name is registered at most once, whatever other threads do.",
     ["schedules", "histories", "programs"], "every resolver implementation, thread interleaving and sequence of registrations, lookups and panics",
     "The tests register one well-behaved resolver on one thread.",
     ["lofty/src/resolve.rs", "lofty/src/probe.rs", "lofty/src/file/file_type.rs"],
     [{"name": "global registry behind a mutex", "where": "lofty/src/resolve.rs"}],
     "lock-region (guard liveness) dataflow and effect analysis over MIR",
     "Allocation failure and drop glue are not counted among the things that can panic." + TRUST)

prop("P20", "Header fields are decoded as the formats lay them out",
     "Every field reported from an audio stream header (FLAC STREAMINFO, APE, WavPack, MPEG audio and Xing/Info/VBRI, ADTS, Opus, Vorbis, Speex, WAV fmt, AIFF COMM, "
     "Musepack SV4 to SV8, MP4 mdhd, sample descriptions and AudioSpecificConfig) or from a container header or tag header (Ogg page, MP4 atom, chunk, FLAC block and picture, "
     "ID3v2 header, frame sizes and binary frame fields, APE tag) is made of exactly the bytes and bits the format's specification gives it, in its byte order, with its bias and table. "
     "No header value is taken from a neighbouring field, with the other byte order, or under the wrong index of its table.",
     ["inputs"], "every value of every header field",
     "The tests read one or two files per format, in which most bits of most fields have one fixed value.",
     ["lofty/src/mpeg/header.rs", "lofty/src/aac/header.rs", "lofty/src/flac/properties.rs", "lofty/src/wavpack/properties.rs", "lofty/src/mp4/properties.rs", "lofty/src/ape/properties.rs",
      "lofty/src/musepack/sv7/properties.rs", "lofty/src/musepack/sv8/properties.rs", "lofty/src/ogg/opus/properties.rs", "lofty/src/iff/wav/properties.rs",
      "lofty/src/id3/v2/header.rs", "ogg_pager/src/header.rs"],
     [{"name": "decoding of header words into property and header structs", "where": "*/properties.rs, */header.rs"}],
     "abstract interpretation over bit provenance (which bit of which stream byte each bit of a value is), compared with the format's layout as terms",
     "Layouts, tables and biases are transcribed from the formats' specifications. Fields computed from several headers (durations, bitrates) are not part of this property; values the "
     "analysis cannot resolve are counted as undecided and not reported." + TRUST,
     design="*Oracle*: `checks/p20.py` ENTRIES: per decoder the stream offset, width, byte order, bias and table of each field, with cases that fix selector bits (versions, layers, "
     "object types). *Engine*: `sa/prov.py` runs the decoder over symbolic stream bits (position-tracked readers, shifts, masks, bit vectors, tables, joins as alternatives); `sa/terms.py` "
     "looks for a valuation on which the decoded term and the reference differ. Terms equal on all tried valuations count as equal: the sample is random plus corners, so a difference on a "
     "set of vanishing measure would be missed; it never reports one that is not there.")

prop("P21", "Durations and bitrates follow from the header's figures",
     "The duration a decoder reports is the header's sample, frame or tick count (less pre-skip or beginning silence) over its sample rate or timescale, and the overall and audio bitrates are "
     "the bits of the file and of the audio stream over that duration, for every value of the header fields and of the lengths, up to rounding to milliseconds and kbit/s. This covers FLAC, APE (all "
     "versions' frame sizes), Opus, Vorbis, Speex, WAV, AIFF, WavPack, Musepack, MPEG (VBR header, or frame extent over the bitrate without one), AAC and MP4.",
     ["inputs"], "every value of the header fields the figures are computed from, and every file and stream length",
     "The tests compare about twenty sample files, whose counts fit in few bits and whose selectors (versions, channel layouts, container sizes) take one value each.",
     ["lofty/src/flac/properties.rs", "lofty/src/ape/properties.rs", "lofty/src/ogg/opus/properties.rs", "lofty/src/ogg/vorbis/properties.rs", "lofty/src/ogg/speex/properties.rs",
      "lofty/src/iff/wav/properties.rs", "lofty/src/iff/aiff/properties.rs", "lofty/src/wavpack/properties.rs", "lofty/src/musepack", "lofty/src/mpeg/properties.rs", "lofty/src/mp4/properties.rs"],
     [{"name": "arithmetic on header figures", "where": "read_properties of every format"}],
     "abstract interpretation over bit provenance to terms, compared with the formats' formulas as functions",
     "The lengths of file and stream are taken as given (how callers measure the stream is not decided), and so is the last page or frame a search finds." + TRUST,
     design="*Oracle*: `checks/p21.py` ENTRIES: formula per decoder and case, with tolerance one millisecond or the error that rounding the duration to milliseconds induces in the bitrate. "
     "*Engine*: as P20; alternatives at joins are judged one by one, each must be one of the allowed formulas (or the initial 0), and the principal formula must be among them.")

prop("P23", "Custom resolvers are consulted exactly when enabled, and then first",
     "With use_custom_resolvers off, neither detecting nor reading a file consults a registered resolver or the registry. With it on, "
     "no built-in file type is decided before the registered resolvers have been asked.",
     ["inputs", "configurations"], "every file, extension, registered resolver and value of the option",
     "The tests exercise one registered resolver with the option on.",
     ["lofty/src/probe.rs", "lofty/src/file/file_type.rs", "lofty/src/resolve.rs", "lofty/src/config/global_options.rs"],
     [{"name": "test of use_custom_resolvers before the registry", "where": "lofty/src/probe.rs, lofty/src/file/file_type.rs"}],
     "interprocedural conditional constant propagation with the option fixed; path (dominance) check of the registry access",
     "That a resolver which was asked and answered is the one returned is not decided." + TRUST)

prop("P22", "Tags around the audio are found, taken whole, and not counted as audio",
     "Whatever ID3v2 tags (with or without footer) and APE tag stand in front of the audio, and whatever APE tag (v1, v2, with or without header), Lyrics3v2 tag and ID3v1 tag stand behind it, the audio properties of "
     "MP3, APE, WavPack and Musepack files are computed from the bytes between them and from the position of the first frame, whether or not the tags are read. "
     "Writing an APE tag replaces exactly the bytes of the existing ones and puts a new one in front of Lyrics3v2 and ID3v1; writing an ID3v2 tag keeps everything from the end of the existing one on; "
     "an ID3v1 tag is written over the existing one or at the end, and removed as exactly the last 128 bytes.",
     ["inputs", "configurations"], "every file with the listed arrangements of tags, of any content",
     "The tests read files with one arrangement of tags per format, and always read the tags; Lyrics3v2, footers, leading APE tags and tags without header are not among them.",
     ["lofty/src/id3/mod.rs", "lofty/src/ape/read.rs", "lofty/src/ape/tag/header.rs", "lofty/src/ape/tag/read.rs", "lofty/src/ape/tag/write.rs", "lofty/src/mpeg/read.rs", "lofty/src/wavpack/read.rs",
      "lofty/src/musepack/read.rs", "lofty/src/aac/read.rs", "lofty/src/id3/v1/write.rs", "lofty/src/id3/v2/write/mod.rs"],
     [{"name": "lengths and positions handed to the property readers", "where": "read_from of MPEG, APE, WavPack, Musepack, AAC"},
      {"name": "existing tags found by the writers", "where": "find_existing_ape_tags, write_id3v1, write_id3v2"}],
     "conditional constant propagation with the position of the reader as part of the state, specialised to layouts of which only tag headers, footers and sizes are known, against the layout",
     "Sizes of the tags and of the audio are a few representative ones, their content anything. Decoders of tag content are taken by their contract (they consume the tag); the frame search of MPEG and AAC finds the first frame (P24 has its first step). "
     "The AAC reader counts the header of an ID3v2 tag as audio, which an existing test pins: known finding." + TRUST,
     design="*Oracle*: the layout itself (`checks/p22.py` HEADS, TAILS). *Engine*: `Around` on `sa/sniff.py`: the file's end, the property readers as sinks whose arguments and position are compared, every function in between followed path by path; "
     "paths on which a decoder refuses content that stands for anything are set aside where others go on.")

prop("P24", "A file's format is recognised by its content, and by its extension",
     "Content that begins with the signature of a supported format is taken for that format, whatever follows and whatever the file is called; so is the content behind an ID3v2 tag "
     "(with or without footer) or behind junk within the permitted length. Guessing leaves the reader where it was, the name decides only what the content leaves open, and content cut short anywhere makes no guess panic. "
     "Every listed extension maps to its format, in any letter case.",
     ["inputs", "configurations"], "every content that starts with a signature, of any length, at any position of the reader",
     "The tests guess from about twenty sample files; the bits that tell AAC from MPEG, the second signature of a format, footers and short files are not among them.",
     ["lofty/src/file/file_type.rs", "lofty/src/probe.rs", "lofty/src/mpeg/header.rs"],
     [{"name": "signature tests of the guess", "where": "FileType::from_buffer, Probe::guess_file_type"}, {"name": "extensions", "where": "FileType::from_ext, EXTENSIONS"}],
     "conditional constant propagation over byte strings with unknown bytes, with the position of the reader as part of the state, against a table of signatures",
     "The search for a frame sync is taken by its contract (first 11 set bits within the limit). Custom resolvers are P23's. I/O errors are P06's." + TRUST,
     design="*Oracle*: `checks/p24.py` SIGNATURES, ADTS, MPEG, AFTER_ID3, EXT, from the formats' specifications. *Engine*: `sa/sniff.py` (Spec with partially known byte strings and a partially known file): "
     "only bytes of the signature are given, so that a verdict stands for every file that shares it.")

prop("P30", "Getting, inserting and removing agree on which entries are the same",
     "A tag's methods that get, insert, replace, take and remove entries pick the entries whose key is the one asked for and no others: by the same notion of equal keys in every method of a format (ignoring "
     "letter case for APE, Vorbis Comments and RIFF INFO), and whether or not their data is borrowed; a file's methods pick its tags by their type alike. Inserting leaves one entry of its key, the order of the untouched entries stays, and a refused edit changes nothing. "
     "ID3v2 frames are told apart by exactly the fields that identify them, frames a tag has once are replaced by their ID, and equal values have equal hashes.",
     ["inputs", "programs"], "every sequence of edits of every tag, every key, spelling and entry",
     "The tests edit tags of a few distinct entries, by keys spelt the way they were inserted, and with one entry left.",
     ["lofty/src/tag/mod.rs", "lofty/src/ape/tag/mod.rs", "lofty/src/ogg/tag.rs", "lofty/src/iff/wav/tag/mod.rs", "lofty/src/mp4/ilst/mod.rs", "lofty/src/id3/v2/frame/list.rs",
      "lofty/src/id3/v2/tag.rs", "lofty/src/id3/v2/items", "lofty/src/ogg/picture_storage.rs", "lofty/src/file/tagged_file.rs"],
     [{"name": "predicates over entries", "where": "get*, insert*, remove*, take* of every tag"},
      {"name": "equality and hash of frames", "where": "lofty/src/id3/v2/items"}],
     "conditional constant propagation through every predicate with the key comparison assumed to hold and to fail; path check of stores against removals; effect query for reordering",
     "What the comparison functions of the standard library answer is trusted; whether the value of the returned entry is the one inserted is not decided." + TRUST,
     design="*Oracle*: `checks/p30.py` IDENT (identifying fields per frame type, from the ID3v2 standard), ONCE (frames of which there is one), NOCASE. *Engine*: `Spec` with assumptions on comparisons "
     "(`Assume`); for `FrameList::insert` the frame fixed to every kind in turn (`Kinds`).")

prop("P48", "The caller's options reach every part of a reader or writer",
     "The parsing options and parsing mode a caller asks for, and the write options of a save, are the ones that apply to every part of "
     "the file that is read or written: no reader or writer falls back to options of its own for embedded tags, frames, chapters, "
     "chunks or packets.",
     ["inputs", "configurations"], "every file and every parse or write options",
     "A nested part that is read under other options shows only for files whose nested part is malformed or oversized, in a non-default mode.",
     ["lofty/src/config/parse_options.rs", "lofty/src/probe.rs", "lofty/src/id3/v2/read.rs", "lofty/src/iff/wav/read.rs",
      "lofty/src/iff/aiff/read.rs", "lofty/src/mp4/moov.rs", "lofty/src/flac/read.rs", "lofty/src/tag/utils.rs"],
     [{"name": "options passed down by value", "where": "every read_from/parse and save_to"}],
     "value-origin (taint) analysis of option values over MIR and the call graph",
     "Also decides that every option setter stores its argument in its own field. Decides where option values come from, not whether each of them is acted upon (P07 and P08 decide that for modes and exclusions)." + TRUST)

prop("P90", "Saved tags read back equal",
     "Any tag that is saved and then read back in the same format has the same items, pictures and order that the format can represent.",
     ["inputs", "programs"], "every tag content in every format",
     "Round trips are sampled by the tests with a handful of tags.",
     ["lofty/src/tag", "lofty/src/id3/v2", "lofty/src/mp4/ilst", "lofty/src/ape/tag", "lofty/src/ogg/tag.rs"],
     [{"name": "paired encoders and decoders", "where": "every format's read and write module"}],
     na="Equality of a decoder applied to an encoder's output over all values is a relational property of runtime values; no static "
        "rule in reach derives it from the source. The decidable parts (key tables, encodings announced, size fields, byte order) are claimed as separate properties.")

prop("P91", "Saving a tag leaves the audio bytes unchanged",
     "Saving or removing a tag leaves every byte of audio data as it was, and every reference to it (chunk offsets, frame positions) correct.",
     ["inputs", "histories"], "every file, tag and padding situation",
     "The tests compare a few sample files.",
     ["lofty/src/mp4/ilst/write.rs", "lofty/src/iff/chunk_file.rs", "lofty/src/id3/v2/write/mod.rs", "lofty/src/ape/tag/write.rs"],
     [{"name": "splicing of the tag region in a memory copy of the file", "where": "format writers"}],
     na="Which bytes are audio is determined by runtime offsets parsed from the file; bounding them needs value reasoning about file "
        "content (offset arithmetic across parse and splice) that no sound static argument in reach provides. The sizes and counts of what is written are P15.")

prop("P92", "The audio stream is found where it is",
     "The first and last frame, the last page and the extent of the audio stream that a reader determines are those of the stream, whatever surrounds or resembles it.",
     ["inputs"], "every well-formed audio file, with every tag and junk around the audio",
     "The tests compare about twenty sample files.",
     ["lofty/src/mpeg/read.rs", "lofty/src/aac/read.rs", "lofty/src/ogg/read.rs", "lofty/src/mp4/properties.rs"],
     [{"name": "searches for frame headers and pages", "where": "*/read.rs"}],
     na="Where a search stops depends on the content of the whole file (sync patterns in loops over runtime data); no sound static argument in reach bounds it. What is computed "
        "from the headers once found is claimed as P20 and P21.")

prop("P93", "Conversions between generic and format tags lose nothing unannounced",
     "Splitting a format-specific tag into a generic tag and merging it back restores the original tag, including what the generic tag cannot express.",
     ["inputs"], "every tag of every format",
     "Tests cover single tags per format.",
     ["lofty/src/tag/split_merge_tag.rs", "lofty/src/id3/v2/tag.rs", "lofty/src/mp4/ilst/mod.rs"],
     [{"name": "remainder types", "where": "split_tag/merge_tag of each format"}],
     na="A value-level inverse relation over unbounded collections; not derivable by the static analyses in reach.")
