#!/usr/bin/env python3
"""The property catalogue; writes ../properties.jsonl."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe), "hook_needed": hook}})


# ---------------------------------------------------------------- cross-cutting
prop("C01", "Hostile input never causes memory errors or undefined behaviour",
     "Whatever bytes are given to the library as an asset map, packing list, CPL, subtitle file, KDM, certificate, private key, JPEG2000 codestream, or textual time, key, language tag or identifier, the call either succeeds or throws an exception derived from std::exception. It never reads or writes outside allocated memory, uses uninitialised or freed memory, executes undefined arithmetic, or terminates the process.",
     ["inputs"], "every byte string fed to every parser, including mutations of valid documents",
     "Unit tests feed a few dozen well-formed files and a handful of malformed strings, and run without sanitizers; out-of-range accesses on rare inputs pass silently.",
     ["src/asset_map.cc", "src/pkl.cc", "src/cpl.cc", "src/smpte_text_asset.cc", "src/interop_text_asset.cc", "src/text_asset.cc", "src/encrypted_kdm.cc", "src/certificate.cc", "src/certificate_chain.cc", "src/j2k_transcode.cc", "src/verify_j2k.cc", "src/local_time.cc", "src/dcp_time.cc", "src/key.cc", "src/language_tag.cc", "src/util.cc", "src/raw_convert.cc"],
     [("length checks before indexing", "src/local_time.cc LocalTime(string)"), ("exceptions from XML layer", "cxml users"), ("decompress_j2k validity checks", "src/j2k_transcode.cc")],
     observe=["ASan/UBSan reports", "exceptions leaving the API"])

prop("C02", "Failed or short writes are always reported to the caller",
     "If the storage refuses any part of what an API call was asked to put in a file (disc full, file size limit, I/O error, unwritable directory), that call, or the call that completes the file, throws or returns failure. A call that reports success leaves the complete, correct content in the file, and one whose writes are all accepted does report success.",
     ["fault_sequences", "inputs"], "every byte position at which storage can start failing, for every file-writing call",
     "Tests only run on a healthy disc; no test makes a write fail at all.",
     ["src/data.cc", "src/file.cc", "src/util.cc", "src/asset_map.cc", "src/pkl.cc", "src/cpl.cc", "src/interop_text_asset.cc", "src/smpte_text_asset.cc", "src/font_asset.cc", "src/encrypted_kdm.cc", "src/verify_report.cc"],
     [("return value checks", "Data::write, File::checked_write"), ("exceptions from writers", "asset writers")],
     observe=["exception / return value", "content of the file afterwards"])

prop("C03", "Replacing a file via a temporary is atomic at every crash or failure point",
     "Writing data to a destination by way of a temporary leaves the destination, at every instant and after the process is killed or the storage fails at any point, either exactly as it was before (or absent) or containing the complete new data. When the call returns normally the destination holds the complete new data and the temporary is gone.",
     ["crash_points", "fault_sequences"], "process death or storage failure before/after every file-system operation of the call",
     "No test interrupts the call; only a fault or crash between two operations exposes an ordering error.",
     ["src/data.cc", "src/file.cc"],
     [("write temp then rename", "Data::write_via_temp")],
     observe=["destination contents as seen by another process"])

prop("C04", "File handles are owned once: closed exactly once, never leaked, moves transfer",
     "After any sequence of opening, moving, assigning, taking, closing and destroying file objects, every underlying stream is open exactly while one object (or the caller who took it) owns it, is closed exactly once, and no descriptor is leaked. A moved-to object refers to the same open file, path and open error as its source did, and what is read, written, sought and told through the object is what the same operations on a plain stdio stream give.",
     ["histories"], "all operation sequences over several file objects and files",
     "One shape of move (open into closed) is all that is exercised; ownership errors need a sequence of moves/assignments to show.",
     ["src/file.cc", "src/file.h"],
     [("File move constructor/assignment, close, take", "src/file.cc")],
     state=[("_file", "owned stream or null", "src/file.h"), ("_path", "path opened", "src/file.h")],
     observe=["/proc/self/fd", "fopen/fclose call trace", "file contents"])

prop("C05", "Memory blocks: contents, sharing, equality and file round trip are exact",
     "A memory block made from bytes, a size or a file holds exactly those bytes; growing or shrinking it keeps the common prefix; copies made from the same block share contents as documented; two blocks are equal exactly when their sizes and all bytes are equal, and unequal otherwise. Writing a block to a file and reading the file back gives an equal block for every size including zero.",
     ["inputs", "histories"], "all sizes, contents and operation sequences",
     "Tests use a few sizes; boundary sizes (0, page and buffer edges) and difference in the last byte are not covered.",
     ["src/array_data.cc", "src/array_data.h", "src/data.cc"],
     [("vector-backed storage", "src/array_data.h"), ("memcmp after size compare", "src/data.cc")],
     observe=["data()/size() against a model"])

prop("C06", "File-system wrappers do exactly what the plain file-system call does",
     "Every file-system helper gives the same result, the same error (thrown or via error code) and the same effect on disc as the corresponding ordinary file-system operation on that path, and iterating a directory (recursively) yields each entry exactly once. Lexical canonicalisation yields an absolute path without \".\" or resolvable \"..\" parts, and prefixing then un-prefixing a long path gives the path back.",
     ["inputs", "histories"], "all operations over arbitrary small file trees with files, directories, symlinks, hard links, missing paths and permission states",
     "Tests exercise three path functions on a few literal paths; a wrapper calling the wrong function or swapping arguments on another operation goes unseen.",
     ["src/filesystem.cc", "src/filesystem.h"],
     [("thin forwarding wrappers", "src/filesystem.cc")],
     observe=["return value, error code and resulting tree compared to a parallel tree"])

prop("C07", "A scope guard runs its action exactly once unless cancelled",
     "However a guarded scope is left (normally, by return or by exception) and however many times the guard was moved, its action runs exactly once, when the last owner goes out of scope. If the guard was cancelled before or after being moved, the action never runs.",
     ["histories"], "all sequences of construct, move, cancel, exception and destroy",
     "The test covers one guard leaving scope normally.",
     ["src/scope_guard.h"], [("_cancelled and moved-from function", "src/scope_guard.h")],
     observe=["count of action runs"])

# ---------------------------------------------------------------- time
prop("C08", "Local times are totally ordered by the UTC instant they denote",
     "For any two times with any UTC offsets, exactly one of <, == and > holds and it is the order of the UTC instants (to the millisecond) that the two times denote; <=, >= and != agree with it, and the order is transitive. The seconds-since-epoch value of a time counts its own calendar fields, and two UTC offsets are equal exactly when their hours and minutes are.",
     ["inputs"], "all pairs/triples of times and offsets",
     "A handful of fixed comparisons, most with whole-hour offsets; disagreement needs specific minute offsets, month or year roll-over.",
     ["src/local_time.cc", "src/utc_offset.cc"], [("comparison via as_utc()", "src/local_time.cc")],
     observe=["comparison results against an independent instant calculation"])

prop("C09", "Local time text is parsed and printed without loss or misreading",
     "Formatting any time and parsing the text gives the same calendar fields, milliseconds and UTC offset (as far as they were printed). Parsing ISO 8601 text of the form YYYY-MM-DDThh:mm:ss[.fraction][Z or ±hh:mm] gives exactly the time it denotes (fraction truncated to milliseconds) and text not of that shape, or with an impossible offset, is rejected; ASN.1 UTC and generalized times give the UTC time they denote.",
     ["inputs"], "all representable times and all strings near the grammar",
     "Tests list about ten strings; sign of sub-hour offsets, short fractions, fraction with Z and bad digits are not covered.",
     ["src/local_time.cc", "src/utc_offset.cc", "src/encrypted_kdm.cc", "src/cpl.cc"],
     [("LocalTime(string), as_string, date, time_of_day, from_asn1_*", "src/local_time.cc")],
     observe=["fields after parse", "text after format"])

prop("C10", "Time arithmetic follows the calendar and keeps everything else unchanged",
     "Adding days, minutes, months or a duration to a time moves it by exactly that amount in the Gregorian calendar (months clamp to the end of shorter months, and the last day of a month stays the last day), for positive, zero and negative amounts and across month, year, leap-day and midnight boundaries. The UTC offset and all smaller fields (seconds and milliseconds) are preserved.",
     ["inputs", "histories"], "all times, amounts and sequences of additions",
     "A few fixed additions; boundaries and negative amounts largely untested.",
     ["src/local_time.cc"], [("boost::gregorian/posix_time arithmetic", "src/local_time.cc add*")],
     observe=["resulting fields against an independent calendar"])

prop("C11", "DCP timecodes: arithmetic, ordering and text agree with exact unit counts",
     "A timecode built from a number of editable units and a rate, or from text, denotes exactly that many units; sum, difference, ratio, comparison and equality (also between different rates) agree with exact rational arithmetic, with fields always in normalised range. Printing a timecode gives hh:mm:ss:ee (three digits of ticks in Interop form), parsing which gives an equal timecode; text with missing, extra, empty or over-long parts is refused; and rebasing keeps the time up to one unit of the new rate.",
     ["inputs"], "all timecodes and pairs over all rates",
     "Tests use a few values mostly at one rate; carries and mixed-rate comparisons are not enumerated.",
     ["src/dcp_time.cc", "src/dcp_time.h"], [("Time::set, operators", "src/dcp_time.cc")],
     observe=["fields and comparison results against rational arithmetic"])

# ---------------------------------------------------------------- picture maths
prop("C12", "Transfer functions tabulate their formula, are monotonic and invert exactly",
     "Every entry of a look-up table, for every function kind, range, bit depth and direction, is the value of the documented transfer curve at the evenly spaced point it stands for (scaled and rounded to nearest in the integer table). The table is non-decreasing, and the inverse curve applied to the forward curve gives the original value back over the whole range. Looking a value up in a two-part table gives the entry of the right part that stands for the point nearest to it.",
     ["inputs", "configurations"], "all function parameters, ranges, depths, directions and scales",
     "One gamma table is checked; other curves, sub-ranges, inverse direction and integer tables are not.",
     ["src/gamma_transfer_function.cc", "src/modified_gamma_transfer_function.cc", "src/s_gamut3_transfer_function.cc", "src/identity_transfer_function.cc", "src/transfer_function.cc", "src/piecewise_lut.h"],
     [("make_double_lut / make_int_lut", "src/*transfer_function.cc")],
     observe=["LUT entries against formulas in long double"])

prop("C13", "Look-up table caching is thread-safe, stable and never mixes up requests",
     "Any number of threads may ask one transfer function for tables at the same time without data races; every request gets the table for its own parameters whatever was requested before or concurrently. A table obtained once stays valid and unchanged for the life of the function, and asking again with the same parameters gives the same table.",
     ["schedules", "histories"], "all interleavings and orders of requests with equal, similar and colliding parameters",
     "Tests are single-threaded and ask one or two tables per function; cache-key or locking errors need collisions or concurrency.",
     ["src/transfer_function.cc", "src/transfer_function.h"], [("_mutex around both maps; five-part key", "src/transfer_function.cc")],
     state=[("_double_luts/_int_luts", "cached tables", "src/transfer_function.h")],
     observe=["TSan reports", "table contents and addresses over time"])

prop("C14", "Colour conversion matrices are consistent: inverse pair, white to white",
     "For every colour conversion (built-in or user-specified, with or without an adjusted white) the RGB-to-XYZ and XYZ-to-RGB matrices multiply to the identity and full RGB maps to the XYZ of the white point with unit luminance. Bradford adaptation maps the conversion's white to the adjusted white and is the identity when they are the same, and approximate-equality of conversions holds for each conversion with itself, is symmetric and detects a change to any one parameter. Each built-in conversion uses the primaries, white point and transfer curves of the standard it is named after.",
     ["inputs", "configurations"], "all physically sensible primaries and white points",
     "Tests compare a few hard-coded matrices to a few decimals.",
     ["src/colour_conversion.cc", "src/chromaticity.cc", "src/chromaticity.h"],
     [("rgb_to_xyz, xyz_to_rgb, bradford", "src/colour_conversion.cc")],
     observe=["matrix products against long double reference"])

prop("C15", "RGB and XYZ images convert per the documented pipeline, pixel by pixel",
     "Converting an RGB image to XYZ, or an XYZ image to RGB (8-bit packed or 16-bit), gives for every pixel the value of the documented pipeline (linearise, matrix, companding, re-encode) within rounding, clamped to range, independent of neighbouring pixels, image size, row stride and of other conversions running at the same time. Nothing outside the image rows is read or written, and an RGB to XYZ to RGB round trip of in-gamut colours returns the original within a small tolerance.",
     ["inputs", "schedules"], "all pixel values, sizes, strides and conversions",
     "Tests check single images and constants; out-of-gamut clamps, padding and concurrency are untested.",
     ["src/rgb_xyz.cc", "src/piecewise_lut.h", "src/openjpeg_image.cc"], [("LUT + matrix + clamp", "src/rgb_xyz.cc")],
     observe=["pixels against reference", "guard bytes around rows", "TSan"])

prop("C16", "JPEG2000 encode/decode keeps size and picture and respects bandwidth limits",
     "Compressing an XYZ picture gives a codestream no larger than the requested bit rate allows (plus any documented margin) that decodes to the same dimensions and, at generous rates, nearly the same samples; decoding with a reduction gives the correctly reduced dimensions with each sample in its right place. A corrupt or truncated codestream gives an exception or a picture of the stated size, never a hang or crash.",
     ["inputs", "configurations"], "all picture sizes (odd included), rates, frame rates, 2D/3D, reductions and damaged streams",
     "Tests decode a few standard sizes; odd sizes with reduction and damage are untested.",
     ["src/j2k_transcode.cc", "src/openjpeg_image.cc"], [("OpenJPEG parameters and size checks", "src/j2k_transcode.cc")],
     observe=["codestream sizes", "decoded planes against the source"])

# ---------------------------------------------------------------- sound
prop("C17", "Bit streams hold exactly the bits written, with correct CRCs",
     "The stream produced by any sequence of writes is the concatenation, most significant bit first, of exactly the bits written. The checksum inserted is the 16-bit CRC of exactly the bits written since it was started, under the requested polynomial, and later checksums start afresh; starting one while one is running, or writing one when none was started, is refused.",
     ["histories", "inputs"], "all write sequences",
     "One fixed sequence is (partly) tested.",
     ["src/bitstream.cc", "src/bitstream.h"], [("write_bit feeding CRC", "src/bitstream.cc")],
     observe=["bits against a model and an independent CRC"])

prop("C18", "The sync signal decodes back to the timeline identifier and frame number",
     "The frequency-shift-keyed waveform for any bit sequence carries exactly those bits, four samples per bit, and its phase is continuous across bits and blocks. In a sound asset with sync enabled, every frame of the sync channel at every supported rate decodes to a packet with valid checksum giving the asset's identifier (part by part in turn) and that frame's index, while other channels are untouched.",
     ["inputs", "histories"], "all bit sequences; all rates and frame counts",
     "One test compares a few seconds at a single rate with a stored file.",
     ["src/fsk.cc", "src/bitstream.cc", "src/sound_asset_writer.cc"], [("FSK lut & polarity; create_sync_packets", "src/fsk.cc, src/sound_asset_writer.cc")],
     observe=["samples through an independent demodulator"])

prop("C19", "Sound samples survive a write/read round trip exactly and clip without wrapping",
     "Sound written to an asset reads back on the same channel, at the same position, with each sample equal to the input quantised to 24 bits; values outside the representable range become the nearest extreme, never the opposite one. Unwritten channels are silent, a partial last frame is padded with silence, integer and floating point input agree, and samples of 16-bit sound made elsewhere keep their value and sign.",
     ["inputs", "histories"], "all sample values, channel counts, chunkings and rates",
     "Tests write ramps within range in one chunk.",
     ["src/sound_asset_writer.cc", "src/sound_asset_writer.h", "src/sound_frame.cc", "src/sound_asset.cc"], [("convert(), do_write()", "src/sound_asset_writer.cc")],
     observe=["frames read back against a model"])

# ---------------------------------------------------------------- small vocabulary
prop("C20", "Every enumerated value converts to text and back, and unknown text is rejected",
     "For each vocabulary (content kind, horizontal and vertical alignment, text direction and effect, marker, version status, luminance unit, KDM formulation) and for colours and fractions, converting any value to its text and back gives that value, different values have different texts, and text outside the vocabulary is rejected with an exception rather than silently mapped. Content kind names are recognised irrespective of letter case and keep their scope, and every subtitle standard is assigned its documented vertical-position conventions.",
     ["inputs"], "all enumeration values and near-miss strings",
     "Tests cover two alignments with a couple of values.",
     ["src/content_kind.cc", "src/h_align.cc", "src/v_align.cc", "src/types.cc", "src/subtitle_standard.cc", "src/text.cc", "src/rating.cc", "src/mca_sub_descriptor.cc"],
     [("*_to_string / string_to_*", "src/types.cc etc.")], observe=["conversion results"])

prop("C21", "File names from templates substitute exactly and are safe path components",
     "Each placeholder with a value is replaced by that value once (values are never re-expanded), ignored or unknown placeholders and all other text are kept in order, and the suffix is appended unchanged. The part produced from template and values never contains a path separator, colon or space.",
     ["inputs"], "all templates, value maps, ignore lists and suffixes",
     "No stable test covers templates; edge cases such as a trailing percent sign or values containing placeholders are untested.",
     ["src/name_format.cc", "src/name_format.h"], [("filter() and single pass", "src/name_format.cc")],
     observe=["produced name against a model"])

prop("C22", "Keys, identifiers, hex and base64 codecs are exact, unique and well formed",
     "Converting a key, identifier or byte string to hex or base64 text and back gives the same bytes, malformed keys and identifier URNs are rejected, and copying or assigning keys of any length keeps them independent and equal. Generated identifiers are well-formed version 4 UUIDs and generated identifiers and keys never repeat, also when generated concurrently.",
     ["inputs", "schedules"], "all keys, byte strings and malformed texts; concurrent generation",
     "Tests check a couple of keys of one length and base64 of a certificate.",
     ["src/key.cc", "src/key.h", "src/util.cc", "src/decrypted_kdm_key.cc"], [("Key, make_uuid, base64_decode", "src/key.cc, src/util.cc")],
     observe=["codec results", "set of generated values"])

prop("C23", "Digests are the true SHA-1 of the whole content, with honest progress",
     "The digest of a file or memory block is the base64 SHA-1 of all of its bytes for every length, whether computed alone or concurrently. Reported progress stays within 0..1, never decreases and reaches the end, and an unreadable or vanished file gives an exception, never a digest.",
     ["inputs", "schedules", "fault_sequences"], "all lengths around buffer boundaries, concurrent use, unreadable files",
     "Tests hash one or two small files; buffer boundaries and failure are untested.",
     ["src/util.cc", "src/asset.cc"], [("make_digest", "src/util.cc")], observe=["digest against independent SHA-1", "progress callbacks"])

prop("C24", "Language tags round trip and malformed tags are rejected",
     "Parsing a well-formed tag and printing it gives an equivalent canonical tag, and every setter/getter pair round trips. Text that is not a well-formed RFC 5646 language tag of registered subtags, or that has duplicate or misplaced subtags, is rejected with an exception, and equality and ordering of tags agree with their text.",
     ["inputs"], "all subtag combinations and malformed strings",
     "Tests try about two dozen strings.",
     ["src/language_tag.cc", "src/language_tag.h"], [("LanguageTag(string), setters", "src/language_tag.cc")], observe=["to_string, getters, exceptions"])

# ---------------------------------------------------------------- XML documents
prop("C25", "Asset maps and packing lists round trip losslessly and resolve every asset",
     "An asset map or packing list written to disc and read back, in either standard, gives the same identifier, annotation, issuer, creator, date and exactly the same assets with the same ids, paths or hashes, sizes and types, for every legal text (including XML special characters and non-ASCII). Paths in a read asset map resolve relative to the map's directory, and with a file: prefix removed.",
     ["inputs", "configurations"], "all metadata and asset sets, both standards",
     "Tests read a few fixed files.",
     ["src/asset_map.cc", "src/pkl.cc"], [("constructors from file and write_xml", "src/asset_map.cc, src/pkl.cc")], observe=["objects read back", "XML text"])

prop("C26", "CPLs round trip losslessly through their file",
     "Every piece of metadata, every reel and reel asset (edit rate, intrinsic duration, entry point, duration, hash, key id, language, markers, sound configuration, luminance, ratings, content versions and so on) that can be set on a CPL is present with the same value after the CPL is written and read back, in the standard it was written for. Writing what was read again gives the same document.",
     ["inputs", "configurations"], "all combinations of optional metadata, reels and assets",
     "Tests check individual fields of a few documents; dropped or swapped fields among dozens of optionals are not enumerated.",
     ["src/cpl.cc", "src/reel.cc", "src/reel_asset.cc", "src/reel_file_asset.cc", "src/reel_markers_asset.cc", "src/reel_sound_asset.cc", "src/reel_text_asset.cc", "src/reel_picture_asset.cc", "src/reel_atmos_asset.cc", "src/main_sound_configuration.cc", "src/rating.cc"],
     [("CPL(path) and write_xml", "src/cpl.cc")], observe=["getters of the object read back", "XML text"])

prop("C27", "Subtitle files round trip without losing or changing any text, image or timing",
     "Subtitles added to an asset (Interop or SMPTE) and written, then read back, give the same set of texts and images with the same timing, position, alignment, font, style, colour, effects, fades, ruby, Z position and fonts, for every combination of attributes and every legal text. Parsing XML applies each attribute to exactly the text inside the element that carries it, with inner elements overriding outer ones.",
     ["inputs", "configurations"], "all attribute combinations, nestings and texts",
     "Tests compare a few fixed subtitle files.",
     ["src/text_asset.cc", "src/text_asset_internal.cc", "src/smpte_text_asset.cc", "src/interop_text_asset.cc", "src/text_string.cc", "src/text_image.cc", "src/load_variable_z.cc"],
     [("parse_texts, texts_as_xml, pull_fonts", "src/text_asset.cc")], observe=["texts read back as a multiset", "well-formedness of XML"])

prop("C28", "Sound channel configuration and multi-channel audio labels are consistent",
     "A main sound configuration string parses to the field and channel mapping it denotes and prints back to the same string; setting the mapping of any channel is visible in the string and changes no other channel. Every channel offered for use has a distinct label, name and universal label that map back to that channel, and the labels written in a sound asset name exactly the channels in use with one soundfield group.",
     ["inputs", "configurations"], "all configurations up to 16 channels and all channels",
     "Tests parse a few fixed strings and check one written file.",
     ["src/main_sound_configuration.cc", "src/types.cc", "src/mca_sub_descriptor.cc", "src/sound_asset_writer.cc"],
     [("MainSoundConfiguration, channel_to_mca_*", "src/main_sound_configuration.cc, src/types.cc")], observe=["string, mapping, descriptors"])

# ---------------------------------------------------------------- packages
prop("C29", "A written package reads back equal, and its lists match the files on disc",
     "A DCP assembled from any combination of reels and assets, written and read again, contains the same CPLs, reels and assets, resolves every reference, and compares equal to the original. Every file is listed exactly once with its true id, size and SHA-1 in the packing list and its true path in the asset map, so that any later change to a listed file is detectable.",
     ["inputs", "histories", "configurations"], "all package shapes, both standards, encrypted or not, written repeatedly",
     "Tests write a few fixed packages and compare stored XML.",
     ["src/dcp.cc", "src/pkl.cc", "src/asset_map.cc", "src/asset.cc", "src/font_asset.cc", "src/ref.h", "src/asset_factory.cc"],
     [("DCP::write_xml, DCP::read, add_to_pkl/add_to_assetmap", "src/dcp.cc")], observe=["files on disc", "re-read package"])

prop("C30", "Equality comparison is reflexive, symmetric and notices every difference",
     "Comparing a CPL, reel, package, asset or single subtitle with itself or a copy reports equal under all options; comparing in either order gives the same verdict; and a difference in any compared attribute (picture, sound, subtitle, font, timing, metadata, number of items, length) is reported as unequal unless the options explicitly permit that difference. Every unequal verdict is accompanied by at least one error note.",
     ["inputs", "configurations"], "all single differences, both argument orders, all options",
     "Tests compare a few pairs in one order.",
     ["src/reel.cc", "src/cpl.cc", "src/dcp.cc", "src/reel_asset.cc", "src/reel_file_asset.cc", "src/smpte_text_asset.cc", "src/interop_text_asset.cc", "src/text_asset.cc", "src/j2k_picture_asset.cc", "src/mono_j2k_picture_asset.cc", "src/stereo_j2k_picture_asset.cc", "src/sound_asset.cc", "src/atmos_asset.cc", "src/text_image.cc", "src/text_string.cc"],
     [("equals() family", "src/*.cc")], observe=["verdicts and notes for (a,b) and (b,a)"])

prop("C31", "Encrypted essence: right key returns data; wrong key or tampering is detected",
     "Frames of picture, sound, subtitle or immersive audio written with a key read back identical with that key, and no plaintext frame content appears in the file beyond any declared clear region. Reading with a wrong key or altered data gives an exception, not wrong content, when integrity checking is on; assets report encryption, key id and whether they can be read truthfully, and an asset without a key is written in clear.",
     ["inputs", "configurations", "fault_sequences"], "all frame contents and sizes, keys and tampered bytes, both standards",
     "Tests check a few encrypted assets with the right key.",
     ["src/mxf.cc", "src/crypto_context.h", "src/asset_reader.h", "src/frame.h", "src/mono_j2k_picture_asset_writer.cc", "src/stereo_j2k_picture_asset_writer.cc", "src/sound_asset_writer.cc", "src/atmos_asset_writer.cc", "src/smpte_text_asset.cc"],
     [("CryptoContext set-up and result checks", "src/crypto_context.h, asset writers/readers")], observe=["frames, exceptions, file bytes"])

prop("C32", "Interrupted picture writing resumes to the same file as an uninterrupted run",
     "If picture writing stops after any frame (with or without finalising) and is resumed over the same file by claiming the already-written frames with the sizes and hashes reported for them, the finished asset has the same frames, in the same order, as one written in one go. The reported size, offset and hash of every frame are those of the data in the file.",
     ["crash_points", "histories"], "every interruption point, both mono and stereo, encrypted or not",
     "One recovery test with one interruption point.",
     ["src/mono_j2k_picture_asset_writer.cc", "src/stereo_j2k_picture_asset_writer.cc", "src/j2k_picture_asset_writer.cc", "src/j2k_picture_asset_writer_common.cc", "src/frame_info.h", "src/mono_mpeg2_picture_asset_writer.cc"],
     [("fake_write and overwrite behaviour", "src/*_picture_asset_writer.cc")], observe=["final file bytes/frames"])

prop("C33", "Combining packages keeps every asset and never overwrites or mixes content",
     "The output of combining packages has every CPL and every asset of the inputs, each file's content being that of an input asset with that id, and every reference resolved. Inputs are left unmodified, name clashes between different files never make one overwrite the other, identical shared assets appear once, and inputs of different standards are refused.",
     ["inputs", "configurations"], "all sets of input packages with clashing names, shared ids and sub-directories",
     "Tests combine a few prepared packages.",
     ["src/combine.cc", "src/dcp.cc"], [("make_unique / create_hard_link_or_copy / PKL rebuild", "src/combine.cc")], observe=["output package, input package digests"])

# ---------------------------------------------------------------- security documents
prop("C34", "A KDM decrypts to exactly the keys it was made from, and only for its recipient",
     "Encrypting any set of content keys for a recipient and decrypting with the recipient's private key returns the same key types, key ids, key values, CPL id, validity dates and titles, in every formulation. Any other private key gives an exception, and no content key appears in clear in the document.",
     ["inputs", "configurations"], "all key sets, dates, formulations and recipients",
     "Tests decrypt a few stored KDMs and one round trip.",
     ["src/decrypted_kdm.cc", "src/encrypted_kdm.cc", "src/decrypted_kdm_key.cc", "src/key.cc"], [("DecryptedKDM::encrypt / DecryptedKDM(EncryptedKDM, key)", "src/decrypted_kdm.cc")],
     observe=["decrypted keys, XML text"])

prop("C35", "KDM documents are lossless, truly flagged and confined to certificate validity",
     "Serialising a KDM and parsing the text gives an object that serialises to the same document with a still-valid signature and the same recipient, dates, trusted devices, key ids and flags. The document carries exactly the forensic-marking and trusted-device choices requested for its formulation, is issued for periods inside the validity of all the signer's certificates, and is refused with an exception for periods that begin or end days outside it.",
     ["inputs", "configurations"], "all formulations, marking choices, device lists and date ranges",
     "Tests check some combinations against fixed text.",
     ["src/encrypted_kdm.cc", "src/decrypted_kdm.cc"], [("EncryptedKDMData as_xml / constructor", "src/encrypted_kdm.cc")], observe=["XML parsed independently, signature verified independently"])

prop("C36", "Certificate chains order, validate and match keys correctly",
     "From certificates given in any order the library produces root-to-leaf order exactly when they form one valid chain, and reports validity truthfully: chains with a missing, foreign, duplicated or wrongly signed link are invalid, and a private key is accepted exactly when it belongs to the leaf. Subject, issuer, serial, thumbprints, digests and validity dates equal those computed independently, and serialising certificates and chains to PEM and back is lossless.",
     ["inputs", "histories"], "all chain lengths, orders and single corruptions",
     "Tests use two or three stored chains.",
     ["src/certificate.cc", "src/certificate_chain.cc"], [("root_to_leaf, chain_valid, private_key_valid, X509_verify", "src/certificate_chain.cc")],
     observe=["API answers against OpenSSL calls made directly"])

prop("C37", "Signed documents verify independently and any tampering breaks the signature",
     "Every CPL, packing list and KDM signed by the library carries an enveloped signature that an independent XML-signature implementation accepts with the leaf certificate included, naming the whole chain in order. Changing any signed content afterwards makes verification fail, and signing with an invalid chain is refused.",
     ["inputs"], "all documents, chains and single-byte/element alterations",
     "Tests check presence of signature elements and one verification by external tool.",
     ["src/certificate_chain.cc", "src/cpl.cc", "src/pkl.cc", "src/encrypted_kdm.cc"], [("CertificateChain::sign / add_signature_value", "src/certificate_chain.cc")],
     observe=["xmlsec verification in the harness"])

prop("C38", "Package verification accepts good packages and reports every corruption",
     "Verifying a correct package gives no error, whatever its shape; introducing any single defect that the verifier documents (wrong hash, missing file, bad duration, mismatched rate, overlapping subtitle, missing metadata and so on) gives the corresponding note. Verification never modifies the package, never crashes, and gives the same notes each time.",
     ["inputs", "configurations"], "all package shapes and single defects",
     "Tests check one example per note; interplay of shape and defect is not enumerated.",
     ["src/verify.cc", "src/verify_j2k.cc", "src/verify.h", "src/verify_report.cc"], [("dcp::verify", "src/verify.cc")], observe=["note lists", "package digests before/after"])

prop("C39", "Package queries and KDM delivery cover every asset",
     "For any package the answers to whether any or all of its content is encrypted, the list of file assets, the total duration and the reel contents reflect every asset of every kind present. Adding a KDM or keys makes every encrypted asset with a matching key id (and no other) readable, and resolving references connects each reference to the asset with that id only.",
     ["inputs", "configurations"], "all combinations of asset kinds and encryption states",
     "Tests query a few packages; rarely used asset kinds are not covered.",
     ["src/reel.cc", "src/cpl.cc", "src/dcp.cc", "src/ref.h", "src/asset_list.h"], [("any_encrypted/all_encrypted/give_kdm_to_assets/resolve_refs", "src/reel.cc, src/cpl.cc, src/dcp.cc")],
     observe=["query answers against a model"])

prop("C40", "Independent objects can be used from different threads at the same time",
     "Threads working on different objects (building times, names, XML documents, CPLs, subtitles, keys, image conversions, KDMs) concurrently get the same results as one thread working alone, with no data race inside the library. Sharing is only required to be safe where documented (transfer function tables and shared colour conversions).",
     ["schedules"], "all interleavings of library calls on distinct objects",
     "Tests are single-threaded.",
     ["src/util.cc", "src/transfer_function.cc", "src/colour_conversion.cc", "src/rgb_xyz.cc", "src/locale_convert.cc", "src/filesystem.cc"], [("no mutable globals outside mutexes", "src/")],
     observe=["TSan reports", "results compared with single-threaded run"])

prop("C41", "Searching finds every package, and opening several connects their references",
     "Searching a directory returns exactly the directories that hold an asset map under either of its names, at any depth, without looking inside a package already found and without being stopped by a directory that cannot be read. Opening several packages together gives every CPL of all of them, with each reference connected to the asset of that id in whichever package uses it, whatever the order. Directories that do not exist are ignored and not created, and a package with a missing file is refused unless tolerance was asked for.",
     ["inputs", "configurations"], "all directory trees, sets of packages and references between them",
     "Tests use one pair of packages.",
     ["src/search.cc", "src/dcp.cc", "src/reel.cc", "src/ref.cc"], [("find_potential_dcps, find_and_resolve_cpls", "src/search.cc"), ("DCP::resolve_refs", "src/dcp.cc")],
     observe=["directories and CPLs returned, references and their content"])

prop("C42", "Everything taken is given back, also when an operation fails",
     "Once the objects made by an operation are gone, whether it succeeded or threw, the memory it took has been released and the files and directories it opened are closed; nothing it made in the temporary directory is left behind, and the current directory is the one that it was. So a program can read, write, encrypt, decode or verify any number of packages, good or bad, without running out of memory or descriptors.",
     ["histories", "inputs", "fault_sequences"], "all operations, with good input and bad, repeated",
     "Tests stop after each operation and look at results only; a leak changes no result.",
     ["src/certificate.cc", "src/certificate_chain.cc", "src/decrypted_kdm.cc", "src/encrypted_kdm.cc", "src/j2k_transcode.cc", "src/openjpeg_image.cc", "src/text_asset.cc", "src/file.cc", "src/array_data.cc", "src/scope_guard.h", "src/verify.cc", "src/asset_reader.h"],
     [("paired creation and destruction of OpenSSL, xmlsec and OpenJPEG objects", "src/certificate*.cc, src/*_kdm.cc, src/j2k_transcode.cc"), ("parents and children that refer to one another", "src/text_asset_internal.h")],
     observe=["LeakSanitizer reports", "open descriptors, temporary files and current directory"])

prop("C43", "Command-line tools tell the truth about what they are given",
     "A tool exits with 0 exactly when it did what was asked: comparing packages only if they are equal under the options given, verifying one only if there are no errors other than those to be ignored, and decrypting, dumping or recovering only if the complete result was written. What it prints (identifiers, durations, sizes, notes, keys of every KDM, thumbprints, subtitles) is that of its input, and it writes only the output asked for, leaving its input unchanged. Without the right key it prints and writes no protected content and fails.",
     ["inputs", "histories"], "all packages, encrypted files, KDMs and certificates with all combinations of options",
     "No test runs the tools; their loops over files, option handling and exit status are seen by users only.",
     ["tools/dcpdiff.cc", "tools/dcpinfo.cc", "tools/dcpverify.cc", "tools/dcpkdm.cc", "tools/dcpdecryptmxf.cc", "tools/dcpdumpsub.cc", "tools/dcprecover.cc", "tools/dcpthumb.cc", "tools/common.cc"],
     [("exit status", "main functions in tools/"), ("filtering of notes", "tools/common.cc"), ("choice of keys from KDMs", "tools/dcpdecryptmxf.cc, tools/dcpdumpsub.cc")],
     observe=["exit status, output and files of each program"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
