"""Which harness programs exist, and which properties they decide."""

HARNESSES = {
    "h_time": {"sources": ["time.cc"], "lib": "core", "variants": ["asan"]},
    "h_colour": {"sources": ["colour.cc"], "lib": "core", "variants": ["asan"]},
    "h_lutcache": {"sources": ["lutcache.cc"], "lib": "core", "variants": ["asan", "tsan"]},
    "h_signal": {"sources": ["signal.cc"], "lib": "core", "variants": ["asan"]},
    "h_io": {"sources": ["io.cc", "interpose.cc", "tracer.cc"], "lib": "core", "variants": ["asan"]},
    "h_fs": {"sources": ["fs.cc"], "lib": "core", "variants": ["asan"]},
    "h_timecode": {"sources": ["timecode.cc"], "lib": "full", "variants": ["asan"]},
    "h_codec": {"sources": ["codec.cc"], "lib": "full", "variants": ["asan"]},
    "h_documents": {"sources": ["documents.cc", "gen.cc"], "lib": "full", "variants": ["asan"]},
    "h_subs": {"sources": ["subs.cc", "gen.cc"], "lib": "full", "variants": ["asan"]},
    "h_sound": {"sources": ["sound.cc", "gen.cc"], "lib": "full", "variants": ["asan"]},
    "h_package": {"sources": ["package.cc", "pkg.cc", "gen.cc"], "lib": "full", "variants": ["asan"]},
    "h_essence": {"sources": ["essence.cc", "pkg.cc", "gen.cc"], "lib": "full", "variants": ["asan"]},
    "h_crypto": {"sources": ["crypto.cc", "certs.cc", "pkg.cc", "gen.cc"], "lib": "full", "variants": ["asan"]},
    "h_image": {"sources": ["image.cc", "gen.cc"], "lib": "full", "variants": ["asan"]},
    "h_hostile": {"sources": ["hostile.cc", "certs.cc", "pkg.cc", "gen.cc"], "lib": "full", "variants": ["asan", "plain"]},
    "h_faults": {"sources": ["faults.cc", "tracer.cc", "certs.cc", "pkg.cc", "gen.cc"], "lib": "full", "variants": ["asan"]},
    "h_verifier": {"sources": ["verifier.cc", "certs.cc", "pkg.cc", "gen.cc"], "lib": "full", "variants": ["asan", "plain"]},
    "h_threads": {"sources": ["threads.cc", "certs.cc", "pkg.cc", "gen.cc"], "lib": "full", "variants": ["tsan"]},
    "h_tools": {"sources": ["tools.cc", "certs.cc", "pkg.cc", "gen.cc"], "lib": "full", "variants": ["asan"],
                "tools": ["common", "dcpdiff", "dcpinfo", "dcpverify", "dcpkdm", "dcpdecryptmxf", "dcpdumpsub", "dcprecover", "dcpthumb"]},
    "h_names": {"sources": ["names.cc"], "lib": "core", "variants": ["asan"]},
}

# property -> jobs: (harness, variant, shards quick, shards thorough)
CHECKS = {
    "C03": {"jobs": [("h_io", "asan", 4, 8)]},
    "C04": {"jobs": [("h_io", "asan", 4, 8)]},
    "C05": {"jobs": [("h_io", "asan", 2, 8)]},
    "C06": {"jobs": [("h_fs", "asan", 4, 8)]},
    "C07": {"jobs": [("h_io", "asan", 2, 8)]},
    "C08": {"jobs": [("h_time", "asan", 1, 8)]},
    "C09": {"jobs": [("h_time", "asan", 1, 8)]},
    "C10": {"jobs": [("h_time", "asan", 1, 8)]},
    "C11": {"jobs": [("h_timecode", "asan", 2, 8)]},
    "C12": {"jobs": [("h_colour", "asan", 2, 8)]},
    "C13": {"jobs": [("h_lutcache", "tsan", 2, 8), ("h_lutcache", "asan", 1, 4)]},
    "C14": {"jobs": [("h_colour", "asan", 2, 8)]},
    "C17": {"jobs": [("h_signal", "asan", 1, 8)]},
    "C18": {"jobs": [("h_signal", "asan", 1, 8), ("h_sound", "asan", 2, 8)]},
    "C19": {"jobs": [("h_sound", "asan", 4, 8)]},
    "C20": {"jobs": [("h_codec", "asan", 1, 8)]},
    "C21": {"jobs": [("h_names", "asan", 1, 8)]},
    "C22": {"jobs": [("h_codec", "asan", 2, 8)]},
    "C23": {"jobs": [("h_codec", "asan", 2, 8)]},
    "C24": {"jobs": [("h_codec", "asan", 2, 8)]},
    "C25": {"jobs": [("h_documents", "asan", 3, 8)]},
    "C26": {"jobs": [("h_documents", "asan", 4, 8)]},
    "C27": {"jobs": [("h_subs", "asan", 4, 8)]},
    "C28": {"jobs": [("h_sound", "asan", 3, 8)]},
    "C29": {"jobs": [("h_package", "asan", 4, 8)]},
    "C30": {"jobs": [("h_package", "asan", 4, 8)]},
    "C33": {"jobs": [("h_package", "asan", 4, 8)]},
    "C39": {"jobs": [("h_package", "asan", 4, 8)]},
    "C31": {"jobs": [("h_essence", "asan", 4, 8)]},
    "C32": {"jobs": [("h_essence", "asan", 4, 8)]},
    "C34": {"jobs": [("h_crypto", "asan", 4, 8)]},
    "C35": {"jobs": [("h_crypto", "asan", 4, 8)]},
    "C36": {"jobs": [("h_crypto", "asan", 4, 8)]},
    "C37": {"jobs": [("h_crypto", "asan", 4, 8)]},
    "C15": {"jobs": [("h_image", "asan", 4, 8)]},
    "C16": {"jobs": [("h_image", "asan", 4, 8)]},
    "C01": {"jobs": [("h_hostile", "memcheck", 2, 8), ("h_hostile", "asan", 6, 8)]},
    "C02": {"jobs": [("h_faults", "asan", 4, 8)]},
    "C38": {"jobs": [("h_verifier", "plain", 4, 4), ("h_verifier", "asan", 4, 4)]},
    "C41": {"jobs": [("h_package", "asan", 4, 8)]},
    "C42": {"jobs": [(h, "asan", 1, 2, w) for h, w in (
        ("h_hostile", "C01"), ("h_crypto", "C36"), ("h_crypto", "C34"), ("h_crypto", "C35"), ("h_crypto", "C37"), ("h_verifier", "C38"),
        ("h_image", "C15"), ("h_image", "C16"), ("h_essence", "C31"), ("h_essence", "C32"), ("h_package", "C29"), ("h_package", "C30"), ("h_package", "C33"), ("h_package", "C39"), ("h_package", "C41"),
        ("h_subs", "C27"), ("h_documents", "C25"), ("h_documents", "C26"), ("h_sound", "C18"), ("h_sound", "C19"), ("h_sound", "C28"), ("h_codec", "C22"), ("h_codec", "C23"), ("h_codec", "C24"),
        ("h_io", "C04"), ("h_io", "C05"), ("h_fs", "C06"), ("h_colour", "C12"), ("h_colour", "C14"), ("h_signal", "C17"), ("h_names", "C21"), ("h_time", "C09"))]},
    "C43": {"jobs": [("h_tools", "asan", 6, 8)]},
    "C40": {"jobs": [("h_threads", "tsan", 4, 8)]},
}

A = "under AddressSanitizer and UndefinedBehaviorSanitizer"

# property -> (technique, level, note)
NOTES = {
    "C03": ("ptrace fault and crash enumeration with state monitor", "fault_enumeration", "every file system call of every scenario killed before/after, failed and shortened"),
    "C04": ("stdio twin and interposed ownership monitor " + A, "exploration", "random ownership histories; live streams and descriptors counted after every step"),
    "C05": ("model-based monitor " + A, "exploration", "random histories against byte strings; all small sizes through files"),
    "C06": ("twin-tree differential monitor " + A, "exploration", "every wrapper against the plain call on an identical tree, with full snapshots"),
    "C07": ("run-count monitor " + A, "exploration", "random guard lives with moves, cancels and exceptions"),
    "C08": ("differential monitor " + A, "exploration", "random and boundary times compared against an independent count of milliseconds"),
    "C09": ("round-trip and grammar monitor " + A, "exploration", "generated and mutated time texts against an independent parser"),
    "C10": ("differential monitor " + A, "exploration", "random arithmetic against an independent calendar"),
    "C11": ("differential monitor " + A, "exploration", "random and boundary timecodes at many rates against exact rational arithmetic"),
    "C12": ("differential monitor " + A, "exploration", "every table entry against long double formulae"),
    "C13": ("ThreadSanitizer and AddressSanitizer stress with result monitor", "exploration", "threads released together on one cache; each table compared with a fresh one"),
    "C14": ("differential monitor " + A, "exploration", "matrices recomputed independently; single-parameter changes"),
    "C17": ("model-based monitor " + A, "exploration", "random histories against a list of bits"),
    "C18": ("decoding monitor " + A, "exploration", "waveform decoded back to bits"),
    "C20": ("round-trip and rejection monitor " + A, "exploration", "every value of every vocabulary; near-miss and random words"),
    "C21": ("model-based monitor " + A, "exploration", "independent expansion of random templates"),
    "C22": ("round-trip and uniqueness monitor " + A, "exploration", "random keys, byte strings and malformed texts; identifiers from eight threads"),
    "C23": ("differential monitor " + A, "exploration", "boundary and random lengths; every progress call; unreadable files; concurrent use"),
    "C24": ("round-trip and grammar monitor " + A, "exploration", "tags of registered subtags and mutations against an independent reading of the lists"),
    "C25": ("round-trip monitor " + A, "exploration", "random asset maps and packing lists through files, field by field"),
    "C26": ("round-trip monitor " + A, "exploration", "random CPLs with every setter and kind of reel asset through files, getter by getter"),
    "C27": ("round-trip and parse monitor " + A, "exploration", "random texts, images, styles and nestings; independent evaluation of nested elements"),
    "C19": ("round-trip monitor " + A, "exploration", "every sample of random assets read back; extremes, chunkings, channel counts"),
    "C28": ("model-based and round-trip monitor " + A, "exploration", "random configuration histories; labels of written assets"),
    "C29": ("round-trip monitor " + A, "exploration", "random packages; lists recomputed from the files"),
    "C30": ("metamorphic monitor " + A, "exploration", "twin packages and packages with one difference of each kind; both orders"),
    "C33": ("differential monitor " + A, "exploration", "random sets of packages combined; content by id, lists recomputed, inputs compared"),
    "C39": ("model-based monitor " + A, "exploration", "random packages; answers computed from the description; partial KDMs"),
    "C31": ("key, tamper and plaintext monitor " + A, "exploration", "random assets of five kinds; right, wrong and nearly right keys, changed bytes, content searched for in the file; container is a stand-in"),
    "C32": ("resumption twin " + A, "exploration", "random interruptions of picture writing compared with an uninterrupted run; container is a stand-in"),
    "C34": ("round-trip and wrong-recipient monitor " + A, "exploration", "random KDMs; Interop blocks encrypted by the harness"),
    "C35": ("document monitor with independent signature check " + A, "exploration", "random KDMs in every formulation"),
    "C36": ("independent certificate twin " + A, "exploration", "random chains, good or with one of nine flaws; attributes recomputed from DER"),
    "C37": ("independent XML signature verifier and tampering " + A, "exploration", "random signed packages and KDMs"),
    "C15": ("independent pixel pipeline " + A, "exploration", "random images, strides, curves and primaries"),
    "C16": ("picture, size and bit rate monitor " + A, "exploration", "random pictures at every reduction; damaged codestreams"),
    "C01": ("any result or std::exception, no sanitizer report " + A, "exploration", "random structural and byte-level changes to valid documents, certificates, keys and codestreams, and hostile values in every textual form"),
    "C02": ("ptrace fault enumeration with content monitor " + A, "fault_enumeration", "every storing system call of every file-writing call failed once, failed from then on, and shortened"),
    "C38": ("model-based monitor " + A, "exploration", "random packages, right or with known defects, against an independent account of what should be reported"),
    "C41": ("search monitor: random trees and packages that use content of one another, under ASan/UBSan", "exploration", "directory trees up to seven deep and up to three packages with references between them"),
    "C42": ("LeakSanitizer with monitors of descriptors, temporary files and current directory", "exploration", "the workloads of thirty other checks, failing calls included"),
    "C43": ("program monitor: exit status, output and files of each tool " + A, "exploration", "random packages, damaged packages, KDMs, keys and certificates given to eight programs"),
    "C40": ("ThreadSanitizer with alone-versus-together result monitor", "exploration", "random work on separate objects in threads released together; first uses in new processes"),
}
