"""Which harnesses decide which property, with which parts, and within which bounds."""


def R(*a):
    return list(range(*a))


LAYOUTS = (
    "Layouts: media data at 6 places (none, before, after, both sides, two before, two after) x user data (none, first, last, followed by another atom) x metadata (none, alone, after or before "
    "another atom, another atom only) x handler x item list (none, empty, small, large; before the handler; followed by free space); all 256 subsets of 64-bit sizes on 8 groups of atoms; up to 2 (thorough: 3) tracks "
    "with every combination of 32- and 64-bit tables of up to 2 entries; media data of 12 to 20000 bytes and tables of up to 2100 entries (larger than the 8 KiB buffers); neighbours of 0 to 7 bytes more; metadata of tracks and of the file; tracks without media or tables. "
)
TAGS = "Tags: empty; titles of 2 and 4 bytes; title, 300-byte image and freeform value; images of 8100, 8193 and 17000 bytes; the first and last bytes of every value symbolic. "
GIANT = "Media data of 2 GiB to 1 TiB (6 sizes) before the movie atom, with or without more behind it, as a file of which only the ends are stored. "
FILES = "Files of up to 700 bytes. "

CHECKS = {
    "P01": {
        "harnesses": [{"name": "h_dump", "parts": R(5), "thorough": R(6)}, {"name": "h_dump_form", "parts": [0]}],
        "bounds": "All 2^32 codes but 'free' and '----'; 7 value types x 34 lengths from 0 to 70000 (0-9, around 16, 32, 240-257, 4096, 8192, 16384, 65536) with the first and last 8 bytes symbolic; freeform parts of 0 to 257 "
                  "bytes; all strings of up to 2 (thorough: 3) unicode scalar values in values and freeform parts, in UTF-8 and UTF-16; up to 2 (thorough: 3) identifiers, equal or different, with up to 3 values; sizes of the dump nest exactly. "
                  "Outside: values over 70000 bytes, strings of more than 3 non-ASCII characters.",
    },
    "P02": {"harnesses": [{"name": "h_w_read", "parts": R(10), "heavy": [6, 7, 8]}], "bounds": LAYOUTS + GIANT + TAGS + "Outside: files over 30 KB other than these (media data behind the movie atom is loaded as a whole), more than 3 tracks, atoms of size 0 (to the end of the file), several movie atoms."},
    "P03": {"harnesses": [{"name": "h_w_keep", "parts": R(10), "heavy": [6, 7, 8]}], "bounds": LAYOUTS + GIANT + TAGS + "Outside: as P02; the contents of preserved atoms are symbolic in their first 4 bytes and a fixed pattern behind."},
    "P04": {"harnesses": [{"name": "h_w_chunks", "parts": R(11), "heavy": [7, 6, 8, 9]}], "bounds": LAYOUTS + GIANT + TAGS + "Every entry (in long tables the first two and the last) is any 32- or 64-bit number addressing any byte of any media data atom. "
            "Media data claiming 8 GiB (cut off) with any offsets below and beyond 2^32. Outside: more than 4 symbolic entries."},
    "P05": {"harnesses": [{"name": "h_w_form", "parts": R(9), "heavy": [6, 7, 8]}], "bounds": LAYOUTS + TAGS + "In addition a comment of each of the 7 types, UTF-8 and UTF-16 text with characters of every width."},
    "P06": {"harnesses": [{"name": "h_w_again", "parts": R(9), "heavy": [6, 8, 7]}], "bounds": LAYOUTS + TAGS + "Histories: save t; save t twice; save s then t, for all pairs (s, t) of the tags."},
    "P07": {
        "harnesses": [{"name": "h_any_read", "parts": R(23), "opts": {"split": 1}}],
        "bounds": FILES + "17 kinds of atoms (the whole file, the rest of the file, moov, udta, meta, ilst, an item, a freeform item, a data atom, trak, minf, stbl, stsd, esds, mvhd, stco, co64) with entirely arbitrary content of up to 21 (esds: 24) "
                          "(thorough: 26) bytes; a complete file with any 32-bit size, any 64-bit size (over or in front of the content) or any type in any one of its 34 atom headers, cut off anywhere, or with any byte changed to "
                          "anything. Allocations are limited to 64 KiB, steps to the engine's limit. Outside: two damages at a distance, larger files (a recursion or allocation which needs more input).",
        "assumptions": ["Of the time scale and duration in a movie header all bytes but one are 0 or 255 (64-bit division by a symbolic number is out of the solver's reach)."],
    },
    "P08": {
        "harnesses": [{"name": "h_any_write", "parts": R(23), "opts": {"split": 1}, "heavy": [0, 6, 7]}],
        "bounds": FILES + "As P07 (items: contents of 0, 7 and 12 bytes, esds 18; thorough: 26), each with an empty tag and one of about 120 bytes. Reading back is claimed for files which could be read before and whose atoms and descriptors nest exactly, "
                          "with one moov, udta, meta and ilst at most.",
    },
    "P09": {
        "harnesses": [{"name": "h_pieces", "parts": R(6)}, {"name": "h_drops", "parts": [0]}],
        "bounds": "Files of up to 500 bytes with and without metadata, values of all types with symbolic bytes, unknown types; complete or cut off at 40 places. Readers: 1 byte at a time, 3 bytes at a time, every other call interrupted, and a "
                  "short, interrupted or failing call at any position (up to 256; symbolic); starting positions 0, 1, 8 and 33. Writers: the same, and refusing to write.",
    },
    "P10": {
        "harnesses": [{"name": "h_fault_save", "parts": R(16), "heavy": [9, 8]}, {"name": "h_fault_read", "parts": [0, 1, 5, 8, 9, 13]}, {"name": "h_fault_dump", "parts": [2, 3, 4, 10, 11, 12]}],
        "bounds": "The first 256 operations of each kind (read, write, seek, truncate, or any of them), fault at any one of them (symbolic), once or from there on: error, short transfer, zero-length write. Files of about 400 bytes in 12 "
                  "layouts, and of about 18 KB; tags of 0 to 20000 bytes. Outside: two separate faults, contents after a failed write (not claimed: saving is in place and not crash safe).",
    },
    "P11": {
        "harnesses": [{"name": "h_extract", "parts": R(5)}],
        "bounds": "One item with any code, data version, 24-bit type, locale and up to 4 content bytes; up to 4 children of an item in any arrangement of data, mean, name and any other code; up to 4 items with any codes or freeform parts, equal or "
                  "different, and free space; one extra atom with any code at 4 levels, before or behind; each of 5 levels missing, with metadata elsewhere (in the movie, in a track, in another container, in the file); any version and flags at 4 places.",
    },
    "P12": {
        "harnesses": [{"name": "h_audio", "parts": R(5)}],
        "bounds": "Durations: 11 time scales x any one byte of the duration (others 0, 1 or 255) and 8 durations x any one byte of the time scale, both versions. Audio: any 32-bit rates, any 16-bit decoder-specific information, length fields of 1 to 4 "
                  "bytes on each of 3 levels, additional descriptors; up to 3 tracks of 6 kinds; all 256 codes of both tables.",
        "assumptions": ["Durations are decided with one symbolic byte at a time: 64-bit division with two symbolic operands is out of the solver's reach."],
    },
    "P13": {
        "harnesses": [{"name": "h_store", "parts": R(16)}, {"name": "h_value", "parts": R(2)}],
        "bounds": "Any tag of up to 2 identifiers (any code; freeform of up to 1 character) with up to 2 values of 3 classes and 7 types of 0-2 symbolic bytes, and a third one with 3 values; then any one of 16 groups of operations (thorough: followed by any of the 6 basic "
                  "ones) with any identifier in any of its forms and up to 2 values. Views: values of all types, up to 3 bytes or 2 unicode characters.",
    },
    "P14": {
        "harnesses": [{"name": "h_access", "parts": R(5)}],
        "bounds": "All 34 typed accessor families; up to 2 values of any type of up to 4 bytes already under the identifier, items of other identifiers before and behind; any 2-character texts, numbers, images of up to 2 bytes; up to 2 new values.",
    },
    "P15": {
        "harnesses": [{"name": "h_tuple", "parts": R(2)}],
        "bounds": "Nothing stored, or any bytes of length 0 to 8 in either binary type, possibly behind a text value; any two 16-bit numbers; each of the 6 operations.",
    },
    "P16": {
        "harnesses": [{"name": "h_genre", "parts": R(10)}],
        "bounds": "Up to 3 standard genre values (any bytes of length 0-3 and any of 4 codes, or any two of them) and up to 3 custom ones with symbolic text, up to 4 in total; the names of all 80 codes; each genre operation with up to 2 new values of any code and text.",
    },
    "P17": {
        "harnesses": [{"name": "h_text", "parts": R(5)}],
        "bounds": "Any bytes of length 0 to 4 (thorough: 5) as UTF-8 in a value, a mean, a name, a file type; any 0 to 3 (4) code units of UTF-16. Outside: longer text (decoding has no longer context than 4 bytes or 2 units), an odd trailing byte of UTF-16.",
    },
    "P18": {"harnesses": [{"name": "h_ident", "parts": R(3)}], "bounds": "Any two codes; freeform parts of up to 2 ASCII characters each, of one character of any width, of 5 and 16 characters with symbolic first and last bytes; all pairs of kinds."},
    "P19": {
        "harnesses": [{"name": "h_ext", "parts": R(4)}],
        "bounds": "One file with all kinds of atoms that are read or skipped, unknown ones in front of and behind them in every container, and symbolic values: all 256 subsets of 8 groups of containers with 64-bit sizes, all 256 subsets of 8 groups of inner and skipped atoms with none and with all containers extended; each of 23 skipped atoms larger by 2^8 to 2^61 bytes (16 sizes).",
    },
    "P20": {
        "harnesses": [{"name": "h_edit", "parts": R(6)}],
        "bounds": "4 layouts (media data before, after, on both sides; 64-bit sizes; neighbours); up to 3 items of any code or freeform identifier with up to 2 values of all 7 types and 0 to 3 symbolic bytes or one character of any width; one "
                  "edit (set, add or remove) of any one of them or of a new one; any two of the layouts for copies; lists in another form: locale, free space, 64-bit sizes, unknown atoms, identifiers behind the value, duplicates.",
    },
    "P21": {
        "harnesses": [{"name": "h_errors", "parts": R(9)}],
        "bounds": "Any version and type code of a value; any version at 6 other places; any other code in place of each of 4 required atoms; any descriptor tag; any malformed byte or lone surrogate at 4 places; 4 kinds of reader errors at any of the first 200 operations; files "
                  "cut off anywhere; both with 32-bit and 64-bit sizes; all 256 codes of the two tables; any impossible size of 8 atoms; 6 reasons to refuse a save.",
    },
    "P22": {
        "harnesses": [{"name": "h_print", "parts": R(10), "opts": {"stub-fmt": 0}}],
        "bounds": "Each of the texts with up to 3 values of up to 3 symbolic characters, alone or among others; up to 2 standard genres of any code below 90 and 2 others; all track and disc numbers below 120 of 12 and at the upper limit; the numbers in 4 "
                  "windows of 256 up to the largest; up to 3 pictures, 9 sizes up to 3 MiB; all channel configurations and sample rates; bit rates below 5000 and near the limit; durations in 10 windows of 256 units from ns to s; all media types and ratings; up to 2 freeform items of up to 2 values "
                  "of all types; all codes; freeform identifiers of up to 3 symbolic characters.",
    },
    "P23": {
        "harnesses": [{"name": "h_path", "parts": R(6)}],
        "bounds": "5 layouts of up to 9.5 KB, 3 tags with symbolic values; handles for reading and writing, reading or writing only, at the start, behind 1 to 9000 other bytes, and at any of the first 256 positions and the last and next 40; two saves and a read through one "
                  "handle in 3 ways; dumps over nothing, 20 and 20000 bytes. Outside: handles in append mode, directories, links.",
    },
    "P24": {
        "harnesses": [{"name": "h_eq", "parts": R(5)}],
        "bounds": "Any two values of all types of up to 3 symbolic bytes or characters; any two identifiers (any code, freeform parts of up to 2 characters); any two images of 2 bytes; tags of up to 2 (the other: 1; thorough: 2) identifiers with up to 2 values of 3 types; "
                  "files which differ in any byte of 9 places; copies changed by each of 12 operations.",
    },
}
