#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here in a readable form)."""
import json, os
G, ST, HA, DS, UT, OB = "src/gxfile.cpp", "src/gdlib/gmsstrm.cpp", "src/gdlib/strhash.hpp", "src/gdlib/gmsdata.hpp", "src/rtl/p3utils.cpp", "src/gdlib/gmsobj.hpp"
P = []


def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


p("P01", "Written records read back exactly, sorted and once each",
  "Whatever records are written to a symbol of a GDX file (set, parameter, variable or equation, in string, raw or mapped mode, in any insertion order the mode allows, compressed or not), reading the closed file back through any record-reading mode delivers exactly those records: each key once, with all its values, in ascending key order. "
  "The record counts announced by the file and by the start of each read equal the number of records delivered, and a symbol read does not disturb any other symbol.",
  ["inputs", "histories", "configurations"], "all small record sets, insertion orders, symbol types, dimensions, write modes, read modes and compression settings",
  "the tests write a few hand-picked symbols; the number of combinations of mode, type, dimension, order and neighbouring symbols is exponential",
  [G, DS, "src/gdlib/datastorage.hpp"], [("record write/read pipeline", "DoWrite/DoRead in src/gxfile.cpp"), ("sorting containers", "src/gdlib/gmsdata.hpp, src/gdlib/datastorage.hpp")])
p("P02", "Record fidelity does not depend on key size, gaps or data volume",
  "Records survive a write and read unchanged at every size: any distance between consecutive keys, any number of unique elements, any dimension up to 20, index ranges that need one, two or four bytes per key, and data whose encoding ends anywhere relative to internal buffer or compression block limits. "
  "Declaring tight key bounds in advance changes nothing about what is read back.",
  ["inputs", "configurations"], "all key distances around the encoding limits, all element counts around the size-class limits, all block alignments, compression on and off",
  "limits are hit at specific key distances, element counts and byte offsets that example data never reaches",
  [G, ST], [("delta encoding of keys", "DoWrite/DoRead in src/gxfile.cpp"), ("element size classes", "GetIntegerSize and friends in src/gxfile.cpp"), ("block buffers", "TBufferedFileStream/TMiBufferedStream in src/gdlib/gmsstrm.cpp")])
p("P03", "The symbol catalogue survives exactly as declared",
  "After any accepted sequence of symbol declarations (sets, parameters, variables, equations, aliases, comments, with or without records), the reopened file lists exactly those symbols in declaration order, with name, dimension, type, subtype, explanatory text, comments, alias target and record count, and finds each of them by name regardless of letter case. "
  "Declarations with an illegal, duplicate or unknown name, illegal dimension, or illegal alias target are refused with an error and leave the catalogue as it was.",
  ["histories", "inputs"], "all declaration sequences over a small alphabet of legal and illegal names, dimensions, types, texts, aliases and comments",
  "tests check a few declarations; interactions between refused declarations, aliases, renames of case and later lookups are unbounded",
  [G], [("declaration", "PrepareSymbolWrite, gdxAddAlias, gdxSymbolAddComment in src/gxfile.cpp"), ("catalogue write/read", "gdxClose, gdxFileInfo/OpenRead in src/gxfile.cpp")])
p("P04", "The unique-element table is a case-insensitive one-to-one mapping",
  "At every moment the table of unique elements maps label to number and number to label one-to-one, treats labels that differ only in letter case or trailing blanks as the same element while keeping the first spelling, and refuses labels that are too long or contain illegal characters without changing the table. "
  "This holds through any sequence of registrations, lookups and renames, at any table size including across internal growth, and the table read from the file equals the one that was written.",
  ["histories", "inputs"], "all short operation sequences over labels with colliding case, blanks, quotes, lengths; all table sizes around growth thresholds",
  "growth thresholds, hash collisions and rename-after-growth combinations are not reached by small examples",
  [G, HA], [("label hashing", "TXStrHashList in src/gdlib/strhash.hpp"), ("label validation", "utils::goodUELString"), ("table I/O", "TUELTable::SaveToStream/LoadFromStream in src/gxfile.cpp")])
p("P05", "User index mapping of elements stays consistent and queryable",
  "Every user index that was registered for an element, explicitly or by automatic numbering, maps back to that element and the element maps to that index, through any order of registrations in writing and reading mode; automatic numbering always hands out one more than the highest index used so far. "
  "A registration that would contradict an earlier one is refused with an error and changes nothing.",
  ["histories"], "all interleavings of explicit, automatic and query operations over a small alphabet of labels and indices, in read and write mode",
  "the mapping is history dependent (sparse indices, growth, mixed explicit and automatic numbering); tests exercise single calls",
  [G], [("user map", "TUELTable::AddUsrNew/AddUsrIndxNew/NewUsrUel in src/gxfile.cpp"), ("integer map growth", "TIntegerMapping in src/gxfile.cpp")])
p("P06", "Duplicate and out-of-order records are reported and never corrupt data",
  "Writing a record with a key that was already written keeps the first record, and the count of rejected records and the list of error records (up to its fixed limit) are exact; raw records out of order or repeated are refused with an error at once. "
  "The records that were accepted before and after are all delivered when the file is read.",
  ["histories", "inputs"], "all short write sequences with repeated and unordered keys in every write mode, including more errors than the list can hold",
  "needs repeated keys in particular positions relative to sorting and the error list limit",
  [G, DS], [("duplicate detection", "DoWrite, gdxDataWriteDone, AddToErrorList in src/gxfile.cpp")])
p("P07", "Domain declarations are enforced on write and preserved in the file",
  "A record whose element is not in the declared one-dimensional domain set is not written and is reported as a domain error, while every record whose elements are in their domains, directly, through an alias or through the universe, is accepted. "
  "The regular or relaxed domain information given for a symbol is returned unchanged, with its kind, by the reopened file, and a declaration naming something that cannot be a domain is refused.",
  ["histories", "inputs", "configurations"], "all assignments of domains (universe, set, subset, alias, relaxed name, illegal) to small symbols and all small record sets, in all write modes",
  "the combination of domain kind, alias chains, write mode and violating record position is exponential",
  [G], [("domain check", "gdxSymbolSetDomain, DoWrite, IsGoodNewSymbol in src/gxfile.cpp"), ("domain info I/O", "gdxClose/OpenRead in src/gxfile.cpp"), ("element bitmap", "TBooleanBitArray in src/gdlib/gmsobj.hpp")])
p("P08", "Mapped and filtered reading delivers exactly the qualifying records",
  "Reading a symbol with a map or filter in any index position (strict, expanding, unmapped, or a registered filter) delivers exactly the records whose elements satisfy every position, translated to user indices and in ascending order of the delivered keys. "
  "The records left out are reported by error records that name every disqualifying element (up to the list's fixed limit), and expanding positions register each newly seen element of a delivered record exactly once.",
  ["inputs", "histories", "configurations"], "all small user maps, filters, per-dimension actions and record sets of dimension 1 to 3",
  "the delivery order switches between a streaming and a sorting strategy depending on the map; tests use monotone maps",
  [G], [("map reading", "PrepareSymbolRead, gdxDataReadMap, DoRead in src/gxfile.cpp"), ("strategy choice", "ResultWillBeSorted in src/gxfile.cpp"), ("filters", "TDFilter, TFilterList")])
p("P09", "All read interfaces agree on the same file",
  "For every symbol of every file, record-by-record raw, string and mapped reading, the callback-based fast reads, filtered and sliced reads, and domain-element collection all describe the same records, and derived queries (label length maxima, set texts, universe and alias contents, counts) agree with them. "
  "Stopping a read early or skipping part of a symbol does not affect what later reads deliver.",
  ["inputs", "programs"], "all pairs and short sequences of read interfaces over a family of small files, with a stop at every record",
  "tests read each file through one interface, and never interrupt one read to start another",
  [G], [("read interfaces", "gdxDataRead*, gdxDataReadSlice*, gdxGetDomainElements, gdxSymbIndxMaxLength in src/gxfile.cpp")])
p("P10", "Special values and all doubles keep their identity",
  "Every double below the acronym range is read back bit-identically (except that negative zero reads as zero), undefined, not available, plus and minus infinity and epsilon are translated between the user's and the file's representation under any user-defined table, and the class of each is reported correctly. "
  "Changing the table affects only the later reads and writes of that object.",
  ["inputs", "configurations"], "all value classes and boundary bit patterns in every value field, all small assignments of user special values",
  "tests use a few ordinary numbers; one-byte value encodings have special cases per bit pattern",
  [G, "src/gdlib/dblutil.cpp"], [("value encoding", "DoWrite/DoRead, TgdxIntlValTyp in src/gxfile.cpp"), ("table handling", "gdxSetSpecialValues, gdxGetSpecialValues, gdxMapValue in src/gxfile.cpp")])
p("P11", "Acronyms keep their identity through writing, reading and remapping",
  "An acronym value written in any record field is read back as the acronym with the same name and text, under the index the reader assigned to that name, whether acronyms were declared before, after or never. "
  "Declaring, naming and remapping acronyms follows the documented result codes, contradictory or out-of-range requests are refused without effect, and counts and listings are exact.",
  ["histories", "inputs"], "all short sequences of acronym declarations, value writes, read-side remappings and queries",
  "acronym maps depend on the order of declarations and first uses; tests use one or two acronyms",
  [G], [("acronym list", "TAcronymList, gdxAcronym* in src/gxfile.cpp"), ("value mapping", "AcronymRemap in src/gxfile.cpp")])
p("P12", "Set element texts stay attached to their elements",
  "The explanatory text given for each set element is the text returned for that element after reading, for any assignment of equal, empty, long or quote-containing texts to elements, in every write and read mode. "
  "Text identifiers are stable, equal texts may share one, user node numbers are kept as set, and asking for an identifier that does not exist is answered as such.",
  ["inputs", "histories"], "all assignments of texts from a small alphabet to the elements of small sets; all short sequences of text queries",
  "the mapping from element to text goes through a shared deduplicated table that tests cover with a couple of entries",
  [G, HA], [("set text table", "gdxAddSetText, gdxGetElemText, gdxSetTextNodeNr, MapSetText in src/gxfile.cpp")])
p("P13", "Calls out of context are refused and harmless",
  "Any API call, in any object state (no file, writing, reading, in the middle of a symbol), either performs its function or reports failure; it never crashes, and a refused call leaves the data already written or read unaffected, so that the session can be completed normally. "
  "In particular a file being written still closes completely after refused calls.",
  ["histories", "programs"], "every API call injected at every point of a complete write session and a complete read session, and every pair of calls on an object without file",
  "the tests call functions in the documented order; the number of (state, call) pairs is large",
  [G], [("mode checks", "CheckMode/MajorCheckMode, fmode in src/gxfile.cpp")], observe_at=["API return values", "the file read back"])
p("P14", "Errors are reported once, first, and in text form",
  "A call that is refused or rejects part of its input while a file is open leaves a non-zero error code; the next query returns the first error not yet asked for and clears it. The error count grows with each reported error and never otherwise, and calls that accept their input never create or erase an error. An open call that fails returns a non-zero code, which the next query repeats, and the object can be used afterwards. "
  "Every error code the library can return has a message text.",
  ["histories", "inputs"], "all short sequences mixing successful calls, calls failing with different errors, and error queries; all error codes",
  "tests query errors immediately after one failing call",
  [G], [("error state", "SetError, gdxGetLastError, gdxErrorCount, gdxErrorStr in src/gxfile.cpp")])
p("P15", "Appending keeps the old content and adds exactly the new",
  "After opening an existing file for appending, adding any symbols and elements and closing, the file holds every earlier symbol with its records, texts, domains, comments and acronyms unchanged, followed by the new ones; existing element numbers do not change. "
  "Repeated append sessions compose.",
  ["histories"], "all small initial files, all short sequences of append sessions adding symbols, elements, acronyms and aliases, compressed or not",
  "append is exercised once in the tests; composition with aliases, domains, acronyms, texts and repeated sessions is not",
  [G], [("append", "gdxOpenAppend, gdxClose in src/gxfile.cpp")])
p("P16", "An interrupted write never yields a file that reads as if it were complete",
  "If the writing process dies at any moment, or any suffix of its file writes never reaches the disk, the file left behind is either refused when opened for reading or, if all of it was written, delivers the full content (or, for a file being appended to, the content before); it never silently delivers partial data and never crashes the reader. "
  "A file that a reader can open without error was closed by its writer.",
  ["crash_points", "histories"], "every prefix of the sequence of low-level file operations of every enumerated session, including writes cut at every byte (an append session that dies before its close may leave the old content)",
  "needs a crash between two specific file operations, tests never crash a writer",
  [G, ST, UT], [("header back-patching order", "gdxClose in src/gxfile.cpp"), ("header/trailer validation", "gdxOpenReadXX in src/gxfile.cpp"), ("flush order", "TBufferedFileStream in src/gdlib/gmsstrm.cpp")])
p("P17", "I/O failures are never silent",
  "If any operating-system file operation during writing fails or is only partially performed, then either the file ends up complete and correct or at least one call up to and including closing reports an error; interrupted or partial transfers alone are completed. "
  "If any read operation fails or returns less than requested, then either the data delivered is correct or an error is reported.",
  ["fault_sequences", "histories"], "every single failure and every short transfer at every file operation of enumerated write and read sessions",
  "tests never make the operating system fail",
  [G, ST, UT], [("result propagation", "TXFileStream::SetLastIOResult, TBufferedFileStream::FlushBuffer in src/gdlib/gmsstrm.cpp"), ("OS calls", "p3FileOpen/Read/Write/SetPointer in src/rtl/p3utils.cpp")])
p("P18", "Damaged files are handled safely",
  "Opening and reading any file, however truncated or corrupted, terminates without crash, memory error or endless loop, and whatever the reader does with it (query the catalogue, read every symbol in every mode) stays inside the object. "
  "A damaged file that cannot be opened leaves the object usable for another file.",
  ["inputs"], "every truncation and every single-byte substitution (all 256 values in thorough mode, boundary values in quick mode) of a family of small files, with all symbols then read",
  "tests contain no damaged files",
  [G, ST], [("header checks", "gdxOpenReadXX in src/gxfile.cpp"), ("record decoding", "DoRead in src/gxfile.cpp"), ("block decoding", "TBufferedFileStream::FillBuffer in src/gdlib/gmsstrm.cpp")])
p("P19", "Objects used at the same time do not influence each other",
  "The result of a session on one object is independent of any other sessions running at the same time in the same process on other objects, whether their calls are interleaved in one thread or run in different threads. "
  "No two objects share mutable data.",
  ["schedules", "programs"], "all interleavings of the API calls of two sessions up to a preemption bound, and all thread interleavings at conflicting memory accesses up to a preemption bound",
  "tests are single threaded and use one object at a time",
  [G, ST, "src/gdlib/utils.cpp"], [("shared buffers", "function-local statics and globals in src/gxfile.cpp, src/gdlib, src/rtl")])
p("P20", "A reused object behaves like a fresh one",
  "Opening another file with an object that has been used before (written, read, failed to open, closed or abandoned in the middle of a symbol) gives the same results as with a new object, and closing or destroying an object releases its file and memory. "
  "Settings documented as persistent are the only state that survives.",
  ["histories"], "all sequences of up to three sessions, complete, failed or abandoned, on one object compared with fresh objects",
  "tests create a new object per case",
  [G], [("state reset", "gdxOpenWrite/gdxOpenRead/gdxClose/gdxResetSpecialValues, InitErrors in src/gxfile.cpp")])
p("P21", "The on-disk format is stable and readable across versions",
  "Files written today decode under the published on-disk layout to the content that was written, and files of that layout produced by other or older writers (either byte order, all supported format versions, any legal choice of element sizes) are read to the same content. "
  "Files with an unknown version or a foreign header are refused.",
  ["inputs", "configurations"], "all small contents encoded and decoded by an independent implementation of the layout, in both byte orders and all supported versions",
  "the tests write and read with the same code, so a symmetric change of the layout is invisible",
  [G, ST], [("layout", "gdxClose, gdxOpenReadXX, DoWrite in src/gxfile.cpp"), ("byte order and block layout", "TMiBufferedStream, TBufferedFileStream in src/gdlib/gmsstrm.cpp")])
p("P22", "Buffered streams behave like a plain byte array",
  "For any sequence of reads, writes, seeks and size queries on the library's file streams, plain or buffered, compressed or not, the bytes read are the bytes last written at that position, positions and sizes are exact, and the file on disk after closing contains exactly that data. "
  "Typed reads and writes (strings, integers, doubles) are inverse to each other.",
  ["histories", "configurations"], "all operation sequences up to a depth over lengths and positions around the buffer limits, for every stream kind",
  "tests use short sequential accesses that never cross a buffer edge after a seek",
  [ST], [("buffered stream", "TBufferedFileStream, TMiBufferedStream, TXFileStream in src/gdlib/gmsstrm.cpp")])
p("P23", "The C interface does exactly what the C++ object does",
  "Every function of the C interface has the effect and result of the corresponding C++ operation with its arguments in the documented order, in the plain, short-string, flat-string and call-by-reference forms and through the dynamic loader, including string outputs that fit their buffers, callbacks with user pointers and index and value vectors. "
  "Objects created, used and freed through the C interface do not interfere with each other.",
  ["programs", "inputs"], "all interface functions, each over all combinations of small argument values, in every session phase",
  "most C functions are never called by the tests",
  ["generated/gdxcclib.cpp", "generated/gdxcc.c", "src/gdxapi.yaml"], [("wrappers", "generated/gdxcclib.cpp")])
p("P24", "gdxdump reports the content of the file",
  "For every file, the dump tool's listing contains every symbol and every non-default record exactly once with element labels correctly quoted and values that parse back to the stored value (to 15 significant digits in the decimal, exactly in the hexadecimal formats), in each of its output formats and with its symbol, domain and value options. "
  "A file or symbol that does not exist is reported with a non-zero exit code.",
  ["inputs", "configurations"], "all small files over a alphabet of labels, values, types and dimensions, times the tool's options",
  "the tool's tests compare a few example files with stored output and are not part of the reliable test suite",
  ["src/tools/gdxdump/gdxdump.cpp", "src/tools/library/common.cpp"], [("formatting", "src/tools/gdxdump/gdxdump.cpp")])
p("P25", "gdxdiff reports a difference exactly when there is one",
  "Comparing two files, the diff tool succeeds with exit code 0 if and only if all compared symbols have the same content within the given tolerances, and otherwise its difference file lists exactly the inserted, deleted and changed records with the values of both sides. "
  "Comparison is symmetric up to exchanging insertions and deletions (for variables and equations of the same subtype), the inputs are not modified, and a refused comparison leaves an old difference file alone.",
  ["inputs", "configurations"], "all pairs of small files over a small alphabet of keys, values and types, times tolerance and selection options",
  "the tool's tests use a few example pairs and are not part of the reliable test suite",
  ["src/tools/gdxdiff/gdxdiff.cpp"], [("comparison", "src/tools/gdxdiff/gdxdiff.cpp")])
p("P26", "gdxmerge combines files without loss or mixing",
  "The merged file contains, for every selected symbol, exactly the records of each input in which the symbol has the dimension, type and subtype of its first occurrence, with values, set texts and acronyms unchanged and prefixed by that input's own file identifier; other occurrences and unreadable inputs are reported and left out (in strict mode: the merge fails). "
  "The inputs are not modified, and apart from which occurrence comes first neither the order of the inputs nor the treatment as big symbols changes the content.",
  ["inputs", "configurations"], "all pairs and triples of small files, times symbol selection options",
  "the tool's tests use one example and are not part of the reliable test suite",
  ["src/tools/gdxmerge/gdxmerge.cpp"], [("merging", "src/tools/gdxmerge/gdxmerge.cpp")])
p("P27", "Text streams return what was written, for every option",
  "A text or binary stream file written with any combination of compression and password, with lines and strings of any length, is read back as exactly the same sequence of characters and lines up to its end. "
  "Opening it with a wrong password, a wrong signature or in the wrong format is refused with a message.",
  ["inputs", "configurations"], "all short sequences of writes with lengths around the buffer limits, times compression, password and signature combinations",
  "tests cover a few strings in one configuration",
  [ST], [("text file I/O", "TBinaryTextFileIO in src/gdlib/gmsstrm.cpp")])
p("P28", "Conversions between numbers, dates and text are exact",
  "Formatting any double gives its correctly rounded 15 significant digits (fixed notation for magnitudes from 1e-4 to below 1e15, exponent notation otherwise) and parsing a number gives the nearest double; decimal, hexadecimal, thousands-separated and spreadsheet-column texts of integers convert exactly over the whole range, and every calendar date and time of day decodes to what was encoded. "
  "Malformed or out-of-range texts of any length are refused, output stays within its buffer and is terminated, and no result depends on earlier conversions.",
  ["inputs", "histories"], "all doubles with every binary and decimal exponent and boundary significands, all short input strings over the number alphabet, integers around all powers of two and ten, every day of the years 1 to 9999 and every second of a day",
  "tests check a handful of values",
  ["src/gdlib/strutilx.cpp", "src/rtl/sysutils_p3.cpp", "src/rtl/p3io.cpp", "src/rtl/dtoaLoc.c"], [("formatting", "gdlib::strutilx::DblToStr*, IntToNiceStr*, ExcelColStr, rtl::sysutils_p3::IntToStr, IntToHex, FloatToStr"), ("parsing", "utils::val, gdlib::strutilx::StrAs*, StrExcelCol, rtl::sysutils_p3::StrToInt*, rtl::p3io::P3_Val_*"), ("dates", "rtl::sysutils_p3::EncodeDate, DecodeDate, EncodeTime, DecodeTime, FileDateToDateTime")])

p("P29", "The tools never report success for incomplete work",
  "When an input of gdxdump, gdxdiff or gdxmerge cannot be read completely, or an output (standard output of gdxdump included) cannot be written completely, the tool says so: gdxdump, gdxdiff and gdxmerge in strict mode end with an exit code that differs from that of the undisturbed run and is not 0, gdxmerge otherwise at least prints an error message. Without such a report the outputs are exactly those of the undisturbed run. "
  "No damage to an input makes a tool crash or run forever.",
  ["inputs", "faults"], "every byte changed or missing in an input, every number of bytes after which a device is full, every failing file operation",
  "tests run the tools on intact files and working devices",
  ["src/tools/gdxdump/gdxdump.cpp", "src/tools/gdxdiff/gdxdiff.cpp", "src/tools/gdxmerge/gdxmerge.cpp"], [("exit codes", "main in src/tools/gdxdump/gdxdump.cpp, gdxdiff/gdxdiff.cpp, gdxmerge/gdxmerge.cpp"), ("read and write errors", "gdxdiff::CheckReadError, CheckGDXError; gdxmerge::SymbolList::AddPGXFile, CollectBigOne")])

p("P30", "Settings that observe or tune never change what a session does",
  "With tracing at any level every call returns, delivers and reports exactly what it does without tracing, and the files are the same byte for byte; so it is when tracing, the bookkeeping of domain sets or pure queries come and go at any point of a session without violations. "
  "The environment variable GDXCOMPRESS decides exactly whether gdxOpenWrite compresses, and compression never changes the content. "
  "Closing a written file starts the converter exactly when AutoConvert is on and GDXCONVERT and GDXCOMPRESS ask for another form than the written one: once, on the complete file, whatever its name, and a converter that fails or is missing makes the close report it.",
  ["inputs", "configurations", "histories"], "every operation and argument combination in every session phase at every trace level, every switching point in a session, every combination of the environment variables, file names and converter results",
  "tests run without tracing, environment variables and converter",
  [G], [("tracing", "TraceLevel in TGXFileObj, CheckMode, MajorCheckMode, ReportError"), ("environment", "GetEnvCompressFlag, ConvertGDXFile, gdxAutoConvert")])

if __name__ == "__main__":
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
