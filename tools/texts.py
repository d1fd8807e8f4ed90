"""Property texts. Each entry becomes a line of properties.jsonl and a check in MANIFEST.json."""
J = "bin/dnglab/dnglab-lib/src/jobs/"
L = "bin/dnglab/dnglab-lib/src/"
R = "rawler/src/"


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": list(observe), "hook_needed": None},
            "technique": technique, "note": note}


PATHS = "path-sensitive abstract interpretation of the MIR (all paths of the operation, helpers and closures inlined, loops to a bounded number of rounds)"
NOTE_PATHS = "Every explored path of the operation is decided, including every error exit and every panic exit; library functions of the standard library and of tokio are represented by models; loops are unrolled a bounded number of times with arbitrary elements; destructors are not modelled."

PROPS = [
    P("P01", "An existing file is never overwritten unless the user asked for it",
      "Without the override option, the commands that convert, process, extract or assemble images never change, truncate or delete a file that already existed before the command started; the operation fails or skips that file instead. This also holds when the existing file appears between the check and the write, and on every failure path including clean-up after an error.",
      ["inputs", "configurations", "fault_sequences"], "every path through the convert, process-raw, extract and makedng operations, for every combination of option values and every failing or panicking call on the way",
      "The tests convert sample files into fresh names; none runs against an already existing destination, none injects a failing write.",
      [J + "mod.rs", J + "raw2dng.rs", J + "process_raw.rs", J + "extractraw.rs", L + "makedng.rs", L + "ftpconv.rs"],
      [("create_output opens with create_new unless replace", J + "mod.rs"), ("Raw2DngJob::internal_exec", J + "raw2dng.rs"), ("makedng_internal", L + "makedng.rs")],
      PATHS + ": typestate of each output path (may-exist-before / created-here)", NOTE_PATHS,
      observe=["destination file before and after the command"]),
    P("P02", "The input image is never modified, truncated or deleted",
      "No conversion, processing, extraction or assembly writes to, truncates, renames or deletes its input file, whatever the options (override included) and whatever fails on the way. An output that is the same file as the input is refused before anything is written.",
      ["inputs", "configurations", "fault_sequences"], "all paths of the four output-producing operations and all option values",
      "The tests only read samples from a read-only style tree and never pass the same file as input and output.",
      [J + "mod.rs", J + "raw2dng.rs", J + "process_raw.rs", J + "extractraw.rs", L + "makedng.rs"],
      [("ensure_distinct", J + "mod.rs"), ("callers of create_output", J)],
      PATHS + ": provenance of the path of every mutating file-system call, and dominance by an input/output identity check", NOTE_PATHS,
      observe=["input file before and after the command"]),
    P("P03", "A failed operation leaves no output file behind",
      "Whenever converting, processing, extracting or assembling an image fails after the output file was created - by an error or by a panic of the decoder - the output file created by that operation is removed before the failure is reported. A partially written file is never left under the destination name.",
      ["inputs", "fault_sequences"], "every error and panic exit of the four operations after the creation of the output",
      "No test makes a decoder or a write fail after the output file exists.",
      [J + "raw2dng.rs", J + "process_raw.rs", J + "extractraw.rs", J + "mod.rs", L + "makedng.rs"],
      [("remove_file on the error arms", J + "raw2dng.rs"), ("contain_panic", J + "mod.rs")],
      PATHS + ": typestate of the output (created / removed) at every error exit, with panic edges unwound to the nearest catcher", NOTE_PATHS,
      observe=["destination directory after a failed command"]),
    P("P04", "Reported success means a complete, flushed output file",
      "An operation reports success only after all data was written to the output file and the final flush of buffered data was performed and succeeded, and the output file still exists under the destination name. Errors of writing, flushing or finishing the output are never swallowed.",
      ["inputs", "fault_sequences"], "every success exit of the four operations",
      "The tests never let a write or flush fail (disk full, I/O error).",
      [J + "raw2dng.rs", J + "process_raw.rs", J + "extractraw.rs", L + "makedng.rs"],
      [("into_inner()/flush() results are checked", J + "raw2dng.rs"), ("finish closures", J + "process_raw.rs")],
      PATHS + ": typestate of the buffered writer (dirty / flushed) at every success exit", NOTE_PATHS,
      observe=["destination file after a successful command"]),
    P("P05", "The exit status tells success from failure",
      "The program ends with exit status 0 exactly when the subcommand succeeded, and every kind of error has its own non-zero status. A command that works on several files succeeds only if every file it worked on succeeded, and it does not fail if all of them succeeded. A file whose processing returned an error, panicked or whose worker was lost counts as failed.",
      ["inputs", "fault_sequences"], "every path of the program entry, of each batch command and of each job, with every combination of succeeded and failed files",
      "The tests run single commands that succeed; the exit status of a partly failed batch is never looked at.",
      ["bin/dnglab/src/main.rs", L + "lib.rs", L + "convert.rs", L + "extract.rs", L + "process_raw.rs", J],
      [("Termination of the application result", L + "lib.rs"), ("summaries over job results", L + "convert.rs")],
      PATHS + ": relation between the outcomes of the jobs (abstract collections of succeeded/failed results) and the outcome of the command; extraction of the error-to-status table", NOTE_PATHS,
      observe=["process exit status"]),
    P("P06", "One bad file does not stop the rest of a batch",
      "In the commands that work on several input files, every selected file is attempted even if other files fail with an error or make the decoder panic: after the first file was started the command does not end before all files were tried, and no selected file is skipped silently.",
      ["inputs", "schedules", "fault_sequences"], "every path of the batch commands from the list of jobs to the end, for every outcome of each job",
      "The tests convert single files.",
      [L + "convert.rs", L + "extract.rs", L + "process_raw.rs", J],
      [("job loops with chunks and join_all", L + "convert.rs"), ("contain_panic", J + "mod.rs")],
      PATHS + ": open-loop typestate (no path leaves a batch command inside a loop over jobs), forbidden lossy adaptors between job list and execution, panic containment", NOTE_PATHS + " Errors while the list of files is collected, before any file was started, end the command and are outside the property.",
      observe=["destination directory and messages of a batch with one bad file"]),
    P("P07", "No two conversions of one run share an output file",
      "In one run of convert, two different inputs (or two images of one input) never get the same output file, also if they have the same name in different folders or with different extensions, if one input holds several images, or if a derived name coincides with the plain name of another input. A free name is always found, and names that are already taken are left alone.",
      ["inputs", "configurations"], "all sets of input names, with and without --recursive, --embed and several images per input",
      "A collision needs a particular combination of names within one run; the tests convert single files.",
      [L + "convert.rs"], [("generate_job and the record of claimed outputs", L + "convert.rs"), ("unique candidate names", L + "convert.rs")],
      "element flow between the candidate lists, the lookup in the record of names and the jobs; decision tables (all paths) of the lookup, the recording and the formation of names on the MIR",
      "Collisions are judged on paths as they are written; case-insensitive file systems and links in the destination are outside.",
      observe=["output paths of the conversion jobs"]),
    P("P08", "A file name stored in a file cannot lead outside the destination folder",
      "When extract names its output after a file name that is stored inside the DNG, the output is always directly inside the destination folder (or next to where the mapping puts it): directory parts, absolute paths and parent references in the stored name have no effect. A DNG without a usable stored name gets no output outside either.",
      ["inputs"], "all contents of the stored file name, all input files",
      "Tests use files this program wrote itself, whose stored names are plain; a hostile name has to be crafted.",
      [L + "extract.rs"], [("get_original_name, sanitising of the stored name", L + "extract.rs")],
      "taint analysis on the MIR from the data of the input file to path operations, with the plain-file-name test of the standard library as the only sanitiser",
      "Every path operation in the command is examined. Reserved device names of other operating systems are outside.",
      observe=["files created by extract"]),
    P("P09", "An extracted original is verified before it counts as success",
      "Extracting an embedded original succeeds only if every block was decompressed and written completely and the digest of exactly the written bytes equals the digest stored in the DNG; a missing digest counts as a mismatch. Only --skipchecks turns a mismatch into a warning, and an intact original is never rejected.",
      ["inputs", "configurations"], "all DNG files with an embedded original, intact or damaged, with and without --skipchecks",
      "The tests extract what they embedded a moment before; none feeds a damaged block, a wrong digest or no digest.",
      [R + "dng/original.rs", J + "extractraw.rs"], [("OriginalCompressed::decompress", R + "dng/original.rs"), ("ExtractRawJob::internal_exec", J + "extractraw.rs")],
      "decision table (all paths) of the decompression and of the job over the conditions 'verification demanded', 'digests differ' and 'decompression failed'; value flow of the compared digests, of the blocks and of the option, on the MIR",
      "MD5 and zlib are trusted.",
      observe=["outcome of dnglab extract and the file it leaves"]),
    P("P10", "The embedded original is the complete input file",
      "When the original is embedded, every byte of the input from its beginning to its end is kept once and in order, in blocks of the size the DNG specification demands, and counted into the stored digest; the block index holds exactly the positions where the blocks are written and where they are read back. Data, name and digest are stored under their own tags.",
      ["inputs", "schedules"], "all inputs of any length, all ways a reader may return short, both conversion and makedng",
      "Block boundaries, inputs larger than one block, readers that return short and foreign readers of the index do not occur in the tests, which embed five bytes.",
      [R + "dng/original.rs", R + "dng/convert.rs", R + "dng/writer.rs"],
      [("OriginalCompressed::compress / write_to_stream / new", R + "dng/original.rs"), ("original_file", R + "dng/writer.rs")],
      "decision table of the reading loop, element flow between digest and kept blocks, linear forms of the index offsets, provenance of the embedded stream and of the tag values, on the MIR",
      "zlib is trusted; more than 4 GiB of compressed data is outside.",
      observe=["OriginalRawFileData, OriginalRawFileName, OriginalRawFileDigest of a written DNG"]),
    P("P11", "Every option reaches exactly the setting it documents",
      "The value a user gives to an option of the command line is the value used for the conversion, processing or server setting that this option documents, in every subcommand that accepts it; no setting is taken from another option, inverted, or overwritten afterwards. Settings without an option in a subcommand have a fixed value.",
      ["configurations"], "all combinations of option values of convert, process-raw, extract and ftpserver, every place where parameters or jobs are built or changed",
      "The tests build the parameter structures themselves; none passes options on the command line and observes the settings.",
      [L + "convert.rs", L + "process_raw.rs", L + "extract.rs", L + "ftpconv.rs", L + "app.rs", R + "dng/convert.rs"],
      [("ConvertParams construction", L + "convert.rs"), ("DevelopParams/process params construction", L + "process_raw.rs"), ("FtpCallback construction", L + "ftpconv.rs")],
      "interprocedural value-flow analysis on the MIR from each parameter field back to the option getter and its identifier", "Exhaustive over all construction and assignment sites of parameter and job types in the command line program; fallback values of options with a default are ignored; conversions of the value are accepted if they are the identity or a standard-library conversion.",
      observe=["parameters passed to the conversion"]),
    P("P12", "Conversion options decide the content of the DNG",
      "A converted DNG contains a preview image, a thumbnail in the root directory or the embedded original exactly when the respective option asks for it (an unusable source image may only drop preview and thumbnail); the raw image sits in the root directory exactly when no thumbnail is requested. The raw image is that of the requested index and is written with the requested crop, compression, photometric conversion and predictor, and it is scaled before writing exactly when requested or when its geometry must be rotated. Artist (if given) and software end up in their tags unmodified and are not replaced by values of the source file.",
      ["inputs", "configurations"], "every input file, every combination of conversion parameters, both conversion entry points (file and in-memory source)",
      "The parameter space is a product of ten options and all inputs; tests convert nothing or a single default configuration.",
      [R + "dng/convert.rs", R + "dng/writer.rs"], [("order and conditions of the writing calls", R + "dng/convert.rs")],
      "interprocedural, context-sensitive facts (boolean and Option conditions traced to parameter fields) at every writing call and on every path around it, value flow of call arguments, last-writer analysis for tags, on the MIR",
      "All calling contexts from both entry points. What a parameter does inside the image encoder is P28/P31.",
      observe=["directories and tags of the DNG"]),
    P("P13", "The FTP server never touches a file outside its root directory",
      "Whatever path a client sends in any command, in any working directory, every file or directory the FTP server reads, lists, creates, writes or deletes lies inside the configured root directory, after resolving '..', absolute paths and symbolic links. Converted uploads are written inside the root as well.",
      ["inputs", "histories"], "every command, every argument, every state of the session",
      "The FTP server has no tests of path handling at all.",
      ["embedftp/src/client.rs", L + "ftpconv.rs"],
      [("complete_path / canonicalize + starts_with(root)", "embedftp/src/client.rs"), ("upload callback", L + "ftpconv.rs")],
      PATHS + " per FTP command: taint of client-supplied paths, every file-system call must see a path that passed the containment test on that path", NOTE_PATHS + " A race between the test and the use (another process swapping a directory for a link) is outside the property.",
      observe=["file system calls of the server process"]),
    P("P14", "FTP commands need a completed login",
      "Before a successful login no FTP command has any effect other than logging in, leaving the session or negotiating: no file is read, listed, created, changed or deleted, no data connection is opened and no directory is revealed. A client becomes logged in only by giving the name and the password of one and the same configured user, the name of a configured user without a password, or any password when anonymous access is enabled.",
      ["inputs", "histories"], "every command in every login state",
      "No test talks to the FTP server.",
      ["embedftp/src/client.rs"],
      [("is_logged check in the command dispatcher", "embedftp/src/client.rs"), ("USER/PASS handling", "embedftp/src/client.rs")],
      PATHS + " per FTP command with the login state symbolic", NOTE_PATHS,
      observe=["control connection, file system"]),
    P("P15", "Every FTP command gets exactly one final reply",
      "For every well-formed command that does not end the session, the server sends exactly one final reply (code 2xx or above), preceded by at most preliminary replies, on every path including failures of the file system or of the data connection. No command leaves the client waiting without a reply and none is answered twice.",
      ["inputs", "histories", "fault_sequences"], "every path of every command handler that keeps the connection",
      "No test talks to the FTP server; the failure paths need an injected fault.",
      ["embedftp/src/client.rs"], [("Client::handle_cmd and its helpers", "embedftp/src/client.rs")],
      PATHS + " per FTP command: counting of final replies on each path", NOTE_PATHS,
      observe=["control connection"]),
    P("P16", "FTP data connections are released after every transfer",
      "After a transfer or listing command completes - successfully or not - the server has given up the data connection, so that the client sees the end of data and a later command never reuses a stale connection. A completed or failed transfer therefore never leaves the session with an open data connection.",
      ["inputs", "histories", "fault_sequences"], "every path of the transfer commands",
      "No test talks to the FTP server.",
      ["embedftp/src/client.rs"], [("data_writer/data_reader reset", "embedftp/src/client.rs"), ("close_data_connection", "embedftp/src/client.rs")],
      PATHS + " per transfer command: typestate of the data connection at the final reply", NOTE_PATHS,
      observe=["data connection"]),
    P("P17", "FTP replies are honest about the effect",
      "A positive completion reply is sent only if the requested effect was carried out: a positive reply to a store, delete, directory creation, directory removal, listing or retrieval is never sent when the corresponding file-system or data-connection operation failed or was never attempted. A failed operation is answered with a negative (4xx or 5xx) reply.",
      ["inputs", "histories", "fault_sequences"], "every path of every command handler",
      "No test talks to the FTP server; the failure paths need an injected fault.",
      ["embedftp/src/client.rs"], [("result codes of the handlers", "embedftp/src/client.rs")],
      PATHS + " per FTP command: relation between the outcome of the effect on the path and the class of the final reply", NOTE_PATHS,
      observe=["control connection, file system"]),
    P("P18", "One FTP client cannot take the server down",
      "The server keeps accepting connections after any client misbehaves: a failed accept, an I/O error, a protocol error or a panic while serving one client ends at most that client's session. The accept loop never terminates because of an event caused by a client.",
      ["inputs", "schedules", "fault_sequences"], "every outcome of accept and of serving a client",
      "No test runs the server loop.",
      ["embedftp/src/server.rs"], [("accept loop with one task per client", "embedftp/src/server.rs")],
      PATHS + " of the accept loop: no path leaves the loop or panics on a client-caused result, sessions run in their own task", NOTE_PATHS,
      observe=["server process"]),
    P("P19", "Each FTP verb performs its own operation and nothing else",
      "Each FTP command verb is recognised as the command the FTP standard assigns to it, and handling a command performs only the kind of file-system effect of that command: only delete commands delete, only store commands create or write files, only directory commands create or remove directories, and reading or listing never changes anything.",
      ["inputs"], "every verb and every handler path",
      "No test talks to the FTP server.",
      ["embedftp/src/command.rs", "embedftp/src/client.rs"], [("Command::new verb table", "embedftp/src/command.rs"), ("handle_cmd dispatch", "embedftp/src/client.rs")],
      "extraction of the verb table from the MIR and effect analysis (" + PATHS + ") per command", NOTE_PATHS,
      observe=["file system calls of the server process"]),
    P("P20", "An FTP upload is stored or converted without losing data",
      "When a client uploads a file and receives a positive reply, the data it sent was stored completely: either the file was written and flushed under the requested name, or it was converted to DNG and the converted file was completely written and flushed (and the original was kept as well if keeping originals is enabled). A failed conversion never discards the uploaded data while reporting success.",
      ["inputs", "configurations", "fault_sequences"], "every path of the upload handler and of the conversion callback",
      "No test uploads a file.",
      ["embedftp/src/client.rs", L + "ftpconv.rs"], [("store handler", "embedftp/src/client.rs"), ("FtpCallback::stor_file", L + "ftpconv.rs")],
      PATHS + " of the store handler and of the upload callback: typestate of stored/converted/flushed data at the positive exits", NOTE_PATHS,
      observe=["root directory after an upload"]),
    P("P22", "Reading any file comes to an end",
      "Whatever a file contains, identifying, analysing or decoding it never makes a reader go round forever: lists, blocks, boxes and chains of directories with zero, wrapping or circular lengths and offsets are refused or end the walk. A read which fails, for example at the end of the file, is not repeated at the same place. Nested structures of a file are followed to a limited depth or never to a place which was visited before.",
      ["inputs"], "all byte contents of files, in every format the readers know (TIFF, CIFF, MRW, RAF, BMFF, JPEG, X3F and the decompressors)",
      "The tests read intact files only; a hang needs one special damaged length or link, each reader has its own, and a test that hangs says nothing about the other inputs.",
      [R + "formats/tiff/ifd.rs", R + "formats/tiff/reader.rs", R + "formats/bmff/mod.rs", R + "formats/jfif.rs", R + "formats/ciff/mod.rs", R + "decoders/mrw.rs", R + "decoders/arw.rs", R + "decoders/mos.rs", R + "decompressors/ljpeg/mod.rs"],
      [("directory chain with visited offsets", R + "formats/tiff/reader.rs"), ("recursion of sub directories", R + "formats/tiff/ifd.rs"), ("box headers", R + "formats/bmff/mod.rs"), ("segment loop", R + "formats/jfif.rs"), ("block loop", R + "decoders/mrw.rs")],
      "natural loops and call-graph cycles of the reading code on the MIR: for every way round a loop, what it changes among the terms its exits depend on; lower bound and wrap of steps read from the file; visited-set or depth test on every file-directed way; header comparison of container boxes", "A loop with a way round that changes one of its tests is taken to end, so it is not a termination proof; a panic counts as an end, and long but finite runs are outside. Reading forward is assumed to fail at the end of the input.",
      state=[("visited offsets", "places of directories which were read already", R + "formats/tiff/reader.rs"), ("depth", "nesting level of directories", R + "formats/ciff/mod.rs")], observe=["whether analyze or convert of the file returns"]),
    P("P23", "Bytes are read exactly where asked and where the tags say",
      "A range of the input that is asked for is returned exactly, or an error is returned if any of it lies outside of the input; only the requests for padded or open-ended ranges may differ from that, as they say. Image strips, tiles, previews and embedded data which a directory locates by an offset tag and a size tag are taken from just that pair of the same directory. All strips and tiles are taken, in their order, none is left out and none is paired with the size of another.",
      ["inputs"], "all ranges and all input lengths; all directories with offset and size tags, with any number of strips",
      "The tests read a few intact files with one strip; swapped or skipped pairs, a range that ends beyond the input, or an addition that overflows do not occur in them.",
      [R + "rawsource.rs", R + "formats/tiff/ifd.rs", R + "formats/tiff/reader.rs"],
      [("subview, subview_until_eof, subview_padded", R + "rawsource.rs"), ("strip_data, tile_data", R + "formats/tiff/ifd.rs")],
      "symbolic terms of the slice bounds of the view functions and of the offset and size arguments at every call of a view (cut of the call graph per context): pairing of tag, directory and element index, checked lookup, no filter or shortened iteration", "Offsets which come from vendor structures or which the analysis cannot name are assumed right.",
      observe=["pixel data, previews and metadata of the decoded image"]),
    P("P24", "The same input and options give the same output",
      "Converting, developing, extracting or analysing the same file with the same options twice gives the same tags, the same image data and the same listing. Nothing that is written or printed depends on the order of a hash table, on which thread finishes first, on the current time or on memory that was not initialised.",
      ["inputs", "schedules", "histories"], "every iteration over a hash table, every parallel operation, every reading of a clock and every use of unwritten memory that can reach a written tag, image data or a printed listing",
      "The order of a hash table changes with a random seed per process and thread order with load; a test compares one run with a stored sum and cannot sample seeds or schedules.",
      [R + "dng/writer.rs", R + "dng/convert.rs", R + "dng/original.rs", R + "pixarray.rs", R + "rawimage.rs", R + "decoders/mod.rs", L + "cameras.rs", R + "formats/tiff/mod.rs"],
      [("matrices are written by light source, not in table order", R + "dng/writer.rs"), ("parallel strips and tiles are collected in order", R + "dng/writer.rs"), ("embedded original chunks are compressed in order", R + "dng/original.rs")],
      "nondeterminism taint: hash-order, schedule-order, clock and uninitialised-memory sources over the MIR, with order-insensitive consumers and sorting as sanitisers", "Sources are the iterations over hash tables, the unordered parallel adapters and shared state appended to by threads, the clocks, and set_len without writing. A search in a hash table is assumed to have one match. Differences between machines (byte order, floating point) are not covered.",
      observe=["two runs of one command: output bytes"]),
    P("P25", "No size, offset or pixel dimension is cut off when a file is written",
      "An image of any size, crop or level range and an output of any length is either described by exact numbers in the written file, or writing fails. No position, length or dimension is stored in a field or a variable that is too small for it.",
      ["inputs"], "all image dimensions, areas, level values, payload lengths and output positions",
      "The samples are a few thousand pixels wide and some megabytes long; the fault needs an output above 4 GiB or a side above 65535, for which no test file exists.",
      [R + "dng/writer.rs", R + "dng/original.rs", R + "formats/tiff/writer.rs", R + "imgop/develop.rs", R + "imgop/raw.rs"],
      [("TiffWriter::position converts with a check", R + "formats/tiff/writer.rs"), ("dimensions written as 32 bit values", R + "dng/writer.rs"), ("levels fall back to 32 bit values", R + "dng/writer.rs")],
      "every narrowing integer cast in the code that writes files, with the symbolic term of its operand: bounded by the term, by a dominating comparison, or a checked conversion whose error is followed to the caller", "Lengths converted to 32 bit are bounded by the checked position behind them; header fields of the lossless encoder, repeat patterns, component counts and bit depths are taken as small.",
      observe=["fields of the written DNG or TIFF file"]),
    P("P26", "TIFF values survive being written and read back bit for bit",
      "For each of the twelve TIFF value types, the type code, the size per value, the representation that is written (in the entry itself or elsewhere), and the representation that is read are the ones the TIFF specification defines, in the byte order the file declares. Negative, fractional and neighbouring values are never altered by being stored in the four bytes of a directory entry, and values are looked for in the entry exactly when they fit in it. A value of a given numeric type becomes the TIFF type of that number.",
      ["inputs"], "all twelve value types, every number of values, both byte orders",
      "The tests write a handful of values; negative short, several bytes in one entry, doubles or big-endian files hardly occur in them.",
      [R + "formats/tiff/value.rs", R + "formats/tiff/entry.rs", R + "formats/tiff/reader.rs"],
      [("Value::write, as_embedded, byte_size, value_type", R + "formats/tiff/value.rs"), ("Entry::parse", R + "formats/tiff/entry.rs"), ("EndianReader", R + "formats/tiff/reader.rs")],
      "enumeration of all enum variants with conditional constant propagation and variant-guided reachability on the MIR, compared with the specification table (code, width, primitive, packing shifts, sign/float casts, size lookup, entry/offset decision)",
      "Exhaustive over value types. Assumes a little-endian host; text encoding of ASCII values beyond length and terminator is outside.",
      observe=["bytes of written directories; values read from directories"]),
    P("P27", "Tags have the numbers and value types of the specification",
      "Each TIFF, EXIF, GPS and DNG tag the program knows by name is written and looked up under the number which the specification assigns to that name. Each tag the program writes itself has a value type which the specification allows for that tag.",
      ["programs", "inputs"], "all 567 named tags, in both directions; all call sites that add a tag to a directory, in every calling context",
      "A wrong number is invisible as long as the same program writes and reads it, and readers of other vendors reject or ignore wrong types; tests only use a few tags and compare them with themselves.",
      [R + "tags.rs", R + "dng/writer.rs", R + "formats/tiff/writer.rs", L + "makedng.rs", R + "imgop/develop.rs"],
      [("tag enumerations", R + "tags.rs"), ("tag writes", R + "dng/writer.rs")],
      "comparison of the enum discriminants and of the constant-propagated conversions with a transcription of the specifications; inference of the TIFF type from the monomorphic value type at every tag write, in every calling context",
      "Exhaustive over named tags and write sites; tags copied verbatim from the source keep their type.",
      observe=["tag numbers and types in written directories"]),
    P("P28", "The DNG describes its images as they are",
      "Every tag that describes the raw image (dimensions, active and crop area, CFA pattern, black and white levels, photometric interpretation, compression, bits and samples per pixel, white balance, color matrices with their illuminant, ...) is computed from the image property it names, axis by axis, is written whenever the image has that property, and agrees with the encoding of the sample data. The tags of preview and thumbnail describe the pixels that are stored for them. A successful conversion finalizes every image, links all directories, writes the base identification tags and closes the file.",
      ["inputs", "configurations"], "all raw images (CFA, monochrome, linear; integer and float), all conversion parameters, every path from the conversion entry points to a successful return",
      "Whether a tag matches the image depends on properties (CFA origin against active area, masked areas, float samples, three channel images) that the samples of the tests hardly vary, and no test parses a converted DNG back.",
      [R + "dng/writer.rs", R + "dng/convert.rs"], [("raw_image / write_rawimage", R + "dng/writer.rs"), ("preview, thumbnail, close", R + "dng/writer.rs")],
      "context-sensitive value flow from each tag operand back to image fields (per array element and axis), enum-variant correlation between tags and encoder calls, all-paths (must-write) analysis, on the MIR",
      "Dependencies, axes, variants and path conditions are decided; arithmetic inside shifts, rational conversion and the LJPEG encoder is not.",
      observe=["tags of the DNG directories"]),
    P("P29", "EXIF and GPS metadata survive conversion unchanged",
      "Every EXIF and GPS value the converter understands is read from the standard tag and type it belongs to, and is written to the DNG under the same tag, in the directory that tag belongs to (image root, EXIF or GPS directory). A value which is present in the source is never dropped, replaced by another value or duplicated under a different tag, and no other condition decides whether it is written. Every conversion copies the metadata of the source file.",
      ["inputs"], "every EXIF/GPS field, every subset of fields present in the source, every conversion option",
      "Tests look at a few sample files; a crossed or conditionally dropped pair only shows when a file carries exactly that field with a distinguishing value.",
      [R + "exif.rs", R + "formats/tiff/writer.rs", R + "dng/writer.rs", R + "dng/convert.rs"],
      [("reading of EXIF and GPS directories", R + "exif.rs"), ("writing of EXIF and GPS directories", R + "formats/tiff/writer.rs")],
      "pairing of (tag, type, field) relations extracted from the reading match and the writing calls by value flow and enum guards in the MIR; skip-path search on the control flow graph for every write",
      "Exhaustive over the 77 fields. Trimming of strings and the lens database are outside.",
      observe=["EXIF and GPS directories of the DNG"]),
    P("P30", "Orientation, illuminant and method codes mean what the specification says",
      "The eight orientations, the calibration illuminants and the codes for compression, photometric interpretation, preview colour space, planar configuration, predictor, resolution unit, sample format and DNG version are those of the EXIF, TIFF and DNG specifications. Converting to a code and back, from a name, or to mirror/transpose operations and back never ends up at another value, and unassigned orientation codes are treated as unknown.",
      ["inputs"], "every enumerated value and code, every orientation, every illuminant name",
      "Swapped codes are self-consistent when written and read by the same program and only show with particular orientations or illuminants that the tests do not contain.",
      [R + "decoders/mod.rs", R + "imgop/xyz.rs", R + "formats/tiff/mod.rs", R + "dng/mod.rs"],
      [("Orientation", R + "decoders/mod.rs"), ("Illuminant", R + "imgop/xyz.rs"), ("enumerated TIFF values", R + "formats/tiff/mod.rs")],
      "conditional constant propagation of the conversion functions over every enumerated value on the MIR, and comparison with the specification tables",
      "Exhaustive: the domains are finite.",
      observe=["Orientation, CalibrationIlluminant, Compression, ... tags of written files"]),
    P("P31", "Offsets and sizes in written files point at the data",
      "In every TIFF or DNG file that is written, the strip or tile offsets are exactly the positions at which the blocks were written, in order, and the byte counts are the lengths of those same blocks; every block of the image is written, cut at whole rows or at the declared tile size. Values stored outside their directory entry, directories and the first directory are found at the offsets recorded for them.",
      ["inputs", "configurations"], "all images, strip and tile counts, compressions, and every path through the writers of raw image, preview, thumbnail and developed TIFF",
      "A missing, doubled or shifted entry only shows for particular image shapes (partial last strips, multi-channel data, padding positions); the tests check an empty DNG only.",
      [R + "dng/writer.rs", R + "formats/tiff/writer.rs", R + "imgop/develop.rs"],
      [("dng_put_raw_ljpeg / dng_put_raw_uncompressed", R + "dng/writer.rs"), ("write_data*, DirectoryWriter::build", R + "formats/tiff/writer.rs")],
      "element-wise value flow through collections and iterator adaptors from offset/size tags to writer calls and lengths, once-per-write pairing and loop-completeness on the control flow graph, position-before-data dominance, on the MIR",
      "Block contents (compressor output) are value-level and out of scope.",
      observe=["StripOffsets/TileOffsets and byte counts against file content"]),
    P("P33", "Exactly the matching files of the input folder are processed",
      "When the input of convert, extract or process-raw is a folder, exactly the regular files directly in it with a supported extension are selected, in any letter case, and with --recursive also those in all folders below it; nothing else is selected and nothing is left out. Each selected file is mapped to the same relative position in the destination folder, and an input that is neither a file nor a folder is reported instead of ignored.",
      ["inputs", "configurations"], "all folder trees, extensions and letter cases, with and without --recursive, all kinds of source and destination",
      "Tests never pass a folder.",
      [L + "filemap.rs", L + "convert.rs", L + "extract.rs", L + "process_raw.rs"],
      [("read_filtered_dir, MapMode, FileMap", L + "filemap.rs"), ("extension filters", L + "convert.rs")],
      "decision table (all paths) of the directory scan and of the extension filters over the kind of an entry, the filter result and the recursion option; provenance of mapped paths and of the options, on the MIR",
      "The contents of a folder while it changes are outside.",
      observe=["list of processed files and their outputs"]),
    P("P34", "Cameras and lenses are found and described as their database entries say",
      "Every entry of the camera and lens database can be read, names no camera or lens twice, and has only values the decoders use. Each value reaches the decoder unchanged under its own meaning, for every alias and mode; a lens is chosen only if every property known of the shot agrees with its entry and no other entry fits.",
      ["inputs", "configurations"], "all entries, aliases and modes of the shipped database, all keys of the reader, and all combinations of known lens properties",
      "The tests look up one lens and decode no sample of nearly all 700 cameras; an entry that is shadowed, misspelt or ignored shows only with a file of that camera, and an entry that cannot be read stops every command.",
      ["rawler/data/cameras", "rawler/data/lenses", R + "decoders/camera.rs", R + "decoders/mod.rs", R + "lens.rs"],
      [("Camera::update_from_toml", R + "decoders/camera.rs"), ("RawLoader::new registers make, model, mode", R + "decoders/mod.rs"), ("LensResolver::resolve_internal", R + "lens.rs")],
      "schema and cross-reference check of all database files against the reader found in the MIR; symbolic value terms of every stored field (key to field, element order, no change), of the registration key and of the comparisons of the lens search", "Level ranges and names are checked for form, not against the real cameras: a wrong but well-formed number is not seen. A fixed lens key counts as declared by the lens files. Reader code of a form the terms cannot express is assumed right.",
      state=[("camera table", "maker, model and mode to camera description", R + "decoders/mod.rs"), ("lens table", "list of lens descriptions", R + "lens.rs")],
      observe=["dnglab cameras, dnglab lenses, tags written for a shot"]),
    P("P35", "A failed write never ends as a success",
      "When writing or flushing any part of an output fails, the operation reports a failure. No error of a writing step is dropped, replaced by a default value or only logged on the way from the place where it happens to the caller.",
      ["inputs", "fault_sequences"], "every call that writes, encodes or flushes and every function that passes its result on, for every failing call",
      "A full disk or a failing device cannot be produced by the unit tests, and each of the many writing calls would have to fail once.",
      [R + "dng/writer.rs", R + "dng/convert.rs", R + "dng/original.rs", R + "formats/tiff/writer.rs", J + "raw2dng.rs", J + "process_raw.rs", J + "extractraw.rs", L + "makedng.rs", L + "ftpconv.rs", R + "imgop/develop.rs"],
      [("every writing call is followed by ?", R + "dng/writer.rs"), ("output is flushed before success is reported", J + "raw2dng.rs"), ("tiles are collected into one result", R + "dng/writer.rs")],
      "forward data flow of every Result of a writing call to a propagating or aborting use; path tables for the results that are matched", "Writing calls are those of the standard library, the encoders and every function that reaches one and returns a result. Results handed to a closure are taken to be used by it. Printing to the terminal is excluded.",
      observe=["exit status and job result when a write fails"]),
    P("P36", "Every option is declared, readable and has an effect",
      "Each documented option of each subcommand is declared with its documented value type and default, and each option a subcommand reads is declared for it with the type it is read as, so that reading options never aborts the program. No declared option is silently ignored by the subcommand that accepts it, and each subcommand name runs its own operation.",
      ["configurations"], "every subcommand, every declared option, every read of an option in any function reachable from the subcommand",
      "A missing or mistyped declaration only panics when that very subcommand reads that option; no test runs the command line.",
      [L + "app.rs", L + "lib.rs"], [("command line description", L + "app.rs"), ("dispatch of the subcommands", L + "lib.rs")],
      "extraction of the declared command line from the builder chains in the MIR, matched against every option read in the call graph of each subcommand", "Exhaustive over declarations and reads. Five options which are accepted and ignored on the unchanged tree are known findings.",
      observe=["exit status and effect of each option"]),
    P("P37", "makedng options and inputs end up in their DNG tags",
      "Each tag option of makedng (artist, make, model, unique camera model, colorimetric reference, the three matrices with their illuminants, white balance, linearization table and DNG version) is written under exactly its DNG tag whenever it is given, and its value is not replaced by anything else that is written to the file. The only exceptions are the third matrix, which needs DNG 1.6, the two white balance forms, which exclude each other, and the linearization table, which only applies to RGB images. Each input file feeds exactly the parts of the DNG its mapping names.",
      ["configurations", "inputs"], "every combination of options and mappings, every kind of input file",
      "No test runs makedng; a lost or replaced value needs a particular combination of option and input metadata.",
      [L + "makedng.rs", R + "dng/writer.rs"], [("assembly of the DNG", L + "makedng.rs")],
      "value flow from option reads and input mappings to tag writes; skip-path and last-writer search on the control flow graph through all callees that may write the same tag",
      "Exhaustive over the options. Parsing of option text to numbers is value-level and not decided.",
      observe=["tags of the DNG"]),
    P("P38", "analyze prints exactly the requested data and nothing else",
      "Each output option of analyze (metadata, structure, raw/full/preview/thumbnail checksum or pixels, sRGB) prints data derived only from the decoder query that option names, asked of the given file, in the selected serialisation; a missing thumbnail falls back to the preview, a missing preview to the full image and a missing full image to the developed raw image, and to nothing else. Pixel dumps carry the PGM/PPM header matching their own width, height and component count with big-endian samples. Nothing else, in particular no log message or library output, is written to standard output, and no successful run omits the requested output.",
      ["inputs", "configurations"], "every file, every output option alone, every combination of present and missing embedded images",
      "Tests call a few library functions; which function an option selects, what the fallbacks are and what shares the output stream is not observed by them.",
      ["bin/dnglab/dnglab-lib/src/analyze.rs", R + "analyze.rs", "bin/dnglab/src/main.rs"],
      [("option dispatch and output", "bin/dnglab/dnglab-lib/src/analyze.rs"), ("decoder queries, fallbacks and pixel dump format", R + "analyze.rs")],
      "context-sensitive backward value flow from every write to standard output to decoder queries, option reads and format templates, plus flag-guard and skip-path analysis on the MIR control flow graph",
      "Every stdout sink reachable from the command, in every calling context. The pixel values and md5 are outside.",
      observe=["standard output of dnglab analyze"]),
]

NA = {}
