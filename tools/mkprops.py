"""writes properties.jsonl (one source of truth for titles and statements)"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe)}})

BC, CR, HE, CL, FM, TR = ["bmaptools/%s.py" % x for x in
    ("BmapCopy", "BmapCreate", "BmapHelpers", "CLI", "Filemap", "TransRead")]

prop("C01", "Copying with a bmap writes exactly the mapped blocks, with the right bytes",
 "When an image is copied using a block map, every byte written to the destination belongs to a block listed in the map and equals the image byte at the same offset; nothing else in the destination is written, and a regular destination file ends up with exactly the recorded image size. "
 "If the copy reports success for a map whose mapped-block count agrees with its (increasing, disjoint) ranges, every byte of every mapped block that the image supplies has been written. "
 "A consistent image and map are copied successfully, for every block size and every range layout including a partial last block.",
 ["inputs", "configurations"],
 "all images, block sizes >= 1, range lists, batch boundaries, stream ends",
 "The tests copy a handful of random sparse files with the host's block size; batch boundaries, partial last blocks, huge blocks, single-block and many-batch ranges for every size are not reachable by sampling.",
 [BC], [("range iteration", BC + ":_get_block_ranges"), ("batching", BC + ":_get_batches"),
        ("reader", BC + ":_get_data"), ("writer", BC + ":copy")],
 [("blocks_written", "blocks handed to the destination", BC + ":copy"),
  ("_batch_queue", "batches in flight between reader and writer", BC)],
 ["destination seek/write/ftruncate"])

prop("C02", "Copying without a bmap reproduces the whole image",
 "When an image is copied without a block map, every byte the image supplies is written to the destination at the same offset and nothing else is written, whether or not the image size is known beforehand. "
 "On success a regular destination has exactly the image's size, and afterwards the reported image size and block count match the data that was copied. "
 "If a stated image size is larger than what the image supplies by at least one block, the copy reports an error.",
 ["inputs", "configurations"], "all image lengths (known and unknown size), incl. 0, non-multiples of the block and of the batch size",
 "Tests copy a few files; the unknown-size stream path ends at one particular length each time.",
 [BC], [("whole-image range", BC + ":_get_block_ranges"), ("size discovery", BC + ":_set_image_size"), ("writer", BC + ":copy")])

prop("C03", "A successful verified copy implies every range checksum matched",
 "If a copy with verification enabled succeeds for a map whose mapped-block count agrees with its ranges, then for every range carrying a checksum the digest (of the algorithm the map names) of exactly the image bytes of that range equals the recorded checksum; otherwise the copy fails with an error. "
 "A correct checksum never makes the copy fail, ranges without a checksum are copied unverified, and with verification disabled checksums are not enforced.",
 ["inputs", "configurations"], "all range lists, positions of the corrupted range, batchings, checksum types",
 "Tests corrupt at most a fixed spot of one file; a skipped last range, a digest over too few bytes or a comparison done only for some ranges goes unnoticed.",
 [BC], [("hash per range", BC + ":_get_data"), ("checksum attribute", BC + ":_get_block_ranges")])

prop("C04", "A bmap file with a wrong self-checksum is never accepted",
 "Loading a block map of a format that has a file checksum (1.3, 1.4, 2.0 and later) succeeds only if the digest of the whole file, with the recorded checksum value replaced by ASCII zeroes, equals the recorded value; the algorithm is SHA1 for 1.3 and the named one for later formats, and an unknown algorithm is reported as an error. "
 "A correct checksum is always accepted and older formats without checksums are accepted without one; loading never modifies the file.",
 ["inputs", "configurations"], "all map files, format versions and checksum types",
 "Tests cover five fixed broken files and five fixed good ones.",
 [BC], [("format dispatch", BC + ":_parse_bmap"), ("file checksum", BC + ":_verify_bmap_checksum")])

prop("C05", "Unsupported or inconsistent bmap geometry is rejected, good geometry exposed",
 "Opening a map succeeds only if its major version is at most 2, and its block count equals the image size divided by the block size rounded up; an image size given by the caller that differs from the map's is rejected. "
 "These rejections, a map that is not well-formed, and a range whose first block exceeds its last are reported through the module's own error type before the map is acted upon. "
 "After a successful load the reported version, block size, block count, mapped count, image size, mapped size and mapped percentage are those of the map.",
 ["inputs"], "all header values of all format versions",
 "Tests use fixed files with one specific inconsistency each.",
 [BC], [("header checks", BC + ":_parse_bmap"), ("size consistency", BC + ":_set_image_size")])

prop("C06", "No copy failure is silent and the copy never hangs on its reader",
 "If any read from the image, write, seek, resize, flush or synchronisation of the destination fails, or the reader hits any exception (including a checksum mismatch or a bad range), the copy raises an error and never reports success; the same holds if fewer or more blocks than recorded were copied. "
 "The background reader always ends the stream it feeds to the writer, exactly at its end, on every path including failures. "
 "Foreseeable failures of image reads and of writing, resizing, flushing and synchronising the destination surface as the documented error type.",
 ["fault_sequences", "schedules", "inputs"], "every I/O operation failing at every point; every interleaving of reader and writer",
 "No test injects an I/O error; the reader/writer hand-off is exercised only on success.",
 [BC], [("error hand-over", BC + ":_get_data"), ("re-raise", BC + ":copy"), ("count check", BC + ":copy")])

prop("C07", "A synchronised copy is durable when it returns",
 "When a copy with synchronisation requested returns successfully, all data written and the final size change have been flushed and then synchronised to the device (unless the destination is the null device); an explicit synchronisation request after a copy without it gives the same guarantee. "
 "While copying to a block device, no more than the watermark amount plus one batch is written between two synchronisations.",
 ["crash_points", "histories"], "every sequence of batches; every position of the last write, resize, flush and synchronisation",
 "Tests never observe ordering of writes, flushes and fsync calls.",
 [BC], [("flush/sync order", BC + ":copy"), ("sync", BC + ":sync"), ("watermark", BC + ":copy")])

prop("C08", "Extent-based block map is exact",
 "For every extent layout the kernel can report, the mapped ranges produced for a block window are exactly the mapped blocks of that window: in increasing order, within the window, non-overlapping, consecutive extents merged, and the unmapped ranges are exactly their complement. "
 "This holds however many requests the extents need, and the single-block query agrees with it.",
 ["inputs", "histories"], "all extent lists (count, splits over several requests, extents crossing window ends), all windows",
 "Tests build random files of limited size that fit one request.",
 [FM], [("FIEMAP walk", FM + ":_do_get_mapped_ranges"), ("merge", FM + ":get_mapped_ranges"), ("complement", FM + ":get_unmapped_ranges")])

prop("C09", "Seek-based block map is exact, and the method is chosen safely",
 "For every data/hole layout with block-aligned boundaries, the mapped (unmapped) ranges produced by the seek-based method for a block window are exactly its mapped (unmapped) blocks, in increasing order, within the window and non-overlapping, including a partial last block. "
 "A file system with only a stub implementation is detected and refused, the seek-based method is used only when the extent-based one is not supported, and other errors are reported, not treated as lack of support.",
 ["inputs", "fault_sequences"], "all layouts, windows, lseek outcomes",
 "Tests depend on the host file system and random small layouts.",
 [FM], [("SEEK_DATA/SEEK_HOLE walk", FM + ":_get_ranges"), ("probe", FM + ":_probe_seek_hole"), ("selection", FM + ":filemap")])

prop("C10", "A created bmap lists exactly the mapped blocks with correct checksums",
 "The generated map lists every mapped range of the image once, in order, and nothing else; its mapped-block count is the sum of the range lengths, and image size, block size and block count are those of the image. "
 "With checksums enabled every range carries the digest of exactly its bytes (the last one possibly ending at the end of the image), without them none does. "
 "The image file is left unmodified and its read position is restored; an image of size zero is refused with an error.",
 ["inputs"], "all images, block sizes and range lists",
 "Tests compare against generated files of a few sizes.",
 [CR], [("range loop", CR + ":generate"), ("range digest", CR + ":_calculate_chksum")])

prop("C11", "A created bmap is a well-formed, self-consistent, readable document",
 "For every image, the values patched into the generated file after the fact fit the space reserved for them and land on their own fields, so the document stays well-formed and states version 2.0 and the named checksum type. "
 "The file checksum stored in it is the digest of the final file contents with that field zeroed, so that the reader accepts the file and recovers the same geometry and ranges.",
 ["inputs"], "all image sizes, block counts, mapped counts, checksum types",
 "Tests generate small files only; field-width problems depend on magnitudes.",
 [CR, BC], [("header with placeholders", CR + ":_bmap_file_start"), ("back-patching", CR + ":_bmap_file_end")])

prop("C12", "The transparent reader is a faithful forward-only stream",
 "For any sequence of reads, forward seeks and position queries, the transparent reader returns the bytes of the (decompressed) stream at the position it reports, also when the underlying stream cannot seek and returns fewer bytes than asked. "
 "On a stream that cannot seek, a forward seek past the end stops at the end, and a backward seek or an unsupported reference point is refused with an error and consumes nothing; a read without a size returns everything that is left. "
 "The end of the stream is only reported if the process producing it (decompressor, ssh) succeeded; if it failed, reading to the end is an error (a warning status of gzip is none).",
 ["inputs", "histories", "fault_sequences"], "all operation sequences, all short-read patterns, all exit statuses",
 "Tests only copy whole files; short reads depend on pipe timing.",
 [TR], [("fake seek", TR + ":_fake_seek_forward"), ("read/seek/tell", TR + ":TransRead")])

prop("C13", "Compressed images are recognised by name and piped through the right tool",
 "A file name ending in a supported suffix (gz, gzip, bz2, xz, lzo, lz4, zst, zip and the tar variants with their short forms) selects that format: the command line decompresses (or extracts to standard output) that format from the opened file, and nothing else is executed; any other name is read as is. "
 "If the decompressor of the format, or tar for an archive, is not installed an error is raised and no process is started; for a plain compressed file the parallel variant of the decompressor is used when available. "
 "Only for an uncompressed local file is a size reported.",
 ["inputs", "configurations"], "all file names, sets of installed programs, local or remote origin",
 "Tests use the compressors installed on the host and one name per format.",
 [TR], [("suffix dispatch", TR + ":_open_compressed_file"), ("program lookup", HE + ":program_is_available")])

prop("C14", "Data fed to a decompressor is complete, in order, and always terminated",
 "When the source of a compressed image is not a local file, all its bytes are forwarded to the decompressor in order and unmodified until the end of the source, and the decompressor's input is closed afterwards in every case, including read and write errors.",
 ["inputs", "fault_sequences"], "all chunkings, all failure points",
 "No test runs this path at all (needs a URL).",
 [TR], [("feeder thread", TR + ":_read_thread")])

prop("C15", "A bmap is used only after its signature was checked as requested",
 "Unless signature verification is disabled, if a detached signature is given or discovered next to the map, copying proceeds only if every signature found in it is valid; an invalid or bad signature, a verification failure or a missing verification module end the run with a failure before any data is written. "
 "The signature is verified against the map file that is then used; giving a signature together with disabled verification is refused.",
 ["inputs", "configurations", "fault_sequences"], "all option combinations, all verification outcomes, any number of signatures",
 "Tests cover one expired key and a few option combinations.",
 [CL], [("gate", CL + ":verify_bmap_signature"), ("result evaluation", CL + ":report_verification_results")])

prop("C16", "The copy command never writes an image the user did not ask for",
 "Contradictory options (no map together with a map, a signature together with disabled verification, quiet together with debug) end the run with a failure before the destination is opened; without a map the copy only happens if the user explicitly allowed it; a map path equal to the image path is refused; a map that was asked for is always used or the run fails. "
 "When no map is named, the first existing of the image path with .bmap appended, then with successive extensions stripped and .bmap appended, is used. "
 "Checksum verification is on unless disabled, the exit status is nonzero for every failure, and the success message is only printed after the destination was synchronised.",
 ["configurations", "inputs", "fault_sequences"], "all option combinations, all file names, presence patterns of map files, all failures",
 "Tests run a few fixed command lines.",
 [CL], [("option checks", CL + ":copy_command"), ("discovery", CL + ":find_and_open_bmap"), ("opening", CL + ":open_files")])

prop("C17", "Block devices are opened exclusively and must be large enough",
 "A block-device destination is only ever written through a descriptor opened with exclusive access, and if that cannot be obtained the run fails without writing. "
 "If the image size is known and exceeds the capacity of the device, an error is raised before anything is written, and an image that fits is not refused; checking the capacity leaves the write position at the start.",
 ["inputs", "fault_sequences"], "all sizes, all open outcomes",
 "Tests have no block devices.",
 [CL, BC], [("exclusive open", CL + ":open_block_device"), ("capacity", BC + ":BmapBdevCopy")])

prop("C18", "Kernel tuning knobs are restored on every exit",
 "Whenever a copy to a block device changed the device's write-ratio or I/O-scheduler setting, the previous value is written back when the copy ends, whether it succeeded, failed or was interrupted; a setting that already has the wanted value or cannot be read is not written. "
 "Failing to read or change a setting does not make the copy fail, failing to restore one does, and for knobs listing their options the restored value is the selected option.",
 ["fault_sequences", "configurations"], "every failure point of the copy, every access failure of either knob",
 "No test touches these knobs.",
 [BC], [("context manager", BC + ":SysfsChange"), ("use", BC + ":BmapBdevCopy.copy")])

prop("C19", "Progress reporting is sane and cannot affect the copy",
 "While copying, the reported percentage is between 0 and 100, never decreases, and is 100 when the last block was written. "
 "Any problem with the splash-screen pipe is ignored, a path that is not a pipe is refused with a warning, and turning progress reporting on or off does not change what is written.",
 ["inputs", "fault_sequences"], "all mapped counts and write sequences; every failure of the pipe",
 "Tests check one progress run.",
 [BC], [("progress", BC + ":_update_progress"), ("pipe", BC + ":set_psplash_pipe")])

prop("C20", "Maps are only created where the file system reports holes reliably",
 "Creating a map on a file system of type zfs is refused unless the file system's hole-reporting parameter file exists and holds the value 1; on any other recognised file system it is allowed, and if the type cannot be determined an error is raised. "
 "The block size used is the one the file system reports, falling back to the file's preferred block size only if that query fails or reports zero.",
 ["inputs", "configurations", "fault_sequences"], "all outputs of the file-system query, contents of the parameter file, ioctl outcomes",
 "Tests mock a few outputs.",
 [HE, FM], [("type query", HE + ":get_file_system_type"), ("zfs parameter", HE + ":is_zfs_configuration_compatible"), ("block size", HE + ":get_block_size")])

prop("C21", "The standalone writer script writes exactly the mapped blocks",
 "The standalone example script writes, for each range of the map, exactly the bytes of those blocks at the same offset in the output, nothing else, sets an output that can be resized to the recorded size, and has flushed and synchronised the output when it succeeds; it refuses to run with a wrong number of arguments or missing files.",
 ["inputs"], "all images and range lists, single-block and multi-block forms",
 "The script has no tests.",
 ["contrib/bmap_write.py"], [("whole script", "contrib/bmap_write.py")])

prop("C22", "URL access keeps credentials out of the request URL and maps errors",
 "When a user name and password are known for an HTTP(S) image (from the URL or the netrc file) the request URL contains neither, the port is preserved and the credentials are registered for that URL; with no credentials the URL is requested unchanged. "
 "Credentials in the URL take precedence over the netrc file, and connection, timeout, invalid-URL and bad-status errors surface as the module's own error type; a request that timed out once is repeated before giving up.",
 ["inputs", "fault_sequences"], "all URLs, netrc outcomes and open outcomes",
 "No test opens URLs.",
 [TR], [("opening URLs", TR + ":_open_url")])

prop("C23", "Files are closed exactly when owned",
 "Creating a map from or to a file object handed in by the caller leaves that object open, while files the library opened itself from a path are closed when the object goes away; closing a transparent reader closes every stream it opened and ends its child processes.",
 ["histories", "configurations"], "all combinations of paths and file objects, all teardown orders",
 "Tests do not observe descriptors.",
 [CR, FM, TR], [("ownership flags", CR + ":__init__"), ("destructors", FM + ":__del__"), ("teardown", TR + ":__del__")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
