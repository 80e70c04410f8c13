NA = {}
claim("C08", "filemap.py", "The kernel's FIEMAP contract is assumed.")
claim("C09", "filemap.py", "The kernel's SEEK_DATA/SEEK_HOLE contract is assumed.")
claim("C01", "copy.py", "Reader and writer are verified against a contract of the queue between them (FIFO, lossless: assumed).")
claim("C02", "copy.py", "Reader and writer are verified against a contract of the queue between them (FIFO, lossless: assumed).")
claim("C03", "copy.py and bdev.py", "Digests are an uninterpreted function of algorithm and bytes.")
claim("C04", "parse.py", "Digests are an uninterpreted function of algorithm and file contents; mmap and ElementTree contracts are assumed.")
claim("C05", "parse.py and copy.py", "The XML parser's contract is assumed; block sizes are at least 1.")
claim("C06", "copy.py", "The queue's contract is assumed (FIFO, lossless).")
claim("C07", "copy.py and bdev.py", "Buffering of the destination and the kernel's flush/fsync contract are assumed.")
claim("C17", "bdev.py and cli.py", "The lseek contract of block devices is assumed.")
claim("C18", "bdev.py", "The copy itself enters with its contract: it returns or raises.")
claim("C19", "copy.py and bdev.py", "Floating point is treated as exact.")
claim("C10", "create.py, filemap.py and cli.py", "The block map enters with its contract (C08, C09); digests are an uninterpreted function of algorithm and bytes.")
claim("C11", "create.py", "Text files are modelled by their contents and real positions; what a reader sees is decided by the XML parser of the standard library on the written text with tokens for symbolic values; a one-byte image on a file system with blocks above 512 KiB is left out.")
claim("C12", "trans.py", "Streams (files, pipes, responses, outputs of child processes) enter with the contract of a Python file object; what a decompressor prints is an arbitrary byte string.")
claim("C13", "trans.py", "What tar and the decompressors do with a given command line is a table in contracts/cmdline.py.")
claim("C14", "trans.py", "Another thread may close the reader before any operation of the feeder; close() itself enters with its code.")
claim("C15", "cli.py", "gpg, TransRead, BmapCopy and the file system enter with contracts; argparse is the real one.")
claim("C16", "cli.py", "TransRead, BmapCopy, BmapCreate and gpg enter with contracts; argparse is the real one; option values are not empty and do not begin with a dash.")
claim("C20", "helpers.py", "The formats of df -T and of the module parameter file are assumed.")
claim("C21", "contrib.py", "The XML parser's contract is assumed.")
claim("C22", "trans.py", "urllib (parsing, request, opener) and netrc enter with their contracts.")
claim("C23", "create.py and trans.py", "Reference counting calls the destructor; the closing functions of streams are contracts.")
