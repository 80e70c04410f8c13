#!/usr/bin/env python3
"""Writes known-findings.jsonl (fixed entries suppress nothing; 'known' entries are matched by obligation)."""
import json, os
F = [
 ("C05", "3db4523", "an unsupported bmap version ended in a TypeError (%d with a string) instead of the documented error"),
 ("C06", "f6ab901", "copy() without a map read an attribute that was never set when it reported a block-count error"),
 ("C01", "d1e1a17", "a block larger than the batch size (1 MiB) gave batches of zero blocks: an endless loop"),
 ("C07", "625b1b0", "a block larger than 6 MiB gave a watermark of zero blocks: a division by zero"),
 ("C07", "857e359", "the final size of a file was set before buffered data was flushed, so that the size set was not the final one"),
 ("C05", "ee029f2", "a map with BlocksCount 0 ended in ZeroDivisionError before the geometry was checked"),
 ("C10", "82b8a67", "looking for holes by lseek moved the position of the image, so range checksums were computed over the wrong bytes"),
 ("C20", "dcec8d3", "the type of the file system was bytes and never equal to 'zfs': the zfs configuration was never checked"),
 ("C12", "90cae46", "read() without a size raised OverflowError"),
 ("C12", "d0ebd69", "tell() raised on pipes and URLs until the first seek"),
 ("C22", "31bd482", "a malformed netrc file ended in a NameError (misspelled module name)"),
 ("C22", "6d62a55", "a missing sshpass was not noticed (ssh was looked up instead) and ended in FileNotFoundError"),
 ("C23", "383d89b", "an URL was opened a second time after a successful open, the first stream was never closed"),
 ("C22", "ffb1e58", "the request URL of an IPv6 host with credentials lost the brackets of the address"),
 ("C05", "92c0744", "on the command line a malformed map ended in a TypeError (file object not iterable) instead of the error message"),
 ("C16", "8f84342", "the exit status was 0 after running out of memory"),
 ("C12", "0f513ee", "a decompressor that fails on a truncated or damaged image was silent: the stream just ended, and without a map the copy reported success"),
 ("C22", "4f05594", "a URL without a host, with a bad port or a malformed IPv6 address ended in a TypeError or ValueError"),
 ("C22", "0f1e19b", "an answer with an unknown HTTP version ended in http.client.UnknownProtocol"),
]
K = []
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.jsonl"), "w") as f:
    for p, c, w in F:
        f.write(json.dumps({"property": p, "status": "fixed", "commit": c, "what": w,
                            "record": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
    for k in K:
        f.write(json.dumps(dict(k, status="known")) + "\n")
