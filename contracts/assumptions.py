"""what stays unchecked, per property (goes into the evidence)"""
from .common import ASSUMPTIONS

QUEUE = "queue.Queue hands the batches over in order and without loss, put() blocks while it is full, get() while it is empty"
FILE = "contract of the image object: read(n) returns n bytes, fewer only at the end of the image; it fails with an exception or succeeds"
HASH = "a digest is an uninterpreted function of algorithm and bytes fed (no collision is assumed away, none is exploited)"
XML = "ElementTree: parse() fails with ParseError or yields the elements, texts and attributes of the document"
KBD = "data handed to a buffered writer reaches the kernel at flush() or earlier; fsync makes everything the kernel has, and the size, durable"
TABLE = {
    "C01": [QUEUE, FILE, XML, HASH, "block size >= 1"],
    "C02": [QUEUE, FILE, "the image is shorter than 2^63 bytes"],
    "C03": [QUEUE, FILE, XML, HASH, "the algorithm is no extendable-output function (shake_*)"],
    "C04": ["mmap with ACCESS_COPY gives the bytes of the file and keeps changes private", HASH, XML,
            "the algorithm is no extendable-output function (shake_*)"],
    "C05": [XML, "all tags of the format are present and hold integers; block size >= 1",
            "percentages are real numbers (floating point is treated as exact)"],
    "C06": [QUEUE, FILE, "an operation of the destination fails with an OSError or succeeds",
            "partial correctness: that loops end is not proved, the concrete harness reports a hang"],
    "C07": [KBD, QUEUE, "seek() and write() of the destination may leave everything in the user-level buffer (the worst case)"],
    "C08": ["FIEMAP reports the extents intersecting the request in order, at most as many as fit the buffer",
            "extents are block aligned"],
    "C09": ["SEEK_DATA/SEEK_HOLE return the next data or hole at or after the offset, the end of the file being a hole",
            "boundaries of data and holes are block aligned (except the end of the file)",
            "the image does not change while it is mapped"],
    "C10": ["get_mapped_ranges() has the contract proved in C08 and C09", HASH, "the image does not change while it is mapped",
            "block sizes from 1 to 2^31, image sizes below 2^63 - 2^32"],
    "C11": ["what a reader sees is what xml.etree of the standard library parses from the written text, symbolic values being tokens",
            HASH, "human-readable sizes are at most as long as the model of human_size says (below 1 PiB)"],
    "C12": ["streams are Python file objects: read(n) of a raw stream may return fewer bytes, an empty result means the end",
            "the exit status of a child process is what wait() returns"],
    "C13": ["tar and the decompressors do what the table in contracts/cmdline.py says for their command lines",
            "sh -c splits these fixed command lines at blanks"],
    "C14": ["write() of the child's standard input takes all bytes or raises", "another thread may set the end flag between any two operations"],
    "C15": ["gpg.Context.verify() raises BadSignatures or GPGMEError, or returns the signatures with their summary bits",
            "TransRead has the contract of C12 and C22: any construction fails with its error or gives a stream",
            "a path is opened to the same file twice in a row (no race with another process on local files)"],
    "C16": ["argparse is executed itself, with placeholders for arbitrary non-empty texts that do not begin with a dash",
            "BmapCopy, BmapCreate and TransRead enter with their contracts: any operation fails with any of their errors or succeeds",
            "the interpreter exits with status 1 on an uncaught exception and with the code of SystemExit"],
    "C17": ["lseek(SEEK_END) of a block device gives its capacity", "O_EXCL on a block device gives exclusive access or fails"],
    "C18": ["reading a sysfs file gives its text or an OSError, writing sets it or raises an OSError"],
    "C19": ["floating point is treated as exact: int(x/y*100) is the floor of 100x/y", "the progress file accepts texts"],
    "C20": ["df -T prints a header line and a line 'name type ...' or fails", "the parameter file holds one line"],
    "C21": [XML, FILE, KBD],
    "C22": ["urllib.parse is executed on symbolic texts by contract: scheme, user, password, host, port and path of the URL",
            "netrc yields the entry of the host, the default entry or none, or raises NetrcParseError/FileNotFoundError",
            "opener.open() returns a response or raises any of the documented exceptions"],
    "C23": ["CPython calls the destructor when the last reference goes away", "close() of a stream closes it even if it raises"],
}
for _k, _v in TABLE.items():
    ASSUMPTIONS.setdefault(_k, []).extend(_v)
