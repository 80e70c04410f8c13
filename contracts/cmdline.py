"""what a decompression command line does, and which one a file name needs"""

# tails of file names: format, archive
FORMATS = {
    ".gz": ("gzip", False), ".gzip": ("gzip", False), ".bz2": ("bzip2", False), ".xz": ("xz", False),
    ".lzo": ("lzo", False), ".lz4": ("lz4", False), ".zst": ("zst", False), ".zip": ("zip", False),
    ".tar.gz": ("gzip", True), ".tgz": ("gzip", True), ".tar.bz2": ("bzip2", True), ".tbz": ("bzip2", True),
    ".tbz2": ("bzip2", True), ".tb2": ("bzip2", True), ".tar.xz": ("xz", True), ".txz": ("xz", True),
    ".tar.lzo": ("lzo", True), ".tzo": ("lzo", True), ".tar.lz4": ("lz4", True), ".tlz4": ("lz4", True),
    ".tar.zst": ("zst", True), ".tzst": ("zst", True)}
TAILS = tuple(FORMATS) + (None,)
# tools of a format: the parallel variant first
TOOLS = {"gzip": ("pigz", "gzip"), "bzip2": ("pbzip2", "bzip2"), "xz": ("xz",), "lzo": ("lzop",), "lz4": ("lz4",),
         "zst": ("zstd",), "zip": ("funzip",)}
FILTER = {"z": "gzip", "gzip": "gzip", "gunzip": "gzip", "ungzip": "gzip", "j": "bzip2", "bzip2": "bzip2", "J": "xz",
          "xz": "xz", "lzop": "lzo", "lzo": "lzo", "zstd": "zst"}
TOOL_FORMAT = {t: f for f, ts in TOOLS.items() for t in ts}


def split_options(args, with_arg):
    """short and long options with their arguments, operands"""
    opts, rest = [], []
    i = 0
    while i < len(args):
        a = args[i]
        i += 1
        if a == "--":
            rest += args[i:]
            break
        if a.startswith("--"):
            n, _, v = a[2:].partition("=")
            opts.append((n, v))
        elif a.startswith("-") and a != "-":
            j = 1
            while j < len(a):
                c = a[j]
                j += 1
                if c in with_arg:
                    v = a[j:]
                    if not v and i < len(args):
                        v = args[i]
                        i += 1
                    opts.append((c, v.lstrip("=")))
                    break
                opts.append((c, ""))
        else:
            rest.append(a)
    return opts, rest


def command_kind(tokens):
    """(format, archive, tool) a command line extracts to its standard output, or a message"""
    tool = tokens[0].split("/")[-1]
    if tool == "tar":
        opts, rest = split_options(tokens[1:], "ICfbH")
        fmt = None
        seen = set()
        for o, v in opts:
            seen.add(o)
            if o in FILTER:
                fmt = FILTER[o]
            elif o in ("I", "use-compress-program"):
                fmt = TOOL_FORMAT.get(v.split()[0] if v else v)
            elif o == "f":
                if v != "-":
                    return "tar reads another file"
            elif o not in ("x", "extract", "get", "O", "to-stdout", "P", "absolute-names", "C", "directory", "file"):
                return "tar option %s" % o
        if rest:
            return "tar extracts only some members"
        if not seen & {"x", "extract", "get"}:
            return "tar does not extract"
        if not seen & {"O", "to-stdout"}:
            return "tar extracts to the file system"
        if fmt is None:
            return "tar is not told the compression"
        return (fmt, True, tool)
    if tool not in TOOL_FORMAT:
        return "unknown tool %s" % tool
    opts, rest = split_options(tokens[1:], "pTM" if tool != "lz4" else "")
    names = {o for o, _ in opts}
    if [r for r in rest if r != "-"]:
        return "%s reads another file" % tool
    if tool != "funzip" and not names & {"d", "decompress", "uncompress", "dc"}:
        return "%s does not decompress" % tool
    if names - {"d", "decompress", "uncompress", "c", "stdout", "to-stdout", "q", "quiet", "p", "T", "threads"}:
        return "%s options %s" % (tool, sorted(names))
    return (TOOL_FORMAT[tool], False, tool)
