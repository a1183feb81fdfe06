"""What decides each property: verification units, assumptions that are not
visible as trusted declarations in the verified files."""

COMMON = [
    "Verus 0.2026.09.13 and its Z3 are sound; rustc compiles the code as written",
    "the extractor's rewrites keep the meaning of the extracted functions (listed in DESIGN.md, counted in extraction_rewrites)",
    "usize is 64 bit; memory allocation succeeds",
    "termination is not proved (exec_allows_no_decreases_clause)",
]
ENC = [
    "an encoder's output depends only on what was written to it, decodes to exactly that, and is never longer than the format limit (ax_enc_*)",
    "a decoder given a cut or corrupt stream never reports its end",
]
HDR = [
    "httparse reads back the header lines it is given when values have no blanks at their ends (ax_hp_round)",
    "http::HeaderMap keeps entries grouped by name, in order of insertion within a name, at most HM_MAX names",
]
ATOM = ["a single write of a record head within a file is all or nothing (ax_file_atomic)"]
IO = ["end of file of a source is permanent and a failed read or write consumes nothing"]

FUT = [
    "Pin is erased; the closure given to a permit's run, or to dispatch_rx, is evaluated where it is given; what it returns is what polling hands over",
    "a pending poll of a permit or dispatch future arranges the wake-up; its first polls may be ready or pending",
    "a buffer's slice view is its unread window (ax_input_buf)",
]


def p(units, assumptions=(), **kw):
    d = {"units": units, "assumptions": COMMON + list(assumptions)}
    d.update(kw)
    return d


PROPS = {
    "C01": p(["body"], IO),
    "C02": p(["body"], IO + ["a source delivers fewer than 2^63 bytes"]),
    "C03": p(["body", "fsink"], IO + ["a source delivers fewer than 2^63 bytes"]),
    "C04": p(["body"], IO + ["files behind images are not modified while images exist"]),
    "C05": p(["barc"], IO),
    "C06": p(["barc", "body"], IO + HDR),
    "C07": p(["barc", "body"], IO + HDR + ENC),
    "C08": p(["barc"], IO + ENC + ATOM),
    "C09": p(["barc"], IO + HDR + ENC),
    "C10": p(["barc", "body"], IO + ENC),
    "C11": p(["barc"], ["the mime crate splits a content type into type, subtype and suffix (mime_parse), and its name constants are the texts of the same name", "halving a length below 2^53 in f64 is exact (f64_len)"]),
    "C12": p(["dialog"], ["text forms of methods, URIs and status codes read back as what they were written from (ax_method, ax_uri, ax_status)", "http::HeaderMap keeps entries grouped by name, in order of insertion within a name, at most HM_MAX names"]),
    "C13": p(["fsink", "fbuf", "body"], IO + FUT),
    "C14": p(["fbuf", "fsink", "fstream"], FUT),
    "C15": p(["fstream", "fbuf", "body"], IO + FUT + ["Cleaver and YieldStream of blocking-permit only split, and delay, the items of the stream inside"]),
    "C16": p(["fbuf"]),
    "C17": p(["fdecode", "dialog"], ENC + [
        "hyperx splits the header values into the words declared (hy_parse); bodies to decode are shorter than 2^48 bytes"]),
    "C18": p(["body", "fbuf"]),
    "C19": p(["cli", "barc"], [
        "clap keeps the options declared in setup_cli (exclusive ones apart, required ones present); the declarations themselves are only searched",
        "barc's functions behave as their contracts in unit barc say; different file names are different files"], barc=True),
    "C20": p(["frec"], [
        "StreamWrapper::new makes a stream of the image given (discharged for the wrappers in unit fstream); http's request builder keeps the head built; clones equal originals"]),
}

NOT_APPLICABLE = {
    "C21": "Only compiled with the hyper-http feature, which is not part of this build (its dependencies are not available offline), and it needs a network peer; timing against a peer is not a statement about a function's pre- and postcondition.",
}
