"""Path stand-ins shared by the units."""

PATHS = {
    "std::io::Error": "IoError",
    "std::io::ErrorKind": "ErrorKind",
    "std::io::Read": "Read",
    "std::io::Write": "Write",
    "std::io::Seek": "Seek",
    "std::io::SeekFrom": "SeekFrom",
    "std::io::Cursor": "Cursor",
    "std::io::copy": "io_copy",
    "std::fs::File": "File",
    "std::path::Path": "Path",
    "std::sync::Arc": "Arc",
    "std::mem::replace": "std::mem::replace",
    "std::mem::take": "std::mem::take",
    "std::mem::swap": "std::mem::swap",
    "std::ops::Deref": "Deref",
    "std::env::temp_dir": "env_temp_dir",
    "bytes::Bytes": "Bytes",
    "bytes::BytesMut": "BytesMut",
    "tempfile::tempfile_in": "tempfile_in",
    "olio::fs::rc::ReadSlice": "ReadSlice",
    "olio::io::GatheringReader": "GatheringReader",
    "olio::mem::MemAdvice": "MemAdvice",
    "olio::mem::MemAdviseError": "MemAdviseError",
    "olio::mem::MemHandle": "MemHandle",
    "memmap::Mmap": "Mmap",
    "memmap::MmapOptions": "MmapOptions",
    "Into": "VpInto",
    "AsRef": "VpAsRef",
    "drop": "vp_drop",
    "std::cmp::min": "vp_min",
    "std::cmp::max": "vp_max",
}

EXTERN_ROOTS = ["std", "core", "alloc", "bytes", "http", "olio", "memmap", "tempfile",
                "httparse", "flate2", "brotli", "mime", "hyperx", "futures_core",
                "futures_sink", "blocking_permit", "pin_project", "http_body", "clap",
                "hyper", "tokio"]

METHODS = {"into": "vp_into", "iter": "vp_iter", "into_iter": "vp_into_iter",
           "unwrap": "vp_unwrap", "to_vec": "vp_to_vec", "min": "vp_lesser", "max": "vp_greater"}
