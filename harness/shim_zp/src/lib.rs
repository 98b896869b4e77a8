//! The items of zuban_python (not buildable offline) that the checked files use, taken from /repo.
include!(concat!(env!("OUT_DIR"), "/props.rs"));
include!(concat!(env!("OUT_DIR"), "/pos.rs"));
