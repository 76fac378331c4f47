//! File system operations: as in std, with a scheduling point before each.

use crate::mc::point;
use std::io;
use std::path::{Path, PathBuf};

macro_rules! forward {
    ($($name:ident($($arg:ident: $t:ty),*) -> $r:ty;)*) => {$(
        pub async fn $name($($arg: $t),*) -> io::Result<$r> {
            point("fs");
            std::fs::$name($($arg),*)
        }
    )*};
}
forward! {
    remove_file(p: impl AsRef<Path>) -> ();
    create_dir(p: impl AsRef<Path>) -> ();
    create_dir_all(p: impl AsRef<Path>) -> ();
    remove_dir(p: impl AsRef<Path>) -> ();
    remove_dir_all(p: impl AsRef<Path>) -> ();
    rename(p: impl AsRef<Path>, q: impl AsRef<Path>) -> ();
    metadata(p: impl AsRef<Path>) -> std::fs::Metadata;
    symlink_metadata(p: impl AsRef<Path>) -> std::fs::Metadata;
    set_permissions(p: impl AsRef<Path>, perm: std::fs::Permissions) -> ();
    canonicalize(p: impl AsRef<Path>) -> PathBuf;
    read_link(p: impl AsRef<Path>) -> PathBuf;
    read(p: impl AsRef<Path>) -> Vec<u8>;
    read_to_string(p: impl AsRef<Path>) -> String;
    write(p: impl AsRef<Path>, c: impl AsRef<[u8]>) -> ();
}
pub async fn try_exists(p: impl AsRef<Path>) -> io::Result<bool> {
    point("fs");
    p.as_ref().try_exists()
}
