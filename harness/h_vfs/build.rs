fn main() {
    let t = extract::extract("/repo/crates/vfs/src/workspaces.rs", &["strip_path_prefix"], &["Workspace", "Workspaces", "WorkspacesBuilder"]);
    extract::write("strip.rs", format!("use vfs::{{VfsHandler, AbsPath}};\nuse utils::match_case;\npub fn call<'x>(vfs: &dyn VfsHandler, c: bool, path: &'x str, to_strip: &AbsPath) -> Option<&'x str> {{ strip_path_prefix(vfs, c, path, to_strip) }}\n{t}"));
    let t = extract::extract("/repo/crates/vfs/src/tree.rs", &["Invalidations", "InvalidationDetail", "InvalidationsInner"], &["Vfs", "Directory", "Gitignore", "Parent", "FileEntry", "DirectoryEntry"]);
    extract::write("inv.rs", format!("use std::sync::{{RwLock, RwLockReadGuard}};\nuse utils::FastHashSet;\n{t}"));
}
