#![allow(warnings)]
// C12: invalidation sets (crates/vfs/src/tree.rs) and their propagation (crates/vfs/src/vfs.rs)
use vstd::prelude::*;
verus! {
global size_of usize == 8;
fn vx_log() { }
fn vx_assert(b: bool) requires b { }
#[verifier::external_body]
fn vx_unreachable<T>() -> (r: T) requires false { unreachable!() }

// ---- std and the collections
/// FastHashSet (a HashSet with a fast hasher), as a finite set.
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
struct FastHashSet<K> { x: K }
impl<K> View for FastHashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> FastHashSet<K> {
    #[verifier::external_body]
    fn vx_empty() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body]
    fn extend(&mut self, o: FastHashSet<K>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
/// Iterating a set: every element once, in no particular order.
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
struct VxSetIter<K> { x: K }
impl<K> View for VxSetIter<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
#[verifier::external_body]
proof fn set_iter_finite<K>(s: VxSetIter<K>) ensures s@.finite() { }
impl<K> VxSetIter<K> {
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<K>)
        ensures r is None ==> old(self)@ == Set::<K>::empty() && final(self)@ == old(self)@,
            r is Some ==> old(self)@.contains(r->0) && final(self)@ == old(self)@.remove(r->0),
            old(self)@.finite(), final(self)@.finite(),
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_set_into_iter(s: FastHashSet<FileIndex>) -> (r: VxSetIter<FileIndex>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
struct VxRefIter<'a, K> { x: &'a K }
impl<'a, K> View for VxRefIter<'a, K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<'a, K> VxRefIter<'a, K> {
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<&'a K>)
        ensures r is None ==> old(self)@ == Set::<K>::empty() && final(self)@ == old(self)@,
            r is Some ==> old(self)@.contains(*r->0) && final(self)@ == old(self)@.remove(*r->0),
            old(self)@.finite(), final(self)@.finite(),
    { unimplemented!() }
}
trait VxIter: Sized {
    type Out;
    spec fn gives(self, o: Self::Out) -> bool;
    fn go(self) -> (r: Self::Out) ensures self.gives(r);
}
impl<K> VxIter for VxSetIter<K> {
    type Out = VxSetIter<K>;
    spec fn gives(self, o: Self::Out) -> bool { o == self }
    fn go(self) -> (r: Self::Out) { self }
}
impl<'a, K> VxIter for &'a FastHashSet<K> {
    type Out = VxRefIter<'a, K>;
    spec fn gives(self, o: Self::Out) -> bool { o@ == self@ }
    #[verifier::external_body]
    fn go(self) -> (r: Self::Out) { unimplemented!() }
}
fn vx_into_iter<I: VxIter>(x: I) -> (r: I::Out) ensures x.gives(r) { x.go() }
#[verifier::external_body]
fn vx_replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }
/// std::mem::take: what is there, leaving the default.
fn vx_take(x: &mut InvalidationsInner) -> (r: InvalidationsInner)
    ensures r == *old(x), dep(*final(x)) == Some(Set::<FileIndex>::empty()),
{ let d = InvalidationDetail::vx_default(); vx_replace(x, d) }

// ---- tree.rs: what a lock protects is used in place of the lock
//@file crates/vfs/src/tree.rs
//@struct FileIndex #[derive(Clone, Copy)]
//@enum InvalidationDetail
//@type InvalidationsInner
struct Invalidations(InvalidationsInner);
/// The files that are invalidated, None is everything.
spec fn dep(d: InvalidationsInner) -> Option<Set<FileIndex>> { match d { InvalidationDetail::InvalidatesDb => None, InvalidationDetail::Some(s) => Some(s@) } }
impl Invalidations { spec fn v(&self) -> Option<Set<FileIndex>> { dep(self.0) } }

//@rw *self.0.write().unwrap() ==> self.0
//@rw *self.0.read().unwrap() ==> self.0
//@rw self.0.read().unwrap() ==> self.0
//@rw self.0.get_mut().unwrap() ==> &mut self.0
//@rw $x.0.into_inner().unwrap() ==> $x.0
//@rw RwLock::new($x) ==> $x
//@rw std::mem::take(&mut self.0) ==> vx_take(&mut self.0)
//@rw std::mem::take(&mut self.0.write().unwrap()) ==> vx_take(&mut self.0)
impl InvalidationDetail<FastHashSet<FileIndex>> {
//@fn InvalidationDetail:Default::default
//@sig fn vx_default() -> (r: InvalidationDetail<FastHashSet<FileIndex>>)
//@rw Default::default() ==> FastHashSet::vx_empty()
    ensures dep(r) == Some(Set::<FileIndex>::empty()),
//@end
    fn clone(&self) -> (r: Self) ensures dep(r) == dep(*self) { match self { InvalidationDetail::InvalidatesDb => InvalidationDetail::InvalidatesDb, InvalidationDetail::Some(s) => InvalidationDetail::Some(s.clone()) } }
}
impl<T> InvalidationDetail<T> {
//@fn InvalidationDetail::map ret=r
    requires self is Some ==> f.requires((self->Some_0,)),
    ensures self is InvalidatesDb ==> r is InvalidatesDb, self is Some ==> r is Some && f.ensures((self->Some_0,), r->Some_0),
//@end
}
impl Invalidations {
//@fn Invalidations::set_invalidates_db
//@sig fn set_invalidates_db(&mut self)
    ensures final(self).v() is None,
//@end
//@fn Invalidations::invalidates_db ret=r
    ensures r == (self.v() is None),
//@end
//@fn Invalidations::add
//@sig fn add(&mut self, element: FileIndex)
    ensures final(self).v() == (match old(self).v() { None => None, Some(s) => Some(s.insert(element)) }),
//@end
//@fn Invalidations::extend
    ensures final(self).v() == (match (old(self).v(), other.v()) { (Some(a), Some(b)) => Some(a.union(b)), _ => None }),
//@end
//@fn Invalidations::take
//@sig fn take(&mut self) -> (r: Self)
    ensures r.v() == old(self).v(), final(self).v() == (match old(self).v() { None => None, Some(s) => Some(Set::<FileIndex>::empty()) }),
//@end
//@fn Invalidations::borrow
//@sig fn borrow(&self) -> (r: &InvalidationsInner)
//@rw self.0.read().unwrap() ==> &self.0
    ensures *r == self.0,
//@end
//@fn Invalidations::into_iter
//@sig fn into_iter(self) -> (r: InvalidationDetail<VxSetIter<FileIndex>>)
//@rw |invs| invs.into_iter() ==> vx_set_into_iter
    ensures self.v() is None ==> r is InvalidatesDb, self.v() is Some ==> r is Some && (r->Some_0)@ == self.v()->0,
//@end
//@fn Invalidations::is_empty ret=r
    ensures r == (self.v() == Some(Set::<FileIndex>::empty())),
//@end
//@fn Invalidations:Clone::clone
//@sig fn clone(&self) -> (r: Self)
    ensures r.v() == self.v(),
//@end
}

// ---- vfs.rs. What is shared behind Arc<FileEntry> is one explicit heap of entries, a file state holds an index into it
// (sub files share the entry of their file). OnceLock<F> is read as Option<F>, InsertOnlyVec as Vec, paths are opaque.
#[verifier::external_body]
struct PathWithScheme { x: u8 }
impl PathWithScheme {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[derive(Clone, Copy)]
struct EntryRef(usize);
struct FileEntry { invalidations: Invalidations, file_index: Option<FileIndex> }
#[verifier::external_body]
struct DirRef { x: u8 }
/// Arc<str>
#[verifier::external_body]
struct VxName { x: u8 }
impl View for VxName { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxName {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
trait VfsFile: Sized {
    /// References to the file (or, for None, everything that may refer to others) were dropped.
    spec fn told(&self, i: Option<FileIndex>) -> bool;
    fn invalidate_references_to(&mut self, i: Option<FileIndex>) ensures final(self).told(i);
    spec fn text(&self) -> Seq<char>;
    fn code(&self) -> (r: &str) ensures r@ == self.text();
}
#[verifier::external_body]
struct VxPairIter<'a> { x: &'a u8 }
impl<'a> View for VxPairIter<'a> { type V = Map<PathWithScheme, InMemoryKind>; uninterp spec fn view(&self) -> Map<PathWithScheme, InMemoryKind>; }
impl<'a> VxPairIter<'a> {
    #[verifier::external_body]
    fn vx_next(&mut self) -> (r: Option<(&'a PathWithScheme, &'a InMemoryKind)>)
        ensures r is None ==> old(self)@.dom() == Set::<PathWithScheme>::empty() && final(self)@ == old(self)@,
            r is Some ==> old(self)@.dom().contains(*(r->0).0) && old(self)@[*(r->0).0] == *(r->0).1 && final(self)@ == old(self)@.remove(*(r->0).0),
            old(self)@.dom().finite(), final(self)@.dom().finite(),
    { unimplemented!() }
}
impl<'a> VxIter for VxPairIter<'a> {
    type Out = VxPairIter<'a>;
    spec fn gives(self, o: Self::Out) -> bool { o == self }
    fn go(self) -> (r: Self::Out) { self }
}
/// In memory files, and the hook that tells the editor to ask for diagnostics again.
#[verifier::external_body]
struct VxMem { x: u8 }
impl VxMem {
    uninterp spec fn m(&self) -> Map<PathWithScheme, InMemoryKind>;
    spec fn view(&self) -> Set<PathWithScheme> { self.m().dom() }
    #[verifier::external_body]
    fn contains_key(&self, p: &PathWithScheme) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, p: &PathWithScheme) -> (r: Option<&InMemoryKind>) ensures r is Some <==> self.m().contains_key(*p), r is Some ==> *r->0 == self.m()[*p] { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, p: PathWithScheme, k: InMemoryKind) -> (r: Option<InMemoryKind>) ensures final(self).m() == old(self).m().insert(p, k) { unimplemented!() }
    #[verifier::external_body]
    fn iter(&self) -> (r: VxPairIter<'_>) ensures r@ == self.m() { unimplemented!() }
    #[verifier::external_body]
    fn keys(&self) -> (r: VxRefIter<'_, PathWithScheme>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, p: &PathWithScheme) -> (r: Option<InMemoryKind>)
        ensures r is Some <==> old(self).m().contains_key(*p), r is Some ==> r->0 == old(self).m()[*p], final(self).m() == old(self).m().remove(*p)
    { unimplemented!() }
}
#[verifier::external_body]
struct GitignoreRef { x: u8 }
impl<'a, K> VxIter for VxRefIter<'a, K> {
    type Out = VxRefIter<'a, K>;
    spec fn gives(self, o: Self::Out) -> bool { o == self }
    fn go(self) -> (r: Self::Out) { self }
}
/// What reading a path gives (the file system does not change during a call)
uninterp spec fn disk(p: PathWithScheme) -> Option<Seq<char>>;
#[verifier::external_body]
struct VxHandler { x: u8 }
impl View for VxHandler { type V = Set<PathWithScheme>; uninterp spec fn view(&self) -> Set<PathWithScheme>; }
impl VxHandler {
    #[verifier::external_body]
    fn read_and_watch_file(&self, p: &PathWithScheme) -> (r: Option<String>) ensures r is Some <==> disk(*p) is Some, r is Some ==> r->0@ == disk(*p)->0 { unimplemented!() }
    #[verifier::external_body]
    fn on_invalidated_in_memory_file(&mut self, p: PathWithScheme) ensures final(self)@ == old(self)@.insert(p) { unimplemented!() }
}
/// OnceLock: set keeps what is there, get and take as for Option.
struct OnceLock<T>(Option<T>);
impl<T> OnceLock<T> {
    fn get(&self) -> (r: Option<&T>) ensures r is Some <==> self.0 is Some, r is Some ==> *r->0 == self.0->0 { match &self.0 { Some(x) => Some(x), None => None } }
    #[verifier::external_body]
    fn get_mut(&mut self) -> (r: Option<&mut T>)
        ensures r is Some <==> old(self).0 is Some, r is Some ==> *r->0 == old(self).0->0 && final(self).0 == Some(*final(r->0)), r is None ==> *final(self) == *old(self)
    { self.0.as_mut() }
    fn take(&mut self) -> (r: Option<T>) ensures r == old(self).0, final(self).0 is None { vx_replace(&mut self.0, None) }
    fn set(&mut self, t: T) -> (r: bool) ensures old(self).0 is Some ==> *final(self) == *old(self), old(self).0 is None ==> final(self).0 == Some(t) { if self.0.is_none() { self.0 = Some(t); true } else { false } }
    fn new() -> (r: Self) ensures r.0 is None { OnceLock(None) }
    fn from(t: T) -> (r: Self) ensures r.0 == Some(t) { OnceLock(Some(t)) }
}
//@rwclear
//@tyrw Arc<FileEntry> ==> EntryRef
//@tyrw Arc<GitignoreFile> ==> GitignoreRef
//@tyrw Arc<Directory> ==> DirRef
//@tyrw Arc<str> ==> VxName
//@struct MissingEntry
//@enum DirectoryEntry
impl FileEntry {
//@rw *self.file_index.lock().unwrap() ==> self.file_index
//@fn FileEntry::get_file_index ret=r
    ensures r == self.file_index,
//@end
}
//@struct AddedFile
//@enum AddedKind
/// What a directory contains (Entries, a lock around a hash map), by name.
#[verifier::external_body]
struct Entries { x: u8 }
impl View for Entries { type V = Map<Seq<char>, DirectoryEntry>; uninterp spec fn view(&self) -> Map<Seq<char>, DirectoryEntry>; }
impl Entries {
    #[verifier::external_body]
    fn search_mut(&mut self, name: &str) -> (r: Option<&mut DirectoryEntry>)
        ensures r is Some <==> old(self)@.dom().contains(name@), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *r->0 == old(self)@[name@] && final(self)@ == old(self)@.insert(name@, *final(r->0)),
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, name: VxName, e: DirectoryEntry) -> (r: Option<DirectoryEntry>) ensures final(self)@ == old(self)@.insert(name@, e), r is Some <==> old(self)@.dom().contains(name@) { unimplemented!() }
}
impl GitignoreRef {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
struct VxParent { x: u8 }
#[verifier::external_body]
fn vx_name(s: &str) -> (r: VxName) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_take_name(s: &mut VxName) -> (r: VxName) ensures r@ == old(s)@ { unimplemented!() }
#[verifier::external_body]
fn vx_gitignore() -> (r: GitignoreRef) { unimplemented!() }
#[verifier::external_body]
fn vx_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
fn vx_no_invalidations() -> (r: Invalidations) ensures r.v() == Some(Set::<FileIndex>::empty()) { Invalidations(InvalidationDetail::vx_default()) }
/// FileEntry::new: an entry nobody depends on and that has no index yet
fn vx_new_entry(h: &mut Vec<FileEntry>, p: VxParent, name: VxName) -> (r: EntryRef)
    requires old(h)@.len() < usize::MAX,
    ensures r.0 == old(h)@.len(), final(h)@ == old(h)@.push(final(h)@[r.0 as int]), blank(final(h)@[r.0 as int]),
{ let n = h.len(); h.push(FileEntry { invalidations: vx_no_invalidations(), file_index: None }); EntryRef(n) }
/// A file that is known stays as it is; a new one takes over who was looking for it while it was missing.
spec fn ensured(m: Option<DirectoryEntry>, h0: Seq<FileEntry>, h: Seq<FileEntry>, ignores: bool, r: AddedFile) -> bool {
    let fresh = r.kind is FileEntry && h == h0.push(h.last()) && blank(h.last()) && r.kind->FileEntry_0.0 == h0.len();
    let none = r.invalidations.v() == Some(Set::<FileIndex>::empty());
    match m {
        Some(DirectoryEntry::File(e)) => r.kind == AddedKind::FileEntry(e) && none && h == h0,
        Some(DirectoryEntry::MissingEntry(x)) => fresh && r.invalidations.v() == x.invalidations.v(),
        Some(DirectoryEntry::Gitignore(_)) => r.kind is Gitignore && none && h == h0,
        Some(DirectoryEntry::Directory(_)) => false,
        None => none && (if ignores { r.kind is Gitignore && h == h0 } else { fresh })
    }
}
spec fn look<K>(m: Map<K, DirectoryEntry>, k: K) -> Option<DirectoryEntry> { if m.dom().contains(k) { Some(m[k]) } else { None } }
spec fn placed(k: AddedKind) -> DirectoryEntry { match k { AddedKind::FileEntry(e) => DirectoryEntry::File(e), AddedKind::Gitignore(g) => DirectoryEntry::Gitignore(g) } }
spec fn blank(e: FileEntry) -> bool { e.invalidations.v() == Some(Set::<FileIndex>::empty()) && e.file_index is None }
impl Entries {
//@rwclear
//@rw new_gitignore() ==> vx_gitignore()
//@rw FileEntry::new($a, $b) ==> vx_new_entry(heap, $a, $b)
//@rw std::mem::take(name) ==> vx_take_name(name)
//@rw self.borrow_mut().insert($a, $b) ==> self.insert($a, $b)
//@rw name.into() ==> vx_name(name)
//@rw entry.name.clone() ==> vx_name(name)
//@rw name == ".gitignore" ==> vx_is(name, ".gitignore")
//@rw Default::default() ==> vx_no_invalidations()
//@rw Invalidations::default() ==> vx_no_invalidations()
//@fn Entries::ensure_file
//@sig fn ensure_file(&mut self, heap: &mut Vec<FileEntry>, parent: VxParent, name: &str, code: &str) -> (r: AddedFile)
//@drop new_gitignore
    requires old(heap)@.len() < usize::MAX, old(self)@.dom().contains(name@) ==> !(old(self)@[name@] is Directory),
    ensures final(self)@.remove(name@) == old(self)@.remove(name@), final(self)@.dom().contains(name@),
        ensured(look(old(self)@, name@), old(heap)@, final(heap)@, name@ == ".gitignore"@, r), final(self)@[name@] == placed(r.kind),
//@end
//@rwclear
//@rw self.borrow_mut() ==> self
//@rw move |name| $b ==> $b
//@rw entries.get(name) ==> entries.search_mut(name)
//@rw &item ==> item
//@rw file.invalidations.add($x) ==> vx_inv(heap, *file).add($x)
//@rw Invalidations::default() ==> vx_no_invalidations()
//@rw name.into() ==> vx_name(name)
//@fn Entries::add_missing_entry_callback
//@letmut invalidations
//@sig fn add_missing_entry_callback(&mut self, heap: &mut Vec<FileEntry>, invalidates: FileIndex, name: &str)
//@tyrw Arc<str> ==> VxName
    requires old(self)@.dom().contains(name@) && old(self)@[name@] is File ==> old(self)@[name@]->File_0.0 < old(heap)@.len(),
    ensures final(self)@.remove(name@) == old(self)@.remove(name@), final(self)@.dom().contains(name@), final(heap)@.len() == old(heap)@.len(),
        looked_for(old(self)@, final(self)@, old(heap)@, final(heap)@, name@, invalidates),
//@end
}
/// Who looks for a name is registered with what is there, or with its absence.
spec fn looked_for(m0: Map<Seq<char>, DirectoryEntry>, m: Map<Seq<char>, DirectoryEntry>, h0: Seq<FileEntry>, h: Seq<FileEntry>, name: Seq<char>, x: FileIndex) -> bool {
    if m0.dom().contains(name) {
        match m0[name] {
            DirectoryEntry::MissingEntry(e) => h == h0 && m[name] is MissingEntry && m[name]->MissingEntry_0.invalidations.v() == added(e.invalidations.v(), x),
            DirectoryEntry::File(e) => m[name] == m0[name] && h =~= h0.update(e.0 as int, h[e.0 as int]) && h[e.0 as int].invalidations.v() == added(h0[e.0 as int].invalidations.v(), x),
            _ => m =~= m0 && h == h0,
        }
    } else { h == h0 && m[name] is MissingEntry && m[name]->MissingEntry_0.invalidations.v() == Some(Set::<FileIndex>::empty().insert(x)) }
}
spec fn added(d: Option<Set<FileIndex>>, x: FileIndex) -> Option<Set<FileIndex>> { match d { None => None, Some(s) => Some(s.insert(x)) } }
//@file crates/vfs/src/vfs.rs
//@rwclear
//@enum InMemoryKind
//@struct FileState
//@enum InvalidationResult
fn vx_res_eq(a: &InvalidationResult, b: &InvalidationResult) -> (r: bool) ensures r == (*a == *b)
{ match (a, b) { (InvalidationResult::InvalidatedFiles, InvalidationResult::InvalidatedFiles) => true, (InvalidationResult::InvalidatedDb, InvalidationResult::InvalidatedDb) => true, _ => false } }
//@rw *self == InvalidationResult::InvalidatedFiles ==> vx_res_eq(self, &InvalidationResult::InvalidatedFiles)
impl InvalidationResult {
//@fn InvalidationResult:BitOrAssign::bitor_assign
    // everything absorbs all else
    ensures *final(self) == if *old(self) == InvalidationResult::InvalidatedDb || rhs == InvalidationResult::InvalidatedDb { InvalidationResult::InvalidatedDb } else { InvalidationResult::InvalidatedFiles },
//@end
}
/// Two states of a file that differ at most in what it contains.
spec fn kept<F>(a: Seq<FileState<F>>, b: Seq<FileState<F>>) -> bool {
    a.len() == b.len() && forall|v: FileIndex| ix(v) < a.len() ==> same_place(a[ix(v)], #[trigger] b[ix(v)]) && (a[ix(v)].file.0 is Some <==> b[ix(v)].file.0 is Some)
}
spec fn same_place<F>(a: FileState<F>, b: FileState<F>) -> bool { a.path == b.path && a.file_entry == b.file_entry }
/// Entries have the index that they had.
spec fn same_indexes(a: Seq<FileEntry>, b: Seq<FileEntry>) -> bool { a.len() == b.len() && forall|e: int| 0 <= e < a.len() ==> (#[trigger] b[e]).file_index == a[e].file_index }
impl<F: VfsFile> FileState<F> {
//@fn FileState::new_parsed ret=r
//@sig fn new_parsed(heap: &mut Vec<FileEntry>, file_entry: EntryRef, path: PathWithScheme, file: F, invalidates_db: bool) -> (r: Self)
//@rw file_entry.invalidations.set_invalidates_db() ==> vx_inv(heap, file_entry).set_invalidates_db()
    requires file_entry.0 < old(heap)@.len(),
    ensures r.file_entry == file_entry, r.path == path, r.file.0 == Some(file), same_indexes(old(heap)@, final(heap)@), final(heap)@ == old(heap)@.update(file_entry.0 as int, final(heap)@[file_entry.0 as int]),
        if invalidates_db { final(heap)@[file_entry.0 as int].invalidations.v() is None } else { final(heap)@ == old(heap)@ },
//@end
//@fn FileState::update
//@sig fn update(&mut self, file: F)
    ensures same_place(*final(self), *old(self)), old(self).file.0 is None ==> final(self).file.0 == Some(file), old(self).file.0 is Some ==> final(self).file == old(self).file,
//@end
//@fn FileState::file ret=r
    ensures r is Some <==> self.file.0 is Some, r is Some ==> *r->0 == self.file.0->0,
//@end
//@fn FileState::file_mut ret=r
    ensures r is Some <==> old(self).file.0 is Some, same_place(*final(self), *old(self)),
        r is Some ==> *r->0 == old(self).file.0->0 && final(self).file.0 == Some(*final(r->0)), r is None ==> *final(self) == *old(self),
//@end
//@fn FileState::code ret=r
    ensures r is Some <==> self.file.0 is Some, r is Some ==> r->0@ == self.file.0->0.text(),
//@end
//@fn FileState::unload
    ensures same_place(*final(self), *old(self)), final(self).file.0 is None,
//@end
//@fn FileState::invalidate_references_to
    ensures same_place(*final(self), *old(self)), final(self).file.0 is Some <==> old(self).file.0 is Some, final(self).file.0 is Some ==> final(self).file.0->0.told(file_index),
//@end
}

/// The tree of workspaces: what there is at a path
#[verifier::external_body]
struct VxTree { x: u8 }
impl View for VxTree { type V = Map<PathWithScheme, DirectoryEntry>; uninterp spec fn view(&self) -> Map<PathWithScheme, DirectoryEntry>; }
uninterp spec fn ignores(p: PathWithScheme) -> bool;
impl VxTree {
    /// Workspaces::ensure_file: the contract of Entries::ensure_file at the end of a path
    #[verifier::external_body]
    fn ensure_file(&mut self, h: &mut Vec<FileEntry>, p: &PathWithScheme) -> (r: AddedFile)
        requires !(look(old(self)@, *p) matches Some(DirectoryEntry::Directory(_))),
        ensures ensured(look(old(self)@, *p), old(h)@, final(h)@, ignores(*p), r), final(self)@ == old(self)@.insert(*p, placed(r.kind)),
    { unimplemented!() }
}
struct Vfs<F> { tree: VxTree, handler: VxHandler, files: Vec<FileState<F>>, in_memory_files: VxMem, heap: Vec<FileEntry>, seen: Ghost<Set<FileIndex>> }
type G = Seq<Option<Set<FileIndex>>>;
impl<F: VfsFile> Vfs<F> {
    /// Who is registered with which entry.
    spec fn g(&self) -> G { Seq::new(self.heap@.len(), |e: int| self.heap@[e].invalidations.v()) }
    spec fn entries(&self) -> Seq<int> { Seq::new(self.files@.len(), |v: int| self.files@[v].file_entry.0 as int) }
}
spec fn ix(i: FileIndex) -> int { i.0 as int }
/// Registered dependents of file v
spec fn of(g: G, en: Seq<int>, v: FileIndex) -> Option<Set<FileIndex>> { g[en[ix(v)]] }
/// Indexes are in range.
spec fn in_range(g: G, en: Seq<int>) -> bool {
    &&& forall|v: int| 0 <= v < en.len() ==> 0 <= #[trigger] en[v] < g.len()
    &&& forall|e: int, x: FileIndex| 0 <= e < g.len() && (#[trigger] g[e]) is Some && #[trigger] g[e]->0.contains(x) ==> ix(x) < en.len()
}
spec fn valid(s: Set<FileIndex>, en: Seq<int>) -> bool { forall|x: FileIndex| #[trigger] s.contains(x) ==> ix(x) < en.len() }
/// A set of files that contains the dependents of its members
spec fn closed(g: G, en: Seq<int>, c: Set<FileIndex>) -> bool {
    forall|v: FileIndex, w: FileIndex| #[trigger] c.contains(v) && ix(v) < en.len() && of(g, en, v) is Some && #[trigger] of(g, en, v)->0.contains(w) ==> c.contains(w)
}
/// A transitive dependent of roots, or one of these: it is in every closed set around them.
spec fn dependent(g: G, en: Seq<int>, roots: Set<FileIndex>, v: FileIndex) -> bool {
    forall|c: Set<FileIndex>| #[trigger] closed(g, en, c) && roots.subset_of(c) ==> c.contains(v)
}
proof fn dependent_closed(g: G, en: Seq<int>, roots: Set<FileIndex>, v: FileIndex, w: FileIndex)
    requires dependent(g, en, roots, v), ix(v) < en.len(), of(g, en, v) is Some, of(g, en, v)->0.contains(w),
    ensures dependent(g, en, roots, w)
{ }
/// Where a traversal from roots stands: entries are as they were or taken, and what was taken is seen or still to be visited.
spec fn midway(g0: G, g: G, en: Seq<int>, roots: Set<FileIndex>, seen: Set<FileIndex>, pending: Set<FileIndex>) -> bool {
    &&& g0.len() == g.len() && in_range(g0, en) && in_range(g, en) && valid(seen, en) && valid(pending, en)
    &&& forall|e: int| 0 <= e < g.len() ==> #[trigger] g[e] == g0[e] || (g[e] == Some(Set::<FileIndex>::empty()) && g0[e] is Some && g0[e]->0.subset_of(seen.union(pending)))
    &&& forall|v: FileIndex| #[trigger] seen.contains(v) ==> of(g, en, v) == Some(Set::<FileIndex>::empty()) && dependent(g0, en, roots, v)
    &&& forall|v: FileIndex| #[trigger] pending.contains(v) ==> dependent(g0, en, roots, v)
}
/// The files that were not reached are untouched; the ones that were have dropped their references.
spec fn touched<F: VfsFile>(a: Seq<FileState<F>>, b: Seq<FileState<F>>, seen: Set<FileIndex>, origin: Option<FileIndex>) -> bool {
    &&& a.len() == b.len()
    &&& forall|v: FileIndex| ix(v) < a.len() ==> same_place(a[ix(v)], #[trigger] b[ix(v)]) && ((a[ix(v)]).file.0 is Some <==> (b[ix(v)]).file.0 is Some)
            && (if seen.contains(v) { b[ix(v)].file.0 is Some ==> b[ix(v)].file.0->0.told(origin) } else { b[ix(v)] == a[ix(v)] })
}
/// The editor is told of every reached file that it has open, except the ones still being worked on, and of no other.
spec fn announced<F: VfsFile>(f: Seq<FileState<F>>, mem: Set<PathWithScheme>, before: Set<PathWithScheme>, after: Set<PathWithScheme>, seen: Set<FileIndex>, open: Set<FileIndex>) -> bool {
    &&& forall|v: FileIndex| #[trigger] seen.contains(v) && !open.contains(v) && mem.contains(f[ix(v)].path) ==> after.contains(f[ix(v)].path)
    &&& forall|p: PathWithScheme| #[trigger] after.contains(p) ==> before.contains(p) || mem.contains(p) && exists|v: FileIndex| #[trigger] seen.contains(v) && f[ix(v)].path == p
}
spec fn nonempty(g: G) -> nat decreases g.len() { if g.len() == 0 { 0 } else { nonempty(g.drop_last()) + if g.last() == Some(Set::<FileIndex>::empty()) { 0nat } else { 1nat } } }
proof fn nonempty_update(g: G, e: int, x: Option<Set<FileIndex>>)
    requires 0 <= e < g.len(), g[e] != Some(Set::<FileIndex>::empty()), x == Some(Set::<FileIndex>::empty()),
    ensures nonempty(g.update(e, x)) + 1 == nonempty(g)
    decreases g.len()
{
    let h = g.update(e, x);
    if e == g.len() - 1 { assert(h.drop_last() =~= g.drop_last()); }
    else { nonempty_update(g.drop_last(), e, x); assert(h.drop_last() =~= g.drop_last().update(e, x)); }
}
proof fn visit(g0: G, g: G, en: Seq<int>, roots: Set<FileIndex>, seen: Set<FileIndex>, pending: Set<FileIndex>, i: FileIndex)
    requires midway(g0, g, en, roots, seen, pending.insert(i)), of(g, en, i) is Some,
    ensures ix(i) < en.len(), midway(g0, g.update(en[ix(i)], Some(Set::<FileIndex>::empty())), en, roots, seen.insert(i), pending.union(of(g, en, i)->0)),
{
    assert(pending.insert(i).contains(i));
    let e = en[ix(i)];
    let s = g[e]->0;
    let g1 = g.update(e, Some(Set::<FileIndex>::empty()));
    let (seen1, pending1) = (seen.insert(i), pending.union(s));
    assert forall|w: FileIndex| #[trigger] pending1.contains(w) implies ix(w) < en.len() && dependent(g0, en, roots, w) by {
        if s.contains(w) { assert(g[e]->0.contains(w)); assert(g0[e] == g[e]); dependent_closed(g0, en, roots, i, w); } else { assert(pending.insert(i).contains(w)); }
    }
    assert forall|v: FileIndex| #[trigger] seen1.contains(v) implies of(g1, en, v) == Some(Set::<FileIndex>::empty()) && dependent(g0, en, roots, v) by {
        if v != i { assert(seen.contains(v)); }
    }
    assert forall|k: int| 0 <= k < g1.len() implies #[trigger] g1[k] == g0[k] || (g1[k] == Some(Set::<FileIndex>::empty()) && g0[k] is Some && g0[k]->0.subset_of(seen1.union(pending1))) by {
        assert(g[k] == g0[k] || g[k] == Some(Set::<FileIndex>::empty()));
        if g[k] != g0[k] {
            assert forall|w: FileIndex| #[trigger] g0[k]->0.contains(w) implies seen1.union(pending1).contains(w) by { assert(seen.union(pending.insert(i)).contains(w)); }
        }
    }
    assert(in_range(g1, en));
}
/// Ghost: the state at the start of the whole traversal
struct Tr<F> { g0: G, en: Seq<int>, roots: Set<FileIndex>, files0: Seq<FileState<F>>, told0: Set<PathWithScheme> }
impl<F: VfsFile> Vfs<F> {
    spec fn stands(&self, t: Tr<F>, origin: Option<FileIndex>, pending: Set<FileIndex>, open: Set<FileIndex>) -> bool {
        &&& self.entries() == t.en
        &&& midway(t.g0, self.g(), t.en, t.roots, self.seen@, pending)
        &&& touched(t.files0, self.files@, self.seen@, origin)
        &&& announced(t.files0, self.in_memory_files@, t.told0, self.handler@, self.seen@, open)
    }
}
impl<F: VfsFile> Vfs<F> {
    spec fn wf(&self) -> bool { in_range(self.g(), self.entries()) }
    /// What invalidating and unloading file i comes to
    spec fn gone(&self, o: Vfs<F>, i: FileIndex, r: InvalidationResult) -> bool {
        let t = start(o, i);
        &&& self.files@.len() == o.files@.len() && self.files@[ix(i)].file.0 is None && same_place(self.files@[ix(i)], o.files@[ix(i)])
        &&& r == InvalidationResult::InvalidatedFiles ==> of(o.g(), o.entries(), i) is Some && self.stands(t, Some(i), Set::empty(), Set::empty())
                && exact(t, self.seen@)
        &&& r == InvalidationResult::InvalidatedDb ==> everything(t) && o.in_memory_files@.subset_of(self.handler@)
    }
}
/// Exactly the transitive dependents, none of which stands for everything
spec fn exact<F>(t: Tr<F>, seen: Set<FileIndex>) -> bool {
    forall|v: FileIndex| (#[trigger] seen.contains(v) <==> dependent(t.g0, t.en, t.roots, v)) && (seen.contains(v) ==> of(t.g0, t.en, v) is Some)
}
spec fn start<F: VfsFile>(o: Vfs<F>, i: FileIndex) -> Tr<F> {
    let d = of(o.g(), o.entries(), i);
    Tr { g0: o.g(), en: o.entries(), roots: if d is Some { d->0 } else { Set::empty().insert(i) },
        files0: o.files@.update(ix(i), FileState { file: OnceLock(None), ..o.files@[ix(i)] }), told0: o.handler@ }
}
/// When nothing is left to visit, exactly the dependents were reached.
proof fn arrived(g0: G, g: G, en: Seq<int>, roots: Set<FileIndex>, seen: Set<FileIndex>)
    requires midway(g0, g, en, roots, seen, Set::empty()), roots.subset_of(seen),
    ensures forall|v: FileIndex| #[trigger] seen.contains(v) <==> dependent(g0, en, roots, v), forall|v: FileIndex| #[trigger] seen.contains(v) ==> of(g0, en, v) is Some,
{
    assert forall|v: FileIndex, w: FileIndex| #[trigger] seen.contains(v) && ix(v) < en.len() && of(g0, en, v) is Some && #[trigger] of(g0, en, v)->0.contains(w) implies seen.contains(w) by {
        let e = en[ix(v)];
        assert(g[e] == g0[e] || g0[e]->0.subset_of(seen.union(Set::empty())));
        assert(seen.union(Set::<FileIndex>::empty()) =~= seen);
    }
    assert(closed(g0, en, seen));
}
/// Some reached file stands for everything, and every open file is announced.
spec fn everything<F: VfsFile>(t: Tr<F>) -> bool { exists|v: FileIndex| #[trigger] dependent(t.g0, t.en, t.roots, v) && ix(v) < t.en.len() && of(t.g0, t.en, v) is None }
fn vx_at<'a, F>(f: &'a mut Vec<FileState<F>>, i: FileIndex) -> (r: &'a mut FileState<F>)
    requires ix(i) < old(f)@.len(),
    ensures *r == old(f)@[ix(i)], final(f)@ == old(f)@.update(ix(i), *final(r))
{ &mut f[i.0 as usize] }
fn vx_inv<'a>(h: &'a mut Vec<FileEntry>, e: EntryRef) -> (r: &'a mut Invalidations)
    requires e.0 < old(h)@.len(),
    ensures *r == old(h)@[e.0 as int].invalidations, final(h)@ == old(h)@.update(e.0 as int, FileEntry { invalidations: *final(r), file_index: old(h)@[e.0 as int].file_index })
{ &mut h[e.0].invalidations }
//@rw $x == InvalidationResult::InvalidatedDb ==> vx_res_eq(&$x, &InvalidationResult::InvalidatedDb)
//@rw &*$x.borrow() ==> $x.borrow()
//@rw self.file_state_mut($i) ==> vx_at(&mut self.files, $i)
//@rw &mut self.files[$i.0 as usize] ==> vx_at(&mut self.files, $i)
//@rw $f.file_entry.invalidations.take() ==> vx_inv(&mut self.heap, $f.file_entry).take()
//@rw &self.file_state($i).path.path ==> self.file_state($i)
//@rw self.files.get($i).unwrap() ==> &self.files[$i]
impl<F: VfsFile> Vfs<F> {
//@fn Vfs::file_state ret=r
    requires ix(index) < self.files@.len(),
    ensures *r == self.files@[ix(index)],
//@end
//@fn Vfs::invalidate_files attr=verifier::spinoff_prover attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
//@sig fn invalidate_files(&mut self, original_file_index: Option<FileIndex>, invalidations: Invalidations, Ghost(t): Ghost<Tr<F>>, Ghost(pending): Ghost<Set<FileIndex>>, Ghost(open): Ghost<Set<FileIndex>>) -> (r: InvalidationResult)
//@rw self.invalidate_file_by_index($a, $b) ==> self.invalidate_file_by_index($a, $b, Ghost(t), Ghost(pending.union(it__1.view())), Ghost(open))
    requires
        invalidations.v() is Some ==> old(self).stands(t, original_file_index, pending.union(invalidations.v()->0), open),
        invalidations.v() is None ==> everything(t), old(self).wf(),
    ensures final(self).wf(),
        r == InvalidationResult::InvalidatedFiles ==> invalidations.v() is Some && final(self).stands(t, original_file_index, pending, open) && old(self).seen@.union(invalidations.v()->0).subset_of(final(self).seen@),
        r == InvalidationResult::InvalidatedDb ==> everything(t) && final(self).in_memory_files@.subset_of(final(self).handler@),
        final(self).in_memory_files == old(self).in_memory_files, final(self).tree == old(self).tree, same_indexes(old(self).heap@, final(self).heap@), old(self).handler@.subset_of(final(self).handler@),
        nonempty(final(self).g()) <= nonempty(old(self).g()), kept(old(self).files@, final(self).files@), final(self).g().len() == old(self).g().len(),
        r == InvalidationResult::InvalidatedFiles && pending == Set::<FileIndex>::empty() && t.roots.subset_of(final(self).seen@) ==> exact(t, final(self).seen@),
    decreases nonempty(old(self).g()), if invalidations.v() is Some && invalidations.v() != Some(Set::<FileIndex>::empty()) { 3nat } else { 1 },
//@begin
    let ghost all = invalidations.v()->0;
    proof { assert(pending.union(Set::<FileIndex>::empty()) =~= pending); }
//@loop 0
    invariant self.in_memory_files == old(self).in_memory_files, self.tree == old(self).tree, self.in_memory_files@.subset_of(self.handler@.union(it__0@)), old(self).handler@.subset_of(self.handler@),
        self.heap@ == old(self).heap@, self.files@ == old(self).files@, self.wf(),
    ensures self.in_memory_files@.subset_of(self.handler@),
    decreases it__0@.len(),
//@loop 1
    invariant self.wf(), self.stands(t, original_file_index, pending.union(it__1@), open), self.in_memory_files == old(self).in_memory_files, self.tree == old(self).tree, same_indexes(old(self).heap@, self.heap@), old(self).handler@.subset_of(self.handler@),
        kept(old(self).files@, self.files@), self.g().len() == old(self).g().len(), nonempty(self.g()) <= nonempty(old(self).g()), it__1@.subset_of(all), all.difference(it__1@).subset_of(self.seen@), old(self).seen@.subset_of(self.seen@),
    ensures it__1@ == Set::<FileIndex>::empty(),
    decreases it__1@.len(),
//@loopbegin 1
    let ghost rest = it__1@;
//@before if vx_res_eq
    proof { assert(all.contains(invalid_index)); assert(pending.union(rest) =~= pending.union(it__1@).insert(invalid_index)); }
//@before InvalidationResult::InvalidatedFiles
    proof { if pending == Set::<FileIndex>::empty() && t.roots.subset_of(self.seen@) { arrived(t.g0, self.g(), t.en, t.roots, self.seen@); } }
//@end
//@fn Vfs::invalidate_file_by_index attr=verifier::spinoff_prover
//@sig fn invalidate_file_by_index(&mut self, original_file_index: Option<FileIndex>, invalid_index: FileIndex, Ghost(t): Ghost<Tr<F>>, Ghost(pending): Ghost<Set<FileIndex>>, Ghost(open): Ghost<Set<FileIndex>>) -> (r: InvalidationResult)
//@rw self.invalidate_files($a, $b) ==> self.invalidate_files($a, $b, Ghost(t), Ghost(pending), Ghost(open.insert(invalid_index)))
    requires
        old(self).stands(t, original_file_index, pending.insert(invalid_index), open),
    ensures final(self).wf(),
        r == InvalidationResult::InvalidatedFiles ==> final(self).stands(t, original_file_index, pending, open) && old(self).seen@.insert(invalid_index).subset_of(final(self).seen@),
        r == InvalidationResult::InvalidatedDb ==> everything(t) && final(self).in_memory_files@.subset_of(final(self).handler@),
        final(self).in_memory_files == old(self).in_memory_files, final(self).tree == old(self).tree, same_indexes(old(self).heap@, final(self).heap@), old(self).handler@.subset_of(final(self).handler@),
        nonempty(final(self).g()) <= nonempty(old(self).g()), kept(old(self).files@, final(self).files@), final(self).g().len() == old(self).g().len(),
    decreases nonempty(old(self).g()), 2nat,
//@begin
    let ghost g = self.g();
    let ghost deps = of(g, t.en, invalid_index);
    proof {
        assert(pending.insert(invalid_index).contains(invalid_index));
        assert(self.entries().len() == self.files@.len());
        assert(self.entries()[ix(invalid_index)] == self.files@[ix(invalid_index)].file_entry.0);
        assert(dependent(t.g0, t.en, t.roots, invalid_index));
        if deps is Some {
            visit(t.g0, g, t.en, t.roots, self.seen@, pending, invalid_index);
            if deps->0 != Set::<FileIndex>::empty() { nonempty_update(g, t.en[ix(invalid_index)], Some(Set::<FileIndex>::empty())); }
        }
    }
//@after file.invalidate_references_to
    self.seen = Ghost(self.seen@.insert(invalid_index));
    proof {
        assert(self.entries() =~= t.en);
        if deps is Some {
            assert(self.g() =~= g.update(t.en[ix(invalid_index)], Some(Set::<FileIndex>::empty())));
            if deps->0 == Set::<FileIndex>::empty() { assert(self.g() =~= g); }
            assert(midway(t.g0, self.g(), t.en, t.roots, self.seen@, pending.union(deps->0)));
        } else { assert(self.g() =~= g); }
        let (s0, s1) = (old(self).seen@, self.seen@);
        assert forall|v: FileIndex| ix(v) < t.files0.len() implies same_place(t.files0[ix(v)], #[trigger] self.files@[ix(v)]) && (t.files0[ix(v)].file.0 is Some <==> self.files@[ix(v)].file.0 is Some)
            && (if s1.contains(v) { self.files@[ix(v)].file.0 is Some ==> self.files@[ix(v)].file.0->0.told(original_file_index) } else { self.files@[ix(v)] == t.files0[ix(v)] }) by {
            let b = old(self).files@[ix(v)];
            if ix(v) != ix(invalid_index) { assert(self.files@[ix(v)] == b); assert(v != invalid_index); assert(s1.contains(v) == s0.contains(v)); } else { assert(v == invalid_index); }
        }
        assert(touched(t.files0, self.files@, s1, original_file_index));
        assert forall|v: FileIndex| #[trigger] s1.contains(v) && !open.insert(invalid_index).contains(v) && self.in_memory_files@.contains(t.files0[ix(v)].path) implies self.handler@.contains(t.files0[ix(v)].path) by { assert(s0.contains(v)); assert(!open.contains(v)); }
        assert forall|p: PathWithScheme| #[trigger] self.handler@.contains(p) implies t.told0.contains(p) || self.in_memory_files@.contains(p) && exists|v: FileIndex| #[trigger] s1.contains(v) && t.files0[ix(v)].path == p by {
            assert(old(self).handler@.contains(p));
            if !t.told0.contains(p) { let v = choose|v: FileIndex| #[trigger] s0.contains(v) && t.files0[ix(v)].path == p; assert(s1.contains(v)); }
        }
        assert(announced(t.files0, self.in_memory_files@, t.told0, self.handler@, s1, open.insert(invalid_index)));
        if deps is Some { assert(self.stands(t, original_file_index, pending.union(deps->0), open.insert(invalid_index))); }
    }
    let ghost before = *self;
//@loop 0
    invariant *self == before, self.files@.len() == t.en.len(), valid(it__0@, t.en),
    decreases it__0@.len(),
//@end
//@fn Vfs::invalidate_and_unload_file ret=r
//@rw self.invalidate_files($a, $b) ==> self.invalidate_files($a, $b, Ghost(t), Ghost(Set::empty()), Ghost(Set::empty()))
    requires old(self).wf(), ix(file_index) < old(self).files@.len(),
    ensures final(self).gone(*old(self), file_index, r),
        // dependencies are only dropped together with the dependents
        final(self).wf(), old(self).handler@.subset_of(final(self).handler@),
        final(self).in_memory_files == old(self).in_memory_files, final(self).tree == old(self).tree, same_indexes(old(self).heap@, final(self).heap@), kept(old(self).files@.update(ix(file_index), final(self).files@[ix(file_index)]), final(self).files@),
//@begin
    let ghost o = *self;
    let ghost g = self.g();
    let ghost deps = of(g, self.entries(), file_index);
    let ghost t = start(o, file_index);
    self.seen = Ghost(Set::empty());
    proof {
        assert(self.entries().len() == self.files@.len());
        assert(self.entries()[ix(file_index)] == self.files@[ix(file_index)].file_entry.0);
        assert(t.roots.subset_of(t.roots));
    }
//@before self.invalidate_files
    proof {
        assert(self.entries() =~= t.en);
        assert(self.files@ =~= t.files0);
        if deps is Some {
            assert(self.g() =~= g.update(t.en[ix(file_index)], Some(Set::<FileIndex>::empty())));
            assert(t.roots =~= Set::<FileIndex>::empty().union(deps->0));
        } else {
            assert(self.g() =~= g);
            assert(dependent(t.g0, t.en, t.roots, file_index));
        }
    }
//@end
//@fn Vfs::update_file
//@sig fn update_file<C: FnOnce(&FileState<F>, FileIndex, Box<str>) -> F>(&mut self, file_index: FileIndex, new_code: Box<str>, to_file: C) -> (r: InvalidationResult)
    requires old(self).wf(), ix(file_index) < old(self).files@.len(), forall|st: &FileState<F>| to_file.requires((st, file_index, new_code)),
    ensures
        // the old contents are gone, dependents are invalidated, the new file is served
        exists|mid: Vfs<F>| #[trigger] mid.gone(*old(self), file_index, r) && final(self).now(mid, file_index)
            && final(self).files@[ix(file_index)].file.0 is Some && to_file.ensures((&mid.files@[ix(file_index)], file_index, new_code), final(self).files@[ix(file_index)].file.0->0),
        r == InvalidationResult::InvalidatedFiles ==> final(self).wf(),
        final(self).in_memory_files == old(self).in_memory_files,
//@after self.invalidate_and_unload_file
    let ghost mid = *self;
//@after file_state.update
    proof { assert(self.entries() =~= mid.entries()); assert(self.g() =~= mid.g()); }
//@end
//@fn Vfs::invalidate_and_unload_in_memory_file ret=r
//@rw self.workspaces.unload_file($a, $b, $c) ==> vx_unload($c)
    requires old(self).wf(), ix(file_index) < old(self).files@.len(),
    ensures final(self).gone(*old(self), file_index, r), r == InvalidationResult::InvalidatedFiles ==> final(self).wf(), final(self).in_memory_files == old(self).in_memory_files,
//@end
//@fn Vfs::invalidate_path name=collect attr=verifier::loop_isolation(false) attr=verifier::allow_complex_invariants
//@only |entry| { match entry
//@sig fn collect(&self, entry: &DirectoryEntry, invalidates_db: &mut bool, all_unloads: &mut FastHashSet<FileIndex>, all_invalidations: &mut FastHashSet<FileIndex>, ensure_unloaded_in_memory_paths: &mut Vec<(PathWithScheme, FileIndex)>) -> (r: bool)
//@rw invalidates_db = true ==> *invalidates_db = true
//@rw f.get_file_index() ==> vx_entry(&self.heap, *f).get_file_index()
//@rw f.invalidations.borrow() ==> vx_entry(&self.heap, *f).invalidations.borrow()
//@rw file_index == *in_memory_index ==> file_index.0 == in_memory_index.0
//@rw all_invalidations.extend($x) ==> vx_extend(all_invalidations, $x)
    requires entry is File ==> entry->File_0.0 < self.heap@.len(),
    ensures r,
        // a file that is loaded is unloaded, unless the editor has it open; who looked at anything else that changed is invalidated
        match entry {
            DirectoryEntry::File(e) => match self.heap@[e.0 as int].file_index {
                Some(i) => if self.is_open(i) {
                    &&& *final(all_unloads) == *old(all_unloads) && final(all_invalidations)@ == old(all_invalidations)@.insert(i) && *final(invalidates_db) == *old(invalidates_db)
                    &&& final(ensure_unloaded_in_memory_paths)@.len() == old(ensure_unloaded_in_memory_paths)@.len() + 1 && final(ensure_unloaded_in_memory_paths)@.drop_last() == old(ensure_unloaded_in_memory_paths)@
                    &&& final(ensure_unloaded_in_memory_paths)@.last().1 == i && self.open_as(final(ensure_unloaded_in_memory_paths)@.last().0) == Some(i)
                } else {
                    final(all_unloads)@ == old(all_unloads)@.insert(i) && *final(all_invalidations) == *old(all_invalidations) && *final(invalidates_db) == *old(invalidates_db) && final(ensure_unloaded_in_memory_paths)@ == old(ensure_unloaded_in_memory_paths)@
                },
                None => gathered(self.heap@[e.0 as int].invalidations.v(), *old(invalidates_db), *final(invalidates_db), old(all_invalidations)@, final(all_invalidations)@) && *final(all_unloads) == *old(all_unloads) && final(ensure_unloaded_in_memory_paths)@ == old(ensure_unloaded_in_memory_paths)@,
            },
            DirectoryEntry::MissingEntry(x) => gathered(x.invalidations.v(), *old(invalidates_db), *final(invalidates_db), old(all_invalidations)@, final(all_invalidations)@) && *final(all_unloads) == *old(all_unloads) && final(ensure_unloaded_in_memory_paths)@ == old(ensure_unloaded_in_memory_paths)@,
            _ => *final(invalidates_db) == *old(invalidates_db) && *final(all_unloads) == *old(all_unloads) && *final(all_invalidations) == *old(all_invalidations) && final(ensure_unloaded_in_memory_paths)@ == old(ensure_unloaded_in_memory_paths)@,
        },
//@loop 0
    invariant *all_unloads == *old(all_unloads), *all_invalidations == *old(all_invalidations), *invalidates_db == *old(invalidates_db), *ensure_unloaded_in_memory_paths == *old(ensure_unloaded_in_memory_paths),
        forall|p: PathWithScheme| #[trigger] it__0@.dom().contains(p) ==> self.in_memory_files.m().contains_key(p) && it__0@[p] == self.in_memory_files.m()[p],
        forall|p: PathWithScheme| (#[trigger] self.open_as(p)) == Some(file_index) ==> it__0@.dom().contains(p),
    ensures !self.is_open(file_index),
    decreases it__0@.dom().len(),
//@before return true
    proof { assert(self.open_as(*path) == Some(file_index)); assert(ensure_unloaded_in_memory_paths@.drop_last() =~= old(ensure_unloaded_in_memory_paths)@); }
//@end
//@fn Vfs::matches_current_dir_entry
//@sig fn matches_current_dir_entry(&self, old: &DirectoryEntry, new: &DirectoryEntry) -> (r: bool)
//@rw old.get_file_index() ==> vx_entry(&self.heap, *old).get_file_index()
//@rw old_code == new_code ==> vx_same_text(old_code, &new_code)
    requires old is File ==> old->File_0.0 < self.heap@.len(), forall|e: int| 0 <= e < self.heap@.len() && (#[trigger] self.heap@[e]).file_index is Some ==> ix(self.heap@[e].file_index->0) < self.files@.len(),
    // an event is only dropped for a file whose contents are those on disk
    ensures r == (old is File && new is File && ({ let i = self.heap@[old->File_0.0 as int].file_index; i is Some && ({ let s = self.files@[ix(i->0)]; s.file.0 is Some && disk(s.path) == Some(s.file.0->0.text()) }) })),
//@end
//@fn Vfs::in_memory_file ret=r
    ensures r == old(self).open_as(*path), *final(self) == *old(self),
//@end
//@fn Vfs::store_in_memory_file attr=verifier::spinoff_prover
//@sig fn store_in_memory_file<C: FnOnce(FileIndex, &FileEntry, Box<str>) -> F>(&mut self, case_sensitive: bool, path: PathWithScheme, code: Box<str>, new_file: C) -> (r: (Option<FileIndex>, InvalidationResult))
//@rw self.workspaces.ensure_file($a, $b, $p, $c) ==> self.tree.ensure_file(&mut self.heap, $p)
//@rw tracing::enabled!(Level::INFO) ==> true
//@rw std::cfg!(debug_assertions) ==> true
//@rw Box::pin($x) ==> $x
//@rw result |= $y ==> result.bitor_assign($y)
//@rw file_entry.get_file_index() ==> vx_entry(&self.heap, file_entry).get_file_index()
//@rw new.file_entry.get_file_index() ==> vx_entry(&self.heap, new.file_entry).get_file_index()
//@rw self.file_state(file_index).code() == Some(&code) ==> vx_code_eq(self.file_state(file_index).code(), &code)
//@rw FileState::new_parsed($a, $b, $c, $d) ==> FileState::new_parsed(&mut self.heap, $a, $b, $c, $d)
//@rw self.files.set($i, $x) ==> vx_set(&mut self.files, $i, $x)
//@rw self.with_added_file($a, $b, $c, |file_index| $f) ==> { let file_index = self.vx_add_state($a, $b, $c); let f__ = $f; vx_at(&mut self.files, file_index).update(f__); file_index }
//@rw new_file($a, &file_entry, $c) ==> new_file($a, vx_entry(&self.heap, file_entry), $c)
//@rw self.invalidate_files($a, $b) ==> self.invalidate_files($a, $b, Ghost(t), Ghost(Set::empty()), Ghost(Set::empty()))
    requires old(self).ok(), old(self).heap@.len() < usize::MAX, old(self).files@.len() < u32::MAX, !(look(old(self).tree@, path) matches Some(DirectoryEntry::Directory(_))),
        forall|i: FileIndex, e: &FileEntry| new_file.requires((i, e, code)),
    ensures
        r.0 is None <==> final(self).tree@[path] is Gitignore,
        r.0 is Some ==> final(self).in_memory_files.m() == old(self).in_memory_files.m().insert(path, InMemoryKind::File(r.0->0)),
        // the editor's text is what is served
        r.0 is Some ==> ({ let f = final(self).files@[ix(r.0->0)]; f.path == path && f.file.0 is Some && (r.1 == InvalidationResult::InvalidatedDb || f.file.0->0.text() == code@ || exists|e: &FileEntry| #[trigger] new_file.ensures((r.0->0, e, code), f.file.0->0)) }),
        r.1 == InvalidationResult::InvalidatedFiles ==> final(self).ok(),
        r.0 is Some ==> final(self).stored(*old(self), path, code@, r.0->0, r.1),
//@after self.tree.ensure_file
    let ghost h1 = self.heap@;
    let ghost kind = ensured.kind;
    let ghost invs = ensured.invalidations.v();
    proof {
        ok_at(*old(self), path);
        assert(self.g().len() == h1.len());
        assert forall|e: int| 0 <= e < old(self).heap@.len() implies #[trigger] self.g()[e] == old(self).g()[e] by { assert(h1[e] == old(self).heap@[e]); }
        assert(self.entries() =~= old(self).entries());
        grown(old(self).g(), old(self).entries(), self.g(), self.entries());
        if h1.len() == old(self).heap@.len() { assert(h1 =~= old(self).heap@); }
    }
//@before return (None
    proof { ok_after(*old(self), *self, path, kind, FileIndex(0)); }
//@before return (Some(file_index), result)
    proof {
        assert(self.in_memory_files.m() =~= old(self).in_memory_files.m().insert(path, InMemoryKind::File(file_index)));
        ok_after(*old(self), *self, path, kind, file_index);
        assert(self.stored(*old(self), path, code@, file_index, result));
    }
//@before let in_mem_file = self.in_memory_file
    proof {
        assert(old(self).open_as(path) is Some ==> h1 == old(self).heap@ && file_entry == old(self).tree@[path]->File_0);
        assert(self.open_as(path) == old(self).open_as(path));
    }
//@before self.handler.on_invalidated_in_memory_file
    proof { if in_mem_file is Some { assert(h1 == old(self).heap@); } }
//@after self.handler.on_invalidated_in_memory_file
    let ghost b = *self;
    let ghost mut mid = *self;
//@after result.bitor_assign(self.invalidate_and_unload_file
    proof { mid = *self; }
//@before if true
    self.seen = Ghost(Set::empty());
    proof {
        assert(self.in_memory_files.m() =~= old(self).in_memory_files.m().insert(path, InMemoryKind::File(file_index)));
        if in_mem_file is Some {
            assert(invs == Some(Set::<FileIndex>::empty()));
            assert(self.entries() =~= mid.entries());
            if result == InvalidationResult::InvalidatedDb { assert(self.g() =~= mid.g().update(kind->FileEntry_0.0 as int, None)); } else { assert(self.g() =~= mid.g()); }
            assert(self.wf());
        } else {
            assert(self.entries() =~= old(self).entries().push(kind->FileEntry_0.0 as int));
            assert forall|e: int| 0 <= e < old(self).heap@.len() implies #[trigger] self.g()[e] == old(self).g()[e] by { assert(h1[e] == old(self).heap@[e]); }
            grown(old(self).g(), old(self).entries(), self.g(), self.entries());
        }
        assert(invs is Some && valid(invs->0, self.entries()));
        ok_after(*old(self), *self, path, kind, file_index);
    }
    let ghost there = *self;
    let ghost t = Tr { g0: self.g(), en: self.entries(), roots: ensured.invalidations.v()->0, files0: self.files@, told0: self.handler@ };
    proof {
        assert(Set::<FileIndex>::empty().union(t.roots) =~= t.roots);
        assert(midway(t.g0, self.g(), t.en, t.roots, self.seen@, t.roots));
        assert(self.stands(t, Some(file_index), t.roots, Set::empty()));
    }
//@before (Some(file_index), result)
    proof {
        if result == InvalidationResult::InvalidatedFiles {
            let c = self.seen@.remove(file_index);
            assert(closed(t.g0, t.en, Set::empty()));
            if in_mem_file is None {
                assert forall|v: FileIndex, w: FileIndex| #[trigger] c.contains(v) && ix(v) < t.en.len() && of(t.g0, t.en, v) is Some && #[trigger] of(t.g0, t.en, v)->0.contains(w) implies c.contains(w) by {
                    assert(self.seen@.contains(v)); dependent_closed(t.g0, t.en, t.roots, v, w); assert(self.seen@.contains(w));
                    assert(w != file_index);
                }
                assert(closed(t.g0, t.en, c));
                assert(!dependent(t.g0, t.en, t.roots, file_index));
            }
            assert(!self.seen@.contains(file_index));
            assert(self.files@[ix(file_index)] == there.files@[ix(file_index)]);
        }
        if in_mem_file is Some {
            assert(closed(t.g0, t.en, Set::empty()));
            assert(!everything(t));
            assert(exact(t, self.seen@));
            assert forall|k: int| 0 <= k < there.files@.len() implies #[trigger] self.files@[k] == there.files@[k] by { let v = FileIndex(k as u32); assert(ix(v) == k); assert(!self.seen@.contains(v)); }
            assert(self.files@ =~= there.files@);
            assert(self.files@ =~= mid.files@.update(ix(file_index), self.files@[ix(file_index)]));
            assert(self.g() =~= there.g()) by { assert forall|e: int| 0 <= e < self.g().len() implies #[trigger] self.g()[e] == there.g()[e] by { if self.g()[e] != t.g0[e] { assert(t.g0[e]->0 =~= Set::<FileIndex>::empty()); } } }
            assert(self.handler@ =~= mid.handler@);
            assert(old(self).known(path) == Some(file_index));
            assert(b.handler@.contains(path));
            assert(mid.gone(b, file_index, result));
            assert(self.stored_anew(*old(self), b, mid, path, file_index, result));
        } else {
            assert(t.files0.drop_last() =~= old(self).files@);
            assert(t.roots =~= old(self).looking(path));
            assert(t.told0 =~= old(self).handler@.insert(path));
            assert forall|v: FileIndex| ix(v) < old(self).files@.len() implies #[trigger] of(t.g0, t.en, v) == of(old(self).g(), old(self).entries(), v) by { assert(t.en[ix(v)] == old(self).entries()[ix(v)]); }
            assert(self.stored_new(*old(self), t, path, file_index, result));
            assert(old(self).known(path) is None);
        }
        ok_after(*old(self), *self, path, kind, file_index);
    }
//@loop 0
    invariant valid(it__0@, self.entries()), 
    decreases it__0@.len(),
//@end
//@fn Vfs::close_in_memory_file
//@sig fn close_in_memory_file<C: FnOnce(&FileState<F>, FileIndex, Box<str>) -> F>(&mut self, case_sensitive: bool, path: &PathWithScheme, to_file: C) -> (r: Result<InvalidationResult, VxMsg>)
//@rw Err("The path is not known to be an in memory file") ==> Err(VxMsg)
//@rw Some(on_file_system_code.as_str()) != file_state.code() ==> vx_code_ne(&on_file_system_code, file_state.code())
//@rw on_file_system_code.into() ==> vx_boxed(on_file_system_code)
//@rw gitignore.parent.with_entries($a, $b) ==> vx_ignored()
    requires old(self).wf(), old(self).mem_in_range(), forall|st: &FileState<F>, i: FileIndex, c: Box<str>| to_file.requires((st, i, c)),
    ensures
        final(self).in_memory_files.m() == old(self).in_memory_files.m().remove(*path),
        r is Err <==> !old(self).in_memory_files@.contains(*path), r is Err ==> final(self).files == old(self).files && final(self).heap == old(self).heap && final(self).handler == old(self).handler,
        r is Ok ==> final(self).closed(*old(self), old(self).in_memory_files.m()[*path], *path, r->Ok_0),
        // a file that is made anew is made from what is on disk
        r is Ok && old(self).in_memory_files.m()[*path] is File && disk(*path) is Some ==> ({ let i = old(self).in_memory_files.m()[*path]->File_0;
            final(self).files@[ix(i)] == old(self).files@[ix(i)] || exists|st: &FileState<F>, c: Box<str>| c@ == disk(*path)->0 && #[trigger] to_file.ensures((st, i, c), final(self).files@[ix(i)].file.0->0) }),
//@end
}
#[verifier::external_body]
fn vx_index(h: &mut Vec<FileEntry>, e: EntryRef, i: FileIndex)
    requires e.0 < old(h)@.len(),
    ensures final(h)@ == old(h)@.update(e.0 as int, FileEntry { file_index: Some(i), invalidations: old(h)@[e.0 as int].invalidations })
{ unimplemented!() }
proof fn grown(g: G, en: Seq<int>, g2: G, en2: Seq<int>)
    requires in_range(g, en), g.len() <= g2.len(), en.len() <= en2.len(), forall|e: int| 0 <= e < g.len() ==> #[trigger] g2[e] == g[e], forall|v: int| 0 <= v < en.len() ==> #[trigger] en2[v] == en[v],
        forall|e: int| g.len() <= e < g2.len() ==> #[trigger] g2[e] == Some(Set::<FileIndex>::empty()), forall|v: int| en.len() <= v < en2.len() ==> 0 <= #[trigger] en2[v] < g2.len(),
    ensures in_range(g2, en2)
{
    assert forall|v: int| 0 <= v < en2.len() implies 0 <= #[trigger] en2[v] < g2.len() by { if v < en.len() { assert(en2[v] == en[v]); } }
    assert forall|e: int, x: FileIndex| 0 <= e < g2.len() && (#[trigger] g2[e]) is Some && #[trigger] g2[e]->0.contains(x) implies ix(x) < en2.len() by { if e < g.len() { assert(g[e]->0.contains(x)); } }
}
/// What holds for one path
proof fn ok_at<F: VfsFile>(o: Vfs<F>, p: PathWithScheme)
    requires o.ok(),
    ensures o.wf(), o.mem_in_range(),
        o.open_as(p) is Some ==> o.known(p) == o.open_as(p),
        o.known(p) is Some ==> look(o.tree@, p) is Some && look(o.tree@, p)->0 is File && ix(o.known(p)->0) < o.files@.len() && o.files@[ix(o.known(p)->0)].path == p && o.files@[ix(o.known(p)->0)].file_entry == o.tree@[p]->File_0,
        look(o.tree@, p) is Some && look(o.tree@, p)->0 is File ==> o.tree@[p]->File_0.0 < o.heap@.len(),
        look(o.tree@, p) is Some && look(o.tree@, p)->0 is MissingEntry ==> o.tree@[p]->MissingEntry_0.invalidations.v() is Some && valid(o.tree@[p]->MissingEntry_0.invalidations.v()->0, o.entries()),
        valid(o.looking(p), o.entries()),
{
    reveal(Vfs::ok);
    if o.tree@.dom().contains(p) { if o.tree@[p] is File { let e = o.tree@[p]->File_0; assert(o.heap@[e.0 as int] == o.heap@[e.0 as int]); } }
}
proof fn ok_after<F: VfsFile>(o: Vfs<F>, n: Vfs<F>, p: PathWithScheme, k: AddedKind, i: FileIndex)
    requires o.ok(), n.wf(), n.tree@ == o.tree@.insert(p, placed(k)),
        o.heap@.len() <= n.heap@.len() <= o.heap@.len() + 1, o.files@.len() <= n.files@.len(),
        forall|v: FileIndex| ix(v) < o.files@.len() ==> same_place(o.files@[ix(v)], #[trigger] n.files@[ix(v)]),
        match k {
            AddedKind::Gitignore(g) => n.heap@ == o.heap@ && n.in_memory_files.m() == o.in_memory_files.m().insert(p, InMemoryKind::Gitignore(g)),
            AddedKind::FileEntry(e) => {
                &&& n.in_memory_files.m() == o.in_memory_files.m().insert(p, InMemoryKind::File(i))
                &&& e.0 < n.heap@.len() && n.heap@[e.0 as int].file_index == Some(i) && ix(i) < n.files@.len() && n.files@[ix(i)].file_entry == e && n.files@[ix(i)].path == p
                &&& (look(o.tree@, p) == Some(DirectoryEntry::File(e)) || e.0 == o.heap@.len())
                &&& n.heap@.len() > o.heap@.len() ==> e.0 == o.heap@.len()
                &&& forall|x: int| 0 <= x < o.heap@.len() && x != e.0 ==> (#[trigger] n.heap@[x]).file_index == o.heap@[x].file_index
            }
        },
    ensures n.ok()
{
    reveal(Vfs::ok);
    assert forall|e: int| 0 <= e < n.heap@.len() && (#[trigger] n.heap@[e]).file_index is Some implies ix(n.heap@[e].file_index->0) < n.files@.len() && n.files@[ix(n.heap@[e].file_index->0)].file_entry.0 == e by {
        if k is FileEntry && k->FileEntry_0.0 == e { } else { assert(o.heap@[e].file_index == n.heap@[e].file_index); let v = o.heap@[e].file_index->0; assert(same_place(o.files@[ix(v)], n.files@[ix(v)])); }
    }
    assert forall|q: PathWithScheme| #[trigger] n.tree@.dom().contains(q) implies (match n.tree@[q] {
                DirectoryEntry::File(e) => e.0 < n.heap@.len() && (n.heap@[e.0 as int].file_index is Some ==> n.files@[ix(n.heap@[e.0 as int].file_index->0)].path == q),
                DirectoryEntry::MissingEntry(x) => x.invalidations.v() is Some && valid(x.invalidations.v()->0, n.entries()),
                _ => true,
            }) by {
        if q != p {
            assert(o.tree@.dom().contains(q));
            if n.tree@[q] is File {
                let e = n.tree@[q]->File_0;
                assert(!(k is FileEntry && k->FileEntry_0 == e));
                assert(n.heap@[e.0 as int].file_index == o.heap@[e.0 as int].file_index);
                if n.heap@[e.0 as int].file_index is Some { let v = o.heap@[e.0 as int].file_index->0; assert(same_place(o.files@[ix(v)], n.files@[ix(v)])); }
            }
        }
    }
    assert forall|a: PathWithScheme, b: PathWithScheme| #[trigger] n.tree@.dom().contains(a) && #[trigger] n.tree@.dom().contains(b) && n.tree@[a] is File && n.tree@[a] == n.tree@[b] implies a == b by {
        assert(a != p ==> o.tree@.dom().contains(a)); assert(b != p ==> o.tree@.dom().contains(b));
    }
    assert forall|q: PathWithScheme| (#[trigger] n.open_as(q)) is Some implies n.tree@.dom().contains(q) && n.tree@[q] is File && n.heap@[n.tree@[q]->File_0.0 as int].file_index == n.open_as(q) by {
        if q != p { assert(o.open_as(q) == n.open_as(q)); assert(o.tree@.dom().contains(q)); let e = n.tree@[q]->File_0; assert(!(k is FileEntry && k->FileEntry_0 == e)); assert(n.heap@[e.0 as int].file_index == o.heap@[e.0 as int].file_index); }
    }
    assert forall|q: PathWithScheme| #[trigger] n.in_memory_files.m().contains_key(q) && n.in_memory_files.m()[q] is File implies ix(n.in_memory_files.m()[q]->File_0) < n.files@.len() by {
        if q != p { assert(o.in_memory_files.m().contains_key(q)); }
    }
}
#[verifier::external_body]
fn vx_extend(a: &mut FastHashSet<FileIndex>, b: &FastHashSet<FileIndex>) ensures final(a)@ == old(a)@.union(b@) { unimplemented!() }
spec fn gathered(d: Option<Set<FileIndex>>, db0: bool, db: bool, s0: Set<FileIndex>, s: Set<FileIndex>) -> bool { if d is None { db && s == s0 } else { db == db0 && s == s0.union(d->0) } }
fn vx_set<F>(f: &mut Vec<FileState<F>>, i: usize, x: FileState<F>) requires i < old(f)@.len(), ensures final(f)@ == old(f)@.update(i as int, x) { f.set(i, x); }
#[verifier::external_body]
fn vx_code_eq(a: Option<&str>, b: &Box<str>) -> (r: bool) ensures r == (a is Some && a->0@ == b@) { unimplemented!() }
fn vx_entry<'a>(h: &'a Vec<FileEntry>, e: EntryRef) -> (r: &'a FileEntry) requires e.0 < h@.len(), ensures *r == h@[e.0 as int] { &h[e.0] }
#[verifier::external_body]
fn vx_same_text(a: &str, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
fn vx_unload(p: &PathWithScheme) { }
fn vx_ignored() { }
struct VxMsg;
#[verifier::external_body]
fn vx_boxed(s: String) -> (r: Box<str>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_code_ne(a: &String, b: Option<&str>) -> (r: bool) ensures r == (b is None || b->0@ != a@) { unimplemented!() }
impl<F: VfsFile> Vfs<F> {
    spec fn is_open(&self, i: FileIndex) -> bool { exists|p: PathWithScheme| (#[trigger] self.open_as(p)) == Some(i) }
    spec fn open_as(&self, p: PathWithScheme) -> Option<FileIndex> { if self.in_memory_files.m().contains_key(p) && self.in_memory_files.m()[p] is File { Some(self.in_memory_files.m()[p]->File_0) } else { None } }
    /// The index of an entry is the index of a file at this entry; open files have one and are in the tree; what is
    /// looked for and missing was looked for by files.
    #[verifier::opaque]
    spec fn ok(&self) -> bool {
        &&& self.wf() && self.mem_in_range()
        &&& forall|e: int| 0 <= e < self.heap@.len() && (#[trigger] self.heap@[e]).file_index is Some ==> ix(self.heap@[e].file_index->0) < self.files@.len() && self.files@[ix(self.heap@[e].file_index->0)].file_entry.0 == e
        &&& forall|p: PathWithScheme| #[trigger] self.tree@.dom().contains(p) ==> match self.tree@[p] {
                DirectoryEntry::File(e) => e.0 < self.heap@.len() && (self.heap@[e.0 as int].file_index is Some ==> self.files@[ix(self.heap@[e.0 as int].file_index->0)].path == p),
                DirectoryEntry::MissingEntry(x) => x.invalidations.v() is Some && valid(x.invalidations.v()->0, self.entries()),
                _ => true,
            }
        &&& forall|p: PathWithScheme, q: PathWithScheme| #[trigger] self.tree@.dom().contains(p) && #[trigger] self.tree@.dom().contains(q) && self.tree@[p] is File && self.tree@[p] == self.tree@[q] ==> p == q
        &&& forall|p: PathWithScheme| (#[trigger] self.open_as(p)) is Some ==> self.tree@.dom().contains(p) && self.tree@[p] is File && self.heap@[self.tree@[p]->File_0.0 as int].file_index == self.open_as(p)
    }
    spec fn known(&self, p: PathWithScheme) -> Option<FileIndex> { if look(self.tree@, p) is Some && look(self.tree@, p)->0 is File { self.heap@[look(self.tree@, p)->0->File_0.0 as int].file_index } else { None } }
    /// Who looked for p in vain
    spec fn looking(&self, p: PathWithScheme) -> Set<FileIndex> { if look(self.tree@, p) is Some && look(self.tree@, p)->0 is MissingEntry && look(self.tree@, p)->0->MissingEntry_0.invalidations.v() is Some { look(self.tree@, p)->0->MissingEntry_0.invalidations.v()->0 } else { Set::empty() } }
    /// What storing a file comes to
    spec fn stored(&self, o: Vfs<F>, p: PathWithScheme, code: Seq<char>, i: FileIndex, r: InvalidationResult) -> bool {
        &&& self.handler@.contains(p)
        &&& if o.known(p) is Some {
            &&& o.known(p) == Some(i)
            &&& if o.files@[ix(i)].file.0 is Some && o.files@[ix(i)].file.0->0.text() == code {
                r == InvalidationResult::InvalidatedFiles && self.files@ == o.files@ && self.heap@ == o.heap@ && self.handler@ == o.handler@.insert(p)
            } else { exists|b: Vfs<F>, mid: Vfs<F>| #[trigger] self.stored_anew(o, b, mid, p, i, r) }
        } else { exists|t: Tr<F>| #[trigger] self.stored_new(o, t, p, i, r) }
    }
    /// The file was known: its dependents are invalidated and it has the new contents.
    spec fn stored_anew(&self, o: Vfs<F>, b: Vfs<F>, mid: Vfs<F>, p: PathWithScheme, i: FileIndex, r: InvalidationResult) -> bool {
        &&& b.files@ == o.files@ && b.heap@ == o.heap@ && b.handler@ == o.handler@.insert(p) && b.in_memory_files == self.in_memory_files
        &&& mid.gone(b, i, r) && self.files@ == mid.files@.update(ix(i), self.files@[ix(i)]) && mid.handler@.subset_of(self.handler@)
        &&& r == InvalidationResult::InvalidatedFiles ==> self.g() == mid.g() && self.handler@ == mid.handler@
    }
    /// The file is new: who looked for it is invalidated, and all that depend on these.
    spec fn stored_new(&self, o: Vfs<F>, t: Tr<F>, p: PathWithScheme, i: FileIndex, r: InvalidationResult) -> bool {
        &&& ix(i) == o.files@.len() && t.files0.len() == o.files@.len() + 1 && t.files0.drop_last() == o.files@ && t.roots == o.looking(p) && t.told0 == o.handler@.insert(p)
        &&& forall|v: FileIndex| ix(v) < o.files@.len() ==> #[trigger] of(t.g0, t.en, v) == of(o.g(), o.entries(), v)
        &&& r == InvalidationResult::InvalidatedFiles ==> self.stands(t, Some(i), Set::empty(), Set::empty()) && exact(t, self.seen@)
        &&& r == InvalidationResult::InvalidatedDb ==> everything(t) && self.in_memory_files@.subset_of(self.handler@)
    }
    /// add_uninitialized_file_state, for an entry that has no index
    fn vx_add_state(&mut self, file_entry: EntryRef, path: PathWithScheme, invalidates_db: bool) -> (r: FileIndex)
        requires file_entry.0 < old(self).heap@.len(), old(self).heap@[file_entry.0 as int].file_index is None, !invalidates_db, old(self).files@.len() < u32::MAX,
        ensures ix(r) == old(self).files@.len(), final(self).files@ == old(self).files@.push(FileState { path, file_entry, file: OnceLock(None) }), final(self).handler == old(self).handler, final(self).seen == old(self).seen,
            final(self).in_memory_files == old(self).in_memory_files, final(self).tree == old(self).tree, final(self).heap@ == old(self).heap@.update(file_entry.0 as int, FileEntry { file_index: Some(r), invalidations: old(self).heap@[file_entry.0 as int].invalidations }),
    {
        let r = FileIndex(self.files.len() as u32);
        self.files.push(FileState { path, file_entry, file: OnceLock::new() });
        vx_index(&mut self.heap, file_entry, r);
        r
    }
    spec fn mem_in_range(&self) -> bool { forall|p: PathWithScheme| #[trigger] self.in_memory_files.m().contains_key(p) && self.in_memory_files.m()[p] is File ==> ix(self.in_memory_files.m()[p]->File_0) < self.files@.len() }
    /// Like m, except for the contents of file i
    spec fn now(&self, m: Vfs<F>, i: FileIndex) -> bool {
        &&& self.files@ == m.files@.update(ix(i), FileState { file: self.files@[ix(i)].file, ..m.files@[ix(i)] })
        &&& self.heap == m.heap && self.handler == m.handler && self.in_memory_files == m.in_memory_files && self.seen == m.seen
    }
    /// The editor no longer holds the file: what is on disk is served, or nothing if it is gone there.
    spec fn closed(&self, o: Vfs<F>, k: InMemoryKind, p: PathWithScheme, r: InvalidationResult) -> bool {
        let b = Vfs { in_memory_files: self.in_memory_files, ..o };
        match k {
            InMemoryKind::File(i) => {
                if disk(p) is Some && o.files@[ix(i)].file.0 is Some && o.files@[ix(i)].file.0->0.text() == disk(p)->0 {
                    r == InvalidationResult::InvalidatedFiles && *self == b
                } else if disk(p) is Some {
                    exists|mid: Vfs<F>| #[trigger] mid.gone(b, i, r) && self.now(mid, i) && self.files@[ix(i)].file.0 is Some
                } else { self.gone(b, i, r) }
            }
            InMemoryKind::Gitignore(_) => r == InvalidationResult::InvalidatedFiles && *self == b,
        }
    }
}
}
fn main() {}
