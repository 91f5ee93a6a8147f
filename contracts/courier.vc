@unit courier
@use strings
@exc filesystem_exception
@constants src/vmime/constants.cpp
@obj Fsf
@obj File
@obj FIter
@type (const )?(.*::component|vmime::word|word) = stru:Comp
@type .*charset.* = stru:Cs
@type .*vector<.*string.*> = vec:str
@ctor Cs 1 = cs_of ptr
@type .*DirectoryType.* = u32
@type .*fileSystemFactory.* = stru:Fsf
@type .*fileIterator.* = stru:FIter
@type .*utility::file>?( \&)?( const)? = stru:File
@type (const )?(.*::path|path) = stru:Path
@type (const )?(std::)?vector<[^_]*path[^_]*>( \&)? = vec:stru:Path
@type (const )?(std::)?vector<[^_]*(component|word)[^_]*>( \&)? = vec:stru:Comp
@type (.*::)?list = vec:stru:Comp
@type .*context.* = drop
@struct vmime::word as Comp
@struct vmime::utility::path as Path
@struct vmime::net::maildir::format::courierMaildirFormat as Cour
@extrafield Cour.disk stru:Disk
@method vmime::word::isEquivalent = comp_same bool ref ref
@method vmime::word::getConvertedText = comp_text str ref ref
@method vmime::word::getBuffer = .m_buffer str
@method vmime::net::maildir::maildirStore::getFileSystemPath = store_path stru:Path drop
@method vmime::platform::handler::getFileSystemFactory = fsf_get stru:Fsf drop
@method vmime::utility::fileSystemFactory::create = file_at stru:File ref ref
@method vmime::utility::file::exists = file_exists bool ref
@method vmime::utility::file::isDirectory = file_isdir bool ref
@method vmime::utility::file::getFullPath = file_path stru:Path ref
@method vmime::utility::file::getFiles = file_list stru:FIter ref
@method vmime::utility::fileIterator::hasMoreElements = it_more bool ref
@method vmime::utility::fileIterator::nextElement = it_next stru:File mut
@method vmime::utility::file::rename = file_rename? void ref ref +this.disk
@extern vmime::net::maildir::maildirUtils::recursiveFSDelete = rec_delete void ref +this.disk
@extern vmime::charset::convert = utf7_convert void ref mut ref ref
@ctor Comp 2 = comp_make ref ref
@ctor Comp 1 = comp_of ref
@ctor Comp 0 = comp_new
@ctor Path 0 = path_new
@source src/vmime/utility/path.cpp
@rust
pub struct Cs { pub name: Vec<u8> }
@include path_common.rs
@rust
#[verifier::external_body] pub fn comp_same(a: &Comp, b: &Comp) -> (r: bool) ensures r == same_name(*a, *b) { unimplemented!() }   // proved in unit path
@rust
@include courier_fs.rs
@fn vmime::utility::path::path ~void ()~ as path_new
@ensures
    res.m_list@ == Seq::<Comp>::empty(),
@fn vmime::utility::path::path ~void (const path &)~ as path_copy
@ensures
    res.m_list@ == p.m_list@,
@fn vmime::utility::path::operator/= ~component &)~ as path_append
@ensures
    final(this).m_list@ == old(this).m_list@.push(*c),
@fn vmime::utility::path::getSize as path_size
@ensures
    res == this.m_list.len(),
@fn vmime::utility::path::isRoot as path_root
@ensures
    res == (this.m_list.len() == 0),
@fn vmime::utility::path::renameParent as path_rename
@ensures
    final(this).m_list@ == (if old(this).m_list.len() > 0 && is_prefix(oldPath.m_list@, old(this).m_list@) { newPath.m_list@ + old(this).m_list@.skip(oldPath.m_list.len() as int) } else { old(this).m_list@ }),
@hint start
    let ghost l0 = this.m_list@;
@loop 1 invariant
    i <= oldPath.m_list.len(), this.m_list@ == l0, oldPath.m_list.len() <= l0.len(), equal ==> forall|k: int| 0 <= k < i ==> same_name(#[trigger] oldPath.m_list@[k], l0[k]), !equal ==> i > 0 && !is_prefix(oldPath.m_list@, l0),
@loop 1 decreases
    oldPath.m_list.len() - i
@hint loop 1 end
    proof { assert(!equal ==> !same_name(oldPath.m_list@[i as int], l0[i as int])); }
@loop 2 invariant
    j <= newPath.m_list.len(), this.m_list@ == l0, newList@ == newPath.m_list@.take(j as int),
@loop 2 decreases
    newPath.m_list.len() - j
@hint loop 2 end
    proof { assert(newList@ =~= newPath.m_list@.take(j as int + 1)); }
@loop 3 invariant
    i <= j <= l0.len(), this.m_list@ == l0, newList@ == newPath.m_list@ + l0.subrange(i as int, j as int),
@loop 3 decreases
    l0.len() - j
@hint loop 3 pre
    proof { assert(newList@ =~= newPath.m_list@ + l0.subrange(i as int, i as int)); }
@hint loop 3 end
    proof { assert(newList@ =~= newPath.m_list@ + l0.subrange(i as int, j as int + 1)); }
@hint after ~vec_copy_Comp~
    proof { assert(this.m_list@ =~= newPath.m_list@ + l0.skip(oldPath.m_list.len() as int)); }
@fn vmime::utility::path::getLastComponent ~const~ as path_last
@requires
    this.m_list.len() > 0,
@ensures
    res == this.m_list@.last(),
@fn vmime::utility::path::operator/ ~component &)~ as path_divc
@ensures
    res.m_list@ == this.m_list@.push(*c),
@fn vmime::utility::path::operator[] ~(const size_t) const~ as path_at
@requires
    x < this.m_list.len(),
@ensures
    res == this.m_list@[x as int],
@source src/vmime/net/maildir/format/courierMaildirFormat.cpp
@fn vmime::net::maildir::format::courierMaildirFormat::toModifiedUTF7 as to_mu
@ensures
    res@ == enc(comp_in(*text, utf8_name())), no_ch(res@, 46), no_ch(res@, 47),
@hint loop 1 pre
    proof { reveal(mu); assert(cvt@.take(0) =~= Seq::empty()); axiom_c7(*text); assert(out@ =~= mu(cvt@.take(0)).o); assert(cvt@.take(cvt.len() as int) =~= cvt@); }
@loop 1 invariant
    it <= cvt.len(), out@ == mu(cvt@.take(it as int)).o, inB64sequence == mu(cvt@.take(it as int)).b,
@loop 1 decreases
    cvt.len() - it
@hint loop 1 begin
    let ghost i0 = it as int; let ghost o0 = out@;
    proof { lemma_mu_push(cvt@.take(i0), cvt@[i0]); assert(cvt@.take(i0 + 1) =~= cvt@.take(i0).push(cvt@[i0])); }
@hint loop 1 end
    proof { assert(out@ =~= mu(cvt@.take(i0 + 1)).o); }
@hint end
    proof { lemma_mu_nodot(cvt@); }
@fn vmime::net::maildir::format::courierMaildirFormat::fromModifiedUTF7 as from_mu
@ensures
    comp_in(res, utf8_name()) == dec(text@),
@hint loop 1 pre
    proof { reveal(fm); assert(text@.take(0) =~= Seq::empty()); assert(out@ =~= fm(text@.take(0)).o); assert(text@.take(text.len() as int) =~= text@); }
@loop 1 invariant
    it <= text.len(), out@ == fm(text@.take(it as int)).o, inB64sequence == fm(text@.take(it as int)).b, prev == fm(text@.take(it as int)).p,
@loop 1 decreases
    text.len() - it
@hint loop 1 begin
    let ghost i0 = it as int; 
    proof { lemma_fm_push(text@.take(i0), text@[i0]); assert(text@.take(i0 + 1) =~= text@.take(i0).push(text@[i0])); }
@hint loop 1 end
    proof { assert(out@ =~= fm(text@.take(i0 + 1)).o); }
@fn vmime::net::maildir::format::courierMaildirFormat::folderPathToFileSystemPath as fs_path
@ensures
    type_ == 0 ==> res.m_list@ == fsdir(tx(path.m_list@)),
@hint start
    let ghost q = tx(path.m_list@);
@hint loop 1 pre
    proof { reveal(dirname); assert(q.take(0) =~= Seq::empty()); assert(folderComp@ =~= dirname(q.take(0))); assert(q.take(q.len() as int) =~= q); }
@loop 1 invariant
    i <= n, n == path.m_list.len(), folderComp@ == dirname(q.take(i as int)),
@loop 1 decreases
    n - i
@hint loop 1 begin
    let ghost i0 = i as int; let ghost f0 = folderComp@;
    proof { lemma_dirname_take(q, i0); }
@hint loop 1 end
    proof { assert(folderComp@ =~= f0.push(46) + enc(q[i0])); }
@fn vmime::net::maildir::format::courierMaildirFormat::isSubfolderDirectory as is_sub
@requires
    file.path().len() > 0,
@ensures
    res == sub_dir(*file),
@fn vmime::net::maildir::format::courierMaildirFormat::listDirectories as list_dirs
@requires
    old(dirs).len() == 0, root.m_list.len() < 0x1000_0000,
@ensures
    res == (subs(tx(root.m_list@)).len() > 0),
    forall|i: int| 0 <= i < final(dirs).len() ==> dot_first(#[trigger] names(final(dirs)@)[i]),
    !onlyTestForExistence ==> perm(names(final(dirs)@), subs(tx(root.m_list@))),
@hint start
    let ghost q = tx(root.m_list@); let ghost mut k = 0int; let ghost es = entries(store_root());
    proof { reveal(filt); reveal(dirname); assert(names(dirs@) =~= Seq::empty()); assert(es.take(es.len() as int) =~= es); assert(es.take(0) =~= Seq::empty()); assert(q.take(0) =~= Seq::empty()); assert(q.take(q.len() as int) =~= q); assert(es.skip(0) =~= es); }
@hint loop 1 pre
    proof { assert(base@ =~= dirname(q.take(0))); }
@loop 1 invariant
    i <= n, n == root.m_list.len(), base@ == dirname(q.take(i as int)), names(dirs@) == filt(es.take(0), q), dirs.len() == 0,
@loop 1 decreases
    n - i
@hint loop 1 begin
    let ghost i0 = i as int; let ghost f0 = base@;
    proof { lemma_dirname_take(q, i0); }
@hint loop 1 end
    proof { assert(base@ =~= f0.push(46) + enc(q[i0])); }
@hint loop 2 pre
    proof { assert(base@ =~= base_of(q)); }
@loop 2 xinvariant
    0 <= k <= es.len(), it.rest() == es.skip(k), base@ == base_of(q), names(dirs@) == filt(es.take(k), q), forall|j: int| 0 <= j < es.len() ==> (#[trigger] es[j]).path().len() > 0,
@loop 2 ensures
    names(dirs@) == filt(es, q),
@loop 2 decreases
    es.len() - k
@hint loop 2 begin
    let ghost d0 = dirs@; let ghost k0 = k;
    proof { lemma_filt_take(es, q, k0); assert(es.skip(k0).skip(1) =~= es.skip(k0 + 1)); assert(es.skip(k0)[0] == es[k0]); k = k0 + 1; }
@hint after ~dirs.push~
    proof { assert(names(dirs@) =~= names(d0).push(dir@)); lemma_filt_mono(es, q, k0 + 1); lemma_filt_dot(es.take(k0 + 1), q); assert(names(dirs@).len() == dirs.len()); }
@hint before ~vec_sort_str~
    let ghost ds = names(dirs@);
    proof { lemma_filt_dot(es, q); assert(ds.len() == dirs.len()); }
@hint after ~vec_sort_str~
    proof { lemma_perm_dot(names(dirs@), ds); assert(names(dirs@).len() == dirs.len()); }
@fn vmime::net::maildir::format::courierMaildirFormat::listFolders as list_folders
@requires
    root.m_list.len() < 0x1000_0000,
@ensures
    exists|d: Seq<Seq<u8>>| #[trigger] is_listing(txs(res@), d, tx(root.m_list@), recursive),
@hint start
    let ghost rn = root.m_list.len() as int;
@hint loop 1 pre
    let ghost ds = names(dirs@);
    proof { reveal(folders_of); assert(ds.take(0) =~= Seq::empty()); assert(txs(folders@) =~= folders_of(ds.take(0), rn, recursive)); assert(ds.take(ds.len() as int) =~= ds); }
@loop 1 invariant
    i <= n, n == dirs.len(), ds == names(dirs@), ds.len() == n, rn == root.m_list.len(), rn < 0x1000_0000, txs(folders@) == folders_of(ds.take(i as int), rn, recursive), forall|k: int| 0 <= k < ds.len() ==> dot_first(#[trigger] ds[k]),
@loop 1 decreases
    n - i
@hint loop 1 begin
    let ghost i0 = i as int; let ghost f0 = folders@;
    proof { lemma_folders_take(ds, rn, recursive, i0); assert(dot_first(ds[i0])); }
@hint loop 1 end
    proof { assert(txs(folders@) =~= folders_of(ds.take(i0 + 1), rn, recursive)); }
@hint loop 2 pre
    let ghost s = dir@;
    proof { lemma_sp_zero(); assert(s.take(0) =~= Seq::empty()); assert(s =~= ds[i as int].skip(1).push(46)); assert(tx(path.m_list@) =~= decs(splitat(s.take(0)).done)); }
@hint loop 2 init
    proof { lemma_occurs(s, pos, 0); }
@loop 2 invariant
    dir@ == s, prev <= s.len(), s.len() > 0, s.last() == 46, splitat(s.take(prev as int)).cur.len() == 0, tx(path.m_list@) == decs(splitat(s.take(prev as int)).done), next_dot(s, pos, prev as int),
@loop 2 decreases
    (if pos == NPOS { 0int } else { s.len() - pos + 1 })
@hint loop 2 begin
    let ghost p0 = pos as int; let ghost v0 = prev as int; let ghost l0 = path.m_list@;
@hint loop 2 end
    let ghost nx = p0 + 1;
    proof { lemma_piece(s, v0, p0); assert(p0 < dir.len()); assert forall|x: usize| (x == NPOS ==> forall|k: int| nx <= k ==> !occurs_at(s, seq![46u8], k)) && (x != NPOS ==> nx <= x && occurs_at(s, seq![46u8], x as int) && x + 1 <= s.len() && forall|k: int| nx <= k < x ==> !occurs_at(s, seq![46u8], k)) implies #[trigger] next_dot(s, x, nx) by { lemma_occurs(s, x, nx); } assert(tx(path.m_list@) =~= tx(l0).push(dec(s.subrange(v0, p0)))); assert(decs(splitat(s.take(p0 + 1)).done) =~= decs(splitat(s.take(v0)).done).push(dec(s.subrange(v0, p0)))); }
@hint loop 2 post
    proof { assert(prev == s.len()) by { if prev < s.len() { assert(s[s.len() - 1] == 46); } } assert(s.take(prev as int) =~= s); assert(tx(path.m_list@) == folder_of(ds[i as int])); assert(tx(path.m_list@).len() == path.m_list.len()); }
@hint end
    proof { assert(is_listing(txs(folders@), ds, tx(root.m_list@), recursive)); }
@fn vmime::net::maildir::format::courierMaildirFormat::folderHasSubfolders as has_subs
@requires
    path.m_list.len() < 0x1000_0000,
@ensures
    res == (subs(tx(path.m_list@)).len() > 0),
@fn vmime::net::maildir::format::courierMaildirFormat::destroyFolder as destroy
@requires
    path.m_list.len() < 0x1000_0000,
@ensures
    final(this).disk.moved == old(this).disk.moved,
    exists|l: Seq<Seq<Seq<u8>>>, d: Seq<Seq<u8>>| #[trigger] is_listing(l, d, tx(path.m_list@), true) && final(this).disk.deleted@ == old(this).disk.deleted@ + fsdirs(l).push(fsdir(tx(path.m_list@))),
@hint start
    let ghost d0 = this.disk; let ghost q = tx(path.m_list@);
@hint loop 1 pre
    let ghost fs = txs(folders@); let ghost dd = choose|d: Seq<Seq<u8>>| #[trigger] is_listing(fs, d, q, true);
    proof { assert(is_listing(fs, dd, q, true)); assert(this.disk.deleted@ =~= d0.deleted@ + fsdirs(fs.take(0))); assert(fs.take(fs.len() as int) =~= fs); }
@loop 1 invariant
    i <= n, n == folders.len(), fs == txs(folders@), this.disk.moved == d0.moved, this.disk.deleted@ == d0.deleted@ + fsdirs(fs.take(i as int)),
@loop 1 decreases
    n - i
@hint loop 1 end
    proof { assert(this.disk.deleted@ =~= d0.deleted@ + fsdirs(fs.take(i as int + 1))); }
@hint end
    proof { assert(this.disk.deleted@ =~= d0.deleted@ + fsdirs(fs).push(fsdir(q))); assert(is_listing(fs, dd, q, true)); }
@fn vmime::net::maildir::format::courierMaildirFormat::renameFolderImpl as rename_impl
@throws
@ensures
    final(this).disk.deleted == old(this).disk.deleted,
    res is Ok ==> final(this).disk.moved@ == old(this).disk.moved@.push((fsdir(tx(oldPath.m_list@)), fsdir(tx(newPath.m_list@)))),
    res is Err ==> final(this).disk.moved == old(this).disk.moved,
@fn vmime::net::maildir::format::courierMaildirFormat::renameFolder as rename_folder
@throws
@requires
    oldPath.m_list.len() < 0x1000_0000, newPath.m_list.len() < 0x1000_0000,
@ensures
    final(this).disk.deleted == old(this).disk.deleted,
    exists|l: Seq<Seq<Seq<u8>>>, d: Seq<Seq<u8>>| #[trigger] is_listing(l, d, tx(oldPath.m_list@), true) && moved_as(old(this).disk, final(this).disk, moves(l, tx(oldPath.m_list@), tx(newPath.m_list@)).push((fsdir(tx(oldPath.m_list@)), fsdir(tx(newPath.m_list@)))), res is Ok),
@hint start
    let ghost d0 = this.disk; let ghost q = tx(oldPath.m_list@); let ghost w = tx(newPath.m_list@);
@hint loop 1 pre
    let ghost fs = txs(folders@); let ghost dd = choose|d: Seq<Seq<u8>>| #[trigger] is_listing(fs, d, q, true); let ghost plan = moves(fs, q, w).push((fsdir(q), fsdir(w)));
    proof { assert(is_listing(fs, dd, q, true)); assert(this.disk.moved@ =~= d0.moved@ + plan.take(0)); assert(moved_as(d0, this.disk, plan, false)); }
@loop 1 invariant
    i <= n, n == folders.len(), fs == txs(folders@), is_listing(fs, dd, q, true), plan == moves(fs, q, w).push((fsdir(q), fsdir(w))), this.disk.deleted == d0.deleted, this.disk.moved@ == d0.moved@ + plan.take(i as int), moved_as(d0, this.disk, plan, false),
@loop 1 decreases
    n - i
@hint after ~path_rename~
    proof { lemma_ren(folderOldPath.m_list@, oldPath.m_list@, newPath.m_list@, folderNewPath.m_list@); assert(tx(folderOldPath.m_list@) == fs[i as int]); }
@hint loop 1 end
    proof { assert(this.disk.moved@ =~= d0.moved@ + plan.take(i as int + 1)); lemma_moved(d0, this.disk, plan, i as int + 1); }
@hint loop 1 post
    proof { assert(plan.take(plan.len() as int) =~= plan); assert(plan.take(n as int).push(plan[n as int]) =~= plan); }
@hint end
    proof { assert(this.disk.moved@ =~= d0.moved@ + plan); lemma_moved(d0, this.disk, plan, plan.len() as int); }
@rustpost
// a component whose name is read back from the one that is written
pub open spec fn good(c: Seq<u8>) -> bool { enc(c).len() > 0 && dec(enc(c)) == c }
pub open spec fn goods(q: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < q.len() ==> good(#[trigger] q[i]) }
pub open spec fn lead(q: Seq<Seq<u8>>) -> Seq<Seq<u8>> { seq![Seq::<u8>::empty()] + encs(q) }
pub proof fn lemma_dn_split(q: Seq<Seq<u8>>) ensures splitat(dirname(q).push(46)).done == lead(q), splitat(dirname(q).push(46)).cur.len() == 0 decreases q.len()
{
    if q.len() == 0 {
        reveal_with_fuel(dirname, 1); lemma_sp_zero(); lemma_sp_push(Seq::<u8>::empty(), 46); assert(splitat(Seq::<u8>::empty()).cur =~= Seq::<u8>::empty()); assert(splitat(dirname(q).push(46)).done =~= lead(q));
    } else {
        let d = q.drop_last(); let x = dirname(d).push(46); let e = enc(q.last()); lemma_dn_split(d); reveal_with_fuel(dirname, 2); lemma_mu_nodot(c7(q.last()));
        lemma_sp_add(x, e); lemma_sp_push(x + e, 46); assert(dirname(q) =~= x + e); assert(splitat(x).cur + e =~= e); assert(splitat(dirname(q).push(46)).done =~= lead(q));
    }
}
pub proof fn lemma_dn_first(q: Seq<Seq<u8>>) requires q.len() > 0 ensures dot_first(dirname(q)) decreases q.len()
{ reveal_with_fuel(dirname, 2); if q.len() > 1 { lemma_dn_first(q.drop_last()); } else { assert(q.drop_last().len() == 0); assert(dirname(q.drop_last()) =~= Seq::<u8>::empty()); } }
pub proof fn lemma_decs(q: Seq<Seq<u8>>) requires goods(q) ensures decs(encs(q)) == q
{ assert forall|i: int| 0 <= i < q.len() implies decs(encs(q))[i] == q[i] by { assert(good(q[i])); } assert(decs(encs(q)) =~= q); }
// the directory of a folder stands for that folder
pub proof fn lemma_folder_of(q: Seq<Seq<u8>>) requires goods(q), q.len() > 0 ensures folder_of(dirname(q)) == q
{
    let n = dirname(q); lemma_dn_first(q); lemma_dn_split(q); lemma_decs(q);
    let a = seq![46u8]; let b = n.skip(1).push(46);
    assert(n.push(46) =~= a + b); lemma_sp_zero(); lemma_sp_push(Seq::<u8>::empty(), 46); assert(a =~= Seq::<u8>::empty().push(46)); assert(splitat(Seq::<u8>::empty()).cur =~= Seq::<u8>::empty());
    lemma_sp_cat(a, b); assert(splitat(a).done =~= seq![Seq::<u8>::empty()]);
    assert(splitat(b).done =~= encs(q)) by { assert(lead(q).len() == 1 + encs(q).len()); assert((splitat(a).done + splitat(b).done).len() == 1 + splitat(b).done.len()); assert forall|i: int| 0 <= i < encs(q).len() implies splitat(b).done[i] == encs(q)[i] by { assert(lead(q)[i + 1] == encs(q)[i]); assert((splitat(a).done + splitat(b).done)[i + 1] == splitat(b).done[i]); } }
}
pub open spec fn is_below(root: Seq<Seq<u8>>, q: Seq<Seq<u8>>) -> bool { root.len() < q.len() && pre(root, q) }
pub proof fn lemma_dn_add(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) ensures dirname(a + b) == dirname(a) + dirname(b) decreases b.len()
{
    reveal_with_fuel(dirname, 2);
    if b.len() == 0 { assert(a + b =~= a); assert(dirname(a) + dirname(b) =~= dirname(a)); }
    else { lemma_dn_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(dirname(a + b) =~= dirname(a) + dirname(b)); }
}
pub proof fn lemma_dn_len(q: Seq<Seq<u8>>) requires goods(q), q.len() > 0 ensures dirname(q).len() >= 2
{ reveal_with_fuel(dirname, 2); assert(good(q.last())); }
// names and folders: a directory is taken for one below another exactly when its folder is
pub proof fn lemma_below(root: Seq<Seq<u8>>, q: Seq<Seq<u8>>)
    requires goods(root), goods(q), q.len() > 0
    ensures below(base_of(root), dirname(q)) == is_below(root, q)
{
    let n = dirname(q); let b = base_of(root);
    if root.len() > 0 {
        if is_below(root, q) {
            let rest = q.skip(root.len() as int); assert(q =~= root + rest); lemma_dn_add(root, rest); lemma_dn_first(rest); assert(goods(rest)) by { assert forall|i: int| 0 <= i < rest.len() implies good(#[trigger] rest[i]) by { assert(good(q[i + root.len()])); } } lemma_dn_len(rest);
            assert(n.subrange(0, b.len() as int) =~= b);
        }
        if below(b, n) {
            let t = n.skip(b.len() as int).push(46); assert(n.push(46) =~= b + t); lemma_dn_split(root); lemma_dn_split(q); lemma_sp_cat(b, t);
            assert(lead(q) == lead(root) + splitat(t).done);
            assert(lead(q).len() == 1 + q.len()); assert((lead(root) + splitat(t).done).len() == 1 + root.len() + splitat(t).done.len());
            assert forall|i: int| 0 <= i < root.len() implies q[i] == root[i] by { assert(lead(q)[i + 1] == enc(q[i])); assert((lead(root) + splitat(t).done)[i + 1] == lead(root)[i + 1]); assert(lead(root)[i + 1] == enc(root[i])); assert(good(q[i])); assert(good(root[i])); }
            assert(q.take(root.len() as int) =~= root);
            if q.len() == root.len() { assert(q =~= root); assert(false); }
        }
    } else { assert(q.take(0) =~= root); }
}
// a directory of the store whose name is that of folder q
pub open spec fn dir_there(q: Seq<Seq<u8>>) -> bool { exists_at(store_root()) && exists|i: int| 0 <= i < entries(store_root()).len() && (#[trigger] entries(store_root())[i]).isdir() && dname(entries(store_root())[i]) == dirname(q) }
// the directories of the store whose name begins with a dot were made for folders whose names are read back
pub open spec fn store_names() -> bool { forall|i: int| 0 <= i < entries(store_root()).len() && sub_dir(#[trigger] entries(store_root())[i]) ==> exists|q: Seq<Seq<u8>>| goods(q) && q.len() > 0 && #[trigger] dirname(q) == dname(entries(store_root())[i]) }
pub proof fn lemma_filt_has(es: Seq<File>, root: Seq<Seq<u8>>, n: Seq<u8>)
    ensures filt(es, root).contains(n) <==> exists|i: int| 0 <= i < es.len() && sub_named(root, #[trigger] es[i]) && dname(es[i]) == n
    decreases es.len()
{
    reveal_with_fuel(filt, 2);
    if es.len() > 0 {
        let d = es.drop_last(); let p = filt(d, root); lemma_filt_has(d, root, n); let r = filt(es, root);
        if r.contains(n) { let j = choose|j: int| 0 <= j < r.len() && r[j] == n; if j < p.len() { assert(p[j] == n); assert(p.contains(n)); let i = choose|i: int| 0 <= i < d.len() && sub_named(root, #[trigger] d[i]) && dname(d[i]) == n; assert(es[i] == d[i]); } else { assert(sub_named(root, es[es.len() - 1])); } }
        if exists|i: int| 0 <= i < es.len() && sub_named(root, #[trigger] es[i]) && dname(es[i]) == n {
            let i = choose|i: int| 0 <= i < es.len() && sub_named(root, #[trigger] es[i]) && dname(es[i]) == n;
            if i < d.len() { assert(d[i] == es[i]); assert(p.contains(n)); let j = choose|j: int| 0 <= j < p.len() && p[j] == n; assert(r[j] == n); } else { assert(r[r.len() - 1] == n); }
        }
    }
}
pub proof fn lemma_folders_has(d: Seq<Seq<u8>>, n: int, all: bool, f: Seq<Seq<u8>>)
    ensures folders_of(d, n, all).contains(f) <==> (all || f.len() == n + 1) && exists|i: int| 0 <= i < d.len() && folder_of(#[trigger] d[i]) == f
    decreases d.len()
{
    reveal_with_fuel(folders_of, 2);
    if d.len() > 0 {
        let e = d.drop_last(); let p = folders_of(e, n, all); lemma_folders_has(e, n, all, f); let r = folders_of(d, n, all);
        if r.contains(f) { let j = choose|j: int| 0 <= j < r.len() && r[j] == f; if j < p.len() { assert(p[j] == f); assert(p.contains(f)); let i = choose|i: int| 0 <= i < e.len() && folder_of(#[trigger] e[i]) == f; assert(d[i] == e[i]); } else { assert(folder_of(d[d.len() - 1]) == f); } }
        if (all || f.len() == n + 1) && exists|i: int| 0 <= i < d.len() && folder_of(#[trigger] d[i]) == f {
            let i = choose|i: int| 0 <= i < d.len() && folder_of(#[trigger] d[i]) == f;
            if i < e.len() { assert(e[i] == d[i]); assert(p.contains(f)); let j = choose|j: int| 0 <= j < p.len() && p[j] == f; assert(r[j] == f); } else { assert(r[r.len() - 1] == f); }
        }
    }
}
// the listing holds the folders below root (its children only if not all) that have a directory, and no other
pub proof fn property_courier_listing(l: Seq<Seq<Seq<u8>>>, d: Seq<Seq<u8>>, root: Seq<Seq<u8>>, all: bool, q: Seq<Seq<u8>>)
    requires is_listing(l, d, root, all), goods(root), store_names()
    ensures goods(q) && q.len() > 0 ==> (l.contains(q) <==> dir_there(q) && is_below(root, q) && (all || q.len() == root.len() + 1)), l.contains(q) ==> goods(q) && is_below(root, q)
{
    let es = entries(store_root());
    lemma_folders_has(d, root.len() as int, all, q);
    if l.contains(q) {
        let i = choose|i: int| 0 <= i < d.len() && folder_of(#[trigger] d[i]) == q; assert(d.contains(d[i])); lemma_perm_has(d, subs(root), d[i]); lemma_filt_has(es, root, d[i]);
        assert(exists_at(store_root())) by { if !exists_at(store_root()) { assert(subs(root).len() == 0); } }
        let k = choose|k: int| 0 <= k < es.len() && sub_named(root, #[trigger] es[k]) && dname(es[k]) == d[i];
        assert(sub_dir(es[k])); let w = choose|w: Seq<Seq<u8>>| goods(w) && w.len() > 0 && #[trigger] dirname(w) == dname(es[k]); lemma_folder_of(w); lemma_below(root, w); assert(w == q);
    }
    if goods(q) && q.len() > 0 && dir_there(q) && is_below(root, q) && (all || q.len() == root.len() + 1) {
        let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).isdir() && dname(es[k]) == dirname(q); lemma_below(root, q); lemma_dn_first(q); assert(sub_named(root, es[k])); lemma_filt_has(es, root, dirname(q));
        assert(subs(root).contains(dirname(q))); assert(perm(subs(root), d)); lemma_perm_has(subs(root), d, dirname(q)); let i = choose|i: int| 0 <= i < d.len() && d[i] == dirname(q); lemma_folder_of(q); assert(folder_of(d[i]) == q);
    }
}
// two folders with different paths have different directories; a folder below another moves to the same place below its new path
pub proof fn property_courier_dirs(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires goods(a), goods(b), dirname(a) == dirname(b)
    ensures a == b
{
    lemma_dn_split(a); lemma_dn_split(b); assert(lead(a).len() == 1 + a.len()); assert(lead(b).len() == 1 + b.len());
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(lead(a)[i + 1] == enc(a[i])); assert(lead(b)[i + 1] == enc(b[i])); assert(good(a[i])); assert(good(b[i])); }
    assert(a =~= b);
}
pub proof fn property_courier_rename(o: Seq<Seq<u8>>, rest: Seq<Seq<u8>>, n: Seq<Seq<u8>>)
    ensures rest.len() > 0 ==> ren(o + rest, o, n) == n + rest
{ assert((o + rest).take(o.len() as int) =~= o); assert((o + rest).skip(o.len() as int) =~= rest); }
// what is deleted: the directories of the folder and of the folders below it, each of them, and no other
pub proof fn property_courier_destroy(l: Seq<Seq<Seq<u8>>>, d: Seq<Seq<u8>>, root: Seq<Seq<u8>>, x: Seq<Comp>)
    requires is_listing(l, d, root, true), goods(root), store_names()
    ensures fsdirs(l).push(fsdir(root)).contains(x) <==> x == fsdir(root) || exists|q: Seq<Seq<u8>>| goods(q) && #[trigger] is_below(root, q) && dir_there(q) && x == fsdir(q)
{
    let v = fsdirs(l).push(fsdir(root));
    if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; if i < l.len() { let q = l[i]; assert(l.contains(q)); property_courier_listing(l, d, root, true, q); assert(is_below(root, q)); assert(x == fsdir(q)); } }
    if x == fsdir(root) { assert(v[v.len() - 1] == x); }
    if exists|q: Seq<Seq<u8>>| goods(q) && #[trigger] is_below(root, q) && dir_there(q) && x == fsdir(q) { let q = choose|q: Seq<Seq<u8>>| goods(q) && #[trigger] is_below(root, q) && dir_there(q) && x == fsdir(q); property_courier_listing(l, d, root, true, q); let i = choose|i: int| 0 <= i < l.len() && l[i] == q; assert(v[i] == x); }
}
