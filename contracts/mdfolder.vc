@unit mdfolder
@use strings
@exc filesystem_exception
@exc illegal_state
@exc message_not_found
@exc operation_not_supported
@constants src/vmime/constants.cpp
@obj Fsf
@obj File
@obj Mset
@obj Store
@obj Fmt
@obj Fw
@obj Os
@obj InS
@type (const )?(.*::component|vmime::word|word) = stru:Comp
@type .*charset.* = stru:Cs
@type .*DirectoryType.* = u32
@type .*messageInfos::Type = u32
@type (const )?(.*::)?messageSet = stru:Mset
@type (const )?(std::)?vector<[^_]*messageInfos[^_]*> = vec:stru:Info
@type (const )?(std::)?vector<[^_]*maildirMessage[^_]*> = vec:stru:MMsg
@type (const )?(std::)?list<[^_]*maildirFolder[^_]*> = vec:stru:Fold
@type (.*::)?maildirMessage ?\* = stru:MMsg
@type (.*::)?maildirFolder ?\* = stru:Fold
@type .*fileSystemFactory.* = stru:Fsf
@type .*utility::file>?( \&)?( const)? = stru:File
@type .*fileWriter.* = stru:Fw
@type .*outputStream.* = stru:Os
@type .*inputStream.* = stru:InS
@type .*(progressListener|datetime).* = drop
@type (const )?(.*::path|path) = stru:Path
@type .*maildirStore.* = stru:Store
@type .*maildirFormat.* = stru:Fmt
@type .*(folderEvent|messageChangedEvent|messageCountEvent).* = drop
@struct vmime::word as Comp
@struct vmime::utility::path as Path
@struct vmime::net::maildir::maildirFolder::messageInfos as Info
@ctor Info 0 = info_new
@struct vmime::net::maildir::maildirMessage as MMsg
@struct vmime::net::maildir::maildirFolder as Fold
@struct vmime::net::maildir::maildirStore as Store
@extrafield Fold.disk stru:Disk
@method vmime::platform::handler::getFileSystemFactory = fsf_get stru:Fsf drop
@method vmime::utility::fileSystemFactory::create = file_at stru:File ref ref
@method vmime::utility::file::rename = file_rename? void ref ref +this.disk
@method vmime::utility::file::remove = file_remove? void ref +this.disk
@method vmime::utility::file::createFile = file_make? void ref +this.disk
@method vmime::utility::file::getFileWriter = file_writer stru:Fw ref
@method vmime::utility::fileWriter::getOutputStream = writer_out? stru:Os ref +this.disk
@method vmime::utility::outputStream::write = out_write? void ref ptr val +this.disk
@method vmime::utility::outputStream::flush = out_flush? void ref
@method vmime::utility::inputStream::eof = in_eof bool ref
@method vmime::utility::inputStream::read = in_read? usize mut ptrmut val
@extern vmime::net::maildir::maildirUtils::generateId = gen_id stru:Comp +this.disk +this.m_messageInfos
@method vmime::utility::file::createDirectory = file_mkdir? void ref drop
@extern vmime::net::messageSet::empty = set_empty stru:Mset
@method vmime::net::maildir::maildirStore::getFormat = store_format stru:Fmt ref
@method vmime::net::maildir::maildirFormat::folderPathToFileSystemPath = folder_dir stru:Path ref ref val
@method vmime::net::messageSet::isNumberSet = set_numbers bool ref
@method vmime::net::maildir::maildirMessage::getNumber = .m_num usize
@extern vmime::net::maildir::maildirUtils::messageSetToNumberList = set_list vec:usize ref val
@method vmime::net::folder::notifyMessageChanged = notify void ref drop
@method vmime::net::folder::notifyMessageCount = notify void ref drop
@method vmime::net::maildir::maildirFolder::getFullPath = .m_path stru:Path
@method vmime::utility::path::operator== = path_eq bool ref ref
@method vmime::utility::path::operator/ = path_with stru:Path ref ref
@extern vmime::net::maildir::maildirUtils::extractFlags = extract_flags i32 ref
@extern vmime::net::maildir::maildirUtils::extractId = extract_id stru:Comp ref
@extern vmime::net::maildir::maildirUtils::buildFilename = build_name stru:Comp ref val
@source src/vmime/net/maildir/maildirFolder.cpp
@rust
@include mdfolder.rs
@fn vmime::net::maildir::maildirFolder::setMessageFlags as set_flags
@throws
@requires
    ids_ok(old(this).m_messageInfos@), old(this).m_messageInfos.len() == old(this).m_messageCount,
@ensures
    final(this).m_messageInfos.len() == final(this).m_messageCount, ids_ok(final(this).m_messageInfos@),
    same_msgs(old(this).disk.f@, old(this).m_messageInfos@, final(this).disk.f@, final(this).m_messageInfos@, dir_of(old(this).m_path.m_list@, 2)),
    rest_same(old(this).disk.f@, final(this).disk.f@, dir_of(old(this).m_path.m_list@, 2), old(this).m_messageInfos@),
    final(this).m_path == old(this).m_path, final(this).disk.broken == old(this).disk.broken,
    res is Ok ==> ({ let n = nums_of(*msgs, old(this).m_messageInfos.len() as nat);
        &&& by_number(*msgs)
        &&& forall|k: int| 0 <= k < n.len() ==> 1 <= #[trigger] n[k] <= old(this).m_messageInfos.len()
        &&& forall|i: int| 0 <= i < old(this).m_messageInfos.len() ==> if has_num(n, i) { flagged(old(this).m_messageInfos@[i], #[trigger] final(this).m_messageInfos@[i], mode, flags, !old(this).disk.broken@ && text_of(old(this).disk.f@, dir_of(old(this).m_path.m_list@, 2), nm(old(this).m_messageInfos@[i])) is Some) } else { final(this).m_messageInfos@[i] == old(this).m_messageInfos@[i] }
        &&& final(this).m_messages.len() == old(this).m_messages.len()
        &&& forall|i: int| 0 <= i < old(this).m_messages.len() ==> #[trigger] final(this).m_messages@[i] == obj_set(old(this).m_messages@[i], n, mode, flags)
    }),
@hint start
    let ghost d0 = this.disk.f@; let ghost v0 = this.m_messageInfos@; let ghost o0 = this.m_messages@; let ghost dir = dir_of(this.m_path.m_list@, 2); let ghost br = this.disk.broken@;
@loop 1 xinvariant
    it <= nums.len(), nums@ == nums_of(*msgs, v0.len()), this.m_messageCount == v0.len(), this.m_messageInfos.len() == v0.len(), this.m_messages@ == o0, this.disk.broken@ == br, this.m_path == old(this).m_path, curDirPath.m_list@ == dir, by_number(*msgs),
    ids_ok(this.m_messageInfos@), same_msgs(d0, v0, this.disk.f@, this.m_messageInfos@, dir), rest_same(d0, this.disk.f@, dir, v0),
    forall|k: int| 0 <= k < it ==> 1 <= #[trigger] nums@[k] <= v0.len(),
    forall|i: int| 0 <= i < v0.len() ==> if has_num(nums@.take(it as int), i) { flagged(v0[i], #[trigger] this.m_messageInfos@[i], mode, flags, !br && text_of(d0, dir, nm(v0[i])) is Some) } else { this.m_messageInfos@[i] == v0[i] },
@loop 1 decreases
    nums.len() - it
@hint loop 1 begin
    let ghost d1 = this.disk.f@; let ghost v1 = this.m_messageInfos@;
@hint decl newPath
    proof { axiom_name(id_in(nm(v1[num as int])), newFlags); lemma_pk(dir, path); lemma_pk(dir, newPath); }
@hint loop 1 end
    proof {
        let v2 = this.m_messageInfos@; let d2 = this.disk.f@; let t = nm(v2[num as int]); let n = num as int;
        let k = fkey(dir, nm(v1[n])); assert(id_in(nm(v1[n])) == id_in(nm(v0[n])));
        if d2 != d1 || v2[n] != v1[n] { assert(d1.dom().contains(k)); assert(d2 == d1.remove(k).insert(fkey(dir, t), d1[k])); lemma_step(d1, dir, v1, n, t, n); }
        assert forall|i: int| 0 <= i < v0.len() implies id_in(nm(#[trigger] v2[i])) == id_in(nm(v0[i])) && text_of(d2, dir, nm(v2[i])) == text_of(d0, dir, nm(v0[i])) && if has_num(nums@.take(it + 1), i) { flagged(v0[i], v2[i], mode, flags, !br && text_of(d0, dir, nm(v0[i])) is Some) } else { v2[i] == v0[i] } by {
            assert(id_in(nm(v1[i])) == id_in(nm(v0[i]))); lemma_num(nums@, it as int, i);
            if d2 != d1 || v2[n] != v1[n] { lemma_step(d1, dir, v1, n, t, i); }
            lemma_again(mode, flags, flags_in(nm(v0[i])));
        }
        assert forall|x: Seq<Seq<u8>>| !of_msgs(x, dir, v0) implies #[trigger] at(d0, x) == at(d2, x) by { lemma_of_msgs(x, dir, v0, v1); assert(at(d0, x) == at(d1, x)); }
        assert(ids_ok(v2));
    }
@hint loop 2 pre
    let ghost v9 = this.m_messageInfos; let ghost d9 = this.disk;
@loop 2 invariant
    it <= o0.len(), this.m_messages.len() == o0.len(), forall|i: int| 0 <= i < o0.len() ==> #[trigger] this.m_messages@[i] == (if i < it { obj_set(o0[i], nums@, mode, flags) } else { o0[i] }),
    this.m_messageInfos == v9, this.disk == d9, this.m_messageCount == v0.len(), this.m_path == old(this).m_path,
@loop 2 decreases
    o0.len() - it
@hint loop 3 pre
    let ghost v9 = this.m_messageInfos; let ghost d9 = this.disk;
@loop 3 invariant
    it <= o0.len(), this.m_messages.len() == o0.len(), forall|i: int| 0 <= i < o0.len() ==> #[trigger] this.m_messages@[i] == (if i < it { obj_set(o0[i], nums@, mode, flags) } else { o0[i] }),
    this.m_messageInfos == v9, this.disk == d9, this.m_messageCount == v0.len(), this.m_path == old(this).m_path,
@loop 3 decreases
    o0.len() - it
@hint loop 4 pre
    let ghost v9 = this.m_messageInfos; let ghost d9 = this.disk;
@loop 4 invariant
    it <= o0.len(), this.m_messages.len() == o0.len(), forall|i: int| 0 <= i < o0.len() ==> #[trigger] this.m_messages@[i] == (if i < it { obj_set(o0[i], nums@, mode, flags) } else { o0[i] }),
    this.m_messageInfos == v9, this.disk == d9, this.m_messageCount == v0.len(), this.m_path == old(this).m_path,
@loop 4 decreases
    o0.len() - it
@hint loop 1 post
    proof { assert(nums@.take(nums.len() as int) =~= nums@); }
@fn vmime::net::maildir::maildirFolder::expunge as expunge
@throws
@requires
    ids_ok(old(this).m_messageInfos@), old(this).m_messageInfos.len() == old(this).m_messageCount, old(this).m_messageCount < 0x1000_0000_0000_0000,
@ensures
    final(this).m_messageInfos.len() == final(this).m_messageCount, ids_ok(final(this).m_messageInfos@),
    res is Err ==> final(this).m_messageInfos == old(this).m_messageInfos && final(this).disk == old(this).disk,
    res is Ok ==> final(this).m_messageInfos@ == kept(old(this).m_messageInfos@),
    forall|k: Seq<Seq<u8>>| !gone(k, dir_of(old(this).m_path.m_list@, 2), old(this).m_messageInfos@, old(this).m_messageInfos.len() as int) ==> #[trigger] at(final(this).disk.f@, k) == at(old(this).disk.f@, k),
    res is Ok && !old(this).disk.broken@ ==> forall|k: Seq<Seq<u8>>| #[trigger] gone(k, dir_of(old(this).m_path.m_list@, 2), old(this).m_messageInfos@, old(this).m_messageInfos.len() as int) ==> at(final(this).disk.f@, k) is None,
    final(this).m_messages.len() == old(this).m_messages.len(),
    res is Ok ==> forall|i: int| 0 <= i < old(this).m_messages.len() ==> obj_done(old(this).m_messages@[i], #[trigger] final(this).m_messages@[i], old(this).m_messageInfos@, (old(this).m_messageInfos.len() + 1) as int),
@hint start
    let ghost d0 = this.disk.f@; let ghost v0 = this.m_messageInfos@; let ghost o0 = this.m_messages@; let ghost dir = dir_of(this.m_path.m_list@, 2); let ghost br = this.disk.broken@;
@hint loop 1 pre
    proof {
        lemma_cnt_step(v0, 0);
        assert forall|i: int| 0 <= i < o0.len() implies obj_done(o0[i], #[trigger] this.m_messages@[i], v0, 1) by { assert(min2(o0[i].m_num - 1, 0) == 0 || min2(o0[i].m_num - 1, 0) == -1); }
        assert forall|k: Seq<Seq<u8>>| !gone(k, dir, v0, 0) by { }
    }
@loop 1 xinvariant
    1 <= num <= v0.len() + 1, this.m_messageInfos@ == v0, this.m_messageCount == v0.len(), this.disk.broken@ == br, curDirPath.m_list@ == dir, unreadCount < num,
    nums.len() == cnt(v0, num - 1), forall|k: int| 0 <= k < nums.len() ==> 1 <= #[trigger] nums@[k] < num && del(v0, nums@[k] - 1), forall|a: int, b: int| 0 <= a < b < nums.len() ==> #[trigger] nums@[a] < #[trigger] nums@[b],
    this.m_messages.len() == o0.len(), forall|i: int| 0 <= i < o0.len() ==> obj_done(o0[i], #[trigger] this.m_messages@[i], v0, num as int),
    forall|k: Seq<Seq<u8>>| !gone(k, dir, v0, num - 1) ==> #[trigger] at(this.disk.f@, k) == at(d0, k),
    !br ==> forall|k: Seq<Seq<u8>>| #[trigger] gone(k, dir, v0, num - 1) ==> at(this.disk.f@, k) is None,
@loop 1 decreases
    v0.len() + 1 - num
@hint loop 1 begin
    let ghost d1 = this.disk.f@; let ghost o1 = this.m_messages@; let ghost n1 = nums@;
    proof { lemma_cnt_step(v0, num - 1); lemma_cnt_le(v0, num - 1, num - 1); lemma_pk(dir, v0[num - 1].path); }
@loop 2 invariant
    it <= o0.len(), this.m_messageInfos@ == v0, this.m_messageCount == v0.len(), this.disk.broken@ == br, this.disk.f@ == d1, del(v0, num - 1), curNum == num - cnt(v0, num - 1), curNum >= 1, nums@ == n1.push(num),
    this.m_messages.len() == o0.len(), forall|i: int| 0 <= i < o0.len() ==> obj_done(o0[i], #[trigger] this.m_messages@[i], v0, if i < it { num + 1 } else { num as int }),
@loop 2 decreases
    o0.len() - it
@hint loop 2 begin
    let ghost ob = this.m_messages@[it as int]; let ghost oo = o0[it as int];
    proof {
        assert(obj_done(oo, ob, v0, num as int)); lemma_cnt_step(v0, 0); let n = oo.m_num as int;
        if 1 <= n < num { lemma_cnt_step(v0, n - 1); lemma_cnt_le(v0, n, num - 1); lemma_cnt_le(v0, n - 1, n - 1); assert(min2(n - 1, num - 1) == n - 1 && min2(n - 1, num as int) == n - 1); }
        else if n == 0 { }
        else { assert(min2(n - 1, num - 1) == num - 1); if n > num { assert(min2(n - 1, num as int) == num); } else { assert(min2(n - 1, num as int) == num - 1); } }
    }
@hint loop 2 end
    proof { assert(obj_done(oo, this.m_messages@[it as int], v0, num + 1)); }
@hint loop 1 end
    proof {
        let d2 = this.disk.f@; let key = fkey(dir, nm(v0[num - 1]));
        assert forall|k: Seq<Seq<u8>>| gone(k, dir, v0, num as int) == (#[trigger] gone(k, dir, v0, num - 1) || del(v0, num - 1) && k == key) by {
            if gone(k, dir, v0, num as int) { let i = choose|i: int| 0 <= i < num && del(v0, i) && k == fkey(dir, nm(#[trigger] v0[i])); if i < num - 1 { assert(gone(k, dir, v0, num - 1)); } }
            if gone(k, dir, v0, num - 1) { let i = choose|i: int| 0 <= i < num - 1 && del(v0, i) && k == fkey(dir, nm(#[trigger] v0[i])); assert(gone(k, dir, v0, num as int)); }
            if del(v0, num - 1) && k == key { assert(k == fkey(dir, nm(v0[num - 1]))); }
        }
        if !del(v0, num - 1) {
            assert forall|i: int| 0 <= i < o0.len() implies obj_done(o0[i], #[trigger] this.m_messages@[i], v0, num + 1) by { assert(obj_done(o0[i], o1[i], v0, num as int)); let n = o0[i].m_num as int; if n - 1 <= num - 1 { assert(min2(n - 1, num - 1) == min2(n - 1, num as int)); } else { assert(min2(n - 1, num as int) == num); assert(min2(n - 1, num - 1) == num - 1); } }
        }
        assert forall|k: Seq<Seq<u8>>| !gone(k, dir, v0, num as int) implies #[trigger] at(d2, k) == at(d0, k) by { assert(gone(k, dir, v0, num - 1) == false); assert(at(d1, k) == at(d0, k)); }
        if !br { assert forall|k: Seq<Seq<u8>>| #[trigger] gone(k, dir, v0, num as int) implies at(d2, k) is None by { if gone(k, dir, v0, num - 1) { assert(at(d1, k) is None); } } }
    }
@hint loop 3 pre
    proof { assert(this.m_messageInfos@ == v0); }
@loop 3 invariant
    i <= nums.len(), this.m_messageInfos.len() == v0.len() - (nums.len() - i), kept(this.m_messageInfos@) == kept(v0), cnt(this.m_messageInfos@, this.m_messageInfos.len() as int) == i,
    i > 0 ==> nums@[i - 1] <= this.m_messageInfos.len() && forall|k: int| 0 <= k < nums@[i - 1] ==> #[trigger] this.m_messageInfos@[k] == v0[k],
@loop 3 decreases
    i
@hint loop 3 begin
    let ghost w = this.m_messageInfos@; let ghost p = nums@[i - 1] - 1;
    proof { assert(w[p] == v0[p]); lemma_kept_remove(w, p); lemma_cnt_le(w, 0, w.len() as int); if i > 1 { assert(nums@[i - 2] < nums@[i - 1]); } }
@hint loop 4 pre
    let ghost this9 = *this;
    proof { lemma_kept_none(this.m_messageInfos@); lemma_kept_ids(v0); }
@loop 4 invariant
    it <= store.m_folders.len(), this.m_messageInfos@ == this9.m_messageInfos@, this.m_messageCount == this9.m_messageCount, this.m_messages@ == this9.m_messages@, this.disk == this9.disk,
@loop 4 decreases
    store.m_folders.len() - it
@fn vmime::net::maildir::maildirFolder::copyMessageImpl as copy_impl
@throws
@requires
    old(is_).wf(), pk(tmpDirPath.m_list@) != pk(dstDirPath.m_list@),
    !old(this).disk.f@.dom().contains(fkey(tmpDirPath.m_list@, filename.m_buffer@)), !old(this).disk.f@.dom().contains(fkey(dstDirPath.m_list@, filename.m_buffer@)),
@ensures
    final(this).disk.broken == old(this).disk.broken, same_but_disk(*old(this), *final(this)),
    final(this).disk.f@.remove(fkey(tmpDirPath.m_list@, filename.m_buffer@)).remove(fkey(dstDirPath.m_list@, filename.m_buffer@)) =~= old(this).disk.f@,
    res is Ok ==> at(final(this).disk.f@, fkey(dstDirPath.m_list@, filename.m_buffer@)) == Some(old(is_).data().skip(old(is_).pos())) && at(final(this).disk.f@, fkey(tmpDirPath.m_list@, filename.m_buffer@)) is None,
    res is Err ==> res->Err_0.kind == sEXC_command_error() && at(final(this).disk.f@, fkey(dstDirPath.m_list@, filename.m_buffer@)) is None,
    res is Err && !old(this).disk.broken@ ==> at(final(this).disk.f@, fkey(tmpDirPath.m_list@, filename.m_buffer@)) is None,
@hint start
    let ghost d0 = this.disk.f@; let ghost tk = fkey(tmpDirPath.m_list@, filename.m_buffer@); let ghost dk = fkey(dstDirPath.m_list@, filename.m_buffer@); let ghost i0 = is_.data(); let ghost p0 = is_.pos(); let ghost br = this.disk.broken@; let ghost this0 = *this;
    proof { lemma_pk(tmpDirPath.m_list@, *filename); lemma_pk(dstDirPath.m_list@, *filename); assert(tk.drop_last() =~= pk(tmpDirPath.m_list@) && dk.drop_last() =~= pk(dstDirPath.m_list@)); }
@loop 1 xinvariant
    is_.wf(), is_.data() == i0, p0 <= is_.pos() <= i0.len(), buffer.len() == 65536, exc3_ is None, this.disk.broken@ == br, same_but_disk(this0, *this), tk != dk, os.path() == file.path(), pk(file.path()) == tk,
    this.disk.f@.remove(tk).remove(dk) =~= d0, at(this.disk.f@, dk) is None, at(this.disk.f@, tk) == Some(i0.subrange(p0, is_.pos())),
@loop 1 ensures
    this.disk.broken@ == br, same_but_disk(this0, *this), is_.wf(), this.disk.f@.remove(tk).remove(dk) =~= d0, at(this.disk.f@, dk) is None,
    exc3_ is None ==> at(this.disk.f@, tk) == Some(i0.subrange(p0, i0.len() as int)),
@hint loop 1 begin
    let ghost d1 = this.disk.f@; let ghost p1 = is_.pos();
@hint loop 1 end
    proof { let x = i0.subrange(p0, p1); let y = i0.subrange(p1, is_.pos()); assert(x + y =~= i0.subrange(p0, is_.pos())); if read > 0 { assert(buffer@.subrange(0, 0 + read) == y); assert(d1[tk] == x); assert(pk(os.path()) == tk); assert(this.disk.f@ == d1.insert(pk(os.path()), d1[pk(os.path())] + buffer@.subrange(0usize as int, 0usize + read))); assert(this.disk.f@ == d1.insert(tk, x + y)); } else { assert(this.disk.f@ == d1); assert(at(d1, tk) == Some(x)); assert(y =~= Seq::empty()); } }
@fn vmime::net::maildir::maildirFolder::addMessage ~inputStream~ as add_message
@throws
@requires
    old(is_).wf(), ids_ok(old(this).m_messageInfos@), old(this).m_messageInfos.len() == old(this).m_messageCount, old(this).m_messageCount < 0x1000_0000_0000_0000, old(this).m_unreadMessageCount < 0x1000_0000_0000_0000,
@ensures
    final(this).m_messageInfos.len() == final(this).m_messageCount, ids_ok(final(this).m_messageInfos@), final(this).m_messages == old(this).m_messages,
    res is Err ==> final(this).m_messageInfos == old(this).m_messageInfos && final(this).m_unreadMessageCount == old(this).m_unreadMessageCount,
    forall|k: Seq<Seq<u8>>| old(this).disk.f@.dom().contains(k) ==> #[trigger] at(final(this).disk.f@, k) == at(old(this).disk.f@, k),
    res is Ok ==> ({ let n = final(this).m_messageInfos@.last(); let f = if flags == -1 { 0 } else { flags }; let dir = dir_of(old(this).m_path.m_list@, if flags == 2 { 1 } else { 2 });
        &&& final(this).m_messageInfos@ == old(this).m_messageInfos@.push(n)
        &&& flags_in(nm(n)) == keep(f) && n.type_ == (if f & 4 != 0 { 1u32 } else { 0u32 })
        &&& text_of(final(this).disk.f@, dir, nm(n)) == Some(old(is_).data().skip(old(is_).pos()))
        &&& final(this).m_unreadMessageCount == old(this).m_unreadMessageCount + (if f & 1 == 0 { 1int } else { 0int })
    }),
@hint start
    let ghost d0 = this.disk.f@; let ghost v0 = this.m_messageInfos@; let ghost p0 = this.m_path.m_list@; let ghost i0 = is_.data().skip(is_.pos()); let ghost un = this.m_unreadMessageCount as int;
@hint before ~copy_impl~
    let ghost id = id_in(filename.m_buffer@); let ghost tk = fkey(tmpDirPath.m_list@, filename.m_buffer@); let ghost dk = fkey(dstDirPath.m_list@, filename.m_buffer@);
    proof {
        axiom_dirs(p0, if flags == 2 { 1i32 } else { 2i32 });
        assert(tk.last() == filename.m_buffer@ && dk.last() == filename.m_buffer@); assert(!d0.dom().contains(tk) && !d0.dom().contains(dk));
    }
@hint after ~copy_impl~
    let ghost d1 = this.disk.f@;
    proof {
        assert forall|k: Seq<Seq<u8>>| d0.dom().contains(k) implies #[trigger] at(d1, k) == at(d0, k) by { assert(k != tk && k != dk); assert(d1.remove(tk).remove(dk).dom().contains(k)); assert(d1.remove(tk).remove(dk)[k] == d0[k]); }
    }
@hint loop 1 pre
    let ghost this9 = *this;
    proof {
        let v = this.m_messageInfos@; let n = v.last(); let f: i32 = if flags == -1 { 0 } else { flags };
        assert(keep(f) & 4 == f & 4) by { assert((f & 125) & 4 == f & 4) by (bit_vector); }
        assert(v == v0.push(n));
        assert(flags_in(nm(n)) == keep(f));
        assert(n.type_ == (if f & 4 != 0 { 1u32 } else { 0u32 }));
        assert(text_of(this.disk.f@, dir_of(p0, if flags == 2 { 1 } else { 2 }), nm(n)) == Some(i0));
        assert(0i32 & 1i32 == 0i32) by (bit_vector);
        assert(this.m_unreadMessageCount == un + (if f & 1 == 0 { 1int } else { 0int }));
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies id_in(nm(#[trigger] v[i])) != id_in(nm(#[trigger] v[j])) by { if j < v0.len() { assert(v[i] == v0[i] && v[j] == v0[j]); } else { assert(v[i] == v0[i]); } }
        assert forall|i: int| 0 <= i < v.len() implies plain_id(id_in(nm(#[trigger] v[i]))) by { if i < v0.len() { assert(v[i] == v0[i]); } }
    }
@loop 1 invariant
    it <= store.m_folders.len(), *this == this9,
@loop 1 decreases
    store.m_folders.len() - it
