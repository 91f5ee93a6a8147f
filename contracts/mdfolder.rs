pub struct Cs { pub name: Vec<u8> }
#[verifier::external_body] pub struct Fsf { x: u8 }
#[verifier::external_body] pub struct File { x: u8 }
#[verifier::external_body] pub struct Mset { x: u8 }
#[verifier::external_body] pub struct Fmt { x: u8 }
impl File { pub uninterp spec fn path(&self) -> Seq<Comp>; }
// the files, by path; broken: the system may refuse a renaming or a removal for reasons of its own
pub struct Disk { pub f: Ghost<Map<Seq<Seq<u8>>, Seq<u8>>>, pub broken: Ghost<bool> }
pub open spec fn pk(p: Seq<Comp>) -> Seq<Seq<u8>> { Seq::new(p.len(), |i: int| p[i].m_buffer@) }
pub uninterp spec fn dir_of(p: Seq<Comp>, t: i32) -> Seq<Comp>;            // directories of a folder (layouts: unit courier)
pub uninterp spec fn id_in(t: Seq<u8>) -> Seq<u8>;                        // parts of a file name (unit mdname)
pub uninterp spec fn flags_in(t: Seq<u8>) -> i32;
pub uninterp spec fn named(id: Seq<u8>, f: i32) -> Seq<u8>;
pub uninterp spec fn plain_id(id: Seq<u8>) -> bool;                       // without colon and without "-2,"
pub open spec fn keep(f: i32) -> i32 { f & 125 }
#[verifier::external_body] pub proof fn axiom_name(id: Seq<u8>, f: i32) requires plain_id(id) ensures id_in(named(id, f)) == id, flags_in(named(id, f)) == keep(f) {}   // proved in unit mdname
#[verifier::external_body] pub fn fsf_get() -> (r: Fsf) { unimplemented!() }
#[verifier::external_body] pub fn file_at(f: &Fsf, p: &Path) -> (r: File) ensures r.path() == p.m_list@ { unimplemented!() }
#[verifier::external_body] pub fn file_rename(f: &File, to: &Path, d: &mut Disk) -> (r: Result<(), Exc>)
    ensures final(d).broken == old(d).broken, r is Ok ==> old(d).f@.dom().contains(pk(f.path())) && final(d).f@ == old(d).f@.remove(pk(f.path())).insert(pk(to.m_list@), old(d).f@[pk(f.path())]),
        r is Err ==> final(d).f == old(d).f && r->Err_0.kind == sEXC_filesystem_exception() && (old(d).broken@ || !old(d).f@.dom().contains(pk(f.path()))) { unimplemented!() }
#[verifier::external_body] pub fn file_remove(f: &File, d: &mut Disk) -> (r: Result<(), Exc>)
    ensures final(d).broken == old(d).broken, r is Ok ==> final(d).f@ == old(d).f@.remove(pk(f.path())),
        r is Err ==> final(d).f == old(d).f && r->Err_0.kind == sEXC_filesystem_exception() && (old(d).broken@ || !old(d).f@.dom().contains(pk(f.path()))) { unimplemented!() }
#[verifier::external_body] pub struct Fw { x: u8 }
#[verifier::external_body] pub struct Os { x: u8 }
#[verifier::external_body] pub struct InS { x: u8 }
impl Fw { pub uninterp spec fn path(&self) -> Seq<Comp>; }
impl Os { pub uninterp spec fn path(&self) -> Seq<Comp>; }
impl InS { pub uninterp spec fn data(&self) -> Seq<u8>; pub uninterp spec fn pos(&self) -> int; pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.data().len() < 0x0fff_ffff_ffff_ffff } }
#[verifier::external_body] pub fn clone_Fw(c: &Fw) -> (r: Fw) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn clone_Os(c: &Os) -> (r: Os) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn file_make(f: &File, d: &mut Disk) -> (r: Result<(), Exc>)
    ensures final(d).broken == old(d).broken, r is Ok ==> final(d).f@ == old(d).f@.insert(pk(f.path()), Seq::empty()), r is Err ==> final(d).f == old(d).f { unimplemented!() }
#[verifier::external_body] pub fn file_writer(f: &File) -> (r: Fw) ensures r.path() == f.path() { unimplemented!() }
// opening a file for writing empties it
#[verifier::external_body] pub fn writer_out(f: &Fw, d: &mut Disk) -> (r: Result<Os, Exc>)
    ensures final(d).broken == old(d).broken, r is Ok ==> r->Ok_0.path() == f.path() && final(d).f@ == old(d).f@.insert(pk(f.path()), Seq::empty()), r is Err ==> final(d).f == old(d).f { unimplemented!() }
#[verifier::external_body] pub fn out_write(o: &Os, b: &Vec<u8>, off: usize, n: usize, d: &mut Disk) -> (r: Result<(), Exc>)
    requires off + n <= b.len(), old(d).f@.dom().contains(pk(o.path()))
    ensures final(d).broken == old(d).broken, r is Ok ==> final(d).f@ == old(d).f@.insert(pk(o.path()), old(d).f@[pk(o.path())] + b@.subrange(off as int, off + n)), r is Err ==> exists|t: Seq<u8>| final(d).f@ == #[trigger] old(d).f@.insert(pk(o.path()), t) { unimplemented!() }
#[verifier::external_body] pub fn out_flush(o: &Os) -> (r: Result<(), Exc>) { unimplemented!() }
// a stream may fail, and give less than asked for
#[verifier::external_body] pub fn in_eof(i: &InS) -> (r: bool) ensures r ==> i.pos() == i.data().len() { unimplemented!() }
#[verifier::external_body] pub fn in_read(i: &mut InS, b: &mut Vec<u8>, off: usize, n: usize) -> (r: Result<usize, Exc>)
    requires off + n <= old(b).len(), old(i).wf()
    ensures final(i).wf(), final(b).len() == old(b).len(), final(i).data() == old(i).data(), r is Ok ==> r->Ok_0 <= n && final(i).pos() == old(i).pos() + r->Ok_0 && final(b)@.subrange(off as int, off + r->Ok_0) == old(i).data().subrange(old(i).pos(), final(i).pos()) { unimplemented!() }
#[verifier::external_body] pub fn file_mkdir(f: &File) -> (r: Result<(), Exc>) ensures r is Err ==> r->Err_0.kind == sEXC_filesystem_exception() { unimplemented!() }
#[verifier::external_body] pub fn set_empty() -> (r: Mset) { unimplemented!() }
// a new identifier: no message or file has it
#[verifier::external_body] pub fn gen_id(d: &mut Disk, v: &mut Vec<Info>) -> (r: Comp)
    ensures *final(d) == *old(d), *final(v) == *old(v), plain_id(r.m_buffer@), forall|i: int| 0 <= i < old(v).len() ==> id_in(nm(#[trigger] old(v)@[i])) != r.m_buffer@, forall|k: Seq<Seq<u8>>| #[trigger] old(d).f@.dom().contains(k) && k.len() > 0 ==> id_in(k.last()) != r.m_buffer@ { unimplemented!() }
#[verifier::external_body] pub fn info_new() -> (r: Info) { unimplemented!() }
#[verifier::external_body] pub fn clone_Info(c: &Info) -> (r: Info) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn clone_Mset(c: &Mset) -> (r: Mset) ensures r == *c { unimplemented!() }
// the directories "tmp", "new" and "cur" of a folder are different ones
#[verifier::external_body] pub proof fn axiom_dirs(p: Seq<Comp>, t: i32) requires t == 1 || t == 2 ensures pk(dir_of(p, 3)) != pk(dir_of(p, t)) {}
pub open spec fn same_but_disk(a: Fold, b: Fold) -> bool { b.m_messageInfos == a.m_messageInfos && b.m_messages == a.m_messages && b.m_messageCount == a.m_messageCount && b.m_unreadMessageCount == a.m_unreadMessageCount && b.m_path == a.m_path }
#[verifier::external_body] pub fn Store_lock(s: &Store) -> (r: Store) { unimplemented!() }
#[verifier::external_body] pub fn Store_isset(s: &Store) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn clone_Store(s: &Store) -> (r: Store) { unimplemented!() }
#[verifier::external_body] pub fn clone_Comp(c: &Comp) -> (r: Comp) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn clone_Path(c: &Path) -> (r: Path) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn clone_Fsf(c: &Fsf) -> (r: Fsf) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn clone_File(c: &File) -> (r: File) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn store_format(s: &Store) -> (r: Fmt) { unimplemented!() }
#[verifier::external_body] pub fn folder_dir(f: &Fmt, p: &Path, t: i32) -> (r: Path) ensures r.m_list@ == dir_of(p.m_list@, t) { unimplemented!() }
#[verifier::external_body] pub fn path_with(p: &Path, c: &Comp) -> (r: Path) ensures r.m_list@ == p.m_list@.push(*c) { unimplemented!() }   // proved in unit path
#[verifier::external_body] pub fn path_eq(p: &Path, c: &Path) -> (r: bool) { unimplemented!() }
pub uninterp spec fn by_number(m: Mset) -> bool;
pub uninterp spec fn nums_of(m: Mset, n: nat) -> Seq<usize>;
#[verifier::external_body] pub fn set_numbers(m: &Mset) -> (r: bool) ensures r == by_number(*m) { unimplemented!() }
#[verifier::external_body] pub fn set_list(m: &Mset, n: usize) -> (r: Vec<usize>) ensures r@ == nums_of(*m, n as nat) { unimplemented!() }   // proved in unit msetmd
#[verifier::external_body] pub fn extract_flags(c: &Comp) -> (r: i32) ensures r == flags_in(c.m_buffer@) { unimplemented!() }
#[verifier::external_body] pub fn extract_id(c: &Comp) -> (r: Comp) ensures r.m_buffer@ == id_in(c.m_buffer@) { unimplemented!() }
#[verifier::external_body] pub fn build_name(c: &Comp, f: i32) -> (r: Comp) ensures r.m_buffer@ == named(c.m_buffer@, f), plain_id(c.m_buffer@) ==> id_in(r.m_buffer@) == c.m_buffer@ && flags_in(r.m_buffer@) == keep(f) { unimplemented!() }
#[verifier::external_body] pub fn notify(f: &Fold) { unimplemented!() }
#[verifier::external_body] pub fn Fold_is_me(f: &Fold) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn vec_find_usize(v: &Vec<usize>, a: usize, b: usize, x: usize) -> (r: usize) requires a == 0, b == v.len() ensures r <= b, (r < b) == v@.contains(x) { unimplemented!() }
#[verifier::external_body] pub fn vec_resize_Info(v: &mut Vec<Info>, n: usize) ensures final(v).len() == n { unimplemented!() }
#[verifier::external_body] pub fn vec_copy_Info(d: &mut Vec<Info>, at: usize, s: &Vec<Info>, a: usize, b: usize) requires a <= b <= s.len(), at + (b - a) <= old(d).len() ensures final(d).len() == old(d).len() { unimplemented!() }
// ---- messages of a folder
pub open spec fn nm(i: Info) -> Seq<u8> { i.path.m_buffer@ }
pub open spec fn fkey(dir: Seq<Comp>, t: Seq<u8>) -> Seq<Seq<u8>> { pk(dir).push(t) }
pub open spec fn text_of(d: Map<Seq<Seq<u8>>, Seq<u8>>, dir: Seq<Comp>, t: Seq<u8>) -> Option<Seq<u8>> { if d.dom().contains(fkey(dir, t)) { Some(d[fkey(dir, t)]) } else { None } }
pub open spec fn at(d: Map<Seq<Seq<u8>>, Seq<u8>>, k: Seq<Seq<u8>>) -> Option<Seq<u8>> { if d.dom().contains(k) { Some(d[k]) } else { None } }
pub open spec fn ids_ok(v: Seq<Info>) -> bool { (forall|i: int| 0 <= i < v.len() ==> plain_id(id_in(nm(#[trigger] v[i])))) && forall|i: int, j: int| 0 <= i < j < v.len() ==> id_in(nm(#[trigger] v[i])) != id_in(nm(#[trigger] v[j])) }
pub open spec fn of_msgs(k: Seq<Seq<u8>>, dir: Seq<Comp>, v: Seq<Info>) -> bool { exists|i: int| 0 <= i < v.len() && k.len() > 0 && k.drop_last() == pk(dir) && id_in(k.last()) == id_in(nm(#[trigger] v[i])) }
// the files which are not those of the messages are as they were
pub open spec fn rest_same(a: Map<Seq<Seq<u8>>, Seq<u8>>, b: Map<Seq<Seq<u8>>, Seq<u8>>, dir: Seq<Comp>, v: Seq<Info>) -> bool { forall|k: Seq<Seq<u8>>| !of_msgs(k, dir, v) ==> #[trigger] at(a, k) == at(b, k) }
// the messages are the same ones, with the same texts
pub open spec fn same_msgs(a: Map<Seq<Seq<u8>>, Seq<u8>>, u: Seq<Info>, b: Map<Seq<Seq<u8>>, Seq<u8>>, v: Seq<Info>, dir: Seq<Comp>) -> bool {
    u.len() == v.len() && forall|i: int| 0 <= i < u.len() ==> id_in(nm(#[trigger] v[i])) == id_in(nm(u[i])) && text_of(b, dir, nm(v[i])) == text_of(a, dir, nm(u[i]))
}
pub open spec fn change(mode: i32, f: i32, x: i32) -> i32 { if mode == 1 { x | f } else if mode == 2 { x & !f } else { f } }
pub open spec fn with_flags(a: Info, b: Info, mode: i32, f: i32) -> bool { flags_in(nm(b)) == keep(change(mode, f, flags_in(nm(a)))) && b.type_ == (if change(mode, f, flags_in(nm(a))) & 4 != 0 { 1u32 } else { 0u32 }) }
// sure: the file is there and the system refuses nothing
pub open spec fn flagged(a: Info, b: Info, mode: i32, f: i32, sure: bool) -> bool { with_flags(a, b, mode, f) || !sure && a == b }
pub proof fn lemma_again(mode: i32, f: i32, x: i32)
    ensures keep(change(mode, f, keep(change(mode, f, x)))) == keep(change(mode, f, x)), (change(mode, f, keep(change(mode, f, x))) & 4 != 0) == (change(mode, f, x) & 4 != 0)
{
    assert((((x | f) & 125) | f) & 125 == (x | f) & 125) by (bit_vector);
    assert(((((x | f) & 125) | f) & 4 != 0) == ((x | f) & 4 != 0)) by (bit_vector);
    assert((((x & !f) & 125) & !f) & 125 == (x & !f) & 125) by (bit_vector);
    assert(((((x & !f) & 125) & !f) & 4 != 0) == ((x & !f) & 4 != 0)) by (bit_vector);
}
pub proof fn lemma_step(d: Map<Seq<Seq<u8>>, Seq<u8>>, dir: Seq<Comp>, v: Seq<Info>, n: int, t: Seq<u8>, j: int)
    requires ids_ok(v), 0 <= n < v.len(), id_in(t) == id_in(nm(v[n])), d.dom().contains(fkey(dir, nm(v[n]))), 0 <= j < v.len()
    ensures ({ let e = d.remove(fkey(dir, nm(v[n]))).insert(fkey(dir, t), d[fkey(dir, nm(v[n]))]); text_of(e, dir, if j == n { t } else { nm(v[j]) }) == text_of(d, dir, nm(v[j])) && rest_same(d, e, dir, v) })
{
    let k = fkey(dir, nm(v[n])); let q = fkey(dir, t); let e = d.remove(k).insert(q, d[k]);
    assert(k.last() == nm(v[n]) && q.last() == t && k.drop_last() =~= pk(dir) && q.drop_last() =~= pk(dir));
    if j != n { let x = fkey(dir, nm(v[j])); assert(x.last() == nm(v[j])); assert(id_in(nm(v[j])) != id_in(nm(v[n]))) by { if j < n { } else { } } assert(x != k && x != q); }
    assert forall|x: Seq<Seq<u8>>| !of_msgs(x, dir, v) implies #[trigger] at(d, x) == at(e, x) by { assert(of_msgs(k, dir, v)) by { assert(id_in(k.last()) == id_in(nm(v[n]))); } assert(of_msgs(q, dir, v)) by { assert(id_in(q.last()) == id_in(nm(v[n]))); } assert(x != k && x != q); }
}
pub proof fn lemma_of_msgs(k: Seq<Seq<u8>>, dir: Seq<Comp>, u: Seq<Info>, v: Seq<Info>)
    requires u.len() == v.len(), forall|i: int| 0 <= i < u.len() ==> id_in(nm(#[trigger] v[i])) == id_in(nm(u[i]))
    ensures of_msgs(k, dir, u) == of_msgs(k, dir, v)
{
    if of_msgs(k, dir, u) { let i = choose|i: int| 0 <= i < u.len() && k.len() > 0 && k.drop_last() == pk(dir) && id_in(k.last()) == id_in(nm(#[trigger] u[i])); assert(id_in(nm(v[i])) == id_in(nm(u[i]))); }
    if of_msgs(k, dir, v) { let i = choose|i: int| 0 <= i < v.len() && k.len() > 0 && k.drop_last() == pk(dir) && id_in(k.last()) == id_in(nm(#[trigger] v[i])); assert(id_in(nm(v[i])) == id_in(nm(u[i]))); }
}
pub open spec fn has_num(n: Seq<usize>, i: int) -> bool { exists|k: int| 0 <= k < n.len() && #[trigger] n[k] == i + 1 }
pub open spec fn obj_set(o: MMsg, n: Seq<usize>, mode: i32, f: i32) -> MMsg { if n.contains(o.m_num) && o.m_flags != 9999 { MMsg { m_flags: change(mode, f, o.m_flags), ..o } } else { o } }
#[verifier::external_body] pub fn catch_filesystem_exception(e: &Exc) -> (r: bool) ensures r == (e.kind == sEXC_filesystem_exception()) { unimplemented!() }
#[verifier::external_body] pub fn vec_clone_usize(v: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == v@ { unimplemented!() }
pub proof fn lemma_pk(dir: Seq<Comp>, c: Comp) ensures pk(dir.push(c)) == fkey(dir, c.m_buffer@) { assert(pk(dir.push(c)) =~= pk(dir).push(c.m_buffer@)); }
pub proof fn lemma_num(n: Seq<usize>, k: int, i: int) requires 0 <= k < n.len() ensures has_num(n.take(k + 1), i) == (has_num(n.take(k), i) || n[k] == i + 1)
{
    let a = n.take(k); let b = n.take(k + 1);
    if has_num(b, i) { let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == i + 1; if j < k { assert(a[j] == i + 1); } }
    if has_num(a, i) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == i + 1; assert(b[j] == i + 1); }
    if n[k] == i + 1 { assert(b[k] == i + 1); }
}
// ---- expunge
pub open spec fn del(v: Seq<Info>, i: int) -> bool { v[i].type_ == 1 }
#[verifier::opaque]
pub open spec fn cnt(v: Seq<Info>, k: int) -> int decreases k { if k <= 0 { 0 } else { cnt(v, k - 1) + if del(v, k - 1) { 1int } else { 0int } } }
#[verifier::opaque]
pub open spec fn kept(v: Seq<Info>) -> Seq<Info> decreases v.len() { if v.len() == 0 { v } else if del(v, v.len() - 1) { kept(v.drop_last()) } else { kept(v.drop_last()).push(v.last()) } }
pub open spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }
// what becomes of the object of a message once the deleted messages before number num are gone
pub open spec fn obj_num(o: MMsg, v: Seq<Info>, num: int) -> int { o.m_num - cnt(v, min2(o.m_num - 1, num - 1)) }
pub open spec fn obj_gone(o: MMsg, v: Seq<Info>, num: int) -> bool { o.m_expunged || 1 <= o.m_num < num && del(v, o.m_num - 1) }
pub open spec fn obj_done(o: MMsg, p: MMsg, v: Seq<Info>, num: int) -> bool { p.m_num == obj_num(o, v, num) && p.m_expunged == obj_gone(o, v, num) && p.m_flags == o.m_flags && p.m_size == o.m_size }
pub open spec fn gone(k: Seq<Seq<u8>>, dir: Seq<Comp>, v: Seq<Info>, n: int) -> bool { exists|i: int| 0 <= i < n && del(v, i) && k == fkey(dir, nm(#[trigger] v[i])) }
pub proof fn lemma_cnt_step(v: Seq<Info>, k: int) requires k >= 0 ensures cnt(v, k + 1) == cnt(v, k) + (if del(v, k) { 1int } else { 0int }), cnt(v, 0) == 0, cnt(v, -1) == 0 { reveal_with_fuel(cnt, 2); }
pub proof fn lemma_cnt_le(v: Seq<Info>, a: int, b: int) requires 0 <= a <= b ensures 0 <= cnt(v, a) <= cnt(v, b) <= cnt(v, a) + b - a, cnt(v, a) <= a decreases b
{ reveal_with_fuel(cnt, 2); if b > a { lemma_cnt_le(v, a, b - 1); } else if a > 0 { lemma_cnt_le(v, a - 1, a - 1); } }
pub proof fn lemma_cnt_prefix(v: Seq<Info>, w: Seq<Info>, k: int) requires forall|i: int| 0 <= i < k ==> v[i] == w[i] ensures cnt(v, k) == cnt(w, k) decreases k { reveal_with_fuel(cnt, 2); if k > 0 { lemma_cnt_prefix(v, w, k - 1); assert(v[k - 1] == w[k - 1]); } }
pub proof fn lemma_kept_remove(w: Seq<Info>, p: int) requires 0 <= p < w.len(), del(w, p) ensures kept(w.remove(p)) == kept(w), cnt(w.remove(p), w.len() - 1) == cnt(w, w.len() as int) - 1 decreases w.len()
{
    reveal_with_fuel(kept, 2); reveal_with_fuel(cnt, 2); let r = w.remove(p); let n = w.len() as int;
    if p == n - 1 { assert(r =~= w.drop_last()); lemma_cnt_prefix(r, w, n - 1); }
    else {
        let x = w.drop_last(); lemma_kept_remove(x, p); assert(r.drop_last() =~= x.remove(p)); assert(r.last() == w.last());
        lemma_cnt_prefix(x, w, n - 1); lemma_cnt_prefix(r, x.remove(p), n - 2); assert(r[n - 2] == w[n - 1]);
    }
}
pub proof fn lemma_kept_none(w: Seq<Info>) requires cnt(w, w.len() as int) == 0 ensures kept(w) == w decreases w.len()
{ reveal_with_fuel(kept, 2); reveal_with_fuel(cnt, 2); if w.len() > 0 { let x = w.drop_last(); lemma_cnt_prefix(x, w, w.len() - 1); lemma_cnt_le(w, 0, w.len() - 1); lemma_kept_none(x); assert(x.push(w.last()) =~= w); } }
pub proof fn lemma_kept_at(v: Seq<Info>, n: int) requires 0 <= n < v.len(), !del(v, n) ensures kept(v).len() == v.len() - cnt(v, v.len() as int), 0 <= n - cnt(v, n) < kept(v).len(), kept(v)[n - cnt(v, n)] == v[n] decreases v.len()
{
    reveal_with_fuel(kept, 2); let x = v.drop_last(); let l = v.len() as int; lemma_cnt_step(v, l - 1); lemma_cnt_prefix(x, v, l - 1); lemma_cnt_prefix(x, v, n); lemma_kept_len(x); lemma_cnt_le(v, n, l - 1);
    if n < l - 1 { lemma_kept_at(x, n); }
}
pub proof fn lemma_kept_len(v: Seq<Info>) ensures kept(v).len() == v.len() - cnt(v, v.len() as int) decreases v.len()
{ reveal_with_fuel(kept, 2); reveal_with_fuel(cnt, 2); if v.len() > 0 { lemma_kept_len(v.drop_last()); lemma_cnt_prefix(v.drop_last(), v, v.len() - 1); } }
pub proof fn lemma_kept_in(v: Seq<Info>, i: int) requires 0 <= i < kept(v).len() ensures exists|j: int| 0 <= j < v.len() && !del(v, j) && #[trigger] v[j] == kept(v)[i] && i <= j decreases v.len()
{
    reveal_with_fuel(kept, 2);
    if v.len() > 0 { let x = v.drop_last(); if i < kept(x).len() { lemma_kept_in(x, i); let j = choose|j: int| 0 <= j < x.len() && !del(x, j) && #[trigger] x[j] == kept(x)[i] && i <= j; assert(v[j] == kept(v)[i]); } else { lemma_kept_len(x); lemma_cnt_le(x, 0, x.len() as int); assert(v[v.len() - 1] == kept(v)[i]); } }
}
pub proof fn lemma_kept_ids(v: Seq<Info>) requires ids_ok(v) ensures ids_ok(kept(v)) decreases v.len()
{
    reveal_with_fuel(kept, 2);
    if v.len() > 0 {
        let x = v.drop_last(); assert(ids_ok(x)); lemma_kept_ids(x); let k = kept(v); let h = kept(x);
        assert forall|i: int| 0 <= i < k.len() implies plain_id(id_in(nm(#[trigger] k[i]))) by { lemma_kept_in(v, i); let j = choose|j: int| 0 <= j < v.len() && !del(v, j) && #[trigger] v[j] == k[i] && i <= j; assert(plain_id(id_in(nm(v[j])))); }
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies id_in(nm(#[trigger] k[i])) != id_in(nm(#[trigger] k[j])) by {
            if j < h.len() { assert(k[i] == h[i] && k[j] == h[j]); }
            else { assert(k[j] == v.last()); assert(k[i] == h[i]); lemma_kept_in(x, i); let q = choose|q: int| 0 <= q < x.len() && !del(x, q) && #[trigger] x[q] == h[i] && i <= q; assert(v[q] == x[q]); assert(id_in(nm(v[q])) != id_in(nm(v[v.len() - 1]))); }
        }
    }
}
// an object still names the same message after an expunge
pub proof fn property_expunge(o: MMsg, v: Seq<Info>)
    requires 1 <= o.m_num <= v.len(), !del(v, o.m_num - 1)
    ensures 1 <= obj_num(o, v, (v.len() + 1) as int) <= kept(v).len(), kept(v)[obj_num(o, v, (v.len() + 1) as int) - 1] == v[o.m_num - 1]
{ lemma_kept_at(v, o.m_num - 1); }
// the texts of the messages that stay are kept
pub proof fn property_expunge_files(a: Map<Seq<Seq<u8>>, Seq<u8>>, b: Map<Seq<Seq<u8>>, Seq<u8>>, dir: Seq<Comp>, v: Seq<Info>, i: int)
    requires ids_ok(v), forall|k: Seq<Seq<u8>>| !gone(k, dir, v, v.len() as int) ==> #[trigger] at(b, k) == at(a, k), 0 <= i < v.len(), !del(v, i)
    ensures text_of(b, dir, nm(v[i])) == text_of(a, dir, nm(v[i]))
{
    let k = fkey(dir, nm(v[i])); assert(k.last() == nm(v[i]));
    if gone(k, dir, v, v.len() as int) { let j = choose|j: int| 0 <= j < v.len() && del(v, j) && k == fkey(dir, nm(#[trigger] v[j])); assert(fkey(dir, nm(v[j])).last() == nm(v[j])); if i < j { assert(id_in(nm(v[i])) != id_in(nm(v[j]))); } else { assert(id_in(nm(v[j])) != id_in(nm(v[i]))); } }
    assert(at(b, k) == at(a, k));
}
