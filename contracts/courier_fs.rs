#[verifier::external_body] pub fn comp_of(t: &Vec<u8>) -> (r: Comp) ensures r == plain(t@) { unimplemented!() }
pub uninterp spec fn plain(t: Seq<u8>) -> Comp;      // the component with this text, in the charset of the file system
pub open spec fn is_prefix(a: Seq<Comp>, b: Seq<Comp>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> same_name(#[trigger] a[i], b[i]) }
// the file system, as it is when the listing is made
#[verifier::external_body] pub struct Fsf { x: u8 }
#[verifier::external_body] pub struct File { x: u8 }
#[verifier::external_body] pub struct FIter { x: u8 }
impl File { pub uninterp spec fn path(&self) -> Seq<Comp>; pub uninterp spec fn isdir(&self) -> bool; pub uninterp spec fn there(&self) -> bool; }
impl FIter { pub uninterp spec fn rest(&self) -> Seq<File>; }
pub uninterp spec fn exists_at(p: Seq<Comp>) -> bool;
pub uninterp spec fn entries(p: Seq<Comp>) -> Seq<File>;       // what is in a directory
pub uninterp spec fn store_root() -> Seq<Comp>;                // the directory of the store
// directories deleted, and moved, so far
pub struct Disk { pub deleted: Ghost<Seq<Seq<Comp>>>, pub moved: Ghost<Seq<(Seq<Comp>, Seq<Comp>)>> }
#[verifier::external_body] pub fn store_path() -> (r: Path) ensures r.m_list@ == store_root(), r.m_list.len() < 0x1000_0000 { unimplemented!() }
#[verifier::external_body] pub fn fsf_get() -> (r: Fsf) { unimplemented!() }
#[verifier::external_body] pub fn file_at(f: &Fsf, p: &Path) -> (r: File) ensures r.path() == p.m_list@, r.there() == exists_at(p.m_list@) { unimplemented!() }
#[verifier::external_body] pub fn file_exists(f: &File) -> (r: bool) ensures r == f.there() { unimplemented!() }
#[verifier::external_body] pub fn file_isdir(f: &File) -> (r: bool) ensures r == f.isdir() { unimplemented!() }
#[verifier::external_body] pub fn file_path(f: &File) -> (r: Path) ensures r.m_list@ == f.path() { unimplemented!() }
#[verifier::external_body] pub fn file_list(f: &File) -> (r: FIter) ensures r.rest() == entries(f.path()), forall|i: int| 0 <= i < r.rest().len() ==> (#[trigger] r.rest()[i]).path().len() > 0 { unimplemented!() }
#[verifier::external_body] pub fn it_more(f: &FIter) -> (r: bool) ensures r == (f.rest().len() > 0) { unimplemented!() }
#[verifier::external_body] pub fn it_next(f: &mut FIter) -> (r: File) requires old(f).rest().len() > 0 ensures r == old(f).rest()[0], final(f).rest() == old(f).rest().skip(1) { unimplemented!() }
#[verifier::external_body] pub fn file_rename(f: &File, to: &Path, d: &mut Disk) -> (r: Result<(), Exc>)
    ensures final(d).deleted == old(d).deleted, r is Ok ==> final(d).moved@ == old(d).moved@.push((f.path(), to.m_list@)), r is Err ==> final(d).moved == old(d).moved { unimplemented!() }
#[verifier::external_body] pub fn rec_delete(f: &File, d: &mut Disk) ensures final(d).moved == old(d).moved, final(d).deleted@ == old(d).deleted@.push(f.path()) { unimplemented!() }
#[verifier::external_body] pub fn CONST_vmime__net__maildir__maildirFormat__NEW_DIR() -> (r: Comp) { unimplemented!() }
#[verifier::external_body] pub fn CONST_vmime__net__maildir__maildirFormat__CUR_DIR() -> (r: Comp) { unimplemented!() }
#[verifier::external_body] pub fn CONST_vmime__net__maildir__maildirFormat__TMP_DIR() -> (r: Comp) { unimplemented!() }
#[verifier::external_body] pub fn clone_Fsf(c: &Fsf) -> (r: Fsf) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn clone_File(c: &File) -> (r: File) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn clone_FIter(c: &FIter) -> (r: FIter) ensures r == *c { unimplemented!() }
pub open spec fn utf7_name() -> Seq<u8> { seq![117u8, 116, 102, 45, 55] }
// charset conversion (ICU): the UTF-7 text for a UTF-8 text, and the UTF-8 text for a UTF-7 text
pub uninterp spec fn c7(t: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn u7(t: Seq<u8>) -> Seq<u8>;
#[verifier::external_body] pub fn utf7_convert(t: &Vec<u8>, r: &mut Vec<u8>, from: &Cs, to: &Cs) ensures from.name@ == utf7_name() && to.name@ == utf8_name() ==> final(r)@ == u7(t@) { unimplemented!() }
#[verifier::external_body] pub proof fn axiom_c7(c: Comp) ensures comp_in(c, utf7_name()) == c7(comp_in(c, utf8_name())) {}
pub open spec fn names(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { v.map_values(|x: Vec<u8>| x@) }
pub open spec fn perm(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { a.to_multiset() == b.to_multiset() }
#[verifier::external_body] pub fn vec_sort_str(v: &mut Vec<Vec<u8>>, from: usize, to: usize) requires from == 0, to == old(v).len() ensures perm(names(final(v)@), names(old(v)@)), final(v).len() == old(v).len() { unimplemented!() }
// a component is written with no dot and no slash
pub struct Mu { pub o: Seq<u8>, pub b: bool }
pub open spec fn in_b64(c: u8) -> bool { 65 <= c <= 90 || 97 <= c <= 122 || 48 <= c <= 57 || c == 43 || c == 47 }
pub open spec fn mu_stop(p: Mu, c: u8) -> Mu { if p.b && c != 45 && !in_b64(c) { Mu { o: p.o.push(45u8), b: false } } else { p } }
pub open spec fn mu_all(p: Mu) -> Seq<u8> { if p.b { p.o.push(45u8) } else { p.o } }
#[verifier::opaque]
pub open spec fn mu(s: Seq<u8>) -> Mu decreases s.len() {
    if s.len() == 0 { Mu { o: Seq::empty(), b: false } } else {
        let c = s.last(); let p = mu_stop(mu(s.drop_last()), c);
        if c == 43 { Mu { o: p.o.push(if p.b { 43u8 } else { 38u8 }), b: true } }
        else if c == 45 { Mu { o: if p.b && p.o.len() > 0 && p.o.last() == 38 { p.o.update(p.o.len() - 1, 43u8) } else { p.o.push(45u8) }, b: false } }
        else if c == 47 { Mu { o: if p.b { p.o.push(44u8) } else { p.o + seq![38u8, 65, 67, 56, 45] }, b: p.b } }
        else if c == 46 { Mu { o: p.o + seq![38u8, 65, 67, 52, 45], b: p.b } }
        else if c == 38 { Mu { o: if p.b { p.o.push(38u8) } else { p.o + seq![38u8, 45] }, b: p.b } }
        else { Mu { o: p.o.push(c), b: p.b } }
    }
}
pub proof fn lemma_mu_push(s: Seq<u8>, c: u8) ensures mu(s.push(c)) == ({ let p = mu_stop(mu(s), c);
        if c == 43 { Mu { o: p.o.push(if p.b { 43u8 } else { 38u8 }), b: true } }
        else if c == 45 { Mu { o: if p.b && p.o.len() > 0 && p.o.last() == 38 { p.o.update(p.o.len() - 1, 43u8) } else { p.o.push(45u8) }, b: false } }
        else if c == 47 { Mu { o: if p.b { p.o.push(44u8) } else { p.o + seq![38u8, 65, 67, 56, 45] }, b: p.b } }
        else if c == 46 { Mu { o: p.o + seq![38u8, 65, 67, 52, 45], b: p.b } }
        else if c == 38 { Mu { o: if p.b { p.o.push(38u8) } else { p.o + seq![38u8, 45] }, b: p.b } }
        else { Mu { o: p.o.push(c), b: p.b } } })
{ reveal_with_fuel(mu, 2); assert(s.push(c).drop_last() =~= s); }
pub open spec fn no_ch(t: Seq<u8>, c: u8) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != c }
pub proof fn lemma_mu_nodot(s: Seq<u8>) ensures no_ch(mu(s).o, 46), no_ch(mu(s).o, 47), no_ch(mu_all(mu(s)), 46), no_ch(mu_all(mu(s)), 47) decreases s.len()
{ if s.len() > 0 { lemma_mu_nodot(s.drop_last()); lemma_mu_push(s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s); } else { reveal_with_fuel(mu, 2); } }
// what a written component is read as, before the conversion from UTF-7
pub struct Fm { pub o: Seq<u8>, pub b: bool, pub p: u8 }
#[verifier::opaque]
pub open spec fn fm(s: Seq<u8>) -> Fm decreases s.len() {
    if s.len() == 0 { Fm { o: Seq::empty(), b: false, p: 0 } } else {
        let q = fm(s.drop_last()); let c = s.last();
        if c == 38 { Fm { o: q.o.push(if q.b { 38u8 } else { 43u8 }), b: true, p: c } }
        else if c == 45 { Fm { o: if q.b && q.p == 38 { q.o.update(q.o.len() - 1, 38u8) } else { q.o.push(45u8) }, b: false, p: c } }
        else if c == 44 { Fm { o: q.o.push(if q.b { 47u8 } else { 44u8 }), b: q.b, p: c } }
        else if c == 43 { Fm { o: if q.b { q.o.push(43u8) } else { q.o + seq![43u8, 45] }, b: q.b, p: c } }
        else { Fm { o: q.o.push(c), b: q.b, p: c } }
    }
}
pub proof fn lemma_fm_push(s: Seq<u8>, c: u8) ensures fm(s.push(c)) == ({ let q = fm(s);
        if c == 38 { Fm { o: q.o.push(if q.b { 38u8 } else { 43u8 }), b: true, p: c } }
        else if c == 45 { Fm { o: if q.b && q.p == 38 { q.o.update(q.o.len() - 1, 38u8) } else { q.o.push(45u8) }, b: false, p: c } }
        else if c == 44 { Fm { o: q.o.push(if q.b { 47u8 } else { 44u8 }), b: q.b, p: c } }
        else if c == 43 { Fm { o: if q.b { q.o.push(43u8) } else { q.o + seq![43u8, 45] }, b: q.b, p: c } }
        else { Fm { o: q.o.push(c), b: q.b, p: c } } })
{ reveal_with_fuel(fm, 2); assert(s.push(c).drop_last() =~= s); }
pub open spec fn enc(t: Seq<u8>) -> Seq<u8> { mu_all(mu(c7(t))) }
pub open spec fn dec(t: Seq<u8>) -> Seq<u8> { u7(fm(t).o) }
// the name of the directory of a folder: each component after a dot
#[verifier::opaque]
pub open spec fn dirname(q: Seq<Seq<u8>>) -> Seq<u8> decreases q.len() { if q.len() == 0 { Seq::empty() } else { dirname(q.drop_last()).push(46) + enc(q.last()) } }
pub open spec fn tx(l: Seq<Comp>) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| comp_in(l[i], utf8_name())) }
pub open spec fn fsdir(q: Seq<Seq<u8>>) -> Seq<Comp> { if q.len() == 0 { store_root() } else { store_root().push(plain(dirname(q))) } }
pub proof fn lemma_dirname_take(q: Seq<Seq<u8>>, k: int) requires 0 <= k < q.len() ensures dirname(q.take(k + 1)) == dirname(q.take(k)).push(46) + enc(q[k])
{ reveal_with_fuel(dirname, 2); assert(q.take(k + 1).drop_last() =~= q.take(k)); }
pub open spec fn dname(f: File) -> Seq<u8> { f.path().last().m_buffer@ }
pub open spec fn sub_dir(f: File) -> bool { f.isdir() && dname(f).len() >= 1 && dname(f)[0] == 46 }
pub open spec fn below(base: Seq<u8>, n: Seq<u8>) -> bool { base.len() == 0 || (n.len() > base.len() && n.subrange(0, base.len() as int) == base) }
pub open spec fn base_of(root: Seq<Seq<u8>>) -> Seq<u8> { if root.len() == 0 { Seq::empty() } else { dirname(root).push(46) } }
pub open spec fn sub_named(root: Seq<Seq<u8>>, f: File) -> bool { sub_dir(f) && below(base_of(root), dname(f)) }
#[verifier::opaque]
pub open spec fn filt(es: Seq<File>, root: Seq<Seq<u8>>) -> Seq<Seq<u8>> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { let p = filt(es.drop_last(), root); if sub_named(root, es.last()) { p.push(dname(es.last())) } else { p } }
}
pub proof fn lemma_filt_take(es: Seq<File>, root: Seq<Seq<u8>>, k: int) requires 0 <= k < es.len()
    ensures filt(es.take(k + 1), root) == (if sub_named(root, es[k]) { filt(es.take(k), root).push(dname(es[k])) } else { filt(es.take(k), root) })
{ reveal_with_fuel(filt, 2); assert(es.take(k + 1).drop_last() =~= es.take(k)); }
pub proof fn lemma_filt_mono(es: Seq<File>, root: Seq<Seq<u8>>, k: int) requires 0 <= k <= es.len() ensures filt(es.take(k), root).len() <= filt(es, root).len() decreases es.len()
{ if k == es.len() { assert(es.take(k) =~= es); } else { lemma_filt_mono(es.drop_last(), root, k); assert(es.drop_last().take(k) =~= es.take(k)); lemma_filt_take(es, root, es.len() - 1); assert(es.take(es.len() as int) =~= es); assert(es.take(es.len() - 1) =~= es.drop_last()); } }
// the names of the directories of the folders below one
pub open spec fn subs(root: Seq<Seq<u8>>) -> Seq<Seq<u8>> { if exists_at(store_root()) { filt(entries(store_root()), root) } else { Seq::empty() } }
pub struct Sp { pub done: Seq<Seq<u8>>, pub cur: Seq<u8> }
#[verifier::opaque]
pub open spec fn splitat(s: Seq<u8>) -> Sp decreases s.len() {
    if s.len() == 0 { Sp { done: Seq::empty(), cur: Seq::empty() } } else {
        let p = splitat(s.drop_last());
        if s.last() == 46 { Sp { done: p.done.push(p.cur), cur: Seq::empty() } } else { Sp { done: p.done, cur: p.cur.push(s.last()) } }
    }
}
pub proof fn lemma_sp_push(s: Seq<u8>, c: u8)
    ensures splitat(s.push(c)) == (if c == 46 { Sp { done: splitat(s).done.push(splitat(s).cur), cur: Seq::empty() } } else { Sp { done: splitat(s).done, cur: splitat(s).cur.push(c) } })
{ reveal_with_fuel(splitat, 2); assert(s.push(c).drop_last() =~= s); }
pub proof fn lemma_sp_add(s: Seq<u8>, t: Seq<u8>)
    requires no_ch(t, 46)
    ensures splitat(s + t).done == splitat(s).done, splitat(s + t).cur == splitat(s).cur + t
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); assert(splitat(s).cur + t =~= splitat(s).cur); }
    else { let u = t.drop_last(); lemma_sp_add(s, u); assert(s + t =~= (s + u).push(t.last())); lemma_sp_push(s + u, t.last()); assert(splitat(s).cur + t =~= (splitat(s).cur + u).push(t.last())); }
}
pub proof fn lemma_sp_cat(a: Seq<u8>, b: Seq<u8>)
    requires splitat(a).cur.len() == 0
    ensures splitat(a + b).done == splitat(a).done + splitat(b).done, splitat(a + b).cur == splitat(b).cur
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); reveal_with_fuel(splitat, 1); assert(splitat(a).done + splitat(b).done =~= splitat(a).done); assert(splitat(a).cur =~= splitat(b).cur); }
    else { let u = b.drop_last(); lemma_sp_cat(a, u); assert(a + b =~= (a + u).push(b.last())); assert(u.push(b.last()) =~= b); lemma_sp_push(a + u, b.last()); lemma_sp_push(u, b.last());
        if b.last() == 46 { assert(splitat(a).done + splitat(u).done.push(splitat(u).cur) =~= (splitat(a).done + splitat(u).done).push(splitat(u).cur)); } }
}
pub open spec fn decs(p: Seq<Seq<u8>>) -> Seq<Seq<u8>> { p.map_values(|t: Seq<u8>| dec(t)) }
pub open spec fn encs(p: Seq<Seq<u8>>) -> Seq<Seq<u8>> { p.map_values(|t: Seq<u8>| enc(t)) }
// the folder that a directory stands for
pub open spec fn folder_of(n: Seq<u8>) -> Seq<Seq<u8>> { decs(splitat(n.skip(1).push(46)).done) }
// the folders that a list of directories stands for (only the children of root if not all)
#[verifier::opaque]
pub open spec fn folders_of(d: Seq<Seq<u8>>, n: int, all: bool) -> Seq<Seq<Seq<u8>>> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else { let p = folders_of(d.drop_last(), n, all); let f = folder_of(d.last()); if all || f.len() == n + 1 { p.push(f) } else { p } }
}
pub proof fn lemma_folders_take(d: Seq<Seq<u8>>, n: int, all: bool, k: int) requires 0 <= k < d.len()
    ensures folders_of(d.take(k + 1), n, all) == ({ let p = folders_of(d.take(k), n, all); let f = folder_of(d[k]); if all || f.len() == n + 1 { p.push(f) } else { p } })
{ reveal_with_fuel(folders_of, 2); assert(d.take(k + 1).drop_last() =~= d.take(k)); }
pub open spec fn txs(v: Seq<Path>) -> Seq<Seq<Seq<u8>>> { v.map_values(|p: Path| tx(p.m_list@)) }
pub open spec fn is_listing(l: Seq<Seq<Seq<u8>>>, d: Seq<Seq<u8>>, root: Seq<Seq<u8>>, all: bool) -> bool { perm(d, subs(root)) && l == folders_of(d, root.len() as int, all) }
pub open spec fn dot_first(n: Seq<u8>) -> bool { n.len() >= 1 && n[0] == 46 }
pub open spec fn fsdirs(l: Seq<Seq<Seq<u8>>>) -> Seq<Seq<Comp>> { l.map_values(|f: Seq<Seq<u8>>| fsdir(f)) }
pub open spec fn pre(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
// the path of a folder below old when old becomes new
pub open spec fn ren(f: Seq<Seq<u8>>, o: Seq<Seq<u8>>, n: Seq<Seq<u8>>) -> Seq<Seq<u8>> { if f.len() > 0 && pre(o, f) { n + f.skip(o.len() as int) } else { f } }
pub open spec fn moves(l: Seq<Seq<Seq<u8>>>, o: Seq<Seq<u8>>, n: Seq<Seq<u8>>) -> Seq<(Seq<Comp>, Seq<Comp>)> { l.map_values(|f: Seq<Seq<u8>>| (fsdir(f), fsdir(ren(f, o, n)))) }
// the plan was carried out, or, if the file system has refused a step, its beginning
pub open spec fn moved_as(a: Disk, b: Disk, plan: Seq<(Seq<Comp>, Seq<Comp>)>, all: bool) -> bool { exists|k: int| 0 <= k <= plan.len() && (all ==> k == plan.len()) && b.moved@ == a.moved@ + #[trigger] plan.take(k) }
pub proof fn lemma_moved(a: Disk, b: Disk, plan: Seq<(Seq<Comp>, Seq<Comp>)>, k: int) requires 0 <= k <= plan.len(), b.moved@ == a.moved@ + plan.take(k) || (k == plan.len() && b.moved@ == a.moved@ + plan) ensures moved_as(a, b, plan, k == plan.len())
{ assert(plan.take(plan.len() as int) =~= plan); assert(b.moved@ == a.moved@ + plan.take(k)); }
#[verifier::external_body] pub fn clone_of(v: &Vec<Path>) -> (r: Vec<Path>) ensures txs(r@) == txs(v@), r.len() == v.len() { unimplemented!() }
pub proof fn lemma_ren(f: Seq<Comp>, o: Seq<Comp>, n: Seq<Comp>, r: Seq<Comp>)
    requires r == (if f.len() > 0 && is_prefix(o, f) { n + f.skip(o.len() as int) } else { f })
    ensures tx(r) == ren(tx(f), tx(o), tx(n))
{
    let a = tx(o); let b = tx(f);
    if is_prefix(o, f) { assert(b.take(a.len() as int) =~= a); assert(tx(n + f.skip(o.len() as int)) =~= tx(n) + b.skip(o.len() as int)); }
    else if a.len() <= b.len() { let k = choose|i: int| 0 <= i < o.len() && !same_name(#[trigger] o[i], f[i]); assert(b.take(a.len() as int)[k] != a[k]); }
}
pub proof fn lemma_sp_zero() ensures splitat(Seq::empty()).done.len() == 0, splitat(Seq::empty()).cur.len() == 0 { reveal_with_fuel(splitat, 1); }
pub open spec fn next_dot(s: Seq<u8>, pos: usize, from: int) -> bool { if pos == NPOS { forall|k: int| from <= k < s.len() ==> #[trigger] s[k] != 46 } else { first_ch(s, 46, from, pos as int) } }
pub proof fn lemma_occurs(s: Seq<u8>, pos: usize, from: int)
    requires 0 <= from, pos == NPOS ==> forall|k: int| from <= k ==> !occurs_at(s, seq![46u8], k), pos != NPOS ==> from <= pos && occurs_at(s, seq![46u8], pos as int) && pos + 1 <= s.len() && forall|k: int| from <= k < pos ==> !occurs_at(s, seq![46u8], k)
    ensures next_dot(s, pos, from)
{
    assert forall|k: int| 0 <= k < s.len() && s[k] == 46 implies #[trigger] occurs_at(s, seq![46u8], k) by { assert(s.subrange(k, k + 1) =~= seq![46u8]); }
    assert forall|k: int| from <= k < s.len() && !occurs_at(s, seq![46u8], k) implies #[trigger] s[k] != 46 by { if s[k] == 46 { assert(occurs_at(s, seq![46u8], k)); } }
    if pos != NPOS { assert(s.subrange(pos as int, pos + 1)[0] == seq![46u8][0]); assert(s[pos as int] == 46); }
}
pub proof fn lemma_piece(s: Seq<u8>, v: int, p: int)
    requires 0 <= v, first_ch(s, 46, v, p), splitat(s.take(v)).cur.len() == 0
    ensures splitat(s.take(p + 1)).cur.len() == 0, splitat(s.take(p + 1)).done == splitat(s.take(v)).done.push(s.subrange(v, p))
{
    let t = s.subrange(v, p); assert(no_ch(t, 46)); lemma_sp_add(s.take(v), t); assert(s.take(v) + t =~= s.take(p)); lemma_sp_push(s.take(p), 46); assert(s.take(p).push(46) =~= s.take(p + 1)); assert(splitat(s.take(v)).cur + t =~= t);
}
pub proof fn lemma_filt_dot(es: Seq<File>, root: Seq<Seq<u8>>) ensures forall|i: int| 0 <= i < filt(es, root).len() ==> dot_first(#[trigger] filt(es, root)[i]) decreases es.len()
{
    reveal_with_fuel(filt, 2);
    if es.len() > 0 { let p = filt(es.drop_last(), root); lemma_filt_dot(es.drop_last(), root); assert forall|i: int| 0 <= i < filt(es, root).len() implies dot_first(#[trigger] filt(es, root)[i]) by { if i < p.len() { assert(dot_first(p[i])); assert(filt(es, root)[i] == p[i]); } } }
}
pub proof fn lemma_perm_has(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, x: Seq<u8>) requires perm(a, b), a.contains(x) ensures b.contains(x)
{ broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(a.to_multiset().count(x) > 0); assert(b.to_multiset().count(x) > 0); }
pub proof fn lemma_perm_dot(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) requires perm(a, b), forall|i: int| 0 <= i < b.len() ==> dot_first(#[trigger] b[i]) ensures forall|i: int| 0 <= i < a.len() ==> dot_first(#[trigger] a[i])
{ assert forall|i: int| 0 <= i < a.len() implies dot_first(#[trigger] a[i]) by { assert(a.contains(a[i])); lemma_perm_has(a, b, a[i]); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(dot_first(b[j])); } }

