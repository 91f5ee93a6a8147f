@unit msetpop
@use strings
@include msetlist.rs
@source src/vmime/net/messageSet.cpp
@source src/vmime/net/message.cpp
@struct vmime::net::message::uid as Uid
@type (const )?(.*message::)?uid = stru:Uid
@source src/vmime/net/messageSet.cpp
@struct vmime::net::numberMessageRange as NumR
@struct vmime::net::UIDMessageRange as UidR
@struct vmime::net::messageSet as MSet
@field MSet.m_ranges vec:stru:Rng
@type .*messageRange \* = stru:Rng
@type .*MessageSetEnumerator|(.*::)?messageSetEnumerator = stru:En
@ctor En 1 = en_new val
@method vmime::net::messageSetEnumerator::enumerateNumberMessageRange = num_enum void mut ref
@method vmime::net::messageSetEnumerator::enumerateUIDMessageRange = uid_enum void mut ref
@method vmime::net::messageRange::enumerate = rng_enum void ref mut
@source src/vmime/net/pop3/POP3Utils.cpp
@struct vmime::net::pop3::POP3MessageSetEnumerator as En
@source src/vmime/net/messageSet.cpp
@rust
// a messageRange is a range of numbers or a range of UIDs (which this protocol does not support)
pub enum Rng { Num(NumR), Uid(UidR) }
#[verifier::external_body]
pub fn vec_clone_usize(s: &Vec<usize>) -> (r: Vec<usize>) ensures r@ == s@ { unimplemented!() }
// virtual dispatch of messageRange::enumerate
pub fn rng_enum(r: &Rng, en: &mut En)
    requires old(en).m_msgCount < usize::MAX,
    ensures final(en).m_msgCount == old(en).m_msgCount, final(en).list@ == old(en).list@ + rng_list(*r, old(en).m_msgCount as nat),
{ match r { Rng::Num(n) => numr_enum(n, en), Rng::Uid(u) => uidr_enum(u, en) } }
pub open spec fn span(a: int, b: int) -> Seq<usize> { if a > b { Seq::empty() } else { Seq::new((b - a + 1) as nat, |i: int| (a + i) as usize) } }
pub open spec fn rng_list(r: Rng, c: nat) -> Seq<usize> { match r { Rng::Num(n) => span(n.m_first as int, if n.m_last == usize::MAX { c as int } else { n.m_last as int }), Rng::Uid(_) => Seq::empty() } }
pub open spec fn all_list(s: Seq<Rng>, c: nat) -> Seq<usize> decreases s.len() { if s.len() == 0 { Seq::empty() } else { all_list(s.drop_last(), c) + rng_list(s.last(), c) } }
@fn vmime::net::numberMessageRange::getFirst as num_first
@ensures
    res == this.m_first,
@fn vmime::net::numberMessageRange::getLast as num_last
@ensures
    res == this.m_last,
@source src/vmime/net/pop3/POP3Utils.cpp
@fn vmime::net::pop3::POP3MessageSetEnumerator::POP3MessageSetEnumerator as en_new
@ensures
    res.list.len() == 0, res.m_msgCount == msgCount,
@fn vmime::net::pop3::POP3MessageSetEnumerator::enumerateUIDMessageRange as uid_enum
@ensures
    *final(this) == *old(this),
@fn vmime::net::pop3::POP3MessageSetEnumerator::enumerateNumberMessageRange as num_enum
@requires
    old(this).m_msgCount < usize::MAX,
@ensures
    final(this).m_msgCount == old(this).m_msgCount,
    final(this).list@ == old(this).list@ + rng_list(Rng::Num(*range), old(this).m_msgCount as nat),
@loop 1 invariant
    this.m_msgCount == old(this).m_msgCount, last < usize::MAX,
    range.m_first <= i, range.m_first <= last + 1 ==> i <= last + 1, range.m_first > last + 1 ==> i == range.m_first,
    this.list@ == old(this).list@ + span(range.m_first as int, i - 1),
@loop 1 decreases
    last + 1 - i
@hint loop 1 pre
    proof { assert(this.list@ =~= this.list@ + Seq::<usize>::empty()); }
@hint loop 1 end
    proof { assert(span(range.m_first as int, i as int) =~= span(range.m_first as int, i - 1).push(i)); }
@source src/vmime/net/messageSet.cpp
@fn vmime::net::numberMessageRange::enumerate as numr_enum
@requires
    old(en).m_msgCount < usize::MAX,
@ensures
    final(en).m_msgCount == old(en).m_msgCount,
    final(en).list@ == old(en).list@ + rng_list(Rng::Num(*this), old(en).m_msgCount as nat),
@fn vmime::net::UIDMessageRange::enumerate as uidr_enum
@ensures
    final(en).m_msgCount == old(en).m_msgCount, final(en).list@ == old(en).list@ + rng_list(Rng::Uid(*this), old(en).m_msgCount as nat),
@hint end
    proof { assert(en.list@ =~= en.list@ + Seq::<usize>::empty()); }
@fn vmime::net::messageSet::enumerate as set_enum
@requires
    old(en).m_msgCount < usize::MAX,
@ensures
    final(en).m_msgCount == old(en).m_msgCount,
    final(en).list@ == old(en).list@ + all_list(this.m_ranges@, old(en).m_msgCount as nat),
@hint loop 1 pre
    proof { assert(this.m_ranges@.take(0) =~= Seq::empty()); assert(en.list@ =~= en.list@ + Seq::<usize>::empty()); }
@loop 1 invariant
    i <= n, n == this.m_ranges.len(), en.m_msgCount == old(en).m_msgCount, old(en).m_msgCount < usize::MAX,
    en.list@ == old(en).list@ + all_list(this.m_ranges@.take(i as int), old(en).m_msgCount as nat),
@loop 1 decreases
    n - i
@hint loop 1 end
    proof { assert(this.m_ranges@.take(i + 1).drop_last() =~= this.m_ranges@.take(i as int)); }
@hint loop 1 post
    proof { assert(this.m_ranges@.take(this.m_ranges.len() as int) =~= this.m_ranges@); }
@source src/vmime/net/pop3/POP3Utils.cpp
@fn vmime::net::pop3::POP3Utils::messageSetToNumberList as set_list
@requires
    msgCount < usize::MAX,
@ensures
    res@ == all_list(msgs.m_ranges@, msgCount as nat),
@hint end
    proof { assert(Seq::<usize>::empty() + all_list(msgs.m_ranges@, msgCount as nat) =~= all_list(msgs.m_ranges@, msgCount as nat)); }
