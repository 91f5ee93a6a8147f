@unit msetimap
@use strings
@source src/vmime/net/messageSet.cpp
@source src/vmime/net/message.cpp
@struct vmime::net::message::uid as Uid
@type (const )?(.*message::)?uid = stru:Uid
@fn vmime::net::message::uid::operator basic_string as uid_str
@ensures
    res@ == this.m_str@,
@type (std::)?(basic_)?ostream(<char>)? = oss
@fn vmime::net::operator<< ~uid~ as uid_put
@ensures
    final(os)@ == old(os)@ + uid.m_str@,
@fn vmime::net::message::uid::operator== as uid_eq
@ensures
    res == (this.m_str@ == other.m_str@),
@fn vmime::net::message::uid::uid ~void (const unsigned long)~ as uid_of_num
@ensures
    res.m_str@ == dec_digits(uid as nat),
@source src/vmime/net/messageSet.cpp
@struct vmime::net::numberMessageRange as NumR
@struct vmime::net::UIDMessageRange as UidR
@source src/vmime/net/imap/IMAPUtils.cpp
@struct vmime::net::imap::IMAPUIDMessageSetEnumerator as En
@source src/vmime/net/messageSet.cpp
@struct vmime::net::messageSet as MSet
@field MSet.m_ranges vec:stru:Rng
@type .*messageRange \* = stru:Rng
@type .*MessageSetEnumerator|(.*::)?messageSetEnumerator = stru:En
@ctor En 0 = en_new
@method vmime::net::messageSetEnumerator::enumerateNumberMessageRange = num_enum void mut ref
@method vmime::net::messageSetEnumerator::enumerateUIDMessageRange = uid_enum void mut ref
@method vmime::net::messageRange::enumerate = rng_enum void ref mut
@rust
pub enum Rng { Num(NumR), Uid(UidR) }
pub fn clone_Uid(u: &Uid) -> (r: Uid) ensures r.m_str@ == u.m_str@ { Uid { m_str: str_clone(&u.m_str) } }
// virtual dispatch of messageRange::enumerate
pub fn rng_enum(r: &Rng, en: &mut En)
    requires en_ok(*old(en)),
    ensures en_ok(*final(en)), added(*old(en), *final(en), rng_text(*r)),
{ match r { Rng::Num(n) => numr_enum(n, en), Rng::Uid(u) => uidr_enum(u, en) } }
pub open spec fn star() -> Seq<u8> { seq![58u8, 42u8] }
pub open spec fn num_text(r: NumR) -> Seq<u8> { if r.m_first == r.m_last { dec_digits(r.m_first as nat) } else if r.m_last == usize::MAX { dec_digits(r.m_first as nat) + star() } else { dec_digits(r.m_first as nat) + seq![58u8] + dec_digits(r.m_last as nat) } }
pub open spec fn uid_text(r: UidR) -> Seq<u8> { if r.m_first.m_str@ == r.m_last.m_str@ { r.m_first.m_str@ } else if r.m_last.m_str@ == dec_digits(usize::MAX as nat) { r.m_first.m_str@ + star() } else { r.m_first.m_str@ + seq![58u8] + r.m_last.m_str@ } }
pub open spec fn rng_text(r: Rng) -> Seq<u8> { match r { Rng::Num(n) => num_text(n), Rng::Uid(u) => uid_text(u) } }
pub open spec fn en_ok(e: En) -> bool { e.m_first ==> e.m_oss@.len() == 0 }
pub open spec fn added(e0: En, e1: En, t: Seq<u8>) -> bool { !e1.m_first && e1.m_oss@ == (if e0.m_first { t } else { e0.m_oss@ + seq![44u8] + t }) }
// the ranges, separated by commas
pub open spec fn set_text(s: Seq<Rng>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else if s.len() == 1 { rng_text(s[0]) } else { set_text(s.drop_last()) + seq![44u8] + rng_text(s.last()) } }
@fn vmime::net::numberMessageRange::getFirst as num_first
@ensures
    res == this.m_first,
@fn vmime::net::numberMessageRange::getLast as num_last
@ensures
    res == this.m_last,
@fn vmime::net::UIDMessageRange::getFirst as uidr_first
@ensures
    res.m_str@ == this.m_first.m_str@,
@fn vmime::net::UIDMessageRange::getLast as uidr_last
@ensures
    res.m_str@ == this.m_last.m_str@,
@source src/vmime/net/imap/IMAPUtils.cpp
@fn vmime::net::imap::IMAPUIDMessageSetEnumerator::IMAPUIDMessageSetEnumerator as en_new
@ensures
    res.m_first, res.m_oss@.len() == 0,
@fn vmime::net::imap::IMAPUIDMessageSetEnumerator::str as en_str
@ensures
    res@ == this.m_oss@,
@fn vmime::net::imap::IMAPUIDMessageSetEnumerator::enumerateNumberMessageRange as num_enum
@requires
    en_ok(*old(this)),
@ensures
    added(*old(this), *final(this), num_text(*range)),
@hint end
    proof { let t = num_text(*range); let b = if old(this).m_first { Seq::<u8>::empty() } else { old(this).m_oss@ + seq![44u8] }; assert(this.m_oss@ =~= b + t); assert(Seq::<u8>::empty() + t =~= t); }
@fn vmime::net::imap::IMAPUIDMessageSetEnumerator::enumerateUIDMessageRange as uid_enum
@requires
    en_ok(*old(this)),
@ensures
    added(*old(this), *final(this), uid_text(*range)),
@hint end
    proof { let t = uid_text(*range); let b = if old(this).m_first { Seq::<u8>::empty() } else { old(this).m_oss@ + seq![44u8] }; assert(this.m_oss@ =~= b + t); assert(Seq::<u8>::empty() + t =~= t); }
@source src/vmime/net/messageSet.cpp
@fn vmime::net::numberMessageRange::enumerate as numr_enum
@requires
    en_ok(*old(en)),
@ensures
    added(*old(en), *final(en), num_text(*this)),
@fn vmime::net::UIDMessageRange::enumerate as uidr_enum
@requires
    en_ok(*old(en)),
@ensures
    added(*old(en), *final(en), uid_text(*this)),
@fn vmime::net::messageSet::enumerate as set_enum
@requires
    old(en).m_first, old(en).m_oss@.len() == 0,
@ensures
    final(en).m_oss@ == set_text(this.m_ranges@),
@hint loop 1 pre
    proof { assert(this.m_ranges@.take(0) =~= Seq::empty()); }
@loop 1 invariant
    i <= n, n == this.m_ranges.len(), en_ok(*en), en.m_first == (i == 0),
    en.m_oss@ == set_text(this.m_ranges@.take(i as int)),
@loop 1 decreases
    n - i
@hint loop 1 end
    proof { let w = this.m_ranges@.take(i + 1); assert(w.drop_last() =~= this.m_ranges@.take(i as int)); assert(w.last() == this.m_ranges@[i as int]); }
@hint loop 1 post
    proof { assert(this.m_ranges@.take(this.m_ranges.len() as int) =~= this.m_ranges@); }
@source src/vmime/net/imap/IMAPUtils.cpp
@fn vmime::net::imap::IMAPUtils::messageSetToSequenceSet as set_seq
@ensures
    res@ == set_text(msgs.m_ranges@),
