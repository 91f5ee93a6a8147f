@unit imapq
@use strings
@source src/vmime/net/imap/IMAPUtils.cpp
@rust
// RFC 3501: astring = 1*ASTRING-CHAR / quoted (a literal is never made)
pub open spec fn atom_char(c: u8) -> bool { 0x20 < c < 0x7f && c != 40 && c != 41 && c != 123 && c != 37 && c != 42 && c != 34 && c != 92 }
pub open spec fn is_atom(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> atom_char(#[trigger] s[i]) }
pub open spec fn line_ok(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0 && s[i] != 10 && s[i] != 13 }
// reading the characters of a quoted string: what they stand for, and whether the string is still open
pub struct Q { pub ok: bool, pub open: bool, pub esc: bool, pub o: Seq<u8> }
pub open spec fn qstep(q: Q, c: u8) -> Q {
    if !q.ok || !q.open || c == 0 || c == 10 || c == 13 { Q { ok: false, ..q } }
    else if q.esc { Q { ok: c == 34 || c == 92, open: true, esc: false, o: q.o.push(c) } }
    else if c == 92 { Q { esc: true, ..q } }
    else if c == 34 { Q { open: false, ..q } }
    else { Q { o: q.o.push(c), ..q } }
}
#[verifier::opaque]
pub open spec fn qrun(s: Seq<u8>) -> Q decreases s.len() { if s.len() == 0 { Q { ok: true, open: true, esc: false, o: Seq::empty() } } else { qstep(qrun(s.drop_last()), s.last()) } }
pub proof fn lemma_q_push(s: Seq<u8>, c: u8) ensures qrun(s.push(c)) == qstep(qrun(s), c) { reveal_with_fuel(qrun, 2); assert(s.push(c).drop_last() =~= s); }
// t is an astring that stands for s
pub open spec fn astring(t: Seq<u8>, s: Seq<u8>) -> bool {
    (is_atom(t) && t == s) || (t.len() >= 2 && t[0] == 34 && qrun(t.skip(1)).ok && !qrun(t.skip(1)).open && qrun(t.skip(1)).o == s)
}
@fn vmime::net::imap::IMAPUtils::quoteString as quote_string
@requires
    text.len() < 0x3fff_ffff_ffff_ffff,
@ensures
    line_ok(text@) ==> astring(res@, text@),
    line_ok(text@) ==> line_ok(res@),
@loop 1 invariant
    it <= text.len(), !needQuoting ==> text.len() > 0 && forall|i: int| 0 <= i < it ==> atom_char(#[trigger] text@[i]),
@loop 1 decreases
    text.len() - it
@hint loop 2 pre
    proof { reveal(qrun); assert(quoted@.skip(1) =~= Seq::empty()); assert(text@.take(0) =~= Seq::empty()); assert(text@.take(text.len() as int) =~= text@); }
@loop 2 invariant
    it <= text.len(), quoted.len() >= 1, quoted@[0] == 34, line_ok(text@) ==> line_ok(quoted@),
    line_ok(text@) ==> qrun(quoted@.skip(1)) == (Q { ok: true, open: true, esc: false, o: text@.take(it as int) }),
@loop 2 decreases
    text.len() - it
@hint loop 2 begin
    let ghost i0 = it as int; let ghost q0 = quoted@; let ghost qs = quoted@.skip(1);
    proof { assert(text@.take(i0 + 1) =~= text@.take(i0).push(text@[i0])); }
@hint loop 2 end
    proof {
        let c0 = text@[i0];
        if c0 == 92 || c0 == 34 { lemma_q_push(qs, 92); lemma_q_push(qs.push(92), c0); assert(quoted@.skip(1) =~= qs.push(92).push(c0)); }
        else { lemma_q_push(qs, c0); assert(quoted@.skip(1) =~= qs.push(c0)); }
    }
@hint loop 2 post
    let ghost qe = quoted@.skip(1);
    proof { lemma_q_push(qe, 34); assert(quoted@.push(34u8).skip(1) =~= qe.push(34)); }
@rust
// PROPERTY: the argument the server reads is the text that was to be sent
pub fn property_quoting(t: &Vec<u8>) -> (r: Vec<u8>)
    requires t.len() < 0x3fff_ffff_ffff_ffff, line_ok(t@)
    ensures astring(r@, t@), line_ok(r@)
{ quote_string(t) }
