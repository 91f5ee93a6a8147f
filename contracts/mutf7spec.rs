// ---- UTF-8 text as UTF-16 code units ----
pub open spec fn cont(c: u8) -> bool { 0x80 <= c < 0xc0 }
// length of the character that starts at i (0: not a valid one)
#[verifier::opaque]
pub open spec fn clen(s: Seq<u8>, i: int) -> int {
    if !(0 <= i < s.len()) { 0 }
    else if s[i] < 0x80 { 1 }
    else if 0xc2 <= s[i] < 0xe0 { if i + 1 < s.len() && cont(s[i + 1]) { 2 } else { 0 } }
    else if 0xe0 <= s[i] < 0xf0 { if i + 2 < s.len() && cont(s[i + 1]) && cont(s[i + 2]) && !(s[i] == 0xe0 && s[i + 1] < 0xa0) { 3 } else { 0 } }
    else if 0xf0 <= s[i] < 0xf5 { if i + 3 < s.len() && cont(s[i + 1]) && cont(s[i + 2]) && cont(s[i + 3]) && !(s[i] == 0xf0 && s[i + 1] < 0x90) && !(s[i] == 0xf4 && s[i + 1] >= 0x90) { 4 } else { 0 } }
    else { 0 }
}
#[verifier::opaque]
pub open spec fn cpt(s: Seq<u8>, i: int) -> int {
    let n = clen(s, i);
    if n == 1 { s[i] as int }
    else if n == 2 { (s[i] - 0xc0) * 64 + (s[i + 1] - 0x80) }
    else if n == 3 { (s[i] - 0xe0) * 4096 + (s[i + 1] - 0x80) * 64 + (s[i + 2] - 0x80) }
    else { (s[i] - 0xf0) * 262144 + (s[i + 1] - 0x80) * 4096 + (s[i + 2] - 0x80) * 64 + (s[i + 3] - 0x80) }
}
#[verifier::opaque]
pub open spec fn units1(cp: int) -> Seq<int> { if cp < 0x10000 { seq![cp] } else { seq![0xd800 + (cp - 0x10000) / 1024, 0xdc00 + (cp - 0x10000) % 1024] } }
#[verifier::opaque]
pub open spec fn utf8_ok(s: Seq<u8>, i: int) -> bool decreases s.len() - i { if i < 0 || i > s.len() { false } else if i == s.len() { true } else { clen(s, i) > 0 && i + clen(s, i) <= s.len() && utf8_ok(s, i + clen(s, i)) } }
#[verifier::opaque]
pub open spec fn units(s: Seq<u8>, i: int) -> Seq<int> decreases s.len() - i { if i < 0 || i >= s.len() || clen(s, i) <= 0 || i + clen(s, i) > s.len() { Seq::empty() } else { units1(cpt(s, i)) + units(s, i + clen(s, i)) } }

// ---- Base64 digits of 16-bit units (RFC 2152, RFC 3501) ----
pub open spec fn dig(c: u8, last: u8) -> int {
    if 65 <= c <= 90 { c - 65 } else if 97 <= c <= 122 { c - 71 } else if 48 <= c <= 57 { c + 4 } else if c == 43 { 62 } else if c == last { 63 } else { -1 }
}
pub open spec fn is_dig(c: u8, last: u8) -> bool { dig(c, last) >= 0 }
pub open spec fn bunit(d: Seq<u8>, j: int, last: u8) -> int {
    let q = 8 * (j / 3);
    if j % 3 == 0 { dig(d[q], last) * 1024 + dig(d[q + 1], last) * 16 + dig(d[q + 2], last) / 4 }
    else if j % 3 == 1 { dig(d[q + 2], last) % 4 * 16384 + dig(d[q + 3], last) * 256 + dig(d[q + 4], last) * 4 + dig(d[q + 5], last) / 16 }
    else { dig(d[q + 5], last) % 16 * 4096 + dig(d[q + 6], last) * 64 + dig(d[q + 7], last) }
}
#[verifier::opaque]
pub open spec fn bunits(d: Seq<u8>, last: u8) -> Seq<int> { Seq::new(((6 * d.len()) / 16) as nat, |j: int| bunit(d, j, last)) }

// ---- modified UTF-7 (RFC 3501, 5.1.3), read byte by byte ----
pub struct MSt { pub ok: bool, pub b64: bool, pub d: Seq<u8>, pub o: Seq<int> }
pub open spec fn mstep(m: MSt, c: u8) -> MSt {
    if !m.b64 {
        if c == 38 { MSt { b64: true, d: Seq::empty(), ..m } }
        else { MSt { ok: m.ok && 0x20 <= c <= 0x7e, o: m.o.push(c as int), ..m } }
    } else if c == 45 { MSt { b64: false, d: Seq::empty(), o: m.o + (if m.d.len() == 0 { seq![38int] } else { bunits(m.d, 44) }), ..m } }
    else { MSt { ok: m.ok && is_dig(c, 44), d: m.d.push(c), ..m } }
}
#[verifier::opaque]
pub open spec fn mrun(t: Seq<u8>) -> MSt decreases t.len() { if t.len() == 0 { MSt { ok: true, b64: false, d: Seq::empty(), o: Seq::empty() } } else { mstep(mrun(t.drop_last()), t.last()) } }
pub open spec fn mutf7_ok(t: Seq<u8>) -> bool { mrun(t).ok && !mrun(t).b64 }
pub open spec fn mutf7(t: Seq<u8>) -> Seq<int> { mrun(t).o }

// ---- UTF-7 (RFC 2152), the part of it that is used: every run is ended by '-' ----
pub open spec fn ustep(m: MSt, c: u8) -> MSt {
    if !m.b64 {
        if c == 43 { MSt { b64: true, d: Seq::empty(), ..m } }
        else { MSt { ok: m.ok && 0x20 <= c <= 0x7d && c != 92, o: m.o.push(c as int), ..m } }
    } else if c == 45 { MSt { b64: false, d: Seq::empty(), o: m.o + (if m.d.len() == 0 { seq![43int] } else { bunits(m.d, 47) }), ..m } }
    else { MSt { ok: m.ok && is_dig(c, 47), d: m.d.push(c), ..m } }
}
#[verifier::opaque]
pub open spec fn urun(t: Seq<u8>) -> MSt decreases t.len() { if t.len() == 0 { MSt { ok: true, b64: false, d: Seq::empty(), o: Seq::empty() } } else { ustep(urun(t.drop_last()), t.last()) } }
pub open spec fn utf7_ok(t: Seq<u8>) -> bool { urun(t).ok && !urun(t).b64 }
pub open spec fn utf7(t: Seq<u8>) -> Seq<int> { urun(t).o }

pub proof fn lemma_m_push(t: Seq<u8>, c: u8) ensures mrun(t.push(c)) == mstep(mrun(t), c)
{ reveal(mrun); assert(t.push(c).drop_last() =~= t); }
pub proof fn lemma_u_push(t: Seq<u8>, c: u8) ensures urun(t.push(c)) == ustep(urun(t), c)
{ reveal(urun); assert(t.push(c).drop_last() =~= t); }
