@unit url
@use strings
@type (const )?std::map<.*string.*> = vec:stru:SPair
@type .*_Rb_tree_(const_)?iterator<.*> = iter:stru:SPair
@source src/vmime/utility/urlUtils.cpp
@include seqbook.rs
@include urlspec.rs
@fn vmime::utility::urlUtils::encode as url_encode
@ensures
    res@ == uenc(s@),
@hint start
    proof { if s@.len() > 0 { lemma_enc_take(s@, 0); } else { reveal(uenc); } assert(s@.take(0) =~= e0()); assert(s@.take(s.len() as int) =~= s@); reveal(uenc); }
@loop 1 invariant
    0 <= it <= s.len(), result@ == uenc(s@.take(it as int)),
@loop 1 decreases
    s.len() - it
@hint loop 1 begin
    proof { lemma_enc_take(s@, it as int); }
    let ghost r0 = result@; let ghost k0 = it as int;
@hint after ~str_find_ch~
    proof {
        let w = RESERVED_CHARS@;
        assert(url_reserved(c) == in_set(c, w)) by {
            if url_reserved(c) { assert(w[0] == c || w[1] == c || w[2] == c || w[3] == c || w[4] == c || w[5] == c || w[6] == c || w[7] == c || w[8] == c || w[9] == c || w[10] == c || w[11] == c || w[12] == c || w[13] == c || w[14] == c || w[15] == c || w[16] == c || w[17] == c || w[18] == c || w[19] == c || w[20] == c || w[21] == c || w[22] == c || w[23] == c); }
        }
    }
@hint before ~let mut t\d+__ = lit_983c~
    assert((k as int / 16 == 0 || k as int / 16 == 1 || k as int / 16 == 2 || k as int / 16 == 3 || k as int / 16 == 4 || k as int / 16 == 5 || k as int / 16 == 6 || k as int / 16 == 7 || k as int / 16 == 8 || k as int / 16 == 9 || k as int / 16 == 10 || k as int / 16 == 11 || k as int / 16 == 12 || k as int / 16 == 13 || k as int / 16 == 14 || k as int / 16 == 15));
    let ghost m = k as int % 16; assert((m == 0 || m == 1 || m == 2 || m == 3 || m == 4 || m == 5 || m == 6 || m == 7 || m == 8 || m == 9 || m == 10 || m == 11 || m == 12 || m == 13 || m == 14 || m == 15));
@hint before ~str_append_cz~
    proof {
        let h = hexu(k as int / 16); let l = hexu(k as int % 16);
        assert(hex@ =~= seq![37u8, h, l, 0u8]);
        reveal_with_fuel(cz_end, 5);
        assert(hex@.subrange(0, cz_end(hex@, 0)) =~= enc1(c));
    }
@hint after ~result.push~
    assert(result@ =~= r0 + enc1(c));

@fn vmime::utility::urlUtils::decode as url_decode
@ensures
    dec_ok(s@) ==> res@ == udec(s@),
@hint start
    proof { assert(from(s@, 0) =~= s@); lemma_nil(udec(s@)); }
@loop 1 invariant
    0 <= it <= s.len(), dec_ok(s@) ==> dec_ok(from(s@, it as int)) && result@ + udec(from(s@, it as int)) == udec(s@),
@loop 1 decreases
    s.len() - it
@hint loop 1 begin
    let ghost i0 = it as int; let ghost r0 = result@; let ghost w = from(s@, i0);
    proof { reveal(udec); reveal(dec_ok); assert(from(w, 1) =~= from(s@, i0 + 1)); if w.len() >= 3 { assert(from(w, 3) =~= from(s@, i0 + 3)); } }
@hint loop 1 end
    proof { if dec_ok(s@) {
        let n = if w[0] == 37 { 3int } else { 1int };
        let h = if n == 3 { seq![(hexv(w[1]) * 16 + hexv(w[2])) as u8] } else { seq![w[0]] };
        assert(it == i0 + n); assert(result@ =~= r0 + h);
        assert((r0 + h) + udec(from(s@, it as int)) =~= r0 + (h + udec(from(s@, it as int))));
    } }
@hint end
    proof { assert(from(s@, s.len() as int) =~= e0()); reveal(udec); lemma_nil(result@); }

@fn vmime::utility::urlUtils::encodeHost as url_encodehost
@ensures
    res@ == enc_host(s@),
@loop 1 invariant
    0 <= it <= s.len(), forall|k: int| 0 <= k < it ==> v6ch(#[trigger] s@[k]), hasColon == (exists|k: int| 0 <= k < it && s@[k] == 58),
@loop 1 decreases
    s.len() - it

@source src/vmime/utility/stringUtils.cpp
@fn vmime::utility::stringUtils::trim as su_trim
@ensures
    no_sp(str@) ==> res@ == str@, res.len() <= str.len(),
@loop 1 invariant
    0 <= b <= e, e == str.len(), no_sp(str@) ==> b == 0,
@loop 1 decreases
    str.len() - b
@loop 2 invariant
    0 <= b <= e, e <= str.len(), no_sp(str@) ==> b == 0 && e == str.len(),
@loop 2 decreases
    e - b
@hint end
    assert(str@.subrange(0, str.len() as int) =~= str@);

@fn vmime::utility::stringUtils::toLower as su_lower
@ensures
    res.len() == str.len(), forall|k: int| 0 <= k < str.len() ==> #[trigger] res@[k] == lower_c(str@[k]),
@loop 1 invariant
    i <= len, len == str.len(), out.len() == len, forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == lower_c(str@[k]),
@loop 1 decreases
    len - i

@source src/vmime/utility/url.cpp
@struct vmime::utility::url as Url
@exc malformed_url
@rust
// ---- text of a URL
#[verifier::opaque]
pub open spec fn url_user(u: Url) -> Seq<u8> { if u.m_username@.len() == 0 { e0() } else { uenc(u.m_username@) + (if u.m_password@.len() == 0 { e0() } else { seq![58u8] + uenc(u.m_password@) }) + seq![64u8] } }
pub open spec fn url_port(p: u16) -> Seq<u8> { if p == 65535 { e0() } else { seq![58u8] + dec_digits(p as nat) } }
#[verifier::opaque]
pub open spec fn url_hostpart(u: Url) -> Seq<u8> { enc_host(u.m_host@) + url_port(u.m_port) }
#[verifier::opaque]
pub open spec fn url_param(p: SPair) -> Seq<u8> { uenc(p.first@) + (seq![61u8] + uenc(p.second@)) }
#[verifier::opaque]
pub open spec fn url_params(m: Seq<SPair>) -> Seq<u8> decreases m.len() { if m.len() == 0 { e0() } else if m.len() == 1 { url_param(m[0]) } else { url_params(m.drop_last()) + (seq![38u8] + url_param(m.last())) } }
#[verifier::opaque]
pub open spec fn url_path(u: Url) -> Seq<u8> { uenc(u.m_path@) + (if u.m_params@.len() == 0 { e0() } else { seq![63u8] + url_params(u.m_params@) }) }
#[verifier::opaque]
pub open spec fn url_rest(u: Url) -> Seq<u8> { if u.m_path@.len() == 0 && u.m_params@.len() == 0 { e0() } else { seq![47u8] + url_path(u) } }
pub open spec fn url_sep() -> Seq<u8> { seq![58u8, 47u8, 47u8] }
#[verifier::opaque]
pub open spec fn url_txt(u: Url) -> Seq<u8> { u.m_protocol@ + (url_sep() + (url_user(u) + (url_hostpart(u) + url_rest(u)))) }
pub open spec fn proto_ch(c: u8) -> bool { 97 <= c <= 122 || 48 <= c <= 57 || c == 43 || c == 45 || c == 46 }
pub open spec fn is_file(s: Seq<u8>) -> bool { s == seq![102u8, 105u8, 108u8, 101u8] }
// a URL of the usual form: scheme other than "file", a host; a password only with a user name; parameters in key order
pub open spec fn url_ok(u: Url) -> bool {
    &&& u.m_protocol@.len() > 0 && !is_file(u.m_protocol@) && forall|k: int| 0 <= k < u.m_protocol@.len() ==> proto_ch(#[trigger] u.m_protocol@[k])
    &&& u.m_host@.len() > 0 && u.m_port != 0
    &&& (u.m_username@.len() == 0 ==> u.m_password@.len() == 0)
    &&& forall|i: int| 0 <= i < u.m_params@.len() ==> #[trigger] smap_keys_lt(u.m_params@.take(i), u.m_params@[i].first@)
}
pub open spec fn same_params(a: Seq<SPair>, b: Seq<SPair>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).first@ == b[i].first@ && a[i].second@ == b[i].second@ }
pub open spec fn url_same(a: Url, b: Url) -> bool {
    a.m_protocol@ == b.m_protocol@ && a.m_username@ == b.m_username@ && a.m_password@ == b.m_password@ && a.m_host@ == b.m_host@ && a.m_port == b.m_port && a.m_path@ == b.m_path@ && same_params(a.m_params@, b.m_params@)
}
pub proof fn lemma_digits(n: nat) ensures all_digits(dec_digits(n)), dec_val(dec_digits(n)) == n, dec_digits(n).len() > 0 decreases n
{
    reveal_with_fuel(dec_val, 2);
    if n >= 10 { lemma_digits(n / 10); assert(dec_digits(n).drop_last() =~= dec_digits(n / 10)); }
    else { assert(dec_digits(n).drop_last() =~= e0()); }
}
// characters that may appear in the parts
pub open spec fn hp_ch(c: u8) -> bool { enc_ch(c) || c == 58 || c == 91 || c == 93 }
pub proof fn lemma_user(u: Url) requires url_ok(u)
    ensures ({ let s = url_user(u);
        &&& forall|k: int| 0 <= k < s.len() - 1 ==> enc_ch(#[trigger] s[k]) || s[k] == 58
        &&& s.len() > 0 ==> s.last() == 64 && s.len() > 1
        &&& s.len() == 0 <==> u.m_username@.len() == 0 }), all_enc(uenc(u.m_username@)), all_enc(uenc(u.m_password@)),
        udec(uenc(u.m_username@)) == u.m_username@, udec(uenc(u.m_password@)) == u.m_password@, udec(uenc(u.m_path@)) == u.m_path@, dec_ok(uenc(u.m_username@)), dec_ok(uenc(u.m_password@)), dec_ok(uenc(u.m_path@)), all_enc(uenc(u.m_path@)), uenc(e0()) == e0(),
        u.m_path@.len() == 0 ==> uenc(u.m_path@) == e0(), u.m_password@.len() == 0 ==> uenc(u.m_password@) == e0(), u.m_password@.len() > 0 ==> uenc(u.m_password@).len() > 0,
{ reveal(url_user);
    property_url_charset(u.m_username@); property_url_charset(u.m_password@); property_url_charset(u.m_path@); property_url_decode_encode(u.m_username@); property_url_decode_encode(u.m_password@); property_url_decode_encode(u.m_path@); reveal(uenc);
    let s = url_user(u); let a = uenc(u.m_username@); let b = uenc(u.m_password@);
    if u.m_username@.len() > 0 {
        if u.m_password@.len() == 0 { assert(s =~= a + seq![64u8]); } else { assert(s =~= a + seq![58u8] + b + seq![64u8]); }
        assert forall|k: int| 0 <= k < s.len() - 1 implies enc_ch(#[trigger] s[k]) || s[k] == 58 by {
            if k < a.len() { assert(s[k] == a[k]); } else if k > a.len() { assert(s[k] == b[k - a.len() - 1]); }
        }
    }
}
pub proof fn lemma_hostpart(u: Url) requires url_ok(u)
    ensures forall|k: int| 0 <= k < url_hostpart(u).len() ==> hp_ch(#[trigger] url_hostpart(u)[k]), url_hostpart(u).len() > 0, all_enc(uenc(u.m_host@)), udec(uenc(u.m_host@)) == u.m_host@, dec_ok(uenc(u.m_host@)), uenc(u.m_host@).len() > 0,
        all_digits(dec_digits(u.m_port as nat)), dec_val(dec_digits(u.m_port as nat)) == u.m_port, dec_digits(u.m_port as nat).len() > 0,
        is_v6(u.m_host@) ==> udec(u.m_host@) == u.m_host@ && dec_ok(u.m_host@),
{ reveal(url_hostpart);
    let h = u.m_host@; let e = enc_host(h); let p = url_port(u.m_port); let d = dec_digits(u.m_port as nat);
    property_url_charset(h); property_url_decode_encode(h); lemma_digits(u.m_port as nat);
    if is_v6(h) { assert forall|k: int| 0 <= k < h.len() implies h[k] != 37 by { assert(v6ch(h[k])); } lemma_dec_plain(h); }
    assert forall|k: int| 0 <= k < e.len() implies hp_ch(#[trigger] e[k]) by {
        if is_v6(h) { if 0 < k < e.len() - 1 { assert(e[k] == h[k - 1]); assert(v6ch(h[k - 1])); } } else { assert(enc_ch(uenc(h)[k])); }
    }
    assert forall|k: int| 0 <= k < url_hostpart(u).len() implies hp_ch(#[trigger] url_hostpart(u)[k]) by {
        if k < e.len() { assert(url_hostpart(u)[k] == e[k]); } else { assert(url_hostpart(u)[k] == p[k - e.len()]); if k > e.len() { assert(p[k - e.len()] == d[k - e.len() - 1]); } }
    }
}
pub proof fn lemma_params1(m: Seq<SPair>, i: int) requires 0 <= i < m.len()
    ensures url_params(m.take(i + 1)) == (if i == 0 { url_param(m[0]) } else { url_params(m.take(i)) + (seq![38u8] + url_param(m[i])) })
{ reveal(url_params); assert(m.take(i + 1).drop_last() =~= m.take(i)); assert(m.take(i + 1).last() == m[i]); }

@rust
pub proof fn lemma_assemble(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>, e: Seq<u8>) ensures (((a + b) + c) + d) + e == a + (b + (c + (d + e))) { assert((((a + b) + c) + d) + e =~= a + (b + (c + (d + e)))); }
pub proof fn lemma_b_user(o: Seq<u8>, u: Url) ensures ({ let a = uenc(u.m_username@); let b = uenc(u.m_password@); let r = o + url_user(u);
    if u.m_username@.len() == 0 { o == r } else if u.m_password@.len() == 0 { (o + a) + seq![64u8] == r } else { (((o + a) + seq![58u8]) + b) + seq![64u8] == r } })
{ reveal(url_user); let a = uenc(u.m_username@); let b = uenc(u.m_password@); let r = o + url_user(u); if u.m_username@.len() == 0 { assert(o =~= r); } else if u.m_password@.len() == 0 { assert((o + a) + seq![64u8] =~= r); } else { assert((((o + a) + seq![58u8]) + b) + seq![64u8] =~= r); } }
pub proof fn lemma_b_host(o: Seq<u8>, u: Url) ensures ({ let h = enc_host(u.m_host@); let r = o + url_hostpart(u); if u.m_port == 65535 { o + h == r } else { ((o + h) + seq![58u8]) + dec_digits(u.m_port as nat) == r } })
{ reveal(url_hostpart); let h = enc_host(u.m_host@); let r = o + url_hostpart(u); if u.m_port == 65535 { assert(o + h =~= r); } else { assert(((o + h) + seq![58u8]) + dec_digits(u.m_port as nat) =~= r); } }
// without parameters; and up to the question mark
pub proof fn lemma_b_path(o: Seq<u8>, u: Url) ensures ({ let p = uenc(u.m_path@); let z = o + (seq![47u8] + (p + seq![63u8]));
    &&& u.m_path@.len() == 0 ==> (o + seq![47u8]) + seq![63u8] == z
    &&& u.m_path@.len() > 0 ==> ((o + seq![47u8]) + p) + seq![63u8] == z
    &&& u.m_params@.len() > 0 ==> z + url_params(u.m_params@) == o + url_rest(u)
    &&& u.m_params@.len() == 0 ==> o + url_rest(u) == (if u.m_path@.len() == 0 { o } else { (o + seq![47u8]) + p }) })
{ reveal(url_rest); reveal(url_path);
    let p = uenc(u.m_path@); let z = o + (seq![47u8] + (p + seq![63u8])); let pp = url_params(u.m_params@);
    assert(u.m_path@.len() == 0 ==> p == e0()) by { reveal(uenc); }
    assert(((o + seq![47u8]) + p) + seq![63u8] =~= z);
    if u.m_path@.len() == 0 { assert((o + seq![47u8]) + seq![63u8] =~= z); }
    if u.m_params@.len() > 0 { assert(z + pp =~= o + (seq![47u8] + (p + (seq![63u8] + pp)))); } else { lemma_nil(o); lemma_nil(p); assert((o + seq![47u8]) + p =~= o + (seq![47u8] + p)); }
}
pub proof fn lemma_b_param(o: Seq<u8>, q: Seq<u8>, m: Seq<SPair>, i: int) requires 0 <= i < m.len(), q == o + url_params(m.take(i))
    ensures ({ let a = uenc(m[i].first@); let b = uenc(m[i].second@); let r = o + url_params(m.take(i + 1)); if i == 0 { ((q + a) + seq![61u8]) + b == r } else { (((q + seq![38u8]) + a) + seq![61u8]) + b == r } })
{ reveal(url_param);
    let a = uenc(m[i].first@); let b = uenc(m[i].second@); let r = o + url_params(m.take(i + 1)); let q0 = url_params(m.take(i));
    lemma_params1(m, i);
    if i == 0 { assert(m.take(0) =~= Seq::<SPair>::empty()); assert(q0 == e0()) by { reveal(url_params); } lemma_nil(o); assert(((q + a) + seq![61u8]) + b =~= q + url_param(m[i])); }
    else { assert((((q + seq![38u8]) + a) + seq![61u8]) + b =~= o + (q0 + (seq![38u8] + url_param(m[i])))); }
}

@fn vmime::utility::url::build as url_build
@isolate
@ensures
    res@ == url_txt(*this),
@hint start
    let ghost u = *this; let ghost o0 = u.m_protocol@ + url_sep();
    proof { assert(e0() + u.m_protocol@ =~= u.m_protocol@); lemma_b_user(o0, u); }
@hint before ~let mut t\d+__ = url_encodehost~
    let ghost o1 = oss@;
    proof { assert(o1 == o0 + url_user(u)); lemma_b_host(o1, u); }
@hint before `if (!(this.m_path.len() == 0usize)) {`
    let ghost o2 = oss@;
    proof { assert(o2 == o1 + url_hostpart(u)); lemma_b_path(o2, u); }
@hint loop 1 pre
    let ghost o4 = oss@;
    proof { assert(o4 == o2 + (seq![47u8] + (uenc(u.m_path@) + seq![63u8]))); assert(u.m_params@.take(0) =~= Seq::<SPair>::empty()); lemma_nil(o4); assert(url_params(Seq::<SPair>::empty()) == e0()) by { reveal(url_params); } }
@loop 1 invariant
    0 <= it <= this.m_params.len(), u == *this, oss@ == o4 + url_params(u.m_params@.take(it as int)),
@loop 1 decreases
    this.m_params.len() - it
@hint loop 1 begin
    proof { lemma_b_param(o4, oss@, u.m_params@, it as int); }
@hint end
    proof {
        assert(u.m_params@.take(u.m_params@.len() as int) =~= u.m_params@);
        assert(oss@ == o2 + url_rest(u)); reveal(url_txt);
        lemma_assemble(u.m_protocol@, url_sep(), url_user(u), url_hostpart(u), url_rest(u));
    }

@rust
pub open spec fn par_ch(c: u8) -> bool { enc_ch(c) || c == 61 || c == 38 }
pub proof fn lemma_param_ch(p: SPair) ensures forall|k: int| 0 <= k < url_param(p).len() ==> par_ch(#[trigger] url_param(p)[k])
{ reveal(url_param);
    let a = uenc(p.first@); let b = uenc(p.second@); let r = url_param(p);
    property_url_charset(p.first@); property_url_charset(p.second@);
    assert forall|k: int| 0 <= k < r.len() implies par_ch(#[trigger] r[k]) by { if k < a.len() { assert(r[k] == a[k]); } else if k > a.len() { assert(r[k] == b[k - a.len() - 1]); } }
}
pub proof fn lemma_params_ch(m: Seq<SPair>) ensures forall|k: int| 0 <= k < url_params(m).len() ==> par_ch(#[trigger] url_params(m)[k]), m.len() > 0 ==> url_params(m).len() > 0 decreases m.len()
{
    reveal(url_params);
    if m.len() > 0 {
        let r = url_params(m); lemma_param_ch(m.last()); lemma_param_ch(m[0]); assert(url_param(m[0]).len() > 0) by { reveal(url_param); }
        if m.len() > 1 {
            lemma_params_ch(m.drop_last()); let a = url_params(m.drop_last()); let p = url_param(m.last());
            assert forall|k: int| 0 <= k < r.len() implies par_ch(#[trigger] r[k]) by { if k < a.len() { assert(r[k] == a[k]); } else if k > a.len() { assert(r[k] == p[k - a.len() - 1]); } }
        }
    }
}
// where parameter j starts in the text
pub open spec fn poff(m: Seq<SPair>, j: int) -> int { if j == 0 { 0 } else { url_params(m.take(j)).len() as int + 1 } }
pub proof fn lemma_ppre(m: Seq<SPair>, i: int) requires 0 < i <= m.len()
    ensures ({ let a = url_params(m.take(i)); let r = url_params(m); a.len() <= r.len() && r.subrange(0, a.len() as int) == a && (i < m.len() ==> a.len() < r.len() && r[a.len() as int] == 38) && (i == m.len() ==> a == r) }) decreases m.len() - i
{
    let a = url_params(m.take(i)); let r = url_params(m);
    if i == m.len() { assert(m.take(i) =~= m); assert(r.subrange(0, r.len() as int) =~= r); }
    else {
        lemma_ppre(m, i + 1); lemma_params1(m, i);
        let b = url_params(m.take(i + 1)); let p = url_param(m[i]);
        assert(b == a + (seq![38u8] + p));
        assert(r.subrange(0, a.len() as int) =~= a) by { assert forall|k: int| 0 <= k < a.len() implies r[k] == a[k] by { assert(r.subrange(0, b.len() as int)[k] == b[k]); } }
        assert(r.subrange(0, b.len() as int)[a.len() as int] == b[a.len() as int]);
    }
}
pub proof fn lemma_pseg(m: Seq<SPair>, j: int) requires 0 <= j < m.len()
    ensures ({ let o = poff(m, j); let p = url_param(m[j]); let r = url_params(m);
        &&& 0 <= o && o + p.len() <= r.len() && r.subrange(o, o + p.len()) == p && poff(m, j + 1) == o + p.len() + 1
        &&& (j + 1 < m.len() ==> o + p.len() < r.len() && r[o + p.len()] == 38) && (j + 1 == m.len() ==> o + p.len() == r.len()) })
{
    let o = poff(m, j); let p = url_param(m[j]); let r = url_params(m); let a = url_params(m.take(j)); let b = url_params(m.take(j + 1));
    lemma_params1(m, j); lemma_ppre(m, j + 1);
    assert(r.subrange(o, o + p.len()) =~= p) by { assert forall|k: int| 0 <= k < p.len() implies r[o + k] == p[k] by { assert(r.subrange(0, b.len() as int)[o + k] == b[o + k]); } }
}
pub open spec fn t12s(c: u8) -> bool { sfill(1, c) =~= seq![c] }

@fn vmime::utility::extractHostIPv6 as url_ipv6
@extraparam Ghost(gu): Ghost<Url>
@extraarg Ghost(gu)
@requires
    old(hostPart).len() < 0x1000_0000_0000_0000,
@ensures
    final(hostPart)@ == old(hostPart)@, !res ==> final(port)@ == old(port)@,
    url_ok(gu) && old(hostPart)@ == url_hostpart(gu) ==> res == is_v6(gu.m_host@) && (res ==> final(host)@ == gu.m_host@ && final(port)@ == (if gu.m_port == 65535 { old(port)@ } else { dec_digits(gu.m_port as nat) })),
@hint start
    let ghost g = url_ok(gu) && hostPart@ == url_hostpart(gu); let ghost h = gu.m_host@;
    proof { if g { reveal(url_hostpart); lemma_hostpart(gu); if !is_v6(h) { assert(enc_ch(uenc(h)[0])); assert(hostPart@[0] == uenc(h)[0]); } else { assert(h.len() >= 1); assert(hostPart@[0] == 91); assert(hostPart@[h.len() as int + 1] == 93); assert forall|k: int| 0 <= k < h.len() + 1 implies hostPart@[k] != 93 by { if k > 0 { assert(hostPart@[k] == h[k - 1]); assert(v6ch(h[k - 1])); } } } } }
@hint after ~^let mut len~
    proof { if g { assert(len == h.len() + 1); assert(hostPart@.subrange(1, 1 + (len - 1)) =~= h); } }
@hint before ~host = str_range~
    proof { if g { if gu.m_port != 65535 { assert(hostPart@[len + 1] == 58); assert(hostPart@.subrange(len + 2, hostPart.len() as int) =~= dec_digits(gu.m_port as nat)); } else { assert(hostPart.len() == len + 1); } } }

@fn vmime::utility::extractHost as url_host
@extraparam Ghost(gu): Ghost<Url>
@extraarg Ghost(gu)
@requires
    old(hostPart).len() < 0x1000_0000_0000_0000,
@ensures
    url_ok(gu) && old(hostPart)@ == url_hostpart(gu) && old(port)@ == e0() ==> final(host)@ == (if is_v6(gu.m_host@) { gu.m_host@ } else { uenc(gu.m_host@) }) && final(port)@ == (if gu.m_port == 65535 { e0() } else { dec_digits(gu.m_port as nat) }),
@hint start
    let ghost g = url_ok(gu) && hostPart@ == url_hostpart(gu) && port@ == e0(); let ghost h = uenc(gu.m_host@); let ghost d = dec_digits(gu.m_port as nat);
    proof { if g { reveal(url_hostpart); lemma_hostpart(gu); } }
@hint after ~^let mut colonPos~
    proof { if g {
        assert(hostPart@ =~= h + url_port(gu.m_port));
        assert forall|k: int| 0 <= k < h.len() implies hostPart@[k] != 58 && !is_sp(hostPart@[k]) by { assert(hostPart@[k] == h[k]); assert(enc_ch(h[k])); }
        assert(no_sp(h)) by { assert forall|k: int| 0 <= k < h.len() implies !is_sp(#[trigger] h[k]) by { assert(enc_ch(h[k])); } }
        if gu.m_port == 65535 { assert(hostPart@ =~= h); assert(colonPos == NPOS); }
        else { assert(hostPart@[h.len() as int] == 58); assert(colonPos == h.len()); assert(hostPart@.subrange(0, colonPos as int) =~= h); assert(hostPart@.subrange(colonPos + 1, hostPart.len() as int) =~= d);
            assert(no_sp(d)) by { assert forall|k: int| 0 <= k < d.len() implies !is_sp(#[trigger] d[k]) by { assert(48 <= d[k] <= 57); } } }
    } }

@rust
// what the parser sees in the text of a URL
pub proof fn lemma_txt(s: Seq<u8>, u: Url) requires url_ok(u), s == url_txt(u)
    ensures ({ let p = u.m_protocol@.len() as int; let n0 = p + 3; let us = url_user(u); let hp = url_hostpart(u); let n1 = n0 + us.len(); let n2 = n1 + hp.len();
        &&& n2 <= s.len() && occurs_at(s, url_sep(), p) && (forall|k: int| 0 <= k < p ==> !occurs_at(s, url_sep(), k)) && s.subrange(0, p) == u.m_protocol@
        &&& (forall|k: int| n0 <= k < n2 ==> #[trigger] s[k] != 47) && (s.len() > n2 ==> s[n2] == 47)
        &&& (forall|k: int| n1 <= k < n2 ==> #[trigger] s[k] != 64) && s.subrange(n1, n2) == hp
        &&& us.len() > 0 ==> us.len() > 1 && s[n1 - 1] == 64 && s.subrange(n0, n1 - 1) == us.drop_last()
        &&& us.len() == 0 ==> forall|k: int| 0 <= k < s.len() && k <= n2 ==> #[trigger] s[k] != 64
        &&& s.len() > n2 ==> s.subrange(n2 + 1, s.len() as int) == url_path(u)
        &&& s.len() == n2 <==> u.m_path@.len() == 0 && u.m_params@.len() == 0 })
{
    let pr = u.m_protocol@; let us = url_user(u); let hp = url_hostpart(u); let rs = url_rest(u); let p = pr.len() as int; let n0 = p + 3; let n1 = n0 + us.len(); let n2 = n1 + hp.len();
    reveal(url_txt);
    lemma_user(u); lemma_hostpart(u);
    assert(s.len() == n2 + rs.len());
    assert forall|k: int| 0 <= k < p implies #[trigger] s[k] == pr[k] && proto_ch(s[k]) by { assert(proto_ch(pr[k])); }
    assert(s[p] == 58 && s[p + 1] == 47 && s[p + 2] == 47);
    assert forall|k: int| n0 <= k < n1 implies #[trigger] s[k] == us[k - n0] by {}
    assert forall|k: int| n1 <= k < n2 implies #[trigger] s[k] == hp[k - n1] && hp_ch(s[k]) by { assert(hp_ch(hp[k - n1])); }
    assert forall|k: int| n2 <= k < s.len() implies #[trigger] s[k] == rs[k - n2] by {}
    assert(s.subrange(0, p) =~= pr); assert(s.subrange(n1, n2) =~= hp);
    assert(s.subrange(p, p + 3) =~= url_sep());
    assert forall|k: int| 0 <= k < p implies !occurs_at(s, url_sep(), k) by { if occurs_at(s, url_sep(), k) { assert(s.subrange(k, k + 3)[0] == 58); assert(proto_ch(s[k])); } }
    assert forall|k: int| n0 <= k < n2 implies #[trigger] s[k] != 47 by { if k < n1 { if k == n1 - 1 { assert(us.last() == 64); } } }
    if us.len() > 0 { assert(s[n1 - 1] == us.last()); assert(s.subrange(n0, n1 - 1) =~= us.drop_last()); }
    reveal(url_rest);
    if rs.len() > 0 { let x = url_path(u); assert(s.subrange(n2 + 1, s.len() as int) =~= x) by { assert forall|k: int| 0 <= k < x.len() implies s[n2 + 1 + k] == x[k] by { assert(rs[k + 1] == x[k]); } } }
}
pub proof fn lemma_userpart(s: Seq<u8>, u: Url) requires url_ok(u), u.m_username@.len() > 0, s == url_user(u).drop_last()
    ensures ({ let a = uenc(u.m_username@); let b = uenc(u.m_password@);
        &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] s[k] != 58
        &&& u.m_password@.len() == 0 ==> s == a && b == e0()
        &&& u.m_password@.len() > 0 ==> a.len() < s.len() && s[a.len() as int] == 58 && s.subrange(0, a.len() as int) == a && s.subrange(a.len() as int + 1, s.len() as int) == b })
{
    let a = uenc(u.m_username@); let b = uenc(u.m_password@);
    lemma_user(u); reveal(url_user);
    if u.m_password@.len() == 0 { assert(s =~= a); } else { assert(s =~= a + seq![58u8] + b); assert(s.subrange(0, a.len() as int) =~= a); assert(s.subrange(a.len() as int + 1, s.len() as int) =~= b); }
    assert forall|k: int| 0 <= k < a.len() implies #[trigger] s[k] != 58 by { assert(s[k] == a[k]); assert(enc_ch(a[k])); }
}
pub proof fn lemma_set1(c: u8) ensures sfill(1, c) == seq![c], forall|x: u8| #[trigger] in_set(x, seq![c]) == (x == c) { assert(sfill(1, c) =~= seq![c]); assert(seq![c][0] == c); }
pub proof fn lemma_path(x: Seq<u8>, u: Url) requires url_ok(u), x == url_path(u)
    ensures ({ let q = uenc(u.m_path@);
        &&& no_sp(x) && (forall|k: int| 0 <= k < q.len() ==> #[trigger] x[k] != 63)
        &&& u.m_params@.len() == 0 ==> x == q
        &&& u.m_params@.len() > 0 ==> q.len() < x.len() && x[q.len() as int] == 63 && x.subrange(q.len() as int + 1, x.len() as int) == url_params(u.m_params@) && x.subrange(0, q.len() as int) + x.subrange(x.len() as int, x.len() as int) == q
            && url_params(u.m_params@).len() > 0 }),
        url_params(Seq::<SPair>::empty()) == e0(),
{
    let q = uenc(u.m_path@); let pp = url_params(u.m_params@);
    reveal(url_path); lemma_params_ch(u.m_params@); lemma_user(u);
    assert forall|k: int| 0 <= k < x.len() implies !is_sp(#[trigger] x[k]) && (k < q.len() ==> x[k] != 63) by { if k < q.len() { assert(x[k] == q[k]); assert(enc_ch(q[k])); } else if k > q.len() { assert(x[k] == pp[k - q.len() - 1]); } }
    if u.m_params@.len() > 0 { assert(x.subrange(q.len() as int + 1, x.len() as int) =~= pp); assert(x.subrange(0, q.len() as int) + x.subrange(x.len() as int, x.len() as int) =~= q); } else { assert(x =~= q); }
    reveal(url_params);
}
pub proof fn lemma_par(m: Seq<SPair>, j: int) requires 0 <= j < m.len()
    ensures ({ let r = url_params(m); let st = poff(m, j); let a = uenc(m[j].first@); let b = uenc(m[j].second@); let en = st + a.len() + 1 + b.len();
        &&& 0 <= st && en <= r.len() && poff(m, j + 1) == en + 1
        &&& forall|k: int| st <= k < en ==> #[trigger] r[k] != 38 && (k < st + a.len() ==> r[k] != 61)
        &&& r[st + a.len()] == 61 && r.subrange(st, st + a.len()) == a && r.subrange(st + a.len() + 1, en) == b
        &&& j + 1 < m.len() ==> en < r.len() && r[en] == 38
        &&& j + 1 == m.len() ==> en == r.len()
        &&& dec_ok(a) && dec_ok(b) && udec(a) == m[j].first@ && udec(b) == m[j].second@ })
{
    let r = url_params(m); let st = poff(m, j); let a = uenc(m[j].first@); let b = uenc(m[j].second@); let en = st + a.len() + 1 + b.len(); let p = url_param(m[j]);
    lemma_pseg(m, j); property_url_charset(m[j].first@); property_url_charset(m[j].second@); property_url_decode_encode(m[j].first@); property_url_decode_encode(m[j].second@);
    reveal(url_param);
    assert forall|k: int| st <= k < en implies #[trigger] r[k] == p[k - st] by { assert(r.subrange(st, st + p.len())[k - st] == r[k]); }
    assert forall|k: int| st <= k < en implies #[trigger] r[k] != 38 && (k < st + a.len() ==> r[k] != 61) by { let i = k - st; if i < a.len() { assert(p[i] == a[i]); assert(enc_ch(a[i])); } else if i > a.len() { assert(p[i] == b[i - a.len() - 1]); assert(enc_ch(b[i - a.len() - 1])); } }
    assert(r[st + a.len()] == p[a.len() as int]);
    assert(r.subrange(st, st + a.len()) =~= a); assert(r.subrange(st + a.len() + 1, en) =~= b);
}
pub proof fn lemma_grow(o: Seq<SPair>, n: Seq<SPair>, m: Seq<SPair>, j: int)
    requires 0 <= j < m.len(), same_params(o, m.take(j)), n.len() == j + 1, n.drop_last() == o, n.last().first@ == m[j].first@, n.last().second@ == m[j].second@
    ensures same_params(n, m.take(j + 1)), j + 1 == m.len() ==> m.take(j + 1) == m
{
    assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).first@ == m.take(j + 1)[i].first@ && n[i].second@ == m.take(j + 1)[i].second@ by { if i < j { assert(n.drop_last()[i] == n[i]); assert(m.take(j)[i] == m[i]); } }
    if j + 1 == m.len() { assert(m.take(j + 1) =~= m); }
}
pub proof fn lemma_keys(o: Seq<SPair>, m: Seq<SPair>, j: int) requires 0 <= j < m.len(), same_params(o, m.take(j)), smap_keys_lt(m.take(j), m[j].first@) ensures smap_keys_lt(o, m[j].first@)
{ assert forall|i: int| 0 <= i < o.len() implies key_lt((#[trigger] o[i]).first@, m[j].first@) by { assert(m.take(j)[i].first@ == o[i].first@); } }

@fn vmime::utility::url::parse as url_parse
@mutthis
@throws
@isolate
@extraparam Ghost(gu): Ghost<Url>
@requires
    str.len() < 0x1000_0000_0000_0000,
@ensures
    url_ok(gu) && str@ == url_txt(gu) ==> res.is_ok() && url_same(*final(this), gu),
@hint start
    let ghost g = url_ok(gu) && str@ == url_txt(gu); let ghost pr = gu.m_protocol@; let ghost us = url_user(gu); let ghost hp = url_hostpart(gu);
    let ghost n1 = pr.len() + 3 + us.len(); let ghost n2 = n1 + hp.len();
    proof { if g { lemma_txt(str@, gu); lemma_user(gu); lemma_hostpart(gu); } lemma_set1(63u8); lemma_set1(38u8); lemma_set1(61u8); }
@hint after ~^let mut protoEnd~
    proof { if g { assert(protoEnd == pr.len()); } }
@hint after ~^let mut proto:~
    proof { if g { assert(proto@ =~= pr) by { assert forall|k: int| 0 <= k < pr.len() implies proto@[k] == pr[k] by { assert(proto_ch(pr[k])); } } } }
@hint before ~^let t\d+__ = str_rfind_ch~
    proof { if g { assert(slashPos == n2); } }
@hint after ~^let mut atPos~
    proof { if g { if us.len() > 0 { assert(atPos == n1 - 1); } else { assert(atPos == NPOS); } } }
@hint before ~let mut userPart~
    proof { if g { lemma_userpart(str@.subrange(pr.len() as int + 3, n1 - 1), gu); } }
@hint after ~^let mut port: Vec~
    proof { assert(port@ =~= e0()); if g { assert(username@ == uenc(gu.m_username@) && password@ == uenc(gu.m_password@) && hostPart@ == hp && slashPos == n2) by { if us.len() == 0 { assert(gu.m_username@ =~= e0()); assert(gu.m_password@ =~= e0()); assert(username@ =~= e0()); assert(password@ =~= e0()); } } } }
@hint after ~^let mut path: Vec~
    proof { if g && str.len() > n2 { lemma_path(url_path(gu), gu); } }
@hint after ~^let mut paramSep~
    proof { if g { let q = uenc(gu.m_path@); if str.len() > n2 { assert(path@ == url_path(gu)); if gu.m_params@.len() > 0 { assert(paramSep == q.len()); } else { assert(paramSep == NPOS); } } else { assert(path.len() == 0); assert(gu.m_path@ =~= e0()); assert(path@ =~= q); assert(gu.m_params@ =~= Seq::<SPair>::empty()); assert(url_params(gu.m_params@) == e0()) by { reveal(url_params); } assert(params@ =~= e0()); } } }
@hint before `if (proto.len() == 0usize) {`
    proof { if g { assert(path@ == uenc(gu.m_path@)); if gu.m_params@.len() == 0 { assert(gu.m_params@ =~= Seq::<SPair>::empty()); assert(url_params(gu.m_params@) == e0()) by { reveal(url_params); } assert(params@ =~= e0()); } assert(params@ == url_params(gu.m_params@)); assert((params.len() > 0) == (gu.m_params@.len() > 0)); } }
@loop 1 invariant
    0 <= it <= port.len(), all_digits(port@) ==> onlyDigit,
@loop 1 decreases
    port.len() - it
@hint loop 2 pre
    let ghost mut j: int = 0; let ghost m = gu.m_params@;
    proof { if g { assert(m.take(0) =~= Seq::<SPair>::empty()); } }
@loop 2 invariant
    g ==> url_ok(gu) && m == gu.m_params@, params.len() < 0x1000_0000_0000_0000, params.len() > 0,
    g ==> params@ == url_params(m),
@loop 2 xinvariant
    pos <= params.len(),
    g ==> 0 <= j < m.len() && pos == poff(m, j) && same_params(this.m_params@, m.take(j)),
@loop 2 ensures
    g ==> same_params(this.m_params@, m),
@loop 2 decreases
    params.len() + 1 - pos
@hint loop 2 begin
    let ghost old_params = this.m_params@;
    proof { lemma_set1(38u8); lemma_set1(61u8); if g { lemma_par(m, j); lemma_keys(old_params, m, j); } }
@hint after ~^let mut equal~
    proof {
        if g {
            let a = uenc(m[j].first@); let b = uenc(m[j].second@);
            assert(equal == start + a.len());
            if j + 1 < m.len() { assert(pos == equal + 1 + b.len()); } else { assert(pos == NPOS); }
        }
    }
@hint after ~smap_set~
    proof { if g {
        lemma_grow(old_params, this.m_params@, m, j);
        j = j + 1;
    } }
