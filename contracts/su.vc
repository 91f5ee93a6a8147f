@unit su
@use strings
@source src/vmime/utility/stringUtils.cpp
@rust
pub open spec fn sp(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
pub open spec fn eq_nocase(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < a.len() ==> lower_c(#[trigger] a[k]) == lower_c(b[k]) }
// t is s without the white space at both ends
pub open spec fn trim_of(s: Seq<u8>, t: Seq<u8>) -> bool {
    exists|b: int, e: int| 0 <= b <= e <= s.len() && #[trigger] s.subrange(b, e) == t && (forall|k: int| 0 <= k < b ==> sp(#[trigger] s[k])) && (forall|k: int| e <= k < s.len() ==> sp(#[trigger] s[k]))
        && (b < e ==> !sp(s[b]) && !sp(s[e - 1]))
}
pub open spec fn ascii_counted(s: Seq<u8>, i: int, e: int) -> bool { s[i] < 128 && (s[i] != 61 || (i + 1 != e && s[i + 1] != 63)) }
pub open spec fn ascii_count(s: Seq<u8>, b: int, i: int, e: int) -> int decreases i - b { if i <= b { 0 } else { ascii_count(s, b, i - 1, e) + (if ascii_counted(s, i - 1, e) { 1int } else { 0int }) } }
// quoting: each special character is preceded by the escape text
pub open spec fn qt(s: Seq<u8>, w: Seq<u8>, x: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { qt(s.drop_last(), w, x) + (if in_set(s.last(), w) { x } else { Seq::empty() }) + seq![s.last()] } }
pub proof fn lemma_qt_run(s: Seq<u8>, w: Seq<u8>, x: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|k: int| a <= k < b ==> !in_set(#[trigger] s[k], w)
    ensures qt(s.take(b), w, x) == qt(s.take(a), w, x) + s.subrange(a, b)
    decreases b - a
{
    if a == b { assert(s.subrange(a, b) =~= Seq::<u8>::empty()); assert(qt(s.take(a), w, x) + Seq::<u8>::empty() =~= qt(s.take(a), w, x)); }
    else {
        lemma_qt_run(s, w, x, a, b - 1);
        assert(s.take(b).drop_last() =~= s.take(b - 1));
        assert(s.take(b).last() == s[b - 1]);
        assert(qt(s.take(b), w, x) =~= qt(s.take(a), w, x) + s.subrange(a, b));
    }
}
pub proof fn lemma_qt_one(s: Seq<u8>, w: Seq<u8>, x: Seq<u8>, a: int)
    requires 0 <= a < s.len(), in_set(s[a], w)
    ensures qt(s.take(a + 1), w, x) == qt(s.take(a), w, x) + x + seq![s[a]]
{
    assert(s.take(a + 1).drop_last() =~= s.take(a));
    assert(s.take(a + 1).last() == s[a]);
}
// unquoting: the text between the quotes, (result, escape pending)
pub open spec fn uq(s: Seq<u8>) -> (Seq<u8>, bool) decreases s.len() {
    if s.len() == 0 { (Seq::empty(), false) } else { let p = uq(s.drop_last()); if p.1 { (p.0.push(s.last()), false) } else if s.last() == 92 { (p.0, true) } else { (p.0.push(s.last()), false) } }
}
pub open spec fn unq(s: Seq<u8>) -> Seq<u8> { if s.len() < 2 || s[0] != 34 || s[s.len() - 1] != 34 { s } else { uq(s.subrange(1, s.len() - 1)).0 } }
pub proof fn lemma_uq_push(s: Seq<u8>, c: u8) ensures ({ let p = uq(s); uq(s.push(c)) == (if p.1 { (p.0.push(c), false) } else if c == 92 { (p.0, true) } else { (p.0.push(c), false) }) })
{ assert(s.push(c).drop_last() =~= s); }
// host names: labels of letters, digits and dashes, neither empty nor with a dash at an end, separated by single dots
pub open spec fn eqr(b: Seq<u8>, o: int, s: Seq<u8>, p: int, m: int) -> bool decreases m { m <= 0 || (eqr(b, o, s, p, m - 1) && s[p + m - 1] != 0 && lower_c(b[o + m - 1]) == s[p + m - 1]) }
pub proof fn lemma_eqr(b: Seq<u8>, o: int, s: Seq<u8>, p: int, m: int, n: int) requires 0 <= m <= n ensures !eqr(b, o, s, p, m) ==> !eqr(b, o, s, p, n) decreases n - m { if m < n { lemma_eqr(b, o, s, p, m, n - 1); } }
pub open spec fn alnum(c: u8) -> bool { (48 <= c && c <= 57) || (65 <= c && c <= 90) || (97 <= c && c <= 122) }
pub open spec fn hch(c: u8) -> bool { alnum(c) || c == 45 || c == 46 }
pub open spec fn host_step(s: Seq<u8>, i: int) -> bool { alnum(s[i]) || (i > 0 && s[i] == 45 && s[i - 1] != 46) || (i > 0 && s[i] == 46 && alnum(s[i - 1])) }
pub open spec fn host_prefix(s: Seq<u8>, n: int) -> bool decreases n { n <= 0 || (host_prefix(s, n - 1) && host_step(s, n - 1)) }
pub proof fn lemma_hp(s: Seq<u8>, m: int, n: int) requires 0 <= m <= n ensures !host_prefix(s, m) ==> !host_prefix(s, n) decreases n - m { if m < n { lemma_hp(s, m, n - 1); } }
pub open spec fn host_ok(s: Seq<u8>) -> bool { s.len() > 0 && host_prefix(s, s.len() as int) && alnum(s.last()) }
pub open spec fn dots(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dots(s.drop_last()) + (if s.last() == 46 { 1int } else { 0int }) } }
pub proof fn lemma_dots(s: Seq<u8>, i: int) requires 0 <= i < s.len() ensures dots(s.take(i + 1)) == dots(s.take(i)) + (if s[i] == 46 { 1int } else { 0int })
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }

@fn vmime::utility::stringUtils::isStringEqualNoCase ~(const string &, const char *, const size_t)~ as su_eq_n
@requires
    s2_o + n <= s2.len(),
@ensures
    res == (s1.len() >= n && forall|k: int| 0 <= k < n ==> lower_c(#[trigger] s1@[k]) == s2@[s2_o + k]),
@loop 1 invariant
    i <= n, n <= s1.len(), s2_o + n <= s2.len(), equal == forall|k: int| 0 <= k < i ==> lower_c(#[trigger] s1@[k]) == s2@[s2_o + k],
@loop 1 decreases
    n - i

@fn vmime::utility::stringUtils::isStringEqualNoCase ~(const string &, const string &)~ as su_eq
@ensures
    res == eq_nocase(s1@, s2@),
@loop 1 invariant
    i == j, i <= s1.len(), end == s1.len(), s1.len() == s2.len(), equal == forall|k: int| 0 <= k < i ==> lower_c(#[trigger] s1@[k]) == lower_c(s2@[k]),
@loop 1 decreases
    s1.len() - i

@fn vmime::utility::stringUtils::isStringEqualNoCase ~const_iterator, const string::const_iterator, const char *, const size_t~ as su_eq_range
@extraparam buf: &Vec<u8>
@iterbase begin = buf
@iterbase end = buf
@requires
    begin <= end, end <= buf.len(), s_o + n <= s.len(), buf.len() < 0x7fff_ffff_ffff_ffff, forall|k: int| 0 <= k < n ==> #[trigger] s@[s_o + k] < 128,
@ensures
    res == (end - begin >= n && eqr(buf@, begin as int, s@, s_o as int, n as int)),
@loop 1 invariant
    r <= n, i == begin + (n - r), c == s_o + (n - r), end - begin >= n, end <= buf.len(), s_o + n <= s.len(),
    equal == eqr(buf@, begin as int, s@, s_o as int, n - r),
@hint loop 1 begin
    assert(s@[s_o + (n - r)] == s@[c as int]);
@hint loop 1 post
    proof { lemma_eqr(buf@, begin as int, s@, s_o as int, n - r, n as int); if r > 0 { lemma_eqr(buf@, begin as int, s@, s_o as int, n - r + 1, n as int); } }
@loop 1 decreases
    r

@fn vmime::utility::stringUtils::toLower as su_lower
@ensures
    res.len() == str.len(), forall|k: int| 0 <= k < str.len() ==> #[trigger] res@[k] == lower_c(str@[k]),
@loop 1 invariant
    i <= len, len == str.len(), out.len() == len, forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == lower_c(str@[k]),
@loop 1 decreases
    len - i

@fn vmime::utility::stringUtils::toUpper as su_upper
@ensures
    res.len() == str.len(), forall|k: int| 0 <= k < str.len() ==> #[trigger] res@[k] == upper_c(str@[k]),
@loop 1 invariant
    i <= len, len == str.len(), out.len() == len, forall|k: int| 0 <= k < i ==> #[trigger] out@[k] == upper_c(str@[k]),
@loop 1 decreases
    len - i

@fn vmime::utility::stringUtils::trim as su_trim
@ensures
    trim_of(str@, res@),
@loop 1 invariant
    0 <= b <= e, e == str.len(), forall|k: int| 0 <= k < b ==> sp(#[trigger] str@[k]),
@loop 1 ensures
    b < e ==> !sp(str@[b as int]),
@loop 1 decreases
    str.len() - b
@loop 2 invariant
    0 <= b <= e, e <= str.len(), forall|k: int| e <= k < str.len() ==> sp(#[trigger] str@[k]), b < e ==> !sp(str@[b as int]),
@loop 2 ensures
    b < e ==> !sp(str@[e - 1]),
@loop 2 decreases
    e - b

@fn vmime::utility::stringUtils::countASCIIchars as su_count
@extraparam buf: &Vec<u8>
@extraarg {base:begin}
@iterbase begin = buf
@iterbase end = buf
@requires
    begin <= end, end <= buf.len(),
@ensures
    res as int == ascii_count(buf@, begin as int, end as int, end as int),
@loop 1 invariant
    begin <= i <= end, end <= buf.len(), count as int == ascii_count(buf@, begin as int, i as int, end as int), count <= i - begin,
@loop 1 decreases
    end - i

@fn vmime::utility::stringUtils::is7bit as su_is7bit
@requires
    str.len() < 0x7fff_ffff_ffff_ffff,
@ensures
    res == forall|k: int| 0 <= k < str.len() ==> #[trigger] str@[k] < 128,

@fn vmime::utility::stringUtils::findFirstNonASCIIchar as su_findna
@extraparam buf: &Vec<u8>
@extraarg {base:begin}
@iterbase begin = buf
@iterbase end = buf
@requires
    begin <= end, end <= buf.len(), buf.len() < 0x7fff_ffff_ffff_ffff,
@ensures
    res == NPOS ==> forall|k: int| begin <= k < end ==> #[trigger] buf@[k] < 128,
    res != NPOS ==> begin + res < end && buf@[begin + res] >= 128 && forall|k: int| begin <= k < begin + res ==> #[trigger] buf@[k] < 128,
@loop 1 invariant
    begin <= i <= end, end <= buf.len(), buf.len() < 0x7fff_ffff_ffff_ffff, forall|k: int| begin <= k < i ==> #[trigger] buf@[k] < 128,
@loop 1 ensures
    pos == NPOS ==> forall|k: int| begin <= k < end ==> #[trigger] buf@[k] < 128,
    pos != NPOS ==> begin + pos < end && buf@[begin + pos] >= 128 && forall|k: int| begin <= k < begin + pos ==> #[trigger] buf@[k] < 128,
@loop 1 xinvariant
    pos == NPOS,
@loop 1 decreases
    end - i

@fn vmime::utility::stringUtils::unquote as su_unquote
@ensures
    res@ == unq(str@),
@hint start
    proof { if str@.len() >= 2 { assert(str@.subrange(1, str@.len() - 1).take(0) =~= Seq::<u8>::empty()); assert(str@.subrange(1, str@.len() - 1).take(str@.len() - 2) =~= str@.subrange(1, str@.len() - 1)); } }
@loop 1 invariant
    1 <= it <= end, end == str.len() - 1, uq(str@.subrange(1, str.len() - 1).take(it - 1)) == (res_@, escaped),
@loop 1 decreases
    end - it
@hint loop 1 begin
    proof { let inner = str@.subrange(1, str.len() - 1); let j = it as int; lemma_uq_push(inner.take(j - 1), str@[j]); assert(inner.take(j - 1).push(str@[j]) =~= inner.take(j)); }

@fn vmime::utility::stringUtils::needQuoting as su_needq
@ensures
    (forall|k: int| 0 <= k < specialChars.len() ==> #[trigger] specialChars@[k] != 0) ==> res == exists|k: int| 0 <= k < str.len() && in_set(#[trigger] str@[k], specialChars@),
@hint start
    proof { if forall|k: int| 0 <= k < specialChars.len() ==> #[trigger] specialChars@[k] != 0 { lemma_cz_full(specialChars@, 0); assert(specialChars@.subrange(0, specialChars.len() as int) =~= specialChars@); } }

@fn vmime::utility::stringUtils::quote as su_quote
@ensures
    res@ == qt(str@, escapeSpecialChars@, escapeChar@),
@hint start
    proof { assert(str@.take(0) =~= Seq::<u8>::empty()); assert(str@.take(str.len() as int) =~= str@); }
@loop 1 invariant
    lastPos <= str.len(), oss@ == qt(str@.take(lastPos as int), escapeSpecialChars@, escapeChar@),
@loop 1 ensures
    forall|k: int| lastPos <= k < str.len() ==> !in_set(#[trigger] str@[k], escapeSpecialChars@),
@loop 1 decreases
    str.len() - lastPos
@hint loop 1 begin
    let ghost l0 = lastPos as int; let ghost o0 = oss@;
@hint loop 1 end
    proof {
        let (w, x) = (escapeSpecialChars@, escapeChar@);
        lemma_qt_run(str@, w, x, l0, pos as int); lemma_qt_one(str@, w, x, pos as int);
        assert(oss@ =~= o0 + str@.subrange(l0, pos as int) + x + seq![str@[pos as int]]);
        assert(o0 + str@.subrange(l0, pos as int) + x + seq![str@[pos as int]] =~= (o0 + str@.subrange(l0, pos as int)) + x + seq![str@[pos as int]]);
    }
@hint end
    proof { lemma_qt_run(str@, escapeSpecialChars@, escapeChar@, lastPos as int, str.len() as int); }

@fn vmime::utility::stringUtils::isValidHostname as su_hostname
@requires
    hostname.len() < 32767,
@ensures
    res == host_ok(hostname@),

@fn vmime::utility::stringUtils::isValidFQDN as su_fqdn
@requires
    fqdn.len() < 32767,
@ensures
    res == (host_ok(fqdn@) && dots(fqdn@) >= 2),

@fn vmime::utility::stringUtils::isValidFQDNImpl as su_fqdnimpl
@outptr numberOfDots
@requires
    fqdn.len() < 32767,
@ensures
    res == host_ok(fqdn@), res ==> *final(numberOfDots) as int == dots(fqdn@),
@hint start
    proof { assert(fqdn@.take(0) =~= Seq::<u8>::empty()); assert(fqdn@.take(fqdn.len() as int) =~= fqdn@); }
@loop 1 invariant
    i <= n, n == fqdn.len(), n < 32767, 0 <= *numberOfDots <= i,
    (alphanumOnly && !invalid) == host_prefix(fqdn@, i as int),
    alphanumOnly && !invalid ==> *numberOfDots as int == dots(fqdn@.take(i as int)) && previousIsDot == (i == 0 || fqdn@[i - 1] == 46) && previousIsDash == (i == 0 || fqdn@[i - 1] == 45),
@loop 1 decreases
    n - i
@hint loop 1 begin
    proof { lemma_dots(fqdn@, i as int); }
@hint loop 1 post
    proof { lemma_hp(fqdn@, i as int, fqdn.len() as int); }

@rustpost
// ---- properties
pub open spec fn sq_special() -> Seq<u8> { seq![92u8, 34u8] }
pub proof fn lemma_unquote_quote(s: Seq<u8>)
    ensures uq(qt(s, sq_special(), seq![92u8])) == (s, false)
    decreases s.len()
{
    let w = sq_special();
    if s.len() > 0 {
        let p = s.drop_last(); let c = s.last();
        lemma_unquote_quote(p);
        let a = qt(p, w, seq![92u8]);
        assert(in_set(c, w) == (c == 92 || c == 34)) by { if c == 92 { assert(w[0] == c); } if c == 34 { assert(w[1] == c); } }
        assert(p.push(c) =~= s);
        if in_set(c, w) {
            lemma_uq_push(a, 92u8); lemma_uq_push(a.push(92u8), c);
            assert(qt(s, w, seq![92u8]) =~= a.push(92u8).push(c));
        } else {
            lemma_uq_push(a, c);
            assert(qt(s, w, seq![92u8]) =~= a.push(c));
        }
    }
}
// text quoted the way vmime quotes words comes back from unquote()
pub proof fn property_unquote_quote(s: Seq<u8>)
    ensures unq(seq![34u8] + qt(s, sq_special(), seq![92u8]) + seq![34u8]) == s
{
    let q = qt(s, sq_special(), seq![92u8]); let t = seq![34u8] + q + seq![34u8];
    assert(t.subrange(1, t.len() - 1) =~= q);
    lemma_unquote_quote(s);
}
// case-insensitive equality is the equality of the lower-case texts
pub proof fn property_nocase(a: Seq<u8>, b: Seq<u8>, la: Seq<u8>, lb: Seq<u8>)
    requires la.len() == a.len(), lb.len() == b.len(), forall|k: int| 0 <= k < a.len() ==> #[trigger] la[k] == lower_c(a[k]), forall|k: int| 0 <= k < b.len() ==> #[trigger] lb[k] == lower_c(b[k])
    ensures eq_nocase(a, b) == (la == lb)
{
    if eq_nocase(a, b) { assert(la =~= lb) by { assert forall|k: int| 0 <= k < la.len() implies la[k] == lb[k] by { assert(lower_c(a[k]) == lower_c(b[k])); } } }
    if la == lb { assert forall|k: int| 0 <= k < a.len() implies lower_c(#[trigger] a[k]) == lower_c(b[k]) by { assert(la[k] == lb[k]); } }
}
// trimming is unique and idempotent
pub proof fn property_trim_idem(s: Seq<u8>, t: Seq<u8>, u: Seq<u8>)
    requires trim_of(s, t), trim_of(t, u)
    ensures u == t
{
    let (b, e) = choose|b: int, e: int| 0 <= b <= e <= s.len() && #[trigger] s.subrange(b, e) == t && (forall|k: int| 0 <= k < b ==> sp(#[trigger] s[k])) && (forall|k: int| e <= k < s.len() ==> sp(#[trigger] s[k])) && (b < e ==> !sp(s[b]) && !sp(s[e - 1]));
    let (b2, e2) = choose|b: int, e: int| 0 <= b <= e <= t.len() && #[trigger] t.subrange(b, e) == u && (forall|k: int| 0 <= k < b ==> sp(#[trigger] t[k])) && (forall|k: int| e <= k < t.len() ==> sp(#[trigger] t[k])) && (b < e ==> !sp(t[b]) && !sp(t[e - 1]));
    if b < e { assert(t[0] == s[b]); assert(t[t.len() - 1] == s[e - 1]); assert(b2 == 0); assert(e2 == t.len()); }
    assert(u =~= t);
}
