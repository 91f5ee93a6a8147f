@unit bgen
@use strings streams
@include bodyspec.rs
@constants src/vmime/base.cpp
@struct vmime::body as Body
@struct vmime::bodyPart as BPart
@obj CTF
@obj HFL
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?contentTypeField> = stru:CTF
@type (const )?(vmime::)?contentTypeField = stru:CTF
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?headerField> = stru:HFL
@type (const )?(vmime::)?headerField = stru:HFL
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?(header)> = stru:Hd
@type (const )?(vmime::)?header = stru:Hd
@type (vmime::)?bodyPart \*( const)? = stru:Own
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?bodyPart> = stru:Part
@type (const )?(vmime::)?bodyPart = stru:Part
@type (const )?(vmime::)?mediaType = stru:Media
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?mediaType> = stru:Media
@type (const )?(vmime::)?encoding = stru:Enc
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?encoding> = stru:Enc
@type (const )?(vmime::)?text = stru:Txt
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?(contentHandler|emptyContentHandler|streamContentHandler)> = stru:CH
@type (const )?(vmime::)?(contentHandler|emptyContentHandler|streamContentHandler) = stru:CH
@type (const )?(std::|vmime::)?shared_ptr ?<(vmime::)?(utility::)?seekableInputStreamRegionAdapter> = stru:Reg
@type (const )?(vmime::)?(utility::)?seekableInputStreamRegionAdapter = stru:Reg
@type .*(parsingContext|generationContext).* = drop
@type .*\(lambda at .* = fn:i32:bool
@obj Own
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?body> = stru:BodyH
@type (const )?(vmime::)?body = stru:BodyH
@method vmime::bodyPart::getHeader = own_header stru:Hd ref
@method vmime::header::findField ~contentTypeField~ = find_ctf stru:CTF ref ref
@method vmime::contentTypeField::hasBoundary = ctf_has bool ref
@method vmime::contentTypeField::getBoundary = ctf_boundary str ref
@method vmime::component::generate = comp_gen void ref drop mut drop drop
@method vmime::body::getActualPrologText = body_prolog stru:Txt ref drop
@method vmime::body::getActualEpilogText = body_epilog stru:Txt ref drop
@method vmime::text::isEmpty = text_empty bool ref
@method vmime::text::encodeAndFold = text_fold void ref drop mut drop drop drop
@method vmime::contentHandler::clone = ch_clone stru:CH ref
@method vmime::contentHandler::setContentTypeHint = ch_hint void mut drop
@method vmime::contentHandler::generate = ch_gen void ref mut val drop
@method vmime::body::getContentType = body_type stru:Media ref
@method vmime::body::getEncoding = body_enc stru:Enc ref
@extern getTime = rnd_time u32
@extern getNext = rnd_next u32
@rust
#[verifier::external_body] pub struct Hd { x: u8 }
#[verifier::external_body] pub struct Enc { x: u8 }
#[verifier::external_body] pub struct Media { x: u8 }
#[verifier::external_body] pub struct Part { x: u8 }
#[verifier::external_body] pub struct BodyH { x: u8 }
#[verifier::external_body] pub struct Txt { x: u8 }
#[verifier::external_body] pub struct CH { x: u8 }
pub struct Own { pub set: bool, pub h: Hd }
pub struct CTF { pub set: bool, pub hasb: bool, pub b: Vec<u8> }
pub fn Own_isset(o: &Own) -> (r: bool) ensures r == o.set { o.set }
pub fn CTF_isset(f: &CTF) -> (r: bool) ensures r == f.set { f.set }
#[verifier::external_body] pub fn clone_CTF(m: &CTF) -> (r: CTF) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Txt(m: &Txt) -> (r: Txt) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_CH(m: &CH) -> (r: CH) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Part(m: &Part) -> (r: Part) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn own_header(o: &Own) -> (r: Hd) requires o.set ensures r == o.h { unimplemented!() }
pub uninterp spec fn sp_ctf(h: Hd, n: Seq<u8>) -> CTF;
#[verifier::external_body] pub fn find_ctf(h: &Hd, n: &Vec<u8>) -> (r: CTF) ensures r == sp_ctf(*h, n@) { unimplemented!() }
pub fn ctf_has(f: &CTF) -> (r: bool) requires f.set ensures r == f.hasb { f.hasb }
#[verifier::external_body] pub fn ctf_boundary(f: &CTF) -> (r: Vec<u8>) requires f.set, f.hasb ensures r@ == f.b@ { unimplemented!() }
// the text a part, a header, a body writes: any text (what is proved holds whatever it is)
pub trait Comp: Sized { spec fn out(self) -> Seq<u8>; }
pub uninterp spec fn part_text(p: Part) -> Seq<u8>;
pub uninterp spec fn head_text(p: Hd) -> Seq<u8>;
pub uninterp spec fn body_text(p: BodyH) -> Seq<u8>;
impl Comp for Part { open spec fn out(self) -> Seq<u8> { part_text(self) } }
impl Comp for Hd { open spec fn out(self) -> Seq<u8> { head_text(self) } }
impl Comp for BodyH { open spec fn out(self) -> Seq<u8> { body_text(self) } }
#[verifier::external_body] pub fn comp_gen<T: Comp>(p: &T, os: &mut OutStream) ensures final(os).data() == old(os).data() + p.out() { unimplemented!() }
pub uninterp spec fn sp_prolog(b: Body) -> Txt;
pub uninterp spec fn sp_epilog(b: Body) -> Txt;
pub uninterp spec fn txt_none(t: Txt) -> bool;
pub uninterp spec fn txt_out(t: Txt) -> Seq<u8>;
#[verifier::external_body] pub fn body_prolog(b: &Body) -> (r: Txt) ensures r == sp_prolog(*b) { unimplemented!() }
#[verifier::external_body] pub fn body_epilog(b: &Body) -> (r: Txt) ensures r == sp_epilog(*b) { unimplemented!() }
#[verifier::external_body] pub fn text_empty(t: &Txt) -> (r: bool) ensures r == txt_none(*t) { unimplemented!() }
#[verifier::external_body] pub fn text_fold(t: &Txt, os: &mut OutStream) ensures final(os).data() == old(os).data() + txt_out(*t) { unimplemented!() }
pub uninterp spec fn sp_enc(b: Body) -> Enc;
pub uninterp spec fn ch_out(c: CH, e: Enc) -> Seq<u8>;
pub uninterp spec fn ch_copy(c: CH) -> CH;
#[verifier::external_body] pub fn ch_clone(c: &CH) -> (r: CH) ensures r == ch_copy(*c) { unimplemented!() }
pub fn ch_hint(c: &mut CH) ensures *final(c) == *old(c) { }
#[verifier::external_body] pub fn ch_gen(c: &CH, os: &mut OutStream, e: Enc) ensures final(os).data() == old(os).data() + ch_out(*c, e) { unimplemented!() }
#[verifier::external_body] pub fn body_type(b: &Body) -> (r: Media) { unimplemented!() }
#[verifier::external_body] pub fn body_enc(b: &Body) -> (r: Enc) ensures r == sp_enc(*b) { unimplemented!() }
#[verifier::external_body] pub fn rnd_time() -> (r: u32) { unimplemented!() }
#[verifier::external_body] pub fn rnd_next() -> (r: u32) { unimplemented!() }
#[verifier::external_body] pub fn clone_Enc(m: &Enc) -> (r: Enc) ensures r == *m { unimplemented!() }
// ---- the text of a multipart body
pub open spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
pub open spec fn dd() -> Seq<u8> { seq![45u8, 45u8] }
#[verifier::opaque]
pub open spec fn rest(ts: Seq<Seq<u8>>, t: Seq<u8>, i: int, epi: Seq<u8>) -> Seq<u8> decreases ts.len() - i {
    if i >= ts.len() { dd() + crlf() + epi } else { crlf() + ts[i] + crlf() + dd() + t + rest(ts, t, i + 1, epi) }
}
pub open spec fn written(ts: Seq<Seq<u8>>, t: Seq<u8>, pro: Seq<u8>, epi: Seq<u8>) -> Seq<u8> { pro + dd() + t + rest(ts, t, 0, epi) }
pub open spec fn side(x: Txt) -> Seq<u8> { if txt_none(x) { Seq::empty() } else { txt_out(x) + crlf() } }
pub open spec fn texts(b: Body) -> Seq<Seq<u8>> { b.m_parts@.map(|i: int, p: Part| part_text(p)) }
// characters allowed in a boundary; none of them is white space, CR or LF
pub open spec fn bch(c: u8) -> bool { 48 <= c <= 57 || 97 <= c <= 122 || 65 <= c <= 90 || c == 39 || c == 40 || c == 41 || c == 43 || c == 95 || c == 44 || c == 45 || c == 46 || c == 47 || c == 58 || c == 61 || c == 63 }
pub open spec fn bnd_ok(t: Seq<u8>) -> bool { 1 <= t.len() < 70 && forall|k: int| 0 <= k < t.len() ==> bch(#[trigger] t[k]) }
pub open spec fn has_ct(b: Body) -> bool { b.m_part.set && sp_ctf(b.m_part.h, sCONST_vmime__fields__CONTENT_TYPE()).set && sp_ctf(b.m_part.h, sCONST_vmime__fields__CONTENT_TYPE()).hasb }
// the boundary: the one of Content-Type, else the one the body was parsed with, else a new legal one
pub open spec fn is_bnd(b: Body, t: Seq<u8>) -> bool {
    if has_ct(b) { t == sp_ctf(b.m_part.h, sCONST_vmime__fields__CONTENT_TYPE()).b@ } else if b.m_boundary@.len() > 0 { t == b.m_boundary@ } else { bnd_ok(t) && t.len() == 50 && t[0] == 61 && t[1] == 95 }
}
pub proof fn lemma_w0(d0: Seq<u8>, ts: Seq<Seq<u8>>, t: Seq<u8>, pro: Seq<u8>, epi: Seq<u8>)
    ensures (((d0 + pro) + dd()) + t) + rest(ts, t, 0, epi) == d0 + written(ts, t, pro, epi)
{ assert((((d0 + pro) + dd()) + t) + rest(ts, t, 0, epi) =~= d0 + written(ts, t, pro, epi)); }
pub proof fn lemma_w1(x: Seq<u8>, ts: Seq<Seq<u8>>, t: Seq<u8>, i: int, epi: Seq<u8>)
    requires 0 <= i < ts.len()
    ensures (((((x + crlf()) + ts[i]) + crlf()) + dd()) + t) + rest(ts, t, i + 1, epi) == x + rest(ts, t, i, epi)
{ reveal(rest); assert((((((x + crlf()) + ts[i]) + crlf()) + dd()) + t) + rest(ts, t, i + 1, epi) =~= x + rest(ts, t, i, epi)); }
pub proof fn lemma_w2(x: Seq<u8>, ts: Seq<Seq<u8>>, t: Seq<u8>, epi: Seq<u8>)
    ensures ((x + dd()) + crlf()) + epi == x + rest(ts, t, ts.len() as int, epi)
{ reveal(rest); assert(((x + dd()) + crlf()) + epi =~= x + rest(ts, t, ts.len() as int, epi)); }
pub proof fn lemma_cz(s: Seq<u8>, o: int, z: int)
    requires 0 <= o <= z < s.len(), s[z] == 0, forall|k: int| o <= k < z ==> #[trigger] s[k] != 0
    ensures cz_end(s, o) == z
    decreases z - o
{ if o < z { lemma_cz(s, o + 1, z); } }
@source src/vmime/body.cpp
@fn vmime::body::getPartCount as body_count
@ensures
    res == this.m_parts.len(),
@fn vmime::body::generateRandomBoundaryString as rnd_boundary
@ensures
    bnd_ok(res@), res.len() == 50, res@[0] == 61, res@[1] == 95,
@hint before ~let t\d+__: u8 = tget_bchars~
    assert(r & 63u32 <= 63u32) by (bit_vector);
@loop 1 invariant
    2 <= i <= 50, boundary.len() == 51, boundary@[50] == 0, boundary@[0] == 61, boundary@[1] == 95, 1 <= m <= 4, forall|k: int| 0 <= k < i ==> bch(#[trigger] boundary@[k]),
@loop 1 decreases
    50 - i
@hint before `return`
    proof { assert forall|k: int| 0 <= k < 50 implies #[trigger] boundary@[k] != 0 by { assert(bch(boundary@[k])); } lemma_cz(boundary@, 0, 50); }
@fn vmime::body::generateImpl as body_gen
@outptr newLinePos
@requires
    true,
@hint before ~let mut t15__ = text_empty~
    let ghost d0 = os.data(); let ghost t = boundary@; let ghost ts = texts(*this); let ghost pro = side(sp_prolog(*this)); let ghost epi = side(sp_epilog(*this));
@hint before ~let t17__ = lit_~
    assert(os.data() =~= d0 + pro);
@hint loop 1 init
    proof { lemma_w0(d0, ts, t, pro, epi); }
@hint loop 1 begin
    let ghost x = os.data();
@hint loop 1 end
    proof { lemma_w1(x, ts, t, p as int, epi); }
@hint before ~let t24__ = lit_~
    let ghost y = os.data();
@hint before ~^if true~
    proof { assert(os.data() =~= ((y + dd()) + crlf()) + epi); lemma_w2(y, ts, t, epi); assert(os.data() == d0 + written(ts, t, pro, epi)); }
@ensures
    this.m_parts.len() == 0 ==> final(os).data() == old(os).data() + ch_out(ch_copy(this.m_contents), sp_enc(*this)),
    this.m_parts.len() > 0 ==> exists|t: Seq<u8>| is_bnd(*this, t) && final(os).data() == old(os).data() + #[trigger] written(texts(*this), t, side(sp_prolog(*this)), side(sp_epilog(*this))),
@loop 1 invariant
    p <= this.m_parts.len(), is_bnd(*this, boundary@),
    os.data() + rest(texts(*this), boundary@, p as int, side(sp_epilog(*this))) == old(os).data() + written(texts(*this), boundary@, side(sp_prolog(*this)), side(sp_epilog(*this))),
@loop 1 decreases
    this.m_parts.len() - p
@rust
// ---- what was written is split again into the same parts
// no line of x starts with the delimiter
pub open spec fn dstart(t: Seq<u8>, x: Seq<u8>, i: int) -> bool {
    i + 2 + t.len() <= x.len() && x[i] == 45 && x[i + 1] == 45 && at(x, t, i + 2) && (i + 2 + t.len() == x.len() || c_space(x[i + 2 + t.len()] as int) || x[i + 2 + t.len()] == 45)
}
pub open spec fn clean(t: Seq<u8>, x: Seq<u8>) -> bool { forall|i: int| 0 <= i < x.len() && (i == 0 || x[i - 1] == 10) ==> !#[trigger] dstart(t, x, i) }
pub open spec fn noeol(t: Seq<u8>) -> bool { forall|k: int| 0 <= k < t.len() ==> #[trigger] t[k] != 10 && t[k] != 13 }
pub proof fn lemma_at_shift(d: Seq<u8>, x: Seq<u8>, t: Seq<u8>, o: int, i: int)
    requires 0 <= o, o + x.len() <= d.len(), d.subrange(o, o + x.len()) == x, 0 <= i, i + t.len() <= x.len(), at(d, t, o + i) ensures at(x, t, i)
{ assert(x.subrange(i, i + t.len()) =~= d.subrange(o + i, o + i + t.len())) by { assert forall|k: int| 0 <= k < t.len() implies x[i + k] == #[trigger] d[o + i + k] by { assert(d.subrange(o, o + x.len())[i + k] == d[o + i + k]); } } }
pub proof fn lemma_seg(d: Seq<u8>, t: Seq<u8>, x: Seq<u8>, o: int, e: int)
    requires 1 <= o, o + x.len() + 2 <= e <= d.len(), d.subrange(o, o + x.len()) == x, d[o - 1] == 10, d[o + x.len()] == 13, d[o + x.len() + 1] == 10, clean(t, x), noeol(t), t.len() >= 1
    ensures nodelim(d, t, o, o + x.len() + 4, e)
{
    assert forall|k: int| o <= k < o + x.len() + 4 implies !delim(d, t, k, e) by {
        if delim(d, t, k, e) {
            let n = o + x.len(); let i = k - 2 - o;
            assert(k >= o + 2 && k - 2 < n && k - 1 < n);
            if k + t.len() > n { assert(d.subrange(k, k + t.len())[n - k] == d[n]); assert(t[n - k] == 13); }
            assert(x[i] == d.subrange(o, n)[i] && x[i + 1] == d.subrange(o, n)[i + 1]);
            if i > 0 { assert(x[i - 1] == d.subrange(o, n)[i - 1]); }
            lemma_at_shift(d, x, t, o, i + 2);
            if k + t.len() < n { assert(x[i + 2 + t.len()] == d.subrange(o, n)[i + 2 + t.len()]); }
            assert(dstart(t, x, i));
        }
    }
}
pub open spec fn same(d: Seq<u8>, ps: Seq<(int, int)>, ts: Seq<Seq<u8>>, i: int) -> bool {
    ps.len() == ts.len() - i && forall|k: int| 0 <= k < ps.len() ==> 0 <= (#[trigger] ps[k]).0 <= ps[k].1 <= d.len() && d.subrange(ps[k].0, ps[k].1) == ts[i + k]
}
pub proof fn lemma_slice(d: Seq<u8>, q: int, e: int, i: int, j: int, x: Seq<u8>)
    requires 0 <= q <= e <= d.len(), 0 <= i <= j <= e - q, d.subrange(q, e).subrange(i, j) == x ensures d.subrange(q + i, q + j) == x
{ assert(d.subrange(q, e).subrange(i, j) =~= d.subrange(q + i, q + j)); }
// the line of a delimiter
pub proof fn lemma_line(d: Seq<u8>, t: Seq<u8>, ts: Seq<Seq<u8>>, i: int, epi: Seq<u8>, q: int, e: int)
    requires 0 <= i <= ts.len(), 1 <= t.len() <= q <= e <= d.len(), d.subrange(q, e) == rest(ts, t, i, epi)
    ensures
        i < ts.len() ==> dline(d, t, q - t.len(), e) == (Line { end: q + 2, closing: false, junk: false }) && d[q] == 13 && d[q + 1] == 10 && q + 2 < e,
        i == ts.len() ==> dline(d, t, q - t.len(), e) == (Line { end: q + 4, closing: true, junk: false }) && d[q] == 45 && q + 4 + epi.len() == e && d.subrange(q + 4, e) == epi,
{
    reveal(rest);
    let r = rest(ts, t, i, epi);
    assert(r.len() == e - q);
    assert forall|k: int| 0 <= k < r.len() implies #[trigger] d[q + k] == r[k] by { assert(d.subrange(q, e)[k] == d[q + k]); }
    if i < ts.len() { assert(r[0] == 13 && r[1] == 10); assert(d[q + 0] == 13 && d[q + 1] == 10); lemma_run(0, d, q, q, e); }
    else { assert(r[0] == 45 && r[1] == 45 && r[2] == 13 && r[3] == 10); assert(d[q + 0] == 45 && d[q + 1] == 45 && d[q + 2] == 13 && d[q + 3] == 10); lemma_run(0, d, q + 2, q + 2, e); assert(r.subrange(4, e - q) =~= epi); lemma_slice(d, q, e, 4, e - q, epi); }
}
pub proof fn lemma_unfold(d: Seq<u8>, t: Seq<u8>, ts: Seq<Seq<u8>>, i: int, epi: Seq<u8>, q: int, e: int)
    requires 0 <= i < ts.len(), 1 <= t.len() <= q <= e <= d.len(), d.subrange(q, e) == rest(ts, t, i, epi)
    ensures ({ let z = q + 2 + ts[i].len(); z + 4 + t.len() < e && d.subrange(q + 2, z) == ts[i] && d[q] == 13 && d[q + 1] == 10 && d[z] == 13 && d[z + 1] == 10 && d[z + 2] == 45 && d[z + 3] == 45 && at(d, t, z + 4)
        && (d[z + 4 + t.len()] == 13 || d[z + 4 + t.len()] == 45) && d.subrange(z + 4 + t.len(), e) == rest(ts, t, i + 1, epi) })
{
    reveal(rest); let xl = ts[i].len() as int; let tl = t.len() as int;
    let r = rest(ts, t, i, epi); let r1 = rest(ts, t, i + 1, epi); let x = ts[i]; let z = q + 2 + xl;
    assert(r =~= crlf() + x + crlf() + dd() + t + r1);
    assert(r.len() == e - q);
    assert forall|k: int| 0 <= k < r.len() implies #[trigger] d[q + k] == r[k] by { assert(d.subrange(q, e)[k] == d[q + k]); }
    assert(r[0] == 13 && r[1] == 10 && r[2 + xl] == 13 && r[3 + xl] == 10 && r[4 + xl] == 45 && r[5 + xl] == 45);
    assert(d[q + 0] == 13 && d[q + 1] == 10 && d[q + (2 + xl)] == 13 && d[q + (3 + xl)] == 10 && d[q + (4 + xl)] == 45 && d[q + (5 + xl)] == 45);
    assert(r.subrange(2, 2 + xl) =~= x); lemma_slice(d, q, e, 2, 2 + xl, x);
    assert(r.subrange(6 + xl, 6 + xl + tl) =~= t); lemma_slice(d, q, e, 6 + xl, 6 + xl + tl, t);
    assert(r.subrange(6 + xl + tl, e - q) =~= r1); lemma_slice(d, q, e, 6 + xl + tl, e - q, r1);
    assert(r1.len() >= 4);
    assert(r1[0] == 13 || r1[0] == 45);
    assert(d[q + (6 + xl + tl)] == r[6 + xl + tl]);
}
#[verifier::spinoff_prover]
pub proof fn lemma_parts(d: Seq<u8>, t: Seq<u8>, ts: Seq<Seq<u8>>, i: int, epi: Seq<u8>, q: int, e: int)
    requires 0 <= i < ts.len(), 1 <= t.len() <= 2048, t.len() <= q <= e <= d.len(), d.subrange(q, e) == rest(ts, t, i, epi), noeol(t), forall|k: int| i <= k < ts.len() ==> clean(t, #[trigger] ts[k])
    ensures ({ let s = split(d, t, q + 2, q + 2, false, e); same(d, s.parts, ts, i) && s.closed && 0 <= s.tail <= e && d.subrange(s.tail, e) == epi })
    decreases ts.len() - i
{
    lemma_unfold(d, t, ts, i, epi, q, e);
    let x = ts[i]; let z = q + 2 + x.len();
    lemma_seg(d, t, x, q + 2, e);
    assert(delim(d, t, z + 4, e));
    lemma_split(d, t, q + 2, q + 2, false, e, z + 4);
    lemma_line(d, t, ts, i + 1, epi, z + 4 + t.len(), e);
    assert(before(d, z + 4) == z);
    let s = split(d, t, q + 2, q + 2, false, e);
    if i + 1 < ts.len() {
        lemma_parts(d, t, ts, i + 1, epi, z + 4 + t.len(), e);
        let r = split(d, t, z + 6 + t.len(), z + 6 + t.len(), false, e);
        assert(s.parts == seq![(q + 2, z)] + r.parts);
        assert forall|k: int| 0 <= k < s.parts.len() implies 0 <= (#[trigger] s.parts[k]).0 <= s.parts[k].1 <= d.len() && d.subrange(s.parts[k].0, s.parts[k].1) == ts[i + k] by { if k > 0 { assert(s.parts[k] == r.parts[k - 1]); assert(ts[i + 1 + (k - 1)] == ts[i + k]); } }
    } else {
        assert(s.parts =~= seq![(q + 2, z)]);
    }
}
// a multipart body written after an empty line (or any line end) with a boundary without CR and LF, whose parts and prologue have no line that starts with the delimiter,
// is split into exactly its parts; prologue and epilogue are found again
#[verifier::spinoff_prover]
pub proof fn property_roundtrip(d: Seq<u8>, a: int, e: int, ts: Seq<Seq<u8>>, t: Seq<u8>, pt: Seq<u8>, hp: bool, epi: Seq<u8>)
    requires
        1 <= a <= e <= d.len(), d[a - 1] == 10, ts.len() >= 1, 1 <= t.len() <= 2048, noeol(t), forall|k: int| 0 <= k < ts.len() ==> clean(t, #[trigger] ts[k]), clean(t, pt),
        d.subrange(a, e) == written(ts, t, if hp { pt + crlf() } else { Seq::empty() }, epi),
    ensures ({ let s = whole(d, t, a, e); same(d, s.parts, ts, 0) && s.closed && d.subrange(s.tail, e) == epi && (if hp { s.prolog == (a, a + pt.len()) && d.subrange(a, a + pt.len()) == pt } else { s.prolog.0 >= s.prolog.1 }) })
{
    let pl = pt.len() as int; let tl = t.len() as int;
    let pro = if hp { pt + crlf() } else { Seq::empty() }; let r1 = rest(ts, t, 0, epi); let w = written(ts, t, pro, epi);
    let n = pro.len() as int; let p = a + n + 2;
    assert(w.len() == e - a);
    assert forall|k: int| 0 <= k < w.len() implies #[trigger] d[a + k] == w[k] by { assert(d.subrange(a, e)[k] == d[a + k]); }
    assert(w =~= pro + dd() + t + r1);
    assert(w[n] == 45 && w[n + 1] == 45); assert(d[a + n] == 45 && d[a + (n + 1)] == 45);
    assert(w.subrange(n + 2, n + 2 + tl) =~= t); lemma_slice(d, a, e, n + 2, n + 2 + tl, t);
    assert(w.subrange(n + 2 + tl, e - a) =~= r1); lemma_slice(d, a, e, n + 2 + tl, e - a, r1);
    if hp {
        assert(w[pl as int] == 13 && w[pl + 1] == 10); assert(d[a + pl] == 13 && d[a + (pl + 1)] == 10);
        assert(w.subrange(0, pl) =~= pt); lemma_slice(d, a, e, 0, pl, pt);
        lemma_seg(d, t, pt, a, e);
    }
    lemma_line(d, t, ts, 0, epi, p + tl, e);
    assert(nodelim(d, t, a, p, e)) by { assert forall|k: int| a <= k < p implies !delim(d, t, k, e) by { if !hp { assert(k == a || k == a + 1); assert(d[a - 1] == 10); } } }
    assert(delim(d, t, p, e));
    lemma_split(d, t, a, a, true, e, p);
    lemma_parts(d, t, ts, 0, epi, p + tl, e);
}
@fn vmime::body::isValidBoundary as valid_bnd
@ensures
    res == bnd_ok(boundary@),
@loop 1 invariant
    i <= end, end == boundary.len(), 1 <= end < 70, valid == (forall|k: int| 0 <= k < i ==> bch(#[trigger] boundary@[k])), !valid ==> !bnd_ok(boundary@),
@loop 1 decreases
    end - i
@hint after ~let t\d+__ = str_find_first_of~
    proof { lemma_chars(validChars@); let c = boundary@[i as int]; assert(t1__@[0] == c); if bch(c) { let j = chpos(c); assert(validChars@[j] == c); assert(in_set(validChars@[j], t1__@)); } else if t2__ != usize::MAX { let j = t2__ as int; assert(in_set(validChars@[j], t1__@)); assert(bch(validChars@[j])); } }
@rust
pub open spec fn chpos(c: u8) -> int {
    if 48 <= c <= 57 { c - 48 } else if 97 <= c <= 122 { c - 87 } else if 65 <= c <= 90 { c - 29 } else if c == 39 { 62 } else if c == 40 { 63 } else if c == 41 { 64 } else if c == 43 { 65 } else if c == 95 { 66 } else if c == 44 { 67 } else if c == 45 { 68 } else if c == 46 { 69 } else if c == 47 { 70 } else if c == 58 { 71 } else if c == 61 { 72 } else { 73 }
}
// the list of characters in the code is the one of RFC 2046 (without the space)
#[verifier::spinoff_prover]
pub proof fn lemma_chars(s: Seq<u8>)
    requires s == seq![48u8, 49u8, 50u8, 51u8, 52u8, 53u8, 54u8, 55u8, 56u8, 57u8, 97u8, 98u8, 99u8, 100u8, 101u8, 102u8, 103u8, 104u8, 105u8, 106u8, 107u8, 108u8, 109u8, 110u8, 111u8, 112u8, 113u8, 114u8, 115u8, 116u8, 117u8, 118u8, 119u8, 120u8, 121u8, 122u8, 65u8, 66u8, 67u8, 68u8, 69u8, 70u8, 71u8, 72u8, 73u8, 74u8, 75u8, 76u8, 77u8, 78u8, 79u8, 80u8, 81u8, 82u8, 83u8, 84u8, 85u8, 86u8, 87u8, 88u8, 89u8, 90u8, 39u8, 40u8, 41u8, 43u8, 95u8, 44u8, 45u8, 46u8, 47u8, 58u8, 61u8, 63u8]
    ensures s.len() == 74, forall|j: int| 0 <= j < 74 ==> bch(#[trigger] s[j]), forall|c: u8| bch(c) ==> 0 <= #[trigger] chpos(c) < 74 && s[chpos(c)] == c
{ }
@source src/vmime/bodyPart.cpp
@fn vmime::bodyPart::generateImpl as bpart_gen
@outptr newLinePos
@ensures
    final(os).data() == old(os).data() + head_text(this.m_header) + crlf() + body_text(this.m_body),
