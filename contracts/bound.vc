@unit bound
@use strings streams
@include bodyspec.rs
@struct vmime::utility::parserInputStreamAdapter as PIA
@struct vmime::body as Body
@obj CTF
@obj HFL
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?contentTypeField> = stru:CTF
@type (const )?(vmime::)?contentTypeField = stru:CTF
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?headerField> = stru:HFL
@type (const )?(vmime::)?headerField = stru:HFL
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?(header)> = stru:Hd
@type (const )?(vmime::)?header = stru:Hd
@type (vmime::)?bodyPart \*( const)? = stru:Own
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?bodyPart> = stru:Part
@type (const )?(vmime::)?bodyPart = stru:Part
@type (const )?(vmime::)?mediaType = stru:Media
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?mediaType> = stru:Media
@type (const )?(vmime::)?encoding = stru:Enc
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?encoding> = stru:Enc
@type (const )?(vmime::)?text = stru:Txt
@type (const )?(std::|vmime::)?shared_ptr ?<(const )?(vmime::)?(contentHandler|emptyContentHandler|streamContentHandler)> = stru:CH
@type (const )?(vmime::)?(contentHandler|emptyContentHandler|streamContentHandler) = stru:CH
@type (const )?(std::|vmime::)?shared_ptr ?<(vmime::)?(utility::)?seekableInputStreamRegionAdapter> = stru:Reg
@type (const )?(vmime::)?(utility::)?seekableInputStreamRegionAdapter = stru:Reg
@type .*(parsingContext|generationContext).* = drop
@method vmime::body::removeAllParts = body_noparts void mut
@method vmime::component::setParsedBounds = body_bounds void mut val val
@method vmime::bodyPart::getHeader = own_header stru:Hd ref
@method vmime::bodyPart::createChildPart = own_child stru:Part ref
@method vmime::header::findField = find_field stru:HFL ref ref
@method vmime::header::findField ~contentTypeField~ = find_ctf stru:CTF ref ref
@method vmime::headerField::getValue ~mediaType~ = ctf_media stru:Media ref
@method vmime::headerField::getValue ~encoding~ = hf_enc stru:Enc ref
@method vmime::contentTypeField::hasBoundary = ctf_has bool ref
@method vmime::contentTypeField::getBoundary = ctf_boundary str ref
@method vmime::mediaType::getType = media_type str ref
@method vmime::component::parse = comp_parse void mut drop mut val val drop
@method vmime::text::getWholeBuffer = text_whole str ref
@method vmime::utility::parserInputStreamAdapter::getUnderlyingStream = pia_under void drop
@ctor Txt 0 = text_new
@ctor Enc 0 = enc_new
@ctor Enc 1 = enc_of val
@make emptyContentHandler = ch_empty stru:CH
@make streamContentHandler = ch_stream stru:CH val val val
@make seekableInputStreamRegionAdapter = region stru:Reg drop val val
@type .*\(lambda at .* = fn:i32:bool
@rust
// ---- what surrounds a body: its owner (with the header), child parts, texts, content handlers
pub struct Own { pub h: Hd }
#[verifier::external_body] pub struct Hd { x: u8 }
#[verifier::external_body] pub struct Media { x: u8 }
#[verifier::external_body] pub struct Enc { x: u8 }
pub struct CTF { pub set: bool, pub m: Media, pub hasb: bool, pub b: Vec<u8> }
pub struct HFL { pub set: bool, pub enc: Enc }
pub struct Part { pub a: usize, pub z: usize }
pub struct Txt { pub a: usize, pub z: usize, pub d: Ghost<Seq<u8>> }
pub struct Reg { pub a: usize, pub n: usize }
pub struct CH { pub empty: bool, pub a: usize, pub n: usize, pub len: usize, pub enc: Enc }
#[verifier::external_body] pub fn clone_Media(m: &Media) -> (r: Media) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_Enc(m: &Enc) -> (r: Enc) ensures r == *m { unimplemented!() }
pub fn clone_Part(m: &Part) -> (r: Part) ensures r == *m { Part { a: m.a, z: m.z } }
pub uninterp spec fn enc_default() -> Enc;
pub uninterp spec fn enc_named(n: Seq<u8>) -> Enc;
pub uninterp spec fn media_name(m: Media) -> Seq<u8>;
#[verifier::external_body] pub fn enc_new() -> (r: Enc) ensures r == enc_default() { unimplemented!() }
#[verifier::external_body] pub fn enc_of(n: Vec<u8>) -> (r: Enc) ensures r == enc_named(n@) { unimplemented!() }
#[verifier::external_body] pub fn media_type(m: &Media) -> (r: Vec<u8>) ensures r@ == media_name(*m) { unimplemented!() }
#[verifier::external_body] pub fn clone_CTF(m: &CTF) -> (r: CTF) ensures r == *m { unimplemented!() }
#[verifier::external_body] pub fn clone_HFL(m: &HFL) -> (r: HFL) ensures r == *m { unimplemented!() }
pub fn clone_Reg(m: &Reg) -> (r: Reg) ensures r == *m { Reg { a: m.a, n: m.n } }
pub fn pia_under() { }
pub fn CTF_isset(f: &CTF) -> (r: bool) ensures r == f.set { f.set }
pub fn HFL_isset(f: &HFL) -> (r: bool) ensures r == f.set { f.set }
pub uninterp spec fn sp_ctf(h: Hd, n: Seq<u8>) -> CTF;
pub uninterp spec fn sp_hf(h: Hd, n: Seq<u8>) -> HFL;
#[verifier::external_body] pub fn find_ctf(h: &Hd, n: &Vec<u8>) -> (r: CTF) ensures r == sp_ctf(*h, n@) { unimplemented!() }
#[verifier::external_body] pub fn find_field(h: &Hd, n: &Vec<u8>) -> (r: HFL) ensures r == sp_hf(*h, n@) { unimplemented!() }
#[verifier::external_body] pub fn ctf_media(f: &CTF) -> (r: Media) requires f.set ensures r == f.m { unimplemented!() }
#[verifier::external_body] pub fn hf_enc(f: &HFL) -> (r: Enc) requires f.set ensures r == f.enc { unimplemented!() }
pub fn ctf_has(f: &CTF) -> (r: bool) requires f.set ensures r == f.hasb { f.hasb }
#[verifier::external_body] pub fn ctf_boundary(f: &CTF) -> (r: Vec<u8>) requires f.set, f.hasb ensures r@ == f.b@ { unimplemented!() }
#[verifier::external_body] pub fn own_header(o: &Own) -> (r: Hd) ensures r == o.h { unimplemented!() }
pub fn own_child(o: &Own) -> (r: Part) { Part { a: 0, z: 0 } }
pub fn ch_empty() -> (r: CH) ensures r.empty { CH { empty: true, a: 0, n: 0, len: 0, enc: enc_new() } }
pub fn ch_stream(s: Reg, len: usize, e: Enc) -> (r: CH) ensures r == (CH { empty: false, a: s.a, n: s.n, len: len, enc: e }) { CH { empty: false, a: s.a, n: s.n, len: len, enc: e } }
pub fn region(a: usize, n: usize) -> (r: Reg) ensures r == (Reg { a: a, n: n }) { Reg { a: a, n: n } }
pub fn text_new() -> (r: Txt) { Txt { a: 0, z: 0, d: Ghost(Seq::empty()) } }
pub uninterp spec fn text_of(s: Seq<u8>) -> Seq<u8>;     // the words of a text which is parsed from s, put together
#[verifier::external_body] pub fn text_whole(t: &Txt) -> (r: Vec<u8>) ensures r@ == text_of(t.d@.subrange(t.a as int, t.z as int)) { unimplemented!() }
// parsing a component from a range of the stream: the range must be one
pub trait Comp: Sized { spec fn parsed(self, d: Seq<u8>, a: usize, z: usize) -> bool; }
impl Comp for Part { open spec fn parsed(self, d: Seq<u8>, a: usize, z: usize) -> bool { self.a == a && self.z == z } }
impl Comp for Txt { open spec fn parsed(self, d: Seq<u8>, a: usize, z: usize) -> bool { self.a == a && self.z == z && self.d@ == d } }
#[verifier::external_body]
pub fn comp_parse<T: Comp>(t: &mut T, p: &mut PIA, a: usize, z: usize) requires old(p).ok(), a <= z <= old(p).d().len() ensures final(p).ok(), final(p).d() == old(p).d(), final(t).parsed(old(p).d(), a, z) { unimplemented!() }
#[verifier::external_body]
pub fn body_noparts(b: &mut Body) ensures final(b).m_parts@.len() == 0, final(b).m_part == old(b).m_part, final(b).m_boundary == old(b).m_boundary { unimplemented!() }
pub fn body_bounds(b: &mut Body, a: usize, z: usize) ensures *final(b) == *old(b) { }
pub open spec fn ptext(d: Seq<u8>, r: (int, int)) -> Seq<u8> { if r.0 < r.1 { text_of(d.subrange(r.0, r.1)) } else { Seq::empty() } }
pub open spec fn ranges(v: Seq<Part>) -> Seq<(int, int)> { v.map(|i: int, p: Part| (p.a as int, p.z as int)) }
// what a body of a multipart type holds
pub open spec fn multi(b: Body, d: Seq<u8>, t: Seq<u8>, a: int, e: int) -> bool {
    let s = whole(d, t, a, e);
    &&& ranges(b.m_parts@) == s.parts + (if s.closed { Seq::empty() } else { seq![(s.tail, e)] })
    &&& b.m_prologText@ == ptext(d, s.prolog)
    &&& b.m_epilogText@ == (if s.closed { ptext(d, (s.tail, e)) } else { Seq::empty() })
    &&& b.m_contents.empty && b.m_boundary@ == t
}
pub open spec fn simple(b: Body, a: int, e: int, enc: Enc) -> bool {
    b.m_parts@.len() == 0 && b.m_prologText@.len() == 0 && b.m_epilogText@.len() == 0 && !b.m_contents.empty && b.m_contents.a == a && b.m_contents.n == e - a && b.m_contents.len == e - a && b.m_contents.enc == enc
}
pub open spec fn bctf(b: Body) -> CTF { sp_ctf(b.m_part.h, sCONST_vmime__fields__CONTENT_TYPE()) }
pub open spec fn bmulti(b: Body) -> bool { bctf(b).set && media_name(bctf(b).m) == sCONST_vmime__mediaTypes__MULTIPART() }
pub open spec fn benc(b: Body) -> Enc { let f = sp_hf(b.m_part.h, sCONST_vmime__fields__CONTENT_TRANSFER_ENCODING()); if f.set { f.enc } else { enc_named(sCONST_vmime__encodingTypes__SEVEN_BIT()) } }
// a boundary which is guessed is some text of the body
pub open spec fn guess(d: Seq<u8>, t: Seq<u8>, a: int) -> bool { 1 <= t.len() < 100 && exists|q: int| a <= q && at(d, t, q) }
impl PIA {
    pub open spec fn d(self) -> Seq<u8> { self.m_stream.data() }
    pub open spec fn p(self) -> int { self.m_stream.pos() }
    pub open spec fn ok(self) -> bool { self.m_stream.wf() }
}
@source src/vmime/parserHelpers.hpp
@source src/vmime/body.cpp
@fn vmime::parserHelpers::isSpaceOrTab as is_blank
@ensures
    res == (c == 32 || c == 9),
@fn vmime::utility::parserInputStreamAdapter::seek as pia_seek
@requires
    old(this).ok(),
@ensures
    final(this).ok(), final(this).d() == old(this).d(), pos <= old(this).d().len() ==> final(this).p() == pos,
@fn vmime::utility::parserInputStreamAdapter::getPosition as pia_pos
@requires
    this.ok(),
@ensures
    res == this.p(),
@fn vmime::utility::parserInputStreamAdapter::peekByte as pia_peek
@mutthis
@requires
    old(this).ok(),
@ensures
    final(this).ok(), final(this).d() == old(this).d(), final(this).p() == old(this).p(), res == (if old(this).p() < old(this).d().len() { old(this).d()[old(this).p()] } else { 0 }),
@fn vmime::utility::parserInputStreamAdapter::getByte as pia_get
@requires
    old(this).ok(),
@ensures
    final(this).ok(), final(this).d() == old(this).d(),
    old(this).p() < old(this).d().len() ==> final(this).p() == old(this).p() + 1 && res == old(this).d()[old(this).p()],
    old(this).p() == old(this).d().len() ==> final(this).p() == old(this).p() && res == 0,
@fn vmime::utility::parserInputStreamAdapter::skipIf ~(bool (*)~ as pia_skip
@requires
    old(this).ok(), endPosition <= old(this).d().len(), forall|c: i32| call_requires(pred, (c,)),
@ensures
    final(this).ok(), final(this).d() == old(this).d(), final(this).p() == old(this).p() + res,
    endPosition <= old(this).p() ==> res == 0, endPosition >= old(this).p() ==> old(this).p() + res <= endPosition,
    forall|k: int| old(this).p() <= k < old(this).p() + res ==> call_ensures(pred, (#[trigger] old(this).d()[k] as i32,), true),
    old(this).p() + res < endPosition && old(this).p() + res < old(this).d().len() ==> call_ensures(pred, (old(this).d()[old(this).p() + res] as i32,), false),
@loop 1 invariant
    this.ok(), this.d() == old(this).d(), initialPos == old(this).p(), initialPos <= pos, pos <= endPosition || pos == initialPos, pos <= this.d().len(),
    forall|c: i32| call_requires(pred, (c,)),
    forall|k: int| initialPos <= k < pos ==> call_ensures(pred, (#[trigger] old(this).d()[k] as i32,), true),
@loop 1 xinvariant
    this.p() == pos,
@loop 1 ensures
    pos < endPosition && pos < this.d().len() ==> call_ensures(pred, (old(this).d()[pos as int] as i32,), false),
@loop 1 decreases
    this.d().len() - pos
@fn vmime::utility::parserInputStreamAdapter::skipIf ~((lambda~ as pia_skip_line
@requires
    old(this).ok(), endPosition <= old(this).d().len(), forall|c: i32| call_requires(pred, (c,)),
@ensures
    final(this).ok(), final(this).d() == old(this).d(), final(this).p() == old(this).p() + res,
    endPosition <= old(this).p() ==> res == 0, endPosition >= old(this).p() ==> old(this).p() + res <= endPosition,
    forall|k: int| old(this).p() <= k < old(this).p() + res ==> call_ensures(pred, (#[trigger] old(this).d()[k] as i32,), true),
    old(this).p() + res < endPosition && old(this).p() + res < old(this).d().len() ==> call_ensures(pred, (old(this).d()[old(this).p() + res] as i32,), false),
@loop 1 invariant
    this.ok(), this.d() == old(this).d(), initialPos == old(this).p(), initialPos <= pos, pos <= endPosition || pos == initialPos, pos <= this.d().len(),
    forall|c: i32| call_requires(pred, (c,)),
    forall|k: int| initialPos <= k < pos ==> call_ensures(pred, (#[trigger] old(this).d()[k] as i32,), true),
@loop 1 xinvariant
    this.p() == pos,
@loop 1 ensures
    pos < endPosition && pos < this.d().len() ==> call_ensures(pred, (old(this).d()[pos as int] as i32,), false),
@loop 1 decreases
    this.d().len() - pos
@fn vmime::utility::parserInputStreamAdapter::matchBytes ~(const char *~ as pia_match
@mutthis
@requires
    old(this).ok(), length <= 32, length <= bytes.len(), bytes_o == 0,
@ensures
    final(this).ok(), final(this).d() == old(this).d(), final(this).p() == old(this).p(), res == at(old(this).d(), bytes@.subrange(0, length as int), old(this).p()),
@hint before `return`
    proof {
        let m = bytes@.subrange(0, length as int); let q = old(this).p(); assert(buffer@.subrange(0, length as int).len() == length);
        if readBytes == length { assert(old(this).d().subrange(q, q + length) =~= buffer@.subrange(0, length as int)); }
        assert(bytes@.subrange(bytes_o as int, bytes_o + length) =~= m);
    }
@fn vmime::body::findNextBoundaryPosition as next_delim
@outptr boundaryStart
@outptr boundaryEnd
@requires
    old(parser).ok(), end <= old(parser).d().len(), boundary.len() >= 1, position <= end,
@ensures
    final(parser).ok(), final(parser).d() == old(parser).d(), *final(this) == *old(this),
    res == usize::MAX ==> nodelim(old(parser).d(), boundary@, position as int, end as int, end as int),
    res == usize::MAX ==> *final(boundaryStart) == *old(boundaryStart) && *final(boundaryEnd) == *old(boundaryEnd),
    res != usize::MAX ==> position <= res && delim(old(parser).d(), boundary@, res as int, end as int) && nodelim(old(parser).d(), boundary@, position as int, res as int, end as int)
        && *final(boundaryStart) == before(old(parser).d(), res as int) && *final(boundaryEnd) == res + boundary.len(),
@hint before ~let t3__ = pia_match~
    proof { lemma_at3(parser.d(), t2__@.subrange(0, 3), pos - 3); assert(t2__@.subrange(0, 3) =~= t2__@); }
@loop 1 invariant
    parser.ok(), *this == *old(this), parser.d() == old(parser).d(), *boundaryStart == *old(boundaryStart), *boundaryEnd == *old(boundaryEnd),
    position <= pos <= end, nodelim(parser.d(), boundary@, position as int, pos as int, end as int),
@loop 1 ensures
    nodelim(parser.d(), boundary@, position as int, end as int, end as int),
@loop 1 decreases
    end - pos
@fn vmime::body::parseImpl as body_parse
@local contentStream = stru:Reg
@outptr newPosition
@requires
    old(parser).ok(), position <= end <= old(parser).d().len(), end - position <= 0x7fff_ffff,
@ensures
    final(parser).d() == old(parser).d(), *final(newPosition) == end, final(this).m_part == old(this).m_part,
    position == end ==> final(this).m_parts@.len() == 0 && final(this).m_prologText@.len() == 0 && final(this).m_epilogText@.len() == 0 && final(this).m_contents.empty,
    position < end && !bmulti(*old(this)) ==> simple(*final(this), position as int, end as int, benc(*old(this))),
    position < end && bmulti(*old(this)) && bctf(*old(this)).hasb && bctf(*old(this)).b.len() >= 1 ==> multi(*final(this), old(parser).d(), bctf(*old(this)).b@, position as int, end as int),
    position < end && bmulti(*old(this)) && !(bctf(*old(this)).hasb && bctf(*old(this)).b.len() >= 1) ==> simple(*final(this), position as int, end as int, benc(*old(this)))
        || (guess(old(parser).d(), final(this).m_boundary@, position as int) && multi(*final(this), old(parser).d(), final(this).m_boundary@, position as int, end as int)),
@isolate
@ifs 23
@block 3 requires
    *this == th, parser.ok(), parser.d() == d0, ctf == bctf(th), position < end <= d0.len(), end - position <= 0x7fff_ffff, !isMultipart, boundary.len() == 0,
@block 3 ensures
    *this == th, parser.ok(), parser.d() == d0, isMultipart == bmulti(th), 
    isMultipart && ctf.hasb ==> boundary@ == ctf.b@,
    isMultipart && !ctf.hasb ==> boundary.len() == 0 || guess(d0, boundary@, position as int),
    !isMultipart ==> boundary.len() == 0,
@hint block 3 pre
    let ghost th = *this; let ghost d0 = parser.d();
@hint before ~let mut t38__ = own_child~
    let ghost rg = ranges(this.m_parts@);
@hint after ~this.m_parts.push\(~ #2
    proof { assert(ranges(this.m_parts@) =~= rg.push((partStart as int, e))); assert(s.parts =~= rg); assert(ranges(this.m_parts@) =~= s.parts + seq![(s.tail, e)]); }
@hint before ~body_bounds~ #2
    proof { if position < end && isMultipart && boundary.len() >= 1 { let s = whole(d0, boundary@, position as int, end as int); assert(s.parts + Seq::<(int, int)>::empty() =~= s.parts); let b = *this; assert(b.m_contents.empty); assert(b.m_boundary@ == boundary@); assert(b.m_epilogText@ == (if s.closed { ptext(d0, (s.tail, end as int)) } else { Seq::empty() })); assert(b.m_prologText@ == ptext(d0, s.prolog)); assert(ranges(b.m_parts@) == s.parts + (if s.closed { Seq::empty() } else { seq![(s.tail, end as int)] })); assert(multi(*this, d0, boundary@, position as int, end as int)); } }
@hint before ~pia_seek\(parser, boundaryEnd\)~ #1
    proof { assert(0 <= p0 && p0 + t.len() <= e); lemma_dline(d, t, p0, e); }
@hint before ~let t22__ = pia_match~
    proof { assert(t21__@.subrange(0, 2) =~= t21__@); lemma_at2(d, t21__@, boundaryEnd as int); }
@hint after ~let t24__ = pia_skip~
    proof { lemma_run(0, d, boundaryEnd as int, boundaryEnd + t24__, e); }
@hint before ~let t26__ = pia_match~
    proof { assert(t25__@.subrange(0, 2) =~= t25__@); lemma_at2(d, t25__@, boundaryEnd as int); }
@hint after ~let t30__ = pia_skip_line~
    proof { lemma_run(1, d, boundaryEnd as int, boundaryEnd + t30__, e); assert(l.junk && l.end == boundaryEnd + t30__); }
@hint before ~this.m_parts.push\(~ #1
    proof { assert(!l.junk && l.end == boundaryEnd); }
@hint after ~buffer.set\(255usize~
    let ghost b0 = buffer@;
    proof { assert forall|k: int| 0 <= k < bufferLen implies #[trigger] b0[k] == parser.d()[pos + k] by {} }
@loop 1 invariant
    boundarySkip <= bufferLen <= 255, buffer@ == b0, b0.len() == 256, parser.ok(), parser.d() == d0, parser.p() == pos + bufferLen, *this == th, position <= pos,
    forall|k: int| 0 <= k < bufferLen ==> #[trigger] b0[k] == d0[pos + k],
@loop 1 decreases
    bufferLen - boundarySkip
@loop 2 invariant
    boundarySkip + boundaryLen <= bufferLen <= 255, buffer@ == b0, b0.len() == 256, boundaryBytes.len() == 100, boundaryLen <= 100, c == buffer[boundarySkip + boundaryLen],
    forall|k: int| 0 <= k < boundaryLen ==> #[trigger] boundaryBytes@[k] == buffer@[boundarySkip + k],
@loop 2 decreases
    100 - boundaryLen
@loop 3 invariant
    boundaryLen < 100, boundaryBytes.len() == 100, boundarySkip + boundaryLen <= bufferLen,
    forall|k: int| 0 <= k < boundaryLen ==> #[trigger] boundaryBytes@[k] == b0[boundarySkip + k],
@loop 3 decreases
    boundaryLen
@hint loop 3 after
    proof { let b = boundaryBytes@.subrange(0, boundaryLen as int); assert(at(parser.d(), b, pos + boundarySkip)) by { assert(parser.d().subrange(pos + boundarySkip, pos + boundarySkip + boundaryLen) =~= b); } }
@hint loop 4 pre
    let ghost d = parser.d(); let ghost t = boundary@; let ghost e = end as int;
    let ghost s = whole(d, t, position as int, e);
    let ghost mut fr = position as int;
    let ghost mut gq = if pos == usize::MAX { e } else { pos as int };
    proof { assert(ranges(this.m_parts@) =~= Seq::empty()); assert(Seq::<(int, int)>::empty() + s.parts =~= s.parts); }
@loop 4 invariant
    parser.ok(), parser.d() == d, boundary@ == t, t.len() >= 1, end == e, position <= end <= d.len(), end - position <= 0x7fff_ffff, s == whole(d, t, position as int, e),
    this.m_part == old(this).m_part, this.m_epilogText@.len() == 0, partStart <= end, 0 <= index, index <= fr - position, position <= fr <= e,
    fr <= gq <= e, gq == (if pos == usize::MAX { e } else { pos as int }), nodelim(d, t, fr, gq, e),
    pos != usize::MAX ==> delim(d, t, pos as int, e) && boundaryStart == before(d, pos as int) && boundaryEnd == pos + t.len(),
    index == 0 ==> this.m_prologText@.len() == 0 && this.m_parts@.len() == 0 && !lastPart,
    index > 0 ==> this.m_prologText@ == ptext(d, s.prolog),
    lastPart ==> s.closed && s.tail == partStart && ranges(this.m_parts@) == s.parts,
    !lastPart ==> ({ let c = split(d, t, fr, partStart as int, index == 0, e); s.parts == ranges(this.m_parts@) + c.parts && s.tail == c.tail && s.closed == c.closed && (index == 0 ==> s.prolog == c.prolog) }),
@loop 4 decreases
    e - fr
@hint loop 4 begin
    let ghost p0 = pos as int;
    let ghost l = dline(d, t, p0, e);
    let ghost parts0 = ranges(this.m_parts@);
    let ghost ps0 = partStart as int;
    proof { lemma_split(d, t, fr, partStart as int, index == 0, e, gq); }
@hint loop 4 end
    proof { lemma_dline(d, t, p0, e); fr = l.end; gq = if pos == usize::MAX { e } else { pos as int }; }
@hint loop 4 post
    proof { lemma_split(d, t, fr, partStart as int, index == 0, e, gq); }
@source src/vmime/utility/parserInputStreamAdapter.cpp
@fn vmime::utility::parserInputStreamAdapter::readFully as pia_fully
@mutthis
@requires
    old(this).ok(), data_o + count <= old(data).len(), old(data).len() < 0x0fff_ffff_ffff_ffff,
@ensures
    final(this).ok(), final(this).d() == old(this).d(), final(this).p() == old(this).p() + res, res <= count, final(data).len() == old(data).len(),
    res < count ==> final(this).p() == final(this).d().len(),
    forall|k: int| 0 <= k < final(data).len() ==> #[trigger] final(data)@[k] == (if data_o <= k < data_o + res { old(this).d()[old(this).p() + k - data_o] } else { old(data)@[k] }),
@loop 1 invariant
    this.ok(), this.d() == old(this).d(), this.p() == old(this).p() + readBytes, readBytes <= count, data.len() == old(data).len(),
    forall|k: int| 0 <= k < data.len() ==> #[trigger] data@[k] == (if data_o <= k < data_o + readBytes { this.d()[old(this).p() + k - data_o] } else { old(data)@[k] }),
@loop 1 ensures
    readBytes < count ==> this.p() == this.d().len(),
@loop 1 decreases
    count - readBytes
@fn vmime::utility::parserInputStreamAdapter::findNext as pia_find
@requires
    old(this).ok(), startPosition <= old(this).d().len(),
@ensures
    final(this).ok(), final(this).d() == old(this).d(), final(this).p() == old(this).p(),
    1 <= token.len() <= 2048 && res != usize::MAX ==> startPosition <= res && at(old(this).d(), token@, res as int) && none(old(this).d(), token@, startPosition as int, res as int),
    1 <= token.len() <= 2048 && res == usize::MAX ==> none(old(this).d(), token@, startPosition as int, old(this).d().len() as int),
    !(1 <= token.len() <= 2048) ==> res == usize::MAX,
@loop 1 invariant
    this.ok(), this.d() == old(this).d(), initialPos == old(this).p(), BUFFER_SIZE == 4096, 1 <= token.len() <= 2048, findBuffer.len() == 4096, findBuffer1 == 0, findBuffer2 == 2048,
    findBufferLen <= 4096, startPosition + findBufferOffset + findBufferLen <= this.d().len(), this.p() == startPosition + findBufferOffset + findBufferLen,
    findBufferLen < 4096 ==> this.p() == this.d().len(),
    none(this.d(), token@, startPosition as int, startPosition + findBufferOffset),
@loop 1 xinvariant
    forall|k: int| 0 <= k < findBufferLen ==> #[trigger] findBuffer@[k] == this.d()[startPosition + findBufferOffset + k],
@loop 1 ensures
    none(this.d(), token@, startPosition as int, this.d().len() as int),
@loop 1 decreases
    this.d().len() - findBufferOffset
@hint loop 1 after
@loop 2 invariant
    this.ok(), this.d() == old(this).d(),
    begin <= end + 1, end == findBufferLen - token.len(), none(this.d(), token@, startPosition as int, startPosition + findBufferOffset + begin),
    this.p() == startPosition + findBufferOffset + findBufferLen, startPosition + findBufferOffset + findBufferLen <= this.d().len(),
    forall|k: int| 0 <= k < findBufferLen ==> #[trigger] findBuffer@[k] == this.d()[startPosition + findBufferOffset + k],
@loop 2 decreases
    findBufferLen - begin
@hint loop 2 begin
    proof { lemma_match(this.d(), findBuffer@, token@, startPosition + findBufferOffset, begin as int, findBufferLen as int); }
@fn vmime::utility::parserInputStreamAdapter::read as pia_read
@requires
    old(this).ok(), data_o + count <= old(data).len(),
@ensures
    final(this).ok(), final(this).d() == old(this).d(), final(this).p() == old(this).p() + res, res <= count, final(data).len() == old(data).len(),
    forall|k: int| 0 <= k < final(data).len() ==> #[trigger] final(data)@[k] == (if data_o <= k < data_o + res { old(this).d()[old(this).p() + k - data_o] } else { old(data)@[k] }),
