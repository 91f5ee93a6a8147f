@unit qp
@use strings streams
@rlimit 100
@source src/vmime/utility/encoder/qpEncoder.cpp
@struct vmime::utility::encoder::qpEncoder as QP
@extrafield QP.props props

@rust
// RFC 2045 6.7 / RFC 2047 4.2, written independently of the tables in the source
pub struct QM { pub rfc: bool, pub text: bool, pub cut: bool, pub mx: int }
pub open spec fn hexd(v: int) -> u8 { if v < 10 { (48 + v) as u8 } else { (55 + v) as u8 } }
pub open spec fn qhex(c: u8) -> Seq<u8> { seq![61u8, hexd(c as int / 16), hexd(c as int % 16)] }
pub open spec fn alnum(c: u8) -> bool { 48 <= c <= 57 || 65 <= c <= 90 || 97 <= c <= 122 }
// characters allowed unencoded in a Q-encoded word inside a phrase
pub open spec fn q_phrase(c: u8) -> bool { alnum(c) || c == 33 || c == 42 || c == 43 || c == 45 || c == 47 }
pub open spec fn eol_next(d: Seq<u8>) -> bool { d.len() < 2 || d[1] == 13 || d[1] == 10 }
pub open spec fn q_tok(m: QM, c: u8, eol: bool, col: int) -> Seq<u8> {
    if m.rfc { if c == 32 { seq![95u8] } else if q_phrase(c) { seq![c] } else { qhex(c) } }
    else if c == 46 && col == 0 { qhex(c) }
    else if c == 32 { if eol { qhex(c) } else { seq![c] } }
    else if m.text && (c == 13 || c == 10) { seq![c] }
    else if 33 <= c <= 126 && c != 61 && c != 63 { seq![c] }
    else { qhex(c) }
}
pub open spec fn q_col(m: QM, c: u8, eol: bool, col: int) -> int {
    if !m.rfc && m.text && c == 10 { 0 } else { col + q_tok(m, c, eol, col).len() }
}
// soft line break after this character
pub open spec fn q_brk(m: QM, c: u8, eol: bool, col: int) -> bool {
    !m.rfc && m.cut && q_col(m, c, eol, col) >= m.mx - 1 && !(c == 46 && col == 0) && !(m.text && c == 13)
}
pub open spec fn tl(d: Seq<u8>) -> Seq<u8> { d.subrange(1, d.len() as int) }
pub open spec fn q_soft() -> Seq<u8> { seq![61u8, 13u8, 10u8] }
#[verifier::opaque]
pub open spec fn q_enc(m: QM, d: Seq<u8>, col: int) -> Seq<u8> decreases d.len() {
    if d.len() == 0 { Seq::empty() }
    else if q_brk(m, d[0], eol_next(d), col) { q_tok(m, d[0], eol_next(d), col) + (q_soft() + q_enc(m, tl(d), 0)) }
    else { q_tok(m, d[0], eol_next(d), col) + q_enc(m, tl(d), q_col(m, d[0], eol_next(d), col)) }
}
pub open spec fn hexv(c: u8) -> int { if 48 <= c <= 57 { c - 48 } else if 65 <= c <= 70 { c - 55 } else if 97 <= c <= 102 { c - 87 } else { 0 } }
#[verifier::opaque]
pub open spec fn q_dec(rfc: bool, t: Seq<u8>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if t[0] == 61 {
        if t.len() < 2 { Seq::empty() }
        else if t[1] == 10 { q_dec(rfc, t.subrange(2, t.len() as int)) }
        else if t.len() < 3 { Seq::empty() }
        else if t[1] == 13 { q_dec(rfc, t.subrange(3, t.len() as int)) }
        else { seq![(hexv(t[1]) * 16 + hexv(t[2])) as u8] + q_dec(rfc, t.subrange(3, t.len() as int)) }
    }
    else if rfc && t[0] == 95 { seq![32u8] + q_dec(rfc, tl(t)) }
    else { seq![t[0]] + q_dec(rfc, tl(t)) }
}
pub proof fn lemma_tables()
    ensures
        tables_ok(),
{ }
pub open spec fn tables_ok() -> bool {
    (forall|v: int| 0 <= v < 16 ==> #[trigger] tb_sm_hexDigits(v) == hexd(v) as int)
    && (forall|c: u8| #[trigger] tb_sm_hexDecodeTable(c as int) == hexv(c))
    && (forall|c: u8| c < 128 ==> ((#[trigger] tb_sm_RFC2047EncodeTable(c as int) == 0) == q_phrase(c)))
}
pub proof fn lemma_enc_len(m: QM, d: Seq<u8>, col: int) ensures q_enc(m, d, col).len() <= 6 * d.len() decreases d.len()
{ reveal(q_enc); reveal(q_dec); if d.len() > 0 { lemma_enc_len(m, tl(d), 0); lemma_enc_len(m, tl(d), q_col(m, d[0], eol_next(d), col)); } }
pub proof fn lemma_enc_step(m: QM, d: Seq<u8>, col: int)
    requires d.len() > 0
    ensures
        q_brk(m, d[0], eol_next(d), col) ==> q_enc(m, d, col) == q_tok(m, d[0], eol_next(d), col) + (q_soft() + q_enc(m, tl(d), 0)),
        !q_brk(m, d[0], eol_next(d), col) ==> q_enc(m, d, col) == q_tok(m, d[0], eol_next(d), col) + q_enc(m, tl(d), q_col(m, d[0], eol_next(d), col)),
{ reveal(q_enc); }
pub proof fn lemma_enc_nil(m: QM, d: Seq<u8>, col: int)
    requires d.len() == 0 ensures q_enc(m, d, col) == Seq::<u8>::empty(), q_dec(m.rfc, d) == Seq::<u8>::empty() { reveal(q_enc); reveal(q_dec); }
pub proof fn lemma_hex_bits()
    ensures forall|c: u8| #[trigger] ((c as i32) >> 4i32) == c / 16, forall|c: u8| #[trigger] ((c as i32) & 15i32) == c % 16,
{
    assert forall|c: u8| #[trigger] ((c as i32) >> 4i32) == c / 16 by { assert((c as i32) >> 4i32 == (c / 16) as i32) by(bit_vector); }
    assert forall|c: u8| #[trigger] ((c as i32) & 15i32) == c % 16 by { assert((c as i32) & 15i32 == (c % 16) as i32) by(bit_vector); }
}
pub proof fn lemma_hexd_hexv(v: int) requires 0 <= v < 16 ensures hexv(hexd(v)) == v, hexd(v) != 10, hexd(v) != 13 { }
pub proof fn lemma_dec_hex(rfc: bool, c: u8, t: Seq<u8>)
    ensures q_dec(rfc, qhex(c) + t) == seq![c] + q_dec(rfc, t)
{ reveal(q_enc); reveal(q_dec);
    let e = qhex(c) + t;
    lemma_hexd_hexv(c as int / 16); lemma_hexd_hexv(c as int % 16);
    assert(e[0] == 61 && e[1] == hexd(c as int / 16) && e[2] == hexd(c as int % 16));
    assert(e.subrange(3, e.len() as int) =~= t);
    assert(c as int / 16 * 16 + c as int % 16 == c);
}
pub proof fn lemma_dec_plain(rfc: bool, c: u8, t: Seq<u8>)
    requires c != 61, !rfc || c != 95 ensures q_dec(rfc, seq![c] + t) == seq![c] + q_dec(rfc, t)
{ reveal(q_enc); reveal(q_dec); let e = seq![c] + t; assert(tl(e) =~= t); }
pub proof fn lemma_dec_soft(rfc: bool, t: Seq<u8>) ensures q_dec(rfc, q_soft() + t) == q_dec(rfc, t)
{ reveal(q_enc); reveal(q_dec); let e = q_soft() + t; assert(e.subrange(3, e.len() as int) =~= t); assert(e[1] == 13); }
pub proof fn lemma_dec_tok(m: QM, c: u8, eol: bool, col: int, t: Seq<u8>)
    ensures q_dec(m.rfc, q_tok(m, c, eol, col) + t) == seq![c] + q_dec(m.rfc, t)
{ reveal(q_enc); reveal(q_dec);
    let k = q_tok(m, c, eol, col);
    if k == qhex(c) { lemma_dec_hex(m.rfc, c, t); }
    else if m.rfc && c == 32 { let e = seq![95u8] + t; assert(tl(e) =~= t); assert(e[0] == 95); }
    else { lemma_dec_plain(m.rfc, c, t); }
}
// PROPERTY: decoding the encoded text gives back the data, in every mode and with every line length
pub proof fn property_roundtrip(m: QM, d: Seq<u8>, col: int)
    ensures q_dec(m.rfc, q_enc(m, d, col)) == d decreases d.len()
{ reveal(q_enc); reveal(q_dec);
    if d.len() > 0 {
        let e = eol_next(d);
        if q_brk(m, d[0], e, col) {
            property_roundtrip(m, tl(d), 0);
            lemma_dec_tok(m, d[0], e, col, q_soft() + q_enc(m, tl(d), 0));
            lemma_dec_soft(m.rfc, q_enc(m, tl(d), 0));
        } else {
            property_roundtrip(m, tl(d), q_col(m, d[0], e, col));
            lemma_dec_tok(m, d[0], e, col, q_enc(m, tl(d), q_col(m, d[0], e, col)));
        }
        assert(seq![d[0]] + tl(d) =~= d);
    } else { assert(q_dec(m.rfc, q_enc(m, d, col)) =~= d); }
}
// PROPERTY: in binary mode with line cutting, only CRLF breaks, lines of at most mx + 2 (<= 76) characters,
// printable 7-bit characters, no blank before a line end, no line starting with a dot
pub open spec fn q_lines(s: Seq<u8>, col: int, lim: int) -> bool decreases s.len() {
    if s.len() == 0 { col <= lim }
    else if s[0] == 13 { col <= lim && s.len() >= 2 && s[1] == 10 && q_lines(s.subrange(2, s.len() as int), 0, lim) }
    else { 32 <= s[0] <= 126 && col + 1 <= lim && (col > 0 || s[0] != 46) && (s[0] != 32 || s.len() >= 2 && s[1] != 13) && q_lines(tl(s), col + 1, lim) }
}
pub proof fn lemma_lines_tok(a: Seq<u8>, b: Seq<u8>, col: int, lim: int)
    requires forall|k: int| 0 <= k < a.len() ==> 33 <= #[trigger] a[k] <= 126, a.len() > 0 && col == 0 ==> a[0] != 46, col >= 0,
        col + a.len() <= lim, q_lines(b, col + a.len(), lim)
    ensures q_lines(a + b, col, lim) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let t = tl(a);
        assert(tl(a + b) =~= t + b);
        assert forall|k: int| 0 <= k < t.len() implies 33 <= #[trigger] t[k] <= 126 by { assert(t[k] == a[k + 1]); }
        lemma_lines_tok(t, b, col + 1, lim);
        assert((a + b)[0] == a[0]);
    }
}
pub proof fn lemma_tok_first(m: QM, d: Seq<u8>, col: int)
    requires !m.rfc, !m.text, d.len() > 0 ensures q_enc(m, d, col).len() > 0, q_enc(m, d, col)[0] != 13
{ reveal(q_enc); reveal(q_dec); let t = q_tok(m, d[0], eol_next(d), col); assert(t.len() > 0 && t[0] != 13); assert(q_enc(m, d, col)[0] == t[0]); }
pub proof fn property_lines(m: QM, d: Seq<u8>, col: int)
    requires !m.rfc, !m.text, m.cut, 5 <= m.mx, 0 <= col < m.mx - 1
    ensures q_lines(q_enc(m, d, col), col, m.mx + 2) decreases d.len()
{ reveal(q_enc); reveal(q_dec);
    if d.len() > 0 {
        let c = d[0]; let e = eol_next(d); let t = q_tok(m, c, e, col); let lim = m.mx + 2;
        assert(forall|v: int| 0 <= v < 16 ==> 33 <= #[trigger] hexd(v) <= 126);
        if q_brk(m, c, e, col) {
            property_lines(m, tl(d), 0);
            let r = q_enc(m, tl(d), 0);
            let n = seq![13u8, 10u8] + r;
            assert(n.subrange(2, n.len() as int) =~= r);
            let col1 = col + t.len();
            assert(q_lines(n, col1 + 1, lim));
            let s = q_soft() + r;
            assert(tl(s) =~= n);
            assert(q_lines(s, col1, lim));
            if t == seq![32u8] {
                let w = t + s; assert(tl(w) =~= s); assert(w[0] == 32 && w[1] == 61);
            } else { lemma_lines_tok(t, s, col, lim); }
        } else {
            property_lines(m, tl(d), col + t.len());
            let r = q_enc(m, tl(d), col + t.len());
            if t == seq![32u8] {
                assert(d.len() >= 2);
                lemma_tok_first(m, tl(d), col + 1);
                let w = t + r; assert(tl(w) =~= r); assert(w[0] == 32 && w[1] == r[0]);
            } else { lemma_lines_tok(t, r, col, lim); }
        }
    }
}
// PROPERTY: a Q-encoded word only has characters of the restricted set (no blank, no special)
pub proof fn property_word_chars(m: QM, d: Seq<u8>, col: int)
    requires m.rfc ensures forall|k: int| 0 <= k < q_enc(m, d, col).len() ==> q_phrase(#[trigger] q_enc(m, d, col)[k]) || q_enc(m, d, col)[k] == 61 || q_enc(m, d, col)[k] == 95
    decreases d.len()
{ reveal(q_enc); reveal(q_dec);
    if d.len() > 0 {
        let t = q_tok(m, d[0], eol_next(d), col); let c1 = q_col(m, d[0], eol_next(d), col);
        property_word_chars(m, tl(d), c1);
        assert(forall|v: int| 0 <= v < 16 ==> alnum(#[trigger] hexd(v)));
        let x = q_enc(m, d, col); let r = q_enc(m, tl(d), c1);
        assert(x == t + r);
        assert forall|k: int| 0 <= k < x.len() implies q_phrase(#[trigger] x[k]) || x[k] == 61 || x[k] == 95 by {
            if k < t.len() { assert(x[k] == t[k]); } else { assert(x[k] == r[k - t.len()]); }
        }
    }
}
pub open spec fn q_mode(p: Props) -> QM {
    let l = prop_usize_or(p, sPROP_maxlinelength(), NPOS);
    QM { rfc: prop_bool_or(p, sPROP_rfc2047(), false), text: prop_bool_or(p, sPROP_text(), false), cut: l != NPOS, mx: if l < 74 { l as int } else { 74 } }
}

@fn vmime::utility::encoder::qpEncoder::encode as qp_encode
@isolate
@requires
    old(in_).wf(), q_mode(old(this).props).mx >= 1,
@ensures
    final(out).data() == old(out).data() + q_enc(q_mode(old(this).props), old(in_).data(), 0),
    res as int == q_enc(q_mode(old(this).props), old(in_).data(), 0).len(),
@hint start
    let ghost d0 = in_.data(); let ghost m = q_mode(this.props); let ghost w0 = out.data();
    let ghost goal = w0 + q_enc(m, d0, 0);
    proof { lemma_tables(); assert(d0.subrange(0, d0.len() as int) =~= d0); lemma_enc_len(m, d0, 0); }
@loop 1 xinvariant
    out.data() + (outBuffer@.subrange(0, outBufferPos as int) + q_enc(m, unread(in_, bufferLength as int, bufferPos as int), curCol as int)) == goal,
    curCol <= 3 * (d0.len() - unread(in_, bufferLength as int, bufferPos as int).len()),
@loop 1 invariant
    in_.data() == d0, m == q_mode(this.props), m.mx >= 1,
    rfc2047 == m.rfc, text == m.text, cutLines == m.cut, maxLineLength == m.mx,
    buffer.len() == 16384, outBuffer.len() == 16384, outBufferPos <= 16384, outBufferPos <= 16383 || outBufferPos == 16384,
    buf_sync(in_, buffer@, bufferLength as int, bufferPos as int),
    goal == w0 + q_enc(m, d0, 0), q_enc(m, d0, 0).len() <= 6 * d0.len(),
    out.data().len() == w0.len() + total,
    tables_ok(),
@loop 1 ensures
    out.data() + outBuffer@.subrange(0, outBufferPos as int) == goal,
@loop 1 decreases
    unread(in_, bufferLength as int, bufferPos as int).len()
@hint loop 1 exit
    assert(unread(in_, bufferLength as int, bufferPos as int) =~= Seq::<u8>::empty());
    proof { lemma_enc_nil(m, unread(in_, bufferLength as int, bufferPos as int), curCol as int); }
    assert(outBuffer@.subrange(0, outBufferPos as int) + Seq::<u8>::empty() =~= outBuffer@.subrange(0, outBufferPos as int));
@hint loop 1 break
    assert(unread(in_, bufferLength as int, bufferPos as int) =~= Seq::<u8>::empty());
    proof { lemma_enc_nil(m, unread(in_, bufferLength as int, bufferPos as int), curCol as int); }
    assert(outBuffer@.subrange(0, outBufferPos as int) + Seq::<u8>::empty() =~= outBuffer@.subrange(0, outBufferPos as int));
@hint before ~let mut c: u8 = buffer~
    let ghost u0 = unread(in_, bufferLength as int, bufferPos as int - 1);
    let ghost col0 = curCol; let ghost v0 = outBuffer@; let ghost b0 = outBuffer@.subrange(0, outBufferPos as int); let ghost o0 = out.data();
    proof { lemma_hex_bits(); }
@hint after `curCol = uadd_usize(curCol, 3usize)`
    proof { lemma_put3(v0, outBuffer@, outBufferPos - 3, 61u8, hexd(c as int / 16), hexd(c as int % 16)); }
    assert(outBuffer@.subrange(0, outBufferPos as int) == b0 + qhex(c));
@hint after `curCol = uadd_usize(curCol, 1usize)`
    proof { lemma_put1(v0, outBuffer@, outBufferPos - 1, outBuffer@[outBufferPos - 1]); }
@hint before ~^if .*cutLines~
    proof {
        assert(unread(in_, bufferLength as int, bufferPos as int) =~= tl(u0));
        assert(u0[0] == c);
        assert(outBuffer@.subrange(0, outBufferPos as int) == b0 + q_tok(m, c, eol_next(u0), col0 as int));
        assert(curCol == q_col(m, c, eol_next(u0), col0 as int));
    }
    let ghost v2 = outBuffer@; let ghost p2 = outBufferPos;
    proof {
    }
@hint before `curCol = 0usize` #2
    proof { lemma_put3(v2, outBuffer@, p2 as int, 61u8, 13u8, 10u8); }
@hint loop 1 end
    proof {
        let u1 = unread(in_, bufferLength as int, bufferPos as int);
        assert(u1 =~= tl(u0));
        let e = eol_next(u0);
        let tk = q_tok(m, c, e, col0 as int);
        assert(u0[0] == c);
        lemma_enc_step(m, u0, col0 as int);
        let b1 = outBuffer@.subrange(0, outBufferPos as int);
        let r = q_enc(m, u1, curCol as int);
        if q_brk(m, c, e, col0 as int) {
            if !m.rfc { assert(b1 == (b0 + tk) + q_soft()); }
            lemma_assoc(b0 + tk, q_soft(), r); lemma_assoc(b0, tk, q_soft() + r);
        } else {
            assert(b1 == b0 + tk);
            lemma_assoc(b0, tk, r);
        }
    }
@hint before `out.write(&outBuffer, 0usize, outBufferPos)` #1
    let ghost ob1 = outBuffer@.subrange(0, outBufferPos as int); let ghost od1 = out.data();
@hint after ~outBufferPos = 0usize~ #1
    proof {
        let r = q_enc(m, unread(in_, bufferLength as int, bufferPos as int), curCol as int);
        assert(outBuffer@.subrange(0, 0) + r =~= r);
        assert(od1 + (ob1 + r) =~= (od1 + ob1) + r);
    }
@hint end
    assert(out.data() =~= goal);
    assert(goal.len() == w0.len() + q_enc(m, d0, 0).len());

@fn vmime::utility::encoder::qpEncoder::decode as qp_decode
@isolate
@requires
    old(in_).wf(),
@ensures
    final(out).data() == old(out).data() + q_dec(prop_bool_or(old(this).props, sPROP_rfc2047(), false), old(in_).data()),
@hint start
    let ghost d0 = in_.data(); let ghost w0 = out.data(); let ghost rfc = prop_bool_or(this.props, sPROP_rfc2047(), false);
    let ghost goal = w0 + q_dec(rfc, d0);
    proof { lemma_tables(); assert(d0.subrange(0, d0.len() as int) =~= d0); }
@loop 1 xinvariant
    out.data() + (outBuffer@.subrange(0, outBufferPos as int) + q_dec(rfc, unread(in_, bufferLength as int, bufferPos as int))) == goal,
@loop 1 invariant
    in_.data() == d0, rfc2047 == rfc,
    buffer.len() == 16384, outBuffer.len() == 16384, outBufferPos <= 16384,
    buf_sync(in_, buffer@, bufferLength as int, bufferPos as int),
    tables_ok(),
@loop 1 ensures
    out.data() + outBuffer@.subrange(0, outBufferPos as int) == goal,
@loop 1 decreases
    unread(in_, bufferLength as int, bufferPos as int).len()
@hint loop 1 exit
    assert(unread(in_, bufferLength as int, bufferPos as int) =~= Seq::<u8>::empty());
    proof { reveal(q_dec); }
    assert(outBuffer@.subrange(0, outBufferPos as int) + Seq::<u8>::empty() =~= outBuffer@.subrange(0, outBufferPos as int));
@hint loop 1 break
    assert(unread(in_, bufferLength as int, bufferPos as int) =~= Seq::<u8>::empty());
    proof { reveal(q_dec); }
    assert(outBuffer@.subrange(0, outBufferPos as int) + Seq::<u8>::empty() =~= outBuffer@.subrange(0, outBufferPos as int));
@hint before ~let mut c: u8 = buffer~
    let ghost u0 = unread(in_, bufferLength as int, bufferPos as int - 1);
    let ghost b0 = outBuffer@.subrange(0, outBufferPos as int); let ghost o0 = out.data();
@hint before `out.write(&outBuffer, 0usize, outBufferPos)` #1
    let ghost ob1 = outBuffer@.subrange(0, outBufferPos as int); let ghost od1 = out.data();
@hint after ~outBufferPos = 0usize~ #1
    proof {
        let r = q_dec(rfc, unread(in_, bufferLength as int, bufferPos as int));
        assert(outBuffer@.subrange(0, 0) + r =~= r);
        assert(od1 + (ob1 + r) =~= (od1 + ob1) + r);
    }
@hint loop 1 end
    proof {
        reveal(q_dec);
        let u1 = unread(in_, bufferLength as int, bufferPos as int);
        let r = q_dec(rfc, u1);
        let b1 = outBuffer@.subrange(0, outBufferPos as int);
        let k = u0.len() - u1.len();
        assert(1 <= k <= 3);
        assert(u1 =~= u0.subrange(k, u0.len() as int));
        assert(b1 + r =~= b0 + q_dec(rfc, u0));
    }
@hint end
    assert(out.data() =~= goal);
