@unit b64
@use strings streams
@source src/vmime/utility/encoder/b64Encoder.cpp
@struct vmime::utility::encoder::b64Encoder as B64
@extrafield B64.props props

@rust
// RFC 4648 section 4, written independently of the tables in the source
pub open spec fn b64_alpha(v: int) -> u8 {
    if v < 26 { (65 + v) as u8 } else if v < 52 { (97 + v - 26) as u8 } else if v < 62 { (48 + v - 52) as u8 }
    else if v == 62 { 43u8 } else { 47u8 }
}
pub open spec fn b64_group(g: Seq<u8>) -> Seq<u8> {
    if g.len() == 1 {
        seq![b64_alpha(g[0] as int / 4), b64_alpha((g[0] as int % 4) * 16), 61u8, 61u8]
    } else if g.len() == 2 {
        seq![b64_alpha(g[0] as int / 4), b64_alpha((g[0] as int % 4) * 16 + g[1] as int / 16), b64_alpha((g[1] as int % 16) * 4), 61u8]
    } else {
        seq![b64_alpha(g[0] as int / 4), b64_alpha((g[0] as int % 4) * 16 + g[1] as int / 16),
             b64_alpha((g[1] as int % 16) * 4 + g[2] as int / 64), b64_alpha(g[2] as int % 64)]
    }
}
pub open spec fn head3(d: Seq<u8>) -> Seq<u8> { if d.len() <= 3 { d } else { d.subrange(0, 3) } }
pub open spec fn rest3(d: Seq<u8>) -> Seq<u8> { if d.len() <= 3 { Seq::empty() } else { d.subrange(3, d.len() as int) } }
// the standard encoding, no line breaks
pub open spec fn b64_std(d: Seq<u8>) -> Seq<u8> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else { b64_group(head3(d)) + b64_std(rest3(d)) }
}
pub open spec fn b64_breaks(cut: bool, mx: int, col: int) -> bool { cut && col + 4 + 6 >= mx }
// with CRLF line breaks inserted between groups when cutting lines
pub open spec fn b64_enc(d: Seq<u8>, cut: bool, mx: int, col: int) -> Seq<u8> decreases d.len() {
    if d.len() == 0 { Seq::empty() }
    else if b64_breaks(cut, mx, col) { b64_group(head3(d)) + (seq![13u8, 10u8] + b64_enc(rest3(d), cut, mx, 0)) }
    else { b64_group(head3(d)) + b64_enc(rest3(d), cut, mx, col + 4) }
}
pub open spec fn is_ws(c: u8) -> bool { c == 32 || c == 9 || c == 10 || c == 13 }
pub open spec fn strip_ws(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if is_ws(s[0]) { strip_ws(s.subrange(1, s.len() as int)) }
    else { seq![s[0]] + strip_ws(s.subrange(1, s.len() as int)) }
}
// what the decoder computes from the non-blank characters, over the decoding table of the source
pub open spec fn dval(c: u8) -> int { tb_sm_decodeMap(c as int) }
pub open spec fn dec1(a: int, b: int) -> u8 { ((a * 4) % 256 + (b % 64) / 16) as u8 }
pub open spec fn dec2(b: int, c: int) -> u8 { ((b % 16) * 16 + (c % 64) / 4) as u8 }
pub open spec fn b64_dec(t: Seq<u8>) -> Seq<u8> decreases t.len() {
    if t.len() < 4 || t[0] == 61 || t[1] == 61 { Seq::empty() }
    else if t[2] == 61 { seq![dec1(dval(t[0]), dval(t[1]))] }
    else if t[3] == 61 { seq![dec1(dval(t[0]), dval(t[1])), dec2(dval(t[1]), dval(t[2]))] }
    else { seq![dec1(dval(t[0]), dval(t[1])), dec2(dval(t[1]), dval(t[2])), dec3(dval(t[2]), dval(t[3]))] + b64_dec(t.subrange(4, t.len() as int)) }
}
pub closed spec fn bor(a: int, b: int) -> int { ((a as i32) | (b as i32)) as int }
pub open spec fn dec3(c: int, d: int) -> u8 { (bor((c % 4) * 64, d) % 256) as u8 }

pub proof fn lemma_enc_bits(a: u8, b: u8, c: u8)
    ensures
        (((a as i32) & 252i32) >> 2i32) == a / 4, ((a as i32) >> 2i32) == a / 4,
        (((a as i32) & 3i32) << 4i32) == (a % 4) * 16,
        (((a as i32) & 3i32) << 4i32) | (((b as i32) & 240i32) >> 4i32) == (a % 4) * 16 + b / 16,
        (((a as i32) & 3i32) << 4i32) | ((b as i32) >> 4i32) == (a % 4) * 16 + b / 16,
        (((b as i32) & 15i32) << 2i32) == (b % 16) * 4,
        (((b as i32) & 15i32) << 2i32) | (((c as i32) & 192i32) >> 6i32) == (b % 16) * 4 + c / 64,
        (((b as i32) & 15i32) << 2i32) | ((c as i32) >> 6i32) == (b % 16) * 4 + c / 64,
        ((c as i32) & 63i32) == c % 64,
{
    let (x, y, z) = (a as i32, b as i32, c as i32);
    assert((x & 252i32) >> 2i32 == x / 4i32 && x >> 2i32 == x / 4 && (x & 3i32) << 4i32 == (x % 4) * 16
        && ((x & 3i32) << 4i32) | ((y & 240i32) >> 4i32) == (x % 4) * 16 + y / 16
        && ((x & 3i32) << 4i32) | (y >> 4i32) == (x % 4) * 16 + y / 16
        && (y & 15i32) << 2i32 == (y % 16) * 4
        && ((y & 15i32) << 2i32) | ((z & 192i32) >> 6i32) == (y % 16) * 4 + z / 64
        && ((y & 15i32) << 2i32) | (z >> 6i32) == (y % 16) * 4 + z / 64
        && z & 63i32 == z % 64) by(bit_vector) requires 0 <= x < 256, 0 <= y < 256, 0 <= z < 256;
}
pub proof fn lemma_dec_bits(a: u8, b: u8, c: u8, d: u8)
    ensures
        ((((a as i32) << 2i32) | (((b as i32) & 48i32) >> 4i32)) % 256) as u8 == dec1(a as int, b as int),
        (((((b as i32) & 15i32) << 4i32) | (((c as i32) & 60i32) >> 2i32)) % 256) as u8 == dec2(b as int, c as int),
        (((((c as i32) & 3i32) << 6i32) | (d as i32)) % 256) as u8 == dec3(c as int, d as int),
        ((a as i32) << 2i32) | (((b as i32) & 48i32) >> 4i32) >= 0,
        (((b as i32) & 15i32) << 4i32) | (((c as i32) & 60i32) >> 2i32) >= 0,
        (((c as i32) & 3i32) << 6i32) | (d as i32) >= 0,
{
    let (x, y, z, w) = (a as i32, b as i32, c as i32, d as i32);
    assert((((x << 2i32) | ((y & 48i32) >> 4i32)) & 255i32) == ((x << 2i32) & 255i32) + (y & 63i32) / 16
       && x << 2i32 == x * 4
       && ((y & 15i32) << 4i32) | ((z & 60i32) >> 2i32) == (y & 15i32) * 16 + (z & 63i32) / 4
       && 0 <= (y & 15i32) <= 15 && 0 <= (z & 63i32) <= 63 && 0 <= (y & 63i32) <= 63
       && 0 <= ((x << 2i32) | ((y & 48i32) >> 4i32)) < 0x10000i32
       && 0 <= (((z & 3i32) << 6i32) | w) < 256
       && (z & 3i32) << 6i32 == (z & 3i32) * 64) by(bit_vector) requires 0 <= x < 256, 0 <= y < 256, 0 <= z < 256, 0 <= w < 256;
    let p = (x << 2i32) | ((y & 48i32) >> 4i32);
    let q = (x * 4) as i32;
    assert(p & 255i32 == p % 256) by(bit_vector) requires 0 <= p < 0x10000;
    assert(q & 255i32 == q % 256) by(bit_vector) requires 0 <= q < 0x10000;
    assert(y & 15i32 == y % 16 && y & 63i32 == y % 64) by(bit_vector) requires 0 <= y < 256;
    assert(z & 63i32 == z % 64 && z & 3i32 == z % 4) by(bit_vector) requires 0 <= z < 256;
}
pub proof fn lemma_strip_concat(a: Seq<u8>, b: Seq<u8>)
    ensures strip_ws(a + b) == strip_ws(a) + strip_ws(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(strip_ws(a) + strip_ws(b) =~= strip_ws(b)); }
    else {
        let t = a.subrange(1, a.len() as int);
        assert((a + b).subrange(1, (a + b).len() as int) =~= t + b);
        lemma_strip_concat(t, b);
        assert(strip_ws(a + b) =~= strip_ws(a) + strip_ws(b));
    }
}
pub proof fn lemma_strip_nows(a: Seq<u8>)
    requires forall|k: int| 0 <= k < a.len() ==> !is_ws(a[k]) ensures strip_ws(a) == a decreases a.len()
{
    if a.len() > 0 { let t = a.subrange(1, a.len() as int);
        assert forall|k: int| 0 <= k < t.len() implies !is_ws(t[k]) by { assert(t[k] == a[k + 1]); }
        lemma_strip_nows(t); assert(seq![a[0]] + t =~= a); }
}
pub proof fn lemma_group_nows(g: Seq<u8>)
    requires 1 <= g.len() <= 3
    ensures b64_group(g).len() == 4, forall|k: int| 0 <= k < 4 ==> !is_ws(#[trigger] b64_group(g)[k]), strip_ws(b64_group(g)) == b64_group(g)
{
    let r = b64_group(g);
    assert(r.len() == 4);
    assert forall|k: int| 0 <= k < 4 implies !is_ws(#[trigger] r[k]) by { assert(k == 0 || k == 1 || k == 2 || k == 3); }
    lemma_strip_nows(r);
}
// RFC 2045/4648: line breaks are transparent
pub proof fn lemma_enc_strip(d: Seq<u8>, cut: bool, mx: int, col: int)
    ensures strip_ws(b64_enc(d, cut, mx, col)) == b64_std(d) decreases d.len()
{
    if d.len() > 0 {
        let g = b64_group(head3(d));
        lemma_group_nows(head3(d));
        if b64_breaks(cut, mx, col) {
            let r = b64_enc(rest3(d), cut, mx, 0);
            lemma_enc_strip(rest3(d), cut, mx, 0);
            lemma_strip_concat(g, seq![13u8, 10u8] + r);
            lemma_strip_concat(seq![13u8, 10u8], r);
            let n = seq![13u8, 10u8];
            assert(n.subrange(1, 2).subrange(1, 1) =~= Seq::<u8>::empty());
            assert(strip_ws(n.subrange(1, 2)) =~= Seq::<u8>::empty()) by { assert(n.subrange(1,2)[0] == 10u8); reveal_with_fuel(strip_ws, 3); }
            assert(strip_ws(n) =~= Seq::<u8>::empty());
            assert(strip_ws(n) + strip_ws(r) =~= strip_ws(r));
        } else {
            lemma_enc_strip(rest3(d), cut, mx, col + 4);
            lemma_strip_concat(g, b64_enc(rest3(d), cut, mx, col + 4));
        }
    } else { assert(strip_ws(Seq::<u8>::empty()) =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_tables()
    ensures
        forall|v: int| 0 <= v < 64 ==> #[trigger] tb_sm_alphabet(v) == b64_alpha(v) as int,
        tb_sm_alphabet(64) == 61,
        forall|v: int| 0 <= v < 64 ==> dval(#[trigger] b64_alpha(v)) == v,
        forall|v: int| 0 <= v < 64 ==> #[trigger] b64_alpha(v) != 61u8,
{ }
pub closed spec fn bor_ok() -> bool { true }
pub proof fn lemma_bor(c: int, d: int) requires 0 <= c < 4, 0 <= d < 64 ensures bor(c * 64, d) == c * 64 + d
{ let x = (c * 64) as i32; let y = d as i32; 
  let k = c as i32;
  assert(x == 0 || x == 64 || x == 128 || x == 192);
  assert(x | y == x + y) by(bit_vector) requires x == 0 || x == 64 || x == 128 || x == 192, 0 <= y < 64; }
pub proof fn lemma_g(a: int, b: int) requires 0 <= a < 256, 0 <= b < 256 ensures (a / 4 * 4) % 256 + ((a % 4) * 16 + b / 16) % 64 / 16 == a, (a / 4 * 4) % 256 + ((a % 4) * 16) % 64 / 16 == a { }
pub proof fn lemma_g2(b: int, c: int) requires 0 <= b < 256, 0 <= c < 256 ensures forall|a: int| 0 <= a < 4 ==> ((#[trigger] (a * 16) + b / 16) % 16) * 16 + ((b % 16) * 4 + c / 64) % 64 / 4 == b, forall|a: int| 0 <= a < 4 ==> ((#[trigger] (a * 16) + b / 16) % 16) * 16 + ((b % 16) * 4) % 64 / 4 == b { }
pub proof fn lemma_g3(b: int, c: int) requires 0 <= b < 256, 0 <= c < 256 ensures (((b % 16) * 4 + c / 64) % 4) * 64 + c % 64 == c { }
// the round trip, over the two contracts
#[verifier::spinoff_prover] #[verifier::rlimit(100)]
pub proof fn lemma_b64_roundtrip(d: Seq<u8>)
    ensures b64_dec(b64_std(d)) == d decreases d.len()
{
    if d.len() > 0 {
        lemma_tables();
        let h = head3(d); let r = rest3(d);
        let e = b64_std(d);
        assert(e =~= b64_group(h) + b64_std(r));
        lemma_b64_roundtrip(r);
        let g = b64_group(h);
        assert(g.len() == 4);
        assert(e[0] == g[0] && e[1] == g[1] && e[2] == g[2] && e[3] == g[3]);
        assert(e.subrange(4, e.len() as int) =~= b64_std(r));
        let a = h[0] as int;
        if h.len() == 1 {
            lemma_g(a, 0);
            assert(b64_dec(e) =~= d);
        } else if h.len() == 2 {
            let b = h[1] as int;
            lemma_g(a, b); lemma_g2(b, 0);
            assert(b64_dec(e) =~= d);
        } else {
            let b = h[1] as int; let c = h[2] as int;
            lemma_g(a, b); lemma_g2(b, c); lemma_g3(b, c);
            lemma_bor(((b % 16) * 4 + c / 64) % 4, c % 64);
            assert(seq![h[0], h[1], h[2]] + r =~= d);
            assert(b64_dec(e) =~= d);
        }
    } else { assert(b64_dec(b64_std(d)) =~= d); }
}
// PROPERTY: decoding what the encoder wrote (any line length option) gives back the data
pub proof fn property_roundtrip(d: Seq<u8>, cut: bool, mx: int)
    ensures b64_dec(strip_ws(b64_enc(d, cut, mx, 0))) == d
{ lemma_enc_strip(d, cut, mx, 0); lemma_b64_roundtrip(d); }

// line structure: no line longer than the limit
pub open spec fn lines_ok(s: Seq<u8>, col: int, lim: int) -> bool decreases s.len() {
    if s.len() == 0 { col <= lim }
    else if s[0] == 13 { col <= lim && s.len() >= 2 && s[1] == 10 && lines_ok(s.subrange(2, s.len() as int), 0, lim) }
    else { s[0] != 10 && col + 1 <= lim && lines_ok(s.subrange(1, s.len() as int), col + 1, lim) }
}
pub proof fn lemma_lines_push(a: Seq<u8>, b: Seq<u8>, col: int, lim: int)
    requires forall|k: int| 0 <= k < a.len() ==> a[k] != 13 && a[k] != 10, col + a.len() <= lim, lines_ok(b, col + a.len(), lim)
    ensures lines_ok(a + b, col, lim) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        let t = a.subrange(1, a.len() as int);
        assert((a + b).subrange(1, (a + b).len() as int) =~= t + b);
        assert forall|k: int| 0 <= k < t.len() implies t[k] != 13 && t[k] != 10 by { assert(t[k] == a[k + 1]); }
        lemma_lines_push(t, b, col + 1, lim);
    }
}
// PROPERTY: every output line fits the limit (the limit itself is at most 76 characters)
pub proof fn property_line_length(d: Seq<u8>, mx: int, col: int)
    requires 4 <= mx, 0 <= col, col == 0 || col + 6 < mx
    ensures lines_ok(b64_enc(d, true, mx, col), col, mx) decreases d.len()
{
    if d.len() > 0 {
        let g = b64_group(head3(d));
        lemma_group_nows(head3(d));
        assert forall|k: int| 0 <= k < g.len() implies g[k] != 13 && g[k] != 10 by { assert(!is_ws(b64_group(head3(d))[k])); }
        if b64_breaks(true, mx, col) {
            property_line_length(rest3(d), mx, 0);
            let r = b64_enc(rest3(d), true, mx, 0);
            let x = seq![13u8, 10u8] + r;
            assert(x.subrange(2, x.len() as int) =~= r);
            lemma_lines_push(g, x, col, mx);
        } else {
            property_line_length(rest3(d), mx, col + 4);
            lemma_lines_push(g, b64_enc(rest3(d), true, mx, col + 4), col, mx);
        }
    }
}
pub open spec fn b64_mx(p: Props) -> int { let l = prop_usize_or(p, sPROP_maxlinelength(), NPOS); if l < 76 { l as int } else { 76 } }
pub open spec fn b64_cut(p: Props) -> bool { prop_usize_or(p, sPROP_maxlinelength(), NPOS) != NPOS }

@fn vmime::utility::encoder::b64Encoder::encode as b64_encode
@isolate
@requires
    old(in_).wf(),
@ensures
    final(out).data() == old(out).data() + b64_enc(old(in_).data(), b64_cut(old(this).props), b64_mx(old(this).props), 0),
@hint start
    let ghost d0 = in_.data();
    let ghost goal = out.data() + b64_enc(d0, b64_cut(this.props), b64_mx(this.props), 0);
    proof { lemma_tables(); assert(d0.subrange(0, d0.len() as int) =~= d0); }
@loop 1 xinvariant
    out.data() + b64_enc(unread(in_, bufferLength as int, bufferPos as int), cutLines, maxLineLength as int, curCol as int) == goal,
    curCol <= 4 * (d0.len() - unread(in_, bufferLength as int, bufferPos as int).len()),
@loop 1 invariant
    in_.data() == d0,
    cutLines == b64_cut(this.props), maxLineLength as int == b64_mx(this.props),
    buffer.len() == 65536, bytes.len() == 3, output.len() == 4,
    buf_sync(in_, buffer@, bufferLength as int, bufferPos as int),
@loop 1 ensures
    out.data() == goal,
@loop 1 decreases
    unread(in_, bufferLength as int, bufferPos as int).len()
@hint loop 1 exit
    assert(out.data() + b64_enc(unread(in_, bufferLength as int, bufferPos as int), cutLines, maxLineLength as int, curCol as int) =~= out.data());
@hint loop 1 break
    assert(out.data() + b64_enc(unread(in_, bufferLength as int, bufferPos as int), cutLines, maxLineLength as int, curCol as int) =~= out.data());
@hint loop 2 pre
    let ghost u0 = unread(in_, bufferLength as int, bufferPos as int);
    let ghost o0 = out.data();
    assert(bytes@.subrange(0, 0) + u0 =~= u0);
@loop 2 invariant
    in_.data() == d0, bytes.len() == 3, buffer.len() == 65536, buf_sync(in_, buffer@, bufferLength as int, bufferPos as int),
    0 <= count <= 3, count >= 1 || bufferPos < bufferLength,
    bytes@.subrange(0, count as int) + unread(in_, bufferLength as int, bufferPos as int) == u0,
@loop 2 decreases
    3 - count
@hint loop 2 begin
    let ghost b1 = bytes@; let ghost u1 = unread(in_, bufferLength as int, bufferPos as int);
@hint loop 2 end
    assert(u1 =~= seq![u1[0]] + unread(in_, bufferLength as int, bufferPos as int));
    assert(bytes@.subrange(0, count as int) =~= b1.subrange(0, count as int - 1).push(u1[0]));
    assert(bytes@.subrange(0, count as int) + unread(in_, bufferLength as int, bufferPos as int) =~= b1.subrange(0, count as int - 1) + u1);
@loop 3 invariant
    in_.data() == d0, bytes.len() == 3, buffer.len() == 65536, buf_sync(in_, buffer@, bufferLength as int, bufferPos as int),
    1 <= count <= 3,
    bytes@.subrange(0, count as int) + unread(in_, bufferLength as int, bufferPos as int) == u0,
    count == 3 || bufferPos >= bufferLength,
@loop 3 ensures
    count == 3 || unread(in_, bufferLength as int, bufferPos as int).len() == 0,
@loop 3 decreases
    3 - count
@loop 4 invariant
    in_.data() == d0, bytes.len() == 3, buffer.len() == 65536, buf_sync(in_, buffer@, bufferLength as int, bufferPos as int),
    1 <= count <= 3,
    bytes@.subrange(0, count as int) + unread(in_, bufferLength as int, bufferPos as int) == u0,
@loop 4 decreases
    3 - count
@hint loop 4 begin
    let ghost b1 = bytes@; let ghost u1 = unread(in_, bufferLength as int, bufferPos as int);
@hint loop 4 end
    assert(u1 =~= seq![u1[0]] + unread(in_, bufferLength as int, bufferPos as int));
    assert(bytes@.subrange(0, count as int) =~= b1.subrange(0, count as int - 1).push(u1[0]));
    assert(bytes@.subrange(0, count as int) + unread(in_, bufferLength as int, bufferPos as int) =~= b1.subrange(0, count as int - 1) + u1);
@hint loop 3 post
    proof {
        assert(head3(u0) =~= bytes@.subrange(0, count as int));
        assert(rest3(u0) =~= unread(in_, bufferLength as int, bufferPos as int));
        lemma_enc_bits(bytes@[0], bytes@[1], bytes@[2]);
    }
@hint loop 1 end
    proof {
        let r = unread(in_, bufferLength as int, bufferPos as int);
        let g = b64_group(head3(u0));
        assert(output@.subrange(0, 4) =~= g);
        assert(out.data() + b64_enc(r, cutLines, maxLineLength as int, curCol as int) =~= o0 + b64_enc(u0, cutLines, maxLineLength as int, curCol0 as int));
    }
@hint loop 1 begin
    let ghost curCol0 = curCol;

@fn vmime::utility::encoder::b64Encoder::decode as b64_decode
@isolate
@requires
    old(in_).wf(),
@ensures
    final(out).data() == old(out).data() + b64_dec(strip_ws(old(in_).data())),
@hint start
    let ghost d0 = in_.data();
    let ghost goal = out.data() + b64_dec(strip_ws(d0));
    proof { lemma_tables(); assert(d0.subrange(0, d0.len() as int) =~= d0); }
@loop 1 invariant
    in_.data() == d0,
    buffer.len() == 16384, bytes.len() == 4, output.len() == 3,
    buf_sync(in_, buffer@, bufferLength as int, bufferPos as int),
@loop 1 xinvariant
    out.data() + b64_dec(strip_ws(unread(in_, bufferLength as int, bufferPos as int))) == goal,
@loop 1 ensures
    out.data() == goal,
@loop 1 decreases
    unread(in_, bufferLength as int, bufferPos as int).len()
@hint loop 1 exit
    assert(out.data() + b64_dec(strip_ws(unread(in_, bufferLength as int, bufferPos as int))) =~= out.data());
@hint loop 2 pre
    let ghost u0 = unread(in_, bufferLength as int, bufferPos as int);
    let ghost o0 = out.data();
    assert(bytes@.subrange(0, 0) + strip_ws(u0) =~= strip_ws(u0));
@loop 2 invariant
    in_.data() == d0, bytes.len() == 4, buffer.len() == 16384, buf_sync(in_, buffer@, bufferLength as int, bufferPos as int),
    0 <= count <= 4, forall|k: int| count <= k < 4 ==> bytes@[k] == 61,
    bytes@.subrange(0, count as int) + strip_ws(unread(in_, bufferLength as int, bufferPos as int)) == strip_ws(u0),
    unread(in_, bufferLength as int, bufferPos as int).len() < u0.len() || bufferPos < bufferLength,
    unread(in_, bufferLength as int, bufferPos as int).len() <= u0.len(),
@loop 2 decreases
    bufferLength - bufferPos
@hint loop 2 begin
    let ghost b1 = bytes@; let ghost u1 = unread(in_, bufferLength as int, bufferPos as int); let ghost c1g = count as int;
@hint loop 2 end
    assert(u1.subrange(1, u1.len() as int) =~= unread(in_, bufferLength as int, bufferPos as int));
    assert(count > c1g ==> bytes@.subrange(0, count as int) =~= b1.subrange(0, c1g).push(u1[0]));
    assert(count == c1g ==> bytes@ =~= b1);
    assert(bytes@.subrange(0, count as int) + strip_ws(unread(in_, bufferLength as int, bufferPos as int)) =~= b1.subrange(0, c1g) + strip_ws(u1));
@loop 3 invariant
    in_.data() == d0, bytes.len() == 4, buffer.len() == 16384, buf_sync(in_, buffer@, bufferLength as int, bufferPos as int),
    0 <= count <= 4, forall|k: int| count <= k < 4 ==> bytes@[k] == 61,
    bytes@.subrange(0, count as int) + strip_ws(unread(in_, bufferLength as int, bufferPos as int)) == strip_ws(u0),
    unread(in_, bufferLength as int, bufferPos as int).len() < u0.len(),
    count == 4 || bufferPos >= bufferLength,
@loop 3 ensures
    count == 4 || unread(in_, bufferLength as int, bufferPos as int).len() == 0,
@loop 3 decreases
    d0.len() - in_.pos(), (if in_.hit() { 0int } else { 1int })
@loop 4 invariant
    in_.data() == d0, bytes.len() == 4, buffer.len() == 16384, buf_sync(in_, buffer@, bufferLength as int, bufferPos as int),
    0 <= count <= 4, forall|k: int| count <= k < 4 ==> bytes@[k] == 61,
    bytes@.subrange(0, count as int) + strip_ws(unread(in_, bufferLength as int, bufferPos as int)) == strip_ws(u0),
    unread(in_, bufferLength as int, bufferPos as int).len() < u0.len(),
@loop 4 decreases
    bufferLength - bufferPos
@hint loop 4 begin
    let ghost b1 = bytes@; let ghost u1 = unread(in_, bufferLength as int, bufferPos as int); let ghost c1g = count as int;
@hint loop 4 end
    assert(u1.subrange(1, u1.len() as int) =~= unread(in_, bufferLength as int, bufferPos as int));
    assert(count > c1g ==> bytes@.subrange(0, count as int) =~= b1.subrange(0, c1g).push(u1[0]));
    assert(count == c1g ==> bytes@ =~= b1);
    assert(bytes@.subrange(0, count as int) + strip_ws(unread(in_, bufferLength as int, bufferPos as int)) =~= b1.subrange(0, c1g) + strip_ws(u1));
@hint after ~let mut c1: u8 = bytes~
    let ghost st = strip_ws(u0); let ghost rs = strip_ws(unread(in_, bufferLength as int, bufferPos as int));
    proof {
        assert(bytes@.subrange(0, 4) =~= bytes@);
        assert(st == bytes@ + rs);
        assert(st[0] == bytes@[0] && st[1] == bytes@[1] && st[2] == bytes@[2] && st[3] == bytes@[3]);
        assert(st.subrange(4, st.len() as int) =~= rs);
        lemma_dec_bits(dval(st[0]) as u8, dval(st[1]) as u8, dval(st[2]) as u8, dval(st[3]) as u8);
    }
@hint loop 1 break
    assert(out.data() =~= goal);
@hint loop 1 end
    assert(out.data() + b64_dec(rs) =~= goal);
