pub open spec fn blank(x: u8) -> bool { x == 32 || x == 9 }
pub open spec fn at(d: Seq<u8>, t: Seq<u8>, p: int) -> bool { 0 <= p && p + t.len() <= d.len() && d.subrange(p, p + t.len()) == t }
pub open spec fn none(d: Seq<u8>, t: Seq<u8>, a: int, z: int) -> bool { forall|k: int| a <= k < z ==> !at(d, t, k) }
pub proof fn lemma_match(d: Seq<u8>, b: Seq<u8>, t: Seq<u8>, o: int, i: int, n: int)
    requires 0 <= o, 0 <= i, t.len() >= 1, i + t.len() <= n <= b.len(), o + n <= d.len(), forall|k: int| 0 <= k < n ==> #[trigger] b[k] == d[o + k]
    ensures at(d, t, o + i) == (b[i] == t[0] && (t.len() == 1 || b.subrange(i + 1, i + t.len()) == t.subrange(1, t.len() as int)))
{
    let s = d.subrange(o + i, o + i + t.len());
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] s[k] == b[i + k] by {}
    if at(d, t, o + i) {
        assert(s[0] == t[0]);
        assert(b.subrange(i + 1, i + t.len()) =~= t.subrange(1, t.len() as int)) by { assert forall|k: int| 0 <= k < t.len() - 1 implies b[i + 1 + k] == #[trigger] t[1 + k] by { assert(s[1 + k] == t[1 + k]); } }
    }
    if b[i] == t[0] && (t.len() == 1 || b.subrange(i + 1, i + t.len()) == t.subrange(1, t.len() as int)) {
        assert(s =~= t) by { assert forall|k: int| 0 <= k < t.len() implies s[k] == t[k] by { if k > 0 { assert(b.subrange(i + 1, i + t.len())[k - 1] == b[i + k]); assert(t.subrange(1, t.len() as int)[k - 1] == t[k]); } } }
    }
}
pub proof fn lemma_at2(d: Seq<u8>, t: Seq<u8>, p: int)
    requires 0 <= p, t.len() == 2, p + 2 <= d.len()
    ensures at(d, t, p) == (d[p] == t[0] && d[p + 1] == t[1])
{ let s = d.subrange(p, p + 2); if at(d, t, p) { assert(s[0] == t[0] && s[1] == t[1]); } else if d[p] == t[0] && d[p + 1] == t[1] { assert(s =~= t); } }
pub proof fn lemma_at3(d: Seq<u8>, t: Seq<u8>, p: int)
    requires 0 <= p, t.len() == 3, p + 3 <= d.len()
    ensures at(d, t, p) == (d[p] == t[0] && d[p + 1] == t[1] && d[p + 2] == t[2])
{ let s = d.subrange(p, p + 3); if at(d, t, p) { assert(s[0] == t[0] && s[1] == t[1] && s[2] == t[2]); } else if d[p] == t[0] && d[p + 1] == t[1] && d[p + 2] == t[2] { assert(s =~= t); } }
// a delimiter: LF "--" BOUNDARY followed by white space or a dash; p is the position of BOUNDARY
pub open spec fn delim(d: Seq<u8>, t: Seq<u8>, p: int, e: int) -> bool {
    t.len() <= 2048 && 3 <= p && p + t.len() <= e && p + t.len() < d.len() && at(d, t, p) && d[p - 3] == 10 && d[p - 2] == 45 && d[p - 1] == 45 && (c_space(d[p + t.len()] as int) || d[p + t.len()] == 45)
}
pub open spec fn nodelim(d: Seq<u8>, t: Seq<u8>, a: int, z: int, e: int) -> bool { forall|k: int| a <= k < z ==> !delim(d, t, k, e) }
// where the text before a delimiter ends
pub open spec fn before(d: Seq<u8>, p: int) -> int { if p >= 4 && d[p - 4] == 13 { p - 4 } else { p - 3 } }
pub proof fn lemma_nextd(d: Seq<u8>, t: Seq<u8>, p: int, q: int, e: int)
    requires p <= q <= e, nodelim(d, t, p, q, e), q == e || delim(d, t, q, e)
    ensures nextd(d, t, p, e) == (if q < e { Some(q) } else { None::<int> })
    decreases q - p
{ reveal(nextd); if p < q { assert(!delim(d, t, p, e)); lemma_nextd(d, t, p + 1, q, e); } }
#[verifier::opaque]
pub open spec fn nextd(d: Seq<u8>, t: Seq<u8>, p: int, e: int) -> Option<int> decreases e - p { if p >= e { None } else if delim(d, t, p, e) { Some(p) } else { nextd(d, t, p + 1, e) } }
pub proof fn lemma_nextd_in(d: Seq<u8>, t: Seq<u8>, p: int, e: int)
    ensures match nextd(d, t, p, e) { Some(q) => p <= q < e && delim(d, t, q, e), None => true }
    decreases e - p
{ reveal(nextd); if p < e && !delim(d, t, p, e) { lemma_nextd_in(d, t, p + 1, e); } }
pub open spec fn isc(c: int, x: u8) -> bool { if c == 0 { blank(x) } else { x != 10 } }
#[verifier::opaque]
pub open spec fn skipc(c: int, b: Seq<u8>, p: int, e: int) -> int decreases e - p { if p < e && isc(c, b[p]) { skipc(c, b, p + 1, e) } else { p } }
pub proof fn lemma_run(c: int, b: Seq<u8>, p: int, q: int, e: int)
    requires p <= q <= e, forall|k: int| p <= k < q ==> isc(c, #[trigger] b[k]), q == e || !isc(c, b[q])
    ensures skipc(c, b, p, e) == q
    decreases q - p
{ reveal(skipc); if p < q { lemma_run(c, b, p + 1, q, e); } }
pub proof fn lemma_skip_in(c: int, b: Seq<u8>, p: int, e: int)
    requires p <= e ensures p <= skipc(c, b, p, e) <= e
    decreases e - p
{ reveal(skipc); if p < e && isc(c, b[p]) { lemma_skip_in(c, b, p + 1, e); } }
// the rest of a delimiter line: "--" if it is the last one, blanks, then the end of the line; anything else and it is no delimiter line
pub struct Line { pub end: int, pub closing: bool, pub junk: bool }
pub open spec fn dline(d: Seq<u8>, t: Seq<u8>, p: int, e: int) -> Line {
    let q0 = p + t.len();
    let closing = q0 + 1 < e && d[q0] == 45 && d[q0 + 1] == 45;
    let q = skipc(0, d, if closing { q0 + 2 } else { q0 }, e);
    if q + 1 < e && d[q] == 13 && d[q + 1] == 10 { Line { end: q + 2, closing: closing, junk: false } }
    else if q < e && d[q] == 10 { Line { end: q + 1, closing: closing, junk: false } }
    else if q == e { Line { end: e, closing: closing, junk: false } }
    else { Line { end: skipc(1, d, q, e), closing: false, junk: true } }
}
pub proof fn lemma_dline(d: Seq<u8>, t: Seq<u8>, p: int, e: int)
    requires 0 <= p, p + t.len() <= e <= d.len(), t.len() >= 1
    ensures p < dline(d, t, p, e).end <= e
{
    let q0 = p + t.len(); let closing = q0 + 1 < e && d[q0] == 45 && d[q0 + 1] == 45; let q1 = if closing { q0 + 2 } else { q0 };
    lemma_skip_in(0, d, q1, e); lemma_skip_in(1, d, skipc(0, d, q1, e), e);
}
// the parts found from a position: their ranges, the range before the first delimiter, where the rest starts, whether the last delimiter was seen
pub struct Split { pub parts: Seq<(int, int)>, pub prolog: (int, int), pub tail: int, pub closed: bool }
pub open spec fn piece(a: int, z: int) -> (int, int) { if z < a { (z, a) } else { (a, z) } }
#[verifier::opaque]
pub open spec fn split(d: Seq<u8>, t: Seq<u8>, from: int, ps: int, first: bool, e: int) -> Split decreases e - from {
    match nextd(d, t, from, e) {
        None => Split { parts: Seq::empty(), prolog: (ps, ps), tail: ps, closed: false },
        Some(p) => {
            let l = dline(d, t, p, e);
            if l.end <= from || l.end > e { Split { parts: Seq::empty(), prolog: (ps, ps), tail: ps, closed: false } }
            else if l.junk { split(d, t, l.end, ps, first, e) }
            else {
                let r = if l.closing { Split { parts: Seq::empty(), prolog: (0, 0), tail: l.end, closed: true } } else { split(d, t, l.end, l.end, false, e) };
                Split { parts: if first { r.parts } else { seq![piece(ps, before(d, p))] + r.parts }, prolog: (ps, before(d, p)), ..r }
            }
        }
    }
}
pub proof fn lemma_split(d: Seq<u8>, t: Seq<u8>, from: int, ps: int, first: bool, e: int, q: int)
    requires 0 <= from <= e <= d.len(), t.len() >= 1, from <= q <= e, nodelim(d, t, from, q, e), q == e || delim(d, t, q, e)
    ensures
        q == e ==> split(d, t, from, ps, first, e) == (Split { parts: Seq::empty(), prolog: (ps, ps), tail: ps, closed: false }),
        q < e ==> q < dline(d, t, q, e).end <= e && split(d, t, from, ps, first, e) == ({ let l = dline(d, t, q, e);
            if l.junk { split(d, t, l.end, ps, first, e) }
            else {
                let r = if l.closing { Split { parts: Seq::empty(), prolog: (0, 0), tail: l.end, closed: true } } else { split(d, t, l.end, l.end, false, e) };
                Split { parts: if first { r.parts } else { seq![piece(ps, before(d, q))] + r.parts }, prolog: (ps, before(d, q)), ..r }
            } }),
{ reveal(split); lemma_nextd(d, t, from, q, e); if q < e { lemma_dline(d, t, q, e); } }
pub open spec fn whole(d: Seq<u8>, t: Seq<u8>, a: int, e: int) -> Split { split(d, t, a, a, true, e) }
