"""Verified (not trusted) helper functions for C++ integer conversions and arithmetic."""
INT = {'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True),
       'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'usize': (64, False)}
def gen():
    o = []
    for a, (ab, asg) in INT.items():
        for b, (bb, bs) in INT.items():
            if a == b or (bb > ab and (bs or not asg)):
                continue
            m = 1 << bb
            lo = -(1 << (bb - 1)) if bs else 0
            hi = (1 << (bb - 1)) - 1 if bs else m - 1
            spec = 'r as int == (x as int) %% %d' % m if not bs else \
                'r as int == (if (x as int) %% %d < %d { (x as int) %% %d } else { (x as int) %% %d - %d })' % (m, m // 2, m, m, m)
            o.append('pub fn %s_to_%s(x: %s) -> (r: %s)\n    ensures %s, (%d <= x as int && x as int <= %d) ==> r as int == x as int,\n{' % (a, b, a, b, spec, lo, hi))
            o.append('    let y: u128 = (x as i128 + 18446744073709551616i128) as u128;')
            o.append('    let z: u128 = y %% %du128;' % m)
            if bs:
                o.append('    if z >= %du128 { ((z as i128) - %di128) as %s } else { z as %s }' % (m // 2, m, b, b))
            else:
                o.append('    z as %s' % b)
            o.append('}')
    for t, (n, sg) in INT.items():
        if not sg and t in ('usize', 'u32'):
            M = 1 << n
            o.append('pub fn uadd_%s(a: %s, b: %s) -> (r: %s) ensures r as int == (if a + b < %d { a + b } else { a + b - %d }) { a.wrapping_add(b) }' % (t, t, t, t, M, M))
            o.append('pub fn usub_%s(a: %s, b: %s) -> (r: %s) ensures r as int == (if a >= b { a - b } else { a - b + %d }) { a.wrapping_sub(b) }' % (t, t, t, t, M))
            o.append('pub fn umul_%s(a: %s, b: %s) -> (r: %s) ensures r as int == ((a as int) * (b as int)) %% %d, (a as int) * (b as int) < %d ==> r as int == (a as int) * (b as int) { \n'
                     '    proof { assert(0 <= (a as int) * (b as int) <= %d * %d) by(nonlinear_arith) requires 0 <= a as int <= %d, 0 <= b as int <= %d; }\n'
                     '    ((a as u128 * b as u128) %% %du128) as %s }' % (t, t, t, t, M, M, M - 1, M - 1, M - 1, M - 1, M, t))
        for nm, op in (('min', '<='), ('max', '>=')):
            o.append('pub fn %s_%s(a: %s, b: %s) -> (r: %s) ensures r == (if a %s b { a } else { b }) { if a %s b { a } else { b } }' % (nm, t, t, t, t, op, op))
    for t in ('i32', 'i64'):
        o.append('''pub fn sdiv_%(t)s(a: %(t)s, b: %(t)s) -> (r: %(t)s)
    requires b != 0, !(a == %(t)s::MIN && b == -1),
    ensures r as int == tdiv(a as int, b as int),
{
    let x: u128 = if a >= 0 { a as u128 } else { (-(a as i128)) as u128 };
    let y: u128 = if b >= 0 { b as u128 } else { (-(b as i128)) as u128 };
    proof { lemma_div_le(x as int, y as int); }
    let q: u128 = x / y;
    if (a >= 0) == (b >= 0) {
        proof { if b < 0 && a < 0 && b != -1 { lemma_div_lt(x as int, y as int); } }
        (q as i128) as %(t)s
    } else { (-(q as i128)) as %(t)s }
}
pub fn srem_%(t)s(a: %(t)s, b: %(t)s) -> (r: %(t)s)
    requires b != 0, !(a == %(t)s::MIN && b == -1),
    ensures r as int == trem(a as int, b as int),
{
    let x: u128 = if a >= 0 { a as u128 } else { (-(a as i128)) as u128 };
    let y: u128 = if b >= 0 { b as u128 } else { (-(b as i128)) as u128 };
    let q: u128 = x %% y;
    proof { lemma_mod_le(x as int, y as int); }
    if a >= 0 { (q as i128) as %(t)s } else { (-(q as i128)) as %(t)s }
}''' % {'t': t})
        o.append('pub fn idx_%s(x: %s) -> (r: usize) requires x >= 0 ensures r as int == x as int { x as usize }' % (t, t))
    return '\n'.join(o)
if __name__ == '__main__':
    print(gen())
