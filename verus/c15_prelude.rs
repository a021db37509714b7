use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
spec fn up(v: int, a: int) -> int { ((v + a - 1) / a) * a }

/// what the property says: the smallest multiple not below v
proof fn up_is_smallest_multiple(v: int, a: int)
    requires v >= 0, a > 0,
    ensures up(v, a) >= v, up(v, a) % a == 0, forall|m: int| #![trigger m % a] m >= v && m % a == 0 ==> up(v, a) <= m,
{
    let q = (v + a - 1) / a;
    lemma_fundamental_div_mod(v + a - 1, a);
    lemma_mod_bound(v + a - 1, a);
    assert(q * a == a * q) by (nonlinear_arith);
    lemma_mod_multiples_basic(q, a);
    assert forall|m: int| #![trigger m % a] m >= v && m % a == 0 implies up(v, a) <= m by {
        lemma_fundamental_div_mod(m, a);
        let k = m / a;
        assert(m == a * k);
        if k < q {
            assert(a * k <= a * (q - 1)) by (nonlinear_arith) requires a > 0, k <= q - 1;
            assert(a * (q - 1) == a * q - a) by (nonlinear_arith);
        }
        assert(k >= q);
        assert(a * k >= a * q) by (nonlinear_arith) requires a > 0, k >= q;
    }
}
proof fn up_by_remainder(v: int, a: int)
    requires v >= 0, a > 0,
    ensures
        0 <= v % a < a,
        v % a == 0 ==> up(v, a) == v,
        v % a != 0 ==> up(v, a) == v + (a - v % a),
        up(v, a) == ((v + (a - 1)) / a) * a,
        up(v, a) == a * ((v + a - 1) / a),
        v % a == 0 ==> up(v, a) == (v / a) * a,
        v % a != 0 ==> up(v, a) == (v / a + 1) * a,
{
    lemma_fundamental_div_mod(v, a);
    lemma_mod_bound(v, a);
    let q = v / a;
    let e = v % a;
    assert((v / a) * a == a * (v / a)) by (nonlinear_arith);
    assert((q + 1) * a == a * q + a) by (nonlinear_arith);
    assert(a * ((v + a - 1) / a) == ((v + a - 1) / a) * a) by (nonlinear_arith);
    if e == 0 {
        // v + a - 1 == a * q + (a - 1)
        lemma_fundamental_div_mod_converse(v + a - 1, a, q, a - 1);
    } else {
        assert(a * (q + 1) == a * q + a) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(v + a - 1, a, q + 1, e - 1);
    }
}

