// Lemmas on digit strings that mirvc uses when it reasons about the integer a digit string denotes (mirvc/sym.py, State.const).
// A digit string is a sequence of digits 0..=9; `value` is what u64::from_str computes on it when the result fits 64 bits.
use vstd::prelude::*;

verus! {

pub open spec fn digits(s: Seq<nat>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> s[i] <= 9
}

pub open spec fn zeros(s: Seq<nat>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> s[i] == 0
}

pub open spec fn value(s: Seq<nat>) -> nat
    decreases s.len(),
{
    if s.len() == 0 {
        0
    } else {
        value(s.drop_last()) * 10 + s.last()
    }
}

// num_zero: the value is 0 exactly when all digits are 0 (the empty string included)
pub proof fn num_zero(s: Seq<nat>)
    ensures
        value(s) == 0 <==> zeros(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        num_zero(p);
        assert(s =~= p.push(s.last()));
        if zeros(s) {
            assert(zeros(p));
        }
        if value(s) == 0 {
            assert(value(p) == 0);
            assert(s.last() == 0);
            assert forall|i: int| 0 <= i < s.len() implies s[i] == 0 by {
                if i < p.len() {
                    assert(s[i] == p[i]);
                }
            }
        }
    }
}

// num_prefix: a prefix denotes at most as much, and if the prefix is positive so is the whole
pub proof fn num_prefix(a: Seq<nat>, b: Seq<nat>)
    ensures
        value(a) <= value(a + b),
        value(a) >= 1 ==> value(a + b) >= 1,
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        num_prefix(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
    }
}

// num_append_zeros: appending zeros keeps 0
pub proof fn num_append_zeros(a: Seq<nat>, z: Seq<nat>)
    requires
        zeros(z),
        value(a) == 0,
    ensures
        value(a + z) == 0,
{
    num_zero(a);
    num_zero(a + z);
    assert(zeros(a + z));
}

// num_inj: a numeral without leading zeros is determined by its value (used for integers printed by Display)
pub open spec fn plain(s: Seq<nat>) -> bool {
    digits(s) && s.len() >= 1 && (s.len() > 1 ==> s[0] != 0)
}

pub proof fn num_lower(s: Seq<nat>)
    requires
        digits(s),
        s.len() >= 1,
        s[0] != 0,
    ensures
        value(s) >= 1,
{
    num_zero(s);
}

pub proof fn num_inj(a: Seq<nat>, b: Seq<nat>)
    requires
        plain(a),
        plain(b),
        value(a) == value(b),
    ensures
        a =~= b,
    decreases a.len(),
{
    let (p, q) = (a.drop_last(), b.drop_last());
    assert(a.last() <= 9 && b.last() <= 9);
    assert(value(p) == value(q) && a.last() == b.last()) by (nonlinear_arith)
        requires
            value(a) == value(p) * 10 + a.last(),
            value(b) == value(q) * 10 + b.last(),
            value(a) == value(b),
            a.last() <= 9,
            b.last() <= 9,
    ;
    if a.len() == 1 {
        assert(value(p) == 0);
        if b.len() > 1 {
            assert(q[0] == b[0]);
            assert(digits(q)) by {
                assert forall|i: int| 0 <= i < q.len() implies q[i] <= 9 by { assert(q[i] == b[i]); }
            }
            num_lower(q);
        }
    } else if b.len() == 1 {
        assert(value(q) == 0);
        assert(p[0] == a[0]);
        assert(digits(p)) by {
            assert forall|i: int| 0 <= i < p.len() implies p[i] <= 9 by { assert(p[i] == a[i]); }
        }
        num_lower(p);
    } else {
        assert(p[0] == a[0]);
        assert(q[0] == b[0]);
        assert(digits(p)) by {
            assert forall|i: int| 0 <= i < p.len() implies p[i] <= 9 by { assert(p[i] == a[i]); }
        }
        assert(digits(q)) by {
            assert forall|i: int| 0 <= i < q.len() implies q[i] <= 9 by { assert(q[i] == b[i]); }
        }
        num_inj(p, q);
        assert(a =~= p.push(a.last()));
        assert(b =~= q.push(b.last()));
    }
}

} // verus!
fn main() {}
