//@mod sorting
// Ghost lemmas: a sorted permutation of the items of a set or map.
use vstd::prelude::*;
use crate::vx::*;
verus! {
pub open spec fn strictly_sorted(names: Seq<Seq<char>>) -> bool {
    forall|i: int, j: int| #![trigger names[i], names[j]] 0 <= i < j < names.len() ==> str_lt(names[i], names[j])
}
/// the names of the set, in order: there is one such sequence
pub open spec fn sorted_names(s: Set<Seq<char>>, names: Seq<Seq<char>>) -> bool {
    strictly_sorted(names) && forall|k: Seq<char>| #[trigger] s.contains(k) <==> names.contains(k)
}
pub open spec fn key_seq<'a, K: Key<KV = Seq<char>>, V>(t: Seq<(&'a K, &'a V)>) -> Seq<Seq<char>> { t.map_values(|x: (&'a K, &'a V)| x.0.kv()) }
pub proof fn lemma_perm_map<'a, K: Key<KV = Seq<char>>, V>(m: Map<Seq<char>, V>, s: Seq<(&'a K, &'a V)>, t: Seq<(&'a K, &'a V)>)
    requires
        map_items(m, s), is_perm(s, t),
        forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() ==> str_le(t[i].0.kv(), t[j].0.kv()),
    ensures
        map_items(m, t), sorted_names(m.dom(), key_seq(t)),
{
    let p = choose|p: Seq<int>| #[trigger] perm_by(s, t, p);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0.kv() != (#[trigger] t[j]).0.kv() by {
        assert(t[i] == s[p[i]] && t[j] == s[p[j]]);
        if p[i] < p[j] { assert(s[p[i]].0.kv() != s[p[j]].0.kv()); } else { assert(s[p[j]].0.kv() != s[p[i]].0.kv()); }
    }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.kv() == k by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k;
        assert(p.contains(i));
        let q = choose|q: int| 0 <= q < p.len() && p[q] == i;
        assert(t[q] == s[p[q]]);
    }
    assert forall|i: int| 0 <= i < t.len() implies m.contains_key((#[trigger] t[i]).0.kv()) && m[t[i].0.kv()] == *t[i].1 by {
        assert(t[i] == s[p[i]]);
    }
    let ks = key_seq(t);
    assert forall|i: int, j: int| #![trigger ks[i], ks[j]] 0 <= i < j < ks.len() implies str_lt(ks[i], ks[j]) by {
        assert(str_le(t[i].0.kv(), t[j].0.kv()));
        assert(t[i].0.kv() != t[j].0.kv());
    }
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) <==> ks.contains(k) by {
        if m.dom().contains(k) {
            assert(m.contains_key(k));
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.kv() == k;
            assert(ks[i] == k);
        }
        if ks.contains(k) {
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
            assert(t[i].0.kv() == k);
        }
    }
}
pub open spec fn names_seq<K: Key<KV = Seq<char>>>(t: Seq<K>) -> Seq<Seq<char>> { t.map_values(|x: K| x.kv()) }
/// the names of a set, listed once each in any order, and then sorted
pub proof fn lemma_perm_set<K: Key<KV = Seq<char>>>(m: Set<Seq<char>>, s: Seq<K>, t: Seq<K>)
    requires
        set_items_owned(m, s), is_perm(s, t),
        forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() ==> str_le(t[i].kv(), t[j].kv()),
    ensures
        set_items_owned(m, t), sorted_names(m, names_seq(t)),
{
    let p = choose|p: Seq<int>| #[trigger] perm_by(s, t, p);
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).kv() != (#[trigger] t[j]).kv() by {
        assert(t[i] == s[p[i]] && t[j] == s[p[j]]);
        if p[i] < p[j] { assert(s[p[i]].kv() != s[p[j]].kv()); } else { assert(s[p[j]].kv() != s[p[i]].kv()); }
    }
    assert forall|k: Seq<char>| #[trigger] m.contains(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).kv() == k by {
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).kv() == k;
        assert(p.contains(i));
        let q = choose|q: int| 0 <= q < p.len() && p[q] == i;
        assert(t[q] == s[p[q]]);
    }
    assert forall|i: int| 0 <= i < t.len() implies m.contains((#[trigger] t[i]).kv()) by { assert(t[i] == s[p[i]]); }
    let ks = names_seq(t);
    assert forall|i: int, j: int| #![trigger ks[i], ks[j]] 0 <= i < j < ks.len() implies str_lt(ks[i], ks[j]) by {
        assert(str_le(t[i].kv(), t[j].kv()));
        assert(t[i].kv() != t[j].kv());
    }
    assert forall|k: Seq<char>| #[trigger] m.contains(k) <==> ks.contains(k) by {
        if m.contains(k) {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).kv() == k;
            assert(ks[i] == k);
        }
        if ks.contains(k) {
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
            assert(t[i].kv() == k);
        }
    }
}
pub open spec fn sorted_le(names: Seq<Seq<char>>) -> bool {
    forall|i: int, j: int| #![trigger names[i], names[j]] 0 <= i < j < names.len() ==> str_le(names[i], names[j])
}
pub proof fn lemma_perm_texts<K: Txt>(s: Seq<K>, t: Seq<K>)
    requires is_perm(s, t)
    ensures is_perm(texts(s), texts(t))
{
    let p = choose|p: Seq<int>| #[trigger] perm_by(s, t, p);
    assert(perm_by(texts(s), texts(t), p));
}
/// C11: two sorted sequences of the names of one set are the same
pub proof fn lemma_sorted_unique(s: Set<Seq<char>>, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires sorted_names(s, a), sorted_names(s, b)
    ensures a == b
    decreases a.len()
{
    broadcast use axiom_str_lt_irreflexive;
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(s.contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        let x = a.last();
        assert(a.contains(x)); assert(s.contains(x)); assert(b.contains(x));
        let y = b.last();
        assert(b.len() > 0);
        assert(b.contains(y)); assert(s.contains(y)); assert(a.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        if x != y {
            assert(str_lt(b[i], b[b.len() - 1]));
            assert(str_lt(a[j], a[a.len() - 1]));
            axiom_str_lt_transitive(x, y, x);
        }
        let s2 = s.remove(x);
        let a2 = a.drop_last();
        let b2 = b.drop_last();
        assert forall|k: Seq<char>| #[trigger] s2.contains(k) <==> a2.contains(k) by {
            if s2.contains(k) { assert(a.contains(k)); let q = choose|q: int| 0 <= q < a.len() && a[q] == k; assert(a2[q] == k); }
            if a2.contains(k) { let q = choose|q: int| 0 <= q < a2.len() && a2[q] == k; assert(a[q] == k); assert(a.contains(k)); assert(str_lt(a[q], a[a.len() - 1])); }
        }
        assert forall|k: Seq<char>| #[trigger] s2.contains(k) <==> b2.contains(k) by {
            if s2.contains(k) { assert(b.contains(k)); let q = choose|q: int| 0 <= q < b.len() && b[q] == k; assert(b2[q] == k); }
            if b2.contains(k) { let q = choose|q: int| 0 <= q < b2.len() && b2[q] == k; assert(b[q] == k); assert(b.contains(k)); assert(str_lt(b[q], b[b.len() - 1])); }
        }
        assert(strictly_sorted(a2)) by { assert forall|i: int, j: int| #![trigger a2[i], a2[j]] 0 <= i < j < a2.len() implies str_lt(a2[i], a2[j]) by { assert(str_lt(a[i], a[j])); } }
        assert(strictly_sorted(b2)) by { assert forall|i: int, j: int| #![trigger b2[i], b2[j]] 0 <= i < j < b2.len() implies str_lt(b2[i], b2[j]) by { assert(str_lt(b[i], b[j])); } }
        lemma_sorted_unique(s2, a2, b2);
        assert(a =~= a2.push(x));
        assert(b =~= b2.push(y));
    }
}
}
