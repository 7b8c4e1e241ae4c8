//@mod vx
// Contracts ASSUMED on std (trusted; listed in every evidence file). The bodies are the std
// operations themselves; nothing here is part of qlc.
use vstd::prelude::*;
use ::std::borrow::Borrow;
use ::std::hash::Hash;
verus! {

/// strings with the same characters are the same string
pub uninterp spec fn str_of(s: Seq<char>) -> &'static str;
pub broadcast axiom fn axiom_str_ext(a: &str)
    ensures str_of(#[trigger] a@) == a;
/// `?` converts an error with `From::from`
pub broadcast axiom fn axiom_question<T: From<E>, E>(e: E, v: T)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<T, E>(e, v) ==> call_ensures(<T as From<E>>::from, (e,), v);
/// no program has a collection of more than half the address space
pub broadcast axiom fn axiom_vec_len<T>(v: Vec<T>)
    ensures (#[trigger] vstd::std_specs::vec::spec_vec_len(&v)) <= 0x7fff_ffff_ffff_ffff;
pub broadcast group group_vx { axiom_str_ext, axiom_vec_len, axiom_set_items, axiom_map_finite, axiom_map_decreases, axiom_question }

// ---------------------------------------------------------------- keys: equality by content
pub trait Key {
    type KV;
    spec fn kv(&self) -> Self::KV;
}
impl Key for str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl Key for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl<'a, T: Key + ?Sized> Key for &'a T { type KV = T::KV; open spec fn kv(&self) -> T::KV { (**self).kv() } }
impl<A: Key, B: Key> Key for (A, B) { type KV = (A::KV, B::KV); open spec fn kv(&self) -> (A::KV, B::KV) { (self.0.kv(), self.1.kv()) } }

// ---------------------------------------------------------------- iterators, run eagerly
pub struct It<T> { pub v: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }

pub trait FromIt<T>: Sized {
    spec fn from_it(s: Seq<T>, r: Self) -> bool;
    fn build(v: Vec<T>) -> (r: Self) ensures Self::from_it(v@, r);
}
impl<T> FromIt<T> for Vec<T> {
    open spec fn from_it(s: Seq<T>, r: Self) -> bool { r@ == s }
    fn build(v: Vec<T>) -> (r: Self) { v }
}
impl<T, E> FromIt<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn from_it(s: Seq<Result<T, E>>, r: Self) -> bool {
        match r {
            Ok(v) => v@.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(v@[i]),
            Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e) && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok),
        }
    }
    #[verifier::external_body]
    fn build(v: Vec<Result<T, E>>) -> (r: Self) { v.into_iter().collect() }
}
impl<K: Key + Hash + Eq, V> FromIt<(K, V)> for HashMap<K, V> {
    open spec fn from_it(s: Seq<(K, V)>, r: Self) -> bool {
        &&& forall|k: K::KV| r@.contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k
        &&& forall|k: K::KV| #[trigger] r@.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k && r@[k] == s[i].1 && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0.kv() != k)
    }
    #[verifier::external_body]
    fn build(v: Vec<(K, V)>) -> (r: Self) { HashMap { inner: v.into_iter().collect() } }
}
impl<K: Key + Hash + Eq> FromIt<K> for HashSet<K> {
    open spec fn from_it(s: Seq<K>, r: Self) -> bool {
        forall|k: K::KV| #[trigger] r@.contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).kv() == k
    }
    #[verifier::external_body]
    fn build(v: Vec<K>) -> (r: Self) { HashSet { inner: v.into_iter().collect() } }
}

impl<T> It<T> {
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> f.ensures((self@[i],), r@[i]),
    { It { v: self.v.into_iter().map(f).collect() } }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures

            forall|k: int| 0 <= k < r@.len() ==> f.ensures((&#[trigger] r@[k],), true),
            forall|k: int| 0 <= k < r@.len() ==> 0 <= filter_from(f, self@, r@, k) < self@.len() && self@[filter_from(f, self@, r@, k)] == #[trigger] r@[k] && filter_to(f, self@, r@, filter_from(f, self@, r@, k)) == k,
            forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false) || f.ensures((&self@[i],), true) && 0 <= filter_to(f, self@, r@, i) < r@.len() && filter_from(f, self@, r@, filter_to(f, self@, r@, i)) == i && r@[filter_to(f, self@, r@, i)] == self@[i],
            forall|k: int, l: int| 0 <= k < l < r@.len() ==> #[trigger] filter_from(f, self@, r@, k) < #[trigger] filter_from(f, self@, r@, l),
    { It { v: self.v.into_iter().filter(f).collect() } }
    #[verifier::external_body]
    pub fn vx_find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures match r {
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false),
            Some(x) => exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == x && f.ensures((&x,), true) && (forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] self@[j],), false)),
        },
    { self.v.into_iter().find(f) }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: It<(usize, T)>)
        ensures r@.len() == self@.len(), r@.len() <= usize::MAX, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (i as usize, self@[i]) && i <= usize::MAX,
    { It { v: self.v.into_iter().enumerate().collect() } }
    #[verifier::external_body]
    pub fn vx_chain(self, o: It<T>) -> (r: It<T>)
        ensures r@ == self@ + o@,
    { unimplemented!() }
    pub fn vx_into_iter(self) -> (r: It<T>) ensures r == self { self }
    pub fn vx_iter(self) -> (r: It<T>) ensures r == self { self }
    pub fn collect<C: FromIt<T>>(self) -> (r: C)
        ensures C::from_it(self@, r),
    { C::build(self.v) }
    #[verifier::external_body]
    pub fn vx_last(self) -> (r: Option<T>)
        ensures r == (if self@.len() > 0 { Some(self@.last()) } else { None }),
    { self.v.into_iter().last() }
}
impl<'a, T> It<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == *self@[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_copied(self) -> (r: It<T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == *self@[i],
    { unimplemented!() }
}
pub uninterp spec fn filter_from<T, F>(f: F, s: Seq<T>, r: Seq<T>, k: int) -> int;
pub uninterp spec fn filter_to<T, F>(f: F, s: Seq<T>, r: Seq<T>, i: int) -> int;

// ---------------------------------------------------------------- what a `for` runs over
pub trait Seqable { type Item; spec fn items(&self) -> Seq<Self::Item>; fn into_vec(self) -> (r: Vec<Self::Item>) where Self: Sized ensures r@ == self.items(); }
impl<T> Seqable for It<T> { type Item = T; open spec fn items(&self) -> Seq<T> { self@ } fn into_vec(self) -> (r: Vec<T>) { self.v } }
impl<T> Seqable for Vec<T> { type Item = T; open spec fn items(&self) -> Seq<T> { self@ } fn into_vec(self) -> (r: Vec<T>) { self } }
impl<'a, T> Seqable for &'a Vec<T> {
    type Item = &'a T;
    open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn into_vec(self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
impl<'a, T> Seqable for &'a [T] {
    type Item = &'a T;
    open spec fn items(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    #[verifier::external_body]
    fn into_vec(self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
impl<'a, K: Key> Seqable for &'a HashSet<K> {
    type Item = &'a K;
    uninterp spec fn items(&self) -> Seq<&'a K>;
    #[verifier::external_body]
    fn into_vec(self) -> (r: Vec<&'a K>) { self.inner.iter().collect() }
}
pub broadcast axiom fn axiom_set_items<'a, K: Key>(s: &'a HashSet<K>)
    ensures set_items(s@, #[trigger] Seqable::items(&s));
pub open spec fn set_items<'a, K: Key>(s: Set<K::KV>, items: Seq<&'a K>) -> bool {
    &&& forall|i: int| 0 <= i < items.len() ==> s.contains((#[trigger] items[i]).kv())
    &&& forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).kv() != (#[trigger] items[j]).kv()
    &&& forall|k: K::KV| #[trigger] s.contains(k) ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).kv() == k
}
pub fn seq<S: Seqable>(s: S) -> (r: Vec<S::Item>) ensures r@ == s.items() { s.into_vec() }
impl Seqable for core::ops::Range<usize> {
    type Item = usize;
    open spec fn items(&self) -> Seq<usize> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) }
    #[verifier::external_body]
    fn into_vec(self) -> (r: Vec<usize>) { self.collect() }
}
/// a `for` loop in progress: `index` elements of `seq` have been taken
pub struct Run<T> { pub rest: Vec<T>, pub all: Ghost<Seq<T>>, pub index: Ghost<int> }
impl<T> Run<T> {
    pub open spec fn seq(&self) -> Seq<T> { self.all@ }
    pub open spec fn wf(&self) -> bool { 0 <= self.index@ <= self.all@.len() && self.rest@ == self.all@.subrange(self.index@, self.all@.len() as int) }
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf()
        ensures
            final(self).wf(), final(self).all == old(self).all,
            r is None <==> old(self).index@ == old(self).seq().len(),
            r is None ==> final(self).index == old(self).index,
            r is Some ==> final(self).index@ == old(self).index@ + 1 && r->0 == old(self).seq()[old(self).index@],
    {
        if self.rest.len() == 0 { None } else {
            let x = self.rest.remove(0);
            self.index = Ghost(self.index@ + 1);
            assert(self.rest@ =~= self.all@.subrange(self.index@, self.all@.len() as int));
            Some(x)
        }
    }
}
pub fn run<S: Seqable>(s: S) -> (r: Run<S::Item>) ensures r.wf(), r.index@ == 0, r.seq() == s.items()
{
    let ghost all = s.items();
    let v = s.into_vec();
    assert(all.subrange(0, all.len() as int) =~= all);
    Run { rest: v, all: Ghost(all), index: Ghost(0) }
}
#[verifier::external_body]
pub fn empty<T>() -> (r: It<T>) ensures r@ == Seq::<T>::empty() { It { v: Vec::new() } }

pub trait VecExt<T> {
    spec fn elems(&self) -> Seq<T>;
    fn vx_iter(&self) -> (r: It<&T>)
        ensures r@.len() == self.elems().len(), forall|i: int| #![trigger r@[i]] #![trigger self.elems()[i]] 0 <= i < r@.len() ==> *r@[i] == self.elems()[i];
    fn vx_last(&self) -> (r: Option<&T>)
        ensures r == (if self.elems().len() > 0 { Some(&self.elems().last()) } else { None });
}
impl<T> VecExt<T> for Vec<T> {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: It<&T>) { It { v: self.iter().collect() } }
    #[verifier::external_body]
    fn vx_last(&self) -> (r: Option<&T>) { self.last() }
}
impl<T> VecExt<T> for [T] {
    open spec fn elems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter(&self) -> (r: It<&T>) { It { v: self.iter().collect() } }
    #[verifier::external_body]
    fn vx_last(&self) -> (r: Option<&T>) { self.last() }
}
impl<'a> VecKey<'a> for Vec<&'a str> {
    open spec fn texts(&self) -> Seq<&'a str> { self@ }
    #[verifier::external_body]
    fn vx_contains(&self, x: &&'a str) -> (r: bool) { self.contains(x) }
}
pub trait VecKey<'a> {
    spec fn texts(&self) -> Seq<&'a str>;
    fn vx_contains(&self, x: &&'a str) -> (r: bool) ensures r == (exists|i: int| 0 <= i < self.texts().len() && (#[trigger] self.texts()[i])@ == x@);
}
pub trait VecOwn<T> {
    fn vx_into_iter(self) -> (r: It<T>) where Self: Sized;
    fn vx_extend<S: Seqable<Item = T>>(&mut self, s: S);
    fn vx_append(&mut self, o: &mut Vec<T>);
    fn vx_pop(&mut self) -> (r: Option<T>);
}
impl<T> VecOwn<T> for Vec<T> {
    fn vx_into_iter(self) -> (r: It<T>) ensures r@ == self@ { It { v: self } }
    #[verifier::external_body]
    fn vx_extend<S: Seqable<Item = T>>(&mut self, s: S) ensures final(self)@ == old(self)@ + s.items() { unimplemented!() }
    #[verifier::external_body]
    fn vx_append(&mut self, o: &mut Vec<T>) ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T>::empty() { self.append(o) }
    #[verifier::external_body]
    fn vx_pop(&mut self) -> (r: Option<T>) ensures old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(), old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@ { self.pop() }
}

// ---------------------------------------------------------------- maps and sets
pub struct HashMap<K, V> { pub inner: ::std::collections::HashMap<K, V> }
impl<K: Key, V> View for HashMap<K, V> {
    type V = Map<K::KV, V>;
    uninterp spec fn view(&self) -> Map<K::KV, V>;
}
pub open spec fn map_items<'a, K: Key, V>(m: Map<K::KV, V>, s: Seq<(&'a K, &'a V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.kv()) && m[s[i].0.kv()] == *s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv()
    &&& forall|k: K::KV| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k
}
pub open spec fn map_items_owned<K: Key, V>(m: Map<K::KV, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.kv()) && m[s[i].0.kv()] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv()
    &&& forall|k: K::KV| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k
}
impl<K: Key + Hash + Eq, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { HashMap { inner: ::std::collections::HashMap::new() } }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { HashMap { inner: ::std::collections::HashMap::new() } }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k.kv(), v),
            r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None }),
    { self.inner.insert(k, v) }
    #[verifier::external_body]
    pub fn get<Q: Key<KV = K::KV> + Hash + Eq + ?Sized>(&self, k: &Q) -> (r: Option<&V>) where K: Borrow<Q>
        ensures r == (if self@.contains_key(k.kv()) { Some(&self@[k.kv()]) } else { None }),
    { self.inner.get(k) }
    #[verifier::external_body]
    pub fn contains_key<Q: Key<KV = K::KV> + Hash + Eq + ?Sized>(&self, k: &Q) -> (r: bool) where K: Borrow<Q>
        ensures r == self@.contains_key(k.kv()),
    { self.inner.contains_key(k) }
    #[verifier::external_body]
    pub fn get_mut<Q: Key<KV = K::KV> + Hash + Eq + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>) where K: Borrow<Q>
        ensures match r {
            None => !old(self)@.contains_key(k.kv()) && final(self)@ == old(self)@,
            Some(v) => old(self)@.contains_key(k.kv()) && *v == old(self)@[k.kv()] && final(self)@ == old(self)@.insert(k.kv(), *final(v)),
        },
    { self.inner.get_mut(k) }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: It<(&K, &V)>) ensures map_items(self@, r@), self@.dom().finite(), r@.len() == self@.dom().len() { It { v: self.inner.iter().collect() } }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<(K, V)>) ensures map_items_owned(self@, r@), self@.dom().finite(), r@.len() == self@.dom().len() { It { v: self.inner.into_iter().collect() } }
    #[verifier::external_body]
    pub fn vx_keys(&self) -> (r: It<&K>) ensures key_items(self@, r@) { It { v: self.inner.keys().collect() } }
    #[verifier::external_body]
    pub fn vx_key_list(&self) -> (r: It<K>) where K: Copy ensures key_items_owned(self@, r@) { It { v: self.inner.keys().cloned().collect() } }
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: It<&V>)
        ensures exists|ks: Seq<K::KV>| value_items(self@, ks, r@)
    { It { v: self.inner.values().collect() } }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::KV, V>::empty()), r == (forall|k: K::KV| !self@.contains_key(k)) { self.inner.is_empty() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), self@.dom().finite() { self.inner.len() }
    #[verifier::external_body]
    pub fn retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        requires forall|k: &K, v: &V| #[trigger] f.requires((k, v)),
        ensures
            forall|k: K::KV| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k]
                && exists|kk: &K| #[trigger] kk.kv() == k && f.ensures((kk, &old(self)@[k]), true),
            forall|k: K::KV| #[trigger] old(self)@.contains_key(k) && !final(self)@.contains_key(k) ==>
                exists|kk: &K| #[trigger] kk.kv() == k && f.ensures((kk, &old(self)@[k]), false),
    { unimplemented!() }
}
pub open spec fn key_items<'a, K: Key, V>(m: Map<K::KV, V>, s: Seq<&'a K>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).kv())
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).kv() != (#[trigger] s[j]).kv()
    &&& forall|k: K::KV| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).kv() == k
}
pub open spec fn key_items_owned<K: Key, V>(m: Map<K::KV, V>, s: Seq<K>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).kv())
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).kv() != (#[trigger] s[j]).kv()
    &&& forall|k: K::KV| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).kv() == k
}
pub open spec fn value_items<'a, KV, V>(m: Map<KV, V>, ks: Seq<KV>, s: Seq<&'a V>) -> bool {
    &&& ks.len() == s.len()
    &&& forall|i: int| 0 <= i < ks.len() ==> m.contains_key(#[trigger] ks[i]) && m[ks[i]] == *s[i]
    &&& forall|k: KV| #[trigger] m.contains_key(k) ==> ks.contains(k)
}
pub broadcast axiom fn axiom_map_finite<K: Key, V>(m: HashMap<K, V>)
    ensures (#[trigger] m@).dom().finite();
/// a map is built after what is in it
pub broadcast axiom fn axiom_map_decreases<K: Key, V>(m: HashMap<K, V>)
    ensures decreases_to!(m => #[trigger] m@);
pub struct HashSet<K> { pub inner: ::std::collections::HashSet<K> }
impl<K: Key> View for HashSet<K> {
    type V = Set<K::KV>;
    uninterp spec fn view(&self) -> Set<K::KV>;
}
impl<K: Key + Hash + Eq> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K::KV>::empty() { HashSet { inner: ::std::collections::HashSet::new() } }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.kv()), r == !old(self)@.contains(k.kv()) { self.inner.insert(k) }
    #[verifier::external_body]
    pub fn vx_contains<Q: Key<KV = K::KV> + Hash + Eq + ?Sized>(&self, k: &Q) -> (r: bool) where K: Borrow<Q>
        ensures r == self@.contains(k.kv()),
    { self.inner.contains(k) }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: K::KV| !self@.contains(k)) { self.inner.is_empty() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), self@.finite() { self.inner.len() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: It<&K>) ensures set_items(self@, r@), r@.len() == self@.len(), self@.finite() { It { v: self.inner.iter().collect() } }
}

// ---------------------------------------------------------------- strings
/// What Display prints
pub trait Txt { spec fn txt(&self) -> Seq<char>; }
impl Txt for str { open spec fn txt(&self) -> Seq<char> { self@ } }
impl Txt for String { open spec fn txt(&self) -> Seq<char> { self@ } }
impl<'a, T: Txt + ?Sized> Txt for &'a T { open spec fn txt(&self) -> Seq<char> { (**self).txt() } }
/// the decimal number
pub uninterp spec fn int_txt(i: int) -> Seq<char>;
impl Txt for usize { open spec fn txt(&self) -> Seq<char> { int_txt(*self as int) } }
impl Txt for u32 { open spec fn txt(&self) -> Seq<char> { int_txt(*self as int) } }
impl Txt for i32 { open spec fn txt(&self) -> Seq<char> { int_txt(*self as int) } }

pub trait ToStringExt { fn vx_to_string(&self) -> (r: String); }
impl<T: Txt + ?Sized> ToStringExt for T {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.txt() { unimplemented!() }
}
pub struct Fmt { pub s: String }
impl View for Fmt { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
#[verifier::external_body]
pub fn fmt() -> (r: Fmt) ensures r@ == Seq::<char>::empty() { Fmt { s: String::new() } }
impl Fmt {
    #[verifier::external_body]
    pub fn lit(self, s: &str) -> (r: Fmt) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: Txt + ?Sized>(self, x: &T) -> (r: Fmt) ensures r@ == self@ + x.txt() { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: String) ensures r@ == self@ { self.s }
}

/// `String::from`
#[verifier::external_body]
pub fn string_from<T: Txt>(x: T) -> (r: String) ensures r@ == x.txt() { unimplemented!() }
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn occurs_at(p: Seq<char>, s: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn join_seq(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else if v.len() == 1 { v[0] } else { join_seq(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn texts<T: Txt>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|x: T| x.txt()) }

pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
pub open spec fn sv(v: Vec<String>) -> Seq<Seq<char>> { texts(v@) }

pub trait JoinExt { fn vx_join(&self, sep: &str) -> (r: String); }
impl<T: Txt> JoinExt for Vec<T> {
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == join_seq(texts(self@), sep@) { unimplemented!() }
}

pub trait StrExt {
    spec fn sv(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.sv());
    fn vx_contains(&self, p: &str) -> (r: bool) ensures r == contains_seq(self.sv(), p@);
    fn vx_lines(&self) -> (r: It<&str>) ensures r@.len() == lines_of(self.sv()).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(self.sv())[i];
}
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>;
impl StrExt for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body]
    fn vx_contains(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: It<&str>) { It { v: self.lines().collect() } }
}
impl StrExt for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body]
    fn vx_contains(&self, p: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: It<&str>) { It { v: self.lines().collect() } }
}
pub assume_specification[ <String as AsRef<str>>::as_ref ](s: &String) -> (r: &str) ensures r@ == s@;

// `&s[..]`
pub trait Full { type Out: ?Sized; spec fn full_ok(&self, r: &Self::Out) -> bool; fn full(&self) -> (r: &Self::Out) ensures self.full_ok(r); }
impl Full for String { type Out = str; open spec fn full_ok(&self, r: &str) -> bool { r@ == self@ } #[verifier::external_body] fn full(&self) -> (r: &str) { &self[..] } }
impl Full for str { type Out = str; open spec fn full_ok(&self, r: &str) -> bool { r@ == self@ } #[verifier::external_body] fn full(&self) -> (r: &str) { self } }
pub fn full<T: Full + ?Sized>(x: &T) -> (r: &T::Out) ensures x.full_ok(r) { x.full() }

} // verus!
pub mod stdx {
    pub use ::std::*;
    pub mod iter { pub use super::super::empty; }
    pub mod cell { pub use super::super::RefCell; }
    pub mod cmp { pub use ::std::cmp::*; pub use super::super::min; }
    pub mod io { pub use super::super::{IoError as Error, IoErrorKind as ErrorKind, Read}; }
    pub mod fmt { pub use super::super::{Formatter, FmtError as Error, FmtResult as Result, Display}; }
    pub mod fs { pub use super::super::{fs_write as write}; }
}
pub mod serde_json { use vstd::prelude::*; verus!{
    #[verifier::external_body]
    pub struct Error { e: u8 }
    impl super::Txt for Error { uninterp spec fn txt(&self) -> Seq<char>; }
    /// the JSON value in what is read, as the type
    pub uninterp spec fn parsed<T>(path: Seq<char>) -> core::result::Result<T, Error>;
    #[verifier::external_body]
    pub fn from_reader<R: super::Reads, T>(r: R) -> (x: core::result::Result<T, Error>) ensures x == parsed::<T>(r.path()) { unimplemented!() }
} }
verus! {
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
}
verus! {
// ---------------------------------------------------------------- RefCell<Vec<_>>: an append-only record
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T> { inner: ::core::cell::RefCell<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sink<'a, T> { inner: &'a RefCell<Vec<T>> }
/// all that is ever put into the cell: a prophecy, so a fact about it stays true
pub uninterp spec fn record<T>(c: RefCell<Vec<T>>) -> Set<T>;
/// what may be put into the cell, chosen when it is made
pub uninterp spec fn admits<T>(c: RefCell<Vec<T>>, t: T) -> bool;
impl<T> RefCell<Vec<T>> {
    #[verifier::external_body]
    pub fn vx_new(t: Vec<T>, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: Self)
        requires t@.len() == 0
        ensures forall|x: T| #[trigger] admits(r, x) == p(x)
    { RefCell { inner: ::core::cell::RefCell::new(t) } }
    #[verifier::external_body]
    pub fn vx_into_inner(self) -> (r: Vec<T>)
        ensures r@.to_set() == record(self), forall|i: int| 0 <= i < r@.len() ==> admits(self, #[trigger] r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_borrow_mut(&self) -> (r: Sink<'_, T>) ensures r.cell() == *self { unimplemented!() }
}
impl<'a, T> Sink<'a, T> {
    pub uninterp spec fn cell(self) -> RefCell<Vec<T>>;
    #[verifier::external_body]
    pub fn push(self, t: T) requires admits(self.cell(), t) ensures record(self.cell()).contains(t) { unimplemented!() }
}

// ---------------------------------------------------------------- sorting
/// the order of strings (byte-wise, as Rust's)
pub uninterp spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool;
pub open spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool { a == b || str_lt(a, b) }
pub broadcast axiom fn axiom_str_lt_irreflexive(a: Seq<char>) ensures !#[trigger] str_lt(a, a);
pub axiom fn axiom_str_lt_transitive(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures str_lt(a, b) && str_lt(b, c) ==> str_lt(a, c);
pub axiom fn axiom_str_lt_total(a: Seq<char>, b: Seq<char>) ensures a == b || str_lt(a, b) || str_lt(b, a);

pub trait CmpExt { spec fn ckey(&self) -> Seq<char>; fn vx_cmp(&self, o: &Self) -> (r: core::cmp::Ordering) ensures ord_is(self.ckey(), o.ckey(), r); }
pub open spec fn ord_is(a: Seq<char>, b: Seq<char>, r: core::cmp::Ordering) -> bool {
    match r { core::cmp::Ordering::Less => str_lt(a, b), core::cmp::Ordering::Equal => a == b, core::cmp::Ordering::Greater => str_lt(b, a) }
}
impl CmpExt for String { open spec fn ckey(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: core::cmp::Ordering) { self.cmp(o) } }
impl CmpExt for str { open spec fn ckey(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: core::cmp::Ordering) { self.cmp(o) } }

/// `b` has the elements of `a`, in another order
pub open spec fn is_perm<T>(a: Seq<T>, b: Seq<T>) -> bool {
    exists|p: Seq<int>| #[trigger] perm_by(a, b, p)
}
pub open spec fn perm_by<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& a.len() == b.len() == p.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] != p[j]
    &&& forall|k: int| 0 <= k < a.len() ==> p.contains(k)
}
pub trait SortExt<T> {
    spec fn sseq(&self) -> Seq<T>;
    fn vx_sort_unstable_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
        ensures
            is_perm(old(self).sseq(), final(self).sseq()),
            forall|i: int, j: int| #![trigger final(self).sseq()[i], final(self).sseq()[j]] 0 <= i < j < final(self).sseq().len() ==>
                f.ensures((&final(self).sseq()[i], &final(self).sseq()[j]), core::cmp::Ordering::Less) || f.ensures((&final(self).sseq()[i], &final(self).sseq()[j]), core::cmp::Ordering::Equal);
    fn vx_sort_unstable_by_key<K: Key<KV = Seq<char>>, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|a: &T| #[trigger] f.requires((a,)),
        ensures
            is_perm(old(self).sseq(), final(self).sseq()),
            forall|i: int, j: int| #![trigger final(self).sseq()[i], final(self).sseq()[j]] 0 <= i < j < final(self).sseq().len() ==>
                exists|k1: K, k2: K| f.ensures((&final(self).sseq()[i],), k1) && f.ensures((&final(self).sseq()[j],), k2) && #[trigger] str_le(k1.kv(), k2.kv());
    fn vx_sort_unstable(&mut self) where T: Key<KV = Seq<char>>
        ensures
            is_perm(old(self).sseq(), final(self).sseq()),
            forall|i: int, j: int| #![trigger final(self).sseq()[i], final(self).sseq()[j]] 0 <= i < j < final(self).sseq().len() ==>
                str_le(final(self).sseq()[i].kv(), final(self).sseq()[j].kv());
}
impl<T> SortExt<T> for Vec<T> {
    open spec fn sseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_sort_unstable_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vx_sort_unstable_by_key<K: Key<KV = Seq<char>>, F: Fn(&T) -> K>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vx_sort_unstable(&mut self) where T: Key<KV = Seq<char>> { unimplemented!() }
}
}
verus! { pub open spec fn same<T>(a: T, b: T) -> bool { a == b } }

verus! { pub assume_specification<T: ?Sized, A: core::alloc::Allocator>[ <Box<T, A> as AsRef<T>>::as_ref ](b: &Box<T, A>) -> (r: &T) ensures r == &**b; }
verus! {
/// `&x[a..]`, `&x[..b]`, `&x[a..b]`: the range has to be in bounds (of a string: on char boundaries)
pub trait Ranged {
    type Out: ?Sized;
    spec fn range_ok(&self, a: int, b: int) -> bool;
    spec fn range_end(&self) -> int;
    spec fn range_is(&self, a: int, b: int, r: &Self::Out) -> bool;
    fn range(&self, a: usize, b: usize) -> (r: &Self::Out) requires self.range_ok(a as int, b as int) ensures self.range_is(a as int, b as int, r);
    fn range_len(&self) -> (r: usize) ensures r == self.range_end();
}
impl<T> Ranged for Vec<T> {
    type Out = [T];
    open spec fn range_ok(&self, a: int, b: int) -> bool { 0 <= a <= b <= self@.len() }
    open spec fn range_end(&self) -> int { self@.len() as int }
    open spec fn range_is(&self, a: int, b: int, r: &[T]) -> bool { r@ == self@.subrange(a, b) }
    #[verifier::external_body]
    fn range(&self, a: usize, b: usize) -> (r: &[T]) { &self[a..b] }
    fn range_len(&self) -> (r: usize) { self.len() }
}
pub fn range_from<R: Ranged + ?Sized>(x: &R, a: usize) -> (r: &R::Out)
    requires x.range_ok(a as int, x.range_end()) ensures x.range_is(a as int, x.range_end(), r)
{ x.range(a, x.range_len()) }
pub fn range_to<R: Ranged + ?Sized>(x: &R, b: usize) -> (r: &R::Out)
    requires x.range_ok(0, b as int) ensures x.range_is(0, b as int, r)
{ x.range(0, b) }
pub fn range<R: Ranged + ?Sized>(x: &R, a: usize, b: usize) -> (r: &R::Out)
    requires x.range_ok(a as int, b as int) ensures x.range_is(a as int, b as int, r)
{ x.range(a, b) }
}

verus! {
impl<K: Key + Hash + Eq> PartialEq for HashSet<K> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { self.inner == other.inner }
}
impl<K: Key + Hash + Eq> vstd::std_specs::cmp::PartialEqSpecImpl for HashSet<K> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { self@ == other@ } }
pub open spec fn set_items_owned<K: Key>(s: Set<K::KV>, items: Seq<K>) -> bool {
    &&& forall|i: int| 0 <= i < items.len() ==> s.contains((#[trigger] items[i]).kv())
    &&& forall|i: int, j: int| 0 <= i < j < items.len() ==> (#[trigger] items[i]).kv() != (#[trigger] items[j]).kv()
    &&& forall|k: K::KV| #[trigger] s.contains(k) ==> exists|i: int| 0 <= i < items.len() && (#[trigger] items[i]).kv() == k
}
impl<K: Key + Hash + Eq> HashSet<K> {
    #[verifier::external_body]
    pub fn retain<F: Fn(&K) -> bool>(&mut self, f: F)
        requires forall|k: &K| #[trigger] f.requires((k,)),
        ensures
            forall|k: K::KV| #[trigger] final(self)@.contains(k) ==> old(self)@.contains(k) && exists|kk: &K| #[trigger] kk.kv() == k && f.ensures((kk,), true),
            forall|k: K::KV| #[trigger] old(self)@.contains(k) && !final(self)@.contains(k) ==> exists|kk: &K| #[trigger] kk.kv() == k && f.ensures((kk,), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<K>) ensures set_items_owned(self@, r@), r@.len() == self@.len(), self@.finite() { It { v: self.inner.into_iter().collect() } }
    #[verifier::external_body]
    pub fn vx_extend(&mut self, o: HashSet<K>) ensures final(self)@ == old(self)@.union(o@) { unimplemented!() }
}
pub trait OptExt<T>: Sized {
    spec fn ov(&self) -> Option<T>;
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.ov() is Some ==> f.requires((self.ov()->0,)),
        ensures match self.ov() { Some(x) => f.ensures((x,), r), None => r == d };
    fn vx_or(self, o: Option<T>) -> (r: Option<T>)
        ensures r == (if self.ov() is Some { self.ov() } else { o });
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires self.ov() is Some ==> f.requires((self.ov()->0,)),
        ensures match self.ov() { Some(x) => f.ensures((x,), r), None => r is None };
    fn vx_unwrap_or_default(self) -> (r: T) where T: Default
        ensures match self.ov() { Some(x) => r == x, None => T::default.ensures((), r) };
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        requires self.ov() is None ==> f.requires(()),
        ensures match self.ov() { Some(x) => r == self.ov(), None => f.ensures((), r) };
}
impl<T> OptExt<T> for Option<T> {
    open spec fn ov(&self) -> Option<T> { *self }
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { match self { Some(x) => f(x), None => d } }
    fn vx_or(self, o: Option<T>) -> (r: Option<T>) { match self { Some(x) => Some(x), None => o } }
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { match self { Some(x) => f(x), None => None } }
    #[verifier::external_body]
    fn vx_unwrap_or_default(self) -> (r: T) where T: Default { self.unwrap_or_default() }
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { match self { Some(x) => Some(x), None => f() } }
}
pub trait OptStr { fn vx_as_deref(&self) -> (r: Option<&str>); }
impl OptStr for Option<String> {
    fn vx_as_deref(&self) -> (r: Option<&str>) ensures r is Some <==> self is Some, r is Some ==> r->0@ == self->0@
    { match self { Some(s) => Some(s.as_str()), None => None } }
}
pub trait OptRes<T, E> { fn vx_transpose(self) -> (r: Result<Option<T>, E>); }
impl<T, E> OptRes<T, E> for Option<Result<T, E>> {
    fn vx_transpose(self) -> (r: Result<Option<T>, E>)
        ensures match self { None => r == Ok::<Option<T>, E>(None), Some(Ok(x)) => r == Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => r == Err::<Option<T>, E>(e) },
    { match self { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) } }
}
pub open spec fn repeat_seq(s: Seq<char>, n: nat) -> Seq<char>
    decreases n
{ if n == 0 { Seq::empty() } else { repeat_seq(s, (n - 1) as nat) + s } }
/// `str::replace`: the occurrences that do not overlap, from the left
pub open spec fn replaced(s: Seq<char>, p: Seq<char>, by: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.len() == 0 { arbitrary() }
    else if s.len() < p.len() { s }
    else if s.take(p.len() as int) == p { by + replaced(s.skip(p.len() as int), p, by) }
    else { seq![s[0]] + replaced(s.skip(1), p, by) }
}
pub open spec fn contains_seq(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| #[trigger] occurs_at(p, s, i) }
/// removing something that is there makes the text shorter, otherwise it stays as it is
pub proof fn lemma_replaced(s: Seq<char>, p: Seq<char>, by: Seq<char>)
    requires p.len() > 0
    ensures
        !contains_seq(s, p) ==> replaced(s, p, by) == s,
        by.len() == 0 ==> replaced(s, p, by).len() <= s.len(),
        by.len() == 0 && contains_seq(s, p) ==> replaced(s, p, by).len() < s.len(),
    decreases s.len()
{
    if s.len() < p.len() {
    } else if s.take(p.len() as int) == p {
        assert(s.subrange(0, p.len() as int) =~= s.take(p.len() as int));
        assert(occurs_at(p, s, 0));
        lemma_replaced(s.skip(p.len() as int), p, by);
    } else {
        lemma_replaced(s.skip(1), p, by);
        if contains_seq(s.skip(1), p) {
            let i = choose|i: int| #[trigger] occurs_at(p, s.skip(1), i);
            assert(s.subrange(i + 1, i + 1 + p.len()) =~= s.skip(1).subrange(i, i + p.len()));
            assert(occurs_at(p, s, i + 1));
        }
        if contains_seq(s, p) {
            let i = choose|i: int| #[trigger] occurs_at(p, s, i);
            if i == 0 { assert(s.take(p.len() as int) =~= s.subrange(0, p.len() as int)); }
            assert(s.subrange(i, i + p.len()) =~= s.skip(1).subrange(i - 1, i - 1 + p.len()));
            assert(occurs_at(p, s.skip(1), i - 1));
        }
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
pub trait Pattern { spec fn pat(&self) -> Seq<char>; }
impl Pattern for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl<'a> Pattern for &'a str { open spec fn pat(&self) -> Seq<char> { self@ } }
impl<'a> Pattern for &'a String { open spec fn pat(&self) -> Seq<char> { self@ } }
pub trait StrExt2 {
    fn vx_repeat(&self, n: usize) -> (r: String);
    fn vx_replace<P: Pattern>(&self, p: P, by: &str) -> (r: String);
}
impl StrExt2 for str {
    #[verifier::external_body]
    fn vx_repeat(&self, n: usize) -> (r: String) ensures r@ == repeat_seq(self@, n as nat) { self.repeat(n) }
    #[verifier::external_body]
    fn vx_replace<P: Pattern>(&self, p: P, by: &str) -> (r: String) ensures p.pat().len() > 0 ==> r@ == replaced(self@, p.pat(), by@) { unimplemented!() }
}
}
