#![feature(allocator_api)]
#![allow(warnings)]
// ---- trusted models of the std items the extracted code uses ---------------------------------
// What has no body here is an assumption about the Rust standard library, listed in the evidence of
// every check; nothing here describes code of /repo.
#[allow(unused_imports)]
use vstd::prelude::*;
#[allow(unused_imports)]
use vstd::string::*;
#[allow(unused_imports)]
use vstd::std_specs::vecdeque::*;
#[allow(unused_imports)]
use std::collections::VecDeque;

verus! {

broadcast use vstd::std_specs::vecdeque::group_vec_dequeue_axioms;

pub proof fn lemma_vec_len<T>(v: Vec<T>)
    ensures v@.len() <= usize::MAX,
{ assert(v.len() == v@.len()); }
pub proof fn lemma_vecdeque_len<T>(v: VecDeque<T>)
    ensures v@.len() <= usize::MAX,
{ assert(v.len() == v@.len()); }

/// what panic!, todo!, unreachable! and friends become: a call that must be unreachable
#[verifier::external_body]
pub fn panics<T>() -> T
    requires false,
{ unimplemented!() }

/// what `?` does with an error: `From::from`, which leaves a type of its own as it is
pub trait __Conv<T>: Sized {
    spec fn cv(self) -> T;
    fn __conv(self) -> (r: T)
        ensures r == self.cv();
}

/// `mem::replace`
pub fn __mem_replace<T>(dest: &mut T, src: T) -> (r: T)
    ensures r == *old(dest), *final(dest) == src,
{ let mut s = src; core::mem::swap(dest, &mut s); s }

/// `x == "literal"`
pub trait StrLike { spec fn sv(&self) -> Seq<char>; fn __s<'b>(&'b self) -> (r: &'b str) ensures r@ == self.sv(); }
impl StrLike for String { open spec fn sv(&self) -> Seq<char> { self@ } fn __s<'b>(&'b self) -> (r: &'b str) { self.as_str() } }
impl<'a> StrLike for &'a str { open spec fn sv(&self) -> Seq<char> { self@ } fn __s<'b>(&'b self) -> (r: &'b str) { *self } }
impl<'a> StrLike for &'a String { open spec fn sv(&self) -> Seq<char> { self@ } fn __s<'b>(&'b self) -> (r: &'b str) { (*self).as_str() } }
pub fn __str_eq<T: StrLike>(x: &T, b: &str) -> (r: bool)
    ensures r == (x.sv() == b@),
{
    let a = x.__s();
    let n = a.unicode_len();
    if n != b.unicode_len() { return false; }
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == a@.len(), n == b@.len(), a@ == x.sv(), a@.take(i as int) =~= b@.take(i as int),
        decreases n - i,
    {
        if a.get_char(i) != b.get_char(i) { assert(a@[i as int] != b@[i as int]); return false; }
        i = i + 1;
        assert(a@.take(i as int) =~= a@.take(i - 1).push(a@[i - 1]));
        assert(b@.take(i as int) =~= b@.take(i - 1).push(b@[i - 1]));
    }
    assert(a@.take(n as int) =~= a@);
    assert(b@.take(n as int) =~= b@);
    true
}

// The iterators below stand for std's.  They are verified programs over VecDeque, so what is said
// about them is consistent; what stays an assumption is that std's iterators do the same.
pub mod models {
#[allow(unused_imports)]
use super::*;
broadcast use vstd::std_specs::vecdeque::group_vec_dequeue_axioms;
/// slice, Vec and VecDeque iterators
#[verifier::accept_recursive_types(T)]
pub struct RefIt<'a, T> { d: VecDeque<&'a T> }
impl<'a, T> RefIt<'a, T> {
    pub closed spec fn rest(&self) -> Seq<T> { self.d@.map_values(|x: &'a T| *x) }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            match r {
                Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            },
    { let r = self.d.pop_front(); proof { if r is Some { assert(self.rest() =~= old(self).rest().drop_first()); } } r }
    pub fn next_back(&mut self) -> (r: Option<&'a T>)
        ensures
            match r {
                Some(x) => old(self).rest().len() > 0 && *x == old(self).rest().last() && final(self).rest() == old(self).rest().drop_last(),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            },
    { let r = self.d.pop_back(); proof { if r is Some { assert(self.rest() =~= old(self).rest().drop_last()); } } r }
}
#[verifier::accept_recursive_types(T)]
pub struct OwnIt<T> { d: VecDeque<T> }
impl<T> OwnIt<T> {
    pub closed spec fn rest(&self) -> Seq<T> { self.d@ }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            match r {
                Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            },
    { let r = self.d.pop_front(); proof { if r is Some { assert(self.rest() =~= old(self).rest().drop_first()); } } r }
    pub fn next_back(&mut self) -> (r: Option<T>)
        ensures
            match r {
                Some(x) => old(self).rest().len() > 0 && x == old(self).rest().last() && final(self).rest() == old(self).rest().drop_last(),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            },
    { let r = self.d.pop_back(); proof { if r is Some { assert(self.rest() =~= old(self).rest().drop_last()); } } r }
}
pub trait ItSource<T> {
    spec fn it_seq(&self) -> Seq<T>;
    fn __it<'a>(&'a self) -> (r: RefIt<'a, T>)
        ensures r.rest() == self.it_seq();
    fn __into_it(self) -> (r: OwnIt<T>) where Self: Sized
        ensures r.rest() == self.it_seq();
}
fn of_vec<'a, T>(v: &'a Vec<T>) -> (r: RefIt<'a, T>)
    ensures r.rest() == v@,
{
    let mut d: VecDeque<&'a T> = VecDeque::new();
    let n = v.len();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == v@.len(), d@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] d@[k]) == v@[k],
        decreases n - i,
    { d.push_back(&v[i]); i = i + 1; }
    let r = RefIt { d };
    assert(r.rest() =~= v@);
    r
}
fn of_deque<'a, T>(v: &'a VecDeque<T>) -> (r: RefIt<'a, T>)
    ensures r.rest() == v@,
{
    let mut d: VecDeque<&'a T> = VecDeque::new();
    let n = v.len();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == v@.len(), d@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] d@[k]) == v@[k],
        decreases n - i,
    { match v.get(i) { Some(x) => d.push_back(x), None => {} } i = i + 1; }
    let r = RefIt { d };
    assert(r.rest() =~= v@);
    r
}
impl<T> ItSource<T> for Vec<T> {
    open spec fn it_seq(&self) -> Seq<T> { self@ }
    fn __it<'a>(&'a self) -> (r: RefIt<'a, T>) { of_vec(self) }
    fn __into_it(self) -> (r: OwnIt<T>) { OwnIt { d: all_of(self) } }
}
pub fn all_of<T>(v: Vec<T>) -> (r: VecDeque<T>)
    ensures r@ == v@,
{
        let mut v = v;
        let mut d: VecDeque<T> = VecDeque::new();
        let ghost w = v@;
        while v.len() > 0
            invariant v@ + d@ == w,
            decreases v@.len(),
        {
            let ghost (v0, d0) = (v@, d@);
            match v.pop() { Some(x) => { d.push_front(x); assert(v@ + d@ =~= v0 + d0); } None => {} }
        }
        assert(d@ =~= w);
        d
}
impl<T> ItSource<T> for VecDeque<T> {
    open spec fn it_seq(&self) -> Seq<T> { self@ }
    fn __it<'a>(&'a self) -> (r: RefIt<'a, T>) { of_deque(self) }
    fn __into_it(self) -> (r: OwnIt<T>) { OwnIt { d: self } }
}
impl<T, const N: usize> ItSource<T> for [T; N] {
    open spec fn it_seq(&self) -> Seq<T> { self@ }
    fn __it<'a>(&'a self) -> (r: RefIt<'a, T>) {
        let mut d: VecDeque<&'a T> = VecDeque::new();
        let mut i: usize = 0;
        while i < N
            invariant i <= N, N == self@.len(), d@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] d@[k]) == self@[k],
            decreases N - i,
        { d.push_back(&self[i]); i = i + 1; }
        let r = RefIt { d };
        assert(r.rest() =~= self@);
        r
    }
    #[verifier::external_body]
    fn __into_it(self) -> (r: OwnIt<T>) { unimplemented!() }
}

/// iteration over a borrowed container
pub trait RefSource<'a, T> {
    spec fn ref_seq(self) -> Seq<T>;
    fn __into_it(self) -> (r: RefIt<'a, T>) where Self: Sized
        ensures r.rest() == self.ref_seq();
}
impl<'a, T> RefSource<'a, T> for &'a Vec<T> {
    open spec fn ref_seq(self) -> Seq<T> { self@ }
    fn __into_it(self) -> (r: RefIt<'a, T>) { of_vec(self) }
}
impl<'a, T> RefSource<'a, T> for &'a VecDeque<T> {
    open spec fn ref_seq(self) -> Seq<T> { self@ }
    fn __into_it(self) -> (r: RefIt<'a, T>) { of_deque(self) }
}

/// Vec::retain
pub fn vec_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|t: &T| call_requires(f, (t,)),
    ensures
        forall|p: spec_fn(T) -> bool| (forall|t: &T, b: bool| #[trigger] call_ensures(f, (t,), b) ==> b == p(*t)) ==> final(v)@ == #[trigger] old(v)@.filter(p),
{
    let ghost w = v@;
    let mut keep: Vec<T> = Vec::new();
    let mut rev: Vec<T> = Vec::new();
    while v.len() > 0
        invariant v@ + rev@.reverse() == w,
        decreases v@.len(),
    {
        let ghost (v0, d0) = (v@, rev@);
        match v.pop() { Some(x) => { rev.push(x); assert(v@ + rev@.reverse() =~= v0 + d0.reverse()); } None => {} }
    }
    assert(rev@.reverse() =~= w);
    assert(rev@ =~= w.reverse());
    let ghost mut k: int = 0;
    while rev.len() > 0
        invariant 0 <= k <= w.len(), rev@ == w.skip(k).reverse(), forall|t: &T| call_requires(f, (t,)),
            forall|p: spec_fn(T) -> bool| (forall|t: &T, b: bool| #[trigger] call_ensures(f, (t,), b) ==> b == p(*t)) ==> keep@ == #[trigger] w.take(k).filter(p),
        decreases rev@.len(),
    {
        let ghost keep0 = keep@;
        match rev.pop() { Some(x) => {
            assert(x == w[k]);
            assert(rev@ =~= w.skip(k + 1).reverse());
            let b = f(&x);
            if b { keep.push(x); }
            proof {
                assert forall|p: spec_fn(T) -> bool| (forall|t: &T, b: bool| #[trigger] call_ensures(f, (t,), b) ==> b == p(*t)) implies keep@ == #[trigger] w.take(k + 1).filter(p) by {
                    assert(keep0 == w.take(k).filter(p));
                    assert(w.take(k + 1).drop_last() =~= w.take(k));
                    assert(w.take(k + 1).last() == x);
                    reveal(Seq::filter);
                }
                k = k + 1;
            }
        } None => {} }
    }
    assert(w.take(k) =~= w);
    *v = keep;
}
} // mod models
#[allow(unused_imports)]
pub use models::*;

pub assume_specification<T, A: core::alloc::Allocator>[ VecDeque::<T, A>::get ](v: &VecDeque<T, A>, i: usize) -> (r: Option<&T>)
    ensures match r { Some(x) => i < v@.len() && *x == v@[i as int], None => i >= v@.len() };
pub assume_specification<T, A: core::alloc::Allocator>[ VecDeque::<T, A>::back ](v: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 };
pub assume_specification<T, A: core::alloc::Allocator>[ VecDeque::<T, A>::front ](v: &VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 };
pub assume_specification<T, A: core::alloc::Allocator>[ VecDeque::<T, A>::is_empty ](v: &VecDeque<T, A>) -> (r: bool)
    ensures r == (v@.len() == 0);

/// `clone` of a sequence clones its elements in order. `__Exact`: types whose clone is the same value
pub trait __Exact: Clone + Sized {
    fn __dup(&self) -> (r: Self) ensures r == *self;
}
pub fn __clone_Vec<T: __Exact>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@
{
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), r@ == v@.take(i as int)
        decreases v@.len() - i
    {
        r.push(v[i].__dup());
        i = i + 1;
        assert(r@ =~= v@.take(i as int));
    }
    assert(r@ =~= v@);
    r
}
pub fn __clone_VecDeque<T: __Exact>(v: &VecDeque<T>) -> (r: VecDeque<T>) ensures r@ == v@
{
    let mut r = VecDeque::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), r@ == v@.take(i as int)
        decreases v@.len() - i
    {
        match v.get(i) { Some(x) => r.push_back(x.__dup()), None => {} }
        i = i + 1;
        assert(r@ =~= v@.take(i as int));
    }
    assert(r@ =~= v@);
    r
}

/// `==` of floats
pub uninterp spec fn float_eq(a: f32, b: f32) -> bool;
#[verifier::external_body]
pub fn __float_eq(a: f32, b: f32) -> (r: bool) ensures r == float_eq(a, b) { a == b }
/// a derived `==` that could not be generated from the type
pub uninterp spec fn some_eq<T>(a: T, b: T) -> bool;
} // verus!
