@fn Position::add_assign
@requires
fits(*old(self), $1@),
@ensures C02 C03
pv(*final(self)).bytes == advance(pv(*old(self)), $1@).bytes,
@ensures C03
pv(*final(self)).chars == advance(pv(*old(self)), $1@).chars,
pv(*final(self)).line == advance(pv(*old(self)), $1@).line,
pv(*final(self)).column == advance(pv(*old(self)), $1@).column,
@first
proof { lemma_blen_min($1@); lemma_counts($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@loop 0
invariant
    fits(*old(self), $1@),
    0 <= $1@.len() - ${CharsIt::new}.rest().len(),
    ${CharsIt::new}.rest() == $1@.skip($1@.len() - ${CharsIt::new}.rest().len()),
    self.line == advance(pv(*old(self)), $1@.take($1@.len() - ${CharsIt::new}.rest().len())).line,
    self.column == advance(pv(*old(self)), $1@.take($1@.len() - ${CharsIt::new}.rest().len())).column,
    self.bytes == old(self).bytes,
    self.chars == old(self).chars,
ensures
    ${CharsIt::new}.rest().len() == 0,
decreases ${CharsIt::new}.rest().len(),
%body
proof {
    let k = $1@.len() - ${CharsIt::new}.rest().len();
    lemma_counts($1@.take(k));
    if k < $1@.len() {
        assert($1@.take(k + 1).drop_last() =~= $1@.take(k));
        assert($1@.take(k + 1).last() == $1@[k]);
        lemma_counts($1@.take(k + 1));
        lemma_cidx($1@, k + 1);
        assert($1@.skip(k).skip(1) =~= $1@.skip(k + 1));
    }
}
@last
proof { assert($1@.take($1@.len() as int) =~= $1@); }
@variant
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@first
proof { lemma_blen_min($1@); lemma_counts($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@before loop
let ghost __p0 = *self;
@loop 0
invariant
    fits(*old(self), $1@),
    0 <= $1@.len() - ${CharsIt::new}.rest().len(),
    ${CharsIt::new}.rest() == $1@.skip($1@.len() - ${CharsIt::new}.rest().len()),
    self.line == advance(pv(*old(self)), $1@.take($1@.len() - ${CharsIt::new}.rest().len())).line,
    self.column == advance(pv(*old(self)), $1@.take($1@.len() - ${CharsIt::new}.rest().len())).column,
    self.bytes == __p0.bytes,
    self.chars == __p0.chars,
ensures
    ${CharsIt::new}.rest().len() == 0,
decreases ${CharsIt::new}.rest().len(),
%body
proof {
    let k = $1@.len() - ${CharsIt::new}.rest().len();
    lemma_counts($1@.take(k));
    if k < $1@.len() {
        assert($1@.take(k + 1).drop_last() =~= $1@.take(k));
        assert($1@.take(k + 1).last() == $1@[k]);
        lemma_counts($1@.take(k + 1));
        lemma_cidx($1@, k + 1);
        assert($1@.skip(k).skip(1) =~= $1@.skip(k + 1));
    }
}
@last
proof { assert($1@.take($1@.len() as int) =~= $1@); }
@variant
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@first
proof { lemma_blen_min($1@); lemma_counts($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@before loop
let ghost __p0 = *self;
@loop 0
invariant
    fits(*old(self), $1@),
    0 <= $1@.len() - ${CharsIt::new}.rest().len(),
    ${CharsIt::new}.rest() == $1@.skip($1@.len() - ${CharsIt::new}.rest().len()),
    self.line == advance(pv(*old(self)), $1@.take($1@.len() - ${CharsIt::new}.rest().len())).line,
    self.column == advance(pv(*old(self)), $1@.take($1@.len() - ${CharsIt::new}.rest().len())).column,
    self.bytes == __p0.bytes + blen($1@.take($1@.len() - ${CharsIt::new}.rest().len())),
    self.chars == __p0.chars + ($1@.len() - ${CharsIt::new}.rest().len()),
ensures
    ${CharsIt::new}.rest().len() == 0,
decreases ${CharsIt::new}.rest().len(),
%body
proof {
    let k = $1@.len() - ${CharsIt::new}.rest().len();
    lemma_counts($1@.take(k)); lemma_blen_min($1@.take(k)); lemma_blen_split($1@, k); lemma_blen_min($1@.skip(k));
    if k < $1@.len() {
        assert($1@.take(k + 1).drop_last() =~= $1@.take(k));
        assert($1@.take(k + 1).last() == $1@[k]);
        lemma_counts($1@.take(k + 1));
        lemma_cidx($1@, k + 1);
        assert($1@.skip(k).skip(1) =~= $1@.skip(k + 1));
    }
}
@last
proof { assert($1@.take($1@.len() as int) =~= $1@); }
@variant
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@first
proof { lemma_blen_min($1@); lemma_counts($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@before loop
let ghost __p0 = *self;
@loop 0
invariant
    fits(*old(self), $1@),
    0 <= $1@.len() - ${CharsIt::new}.rest().len(),
    ${CharsIt::new}.rest() == $1@.skip($1@.len() - ${CharsIt::new}.rest().len()),
    self.line == advance(pv(*old(self)), $1@.take($1@.len() - ${CharsIt::new}.rest().len())).line,
    self.column == advance(pv(*old(self)), $1@.take($1@.len() - ${CharsIt::new}.rest().len())).column,
    self.bytes == __p0.bytes + blen($1@.take($1@.len() - ${CharsIt::new}.rest().len())),
    self.chars == __p0.chars,
ensures
    ${CharsIt::new}.rest().len() == 0,
decreases ${CharsIt::new}.rest().len(),
%body
proof {
    let k = $1@.len() - ${CharsIt::new}.rest().len();
    lemma_counts($1@.take(k)); lemma_blen_min($1@.take(k)); lemma_blen_split($1@, k); lemma_blen_min($1@.skip(k));
    if k < $1@.len() {
        assert($1@.take(k + 1).drop_last() =~= $1@.take(k));
        assert($1@.take(k + 1).last() == $1@[k]);
        lemma_counts($1@.take(k + 1));
        lemma_cidx($1@, k + 1);
        assert($1@.skip(k).skip(1) =~= $1@.skip(k + 1));
    }
}
@last
proof { assert($1@.take($1@.len() as int) =~= $1@); }
@variant
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@first
proof { lemma_blen_min($1@); lemma_counts($1@); assert($1@.skip(0) =~= $1@); assert($1@.take(0) =~= Seq::<char>::empty()); }
@before loop
let ghost __p0 = *self;
@loop 0
invariant
    fits(*old(self), $1@),
    0 <= $1@.len() - ${CharsIt::new}.rest().len(),
    ${CharsIt::new}.rest() == $1@.skip($1@.len() - ${CharsIt::new}.rest().len()),
    self.line == advance(pv(*old(self)), $1@.take($1@.len() - ${CharsIt::new}.rest().len())).line,
    self.column == advance(pv(*old(self)), $1@.take($1@.len() - ${CharsIt::new}.rest().len())).column,
    self.bytes == __p0.bytes,
    self.chars == __p0.chars + ($1@.len() - ${CharsIt::new}.rest().len()),
ensures
    ${CharsIt::new}.rest().len() == 0,
decreases ${CharsIt::new}.rest().len(),
%body
proof {
    let k = $1@.len() - ${CharsIt::new}.rest().len();
    lemma_counts($1@.take(k)); lemma_blen_min($1@.take(k)); lemma_blen_split($1@, k); lemma_blen_min($1@.skip(k));
    if k < $1@.len() {
        assert($1@.take(k + 1).drop_last() =~= $1@.take(k));
        assert($1@.take(k + 1).last() == $1@[k]);
        lemma_counts($1@.take(k + 1));
        lemma_cidx($1@, k + 1);
        assert($1@.skip(k).skip(1) =~= $1@.skip(k + 1));
    }
}
@last
proof { assert($1@.take($1@.len() as int) =~= $1@); }

@fn Position::add
@requires
fits(self, $1@),
@ensures C02 C03
pv(r).bytes == advance(pv(self), $1@).bytes,
@ensures C03
pv(r) == advance(pv(self), $1@),

@fn Position::default
@ensures C03
pv(r) == pos_at(Seq::<char>::empty(), 0),
@first
proof { assert(Seq::<char>::empty().take(0) =~= Seq::<char>::empty()); }

@fn Position::eq
@safety C21
@ensures C21
r == same_place(pv(*self), pv(*$1)),

@fn Position::partial_cmp
@safety C21
@ensures C21
r == Some(if self.bytes < $1.bytes { core::cmp::Ordering::Less } else if self.bytes == $1.bytes { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }),

@fn Range::eq
@safety C21
@ensures C21
r == (same_place(pv(self.0), pv($1.0)) && same_place(pv(self.1), pv($1.1))),

@fn Range::from<(Position,Position)>
@from_spec Range(v.0, v.1)
@ensures C03 C16
r.0 == $1.0, r.1 == $1.1,

@fn Range::from<Position>
@from_spec Range(v, v)
@ensures C03 C16
r.0 == $1, r.1 == $1,
