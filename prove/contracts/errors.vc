//# iteration over the errors of a block (C14)
@fn ASTBlockErrorIterator::new
@ensures C14
flat_stack(r.pending@) == flat_seq(vblock(*$1), 0),
@first
broadcast use group_flat;
@fn ASTBlockErrorIterator::push_block
@ensures C14
flat_stack(final(self).pending@) == flat_seq(vblock(*$1), 0) + flat_stack(old(self).pending@),
@first
broadcast use {group_flat};
proof { lemma_block_len(*$1); }
@loop /.*\.0\.__it\(\)/
invariant
    %it.rest().len() <= $1.0@.len(),
    vblock(*$1).len() == $1.0@.len(),
    %it.rest() == $1.0@.take(%it.rest().len() as int),
    flat_stack(self.pending@) == flat_seq(vblock(*$1), %it.rest().len() as int) + flat_stack(old(self).pending@),
ensures %it.rest().len() == 0
decreases %it.rest().len()
%body
broadcast use {group_flat};
proof { if %it.rest().len() > 0 { lemma_block_at(*$1, %it.rest().len() - 1); } }
@fn Node::get_inner_block
@ensures C14
match r { Some(v) => flat(vnode(*self)) == seq![vnode(*self)] + flat_blocks(v@, 0), None => flat(vnode(*self)) == seq![vnode(*self)] },
r is Some ==> !(vnode(*self) is Error),
@first
broadcast use {group_flat};
proof {
    lemma_flat_node(*self);
    match self {
        Node::Wtf(w) => { lemma_flat_opts(arbitrary(), *w); lemma_views_len(w.omg, arbitrary()); },
        Node::ORly(w) => { lemma_flat_opts(*w, arbitrary()); lemma_views_len(arbitrary(), w.mebbes); },
        _ => {},
    }
}
@loop /omg\.__(into_)?it\(\)/
invariant
    self matches Node::Wtf(w) && ({
    let m = vomgs(w.omg);
    let k = %it.rest().len() as int;
    &&& k <= m.len()
    &&& m.len() == w.omg@.len()
    &&& %it.rest() == w.omg@.skip(m.len() - k)
    &&& flat_mebbes(m, 0) == flat_blocks(%acc@, 0) + flat_mebbes(m, m.len() - k)
    }),
ensures %it.rest().len() == 0,
decreases %it.rest().len()
%body
broadcast use {group_flat};
proof { if %it.rest().len() > 0 { lemma_omg_at(self->Wtf_0.omg, self->Wtf_0.omg@.len() - %it.rest().len()); } }
@loop /mebbes\.__(into_)?it\(\)/
invariant
    self matches Node::ORly(w) && ({
    let m = vmebbes(w.mebbes);
    let k = %it.rest().len() as int;
    &&& k <= m.len()
    &&& m.len() == w.mebbes@.len()
    &&& %it.rest() == w.mebbes@.skip(m.len() - k)
    &&& flat_opt(vyarly(w.if_true)) + flat_mebbes(m, 0) == flat_blocks(%acc@, 0) + flat_mebbes(m, m.len() - k)
    }),
ensures %it.rest().len() == 0,
decreases %it.rest().len()
%body
broadcast use {group_flat};
proof { if %it.rest().len() > 0 { lemma_mebbe_at(self->ORly_0.mebbes, self->ORly_0.mebbes@.len() - %it.rest().len()); } }
@fn ASTBlockErrorIterator::next
@ensures C14
match r {
    Some(e) => errors(flat_stack(old(self).pending@)).len() > 0 && verr(e) == errors(flat_stack(old(self).pending@))[0] && errors(flat_stack(final(self).pending@)) == errors(flat_stack(old(self).pending@)).drop_first(),
    None => errors(flat_stack(old(self).pending@)).len() == 0 && errors(flat_stack(final(self).pending@)).len() == 0,
},
@first
broadcast use {group_flat};
@loop 0
invariant
    errors(flat_stack(self.pending@)) == errors(flat_stack(old(self).pending@)),
ensures
    self.pending@.len() == 0,
decreases flat_stack(self.pending@).len()
%body
broadcast use {group_flat};
let ghost __p = self.pending@;
@after Some\(node\) => \{
let ghost __q = self.pending@;
proof {
    lemma_stack_pop(__p);
    lemma_flat_node(*node);
    lemma_errors_first(vnode(*node), flat_stack(__q));
    let e = errors(flat_stack(__p));
    if node is ASTError { assert(e.drop_first() =~= errors(flat_stack(__q))); }
}
@before let mut \w+ = \w+\.__into_it
let ghost __b = blocks@;
proof { lemma_errors_first(vnode(*node), flat_blocks(__b, 0) + flat_stack(__q)); }
@loop 1
invariant
    ${blocks.__into_it}.rest().len() <= __b.len(),
    ${blocks.__into_it}.rest() == __b.take(${blocks.__into_it}.rest().len() as int),
    flat_stack(self.pending@) == flat_blocks(__b, ${blocks.__into_it}.rest().len() as int) + flat_stack(__q),
ensures ${blocks.__into_it}.rest().len() == 0
decreases ${blocks.__into_it}.rest().len()
%body
broadcast use {group_flat};
proof { if ${blocks.__into_it}.rest().len() > 0 { lemma_blocks_at(__b, ${blocks.__into_it}.rest().len() - 1); } }
@variant
@first
broadcast use {group_flat};
@loop 0
invariant
    errors(flat_stack(self.pending@)) == errors(flat_stack(old(self).pending@)),
ensures
    self.pending@.len() == 0,
decreases flat_stack(self.pending@).len()
%body
broadcast use {group_flat};
let ghost __p = self.pending@;
@after let node = [^;]*;
let ghost __q = self.pending@;
proof {
    lemma_stack_pop(__p);
    lemma_flat_node(*node);
    lemma_errors_first(vnode(*node), flat_stack(__q));
    let e = errors(flat_stack(__p));
    if node is ASTError { assert(e.drop_first() =~= errors(flat_stack(__q))); }
}
@before let mut \w+ = \w+\.__into_it
let ghost __b = blocks@;
proof { lemma_errors_first(vnode(*node), flat_blocks(__b, 0) + flat_stack(__q)); }
@loop 1
invariant
    ${blocks.__into_it}.rest().len() <= __b.len(),
    ${blocks.__into_it}.rest() == __b.take(${blocks.__into_it}.rest().len() as int),
    flat_stack(self.pending@) == flat_blocks(__b, ${blocks.__into_it}.rest().len() as int) + flat_stack(__q),
ensures ${blocks.__into_it}.rest().len() == 0
decreases ${blocks.__into_it}.rest().len()
%body
broadcast use {group_flat};
proof { if ${blocks.__into_it}.rest().len() > 0 { lemma_blocks_at(__b, ${blocks.__into_it}.rest().len() - 1); } }
@variant
@first
broadcast use {group_flat};
@loop 0
invariant
    errors(flat_stack(self.pending@)) == errors(flat_stack(old(self).pending@)),
ensures
    self.pending@.len() == 0,
decreases flat_stack(self.pending@).len()
%body
broadcast use {group_flat};
let ghost __p = self.pending@;
@after Some\(node\) => \{
let ghost __q = self.pending@;
proof {
    lemma_stack_pop(__p);
    lemma_flat_node(*node);
    lemma_errors_first(vnode(*node), flat_stack(__q));
    let e = errors(flat_stack(__p));
    if node is ASTError { assert(e.drop_first() =~= errors(flat_stack(__q))); }
}
@before let mut \w+ = \w+\.__it\(
let ghost __b = blocks@;
proof { lemma_errors_first(vnode(*node), flat_blocks(__b, 0) + flat_stack(__q)); }
@loop /\w+\.__it\(/
invariant
    %it.rest().len() <= __b.len(),
    %it.rest() == __b.take(%it.rest().len() as int),
    flat_stack(self.pending@) == flat_blocks(__b, %it.rest().len() as int) + flat_stack(__q),
ensures %it.rest().len() == 0
decreases %it.rest().len()
%body
broadcast use {group_flat};
proof { if %it.rest().len() > 0 { lemma_blocks_at(__b, %it.rest().len() - 1); } }
@variant
@first
broadcast use {group_flat};
@loop 0
invariant
    errors(flat_stack(self.pending@)) == errors(flat_stack(old(self).pending@)),
ensures
    self.pending@.len() == 0,
decreases flat_stack(self.pending@).len()
%body
broadcast use {group_flat};
let ghost __p = self.pending@;
@after let node = [^;]*;
let ghost __q = self.pending@;
proof {
    lemma_stack_pop(__p);
    lemma_flat_node(*node);
    lemma_errors_first(vnode(*node), flat_stack(__q));
    let e = errors(flat_stack(__p));
    if node is ASTError { assert(e.drop_first() =~= errors(flat_stack(__q))); }
}
@before let mut \w+ = \w+\.__it\(
let ghost __b = blocks@;
proof { lemma_errors_first(vnode(*node), flat_blocks(__b, 0) + flat_stack(__q)); }
@loop /\w+\.__it\(/
invariant
    %it.rest().len() <= __b.len(),
    %it.rest() == __b.take(%it.rest().len() as int),
    flat_stack(self.pending@) == flat_blocks(__b, %it.rest().len() as int) + flat_stack(__q),
ensures %it.rest().len() == 0
decreases %it.rest().len()
%body
broadcast use {group_flat};
proof { if %it.rest().len() > 0 { lemma_blocks_at(__b, %it.rest().len() - 1); } }
@fn ASTBlock::iter_errors
@ret ASTBlockErrorIterator<'_>
@ensures C14
errors(flat_stack(r.pending@)) == errors(flat_seq(vblock(*self), 0)),
