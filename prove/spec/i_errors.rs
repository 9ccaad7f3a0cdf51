// The nodes of a block in source order, nested ones included, and the errors among them (C14).
verus! {

/// every node in source order: a node, then the nodes of its inner blocks
#[verifier::opaque]
pub open spec fn flat(n: NodeS) -> Seq<NodeS>
    decreases n, 0int
{
    match n {
        NodeS::ImInYr(t, l, o, c, b, e) => seq![n] + flat_seq(b, 0),
        NodeS::HowIzI(t, m, a, b) => seq![n] + flat_seq(b, 0),
        NodeS::ORly(t, y, ms, f) => seq![n] + (flat_opt(y) + (flat_mebbes(ms, 0) + flat_opt(f))),
        NodeS::Wtf(t, ms, f) => seq![n] + (flat_mebbes(ms, 0) + flat_opt(f)),
        _ => seq![n],
    }
}
#[verifier::opaque]
pub open spec fn flat_seq(b: Seq<NodeS>, i: int) -> Seq<NodeS>
    decreases b, b.len() - i
{ if 0 <= i < b.len() { flat(b[i]) + flat_seq(b, i + 1) } else { Seq::empty() } }
#[verifier::opaque]
pub open spec fn flat_opt(b: Option<BranchS>) -> Seq<NodeS>
    decreases b, 0int
{ match b { Some(b) => flat_seq(b.block, 0), None => Seq::empty() } }
#[verifier::opaque]
pub open spec fn flat_mebbes(m: Seq<MebbeS>, i: int) -> Seq<NodeS>
    decreases m, m.len() - i
{ if 0 <= i < m.len() { flat_seq(m[i].block, 0) + flat_mebbes(m, i + 1) } else { Seq::empty() } }

/// the errors in a sequence of nodes
pub open spec fn errors(s: Seq<NodeS>) -> Seq<ErrS>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else { match s[0] { NodeS::Error(e) => seq![e] + errors(s.drop_first()), _ => errors(s.drop_first()) } }
}
/// a list of blocks, flattened one after the other
#[verifier::opaque]
pub open spec fn flat_blocks(v: Seq<&ASTBlock>, i: int) -> Seq<NodeS>
    decreases v.len() - i
{ if 0 <= i < v.len() { flat_seq(vblock(*v[i]), 0) + flat_blocks(v, i + 1) } else { Seq::empty() } }
/// what a stack of nodes to be visited still stands for: the last one comes first
#[verifier::opaque]
pub open spec fn flat_stack(p: Seq<&Node>) -> Seq<NodeS>
    decreases p.len()
{ if p.len() > 0 { flat(vnode(*p.last())) + flat_stack(p.drop_last()) } else { Seq::empty() } }

pub broadcast proof fn lemma_stack_push(p: Seq<&Node>, n: &Node)
    ensures #[trigger] flat_stack(p.push(n)) == flat(vnode(*n)) + flat_stack(p),
{ reveal_with_fuel(flat_stack, 2); assert(p.push(n).drop_last() =~= p); assert(p.push(n).last() == n); }
pub broadcast proof fn lemma_cat(a: Seq<NodeS>, b: Seq<NodeS>, c: Seq<NodeS>)
    ensures #[trigger] ((a + b) + c) == a + (b + c),
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_cat_empty(a: Seq<NodeS>, b: Seq<NodeS>)
    requires a.len() == 0 || b.len() == 0,
    ensures #[trigger] (a + b) == (if a.len() == 0 { b } else { a }),
{ if a.len() == 0 { assert(a + b =~= b); } else { assert(a + b =~= a); } }
pub broadcast proof fn lemma_blocks_push(v: Seq<&ASTBlock>, b: &ASTBlock)
    ensures #[trigger] flat_blocks(v.push(b), 0) == flat_blocks(v, 0) + flat_seq(vblock(*b), 0),
{ lemma_blocks_push_at(v, b, 0); }
pub proof fn lemma_blocks_push_at(v: Seq<&ASTBlock>, b: &ASTBlock, i: int)
    requires 0 <= i <= v.len()
    ensures flat_blocks(v.push(b), i) == flat_blocks(v, i) + flat_seq(vblock(*b), 0),
    decreases v.len() - i
{
    broadcast use {lemma_cat, lemma_cat_empty};
    reveal_with_fuel(flat_blocks, 3);
    if i < v.len() { lemma_blocks_push_at(v, b, i + 1); assert(v.push(b)[i] == v[i]); }
    else { assert(v.push(b)[i] == b); assert(flat_blocks(v.push(b), i + 1).len() == 0); }
}
pub broadcast proof fn lemma_blocks_empty(v: Seq<&ASTBlock>, i: int)
    requires i >= v.len()
    ensures #[trigger] flat_blocks(v, i) == Seq::<NodeS>::empty(),
{ reveal(flat_blocks); }
pub broadcast proof fn lemma_seq_end(b: Seq<NodeS>, i: int)
    requires i >= b.len()
    ensures #[trigger] flat_seq(b, i) == Seq::<NodeS>::empty(),
{ reveal(flat_seq); }
pub broadcast proof fn lemma_mebbes_end(b: Seq<MebbeS>, i: int)
    requires i >= b.len()
    ensures #[trigger] flat_mebbes(b, i) == Seq::<NodeS>::empty(),
{ reveal(flat_mebbes); }
pub proof fn unfold_flat(n: NodeS)
    ensures flat(n) == (match n {
        NodeS::ImInYr(t, l, o, c, b, e) => seq![n] + flat_seq(b, 0),
        NodeS::HowIzI(t, m, a, b) => seq![n] + flat_seq(b, 0),
        NodeS::ORly(t, y, ms, f) => seq![n] + (flat_opt(y) + (flat_mebbes(ms, 0) + flat_opt(f))),
        NodeS::Wtf(t, ms, f) => seq![n] + (flat_mebbes(ms, 0) + flat_opt(f)),
        _ => seq![n],
    }),
{ reveal(flat); reveal(flat_seq); reveal(flat_opt); reveal(flat_mebbes); }
pub proof fn unfold_seq(b: Seq<NodeS>, i: int)
    requires 0 <= i < b.len()
    ensures flat_seq(b, i) == flat(b[i]) + flat_seq(b, i + 1),
{ reveal(flat); reveal(flat_seq); }
pub proof fn unfold_mebbes(m: Seq<MebbeS>, i: int)
    requires 0 <= i < m.len()
    ensures flat_mebbes(m, i) == flat_seq(m[i].block, 0) + flat_mebbes(m, i + 1),
{ reveal(flat_mebbes); reveal(flat_seq); }
pub proof fn unfold_opt(b: Option<BranchS>)
    ensures flat_opt(b) == (match b { Some(b) => flat_seq(b.block, 0), None => Seq::empty() }),
{ reveal(flat_opt); reveal(flat_seq); }
/// the nodes of a block from position i on
pub proof fn lemma_block_at(b: ASTBlock, i: int)
    requires 0 <= i < b.0@.len()
    ensures flat_seq(vblock(b), i) == flat(vnode(b.0@[i])) + flat_seq(vblock(b), i + 1),
{ unfold_seq(vblock(b), i); assert(vblock(b)[i] == vnode(b.0@[i])); }
pub proof fn lemma_block_len(b: ASTBlock)
    ensures vblock(b).len() == b.0@.len(),
{ }
pub proof fn lemma_blocks_at(v: Seq<&ASTBlock>, i: int)
    requires 0 <= i < v.len()
    ensures flat_blocks(v, i) == flat_seq(vblock(*v[i]), 0) + flat_blocks(v, i + 1),
{ reveal(flat_blocks); }
pub proof fn lemma_omg_at(v: VecDeque<WtfOmg>, i: int)
    requires 0 <= i < v@.len()
    ensures flat_mebbes(vomgs(v), i) == flat_seq(vblock(v@[i].block), 0) + flat_mebbes(vomgs(v), i + 1),
{ unfold_mebbes(vomgs(v), i); assert(vomgs(v)[i] == vomg(v@[i])); }
pub proof fn lemma_mebbe_at(v: VecDeque<Mebbe>, i: int)
    requires 0 <= i < v@.len()
    ensures flat_mebbes(vmebbes(v), i) == flat_seq(vblock(v@[i].block), 0) + flat_mebbes(vmebbes(v), i + 1),
{ unfold_mebbes(vmebbes(v), i); assert(vmebbes(v)[i] == vmebbe(v@[i])); }
pub proof fn lemma_views_len(v: VecDeque<WtfOmg>, w: VecDeque<Mebbe>)
    ensures vomgs(v).len() == v@.len(), vmebbes(w).len() == w@.len(),
{ }
pub proof fn lemma_flat_node(n: Node)
    ensures flat(vnode(n)) == (match n {
        Node::ImInYr(x) => seq![vnode(n)] + flat_seq(vblock(x.code_block), 0),
        Node::HowIzI(x) => seq![vnode(n)] + flat_seq(vblock(x.body), 0),
        Node::ORly(x) => seq![vnode(n)] + (flat_opt(vyarly(x.if_true)) + (flat_mebbes(vmebbes(x.mebbes), 0) + flat_opt(vnowai(x.if_false)))),
        Node::Wtf(x) => seq![vnode(n)] + (flat_mebbes(vomgs(x.omg), 0) + flat_opt(vomgwtf(x.omg_wtf))),
        _ => seq![vnode(n)],
    }),
    (vnode(n) is Error) == (n is ASTError),
{ unfold_flat(vnode(n)); }
pub proof fn lemma_flat_opts(x: ORly, y: Wtf)
    ensures
        flat_opt(vyarly(x.if_true)) == (match x.if_true { Some(b) => flat_seq(vblock(b.block), 0), None => Seq::empty() }),
        flat_opt(vnowai(x.if_false)) == (match x.if_false { Some(b) => flat_seq(vblock(b.block), 0), None => Seq::empty() }),
        flat_opt(vomgwtf(y.omg_wtf)) == (match y.omg_wtf { Some(b) => flat_seq(vblock(b.block), 0), None => Seq::empty() }),
{ unfold_opt(vyarly(x.if_true)); unfold_opt(vnowai(x.if_false)); unfold_opt(vomgwtf(y.omg_wtf)); }
pub proof fn lemma_stack_pop(p: Seq<&Node>)
    requires p.len() > 0
    ensures flat_stack(p) == flat(vnode(*p.last())) + flat_stack(p.drop_last()),
{ reveal(flat_stack); }
pub broadcast proof fn lemma_stack_empty(p: Seq<&Node>)
    requires p.len() == 0
    ensures #[trigger] flat_stack(p) == Seq::<NodeS>::empty(),
{ reveal(flat_stack); }
pub proof fn lemma_errors_first(n: NodeS, s: Seq<NodeS>)
    ensures errors(seq![n] + s) == (match n { NodeS::Error(e) => seq![e] + errors(s), _ => errors(s) }),
        (seq![n] + s).len() == s.len() + 1,
{ assert((seq![n] + s).drop_first() =~= s); assert((seq![n] + s)[0] == n); }
pub broadcast group group_flat { lemma_stack_push, lemma_stack_empty, lemma_cat, lemma_cat_empty, lemma_blocks_push, lemma_blocks_empty, lemma_seq_end, lemma_mebbes_end }

} // verus!
