@area messaging
@spec vx_broker /verif/contracts/broker_spec.rs

@module broker::messaging::subscriptions_repository
@use crate::vx_prelude::*
@use crate::vx_broker::*
@use vstd::multiset::*
@external impl Drop
@append
broadcast use {group_strings, group_convert, axiom_string_view_injective, vstd::std_specs::hash::group_hash_axioms, vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms};

/// The node one level below.
spec fn kid(n: SubscriptionNode, l: Seq<char>) -> Option<SubscriptionNode> {
    if n.children@.contains_key(str_of(l)) { Some(n.children@[str_of(l)]) } else { None }
}

/// The clients stored under a filter.
spec fn clients_at(n: SubscriptionNode, f: Path) -> Seq<String>
    decreases f.len()
{
    if f.len() == 0 {
        n.clients@
    } else {
        match kid(n, f[0]) { Some(k) => clients_at(k, f.drop_first()), None => Seq::empty() }
    }
}

spec fn tidy(n: SubscriptionNode) -> bool {
    forall|f: Path| (#[trigger] clients_at(n, f)).no_duplicates()
}

impl SubscriptionsRepository {
    /// Whether the client holds a subscription with the filter.
    pub closed spec fn holds(&self, f: Path, c: String) -> bool { clients_at(self.root, f).contains(c) }
    pub closed spec fn wf(&self) -> bool { tidy(self.root) }
    /// How many matching subscriptions the client holds.
    pub open spec fn recipients(&self, t: Path, c: String) -> nat { hits(t).filter(|f: Path| self.holds(f, c)).len() }
}

/// The two trees differ in what is stored under f only, which becomes cs.
spec fn changed(a: SubscriptionNode, b: SubscriptionNode, f: Path, cs: Seq<String>) -> bool {
    forall|g: Path| #[trigger] clients_at(b, g) == if g == f { cs } else { clients_at(a, g) }
}

proof fn lemma_empty_node(n: SubscriptionNode, f: Path)
    requires
        n.clients@.len() == 0,
        n.children@ == Map::<String, SubscriptionNode>::empty(),
    ensures
        clients_at(n, f) == Seq::<String>::empty(),
    decreases f.len()
{
    reveal(clients_at);
    assert(n.clients@ =~= Seq::<String>::empty());
}

/// A change below one of the children is a change below the node.
proof fn lemma_changed_up(a: SubscriptionNode, b: SubscriptionNode, l: Seq<char>, ka: SubscriptionNode, kb: SubscriptionNode, f: Path, cs: Seq<String>)
    requires
        f.len() > 0,
        f[0] == l,
        kid(a, l) == Some(ka) || (kid(a, l) is None && ka.clients@.len() == 0 && ka.children@ == Map::<String, SubscriptionNode>::empty()),
        b.clients@ == a.clients@,
        b.children@ == a.children@.insert(str_of(l), kb),
        changed(ka, kb, f.drop_first(), cs),
    ensures
        changed(a, b, f, cs),
{
    reveal(changed);
    assert forall|g: Path| #[trigger] clients_at(b, g) == if g == f { cs } else { clients_at(a, g) } by {
        reveal_with_fuel(clients_at, 2);
        if g.len() > 0 {
            if g[0] == l {
                assert(kid(b, l) == Some(kb));
                if g.drop_first() == f.drop_first() {
                    assert(g =~= seq![l] + g.drop_first());
                    assert(f =~= seq![l] + f.drop_first());
                }
                assert(clients_at(kb, g.drop_first()) == if g.drop_first() == f.drop_first() { cs } else { clients_at(ka, g.drop_first()) });
                if kid(a, l) is None {
                    lemma_empty_node(ka, g.drop_first());
                }
                assert(clients_at(b, g) == clients_at(kb, g.drop_first()));
                assert(clients_at(a, g) == clients_at(ka, g.drop_first()));
            } else {
                if str_of(g[0]) == str_of(l) {
                    assert(str_of(g[0])@ == str_of(l)@);
                }
                assert(kid(b, g[0]) == kid(a, g[0]));
            }
        }
    }
}

impl SubscriptionNode {
    pub closed spec fn is_new(&self) -> bool {
        self.children@ == Map::<String, SubscriptionNode>::empty() && self.clients@ == Seq::<String>::empty()
    }
}

/// b has what a has, except c.
#[verifier::opaque]
pub open spec fn lacks(b: Seq<String>, a: Seq<String>, c: String) -> bool {
    a.no_duplicates() ==> b.no_duplicates() && forall|x: String| #[trigger] b.contains(x) == (a.contains(x) && x != c)
}

/// b has what a has, and c.
#[verifier::opaque]
pub open spec fn gains(b: Seq<String>, a: Seq<String>, c: String) -> bool {
    a.no_duplicates() ==> b.no_duplicates() && forall|x: String| #[trigger] b.contains(x) == (a.contains(x) || x == c)
}

proof fn lemma_lacks_others(s: Seq<String>, c: String)
    ensures
        s.no_duplicates() ==> others(s, c).no_duplicates(),
        forall|x: String| #[trigger] others(s, c).contains(x) == (s.contains(x) && x != c),
    decreases s.len()
{
    if s.len() > 0 {
        let r = others(s.drop_last(), c);
        lemma_lacks_others(s.drop_last(), c);
        assert(s =~= s.drop_last().push(s.last()));
        assert forall|x: String| #[trigger] s.contains(x) == (s.drop_last().contains(x) || x == s.last()) by { lemma_push_contains(s.drop_last(), s.last(), x); }
        assert forall|x: String| #[trigger] r.push(s.last()).contains(x) == (r.contains(x) || x == s.last()) by { lemma_push_contains(r, s.last(), x); }
        if s.no_duplicates() {
            assert(!s.drop_last().contains(s.last()));
            assert(!r.contains(s.last()));
            assert(r.no_duplicates());
            assert(r.push(s.last()).no_duplicates());
        }
    }
}

proof fn lemma_push_contains(s: Seq<String>, c: String, x: String)
    ensures
        s.push(c).contains(x) == (s.contains(x) || x == c),
{
    assert(s.push(c)[s.len() as int] == c);
    if s.contains(x) {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
        assert(s.push(c)[j] == x);
    }
}

/// Ways of taking a client out.
proof fn lemma_lacks(s: Seq<String>, c: String)
    ensures
        forall|i: int| 0 <= i < s.len() && s[i] == c ==> lacks(#[trigger] s.remove(i), s, c),
        forall|i: int| 0 <= i < s.len() && s[i] == c ==> lacks((#[trigger] s.update(i, s.last())).drop_last(), s, c),
        lacks(others(s, c), s, c),
        !s.contains(c) ==> lacks(s, s, c),
{
    reveal(lacks);
    lemma_lacks_others(s, c);
    if s.no_duplicates() {
        assert forall|i: int| 0 <= i < s.len() && s[i] == c implies lacks(#[trigger] s.remove(i), s, c) by {
            let w = s.remove(i);
            assert forall|x: String| #[trigger] w.contains(x) == (s.contains(x) && x != c) by {
                if w.contains(x) {
                    let j = choose|j: int| 0 <= j < w.len() && w[j] == x;
                    assert(s[if j < i { j } else { j + 1 }] == x);
                }
                if s.contains(x) && x != c {
                    let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
                    assert(w[if j < i { j } else { j - 1 }] == x);
                }
            }
        }
        assert forall|i: int| 0 <= i < s.len() && s[i] == c implies lacks((#[trigger] s.update(i, s.last())).drop_last(), s, c) by {
            let w = s.update(i, s.last()).drop_last();
            assert forall|x: String| #[trigger] w.contains(x) == (s.contains(x) && x != c) by {
                if w.contains(x) {
                    let j = choose|j: int| 0 <= j < w.len() && w[j] == x;
                    assert(s[if j == i { s.len() - 1 } else { j }] == x);
                }
                if s.contains(x) && x != c {
                    let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
                    assert(w[if j == s.len() - 1 { i } else { j }] == x);
                }
            }
        }
    }
}

/// Ways of adding one.
proof fn lemma_gains(s: Seq<String>, c: String)
    ensures
        s.contains(c) ==> gains(s, s, c),
        !s.contains(c) ==> gains(s.push(c), s, c),
{
    reveal(gains);
    assert forall|x: String| #[trigger] s.push(c).contains(x) == (s.contains(x) || x == c) by { lemma_push_contains(s, c, x); }
}

/// What happens at the node of a filter happens to the filter.
proof fn lemma_at_node(r0: SubscriptionNode, r1: SubscriptionNode, m0: SubscriptionNode, m1: SubscriptionNode, path: Path, c: String)
    requires
        tidy(r0),
        clients_at(r0, path) == m0.clients@,
        changed(m0, m1, Seq::empty(), m1.clients@) ==> changed(r0, r1, path, m1.clients@),
    ensures
        m1.children@ == m0.children@ && gains(m1.clients@, m0.clients@, c) ==> {
            &&& tidy(r1)
            &&& forall|f: Path, x: String| #[trigger] clients_at(r1, f).contains(x) == (clients_at(r0, f).contains(x) || (f == path && x == c))
        },
        m1.children@ == m0.children@ && lacks(m1.clients@, m0.clients@, c) ==> {
            &&& tidy(r1)
            &&& forall|f: Path, x: String| #[trigger] clients_at(r1, f).contains(x) == (clients_at(r0, f).contains(x) && !(f == path && x == c))
        },
{
    assert(clients_at(r0, path).no_duplicates());
    if m1.children@ == m0.children@ {
        assert forall|g: Path| #[trigger] clients_at(m1, g) == if g == Path::empty() { m1.clients@ } else { clients_at(m0, g) } by {
            reveal_with_fuel(clients_at, 2);
            if g.len() == 0 {
                assert(g =~= Path::empty());
            }
        }
        assert(changed(m0, m1, Seq::empty(), m1.clients@));
        reveal(lacks);
        reveal(gains);
        if gains(m1.clients@, m0.clients@, c) {
            assert forall|f: Path| (#[trigger] clients_at(r1, f)).no_duplicates() by { assert(clients_at(r0, f).no_duplicates()); }
        }
        if lacks(m1.clients@, m0.clients@, c) {
            assert forall|f: Path| (#[trigger] clients_at(r1, f)).no_duplicates() by { assert(clients_at(r0, f).no_duplicates()); }
        }
    }
}

pub open spec fn texts(v: Seq<&str>) -> Path {
    Seq::new(v.len(), |i: int| v[i]@)
}

proof fn lemma_texts(v: Seq<&str>, p: Path)
    requires
        v.len() == p.len(),
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == p[i],
    ensures
        texts(v) == p,
{
    assert(texts(v) =~= p);
}

proof fn lemma_take_step(p: Seq<String>, i: int)
    requires
        0 <= i < p.len(),
    ensures
        p.take(i + 1).to_multiset() == p.take(i).to_multiset().insert(p[i]),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(p.take(i + 1) =~= p.take(i).push(p[i]));
}

proof fn lemma_skip_step(p: Path, i: int)
    requires
        0 <= i < p.len(),
    ensures
        p.skip(i).len() > 0,
        p.skip(i)[0] == p[i],
        p.skip(i).drop_first() == p.skip(i + 1),
{
    assert(p.skip(i).drop_first() =~= p.skip(i + 1));
}


spec fn weight_map(m: HashMap<String, SubscriptionNode>) -> nat
    decreases m, 1int, 0int
{
    1 + weight_first(m, order_of(m).len())
}

spec fn weight_first(m: HashMap<String, SubscriptionNode>, n: nat) -> nat
    decreases m, 0int, n
    via weight_first_decreases
{
    if n == 0 || n > order_of(m).len() || !m@.contains_key(order_of(m)[n - 1]) { 0 } else {
        weight_first(m, (n - 1) as nat) + weight_map(m@[order_of(m)[n - 1]].children)
    }
}

#[via_fn]
proof fn weight_first_decreases(m: HashMap<String, SubscriptionNode>, n: nat) {
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    if n != 0 && n <= order_of(m).len() && m@.contains_key(order_of(m)[n - 1]) {
        let c = m@[order_of(m)[n - 1]];
        assert(decreases_to!(m => m@));
        assert(decreases_to!(m@ => c));
        assert(decreases_to!(c => c.children));
    }
}

/// The number of nodes in a tree.
spec fn weight(n: SubscriptionNode) -> nat { weight_map(n.children) }

spec fn total(s: Seq<&mut SubscriptionNode>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { total(s.drop_last()) + weight(*s.last()) }
}

proof fn lemma_total_add(s: Seq<&mut SubscriptionNode>, v: Seq<&mut SubscriptionNode>, m: HashMap<String, SubscriptionNode>)
    requires
        v.len() <= order_of(m).len(),
        forall|i: int| 0 <= i < v.len() ==> *(#[trigger] v[i]) == m@[order_of(m)[i]],
    ensures
        total(s + v) == total(s) + weight_first(m, v.len()),
    decreases v.len()
{
    broadcast use axiom_order_of;
    if v.len() == 0 {
        assert(s + v =~= s);
    } else {
        let w = v.drop_last();
        assert((s + v).drop_last() =~= s + w);
        lemma_total_add(s, w, m);
        assert(order_of(m).contains(order_of(m)[v.len() - 1]));
        assert(*v.last() == m@[order_of(m)[v.len() - 1]]);
        assert((s + v).last() == v.last());
    }
}

/// b is a with every subscription of c taken out.
spec fn cleaned(a: SubscriptionNode, b: SubscriptionNode, c: String) -> bool {
    forall|f: Path| lacks(#[trigger] clients_at(b, f), clients_at(a, f), c)
}

#[verifier::prophetic]
spec fn all_cleaned(s: Seq<&mut SubscriptionNode>, c: String) -> bool {
    forall|i: int| 0 <= i < s.len() ==> cleaned(*(#[trigger] s[i]), *final(s[i]), c)
}

/// Cleaning a tree takes the client's subscriptions away and nothing else.
proof fn lemma_cleaned(a: SubscriptionNode, c: String)
    requires
        tidy(a),
    ensures
        forall|b: SubscriptionNode| #[trigger] cleaned(a, b, c) ==> {
            &&& tidy(b)
            &&& forall|f: Path, x: String| #[trigger] clients_at(b, f).contains(x) == (clients_at(a, f).contains(x) && x != c)
        },
{
    assert forall|b: SubscriptionNode| #[trigger] cleaned(a, b, c) implies {
            &&& tidy(b)
            &&& forall|f: Path, x: String| #[trigger] clients_at(b, f).contains(x) == (clients_at(a, f).contains(x) && x != c)
        } by {
        assert forall|f: Path| (#[trigger] clients_at(b, f)).no_duplicates() by { assert(lacks(clients_at(b, f), clients_at(a, f), c)); reveal(lacks); }
        assert forall|f: Path, x: String| #[trigger] clients_at(b, f).contains(x) == (clients_at(a, f).contains(x) && x != c) by {
            assert(clients_at(a, f).no_duplicates());
            assert(lacks(clients_at(b, f), clients_at(a, f), c));
            reveal(lacks);
        }
    }
}

proof fn lemma_cleaned_up(a: SubscriptionNode, b: SubscriptionNode, c: String)
    requires
        lacks(b.clients@, a.clients@, c),
        b.children@.dom() == a.children@.dom(),
        forall|k: String| #[trigger] a.children@.contains_key(k) ==> cleaned(a.children@[k], b.children@[k], c),
    ensures
        cleaned(a, b, c),
{
    assert forall|f: Path| lacks(#[trigger] clients_at(b, f), clients_at(a, f), c) by {
        lemma_lacks(clients_at(a, f), c);
        reveal_with_fuel(clients_at, 2);
        if f.len() > 0 {
            assert(b.children@.contains_key(str_of(f[0])) == a.children@.contains_key(str_of(f[0])));
            if a.children@.contains_key(str_of(f[0])) {
                assert(lacks(clients_at(b.children@[str_of(f[0])], f.drop_first()), clients_at(a.children@[str_of(f[0])], f.drop_first()), c));
            }
        }
    }
}

broadcast proof fn lemma_all_cleaned_pop(s: Seq<&mut SubscriptionNode>, c: String)
    requires
        s.len() > 0,
        all_cleaned(s.subrange(0, s.len() - 1), c),
        cleaned(*s[s.len() - 1], *final(s[s.len() - 1]), c),
    ensures
        #![trigger all_cleaned(s, c), s.subrange(0, s.len() - 1)]
        all_cleaned(s, c),
{
    assert forall|i: int| 0 <= i < s.len() implies cleaned(*(#[trigger] s[i]), *final(s[i]), c) by {
        if i < s.len() - 1 {
            assert(s.subrange(0, s.len() - 1)[i] == s[i]);
        }
    }
}

#[verifier::prophetic]
spec fn spread(nodes: Seq<&mut SubscriptionNode>, rest: Seq<&mut SubscriptionNode>, n0: SubscriptionNode, n1: SubscriptionNode) -> bool {
    &&& nodes.len() == rest.len() + order_of(n0.children).len()
    &&& nodes.take(rest.len() as int) == rest
    &&& n1.children@.dom() == n0.children@.dom()
    &&& forall|i: int| 0 <= i < order_of(n0.children).len() ==> *(#[trigger] nodes[rest.len() + i]) == n0.children@[order_of(n0.children)[i]]
    &&& forall|i: int| 0 <= i < order_of(n0.children).len() ==> *final(#[trigger] nodes[rest.len() + i]) == n1.children@[order_of(n0.children)[i]]
}

proof fn lemma_spread(nodes: Seq<&mut SubscriptionNode>, rest: Seq<&mut SubscriptionNode>, n0: SubscriptionNode, n1: SubscriptionNode, c: String)
    requires
        spread(nodes, rest, n0, n1),
        lacks(n1.clients@, n0.clients@, c),
    ensures
        all_cleaned(nodes, c) ==> all_cleaned(rest, c) && cleaned(n0, n1, c),
{
    broadcast use axiom_order_of;
    let o = order_of(n0.children);
    assert(all_cleaned(nodes, c) ==> all_cleaned(rest, c)) by {
        assert forall|i: int| all_cleaned(nodes, c) && 0 <= i < rest.len() implies cleaned(*(#[trigger] rest[i]), *final(rest[i]), c) by {
            assert(nodes.take(rest.len() as int)[i] == nodes[i]);
        }
    }
    assert forall|k: String| all_cleaned(nodes, c) && #[trigger] n0.children@.contains_key(k) implies cleaned(n0.children@[k], n1.children@[k], c) by {
        assert(o.contains(k));
        let i = choose|i: int| 0 <= i < o.len() && o[i] == k;
        let n = nodes[rest.len() + i];
        assert(cleaned(*n, *final(n), c));
    }
    assert((forall|k: String| #[trigger] n0.children@.contains_key(k) ==> cleaned(n0.children@[k], n1.children@[k], c)) ==> cleaned(n0, n1, c)) by {
        lemma_cleaned_up_if(n0, n1, c);
    }
}

broadcast proof fn lemma_total_pop(s: Seq<&mut SubscriptionNode>)
    requires
        s.len() > 0,
    ensures
        #![trigger total(s), s.subrange(0, s.len() - 1)]
        total(s) == total(s.subrange(0, s.len() - 1)) + weight(*s[s.len() - 1]),
{
    assert(s.drop_last() =~= s.subrange(0, s.len() - 1));
}

proof fn lemma_cleaned_up_if(a: SubscriptionNode, b: SubscriptionNode, c: String)
    requires
        lacks(b.clients@, a.clients@, c),
        b.children@.dom() == a.children@.dom(),
    ensures
        (forall|k: String| #[trigger] a.children@.contains_key(k) ==> cleaned(a.children@[k], b.children@[k], c)) ==> cleaned(a, b, c),
{
    if forall|k: String| #[trigger] a.children@.contains_key(k) ==> cleaned(a.children@[k], b.children@[k], c) {
        lemma_cleaned_up(a, b, c);
    }
}

/// What a lookup below a node has to return.
spec fn found(n: SubscriptionNode, t: Path) -> Multiset<String>
    decreases t.len()
{
    if t.len() == 0 {
        n.clients@.to_multiset()
    } else {
        (match kid(n, t[0]) { Some(k) => found(k, t.drop_first()), None => Multiset::empty() })
            .add(match kid(n, plus()) { Some(k) => found(k, t.drop_first()), None => Multiset::empty() })
            .add(match kid(n, hash()) { Some(k) => k.clients@.to_multiset(), None => Multiset::empty() })
    }
}

spec fn found_all(ns: Seq<&SubscriptionNode>, t: Path) -> Multiset<String>
    decreases ns.len()
{
    if ns.len() == 0 { Multiset::empty() } else { found(*ns[0], t).add(found_all(ns.drop_first(), t)) }
}

broadcast proof fn lemma_found_push(ns: Seq<&SubscriptionNode>, n: &SubscriptionNode, t: Path)
    ensures
        #[trigger] found_all(ns.push(n), t) == found_all(ns, t).add(found(*n, t)),
    decreases ns.len()
{
    reveal_with_fuel(found_all, 2);
    if ns.len() > 0 {
        assert(ns.push(n).drop_first() =~= ns.drop_first().push(n));
        lemma_found_push(ns.drop_first(), n, t);
    } else {
        assert(ns.push(n).drop_first() =~= ns);
    }
    assert(found_all(ns.push(n), t) =~= found_all(ns, t).add(found(*n, t)));
}

proof fn lemma_found_one(ns: Seq<&SubscriptionNode>, t: Path)
    requires
        ns.len() == 1,
    ensures
        found_all(ns, t) == found(*ns[0], t),
{
    reveal_with_fuel(found_all, 2);
    assert(found_all(ns, t) =~= found(*ns[0], t));
}

/// How often c is stored under one of the filters.
spec fn stored(n: SubscriptionNode, fs: Seq<Path>, c: String) -> nat
    decreases fs.len()
{
    if fs.len() == 0 { 0 } else { stored(n, fs.drop_last(), c) + clients_at(n, fs.last()).to_multiset().count(c) }
}

proof fn lemma_stored_add(n: SubscriptionNode, a: Seq<Path>, b: Seq<Path>, c: String)
    ensures
        stored(n, a + b, c) == stored(n, a, c) + stored(n, b, c),
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_stored_add(n, a, b.drop_last(), c);
    }
}

proof fn lemma_stored_under(n: SubscriptionNode, l: Seq<char>, fs: Seq<Path>, c: String)
    ensures
        stored(n, under(l, fs), c) == match kid(n, l) { Some(k) => stored(k, fs, c), None => 0 },
    decreases fs.len()
{
    if fs.len() > 0 {
        lemma_stored_under(n, l, fs.drop_last(), c);
        assert(under(l, fs).drop_last() =~= under(l, fs.drop_last()));
        let f = under(l, fs).last();
        assert(f.drop_first() =~= fs.last());
        assert(f[0] == l);
        reveal_with_fuel(clients_at, 2);
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
    }
}

proof fn lemma_found_stored(n: SubscriptionNode, t: Path, c: String)
    ensures
        found(n, t).count(c) == stored(n, hits(t), c),
    decreases t.len()
{
    reveal_with_fuel(stored, 2);
    if t.len() == 0 {
        assert(hits(t).drop_last() =~= Seq::empty());
    } else {
        let r = hits(t.drop_first());
        let h = seq![seq![hash()]];
        lemma_stored_add(n, h + under(t[0], r), under(plus(), r), c);
        lemma_stored_add(n, h, under(t[0], r), c);
        lemma_stored_under(n, t[0], r, c);
        lemma_stored_under(n, plus(), r, c);
        if let Some(k) = kid(n, t[0]) { lemma_found_stored(k, t.drop_first(), c); }
        if let Some(k) = kid(n, plus()) { lemma_found_stored(k, t.drop_first(), c); }
        assert(h.drop_last() =~= Seq::empty());
        let f = seq![hash()];
        assert(f.drop_first() =~= Seq::empty());
        reveal_with_fuel(clients_at, 2);
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
    }
}

proof fn lemma_stored_filter(r: SubscriptionsRepository, fs: Seq<Path>, c: String)
    requires
        r.wf(),
    ensures
        stored(r.root, fs, c) == fs.filter(|f: Path| r.holds(f, c)).len(),
    decreases fs.len()
{
    reveal(Seq::filter);
    if fs.len() > 0 {
        lemma_stored_filter(r, fs.drop_last(), c);
        let cs = clients_at(r.root, fs.last());
        assert(cs.no_duplicates());
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        cs.lemma_multiset_has_no_duplicates();
        assert(cs.to_multiset().count(c) == if cs.contains(c) { 1nat } else { 0nat });
    }
}

proof fn lemma_found_exact(r: SubscriptionsRepository, t: Path, v: Seq<String>)
    requires
        r.wf(),
        v.to_multiset() == found(r.root, t),
    ensures
        forall|c: String| #[trigger] v.to_multiset().count(c) == r.recipients(t, c),
{
    assert forall|c: String| #[trigger] v.to_multiset().count(c) == r.recipients(t, c) by {
        lemma_found_stored(r.root, t, c);
        lemma_stored_filter(r, hits(t), c);
    }
}

@fn SubscriptionNode::new() -> r
@props C09
    ensures
        r.is_new(),
@fn SubscriptionsRepository::new() -> r
@props C09 C10 C12
    ensures
        r.wf(), //@ C09
        forall|f: Path, c: String| !#[trigger] r.holds(f, c), //@ C09 C10

@fn SubscriptionsRepository::disconnected(client_id)
@props C10
    requires
        old(self).wf(),
    ensures
        final(self).wf(), //@ C08 C10
        forall|f: Path, c: String| #[trigger] final(self).holds(f, c) == (old(self).holds(f, c) && c != *client_id), //@ C10
@enter
    proof { lemma_cleaned(self.root, *client_id); }

@fn SubscriptionsRepository::connections_lost(client_id)
@props C10 C11
    requires
        old(self).wf(),
    ensures
        final(self).wf(), //@ C08 C10
        forall|f: Path, c: String| #[trigger] final(self).holds(f, c) == (old(self).holds(f, c) && c != *client_id), //@ C10 C11
@enter
    proof { lemma_cleaned(self.root, *client_id); }

@fn SubscriptionsRepository::remove_client(node, client_id)
@props C10 C11
@attr #[verifier::allow_complex_invariants]
    ensures
        cleaned(*old(node), *final(node), *client_id), //@ C10 C11
@loop 1 while
    invariant
        all_cleaned(nodes@, *client_id) ==> cleaned(node0, node1, *client_id), //@ C10
    ensures
        nodes@.len() == 0,
    decreases total(nodes@), //@ C21
@enter
    broadcast use {lemma_all_cleaned_pop, lemma_total_pop};
    let ghost node0 = *node;
    let ghost node1 = *final(node);
@local nodes ~ vec![node]
@vars 1 node
@top 1
    let ghost rest = nodes@;
    let ghost n0 = *node;
    let ghost n1 = *final(node);
    proof { lemma_lacks(n0.clients@, *client_id); }
@bottom 1
    proof {
        let v = nodes@.skip(rest.len() as int);
        assert(nodes@.take(rest.len() as int) =~= rest);
        assert(nodes@ =~= rest + v);
        lemma_total_add(rest, v, n0.children);
        assert(spread(nodes@, rest, n0, n1));
        lemma_spread(nodes@, rest, n0, n1, *client_id);
    }

@fn SubscriptionsRepository::subscribe(client_id, subscription) -> r
@props C09
    requires
        old(self).wf(),
    ensures
        final(self).wf(), //@ C08 C09
        forall|f: Path, c: String| #[trigger] final(self).holds(f, c) == (old(self).holds(f, c) || (f == levels(subscription.topic_v()) && c == *client_id)), //@ C09
        r == SubAckReturnCode::SuccessQoS0, //@ C09
@local segments ~ .split(
@local node ~ &mut self.root
@loop 1 for
    invariant
        vx_it1.seq() == all,
        texts(all) == path,
        clients_at(*node, path.skip(vx_it1.index@)) == clients_at(root0, path),
        forall|cs: Seq<String>| #[trigger] changed(*node, *final(node), path.skip(vx_it1.index@), cs) ==> changed(root0, root1, path, cs),
@before 1
    let ghost path = levels(subscription.topic_v());
    let ghost root0 = *node;
    let ghost root1 = *final(node);
    let ghost all = segments@;
    proof { reveal_strlit("/"); lemma_texts(segments@, path); assert(path.skip(0) =~= path); }
@top 1
    let ghost n0 = *node;
    let ghost n1 = *final(node);
    let ghost k = vx_it1.index@ as int;
@bottom 1
    proof {
        lemma_skip_step(path, k);
        assert(all[k]@ == path[k]);
        reveal_with_fuel(clients_at, 2);
        if kid(n0, path[k]) is None {
            lemma_empty_node(*node, path.skip(k + 1));
        }
        assert forall|cs: Seq<String>| #[trigger] changed(*node, *final(node), path.skip(k + 1), cs) implies changed(root0, root1, path, cs) by {
            lemma_changed_up(n0, n1, path[k], *node, *final(node), path.skip(k), cs);
        }
    }
@after 1
    proof {
        assert(path.skip(path.len() as int) =~= Path::empty());
        lemma_lacks(node.clients@, *client_id);
        lemma_gains(node.clients@, *client_id);
        lemma_at_node(root0, root1, *node, *final(node), path, *client_id);
    }

@fn SubscriptionsRepository::unsubscribe(client_id, topics)
@props C09
    requires
        old(self).wf(),
    ensures
        final(self).wf(), //@ C08 C09
        forall|f: Path, c: String| #[trigger] final(self).holds(f, c) == (old(self).holds(f, c) && !(c == *client_id && exists|i: int| 0 <= i < topics@.len() && f == levels((#[trigger] topics@[i])@))), //@ C09
@local segments ~ .split(
@local node ~ &mut self.root
@vars 1 topic
@loop 1 for
    invariant
        self.wf(), //@ C08 C09
        forall|f: Path, c: String| #[trigger] self.holds(f, c) == (old(self).holds(f, c) && !(c == *client_id && exists|i: int| 0 <= i < vx_it1.index@ && f == levels((#[trigger] topics@[i])@))), //@ C09
@loop 2 for
    invariant
        vx_it2.seq() == all,
        texts(all) == path,
        clients_at(*node, path.skip(vx_it2.index@)) == clients_at(root0, path),
        forall|cs: Seq<String>| #[trigger] changed(*node, *final(node), path.skip(vx_it2.index@), cs) ==> changed(root0, root1, path, cs),
@top 1
    let ghost s0 = *self;
    let ghost n = vx_it1.index@ as int;
    proof { assert(topics@[n] == *topic); }
@bottom 1
    proof {
        assert(self.wf());
        assert forall|f: Path, c: String| #[trigger] self.holds(f, c) == (s0.holds(f, c) && !(c == *client_id && f == levels(topics@[n]@))) by {}
        assert forall|f: Path, c: String| #[trigger] self.holds(f, c) == (old(self).holds(f, c) && !(c == *client_id && exists|i: int| 0 <= i < n + 1 && f == levels((#[trigger] topics@[i])@))) by {
            if exists|i: int| 0 <= i < n && f == levels((#[trigger] topics@[i])@) {
                let i = choose|i: int| 0 <= i < n && f == levels((#[trigger] topics@[i])@);
                assert(0 <= i < n + 1 && f == levels((topics@[i])@));
            }
        }
    }
@before 2
    let ghost path = levels(topic@);
    let ghost root0 = *node;
    let ghost root1 = *final(node);
    let ghost all = segments@;
    proof { reveal_strlit("/"); lemma_texts(segments@, path); assert(path.skip(0) =~= path); }
@top 2
    let ghost n0 = *node;
    let ghost n1 = *final(node);
    let ghost k = vx_it2.index@ as int;
@bottom 2
    proof {
        lemma_skip_step(path, k);
        assert(all[k]@ == path[k]);
        reveal_with_fuel(clients_at, 2);
        if kid(n0, path[k]) is None {
            lemma_empty_node(*node, path.skip(k + 1));
        }
        assert forall|cs: Seq<String>| #[trigger] changed(*node, *final(node), path.skip(k + 1), cs) implies changed(root0, root1, path, cs) by {
            lemma_changed_up(n0, n1, path[k], *node, *final(node), path.skip(k), cs);
        }
    }
@after 2
    proof {
        assert(path.skip(path.len() as int) =~= Path::empty());
        lemma_lacks(node.clients@, *client_id);
        lemma_at_node(root0, root1, *node, *final(node), path, *client_id);
    }

@fn SubscriptionsRepository::subscribed_clients(topic) -> r
@props C08
    requires
        self.wf(),
    ensures
        r is Some, //@ C08
        forall|c: String| #[trigger] r->Some_0@.to_multiset().count(c) == self.recipients(levels(topic@), c), //@ C08 C13
@local segments ~ .split(
@local client_ids ~ Vec::<ClientId>::new()
@local nodes ~ vec![&self.root]
@local descendant_nodes ~ Vec::new()
@vars 2 node
@loop 1 for
    invariant
        vx_it1.seq() == all,
        texts(all) == path,
        client_ids@.to_multiset().add(found_all(nodes@, path.skip(vx_it1.index@))) == found(self.root, path), //@ C08
@before 1
    let ghost path = levels(topic@);
    let ghost all = segments@;
    proof {
        reveal_strlit("/");
        reveal_strlit("+");
        reveal_strlit("#");
        assert("+"@ =~= plus());
        assert("#"@ =~= hash());
        lemma_texts(segments@, path);
        assert(path.skip(0) =~= path);
        lemma_found_one(nodes@, path);
        assert(client_ids@.to_multiset() =~= Multiset::empty());
        assert(client_ids@.to_multiset().add(found_all(nodes@, path.skip(0))) =~= found(self.root, path));
    }
@top 1
    let ghost k = vx_it1.index@ as int;
    proof { lemma_skip_step(path, k); assert(all[k]@ == path[k]); }
@after 1
    proof { assert(path.skip(path.len() as int) =~= Path::empty()); assert(nodes@.skip(0) =~= nodes@); }
@before 2
    let ghost ns = nodes@;
    proof {
        assert(ns.skip(0) =~= ns);
        assert(client_ids@.to_multiset().add(found_all(descendant_nodes@, path.skip(k + 1))).add(found_all(ns, path.skip(k))) =~= found(self.root, path));
    }
@loop 2 for
    invariant
        vx_it2.seq() == ns,
        client_ids@.to_multiset().add(found_all(descendant_nodes@, path.skip(k + 1))).add(found_all(ns.skip(vx_it2.index@), path.skip(k))) == found(self.root, path), //@ C08
@top 2
    let ghost j = vx_it2.index@ as int;
    let ghost c0 = client_ids@.to_multiset();
    let ghost d0 = descendant_nodes@;
@bottom 2
    proof {
        broadcast use lemma_found_push;
        assert(ns.skip(j)[0] == ns[j]);
        assert(ns.skip(j).drop_first() =~= ns.skip(j + 1));
        assert(client_ids@.to_multiset().add(found_all(descendant_nodes@, path.skip(k + 1))).add(found_all(ns.skip(j + 1), path.skip(k)))
            =~= c0.add(found_all(d0, path.skip(k + 1))).add(found_all(ns.skip(j), path.skip(k))));
    }
@after 2
    proof {
        assert(client_ids@.to_multiset().add(found_all(descendant_nodes@, path.skip(k + 1))) =~= found(self.root, path));
    }
@before 3
    let ghost c3 = client_ids@.to_multiset();
@loop 3 for
    invariant
        client_ids@.to_multiset() == c3.add(vx_over3@.take(vx_it3.index@).to_multiset()), //@ C08
@bottom 3
    proof {
        lemma_take_step(vx_over3@, vx_it3.index@);
        assert(client_ids@.to_multiset() =~= c3.add(vx_over3@.take(vx_it3.index@ + 1).to_multiset()));
    }
@after 3
    proof { assert(vx_over3@.take(vx_over3@.len() as int) =~= vx_over3@); }
@loop 4 for
    invariant
        client_ids@.to_multiset().add(found_all(vx_over4@.skip(vx_it4.index@), Seq::empty())) == found(self.root, path), //@ C08
@bottom 4
    proof {
        assert(vx_over4@.skip(vx_it4.index@).drop_first() =~= vx_over4@.skip(vx_it4.index@ + 1));
        assert(client_ids@.to_multiset().add(found_all(vx_over4@.skip(vx_it4.index@ + 1), Seq::empty())) =~= found(self.root, path));
    }
@after 4
    proof {
        assert(client_ids@.to_multiset() =~= found(self.root, path));
        lemma_found_exact(*self, path, client_ids@);
    }
@before 5
    let ghost c5 = client_ids@.to_multiset();
@loop 5 for
    invariant
        client_ids@.to_multiset() == c5.add(vx_over5@.take(vx_it5.index@).to_multiset()), //@ C08
@bottom 5
    proof {
        lemma_take_step(vx_over5@, vx_it5.index@);
        assert(client_ids@.to_multiset() =~= c5.add(vx_over5@.take(vx_it5.index@ + 1).to_multiset()));
    }
@after 5
    proof { assert(vx_over5@.take(vx_over5@.len() as int) =~= vx_over5@); }
