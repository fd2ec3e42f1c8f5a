// Topics, filters and the routing of messages, as mathematics. Written from MQTT 3.1.1, chapter 4.7,
// not from the code.
#![allow(unused_imports, dead_code)]
use vstd::prelude::*;
use crate::vx_prelude::*;

verus! {

/// A topic name or a topic filter, level by level.
pub type Path = Seq<Seq<char>>;

pub open spec fn levels(topic: Seq<char>) -> Path {
    split_at_char(topic, '/')
}

pub open spec fn plus() -> Seq<char> {
    seq!['+']
}

pub open spec fn hash() -> Seq<char> {
    seq!['#']
}

/// Whether a filter matches a topic name: '+' stands for one level, a final '#' for one or more.
pub open spec fn matches(f: Path, t: Path) -> bool
    decreases t.len(),
{
    if t.len() == 0 {
        f.len() == 0
    } else if f.len() == 0 {
        false
    } else if f.len() == 1 && f[0] == hash() {
        true
    } else {
        (f[0] == t[0] || f[0] == plus()) && matches(f.drop_first(), t.drop_first())
    }
}

/// No level is a wildcard.
pub open spec fn is_topic_name(t: Path) -> bool {
    forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != plus() && t[i] != hash()
}

pub open spec fn under(l: Seq<char>, fs: Seq<Path>) -> Seq<Path> {
    Seq::new(fs.len(), |i: int| seq![l] + fs[i])
}

/// The filters that match a topic name, listed.
pub open spec fn hits(t: Path) -> Seq<Path>
    decreases t.len(),
{
    if t.len() == 0 {
        seq![Seq::empty()]
    } else {
        let r = hits(t.drop_first());
        seq![seq![hash()]] + under(t[0], r) + under(plus(), r)
    }
}

/// The list is what it is meant to be: every matching filter is in it, once, and no other.
pub proof fn theorem_hits(t: Path, f: Path)
    requires
        is_topic_name(t),
    ensures
        hits(t).contains(f) == matches(f, t),
        hits(t).no_duplicates(),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(hits(t) == seq![Seq::<Seq<char>>::empty()]);
        assert(hits(t)[0] == Seq::<Seq<char>>::empty());
        assert(f.len() == 0 ==> f =~= hits(t)[0]);
    } else {
        let d = t.drop_first();
        let r = hits(d);
        assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != plus() && d[i] != hash() by {
            assert(d[i] == t[i + 1]);
        }
        let a = under(t[0], r);
        let b = under(plus(), r);
        let all = seq![seq![hash()]] + a + b;
        assert(hits(t) == all);
        assert(t[0] != plus() && t[0] != hash());
        lemma_words();
        assert forall|g: Path| all.contains(g) == matches(g, t) by {
            theorem_hits(d, if g.len() > 0 { g.drop_first() } else { g });
            if matches(g, t) {
                if g.len() == 1 && g[0] == hash() {
                    assert(g =~= seq![hash()]);
                    assert(all[0] == g);
                } else {
                    let g1 = g.drop_first();
                    let j = choose|j: int| 0 <= j < r.len() && r[j] == g1;
                    if g[0] == t[0] {
                        assert(g =~= a[j]);
                        assert(all[1 + j] == g);
                    } else {
                        assert(g =~= b[j]);
                        assert(all[1 + r.len() + j] == g);
                    }
                }
            }
            if all.contains(g) {
                let k = choose|k: int| 0 <= k < all.len() && all[k] == g;
                if k == 0 {
                    assert(g == seq![hash()]);
                } else if k < 1 + r.len() {
                    assert(g == a[k - 1]);
                    assert(g.drop_first() =~= r[k - 1]);
                    assert(r.contains(g.drop_first()));
                } else {
                    assert(g == b[k - 1 - r.len()]);
                    assert(g.drop_first() =~= r[k - 1 - r.len()]);
                    assert(r.contains(g.drop_first()));
                }
            }
        }
        theorem_hits(d, d);
        assert forall|i: int, j: int| 0 <= i < j < all.len() implies all[i] != all[j] by {
            if i == 0 {
                assert(all[0][0] == hash());
                assert(all[j][0] != hash());
            } else if i < 1 + r.len() {
                assert(all[i] == a[i - 1]);
                if j < 1 + r.len() {
                    assert(all[j] == a[j - 1]);
                    assert(all[i].drop_first() =~= r[i - 1]);
                    assert(all[j].drop_first() =~= r[j - 1]);
                } else {
                    assert(all[j] == b[j - 1 - r.len()]);
                    assert(all[i][0] == t[0]);
                    assert(all[j][0] == plus());
                }
            } else {
                assert(all[i] == b[i - 1 - r.len()]);
                assert(all[j] == b[j - 1 - r.len()]);
                assert(all[i].drop_first() =~= r[i - 1 - r.len()]);
                assert(all[j].drop_first() =~= r[j - 1 - r.len()]);
            }
        }
    }
}

pub proof fn lemma_words()
    ensures
        plus() != hash(),
{
    assert(plus()[0] == '+');
    assert(hash()[0] == '#');
}

pub proof fn lemma_levels_nonempty(s: Seq<char>, c: char)
    ensures
        split_at_char(s, c).len() > 0,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_levels_nonempty(s.drop_first(), c);
    }
}

/// Different texts have different levels.
pub proof fn theorem_levels_injective(a: Seq<char>, b: Seq<char>, c: char)
    requires
        split_at_char(a, c) == split_at_char(b, c),
    ensures
        a == b,
    decreases a.len() + b.len(),
{
    if a.len() == 0 || b.len() == 0 {
        lemma_split_unfold(a, c);
        lemma_split_unfold(b, c);
        if a.len() != 0 {
            assert(split_at_char(b, c).len() == 1);
            lemma_levels_nonempty(a.drop_first(), c);
            assert(split_at_char(a, c)[0].len() == 0);
        }
        if b.len() != 0 {
            lemma_levels_nonempty(b.drop_first(), c);
            assert(split_at_char(b, c)[0].len() == 0);
        }
        assert(a =~= b);
    } else {
        lemma_split_unfold(a, c);
        lemma_split_unfold(b, c);
        lemma_levels_nonempty(a.drop_first(), c);
        lemma_levels_nonempty(b.drop_first(), c);
        let x = split_at_char(a, c);
        let y = split_at_char(b, c);
        let a1 = split_at_char(a.drop_first(), c);
        let b1 = split_at_char(b.drop_first(), c);
        if a[0] == c {
            assert(x[0].len() == 0);
            if b[0] != c {
                assert(y[0].len() > 0);
            }
            assert(a1 =~= x.drop_first());
            assert(b1 =~= y.drop_first());
        } else {
            assert(x[0].len() > 0);
            assert(b[0] != c);
            assert(x[0][0] == a[0] && y[0][0] == b[0]);
            assert(a1[0] =~= x[0].drop_first());
            assert(b1[0] =~= y[0].drop_first());
            assert(a1 =~= x.update(0, x[0].drop_first()));
            assert(b1 =~= y.update(0, y[0].drop_first()));
        }
        theorem_levels_injective(a.drop_first(), b.drop_first(), c);
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    }
}

pub proof fn lemma_split_unfold(s: Seq<char>, c: char)
    ensures
        s.len() == 0 ==> split_at_char(s, c) == seq![Seq::<char>::empty()],
        s.len() > 0 && s[0] == c ==> split_at_char(s, c) == seq![Seq::<char>::empty()] + split_at_char(s.drop_first(), c),
        s.len() > 0 && s[0] != c ==> split_at_char(s, c) == split_at_char(s.drop_first(), c).update(0, seq![s[0]] + split_at_char(s.drop_first(), c)[0]),
{
}

} // verus!
