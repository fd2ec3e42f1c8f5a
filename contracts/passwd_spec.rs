// What the password tool rests on (command line, files, regular expressions, Argon2: trusted), and
// the definitions and lemmas about its effect on a password file (proved).
#![allow(unused_imports, dead_code, unused_variables)]
use crate::broker::authentication::{entries, known, users};
use crate::vx_prelude::*;
use clap::ArgMatches;
use regex::{Regex, RegexBuilder};
use vstd::prelude::*;
use vstd::utf8::encode_utf8;

verus! {

// ================================================================ trusted

// ---------------------------------------------------------------- the command line

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExArgMatches(clap::ArgMatches);

/// The value given to an option, or its default.
pub uninterp spec fn value(m: ArgMatches, name: Seq<char>) -> Option<Seq<char>>;

/// Whether a switch is given.
pub uninterp spec fn present(m: ArgMatches, name: Seq<char>) -> bool;

/// The command line of the process.
pub uninterp spec fn command_line() -> ArgMatches;

pub trait VxArgs {
    fn vx_value_of(&self, name: &str) -> (r: Option<&str>);
    fn vx_is_present(&self, name: &str) -> (r: bool);
}

impl VxArgs for ArgMatches {
    #[verifier::external_body]
    fn vx_value_of(&self, name: &str) -> (r: Option<&str>)
        ensures
            r is Some == value(*self, name@) is Some,
            r is Some ==> r->Some_0@ == value(*self, name@)->Some_0,
    {
        self.value_of(name)
    }
    #[verifier::external_body]
    fn vx_is_present(&self, name: &str) -> (r: bool)
        ensures
            r == present(*self, name@),
    {
        self.is_present(name)
    }
}

// ---------------------------------------------------------------- files

/// What the tool has done so far: which files it has written, and with which content.
pub tracked struct VxTool {
    pub ghost written: Seq<(Seq<char>, Seq<char>)>,
}

pub trait VxContent {
    spec fn content(&self) -> Seq<char>;
    fn store(&self, name: &str) -> (r: Result<(), std::io::Error>);
}

impl VxContent for String {
    open spec fn content(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn store(&self, name: &str) -> (r: Result<(), std::io::Error>) { std::fs::write(name, self) }
}

impl VxContent for &str {
    open spec fn content(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn store(&self, name: &str) -> (r: Result<(), std::io::Error>) { std::fs::write(name, self) }
}

impl VxContent for &String {
    open spec fn content(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn store(&self, name: &str) -> (r: Result<(), std::io::Error>) { std::fs::write(name, self) }
}

/// `std::fs::read_to_string(n)`, as long as nothing has been written
#[verifier::external_body]
pub fn vx_read_file<N: VxName>(n: N, Tracked(w): Tracked<&mut VxTool>) -> (r: Result<String, std::io::Error>)
    requires
        old(w).written.len() == 0,
    ensures
        *final(w) == *old(w),
        match r { Ok(t) => file_text(n.name()) == Some(t@), Err(_) => file_text(n.name()) is None },
{
    n.read()
}

/// `std::fs::write(n, c)`
#[verifier::external_body]
pub fn vx_write_file<C: VxContent>(n: &str, c: C, Tracked(w): Tracked<&mut VxTool>) -> (r: Result<(), std::io::Error>)
    ensures
        r is Ok,
        final(w).written == old(w).written.push((n@, c.content())),
{
    c.store(n)
}

// ---------------------------------------------------------------- Argon2

pub struct VxSalt {}

pub struct VxArgon2 {}

#[derive(Debug)]
pub struct VxHashError {}

#[verifier::external_body]
pub struct VxHash {
    text: String,
}

/// h is a hash of this password, of no other one, on a line of its own.
pub open spec fn hash_for(h: Seq<char>, password: Seq<u8>) -> bool {
    &&& well_formed_hash(h)
    &&& forall|p: Seq<u8>| #[trigger] password_verifies(h, p) <==> p == password
    &&& h.len() > 0
    &&& !h.contains('\n')
    &&& !h.contains('\r')
}

impl VxHash {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String)
        ensures
            r@ == self.text(),
    {
        self.text.clone()
    }
}

impl VxShow for VxHash {
    open spec fn shown(&self) -> Seq<char> { self.text() }
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.text.clone() }
}

/// `SaltString::generate(&mut OsRng)`
#[verifier::external_body]
pub fn vx_salt() -> (r: VxSalt) { VxSalt {} }

/// `Argon2::default()`
#[verifier::external_body]
pub fn vx_argon2() -> (r: VxArgon2) { VxArgon2 {} }

impl VxArgon2 {
    #[verifier::external_body]
    pub fn hash_password(&self, p: &[u8], s: &VxSalt) -> (r: Result<VxHash, VxHashError>)
        ensures
            r is Ok,
            hash_for(r->Ok_0.text(), p@),
    {
        unimplemented!()
    }
}

// ---------------------------------------------------------------- regular expressions

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExRegex(regex::Regex);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExRegexError(regex::Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExRegexBuilder(regex::RegexBuilder);

/// The pattern, and whether `^` and `$` match at lines.
pub uninterp spec fn pattern(r: Regex) -> (Seq<char>, bool);

pub uninterp spec fn settings(r: RegexBuilder) -> (Seq<char>, bool);

/// Where the leftmost match begins and ends.
pub uninterp spec fn first_match(p: (Seq<char>, bool), t: Seq<char>) -> Option<(int, int)>;

pub uninterp spec fn compiles(p: (Seq<char>, bool)) -> bool;

pub uninterp spec fn escaped(p: Seq<char>) -> Seq<char>;

pub assume_specification[ regex::RegexBuilder::new ](p: &str) -> (r: RegexBuilder)
    ensures
        settings(r) == (p@, false),
;

pub assume_specification<'a>[ regex::RegexBuilder::multi_line ](b: &'a mut RegexBuilder, yes: bool) -> (r: &'a mut RegexBuilder)
    ensures
        settings(*r) == (settings(*old(b)).0, yes),
        *final(b) == *final(r),
;

pub assume_specification[ regex::RegexBuilder::build ](b: &RegexBuilder) -> (r: Result<Regex, regex::Error>)
    ensures
        r is Ok == compiles(settings(*b)),
        r is Ok ==> pattern(r->Ok_0) == settings(*b),
;

pub assume_specification[ regex::Regex::new ](p: &str) -> (r: Result<Regex, regex::Error>)
    ensures
        r is Ok == compiles((p@, false)),
        r is Ok ==> pattern(r->Ok_0) == (p@, false),
;

pub assume_specification[ regex::Regex::is_match ](x: &Regex, t: &str) -> (r: bool)
    ensures
        r == (first_match(pattern(*x), t@) is Some),
;

pub assume_specification[ regex::escape ](x: &str) -> (r: String)
    ensures
        r@ == escaped(x@),
;

/// What the replacement text of `Regex::replace` stands for, where there are no groups.
pub uninterp spec fn expand(s: Seq<char>) -> Seq<char>;

pub open spec fn replace_char(s: Seq<char>, c: char, to: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 {
        Seq::empty()
    } else {
        (if s[0] == c { to } else { seq![s[0]] }) + replace_char(s.drop_first(), c, to)
    }
}

pub uninterp spec fn replace_text(s: Seq<char>, p: Seq<char>, to: Seq<char>) -> Seq<char>;

pub open spec fn replaced(s: Seq<char>, p: Seq<char>, to: Seq<char>) -> Seq<char> {
    if p.len() == 1 { replace_char(s, p[0], to) } else { replace_text(s, p, to) }
}

/// `$$` stands for a dollar sign.
pub broadcast axiom fn axiom_expand_doubled(s: Seq<char>)
    ensures
        #[trigger] expand(replace_char(s, '$', "$$"@)) == s,
;

/// A text without dollar signs stands for itself.
pub broadcast axiom fn axiom_expand_plain(s: Seq<char>)
    requires
        !s.contains('$'),
    ensures
        #[trigger] expand(s) == s,
;

/// A text that may be borrowed.
#[verifier::external_body]
pub struct VxText {
    text: String,
}

impl VxText {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String)
        ensures
            r@ == self.text(),
    {
        self.text
    }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String)
        ensures
            r@ == self.text(),
    {
        self.text.clone()
    }
}

/// `x.replace(a, b)` of a text or a regular expression
pub trait VxReplace {
    type Out;
    spec fn outcome(&self, a: Seq<char>, b: Seq<char>, r: Self::Out) -> bool;
    fn vx_replace(&self, a: &str, b: &str) -> (r: Self::Out)
        ensures
            self.outcome(a@, b@, r),
    ;
}

impl VxReplace for str {
    type Out = String;
    open spec fn outcome(&self, a: Seq<char>, b: Seq<char>, r: String) -> bool {
        r@ == replaced(self@, a, b)
    }
    #[verifier::external_body]
    fn vx_replace(&self, a: &str, b: &str) -> (r: String) { self.replace(a, b) }
}

impl VxReplace for Regex {
    type Out = VxText;
    open spec fn outcome(&self, a: Seq<char>, b: Seq<char>, r: VxText) -> bool {
        r.text() == match first_match(pattern(*self), a) {
            Some((i, j)) => a.take(i) + expand(b) + a.skip(j),
            None => a,
        }
    }
    #[verifier::external_body]
    fn vx_replace(&self, a: &str, b: &str) -> (r: VxText) { VxText { text: self.replace(a, b).into_owned() } }
}

/// The pattern for the line of a user: the line's beginning, the name as it is, a colon, and what
/// follows up to the end of the line.
pub open spec fn entry_pattern(u: Seq<char>) -> Seq<char> {
    "^"@ + escaped(u) + r":.*\n?"@
}

/// What that pattern matches.
pub axiom fn axiom_entry_pattern(u: Seq<char>, t: Seq<char>)
    requires
        !u.contains('\n'),
    ensures
        compiles((entry_pattern(u), true)),
        first_match((entry_pattern(u), true), t) == match find_entry(t, u, 0) {
            Some(i) => Some((i, line_end(t, i))),
            None => None,
        },
;

// ================================================================ definitions

pub open spec fn line_start(t: Seq<char>, i: int) -> bool {
    i == 0 || t[i - 1] == '\n'
}

/// Where the line ends that t[i] is on (its line end included).
pub open spec fn line_end(t: Seq<char>, i: int) -> int
    decreases t.len() - i,
{
    if i >= t.len() { t.len() as int } else if t[i] == '\n' { i + 1 } else { line_end(t, i + 1) }
}

/// Whether the entry of u begins at i.
pub open spec fn entry_at(t: Seq<char>, u: Seq<char>, i: int) -> bool {
    &&& 0 <= i
    &&& i + u.len() < t.len()
    &&& line_start(t, i)
    &&& t.subrange(i, i + u.len()) =~= u
    &&& t[i + u.len()] == ':'
}

/// The first entry of u from i on.
pub open spec fn find_entry(t: Seq<char>, u: Seq<char>, i: int) -> Option<int>
    decreases t.len() - i,
{
    if i >= t.len() { None } else if entry_at(t, u, i) { Some(i) } else { find_entry(t, u, i + 1) }
}

pub open spec fn entry(u: Seq<char>, h: Seq<char>) -> Seq<char> {
    u + seq![':'] + h + seq!['\n']
}

/// The file after setting the user's hash.
pub open spec fn with_entry(t: Seq<char>, u: Seq<char>, h: Seq<char>) -> Seq<char> {
    match find_entry(t, u, 0) {
        Some(i) => t.take(i) + entry(u, h) + t.skip(line_end(t, i)),
        None => t + (if t.len() == 0 || t.last() == '\n' { Seq::empty() } else { seq!['\n'] }) + entry(u, h),
    }
}

/// The file after deleting the user.
pub open spec fn without_entry(t: Seq<char>, u: Seq<char>) -> Seq<char> {
    match find_entry(t, u, 0) {
        Some(i) => t.take(i) + t.skip(line_end(t, i)),
        None => t,
    }
}

/// The file's content after what the tool has written.
pub open spec fn content_after(w: VxTool, t: Seq<char>) -> Seq<char> {
    if w.written.len() == 0 { t } else { w.written.last().1 }
}

// ================================================================ lines

/// The lines of a file, without line ends.
pub open spec fn rows(t: Seq<char>) -> Seq<Seq<char>> {
    let p = split_at_char(t, '\n');
    if p.last().len() == 0 { p.drop_last() } else { p }
}

/// Whether a line is the entry of this user.
pub open spec fn own(l: Seq<char>, u: Seq<char>) -> bool {
    &&& u.len() < l.len()
    &&& l.take(u.len() as int) =~= u
    &&& l[u.len() as int] == ':'
}

/// The lines that are entries of the user, and those that are not.
pub open spec fn mine(ls: Seq<Seq<char>>, u: Seq<char>) -> Seq<Seq<char>>
    decreases ls.len(),
{
    if ls.len() == 0 {
        Seq::empty()
    } else if own(ls.last(), u) {
        mine(ls.drop_last(), u).push(ls.last())
    } else {
        mine(ls.drop_last(), u)
    }
}

pub open spec fn others(ls: Seq<Seq<char>>, u: Seq<char>) -> Seq<Seq<char>>
    decreases ls.len(),
{
    if ls.len() == 0 {
        Seq::empty()
    } else if own(ls.last(), u) {
        others(ls.drop_last(), u)
    } else {
        others(ls.drop_last(), u).push(ls.last())
    }
}

pub open spec fn terminated(a: Seq<char>) -> bool {
    a.len() == 0 || a.last() == '\n'
}

proof fn lemma_split_some(s: Seq<char>)
    ensures
        split_at_char(s, '\n').len() >= 1,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_split_some(s.drop_first());
    }
}

/// A complete line's pieces come before those of what follows.
proof fn lemma_split_add(a: Seq<char>, x: Seq<char>)
    requires
        a.len() > 0,
        a.last() == '\n',
    ensures
        split_at_char(a, '\n').len() >= 2,
        split_at_char(a, '\n').last().len() == 0,
        split_at_char(a + x, '\n') == split_at_char(a, '\n').drop_last() + split_at_char(x, '\n'),
    decreases a.len(),
{
    let b = a.drop_first();
    assert((a + x).drop_first() =~= b + x);
    assert((a + x)[0] == a[0]);
    lemma_split_some(x);
    if a.len() == 1 {
        assert(b =~= Seq::empty());
        assert(b + x =~= x);
        assert(split_at_char(b, '\n') =~= seq![Seq::empty()]);
        assert(split_at_char(a, '\n').drop_last() =~= seq![Seq::empty()]);
        assert(split_at_char(a + x, '\n') =~= split_at_char(a, '\n').drop_last() + split_at_char(x, '\n'));
    } else {
        lemma_split_add(b, x);
        assert(b.last() == '\n');
        assert(split_at_char(a + x, '\n') =~= split_at_char(a, '\n').drop_last() + split_at_char(x, '\n'));
    }
}

/// A text without line ends is one piece.
proof fn lemma_split_one(s: Seq<char>)
    requires
        !s.contains('\n'),
    ensures
        split_at_char(s, '\n') == seq![s],
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.drop_first();
        assert(forall|i: int| 0 <= i < r.len() ==> r[i] == s[i + 1]);
        assert(!r.contains('\n'));
        lemma_split_one(r);
        assert(s.contains(s[0]));
        assert(seq![s[0]] + r =~= s);
        assert(split_at_char(s, '\n') =~= seq![s]);
    } else {
        assert(s =~= Seq::empty());
        assert(split_at_char(s, '\n') =~= seq![s]);
    }
}

/// Adding the missing line end.
proof fn lemma_split_end(s: Seq<char>)
    ensures
        split_at_char(s.push('\n'), '\n') == split_at_char(s, '\n').push(Seq::empty()),
        s.len() > 0 && s.last() != '\n' ==> split_at_char(s, '\n').last().len() > 0 && split_at_char(s, '\n').last().last() == s.last(),
    decreases s.len(),
{
    lemma_split_some(s);
    if s.len() == 0 {
        let e = s.push('\n');
        assert(e.drop_first() =~= Seq::empty());
        assert(split_at_char(e.drop_first(), '\n') =~= seq![Seq::empty()]);
        assert(split_at_char(e, '\n') =~= split_at_char(s, '\n').push(Seq::empty()));
    } else {
        let r = s.drop_first();
        lemma_split_some(r);
        lemma_split_end(r);
        assert(s.push('\n').drop_first() =~= r.push('\n'));
        assert(split_at_char(s.push('\n'), '\n') =~= split_at_char(s, '\n').push(Seq::empty()));
        if r.len() == 0 {
            assert(split_at_char(r, '\n') =~= seq![Seq::empty()]);
        } else {
            assert(r.last() == s.last());
        }
    }
}

proof fn lemma_rows_add(a: Seq<char>, x: Seq<char>)
    requires
        terminated(a),
    ensures
        rows(a + x) == rows(a) + rows(x),
        lines_of(a + x) == lines_of(a) + lines_of(x),
{
    lemma_split_some(x);
    if a.len() == 0 {
        assert(a =~= Seq::empty());
        assert(a + x =~= x);
        assert(split_at_char(a, '\n') =~= seq![Seq::empty()]);
        assert(rows(a) =~= Seq::empty());
        assert(lines_of(a) =~= Seq::empty());
        assert(rows(a) + rows(x) =~= rows(x));
        assert(lines_of(a) + lines_of(x) =~= lines_of(x));
    } else {
        lemma_split_add(a, x);
        let pa = split_at_char(a, '\n');
        let px = split_at_char(x, '\n');
        let p = split_at_char(a + x, '\n');
        assert(p.last() == px.last());
        assert(p.drop_last() =~= pa.drop_last() + px.drop_last());
        assert(rows(a + x) =~= rows(a) + rows(x));
        assert(lines_of(a + x) =~= lines_of(a) + lines_of(x));
    }
}

/// A single line, complete or not.
proof fn lemma_rows_line(l: Seq<char>)
    requires
        l.len() > 0,
        forall|k: int| 0 <= k < l.len() - 1 ==> l[k] != '\n',
    ensures
        l.last() == '\n' ==> rows(l) == seq![l.drop_last()] && lines_of(l) == seq![no_cr(l.drop_last())],
        l.last() != '\n' ==> rows(l) == seq![l] && lines_of(l) == seq![l],
{
    if l.last() == '\n' {
        let s = l.drop_last();
        assert(s.push('\n') =~= l);
        assert(!s.contains('\n'));
        lemma_split_one(s);
        lemma_split_end(s);
        assert(split_at_char(l, '\n') =~= seq![s, Seq::empty()]);
        assert(rows(l) =~= seq![s]);
        assert(lines_of(l) =~= seq![no_cr(s)]);
    } else {
        assert(!l.contains('\n'));
        lemma_split_one(l);
        assert(rows(l) =~= seq![l]);
        assert(lines_of(l) =~= seq![l]);
    }
}

proof fn lemma_rows_end(t: Seq<char>)
    requires
        t.len() > 0,
        t.last() != '\n',
    ensures
        rows(t.push('\n')) == rows(t),
        t.last() != '\r' ==> lines_of(t.push('\n')) == lines_of(t),
{
    lemma_split_some(t);
    lemma_split_end(t);
    let p = split_at_char(t, '\n');
    assert(p.push(Seq::empty()).drop_last() =~= p);
    assert(rows(t.push('\n')) =~= rows(t));
    if t.last() != '\r' {
        assert(no_cr(p.last()) == p.last());
        assert(lines_of(t.push('\n')) =~= lines_of(t));
    }
}

proof fn lemma_mine_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>, u: Seq<char>)
    ensures
        mine(a + b, u) == mine(a, u) + mine(b, u),
        others(a + b, u) == others(a, u) + others(b, u),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(mine(a, u) + mine(b, u) =~= mine(a, u));
        assert(others(a, u) + others(b, u) =~= others(a, u));
    } else {
        lemma_mine_add(a, b.drop_last(), u);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(mine(a + b, u) =~= mine(a, u) + mine(b, u));
        assert(others(a + b, u) =~= others(a, u) + others(b, u));
    }
}

proof fn lemma_mine_one(l: Seq<char>, u: Seq<char>)
    ensures
        own(l, u) ==> mine(seq![l], u) == seq![l] && others(seq![l], u) == Seq::<Seq<char>>::empty(),
        !own(l, u) ==> mine(seq![l], u) == Seq::<Seq<char>>::empty() && others(seq![l], u) == seq![l],
{
    let s = seq![l];
    assert(s.drop_last() =~= Seq::empty());
    assert(mine(s.drop_last(), u) =~= Seq::empty());
    assert(others(s.drop_last(), u) =~= Seq::empty());
    assert(Seq::<Seq<char>>::empty().push(l) =~= s);
}

proof fn lemma_line_end(t: Seq<char>, i: int)
    requires
        0 <= i <= t.len(),
    ensures
        i <= line_end(t, i) <= t.len(),
        i < t.len() ==> i < line_end(t, i),
        forall|k: int| i <= k < line_end(t, i) - 1 ==> t[k] != '\n',
        line_end(t, i) < t.len() ==> t[line_end(t, i) - 1] == '\n',
    decreases t.len() - i,
{
    if i < t.len() && t[i] != '\n' {
        lemma_line_end(t, i + 1);
    }
}

proof fn lemma_find(t: Seq<char>, u: Seq<char>, i: int)
    requires
        0 <= i,
    ensures
        match find_entry(t, u, i) {
            Some(j) => i <= j && entry_at(t, u, j),
            None => forall|j: int| i <= j ==> !entry_at(t, u, j),
        },
    decreases t.len() - i,
{
    if i < t.len() && !entry_at(t, u, i) {
        lemma_find(t, u, i + 1);
    }
}

/// The line at i: what is before it, the line, what is after it.
proof fn lemma_cut(t: Seq<char>, i: int)
    requires
        0 <= i < t.len(),
        line_start(t, i),
    ensures
        ({
            let j = line_end(t, i);
            let l = t.subrange(i, j);
            &&& i < j <= t.len()
            &&& terminated(t.take(i))
            &&& l.len() > 0
            &&& forall|k: int| 0 <= k < l.len() - 1 ==> l[k] != '\n'
            &&& j < t.len() ==> l.last() == '\n'
            &&& t =~= t.take(i) + (l + t.skip(j))
            &&& rows(t) == rows(t.take(i)) + (rows(l) + rows(t.skip(j)))
            &&& lines_of(t) == lines_of(t.take(i)) + (lines_of(l) + lines_of(t.skip(j)))
        }),
{
    lemma_line_end(t, i);
    let j = line_end(t, i);
    let l = t.subrange(i, j);
    let a = t.take(i);
    let b = t.skip(j);
    assert(l.last() == t[j - 1]);
    if i > 0 {
        assert(a.last() == t[i - 1]);
    }
    assert(t =~= a + (l + b));
    lemma_rows_add(a, l + b);
    if l.last() == '\n' {
        lemma_rows_add(l, b);
    } else {
        assert(b =~= Seq::empty());
        assert(l + b =~= l);
        lemma_rows_add(b, b);
        assert(b + b =~= b);
        assert(split_at_char(b, '\n') =~= seq![Seq::empty()]);
        assert(rows(b) =~= Seq::empty());
        assert(lines_of(b) =~= Seq::empty());
        assert(rows(l) + rows(b) =~= rows(l));
        assert(lines_of(l) + lines_of(b) =~= lines_of(l));
    }
}

/// The entry found is a line that is the user's.
proof fn lemma_entry_line(t: Seq<char>, u: Seq<char>, i: int)
    requires
        !u.contains('\n'),
        entry_at(t, u, i),
    ensures
        ({
            let l = t.subrange(i, line_end(t, i));
            &&& rows(l).len() == 1
            &&& own(rows(l)[0], u)
            &&& lines_of(l).len() == 1
            &&& own(lines_of(l)[0], u)
        }),
{
    lemma_cut(t, i);
    let j = line_end(t, i);
    let l = t.subrange(i, j);
    let n = u.len() as int;
    assert(j > i + n) by {
        if j <= i + n {
            assert(l.last() == '\n');
            assert(l.last() == t[j - 1]);
            assert(t.subrange(i, i + n)[j - 1 - i] == t[j - 1]);
            assert(u[j - 1 - i] == '\n');
        }
    }
    assert(l[n] == ':');
    assert(l.take(n) =~= u) by {
        assert(t.subrange(i, i + n) =~= l.take(n));
    }
    lemma_rows_line(l);
    assert(l.drop_last().len() > n || l.last() != '\n');
    if l.last() == '\n' {
        assert(l.len() > n + 1);
        let r = l.drop_last();
        assert(r.take(n) =~= u);
        assert(r[n] == ':');
        let c = no_cr(r);
        assert(r.last() == '\r' ==> r.len() > n + 1);
        assert(c.take(n) =~= u);
        assert(c[n] == ':');
    }
}

/// If no entry begins anywhere, no line is the user's.
proof fn lemma_nobody(t: Seq<char>, u: Seq<char>)
    requires
        forall|i: int| 0 <= i ==> !entry_at(t, u, i),
    ensures
        forall|k: int| 0 <= k < rows(t).len() ==> !own(#[trigger] rows(t)[k], u),
        forall|k: int| 0 <= k < lines_of(t).len() ==> !own(#[trigger] lines_of(t)[k], u),
    decreases t.len(),
{
    if t.len() == 0 {
        assert(t =~= Seq::empty());
        assert(split_at_char(t, '\n') =~= seq![Seq::empty()]);
        assert(rows(t) =~= Seq::empty());
        assert(lines_of(t) =~= Seq::empty());
    } else {
        lemma_cut(t, 0);
        let j = line_end(t, 0);
        let l = t.subrange(0, j);
        let b = t.skip(j);
        let n = u.len() as int;
        assert(t.take(0) =~= Seq::empty());
        assert(split_at_char(t.take(0), '\n') =~= seq![Seq::empty()]);
        assert(rows(t.take(0)) =~= Seq::empty());
        assert(lines_of(t.take(0)) =~= Seq::empty());
        assert forall|i: int| 0 <= i implies !entry_at(b, u, i) by {
            if entry_at(b, u, i) {
                assert(t.subrange(i + j, i + j + n) =~= b.subrange(i, i + n));
                assert(t[i + j + n] == b[i + n]);
                lemma_line_end(t, 0);
                if i == 0 { assert(t[j - 1] == '\n'); } else { assert(b[i - 1] == t[i + j - 1]); }
                assert(entry_at(t, u, i + j));
            }
        }
        lemma_nobody(b, u);
        lemma_rows_line(l);
        assert(!own(rows(l)[0], u)) by {
            if own(rows(l)[0], u) {
                assert(t.subrange(0, n) =~= rows(l)[0].take(n));
                assert(t[n] == rows(l)[0][n]);
                assert(entry_at(t, u, 0));
            }
        }
        assert(!own(lines_of(l)[0], u)) by {
            if own(lines_of(l)[0], u) {
                assert(t.subrange(0, n) =~= lines_of(l)[0].take(n));
                assert(t[n] == lines_of(l)[0][n]);
                assert(entry_at(t, u, 0));
            }
        }
        assert(rows(t) =~= rows(l) + rows(b));
        assert(lines_of(t) =~= lines_of(l) + lines_of(b));
    }
}

proof fn lemma_mine_none(ls: Seq<Seq<char>>, u: Seq<char>)
    requires
        forall|k: int| 0 <= k < ls.len() ==> !own(#[trigger] ls[k], u),
    ensures
        mine(ls, u) == Seq::<Seq<char>>::empty(),
        others(ls, u) == ls,
    decreases ls.len(),
{
    if ls.len() > 0 {
        lemma_mine_none(ls.drop_last(), u);
        assert(ls.drop_last().push(ls.last()) =~= ls);
    } else {
        assert(ls =~= Seq::empty());
    }
}

/// The lines of a new entry.
proof fn lemma_entry(u: Seq<char>, h: Seq<char>)
    requires
        !u.contains('\n'),
        !h.contains('\n'),
        !h.contains('\r'),
    ensures
        terminated(entry(u, h)),
        rows(entry(u, h)) == seq![u + seq![':'] + h],
        lines_of(entry(u, h)) == seq![u + seq![':'] + h],
        own(u + seq![':'] + h, u),
{
    let e = entry(u, h);
    let l = u + seq![':'] + h;
    assert(e.drop_last() =~= l);
    assert forall|k: int| 0 <= k < e.len() - 1 implies e[k] != '\n' by {
        if k < u.len() { assert(e[k] == u[k]); } else if k > u.len() { assert(e[k] == h[k - u.len() - 1]); }
    }
    lemma_rows_line(e);
    assert(l.take(u.len() as int) =~= u);
    if h.len() > 0 {
        assert(l.last() == h.last());
        assert(h.contains(h.last()));
    }
}

// ================================================================ C23

/// Setting a password: the user has exactly one entry, with the new hash; the other lines are the same.
pub proof fn theorem_set(t: Seq<char>, u: Seq<char>, h: Seq<char>)
    requires
        !u.contains('\n'),
        !h.contains('\n'),
        !h.contains('\r'),
        mine(rows(t), u).len() <= 1,
    ensures
        mine(rows(with_entry(t, u, h)), u) == seq![u + seq![':'] + h], //@ C23
        others(rows(with_entry(t, u, h)), u) == others(rows(t), u), //@ C23
{
    let e = entry(u, h);
    let l = u + seq![':'] + h;
    lemma_entry(u, h);
    lemma_find(t, u, 0);
    lemma_mine_one(l, u);
    match find_entry(t, u, 0) {
        Some(i) => {
            lemma_cut(t, i);
            lemma_entry_line(t, u, i);
            let a = t.take(i);
            let old = t.subrange(i, line_end(t, i));
            let b = t.skip(line_end(t, i));
            lemma_rows_add(a, e + b);
            lemma_rows_add(e, b);
            assert(with_entry(t, u, h) =~= a + (e + b));
            lemma_mine_add(rows(a), rows(old) + rows(b), u);
            lemma_mine_add(rows(old), rows(b), u);
            lemma_mine_add(rows(a), rows(e) + rows(b), u);
            lemma_mine_add(rows(e), rows(b), u);
            assert(rows(old) =~= seq![rows(old)[0]]);
            lemma_mine_one(rows(old)[0], u);
            assert(mine(rows(a), u).len() == 0 && mine(rows(b), u).len() == 0);
            assert(mine(rows(with_entry(t, u, h)), u) =~= seq![l]);
            assert(others(rows(with_entry(t, u, h)), u) =~= others(rows(t), u));
        },
        None => {
            lemma_nobody(t, u);
            lemma_mine_none(rows(t), u);
            let t2 = if terminated(t) { t } else { t.push('\n') };
            if !terminated(t) {
                lemma_rows_end(t);
            }
            assert(with_entry(t, u, h) =~= t2 + e);
            lemma_rows_add(t2, e);
            lemma_mine_add(rows(t), rows(e), u);
            assert(mine(rows(with_entry(t, u, h)), u) =~= seq![l]);
            assert(others(rows(with_entry(t, u, h)), u) =~= others(rows(t), u));
        },
    }
}

/// Deleting a user: no entry is left, the other lines are the same.
pub proof fn theorem_delete(t: Seq<char>, u: Seq<char>)
    requires
        !u.contains('\n'),
        mine(rows(t), u).len() <= 1,
    ensures
        mine(rows(without_entry(t, u)), u).len() == 0, //@ C23
        others(rows(without_entry(t, u)), u) == others(rows(t), u), //@ C23
        mine(rows(t), u).len() == 0 ==> without_entry(t, u) == t, //@ C23
{
    lemma_find(t, u, 0);
    match find_entry(t, u, 0) {
        Some(i) => {
            lemma_cut(t, i);
            lemma_entry_line(t, u, i);
            let a = t.take(i);
            let old = t.subrange(i, line_end(t, i));
            let b = t.skip(line_end(t, i));
            lemma_rows_add(a, b);
            lemma_mine_add(rows(a), rows(old) + rows(b), u);
            lemma_mine_add(rows(old), rows(b), u);
            lemma_mine_add(rows(a), rows(b), u);
            assert(rows(old) =~= seq![rows(old)[0]]);
            lemma_mine_one(rows(old)[0], u);
            assert(mine(rows(t), u).len() >= 1);
            assert(others(rows(without_entry(t, u)), u) =~= others(rows(t), u));
        },
        None => {
            lemma_nobody(t, u);
            lemma_mine_none(rows(t), u);
        },
    }
}

// ================================================================ C24

pub open spec fn key(l: Seq<char>) -> Seq<char> {
    first_char(l, ':')->Some_0.0
}

/// A file the broker can load, with at most one entry per user. (A carriage return at the very end,
/// without a line end after it, is part of the last hash; it would not be once a line follows.)
pub open spec fn tidy(t: Seq<char>) -> bool {
    &&& entries(lines_of(t))
    &&& distinct(lines_of(t))
    &&& t.len() > 0 ==> t.last() != '\r'
}

proof fn lemma_own_key(l: Seq<char>, u: Seq<char>)
    requires
        !u.contains(':'),
    ensures
        own(l, u) ==> l.contains(':') && first_char(l, ':') == Some((u, l.skip(u.len() as int + 1))),
        l.contains(':') && key(l) == u ==> own(l, u),
{
    let n = u.len() as int;
    l.index_of_first_ensures(':');
    if own(l, u) {
        let k = l.index_of_first(':')->Some_0;
        assert(l.contains(':')) by { assert(l[n] == ':'); }
        assert(k == n) by {
            if k < n {
                assert(l.take(n)[k] == ':');
                assert(u.contains(':'));
            }
        }
    }
}

proof fn lemma_users_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures
        users(a + b) == users(a).union_prefer_right(users(b)),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(users(a).union_prefer_right(users(b)) =~= users(a));
    } else {
        lemma_users_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(users(a + b) =~= users(a).union_prefer_right(users(b)));
    }
}

proof fn lemma_users_keys(ls: Seq<Seq<char>>, u: Seq<char>)
    requires
        forall|k: int| 0 <= k < ls.len() ==> key(#[trigger] ls[k]) != u,
    ensures
        !users(ls).contains_key(str_of(u)),
    decreases ls.len(),
{
    broadcast use axiom_str_of;
    if ls.len() > 0 {
        let d = ls.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies key(#[trigger] d[k]) != u by {
            assert(d[k] == ls[k]);
        }
        lemma_users_keys(d, u);
        assert(key(ls.last()) != u);
        assert(str_of(key(ls.last()))@ != str_of(u)@);
    }
}

proof fn lemma_users_one(l: Seq<char>, u: Seq<char>)
    requires
        !u.contains(':'),
        own(l, u),
    ensures
        users(seq![l]) == Map::<String, String>::empty().insert(str_of(u), str_of(l.skip(u.len() as int + 1))),
{
    lemma_own_key(l, u);
    assert(seq![l].drop_last() =~= Seq::empty());
    assert(users(seq![l].drop_last()) =~= Map::empty());
}

pub open spec fn distinct(ls: Seq<Seq<char>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ls.len() ==> key(#[trigger] ls[i]) != key(#[trigger] ls[j])
}

pub open spec fn without(ls: Seq<Seq<char>>, u: Seq<char>) -> bool {
    forall|k: int| 0 <= k < ls.len() ==> key(#[trigger] ls[k]) != u
}

/// What stands around the user's line.
proof fn lemma_around(la: Seq<Seq<char>>, lo: Seq<char>, lb: Seq<Seq<char>>)
    requires
        entries(la + (seq![lo] + lb)),
        distinct(la + (seq![lo] + lb)),
    ensures
        entries(la),
        entries(lb),
        without(la, key(lo)),
        without(lb, key(lo)),
        distinct(la + lb),
        entries(la + lb),
{
    let lt = la + (seq![lo] + lb);
    let n = la.len() as int;
    assert(lt[n] == lo);
    assert forall|k: int| 0 <= k < la.len() implies key(#[trigger] la[k]) != key(lo) && la[k].contains(':') by {
        assert(lt[k] == la[k]);
    }
    assert forall|k: int| 0 <= k < lb.len() implies key(#[trigger] lb[k]) != key(lo) && lb[k].contains(':') by {
        assert(lt[n + 1 + k] == lb[k]);
    }
    let lr = la + lb;
    assert forall|x: int, y: int| 0 <= x < y < lr.len() implies key(#[trigger] lr[x]) != key(#[trigger] lr[y]) by {
        let p = if x < n { x } else { x + 1 };
        let q = if y < n { y } else { y + 1 };
        assert(lr[x] == lt[p]);
        assert(lr[y] == lt[q]);
    }
}

/// A line put in.
proof fn lemma_put_in(la: Seq<Seq<char>>, l: Seq<char>, lb: Seq<Seq<char>>, u: Seq<char>)
    requires
        !u.contains(':'),
        own(l, u),
        entries(la + lb),
        distinct(la + lb),
        without(la, u),
        without(lb, u),
    ensures
        entries(la + (seq![l] + lb)),
        distinct(la + (seq![l] + lb)),
        users(la + (seq![l] + lb)) == users(la + lb).insert(str_of(u), str_of(l.skip(u.len() as int + 1))),
        !users(la + lb).contains_key(str_of(u)),
{
    let n = la.len() as int;
    lemma_own_key(l, u);
    lemma_users_one(l, u);
    lemma_users_keys(la, u);
    lemma_users_keys(lb, u);
    lemma_users_add(la, seq![l] + lb);
    lemma_users_add(seq![l], lb);
    lemma_users_add(la, lb);
    assert(users(la + (seq![l] + lb)) =~= users(la + lb).insert(str_of(u), str_of(l.skip(u.len() as int + 1))));
    let lr = la + (seq![l] + lb);
    let lt = la + lb;
    assert forall|k: int| 0 <= k < lr.len() implies (#[trigger] lr[k]).contains(':') by {
        if k < n { assert(lr[k] == lt[k]); } else if k > n { assert(lr[k] == lt[k - 1]); }
    }
    assert forall|x: int, y: int| 0 <= x < y < lr.len() implies key(#[trigger] lr[x]) != key(#[trigger] lr[y]) by {
        if x == n {
            assert(lr[y] == lb[y - n - 1]);
        } else if y == n {
            assert(lr[x] == la[x]);
        } else {
            let p = if x < n { x } else { x - 1 };
            let q = if y < n { y } else { y - 1 };
            assert(lr[x] == lt[p]);
            assert(lr[y] == lt[q]);
        }
    }
}

/// The lines of a file with the user's entry.
proof fn lemma_lines_found(t: Seq<char>, u: Seq<char>, i: int) -> (r: (Seq<Seq<char>>, Seq<char>, Seq<Seq<char>>))
    requires
        !u.contains('\n'),
        entry_at(t, u, i),
    ensures
        r.0 == lines_of(t.take(i)),
        r.2 == lines_of(t.skip(line_end(t, i))),
        own(r.1, u),
        lines_of(t) == r.0 + (seq![r.1] + r.2),
        lines_of(t.take(i) + t.skip(line_end(t, i))) == r.0 + r.2,
{
    lemma_cut(t, i);
    lemma_entry_line(t, u, i);
    let old = t.subrange(i, line_end(t, i));
    assert(lines_of(old) =~= seq![lines_of(old)[0]]);
    lemma_rows_add(t.take(i), t.skip(line_end(t, i)));
    (lines_of(t.take(i)), lines_of(old)[0], lines_of(t.skip(line_end(t, i))))
}

proof fn lemma_lines_nobody(t: Seq<char>, u: Seq<char>)
    requires
        !u.contains(':'),
        forall|i: int| 0 <= i ==> !entry_at(t, u, i),
        entries(lines_of(t)),
    ensures
        without(lines_of(t), u),
{
    lemma_nobody(t, u);
    let lt = lines_of(t);
    assert forall|k: int| 0 <= k < lt.len() implies key(#[trigger] lt[k]) != u by {
        lemma_own_key(lt[k], u);
    }
}

/// After setting a password the broker knows the same users as before, and this one by the new hash.
pub proof fn theorem_set_users(t: Seq<char>, u: Seq<char>, h: Seq<char>)
    requires
        !u.contains('\n'),
        !u.contains(':'),
        !h.contains('\n'),
        !h.contains('\r'),
        tidy(t),
    ensures
        tidy(with_entry(t, u, h)), //@ C24
        users(lines_of(with_entry(t, u, h))) == users(lines_of(t)).insert(str_of(u), str_of(h)), //@ C24
{
    let e = entry(u, h);
    let l = u + seq![':'] + h;
    let r = with_entry(t, u, h);
    lemma_entry(u, h);
    assert(l.skip(u.len() as int + 1) =~= h);
    lemma_find(t, u, 0);
    match find_entry(t, u, 0) {
        Some(i) => {
            let (la, lo, lb) = lemma_lines_found(t, u, i);
            lemma_cut(t, i);
            let a = t.take(i);
            let b = t.skip(line_end(t, i));
            assert(r =~= a + (e + b));
            lemma_rows_add(a, e + b);
            lemma_rows_add(e, b);
            lemma_own_key(lo, u);
            lemma_around(la, lo, lb);
            lemma_put_in(la, lo, lb, u);
            lemma_put_in(la, l, lb, u);
            assert(users(lines_of(r)) =~= users(lines_of(t)).insert(str_of(u), str_of(h)));
            if b.len() > 0 {
                assert(r.last() == t.last());
            } else {
                assert(r.last() == '\n');
            }
        },
        None => {
            lemma_lines_nobody(t, u);
            let t2 = if terminated(t) { t } else { t.push('\n') };
            if !terminated(t) {
                lemma_rows_end(t);
            }
            assert(r =~= t2 + e);
            lemma_rows_add(t2, e);
            let none = Seq::<Seq<char>>::empty();
            assert(lines_of(t) + none =~= lines_of(t));
            assert(lines_of(t) + (seq![l] + none) =~= lines_of(t) + seq![l]);
            lemma_put_in(lines_of(t), l, none, u);
            assert(r.last() == '\n');
        },
    }
}

/// After deleting a user the broker knows the same users as before, except for this one.
pub proof fn theorem_delete_users(t: Seq<char>, u: Seq<char>)
    requires
        !u.contains('\n'),
        !u.contains(':'),
        tidy(t),
    ensures
        tidy(without_entry(t, u)), //@ C24
        users(lines_of(without_entry(t, u))) == users(lines_of(t)).remove(str_of(u)), //@ C24
{
    let r = without_entry(t, u);
    lemma_find(t, u, 0);
    match find_entry(t, u, 0) {
        Some(i) => {
            let (la, lo, lb) = lemma_lines_found(t, u, i);
            lemma_cut(t, i);
            let a = t.take(i);
            let b = t.skip(line_end(t, i));
            lemma_own_key(lo, u);
            lemma_around(la, lo, lb);
            lemma_put_in(la, lo, lb, u);
            assert(users(lines_of(r)) =~= users(lines_of(t)).remove(str_of(u)));
            if b.len() > 0 {
                assert(r.last() == t.last());
            } else if a.len() > 0 {
                assert(r =~= a);
            }
        },
        None => {
            lemma_lines_nobody(t, u);
            lemma_users_keys(lines_of(t), u);
            assert(users(lines_of(t)).remove(str_of(u)) =~= users(lines_of(t)));
        },
    }
}

/// What that means for logging in.
pub proof fn theorem_decisions(t: Seq<char>, u: Seq<char>, h: Seq<char>, password: Seq<char>, v: Seq<char>, p: Seq<char>)
    requires
        !u.contains('\n'),
        !u.contains(':'),
        hash_for(h, encode_utf8(password)),
        tidy(t),
    ensures
        known(users(lines_of(with_entry(t, u, h))), u, p) <==> encode_utf8(p) == encode_utf8(password), //@ C24
        v != u ==> known(users(lines_of(with_entry(t, u, h))), v, p) == known(users(lines_of(t)), v, p), //@ C24
        !known(users(lines_of(without_entry(t, u))), u, p), //@ C24
        v != u ==> known(users(lines_of(without_entry(t, u))), v, p) == known(users(lines_of(t)), v, p), //@ C24
{
    broadcast use axiom_str_of;
    theorem_set_users(t, u, h);
    theorem_delete_users(t, u);
    if v != u {
        assert(str_of(v)@ != str_of(u)@);
    }
}

} // verus!
