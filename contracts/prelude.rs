// Trusted interface of the verified code to the libraries it is built on, and the shims the
// extractor routes library calls through. Everything in here that is not a spec function is an
// assumption; bin/check counts and lists them in every evidence file.
#![allow(unused_imports, dead_code, unused_variables)]
use bytes::{Buf, BufMut, BytesMut};
use tokio::io::{AsyncReadExt, AsyncWriteExt, Error, ErrorKind};
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;

verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- library types, opaque

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBytesMut(BytesMut);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(Error);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOwnedReadHalf(OwnedReadHalf);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOwnedWriteHalf(OwnedWriteHalf);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);

// ---------------------------------------------------------------- bytes::BytesMut

/// The bytes held by a BytesMut.
pub uninterp spec fn bmv(b: BytesMut) -> Seq<u8>;

#[verifier::opaque]
pub open spec fn is_prefix(a: Seq<u8>, b: Seq<u8>) -> bool {
    a.len() <= b.len() && a =~= b.take(a.len() as int)
}

pub open spec fn be16(a: u8, b: u8) -> u16 {
    (a as int * 256 + b as int) as u16
}

pub open spec fn be16_bytes(n: u16) -> Seq<u8> {
    seq![(n / 256) as u8, (n % 256) as u8]
}

pub assume_specification[ BytesMut::len ](b: &BytesMut) -> (r: usize)
    ensures
        r == bmv(*b).len(),
        r <= isize::MAX,
;

pub assume_specification[ BytesMut::is_empty ](b: &BytesMut) -> (r: bool)
    ensures
        r == (bmv(*b).len() == 0),
;

/// What capacity() reports for this very value; nothing is assumed about how it evolves.
pub uninterp spec fn bm_capacity(b: BytesMut) -> usize;

pub assume_specification[ BytesMut::capacity ](b: &BytesMut) -> (r: usize)
    ensures
        r == bm_capacity(*b),
        bmv(*b).len() <= r <= isize::MAX,
;

pub assume_specification[ BytesMut::with_capacity ](n: usize) -> (r: BytesMut)
    ensures
        bmv(r) == Seq::<u8>::empty(),
;

pub assume_specification[ BytesMut::new ]() -> (r: BytesMut)
    ensures
        bmv(r) == Seq::<u8>::empty(),
;

pub assume_specification[ BytesMut::split_to ](b: &mut BytesMut, at: usize) -> (r: BytesMut)
    requires
        at <= bmv(*old(b)).len(),
    ensures
        bmv(r) == bmv(*old(b)).take(at as int),
        bmv(*final(b)) == bmv(*old(b)).skip(at as int),
;

pub assume_specification[ BytesMut::extend_from_slice ](b: &mut BytesMut, s: &[u8])
    ensures
        bmv(*final(b)) == bmv(*old(b)) + s@,
;

pub assume_specification[ BytesMut::reserve ](b: &mut BytesMut, additional: usize)
    ensures
        bmv(*final(b)) == bmv(*old(b)),
;

pub assume_specification[ <BytesMut as Clone>::clone ](b: &BytesMut) -> (r: BytesMut)
    ensures
        bmv(r) == bmv(*b),
;

pub assume_specification[ BytesMut::truncate ](b: &mut BytesMut, len: usize)
    ensures
        bmv(*final(b)) == (if len < bmv(*old(b)).len() { bmv(*old(b)).take(len as int) } else { bmv(*old(b)) }),
;

pub assume_specification[ BytesMut::clear ](b: &mut BytesMut)
    ensures
        bmv(*final(b)) == Seq::<u8>::empty(),
;

pub assume_specification[ BytesMut::split ](b: &mut BytesMut) -> (r: BytesMut)
    ensures
        bmv(r) == bmv(*old(b)),
        bmv(*final(b)) == Seq::<u8>::empty(),
;

pub assume_specification[ BytesMut::split_off ](b: &mut BytesMut, at: usize) -> (r: BytesMut)
    requires

        at <= bmv(*old(b)).len(),
    ensures
        bmv(r) == bmv(*old(b)).skip(at as int),
        bmv(*final(b)) == bmv(*old(b)).take(at as int),
;

pub assume_specification[ BytesMut::resize ](b: &mut BytesMut, len: usize, value: u8)
    ensures
        bmv(*final(b)) == (if len <= bmv(*old(b)).len() { bmv(*old(b)).take(len as int) } else { bmv(*old(b)) + Seq::new((len - bmv(*old(b)).len()) as nat, |i: int| value) }),
;

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(BufSpec via BufSpecImpl)]
pub trait ExBuf {
    type ExternalTraitSpecificationFor: Buf;

    spec fn buf_view(&self) -> Seq<u8>;

    fn get_u8(&mut self) -> (r: u8)
        requires
            old(self).buf_view().len() >= 1,
        ensures
            r == old(self).buf_view()[0],
            final(self).buf_view() == old(self).buf_view().skip(1),
    ;

    fn get_u16(&mut self) -> (r: u16)
        requires
            old(self).buf_view().len() >= 2,
        ensures
            r == be16(old(self).buf_view()[0], old(self).buf_view()[1]),
            final(self).buf_view() == old(self).buf_view().skip(2),
    ;
}

impl BufSpecImpl for BytesMut {
    open spec fn buf_view(&self) -> Seq<u8> {
        bmv(*self)
    }
}

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(BufMutSpec via BufMutSpecImpl)]
pub unsafe trait ExBufMut {
    type ExternalTraitSpecificationFor: BufMut;

    spec fn buf_mut_view(&self) -> Seq<u8>;

    fn put_u8(&mut self, n: u8)
        ensures
            final(self).buf_mut_view() == old(self).buf_mut_view().push(n),
    ;

    fn put_u16(&mut self, n: u16)
        ensures
            final(self).buf_mut_view() == old(self).buf_mut_view() + be16_bytes(n),
    ;

    fn put<T: Buf>(&mut self, src: T) where Self: Sized
        ensures
            final(self).buf_mut_view() == old(self).buf_mut_view() + src.buf_view(),
    ;
}

impl BufMutSpecImpl for BytesMut {
    open spec fn buf_mut_view(&self) -> Seq<u8> {
        bmv(*self)
    }
}

// shims

pub assume_specification[ <BytesMut as AsRef<[u8]>>::as_ref ](b: &BytesMut) -> (r: &[u8])
    ensures
        r@ == bmv(*b),
;

pub assume_specification[ <BytesMut as core::ops::Deref>::deref ](b: &BytesMut) -> (r: &[u8])
    ensures
        r@ == bmv(*b),
;

#[verifier::external_body]
pub fn vx_bytes_from_slice(s: &[u8]) -> (r: BytesMut)
    ensures
        bmv(r) == s@,
{
    BytesMut::from(s)
}

// ---------------------------------------------------------------- errors

#[verifier::external_body]
pub fn vx_io_error() -> (r: Error) {
    Error::from(ErrorKind::InvalidData)
}

/// The same where the text of the error is computed.
#[verifier::external_body]
pub fn vx_io_error_of<T>(text: T) -> (r: Error) {
    Error::from(ErrorKind::InvalidData)
}

// ---------------------------------------------------------------- sockets

/// Prophecy: the bytes this socket is still going to deliver before it ends or fails.
pub uninterp spec fn incoming(s: OwnedReadHalf) -> Seq<u8>;

/// Which connection these are parts of.
pub uninterp spec fn socket_of(s: tokio::net::TcpStream) -> int;

pub uninterp spec fn socket_of_write(s: OwnedWriteHalf) -> int;

/// Prophecy: the bytes this connection is still going to deliver.
pub uninterp spec fn incoming_of(s: tokio::net::TcpStream) -> Seq<u8>;

/// Whose connection this is.
pub uninterp spec fn peer_of(s: tokio::net::TcpStream) -> std::net::SocketAddr;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTcpStream(tokio::net::TcpStream);

pub assume_specification[ tokio::net::TcpStream::into_split ](s: tokio::net::TcpStream) -> (r: (OwnedReadHalf, OwnedWriteHalf))
    ensures
        incoming(r.0) == incoming_of(s),
        socket_of_write(r.1) == socket_of(s),
;

pub open spec fn accepted(a: VxWorld, s: tokio::net::TcpStream) -> VxWorld {
    VxWorld { accepted: a.accepted.push(s), ..a }
}

#[verifier::external_body]
pub async fn vx_accept(l: &tokio::net::TcpListener, Tracked(w): Tracked<&mut VxWorld>) -> (r: Result<(tokio::net::TcpStream, std::net::SocketAddr), Error>)
    ensures
        r matches Ok((s, a)) ==> a == peer_of(s) && *final(w) == accepted(*old(w), s),
        r is Err ==> *final(w) == *old(w),
{
    l.accept().await
}

/// Prophecy: whether a write to this socket is going to fail, ever.
pub uninterp spec fn failing(s: OwnedWriteHalf) -> bool;

/// The bytes handed over to this socket so far.
pub uninterp spec fn written(s: OwnedWriteHalf) -> Seq<u8>;

#[verifier::external_body]
pub async fn vx_read_buf(s: &mut OwnedReadHalf, buf: &mut BytesMut) -> (r: Result<usize, Error>)
    ensures
        match r {
            Ok(n) => {
                &&& n <= incoming(*old(s)).len()
                &&& n == 0 ==> incoming(*old(s)).len() == 0
                &&& bmv(*final(buf)) == bmv(*old(buf)) + incoming(*old(s)).take(n as int)
                &&& incoming(*final(s)) == incoming(*old(s)).skip(n as int)
            },
            Err(_) => {
                &&& incoming(*old(s)).len() == 0
                &&& incoming(*final(s)) == incoming(*old(s))
                &&& bmv(*final(buf)) == bmv(*old(buf))
            },
        },
{
    s.read_buf(buf).await
}

#[verifier::external_body]
pub async fn vx_write_buf(s: &mut OwnedWriteHalf, buf: &mut BytesMut) -> (r: Result<usize, Error>)
    ensures
        failing(*final(s)) == failing(*old(s)),
        r is Err ==> failing(*old(s)),
        match r {
            Ok(n) => {
                &&& n <= bmv(*old(buf)).len()
                &&& written(*final(s)) == written(*old(s)) + bmv(*old(buf)).take(n as int)
                &&& bmv(*final(buf)) == bmv(*old(buf)).skip(n as int)
            },
            Err(_) => {
                &&& written(*final(s)) == written(*old(s))
                &&& bmv(*final(buf)) == bmv(*old(buf))
            },
        },
{
    s.write_buf(buf).await
}

#[verifier::external_body]
pub async fn vx_write_all_buf(s: &mut OwnedWriteHalf, buf: &mut BytesMut) -> (r: Result<(), Error>)
    ensures
        failing(*final(s)) == failing(*old(s)),
        r is Err ==> failing(*old(s)),
        exists|n: int| #![auto]
            {
                &&& 0 <= n <= bmv(*old(buf)).len()
                &&& written(*final(s)) == written(*old(s)) + bmv(*old(buf)).take(n)
                &&& bmv(*final(buf)) == bmv(*old(buf)).skip(n)
                &&& r is Ok ==> n == bmv(*old(buf)).len()
            },
{
    s.write_all_buf(buf).await
}

// ---------------------------------------------------------------- strings

pub broadcast axiom fn axiom_str_len(s: &str)
    ensures
        #[trigger] s.spec_bytes().len() <= isize::MAX,
;

/// Two Strings with the same characters are the same value.
pub broadcast axiom fn axiom_string_view_injective(a: String, b: String)
    ensures
        #![trigger a@, b@]
        a@ == b@ ==> a == b,
;

pub assume_specification[ String::len ](s: &String) -> (r: usize)
    ensures
        r == encode_utf8(s@).len(),
        r <= isize::MAX,
;

pub assume_specification[ std::str::from_utf8 ](b: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures
        r is Ok <==> valid_utf8(b@),
        r is Ok ==> r.unwrap()@ == decode_utf8(b@),
        r is Err ==> utf8_up_to(r->Err_0) < b@.len(),
;

/// How many bytes at the start of a text that is not UTF-8 are.
pub uninterp spec fn utf8_up_to(e: std::str::Utf8Error) -> nat;

pub assume_specification[ std::str::Utf8Error::valid_up_to ](e: &std::str::Utf8Error) -> (r: usize)
    ensures
        r == utf8_up_to(*e),
;

#[verifier::external_body]
pub fn vx_string_from(s: &str) -> (r: String)
    ensures
        r@ == s@,
{
    String::from(s)
}

// ---------------------------------------------------------------- strings as keys and in vectors

/// The String with these characters.
pub uninterp spec fn str_of(s: Seq<char>) -> String;

pub broadcast axiom fn axiom_str_of(s: Seq<char>)
    ensures
        #[trigger] str_of(s)@ == s,
;

pub broadcast axiom fn axiom_string_key()
    ensures
        #[trigger] vstd::std_specs::hash::obeys_key_model::<String>(),
;

pub broadcast axiom fn axiom_string_eq_obeys()
    ensures
        #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(),
;

pub broadcast axiom fn axiom_string_eq(a: String, b: String)
    ensures
        #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@),
;

/// A map keyed by String can be asked for a &str.
pub broadcast axiom fn axiom_borrowed_str<V>(m: Map<String, V>, k: &str)
    ensures
        #[trigger] vstd::std_specs::hash::contains_borrowed_key::<String, V, str>(m, k) == m.contains_key(str_of(k@)),
;

pub broadcast axiom fn axiom_borrowed_str_value<V>(m: Map<String, V>, k: &str, v: V)
    ensures
        #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value::<String, V, str>(m, k, v) == (m.contains_key(str_of(k@)) && m[str_of(k@)] == v),
;

pub broadcast proof fn lemma_str_of_view(s: String)
    ensures
        #[trigger] str_of(s@) == s,
{
    broadcast use {axiom_str_of, axiom_string_view_injective};
    assert(str_of(s@)@ == s@);
}

/// What the conversions of the standard library give.
pub broadcast axiom fn axiom_string_from<'a>(s: &'a str)
    ensures
        (#[trigger] <String as vstd::std_specs::convert::FromSpec<&'a str>>::from_spec(s))@ == s@,
;

pub broadcast axiom fn axiom_string_from_obeys()
    ensures
        #[trigger] <String as vstd::std_specs::convert::FromSpec<&'static str>>::obeys_from_spec(),
;

pub broadcast axiom fn axiom_u8_from_bool(b: bool)
    ensures
        #[trigger] <u8 as vstd::std_specs::convert::FromSpec<bool>>::from_spec(b) == (if b { 1u8 } else { 0u8 }),
;

pub broadcast axiom fn axiom_u8_from_bool_obeys()
    ensures
        #[trigger] <u8 as vstd::std_specs::convert::FromSpec<bool>>::obeys_from_spec(),
;

pub broadcast group group_convert {
    axiom_string_from,
    axiom_string_from_obeys,
    axiom_u8_from_bool,
    axiom_u8_from_bool_obeys,
}

pub assume_specification<T>[ Option::<T>::or ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures
        r == if o is Some { o } else { p },
;

pub assume_specification<T, U>[ Option::<T>::and ](o: Option<T>, p: Option<U>) -> (r: Option<U>)
    ensures
        r == if o is Some { p } else { None },
;

pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>)
    ensures
        r == if o is Some { o->Some_0 } else { None },
;

pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, x: T) -> (r: Option<T>)
    ensures
        r == *old(o),
        *final(o) == Some(x),
;

pub assume_specification<T, E, F>[ Result::<T, E>::or ](o: Result<T, E>, p: Result<T, F>) -> (r: Result<T, F>)
    ensures
        o is Ok ==> r is Ok && r->Ok_0 == o->Ok_0,
        o is Err ==> r == p,
;

pub assume_specification<T, E, U>[ Result::<T, E>::and ](o: Result<T, E>, p: Result<U, E>) -> (r: Result<U, E>)
    ensures
        o is Ok ==> r == p,
        o is Err ==> r is Err && r->Err_0 == o->Err_0,
;

pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](o: Result<T, E>, d: T) -> (r: T)
    ensures
        r == if o is Ok { o->Ok_0 } else { d },
;

pub assume_specification<T>[ bool::then_some ](b: bool, x: T) -> (r: Option<T>)
    ensures
        r == if b { Some(x) } else { None },
;

pub assume_specification<T>[ core::mem::replace ](a: &mut T, x: T) -> (r: T)
    ensures
        r == *old(a),
        *final(a) == x,
;

pub assume_specification<T: Default>[ core::mem::take ](a: &mut T) -> (r: T)
    ensures
        r == *old(a),
        T::default.ensures((), *final(a)),
;

pub assume_specification<T, U>[ Option::<T>::zip::<U> ](o: Option<T>, p: Option<U>) -> (r: Option<(T, U)>)
    ensures
        r == if o is Some && p is Some { Some((o->Some_0, p->Some_0)) } else { None },
;

pub assume_specification<T>[ Option::<T>::xor ](o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures
        r == if o is Some && p is None { o } else if o is None && p is Some { p } else { None },
;

pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures
        final(s)@ =~= old(s)@.reverse(),
;

pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], i: usize, j: usize)
    requires
        i < old(s)@.len(),
        j < old(s)@.len(),
    ensures
        final(s)@ =~= old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]),
;

pub assume_specification<T, A: core::alloc::Allocator>[ Vec::<T, A>::capacity ](v: &Vec<T, A>) -> (r: usize)
    ensures
        r >= v@.len(),
;

pub assume_specification[ String::with_capacity ](n: usize) -> (r: String)
    ensures
        r@ == Seq::<char>::empty(),
;

/// Case mapping and the removal of blanks at one end: which characters count is left open.
pub uninterp spec fn lowered(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn uppered(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_lowered(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_uppered(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trimmed_start(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trimmed_end(s: Seq<char>) -> Seq<char>;

pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String)
    ensures
        r@ == lowered(s@),
;

pub assume_specification[ str::to_uppercase ](s: &str) -> (r: String)
    ensures
        r@ == uppered(s@),
;

pub assume_specification[ str::to_ascii_lowercase ](s: &str) -> (r: String)
    ensures
        r@ == ascii_lowered(s@),
;

pub assume_specification[ str::to_ascii_uppercase ](s: &str) -> (r: String)
    ensures
        r@ == ascii_uppered(s@),
;

pub assume_specification[ str::eq_ignore_ascii_case ](s: &str, t: &str) -> (r: bool)
    ensures
        r == (ascii_lowered(s@) == ascii_lowered(t@)),
        s@ == t@ ==> r,
;

pub assume_specification[ str::trim_start ](s: &str) -> (r: &str)
    ensures
        r@ == trimmed_start(s@),
;

pub assume_specification[ str::trim_end ](s: &str) -> (r: &str)
    ensures
        r@ == trimmed_end(s@),
;

pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures
        r@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(s@[i], #[trigger] r@[i]),
;

/// Numbers in network byte order.
pub trait VxBe: Sized {
    spec fn be(self) -> Seq<u8>;
    fn vx_to_be_bytes(self) -> (r: [u8; 2])
        ensures
            r@ == self.be(),
    ;
}

impl VxBe for u16 {
    open spec fn be(self) -> Seq<u8> { seq![(self / 256) as u8, (self % 256) as u8] }
    #[verifier::external_body]
    fn vx_to_be_bytes(self) -> (r: [u8; 2]) { self.to_be_bytes() }
}

#[verifier::external_body]
pub fn vx_u16_from_be_bytes(b: [u8; 2]) -> (r: u16)
    ensures
        r == b@[0] * 256 + b@[1],
{
    u16::from_be_bytes(b)
}

pub broadcast group group_strings {
    axiom_str_of,
    axiom_string_key,
    axiom_string_eq_obeys,
    axiom_string_eq,
    axiom_borrowed_str,
    axiom_borrowed_str_value,
    axiom_key_of,
    lemma_str_of_view,
}

pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures
        <T as vstd::std_specs::cmp::PartialEqSpec<T>>::obeys_eq_spec() ==> r == (exists|i: int| 0 <= i < s@.len() && vstd::std_specs::cmp::PartialEqSpec::eq_spec(&#[trigger] s@[i], x)),
;

/// All that is not c.
pub open spec fn others(s: Seq<String>, c: String) -> Seq<String>
    decreases s.len(),
{
    if s.len() == 0 {
        s
    } else if s.last() == c {
        others(s.drop_last(), c)
    } else {
        others(s.drop_last(), c).push(s.last())
    }
}

/// `v.retain(|x| x != y)`
#[verifier::external_body]
pub fn vx_retain_other(v: &mut Vec<String>, y: &String)
    ensures
        final(v)@ == others(old(v)@, *y),
{
    v.retain(|x| x != y)
}

/// `v.iter().position(|x| x == y)`
#[verifier::external_body]
pub fn vx_position(v: &Vec<String>, y: &String) -> (r: Option<usize>)
    ensures
        match r {
            Some(i) => i < v@.len() && v@[i as int] == *y && !v@.take(i as int).contains(*y),
            None => !v@.contains(*y),
        },
{
    v.iter().position(|x| x == y)
}

// ---------------------------------------------------------------- str::split

/// The pieces of s between occurrences of the character c.
pub open spec fn split_at_char(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 {
        seq![Seq::empty()]
    } else if s[0] == c {
        seq![Seq::empty()] + split_at_char(s.drop_first(), c)
    } else {
        let r = split_at_char(s.drop_first(), c);
        r.update(0, seq![s[0]] + r[0])
    }
}

pub uninterp spec fn split_at_text(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>>;

pub trait VxPat {
    spec fn pieces(&self, s: Seq<char>) -> Seq<Seq<char>>;
    fn apply<'a>(&self, s: &'a str) -> (r: Vec<&'a str>)
        ensures
            r@.len() == self.pieces(s@).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.pieces(s@)[i],
    ;
    /// Where the pattern first and last matches: what is before it and what is after it.
    spec fn first(&self, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
    spec fn last(&self, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;
    fn apply_first<'a>(&self, s: &'a str) -> (r: Option<(&'a str, &'a str)>)
        ensures
            match r { Some(p) => self.first(s@) == Some((p.0@, p.1@)), None => self.first(s@) is None },
    ;
    fn apply_last<'a>(&self, s: &'a str) -> (r: Option<(&'a str, &'a str)>)
        ensures
            match r { Some(p) => self.last(s@) == Some((p.0@, p.1@)), None => self.last(s@) is None },
    ;
    /// Whether the pattern matches at the beginning, at the end, anywhere.
    spec fn begins(&self, s: Seq<char>) -> bool;
    spec fn ends(&self, s: Seq<char>) -> bool;
    spec fn within(&self, s: Seq<char>) -> bool;
    fn apply_begins(&self, s: &str) -> (r: bool)
        ensures
            r == self.begins(s@),
    ;
    fn apply_ends(&self, s: &str) -> (r: bool)
        ensures
            r == self.ends(s@),
    ;
    fn apply_within(&self, s: &str) -> (r: bool)
        ensures
            r == self.within(s@),
    ;
    /// How many characters it matches.
    spec fn width(&self) -> int;
    fn apply_strip_prefix<'a>(&self, s: &'a str) -> (r: Option<&'a str>)
        ensures
            r is Some == self.begins(s@),
            r is Some ==> r->Some_0@ =~= s@.skip(self.width()),
    ;
    fn apply_strip_suffix<'a>(&self, s: &'a str) -> (r: Option<&'a str>)
        ensures
            r is Some == self.ends(s@),
            r is Some ==> r->Some_0@ =~= s@.take(s@.len() - self.width()),
    ;
}

pub open spec fn first_char(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)> {
    if s.contains(c) { Some((s.take(s.index_of_first(c)->Some_0), s.skip(s.index_of_first(c)->Some_0 + 1))) } else { None }
}

pub open spec fn last_char(s: Seq<char>, c: char) -> Option<(Seq<char>, Seq<char>)> {
    if s.contains(c) { Some((s.take(s.index_of_last(c)->Some_0), s.skip(s.index_of_last(c)->Some_0 + 1))) } else { None }
}

pub uninterp spec fn first_text(s: Seq<char>, p: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;

pub uninterp spec fn last_text(s: Seq<char>, p: Seq<char>) -> Option<(Seq<char>, Seq<char>)>;

impl VxPat for char {
    open spec fn pieces(&self, s: Seq<char>) -> Seq<Seq<char>> {
        split_at_char(s, *self)
    }
    #[verifier::external_body]
    fn apply<'a>(&self, s: &'a str) -> (r: Vec<&'a str>) {
        s.split(*self).collect()
    }
    open spec fn first(&self, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
        first_char(s, *self)
    }
    open spec fn last(&self, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
        last_char(s, *self)
    }
    #[verifier::external_body]
    fn apply_first<'a>(&self, s: &'a str) -> (r: Option<(&'a str, &'a str)>) {
        s.split_once(*self)
    }
    #[verifier::external_body]
    fn apply_last<'a>(&self, s: &'a str) -> (r: Option<(&'a str, &'a str)>) {
        s.rsplit_once(*self)
    }
    open spec fn begins(&self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == *self }
    open spec fn ends(&self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == *self }
    open spec fn within(&self, s: Seq<char>) -> bool { s.contains(*self) }
    #[verifier::external_body]
    fn apply_begins(&self, s: &str) -> (r: bool) { s.starts_with(*self) }
    #[verifier::external_body]
    fn apply_ends(&self, s: &str) -> (r: bool) { s.ends_with(*self) }
    #[verifier::external_body]
    fn apply_within(&self, s: &str) -> (r: bool) { s.contains(*self) }
    open spec fn width(&self) -> int { 1 }
    #[verifier::external_body]
    fn apply_strip_prefix<'a>(&self, s: &'a str) -> (r: Option<&'a str>) { s.strip_prefix(*self) }
    #[verifier::external_body]
    fn apply_strip_suffix<'a>(&self, s: &'a str) -> (r: Option<&'a str>) { s.strip_suffix(*self) }
}

impl VxPat for &str {
    open spec fn pieces(&self, s: Seq<char>) -> Seq<Seq<char>> {
        if self@.len() == 1 { split_at_char(s, self@[0]) } else { split_at_text(s, self@) }
    }
    #[verifier::external_body]
    fn apply<'a>(&self, s: &'a str) -> (r: Vec<&'a str>) {
        s.split(*self).collect()
    }
    open spec fn first(&self, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
        if self@.len() == 1 { first_char(s, self@[0]) } else { first_text(s, self@) }
    }
    open spec fn last(&self, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
        if self@.len() == 1 { last_char(s, self@[0]) } else { last_text(s, self@) }
    }
    #[verifier::external_body]
    fn apply_first<'a>(&self, s: &'a str) -> (r: Option<(&'a str, &'a str)>) {
        s.split_once(*self)
    }
    #[verifier::external_body]
    fn apply_last<'a>(&self, s: &'a str) -> (r: Option<(&'a str, &'a str)>) {
        s.rsplit_once(*self)
    }
    open spec fn begins(&self, s: Seq<char>) -> bool { self@.len() <= s.len() && s.take(self@.len() as int) =~= self@ }
    open spec fn ends(&self, s: Seq<char>) -> bool { self@.len() <= s.len() && s.skip(s.len() - self@.len()) =~= self@ }
    open spec fn within(&self, s: Seq<char>) -> bool { text_within(s, self@) }
    #[verifier::external_body]
    fn apply_begins(&self, s: &str) -> (r: bool) { s.starts_with(*self) }
    #[verifier::external_body]
    fn apply_ends(&self, s: &str) -> (r: bool) { s.ends_with(*self) }
    #[verifier::external_body]
    fn apply_within(&self, s: &str) -> (r: bool) { s.contains(*self) }
    open spec fn width(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn apply_strip_prefix<'a>(&self, s: &'a str) -> (r: Option<&'a str>) { s.strip_prefix(*self) }
    #[verifier::external_body]
    fn apply_strip_suffix<'a>(&self, s: &'a str) -> (r: Option<&'a str>) { s.strip_suffix(*self) }
}

impl VxPat for &String {
    open spec fn pieces(&self, s: Seq<char>) -> Seq<Seq<char>> {
        if self@.len() == 1 { split_at_char(s, self@[0]) } else { split_at_text(s, self@) }
    }
    #[verifier::external_body]
    fn apply<'a>(&self, s: &'a str) -> (r: Vec<&'a str>) {
        s.split(self.as_str()).collect()
    }
    open spec fn first(&self, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
        if self@.len() == 1 { first_char(s, self@[0]) } else { first_text(s, self@) }
    }
    open spec fn last(&self, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
        if self@.len() == 1 { last_char(s, self@[0]) } else { last_text(s, self@) }
    }
    #[verifier::external_body]
    fn apply_first<'a>(&self, s: &'a str) -> (r: Option<(&'a str, &'a str)>) {
        s.split_once(self.as_str())
    }
    #[verifier::external_body]
    fn apply_last<'a>(&self, s: &'a str) -> (r: Option<(&'a str, &'a str)>) {
        s.rsplit_once(self.as_str())
    }
    open spec fn begins(&self, s: Seq<char>) -> bool { self@.len() <= s.len() && s.take(self@.len() as int) =~= self@ }
    open spec fn ends(&self, s: Seq<char>) -> bool { self@.len() <= s.len() && s.skip(s.len() - self@.len()) =~= self@ }
    open spec fn within(&self, s: Seq<char>) -> bool { text_within(s, self@) }
    #[verifier::external_body]
    fn apply_begins(&self, s: &str) -> (r: bool) { s.starts_with(self.as_str()) }
    #[verifier::external_body]
    fn apply_ends(&self, s: &str) -> (r: bool) { s.ends_with(self.as_str()) }
    #[verifier::external_body]
    fn apply_within(&self, s: &str) -> (r: bool) { s.contains(self.as_str()) }
    open spec fn width(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    fn apply_strip_prefix<'a>(&self, s: &'a str) -> (r: Option<&'a str>) { s.strip_prefix(self.as_str()) }
    #[verifier::external_body]
    fn apply_strip_suffix<'a>(&self, s: &'a str) -> (r: Option<&'a str>) { s.strip_suffix(self.as_str()) }
}

pub open spec fn text_within(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) =~= p
}

/// A line without its carriage return.
pub open spec fn no_cr(s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s }
}

/// The lines of a text: what stands between line ends ("\n" or "\r\n"), the last of which may
/// be missing.
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> {
    let p = split_at_char(s, '\n');
    let ended = p.drop_last().map_values(|l: Seq<char>| no_cr(l));
    if p.last().len() == 0 { ended } else { ended.push(p.last()) }
}

pub trait VxSplit {
    spec fn text(&self) -> Seq<char>;
    fn vx_split<P: VxPat>(&self, p: P) -> (r: Vec<&str>)
        ensures
            r@.len() == p.pieces(self.text()).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == p.pieces(self.text())[i],
    ;
    fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures
            match r { Some(x) => p.first(self.text()) == Some((x.0@, x.1@)), None => p.first(self.text()) is None },
    ;
    fn vx_rsplit_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures
            match r { Some(x) => p.last(self.text()) == Some((x.0@, x.1@)), None => p.last(self.text()) is None },
    ;
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures
            r == p.begins(self.text()),
    ;
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures
            r == p.ends(self.text()),
    ;
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool)
        ensures
            r == p.within(self.text()),
    ;
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures
            r is Some == p.begins(self.text()),
            r is Some ==> r->Some_0@ =~= self.text().skip(p.width()),
    ;
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures
            r is Some == p.ends(self.text()),
            r is Some ==> r->Some_0@ =~= self.text().take(self.text().len() - p.width()),
    ;
    /// `chars().count()`
    fn vx_char_count(&self) -> (r: usize)
        ensures
            r == self.text().len(),
    ;
    fn vx_lines(&self) -> (r: Vec<&str>)
        ensures
            r@.len() == lines_of(self.text()).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(self.text())[i],
    ;
}

impl VxSplit for str {
    open spec fn text(&self) -> Seq<char> {
        self@
    }
    fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) {
        p.apply_first(self)
    }
    fn vx_rsplit_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) {
        p.apply_last(self)
    }
    #[verifier::external_body]
    fn vx_lines(&self) -> (r: Vec<&str>) {
        self.lines().collect()
    }
    fn vx_split<P: VxPat>(&self, p: P) -> (r: Vec<&str>) {
        p.apply(self)
    }
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) {
        p.apply_begins(self)
    }
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) {
        p.apply_ends(self)
    }
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) {
        p.apply_within(self)
    }
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) {
        p.apply_strip_prefix(self)
    }
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) {
        p.apply_strip_suffix(self)
    }
    #[verifier::external_body]
    fn vx_char_count(&self) -> (r: usize) {
        self.chars().count()
    }
}

// ---------------------------------------------------------------- maps

/// `m.entry(k).or_insert(v)`
#[verifier::external_body]
pub fn vx_entry_or_insert<'a, V>(m: &'a mut std::collections::HashMap<String, V>, k: String, v: V) -> (r: &'a mut V)
    ensures
        *r == (if old(m)@.contains_key(k) { old(m)@[k] } else { v }),
        final(m)@ == old(m)@.insert(k, *final(r)),
{
    m.entry(k).or_insert(v)
}

/// The key a borrowed key stands for.
pub uninterp spec fn key_of<K, Q: ?Sized>(q: &Q) -> K;

pub broadcast axiom fn axiom_key_of(q: &String)
    ensures
        #[trigger] key_of::<String, String>(q) == *q,
;

pub assume_specification<'a, K, V, S, A, Q>[ std::collections::HashMap::<K, V, S, A>::get_mut ](m: &'a mut std::collections::HashMap<K, V, S, A>, k: &Q) -> (r: Option<&'a mut V>)
    where
        A: std::alloc::Allocator,
        K: std::cmp::Eq + std::hash::Hash + std::borrow::Borrow<Q>,
        Q: std::hash::Hash + std::cmp::Eq + ?Sized,
        S: std::hash::BuildHasher,
    ensures
        vstd::std_specs::hash::obeys_key_model::<K>() && vstd::std_specs::hash::builds_valid_hashers::<S>() ==> match r {
            Some(v) => vstd::std_specs::hash::maps_borrowed_key_to_value(old(m)@, k, *v) && final(m)@ == old(m)@.insert(key_of::<K, Q>(k), *final(v)),
            None => !vstd::std_specs::hash::contains_borrowed_key(old(m)@, k) && final(m)@ == old(m)@,
        },
;

/// The order in which a map is iterated: each of its keys once.
pub uninterp spec fn order_of<V>(m: std::collections::HashMap<String, V>) -> Seq<String>;

pub broadcast axiom fn axiom_order_of<V>(m: std::collections::HashMap<String, V>)
    ensures
        (#[trigger] order_of(m)).no_duplicates(),
        forall|k: String| order_of(m).contains(k) == m@.contains_key(k),
;

/// `m.values_mut()`
#[verifier::external_body]
pub fn vx_values_mut<'a, V>(m: &'a mut std::collections::HashMap<String, V>) -> (r: Vec<&'a mut V>)
    ensures
        r@.len() == order_of(*old(m)).len(),
        final(m)@.dom() == old(m)@.dom(),
        forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == old(m)@[order_of(*old(m))[i]],
        forall|i: int| 0 <= i < r@.len() ==> *final(#[trigger] r@[i]) == final(m)@[order_of(*old(m))[i]],
{
    m.values_mut().collect()
}

/// `v.extend(w)`
#[verifier::external_body]
pub fn vx_extend<T>(v: &mut Vec<T>, w: Vec<T>)
    ensures
        final(v)@ == old(v)@ + w@,
{
    v.extend(w)
}

// ---------------------------------------------------------------- channels

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExSender<T>(tokio::sync::mpsc::Sender<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExReceiver<T>(tokio::sync::mpsc::Receiver<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExSendError<T>(tokio::sync::mpsc::error::SendError<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExOneSender<T>(tokio::sync::oneshot::Sender<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExOneReceiver<T>(tokio::sync::oneshot::Receiver<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOneError(tokio::sync::oneshot::error::RecvError);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExBroadcastReceiver<T>(tokio::sync::broadcast::Receiver<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExBroadcastError(tokio::sync::broadcast::error::RecvError);

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExBroadcastSender<T>(tokio::sync::broadcast::Sender<T>);

/// Which broadcast channel a receiver listens to.
pub uninterp spec fn signal_of<T>(r: tokio::sync::broadcast::Receiver<T>) -> int;

/// Which broadcast channel a sender feeds.
pub uninterp spec fn signal<T>(s: tokio::sync::broadcast::Sender<T>) -> int;

pub assume_specification<T: Clone>[ tokio::sync::broadcast::channel::<T> ](n: usize) -> (r: (tokio::sync::broadcast::Sender<T>, tokio::sync::broadcast::Receiver<T>))
    requires
        0 < n <= usize::MAX / 2,
    ensures
        signal(r.0) == signal_of(r.1),
;

pub assume_specification<T>[ tokio::sync::broadcast::Sender::<T>::subscribe ](s: &tokio::sync::broadcast::Sender<T>) -> (r: tokio::sync::broadcast::Receiver<T>)
    ensures
        signal_of(r) == signal(*s),
;

pub assume_specification<T>[ <tokio::sync::broadcast::Sender<T> as Clone>::clone ](s: &tokio::sync::broadcast::Sender<T>) -> (r: tokio::sync::broadcast::Sender<T>)
    ensures
        signal(r) == signal(*s),
;

pub assume_specification<T: Clone>[ tokio::sync::broadcast::Receiver::<T>::resubscribe ](s: &tokio::sync::broadcast::Receiver<T>) -> (r: tokio::sync::broadcast::Receiver<T>)
    ensures
        signal_of(r) == signal_of(*s),
;

/// Which channel a sender feeds.
pub uninterp spec fn chan<T>(s: tokio::sync::mpsc::Sender<T>) -> int;

/// Which channel a receiver takes from.
pub uninterp spec fn chan_of<T>(r: tokio::sync::mpsc::Receiver<T>) -> int;

pub assume_specification<T>[ tokio::sync::mpsc::channel::<T> ](n: usize) -> (r: (tokio::sync::mpsc::Sender<T>, tokio::sync::mpsc::Receiver<T>))
    requires
        0 < n <= usize::MAX / 8,
    ensures
        chan(r.0) == chan_of(r.1),
;

/// Prophecy: what is still going to be received before the channel is closed and empty.
pub uninterp spec fn pending<T>(r: tokio::sync::mpsc::Receiver<T>) -> Seq<T>;

/// Prophecy: the answer given through a oneshot channel, if one is given.
pub uninterp spec fn promised<T>(s: tokio::sync::oneshot::Sender<T>) -> Option<T>;

/// Which oneshot channel this is.
pub uninterp spec fn ask_id<T>(s: tokio::sync::oneshot::Sender<T>) -> int;

pub uninterp spec fn wait_id<T>(s: tokio::sync::oneshot::Receiver<T>) -> int;

pub uninterp spec fn expected<T>(s: tokio::sync::oneshot::Receiver<T>) -> Option<T>;

pub assume_specification<T>[ <tokio::sync::mpsc::Sender<T> as Clone>::clone ](s: &tokio::sync::mpsc::Sender<T>) -> (r: tokio::sync::mpsc::Sender<T>)
    ensures
        chan(r) == chan(*s),
;

pub assume_specification<T>[ tokio::sync::mpsc::Sender::<T>::same_channel ](a: &tokio::sync::mpsc::Sender<T>, b: &tokio::sync::mpsc::Sender<T>) -> (r: bool)
    ensures
        r == (chan(*a) == chan(*b)),
;

/// Whether somebody still listens, and how much room there is, changes at any time.
pub assume_specification<T>[ tokio::sync::mpsc::Sender::<T>::is_closed ](s: &tokio::sync::mpsc::Sender<T>) -> bool;

pub assume_specification<T>[ tokio::sync::mpsc::Sender::<T>::capacity ](s: &tokio::sync::mpsc::Sender<T>) -> usize;

pub assume_specification<T>[ tokio::sync::oneshot::Sender::<T>::is_closed ](s: &tokio::sync::oneshot::Sender<T>) -> bool;

pub assume_specification<T>[ tokio::sync::oneshot::channel::<T> ]() -> (r: (tokio::sync::oneshot::Sender<T>, tokio::sync::oneshot::Receiver<T>))
    ensures
        promised(r.0) == expected(r.1),
        ask_id(r.0) == wait_id(r.1),
;

/// What one connection's queue is given.
pub enum VEvent {
    Packet(crate::vx_mqtt::VPacket),
    Disconnect,
}

/// An event put into the queue `to` (or offered to it after its connection has gone); `settled`
/// tells whether every request made before has been answered by then.
pub struct Sent {
    pub to: int,
    pub event: VEvent,
    pub settled: bool,
}

/// What the task does to the rest of the process, recorded.
pub tracked struct VxWorld {
    /// the messaging service, once it has worked off the requests made so far
    pub ghost broker: crate::broker::messaging::MessagingService,
    /// the last request made, and whether all requests have been answered
    pub ghost asked: int,
    pub ghost settled: bool,
    /// the events put into the queues of connections
    pub ghost out: Seq<Sent>,
    /// the events of connections reported (or offered, when nobody takes them any more), and where to
    pub ghost reports: Seq<(int, crate::mqtt::events::ClientEvent)>,
    /// the writers started: the queue each serves, and the socket it writes to
    pub ghost writers: Seq<(int, int)>,
    /// the connections accepted
    pub ghost accepted: Seq<tokio::net::TcpStream>,
}

pub trait VxMsg: Sized {
    /// What sending `v` does.
    spec fn sent(s: tokio::sync::mpsc::Sender<Self>, v: Self, ok: bool, a: VxWorld, b: VxWorld) -> bool;
}

#[verifier::external_body]
pub async fn vx_send<T: VxMsg>(s: &tokio::sync::mpsc::Sender<T>, v: T, Tracked(w): Tracked<&mut VxWorld>) -> (r: Result<(), tokio::sync::mpsc::error::SendError<T>>)
    ensures
        T::sent(*s, v, r is Ok, *old(w), *final(w)),
{
    s.send(v).await
}

#[verifier::external_type_specification]
pub struct ExTrySendError<T>(tokio::sync::mpsc::error::TrySendError<T>);

/// The same, given up when there is no room.
#[verifier::external_body]
pub fn vx_try_send<T: VxMsg>(s: &tokio::sync::mpsc::Sender<T>, v: T, Tracked(w): Tracked<&mut VxWorld>) -> (r: Result<(), tokio::sync::mpsc::error::TrySendError<T>>)
    ensures
        r is Ok ==> T::sent(*s, v, true, *old(w), *final(w)),
        r matches Err(tokio::sync::mpsc::error::TrySendError::Full(x)) ==> x == v && *final(w) == *old(w),
        r matches Err(tokio::sync::mpsc::error::TrySendError::Closed(x)) ==> x == v && T::sent(*s, v, false, *old(w), *final(w)),
{
    s.try_send(v)
}

/// From here on a task does things of which only the text is known.
#[verifier::external_body]
pub fn vx_at_any_time(Tracked(w): Tracked<&mut VxWorld>) {
}

#[verifier::external_body]
pub fn vx_bool() -> (r: bool) {
    unimplemented!()
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExElapsed(tokio::time::error::Elapsed);

#[verifier::external_body]
pub fn vx_elapsed() -> (r: tokio::time::error::Elapsed) {
    unimplemented!()
}

pub trait VxRecv: Sized {
    type Out;
    spec fn received(a: Self, r: Self::Out, b: Self) -> bool;
}

impl<T> VxRecv for tokio::sync::mpsc::Receiver<T> {
    type Out = Option<T>;
    open spec fn received(a: Self, r: Option<T>, b: Self) -> bool {
        match r {
            Some(v) => pending(a).len() > 0 && v == pending(a)[0] && pending(b) == pending(a).drop_first(),
            None => pending(a).len() == 0 && pending(b) == pending(a),
        }
    }
}

impl<T: Clone> VxRecv for tokio::sync::broadcast::Receiver<T> {
    type Out = Result<T, tokio::sync::broadcast::error::RecvError>;
    open spec fn received(a: Self, r: Result<T, tokio::sync::broadcast::error::RecvError>, b: Self) -> bool { true }
}

/// `c.recv()`, for the receiver types below.
#[verifier::external_body]
pub async fn vx_recv<C: VxRecv>(c: &mut C, Tracked(w): Tracked<&mut VxWorld>) -> (r: C::Out)
    ensures
        C::received(*old(c), r, *final(c)),
        *final(w) == *old(w),
{
    unimplemented!()
}

/// Answering a request.
#[verifier::external_body]
pub fn vx_reply<T>(s: tokio::sync::oneshot::Sender<T>, v: T, Tracked(w): Tracked<&mut VxWorld>) -> (r: Result<(), T>)
    ensures
        promised(s) == Some(v),
        *final(w) == *old(w),
{
    s.send(v)
}

/// Waiting for the answer to a request.
#[verifier::external_body]
pub async fn vx_answer<T>(s: tokio::sync::oneshot::Receiver<T>, Tracked(w): Tracked<&mut VxWorld>) -> (r: Result<T, tokio::sync::oneshot::error::RecvError>)
    ensures
        match expected(s) {
            Some(v) => r == Ok::<T, tokio::sync::oneshot::error::RecvError>(v),
            None => r is Err,
        },
        *final(w) == (VxWorld { settled: old(w).settled || wait_id(s) == old(w).asked, ..*old(w) }),
{
    s.await
}

/// Which branch of a select! completes first.
#[verifier::external_body]
pub fn vx_choice() -> (r: usize) {
    unimplemented!()
}

// ---------------------------------------------------------------- text put together

/// What `{}` in a format string shows of a value.
pub trait VxShow {
    spec fn shown(&self) -> Seq<char>;
    fn show(&self) -> (r: String)
        ensures
            r@ == self.shown(),
    ;
}

impl VxShow for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

impl VxShow for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

impl<T: VxShow + ?Sized> VxShow for &T {
    open spec fn shown(&self) -> Seq<char> { (*self).shown() }
    fn show(&self) -> (r: String) { (*self).show() }
}

impl VxShow for u8 {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

impl VxShow for u16 {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

impl VxShow for u32 {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

impl VxShow for u64 {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

impl VxShow for usize {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

impl VxShow for i64 {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

impl VxShow for char {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

impl VxShow for std::net::IpAddr {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

impl VxShow for std::net::SocketAddr {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

pub fn vx_shown<T: VxShow + ?Sized>(x: &T) -> (r: String)
    ensures
        r@ == x.shown(),
{
    x.show()
}

#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String)
    ensures
        r@ == a@ + b@,
{
    a + b.as_str()
}

/// `a + b`
pub trait VxSum<B>: Sized {
    type Out;
    spec fn sum(a: Self, b: B, r: Self::Out) -> bool;
    fn plus(self, b: B) -> (r: Self::Out)
        ensures
            Self::sum(self, b, r),
    ;
}

impl<'a> VxSum<&'a str> for String {
    type Out = String;
    open spec fn sum(a: String, b: &'a str, r: String) -> bool { r@ == a@ + b@ }
    #[verifier::external_body]
    fn plus(self, b: &'a str) -> (r: String) { self + b }
}

impl<'a> VxSum<&'a String> for String {
    type Out = String;
    open spec fn sum(a: String, b: &'a String, r: String) -> bool { r@ == a@ + b@ }
    #[verifier::external_body]
    fn plus(self, b: &'a String) -> (r: String) { self + b }
}

pub fn vx_sum<B, A: VxSum<B>>(a: A, b: B) -> (r: A::Out)
    ensures
        A::sum(a, b, r),
{
    a.plus(b)
}

/// A value nothing is known about.
#[verifier::external_body]
pub fn vx_some_value<T>() -> (r: T) {
    unimplemented!()
}

// ---------------------------------------------------------------- files and passwords

/// What reading the file gives, if it can be read as text.
pub uninterp spec fn file_text(name: Seq<char>) -> Option<Seq<char>>;

pub trait VxName {
    spec fn name(&self) -> Seq<char>;
    fn read(&self) -> (r: Result<String, std::io::Error>)
        ensures
            match r { Ok(t) => file_text(self.name()) == Some(t@), Err(_) => file_text(self.name()) is None },
    ;
}

impl VxName for &str {
    open spec fn name(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn read(&self) -> (r: Result<String, std::io::Error>) { std::fs::read_to_string(self) }
}

impl VxName for &String {
    open spec fn name(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn read(&self) -> (r: Result<String, std::io::Error>) { std::fs::read_to_string(self) }
}

impl VxName for String {
    open spec fn name(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn read(&self) -> (r: Result<String, std::io::Error>) { std::fs::read_to_string(self) }
}

/// `std::fs::read_to_string(n)`
pub fn vx_read_to_string<N: VxName>(n: N) -> (r: Result<String, std::io::Error>)
    ensures
        match r { Ok(t) => file_text(n.name()) == Some(t@), Err(_) => file_text(n.name()) is None },
{
    n.read()
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPasswordHash<'a>(argon2::password_hash::PasswordHash<'a>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExArgon2<'a>(argon2::Argon2<'a>);

/// Whether a text is a password hash in the PHC format.
pub uninterp spec fn well_formed_hash(s: Seq<char>) -> bool;

pub uninterp spec fn hash_text(h: argon2::password_hash::PasswordHash) -> Seq<char>;

/// Whether the password verifies against the hash, with this set-up of Argon2.
pub uninterp spec fn verifies(a: argon2::Argon2, hash: Seq<char>, password: Seq<u8>) -> bool;

/// Whether the password verifies against the hash.
pub uninterp spec fn password_verifies(hash: Seq<char>, password: Seq<u8>) -> bool;

pub assume_specification<'a>[ argon2::password_hash::PasswordHash::<'a>::new ](s: &'a str) -> (r: Result<argon2::password_hash::PasswordHash<'a>, argon2::password_hash::Error>)
    ensures
        r is Ok == well_formed_hash(s@),
        r is Ok ==> hash_text(r->Ok_0) == s@,
;

pub assume_specification<'a>[ <argon2::Argon2<'a> as Default>::default ]() -> (r: argon2::Argon2<'a>)
    ensures
        forall|h: Seq<char>, p: Seq<u8>| #[trigger] verifies(r, h, p) == password_verifies(h, p),
;

/// `a.verify_password(p, h)`
#[verifier::external_body]
pub fn vx_verify_password(a: &argon2::Argon2, p: &[u8], h: &argon2::password_hash::PasswordHash) -> (r: Result<(), argon2::password_hash::Error>)
    ensures
        r is Ok == verifies(*a, hash_text(*h), p@),
{
    use argon2::password_hash::PasswordVerifier;
    a.verify_password(p, h)
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTcpListener(tokio::net::TcpListener);

/// The address this socket was bound to.
pub uninterp spec fn bound_to(l: tokio::net::TcpListener) -> Seq<char>;

/// Whether one can be bound to this address.
pub uninterp spec fn can_bind(address: Seq<char>) -> bool;

#[verifier::external_body]
#[verifier::allow(undeclared_external_trait)]
pub async fn vx_bind<A: VxShow + tokio::net::ToSocketAddrs>(a: A) -> (r: Result<tokio::net::TcpListener, Error>)
    ensures
        r is Ok == can_bind(a.shown()),
        r matches Ok(l) ==> bound_to(l) == a.shown(),
{
    tokio::net::TcpListener::bind(a).await
}

// ---------------------------------------------------------------- generated identifiers

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUuid(uuid::Uuid);

/// This is one that has been generated here and now. That no two are equal is the assumption made of `new_v4`.
pub uninterp spec fn new_uuid(u: uuid::Uuid) -> bool;

/// This is the text of such a one.
pub uninterp spec fn generated(s: Seq<char>) -> bool;

impl VxShow for uuid::Uuid {
    uninterp spec fn shown(&self) -> Seq<char>;
    #[verifier::external_body]
    fn show(&self) -> (r: String) { self.to_string() }
}

pub broadcast axiom fn axiom_uuid_shown(u: uuid::Uuid)
    ensures
        new_uuid(u) ==> #[trigger] u.shown().len() == 36 && generated(u.shown()),
;

pub assume_specification[ uuid::Uuid::new_v4 ]() -> (r: uuid::Uuid)
    ensures
        new_uuid(r),
;

pub broadcast axiom fn axiom_uuid_text(u: &uuid::Uuid, r: String)
    ensures
        #[trigger] vstd::string::to_string_from_display_ensures::<uuid::Uuid>(u, r) ==> r@.len() == 36 && (new_uuid(*u) ==> generated(r@)),
;

// ---------------------------------------------------------------- settings

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExConfig(config::Config);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExConfigError(config::ConfigError);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExEnvironment(config::Environment);

/// Stands in for `config::File<config::FileSourceFile>`, whose parameter cannot be named.
#[verifier::external_body]
pub struct VxFile(config::File<config::FileSourceFile>);

#[verifier::external_type_specification]
pub struct ExFileFormat(config::FileFormat);

/// Settings by their nested, dotted, lower-case names; the values are of no concern here.
pub type Table = Map<Seq<char>, int>;

/// What a settings file holds, if it can be read as this format.
pub uninterp spec fn file_table(name: Seq<char>, format: Option<config::FileFormat>) -> Option<Table>;

/// What the environment variables with this prefix hold, nested at this separator.
pub uninterp spec fn env_table(prefix: Seq<char>, separator: Option<Seq<char>>) -> Table;

pub uninterp spec fn cf_name(f: VxFile) -> Seq<char>;

pub uninterp spec fn cf_format(f: VxFile) -> Option<config::FileFormat>;

pub uninterp spec fn ce_prefix(e: config::Environment) -> Seq<char>;

pub uninterp spec fn ce_separator(e: config::Environment) -> Option<Seq<char>>;

/// The sources a configuration was merged from, and the result of merging them.
pub uninterp spec fn cfg_sources(c: config::Config) -> Seq<Option<Table>>;

pub uninterp spec fn cfg_table(c: config::Config) -> Table;

/// Later sources win.
pub open spec fn layered(s: Seq<Option<Table>>) -> Table
    decreases s.len(),
{
    if s.len() == 0 { Map::empty() } else { layered(s.drop_last()).union_prefer_right(s.last()->Some_0) }
}

pub assume_specification[ config::Config::new ]() -> (r: config::Config)
    ensures
        cfg_sources(r) == Seq::<Option<Table>>::empty(),
        cfg_table(r) == Map::<Seq<char>, int>::empty(),
;

impl VxFile {
    #[verifier::external_body]
    pub fn with_name(n: &str) -> (r: VxFile)
        ensures
            cf_name(r) == n@,
            cf_format(r) is None,
    {
        VxFile(config::File::with_name(n))
    }
    #[verifier::external_body]
    pub fn new(n: &str, f: config::FileFormat) -> (r: VxFile)
        ensures
            cf_name(r) == n@,
            cf_format(r) == Some(f),
    {
        VxFile(config::File::new(n, f))
    }
    #[verifier::external_body]
    pub fn format(self, f: config::FileFormat) -> (r: VxFile)
        ensures
            cf_name(r) == cf_name(self),
            cf_format(r) == Some(f),
    {
        VxFile(self.0.format(f))
    }
}

pub assume_specification[ config::Environment::with_prefix ](p: &str) -> (r: config::Environment)
    ensures
        ce_prefix(r) == p@,
        ce_separator(r) is None,
;

pub assume_specification[ config::Environment::separator ](e: config::Environment, s: &str) -> (r: config::Environment)
    ensures
        ce_prefix(r) == ce_prefix(e),
        ce_separator(r) == Some(s@),
;

pub trait VxSource: Sized {
    spec fn table(&self) -> Option<Table>;
    fn merge_into<'a>(self, c: &'a mut config::Config) -> (r: Result<&'a mut config::Config, config::ConfigError>)
        ensures
            match r {
                Ok(m) => {
                    &&& cfg_sources(*m) == cfg_sources(*old(c)).push(self.table())
                    &&& forall|i: int| 0 <= i < cfg_sources(*m).len() ==> (#[trigger] cfg_sources(*m)[i]) is Some
                    &&& cfg_table(*m) == layered(cfg_sources(*m))
                    &&& *final(c) == *final(m)
                },
                Err(_) => {
                    &&& cfg_sources(*final(c)) == cfg_sources(*old(c)).push(self.table())
                    &&& exists|i: int| 0 <= i < cfg_sources(*final(c)).len() && (#[trigger] cfg_sources(*final(c))[i]) is None
                    &&& cfg_table(*final(c)) == cfg_table(*old(c))
                },
            },
    ;
}

impl VxSource for VxFile {
    open spec fn table(&self) -> Option<Table> { file_table(cf_name(*self), cf_format(*self)) }
    #[verifier::external_body]
    fn merge_into<'a>(self, c: &'a mut config::Config) -> (r: Result<&'a mut config::Config, config::ConfigError>) { c.merge(self.0) }
}

impl VxSource for config::Environment {
    open spec fn table(&self) -> Option<Table> { Some(env_table(ce_prefix(*self), ce_separator(*self))) }
    #[verifier::external_body]
    fn merge_into<'a>(self, c: &'a mut config::Config) -> (r: Result<&'a mut config::Config, config::ConfigError>) { c.merge(self) }
}

/// `c.merge(s)`
#[verifier::external_body]
pub fn vx_merge<'a, S: VxSource>(c: &'a mut config::Config, s: S) -> (r: Result<&'a mut config::Config, config::ConfigError>)
    ensures
        match r {
            Ok(m) => {
                &&& cfg_sources(*m) == cfg_sources(*old(c)).push(s.table())
                &&& forall|i: int| 0 <= i < cfg_sources(*m).len() ==> (#[trigger] cfg_sources(*m)[i]) is Some
                &&& cfg_table(*m) == layered(cfg_sources(*m))
                &&& *final(c) == *final(m)
            },
            Err(_) => {
                &&& cfg_sources(*final(c)) == cfg_sources(*old(c)).push(s.table())
                &&& exists|i: int| 0 <= i < cfg_sources(*final(c)).len() && (#[trigger] cfg_sources(*final(c))[i]) is None
                &&& cfg_table(*final(c)) == cfg_table(*old(c))
            },
        },
{
    s.merge_into(c)
}

/// What these settings decode to as a T, as its declaration for serde says.
pub uninterp spec fn decoded<T>(t: Table) -> Option<T>;

pub assume_specification<'de, T: serde::Deserialize<'de>>[ config::Config::try_into::<'de, T> ](c: config::Config) -> (r: Result<T, config::ConfigError>)
    ensures
        match r { Ok(v) => decoded::<T>(cfg_table(c)) == Some(v), Err(_) => decoded::<T>(cfg_table(c)) is None },
;

/// What a value of the data format decodes to as a T.
pub uninterp spec fn decoded_value<T, D>(d: D) -> Option<T>;

#[verifier::external_trait_specification]
pub trait ExStdError: core::fmt::Debug + core::fmt::Display {
    type ExternalTraitSpecificationFor: std::error::Error;
}

#[verifier::external_trait_specification]
pub trait ExSerdeError: Sized + std::error::Error {
    type ExternalTraitSpecificationFor: serde::de::Error;
}

#[verifier::external_trait_specification]
pub trait ExDeserializer<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::Deserializer<'de>;
    type Error: serde::de::Error;
}

#[verifier::external_trait_specification]
pub trait ExDeserialize<'de>: Sized {
    type ExternalTraitSpecificationFor: serde::Deserialize<'de>;
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> (r: Result<Self, D::Error>)
        ensures
            match r { Ok(v) => decoded_value::<Self, D>(d) == Some(v), Err(_) => decoded_value::<Self, D>(d) is None },
    ;
}

// ---------------------------------------------------------------- text

/// Without the white space around it.
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;

pub assume_specification[ str::trim ](s: &str) -> (r: &str)
    ensures
        r@ == trimmed(s@),
;

// ---------------------------------------------------------------- time and addresses

#[verifier::external_trait_specification]
pub trait ExTimeZone: Sized + Clone {
    type ExternalTraitSpecificationFor: chrono::TimeZone;
    type Offset: chrono::Offset;
}

#[verifier::external_trait_specification]
pub trait ExOffset: Sized + Clone + core::fmt::Debug {
    type ExternalTraitSpecificationFor: chrono::Offset;
}

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(Tz)]
pub struct ExDateTime<Tz: chrono::TimeZone>(chrono::DateTime<Tz>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtc(chrono::Utc);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpAddr(std::net::IpAddr);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExSocketAddr(std::net::SocketAddr);

pub uninterp spec fn ip_of(a: std::net::SocketAddr) -> std::net::IpAddr;

pub assume_specification[ std::net::SocketAddr::ip ](a: &std::net::SocketAddr) -> (r: std::net::IpAddr)
    ensures
        r == ip_of(*a),
;

pub assume_specification[ chrono::Utc::now ]() -> chrono::DateTime<chrono::Utc>;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTimeDelta(chrono::TimeDelta);

pub type VxInstant = chrono::DateTime<chrono::Utc>;

/// Nanoseconds since the epoch.
pub uninterp spec fn instant_of<Tz: chrono::TimeZone>(t: chrono::DateTime<Tz>) -> int;

pub open spec fn instant(t: chrono::DateTime<chrono::Utc>) -> int {
    instant_of(t)
}

/// Nanoseconds.
pub uninterp spec fn span(d: chrono::TimeDelta) -> int;
/// chrono can represent the instant.
pub uninterp spec fn in_range(i: int) -> bool;

pub assume_specification[ chrono::TimeDelta::seconds ](n: i64) -> (r: chrono::TimeDelta)
    requires
        -9223372036854775 <= n <= 9223372036854775,
    ensures
        span(r) == n * 1000000000,
;

pub assume_specification[ chrono::TimeDelta::milliseconds ](n: i64) -> (r: chrono::TimeDelta)
    requires
        -9223372036854775807 <= n,
    ensures
        span(r) == n * 1000000,
;

/// Without the fraction.
pub open spec fn toward_zero(n: int, d: int) -> int {
    if n >= 0 { n / d } else { -((-n) / d) }
}

pub assume_specification[ chrono::TimeDelta::num_seconds ](d: &chrono::TimeDelta) -> (r: i64)
    ensures
        r == toward_zero(span(*d), 1000000000),
;

pub assume_specification[ chrono::TimeDelta::num_milliseconds ](d: &chrono::TimeDelta) -> (r: i64)
    ensures
        r == toward_zero(span(*d), 1000000),
;

pub assume_specification<Tz: chrono::TimeZone>[ chrono::DateTime::<Tz>::timestamp ](t: &chrono::DateTime<Tz>) -> (r: i64)
    ensures
        r == instant_of(*t) / 1000000000,
        -8400000000000 < r < 8400000000000,
;

pub assume_specification<Tz: chrono::TimeZone>[ chrono::DateTime::<Tz>::timestamp_millis ](t: &chrono::DateTime<Tz>) -> (r: i64)
    ensures
        r == instant_of(*t) / 1000000,
        -8400000000000000 < r < 8400000000000000,
;

/// What `signed_duration_since` takes.
pub trait VxTimeArg {
    spec fn at(&self) -> int;
    fn time(&self) -> (r: chrono::DateTime<chrono::Utc>)
        ensures
            instant(r) == self.at(),
    ;
}

impl VxTimeArg for chrono::DateTime<chrono::Utc> {
    open spec fn at(&self) -> int { instant(*self) }
    #[verifier::external_body]
    fn time(&self) -> (r: chrono::DateTime<chrono::Utc>) { self.clone() }
}

impl VxTimeArg for &chrono::DateTime<chrono::Utc> {
    open spec fn at(&self) -> int { instant(**self) }
    #[verifier::external_body]
    fn time(&self) -> (r: chrono::DateTime<chrono::Utc>) { (*self).clone() }
}

pub trait VxSince {
    fn vx_since<A: VxTimeArg>(&self, a: A) -> (r: chrono::TimeDelta);
}

impl VxSince for chrono::DateTime<chrono::Utc> {
    #[verifier::external_body]
    fn vx_since<A: VxTimeArg>(&self, a: A) -> (r: chrono::TimeDelta)
        ensures
            span(r) == instant(*self) - a.at(),
    {
        self.clone().signed_duration_since(a.time())
    }
}

pub open spec fn scaled(n: int, num: int, den: int) -> int {
    (n * num) / den
}

/// N * num / den, rounded down, computed as `(n as f32 * (num / den)) as i64`. With 16 bits of n, 8 of num and
/// a power of two as den, every step before the last is exact in single precision.
#[verifier::external_body]
pub fn vx_scaled(n: i64, num: u64, den: u64) -> (r: i64)
    requires
        0 <= n < 65536,
        num < 256,
        0 < den <= 64,
    ensures
        r == scaled(n as int, num as int, den as int),
        r * den <= n * num < (r + 1) * den,
{
    unimplemented!()
}

/// The same in double precision.
#[verifier::external_body]
pub fn vx_scaled_wide(n: i64, num: u64, den: u64) -> (r: i64)
    requires
        0 <= n < 35184372088832,
        num < 256,
        0 < den <= 64,
    ensures
        r == scaled(n as int, num as int, den as int),
        r * den <= n * num < (r + 1) * den,
{
    unimplemented!()
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExHashError(argon2::password_hash::Error);

} // verus!

/// Arithmetic on chrono's instants. Kept apart from the prelude, its users switch it on.
pub mod vx_time {
use vstd::prelude::*;
use super::{instant, span, in_range};
use chrono::{DateTime, TimeDelta, Utc};
use core::cmp::Ordering;
use vstd::std_specs::ops::{AddSpec, SubSpec};
use vstd::std_specs::cmp::PartialOrdSpec;
verus! {

/// The operators below have the meaning given to them here.
#[verifier::external_body]
pub proof fn axiom_operators()
    ensures
        <DateTime<Utc> as AddSpec<TimeDelta>>::obeys_add_spec(),
        <DateTime<Utc> as SubSpec<TimeDelta>>::obeys_sub_spec(),
        <DateTime<Utc> as SubSpec<DateTime<Utc>>>::obeys_sub_spec(),
        <DateTime<Utc> as PartialOrdSpec<DateTime<Utc>>>::obeys_partial_cmp_spec(),
        <TimeDelta as PartialOrdSpec<TimeDelta>>::obeys_partial_cmp_spec(),
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_add_req(a: DateTime<Utc>, b: TimeDelta)
    ensures
        #[trigger] <DateTime<Utc> as AddSpec<TimeDelta>>::add_req(a, b) == in_range(instant(a) + span(b)),
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_add(a: DateTime<Utc>, b: TimeDelta)
    ensures
        instant(#[trigger] <DateTime<Utc> as AddSpec<TimeDelta>>::add_spec(a, b)) == instant(a) + span(b),
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_sub_req(a: DateTime<Utc>, b: TimeDelta)
    ensures
        #[trigger] <DateTime<Utc> as SubSpec<TimeDelta>>::sub_req(a, b) == in_range(instant(a) - span(b)),
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_sub(a: DateTime<Utc>, b: TimeDelta)
    ensures
        instant(#[trigger] <DateTime<Utc> as SubSpec<TimeDelta>>::sub_spec(a, b)) == instant(a) - span(b),
{
}

/// The difference of two instants.
#[verifier::external_body]
pub broadcast proof fn axiom_since_req(a: DateTime<Utc>, b: DateTime<Utc>)
    ensures
        #[trigger] <DateTime<Utc> as SubSpec<DateTime<Utc>>>::sub_req(a, b) == true,
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_since(a: DateTime<Utc>, b: DateTime<Utc>)
    ensures
        span(#[trigger] <DateTime<Utc> as SubSpec<DateTime<Utc>>>::sub_spec(a, b)) == instant(a) - instant(b),
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_order(a: DateTime<Utc>, b: DateTime<Utc>)
    ensures
        #[trigger] <DateTime<Utc> as PartialOrdSpec<DateTime<Utc>>>::partial_cmp_spec(&a, &b)
            == Some(if instant(a) < instant(b) { Ordering::Less } else if instant(a) > instant(b) { Ordering::Greater } else { Ordering::Equal }),
{
}

#[verifier::external_body]
pub broadcast proof fn axiom_span_order(a: TimeDelta, b: TimeDelta)
    ensures
        #[trigger] <TimeDelta as PartialOrdSpec<TimeDelta>>::partial_cmp_spec(&a, &b)
            == Some(if span(a) < span(b) { Ordering::Less } else if span(a) > span(b) { Ordering::Greater } else { Ordering::Equal }),
{
}

pub broadcast group group_time {
    axiom_add_req,
    axiom_add,
    axiom_sub_req,
    axiom_sub,
    axiom_since_req,
    axiom_since,
    axiom_order,
    axiom_span_order,
}

} // verus!
}
