@area auth

@module broker::authentication
@use crate::vx_prelude::*
@append
broadcast use {group_strings, group_convert, axiom_string_view_injective, vstd::std_specs::hash::group_hash_axioms};

/// Who is in a password file with these lines, and with which hash: the last line counts.
pub open spec fn users(ls: Seq<Seq<char>>) -> Map<String, String>
    decreases ls.len(),
{
    if ls.len() == 0 {
        Map::empty()
    } else {
        let c = first_char(ls.last(), ':')->Some_0;
        users(ls.drop_last()).insert(str_of(c.0), str_of(c.1))
    }
}

/// Every line is `user:hash`.
pub open spec fn entries(ls: Seq<Seq<char>>) -> bool {
    forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).contains(':')
}

/// Whether the file can be loaded.
pub open spec fn loads(name: Seq<char>) -> bool {
    file_text(name) is Some && entries(lines_of(file_text(name)->Some_0))
}

impl vstd::std_specs::convert::FromSpecImpl<std::io::Error> for FileIdentityManagerError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: std::io::Error) -> FileIdentityManagerError { arbitrary() }
}

/// Whether the user with this name and password is in the map.
pub open spec fn known(m: Map<String, String>, user: Seq<char>, password: Seq<char>) -> bool {
    &&& m.contains_key(str_of(user))
    &&& well_formed_hash(m[str_of(user)]@)
    &&& password_verifies(m[str_of(user)]@, vstd::utf8::encode_utf8(password))
}

/// Whether the user with this name and password is in the file.
pub open spec fn authentic(name: Seq<char>, user: Seq<char>, password: Seq<char>) -> bool {
    known(users(lines_of(file_text(name)->Some_0)), user, password)
}

impl FileIdentityManager {
    pub closed spec fn users_v(&self) -> Map<String, String> { self.passwords_by_username@ }
}

@inside trait IdentityProvider
    spec fn accepts(&self, user: Seq<char>, password: Seq<char>) -> bool;
@inside impl IdentityProvider for FileIdentityManager
    open spec fn accepts(&self, user: Seq<char>, password: Seq<char>) -> bool {
        known(self.users_v(), user, password)
    }
@fn IdentityProvider::authenticate(username, password) -> r
@props C16 C18 C24
    ensures
        r is Ok == self.accepts(username@, password@), //@ C16 C18 C24
@fn FileIdentityManager::new(filename) -> r
@props C18 C24
    ensures
        r is Ok == loads(filename@), //@ C18 C24
        r is Ok ==> r->Ok_0.users_v() == users(lines_of(file_text(filename@)->Some_0)), //@ C18 C24
@local credentials ~ read_to_string
@local passwords_by_username ~ HashMap::with_capacity
@vars 1 line
@before 1
    let ghost ls = lines_of(credentials@);
@loop 1 for
    invariant
        ls == lines_of(file_text(filename@)->Some_0),
        file_text(filename@) is Some,
        vx_it1.seq().len() == ls.len(),
        forall|i: int| 0 <= i < ls.len() ==> (#[trigger] vx_it1.seq()[i])@ == ls[i],
        entries(ls.take(vx_it1.index@ as int)), //@ C18 C24
        passwords_by_username@ == users(ls.take(vx_it1.index@ as int)), //@ C18 C24
@top 1
    let ghost k = vx_it1.index@ as int;
    proof {
        assert(vx_it1.seq()[k]@ == ls[k]);
        assert(line@ == ls[k]);
    }
@bottom 1
    proof {
        assert(ls.take(k + 1).drop_last() =~= ls.take(k));
        assert(ls.take(k + 1).last() == ls[k]);
    }
@after 1
    proof {
        assert(ls.take(ls.len() as int) =~= ls);
    }
