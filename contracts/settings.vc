@area settings

@module settings
@use crate::vx_prelude::*
@shape MqttSettings #[derive(Debug, Deserialize)] pub struct MqttSettings { #[serde(deserialize_with = "list_or_comma_separated")] pub listeners_tcp: Vec<String>, }
@shape AuthenticationSettings #[derive(Debug, Deserialize)] pub struct AuthenticationSettings { pub password_file: String, }
@shape Settings #[derive(Debug, Deserialize)] pub struct Settings { pub mqtt: MqttSettings, pub authentication: AuthenticationSettings, }
@shape ListOrText #[derive(Deserialize)] #[serde(untagged)] enum ListOrText { List(Vec<String>), Text(String), }
@append

/// What is in force: the environment over the file, the file being there.
pub open spec fn in_force(file: Seq<char>) -> Option<Settings> {
    match file_table(file, Some(FileFormat::Toml)) {
        Some(f) => decoded(f.union_prefer_right(env_table("ratelmq"@, Some("__"@)))),
        None => None,
    }
}

pub broadcast proof fn lemma_layered_two(a: Option<Table>, b: Option<Table>)
    ensures
        #[trigger] layered(Seq::empty().push(a).push(b)) == a->Some_0.union_prefer_right(b->Some_0),
{
    let s = Seq::empty().push(a).push(b);
    assert(s.drop_last() =~= Seq::empty().push(a));
    assert(s.drop_last().drop_last() =~= Seq::empty());
    reveal_with_fuel(layered, 3);
    assert(Map::<Seq<char>, int>::empty().union_prefer_right(a->Some_0) =~= a->Some_0);
}

@fn list_or_comma_separated(deserializer) -> r
@props C25 C28
    ensures
        match decoded_value::<ListOrText, D>(deserializer) {
            Some(ListOrText::List(l)) => r == Ok::<Vec<String>, D::Error>(l), //@ C25 C28
            Some(ListOrText::Text(t)) => r is Ok && r->Ok_0@.len() == split_at_char(t@, ',').len() && forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i])@ == trimmed(split_at_char(t@, ',')[i]), //@ C25 C28
            None => r is Err, //@ C25 C28
        },
@enter
    let ghost text0 = match decoded_value::<ListOrText, D>(deserializer) { Some(ListOrText::Text(t)) => t@, _ => Seq::empty() };
@collect 1 Vec<String>
@loop 1
    invariant
        vx_it1.seq().len() == split_at_char(text0, ',').len(),
        forall|i: int| 0 <= i < vx_it1.seq().len() ==> (#[trigger] vx_it1.seq()[i])@ == split_at_char(text0, ',')[i],
        vx_c1@.len() == vx_it1.index@,
        forall|i: int| 0 <= i < vx_c1@.len() ==> (#[trigger] vx_c1@[i])@ == trimmed(split_at_char(text0, ',')[i]), //@ C25 C28
@fn Settings::new(config_filename) -> r
@props C25 C28
    ensures
        match r { Ok(s) => in_force(config_filename@) == Some(s), Err(_) => in_force(config_filename@) is None }, //@ C25 C28
@local config ~ Config::new
@enter
    proof {
        broadcast use lemma_layered_two;
        let s = Seq::empty().push(file_table(config_filename@, Some(FileFormat::Toml)));
        assert(s[0] == file_table(config_filename@, Some(FileFormat::Toml)));
        let s2 = s.push(Some(env_table("ratelmq"@, Some("__"@))));
        assert(s2[0] == s[0]);
        assert(layered(s2) == s[0]->Some_0.union_prefer_right(env_table("ratelmq"@, Some("__"@))));
    }
