@area passwd
@spec vx_tool /verif/contracts/passwd_spec.rs

@module passwd_tool
@use crate::vx_prelude::*
@use crate::vx_tool::*
@use vstd::utf8::encode_utf8
@world crate::vx_tool::VxTool
@adds
@shim env_logger::init -
@shim fs::read_to_string crate::vx_tool::vx_read_file world
@shim fs::write crate::vx_tool::vx_write_file world
@shim SaltString::generate crate::vx_tool::vx_salt!
@shim Argon2::default crate::vx_tool::vx_argon2!
@method value_of/1 vx_value_of
@method is_present/1 vx_is_present
@method replace/2 vx_replace
@method ends_with/1 vx_ends_with
@method starts_with/1 vx_starts_with
@method contains/1 vx_contains
@shape build_arguments fnbuild_arguments(version:String)->ArgMatches{App::new("ratelmq-passwd").version(version.as_str()).about("ToolforRatelMQpasswordfilemanagement.").arg(Arg::new(ARGUMENT_NAME_FILE).short('f').long(ARGUMENT_NAME_FILE).value_name("PASSWD_FILE").about("RatelMQpasswdfiletomodify").default_value("/etc/ratelmq/passwd").required(false).takes_value(true),).arg(Arg::new(ARGUMENT_NAME_USER).short('u').long(ARGUMENT_NAME_USER).value_name("USER_NAME").about("Usernametomodify").required(true).takes_value(true),).arg(Arg::new(ARGUMENT_NAME_PASSWORD).short('p').long(ARGUMENT_NAME_PASSWORD).value_name("PASSWORD").about("Passwordtobeset").required_unless_present(ARGUMENT_NAME_DELETE).conflicts_with(ARGUMENT_NAME_DELETE).takes_value(true),).arg(Arg::new(ARGUMENT_NAME_DELETE).short('d').long(ARGUMENT_NAME_DELETE).about("Deletetheentryifexists").required(false).takes_value(false),).get_matches()}
@append
broadcast use {group_strings, group_convert, axiom_expand_doubled, axiom_expand_plain};

@fn build_arguments(version) -> r
@attr #[verifier::external_body]
    ensures
        r == command_line(),
        value(r, ARGUMENT_NAME_FILE@) is Some,
        value(r, ARGUMENT_NAME_USER@) is Some,
        present(r, ARGUMENT_NAME_DELETE@) || value(r, ARGUMENT_NAME_PASSWORD@) is Some,
@fn build_entry(user_name, maybe_password) -> r
@props C23 C24
    requires
        maybe_password is Some,
    ensures
        exists|h: Seq<char>| r@ =~= entry(user_name@, h) && #[trigger] hash_for(h, encode_utf8(maybe_password->Some_0@)), //@ C23 C24
@enter
    proof {
        reveal_strlit(":");
        reveal_strlit("\n");
    }
@fn main()
@props C23 C24
    requires
        old(vx_w).written.len() == 0,
        file_text(value(command_line(), ARGUMENT_NAME_FILE@)->Some_0) is Some,
        !value(command_line(), ARGUMENT_NAME_USER@)->Some_0.contains('\n'),
        !value(command_line(), ARGUMENT_NAME_USER@)->Some_0.contains(':'),
    ensures
        forall|k: int| 0 <= k < final(vx_w).written.len() ==> (#[trigger] final(vx_w).written[k]).0 == value(command_line(), ARGUMENT_NAME_FILE@)->Some_0, //@ C23 C24
        present(command_line(), ARGUMENT_NAME_DELETE@) ==> content_after(*final(vx_w), file_text(value(command_line(), ARGUMENT_NAME_FILE@)->Some_0)->Some_0)
            =~= without_entry(file_text(value(command_line(), ARGUMENT_NAME_FILE@)->Some_0)->Some_0, value(command_line(), ARGUMENT_NAME_USER@)->Some_0), //@ C23 C24
        !present(command_line(), ARGUMENT_NAME_DELETE@) ==> exists|h: Seq<char>| #[trigger] hash_for(h, encode_utf8(value(command_line(), ARGUMENT_NAME_PASSWORD@)->Some_0))
            && content_after(*final(vx_w), file_text(value(command_line(), ARGUMENT_NAME_FILE@)->Some_0)->Some_0)
                =~= with_entry(file_text(value(command_line(), ARGUMENT_NAME_FILE@)->Some_0)->Some_0, value(command_line(), ARGUMENT_NAME_USER@)->Some_0, h), //@ C23 C24
@opaque BUILD_INFO
@enter
    proof {
        reveal_strlit("$");
        reveal_strlit("");
        reveal_strlit("\n");
        assert("\n"@ =~= seq!['\n']);
        assert(""@ =~= Seq::<char>::empty());
        axiom_entry_pattern(value(command_line(), ARGUMENT_NAME_USER@)->Some_0, file_text(value(command_line(), ARGUMENT_NAME_FILE@)->Some_0)->Some_0);
    }
