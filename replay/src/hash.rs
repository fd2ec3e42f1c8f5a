use argon2::password_hash::{PasswordHasher, SaltString};
use argon2::{Algorithm, Argon2, Params, Version};

/// A hash with the cheapest parameters; verifying takes them from the hash.
pub fn hash(password: &str) -> String {
    let argon = Argon2::new(Algorithm::Argon2id, Version::V0x13, Params::new(8, 1, 1, None).unwrap());
    let salt = SaltString::b64_encode(b"saltsaltsalt").unwrap();
    argon.hash_password(password.as_bytes(), &salt).unwrap().to_string()
}
