//! Reference model of the SSH formats and rules, written from the specifications
//! (RFC 4251/4253/5656, PROTOCOL.certkeys, PROTOCOL.sshsig, PROTOCOL.u2f, PROTOCOL.key).
//! It never calls the crate under test.
pub mod allowed;
pub mod cert;
pub mod der;
pub mod ec;
pub mod fido;
pub mod keys;
pub mod privkey;
pub mod sshsig;
pub mod wire;
pub mod x509;

use ring::digest;
pub fn sha1(m: &[u8]) -> Vec<u8> {
    digest::digest(&digest::SHA1_FOR_LEGACY_USE_ONLY, m).as_ref().to_vec()
}
pub fn sha256(m: &[u8]) -> Vec<u8> {
    digest::digest(&digest::SHA256, m).as_ref().to_vec()
}
pub fn sha384(m: &[u8]) -> Vec<u8> {
    digest::digest(&digest::SHA384, m).as_ref().to_vec()
}
pub fn sha512(m: &[u8]) -> Vec<u8> {
    digest::digest(&digest::SHA512, m).as_ref().to_vec()
}
/// Three-valued expectation: where no specification decides, either answer is right.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tri {
    Yes,
    No,
    May,
}
impl Tri {
    pub fn allows(self, accepted: bool) -> bool {
        match self {
            Tri::Yes => accepted,
            Tri::No => !accepted,
            Tri::May => true,
        }
    }
}
