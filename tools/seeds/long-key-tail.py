PROP = "C14"
NEEDS = "a secret with a run of at least 64 unreserved bytes whose length is no multiple of 64, so that the key passes the block size in one piece"
BREAKS = "the tail of the piece with which the signing key outgrows the block is not hashed"
EDITS = [("oauth1-request/src/signature_method/hmac_sha1.rs", """                    digest.update(&buf[..*pos]);
                    digest.update(input);
""", """                    digest.update(&buf[..*pos]);
                    if input.len() > buf.len() {
                        // Feed whole blocks.
                        for block in input.chunks_exact(buf.len()) {
                            digest.update(block);
                        }
                    } else {
                        digest.update(input);
                    }
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::signature_method::{Sign, SignatureMethod};
fn sig(cs: &str) -> String {
    let mut s = oauth::HMAC_SHA1.sign_with(cs, None);
    s.request_method("GET");
    s.end().to_string()
}
fn main() {
    let a = "a".repeat(70);
    let b = format!("{}bbbbbb", "a".repeat(64));
    assert_ne!(sig(&a), sig(&b));
}
'''
