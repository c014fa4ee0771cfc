PROP = "C15"
NEEDS = "PLAINTEXT with a secret that needs encoding"
BREAKS = "the signature is the key with only its ampersand encoded, so the percent signs of the secrets' escapes are not"
EDITS = [("oauth1-request/src/signature_method/plaintext.rs", """                write_signing_key(f, self.0, self.1)
            }
        }

        let mut signing_key = W::default();
        let key = SigningKey(client_secret, token_secret);
        write!(signing_key, "{}", PercentEncode(key)).unwrap();
""", """                write_signing_key(f, self.0, self.1)
            }
        }

        let mut signing_key = W::default();
        let key = SigningKey(client_secret, token_secret);
        match token_secret {
            Some(ts) if !ts.is_empty() => {
                // The parts are encoded already; what is left to encode is the delimiter.
                let (c, t) = (client_secret, ts);
                write!(signing_key, "{}%26{}", PercentEncode(c), PercentEncode(t)).unwrap();
            }
            _ => write!(signing_key, "{}", PercentEncode(key)).unwrap(),
        }
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::signature_method::{Sign, SignatureMethod};
fn main() {
    assert_eq!(oauth::PLAINTEXT.sign_with("a", Some("b")).end(), "a%26b");
    assert_eq!(oauth::PLAINTEXT.sign_with("&", Some("b")).end(), "%2526%26b");
}
'''
