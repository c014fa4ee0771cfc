PROP = "C06"
NEEDS = "a request parameter whose key starts with oauth_"
BREAKS = "request parameters whose key starts with oauth_ are also put into the Authorization header"
EDITS = [("oauth1-request/src/serializer/auth.rs", """        self.sign_delimiter();
        self.sign.parameter(key, DoublePercentEncode(value));
    }

    fn serialize_parameter_encoded""", """        // Protocol extensions such as `oauth_body_hash` belong to the header.
        if let Data::Authorization(ref mut header) = self.data {
            if key.starts_with("oauth_") {
                write!(header, r#"{}="{}","#, key, PercentEncode(&value)).unwrap();
            }
        }
        self.sign_delimiter();
        self.sign.parameter(key, DoublePercentEncode(&value));
    }

    fn serialize_parameter_encoded""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    let h = b.authorize("POST", "http://example.com/", &oauth::ParameterList::new(vec![("oauth_body_hash", "x")]));
    assert!(!h.contains("body_hash"), "{}", h);
}
'''
