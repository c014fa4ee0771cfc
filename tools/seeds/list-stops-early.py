PROP = "C10"
NEEDS = "a parameter whose name sorts after all of the OAuth parameters, following one that is equal to the last of them"
BREAKS = "oauth_version is never asked of the serializer"
EDITS = [("oauth1-request/src/request.rs", """            while next_param < *k {
                next_param.serialize(&mut serializer);
                next_param = next_param.next();
            }
            serializer.serialize_parameter(k, v);
""", """            while next_param < *k {
                next_param.serialize(&mut serializer);
                next_param = next_param.next();
            }
            serializer.serialize_parameter(k, v);
            if next_param == *"oauth_version" && k == "oauth_version" {
                next_param = OAuthParameter::None;
            }
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::Credentials;
fn main() {
    let l = oauth::ParameterList::new([("oauth_version", "2"), ("z", "1")]);
    let mut b = oauth::Builder::<_, _>::new(Credentials::new("c", "s"), oauth::HMAC_SHA1);
    let h = b.version(true).get("http://example.com/", &l);
    assert!(h.contains("oauth_version=\"1.0\""), "{}", h);
}
'''
