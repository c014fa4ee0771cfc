PROP = "C39"
NEEDS = "a run of a multiple of 256 unreserved bytes before one that must be encoded"
BREAKS = "the loop of the double encoding makes no progress"
EDITS = [("oauth1-request/src/util/percent_encoding.rs", """                    if let Some((i, &b)) = bytes
                        .iter()
                        .enumerate()
                        .skip(1)
                        .find(|&(_, &b)| should_percent_encode(b))
                    {
                        let rem = &bytes[i + 1..];
                        let s = &bytes[..i];
                        debug_assert!(s.is_ascii());
                        self.0.write_str(unsafe { str::from_utf8_unchecked(s) })?;
                        self.0.write_str(double_encode_byte(b))?;
                        bytes = rem;
""", """                    if let Some(i) = bytes.iter().position(|&b| should_percent_encode(b)) {
                        // What is left of the run is written in the next round.
                        let (s, rem) = bytes.split_at(usize::from(i as u8));
                        debug_assert!(s.is_ascii());
                        self.0.write_str(unsafe { str::from_utf8_unchecked(s) })?;
                        bytes = rem;
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let v = "a".repeat(256) + "!";
        let l = oauth::ParameterList::new([("a", v.as_str())]);
        let b = oauth::Builder::<_, &str>::new(oauth::Credentials::new("a", "b"), oauth::HMAC_SHA1);
        tx.send(b.get("http://e", &l)).unwrap();
    });
    match rx.recv_timeout(std::time::Duration::from_secs(10)) {
        Ok(h) => assert!(h.starts_with("OAuth ")),
        Err(_) => std::process::exit(3),
    }
}
'''
