PROP = "C01"
NEEDS = "a value whose Display writes a non-ASCII character with write_char (such as a char)"
BREAKS = "percent-encoding a character written by itself keeps only the low byte of its code point"
EDITS = [("oauth1-request/src/util/percent_encoding.rs", """                Display::fmt(&percent_encode(s), self.0)
            }
""", """                Display::fmt(&percent_encode(s), self.0)
            }

            fn write_char(&mut self, c: char) -> fmt::Result {
                if should_percent_encode(c as u8) {
                    self.0.write_str(percent_encoding::percent_encode_byte(c as u8))
                } else {
                    self.0.write_char(c)
                }
            }
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    assert_eq!(oauth::to_form(&oauth::ParameterList::new(vec![("a", 'é')])), "a=%C3%A9");
    assert_eq!(oauth::to_form(&oauth::ParameterList::new(vec![("a", '&')])), "a=%26");
}
'''
