#!/usr/bin/env python3
"""refactors.py [NAME...]: applies each behaviour-preserving edit below to /repo, runs everything once
(allcheck.py) and prints what is not quiet. Run it inside a lab (lab.sh)."""
import os, sys, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "oauth1-request/src/serializer/auth.rs"
P = "oauth1-request/src/util/percent_encoding.rs"
H = "oauth1-request/src/signature_method/hmac_sha1.rs"
PT = "oauth1-request/src/signature_method/plaintext.rs"
SM = "oauth1-request/src/signature_method.rs"
U = "oauth1-request/src/serializer/urlencode.rs"
RQ = "oauth1-request/src/request.rs"
PL = "oauth1-request/src/request/parameter_list.rs"
RC = "oauth1-request/src/serializer/recorder.rs"
DG = "oauth1-request/src/signature_method/digest_common.rs"
EI = "oauth1-request/src/signature_method/either.rs"
L = "oauth1-request/src/lib.rs"
OP = "oauth1-request/src/util/oauth_parameter.rs"
C = "oauth-credentials/src/lib.rs"
S = "oauth-credentials/src/serde_imp.rs"
MB = "oauth1-request-derive/src/method_body.rs"
DL = "oauth1-request-derive/src/lib.rs"
R = {}

R["helper-end"] = [(A, """    fn end(self) -> W {
        let Self { data, sign, .. } = self;

        match data {
            Data::Authorization(mut header) => {
                header.write_str("oauth_signature=").unwrap();
                write!(header, r#""{}""#, sign.end()).unwrap();
                header
            }
""", """    fn end(self) -> W {
        fn quoted<W: Write, D: Display>(out: &mut W, key: &str, v: D) -> fmt::Result {
            out.write_str(key)?;
            out.write_char('=')?;
            out.write_char('"')?;
            write!(out, "{}", v)?;
            out.write_char('"')
        }
        let Self { data, sign, .. } = self;
        let signature = sign.end();

        match data {
            Data::Authorization(mut header) => {
                quoted(&mut header, "oauth_signature", signature).expect("write");
                header
            }
"""), (A, """                encoder.serialize_parameter_encoded("oauth_signature", sign.end());
""", """                encoder.serialize_parameter_encoded("oauth_signature", signature);
""")]

R["nonce-fold"] = [(A, """    // Trim leading zeroes to be stingy.
    let i = rand.iter().position(|&b| b != 0).unwrap_or(rand.len());
    let rand = &rand[i..];
""", """    // Trim leading zeroes to be stingy.
    let mut rand = &rand[..];
    while let Some((&0, tail)) = rand.split_first() {
        rand = tail;
    }
""")]

R["nonce-char"] = [(A, """    let len = base64::engine::general_purpose::URL_SAFE_NO_PAD
        .encode_slice(rand, buf)
        .unwrap();
    let buf = &buf[..len];

    str::from_utf8(buf).unwrap()
""", """    match base64::engine::general_purpose::URL_SAFE_NO_PAD.encode_slice(rand, &mut buf[..]) {
        Ok(len) => {
            let (head, _) = buf.split_at(len);
            match str::from_utf8(head) {
                Ok(s) => s,
                Err(_) => unreachable!(),
            }
        }
        Err(_) => unreachable!("the buffer is large enough"),
    }
""")]

R["timestamp-map"] = [(A, """            match SystemTime::now().duration_since(UNIX_EPOCH) {
                Ok(d) => d.as_secs(),
                Err(_) => 1,
            }
""", """            let now = SystemTime::now();
            now.duration_since(UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(1)
"""), (A, """            let t = if let Some(t) = self.options.timestamp {
                t.get()
            } else {
                get_current_timestamp()
            };
""", """            let t = self.options.timestamp.map_or_else(get_current_timestamp, |t| t.get());
""")]

R["question-bytes"] = [(A, """                assert!(!uri.contains('?'), "`uri` must not contain a query part");
                Ok(())
""", """                let mut rest = uri.as_bytes().iter();
                if rest.any(|b| *b == b'?') {
                    panic!("`uri` must not contain a query part");
                }
                Ok(())
""")]

R["question-find"] = [(A, """                assert!(!uri.contains('?'), "`uri` must not contain a query part");
                Ok(())
""", """                assert_eq!(uri.find('?'), None, "`uri` must not contain a query part");
                Ok(())
""")]

R["question-chars"] = [(A, """                assert!(!uri.contains('?'), "`uri` must not contain a query part");
                Ok(())
""", """                for c in uri.chars() {
                    assert!(c != '?', "`uri` must not contain a query part");
                }
                Ok(())
""")]

R["delimiter-take"] = [(A, """        if self.append_delim_to_sign {
            self.sign.delimiter();
        } else {
            self.append_delim_to_sign = true;
        }
""", """        if core::mem::replace(&mut self.append_delim_to_sign, true) {
            self.sign.delimiter();
        }
""")]

R["prev-key-assign"] = [(A, """            self.prev_key.clear();
            self.prev_key.push_str(_k);
""", """            self.prev_key = alloc::string::String::from(_k);
""")]

R["prev-key-cmp"] = [(A, """            assert!(
                *self.prev_key <= *_k,
""", """            assert!(
                self.prev_key.as_str().cmp(_k) != core::cmp::Ordering::Greater,
""")]

R["header-pieces"] = [(A, """            Data::Authorization(ref mut header) => write!(header, r#"{}="{}","#, k, v).unwrap(),
""", """            Data::Authorization(ref mut header) => {
                header.write_str(k).unwrap();
                header.write_str("=\\"").unwrap();
                write!(header, "{}", v).unwrap();
                header.write_str("\\",").unwrap();
            }
""")]

R["urlencode-helper"] = [(U, """        self.append_delim();
        write!(self.data, "{}={}", key, PercentEncode(&value)).unwrap();
    }
""", """        self.serialize_parameter_encoded(key, PercentEncode(&value));
    }
"""), (U, """    fn append_delim(&mut self) {
        match self.next_append {
            Append::None => self.next_append = Append::Ampersand,
            Append::Question => {
                self.data.write_char('?').unwrap();
                self.next_append = Append::Ampersand;
            }
            Append::Ampersand => self.data.write_char('&').unwrap(),
        }
    }
""", """    fn append_delim(&mut self) {
        let delim = match core::mem::replace(&mut self.next_append, Append::Ampersand) {
            Append::None => "",
            Append::Question => "?",
            Append::Ampersand => "&",
        };
        self.data.write_str(delim).unwrap();
    }
""")]

R["double-per-byte"] = [(P, """                let mut bytes = s.as_bytes();
                while let Some((&b, rem)) = bytes.split_first() {
                    if should_percent_encode(b) {
                        self.0.write_str(double_encode_byte(b))?;
                        bytes = rem;
                        continue;
                    }

                    // Write as much characters as possible at once:
                    if let Some((i, &b)) = bytes
                        .iter()
                        .enumerate()
                        .skip(1)
                        .find(|&(_, &b)| should_percent_encode(b))
                    {
                        let rem = &bytes[i + 1..];
                        let s = &bytes[..i];
                        debug_assert!(s.is_ascii());
                        self.0.write_str(unsafe { str::from_utf8_unchecked(s) })?;
                        self.0.write_str(double_encode_byte(b))?;
                        bytes = rem;
                    } else {
                        debug_assert!(bytes.is_ascii());
                        return self.0.write_str(unsafe { str::from_utf8_unchecked(bytes) });
                    }
                }

                Ok(())
""", """                for b in s.bytes() {
                    if should_percent_encode(b) {
                        self.0.write_str(double_encode_byte(b))?;
                    } else {
                        self.0.write_char(char::from(b))?;
                    }
                }

                Ok(())
""")]

R["double-position"] = [(P, """                    if let Some((i, &b)) = bytes
                        .iter()
                        .enumerate()
                        .skip(1)
                        .find(|&(_, &b)| should_percent_encode(b))
                    {
                        let rem = &bytes[i + 1..];
                        let s = &bytes[..i];
                        debug_assert!(s.is_ascii());
                        self.0.write_str(unsafe { str::from_utf8_unchecked(s) })?;
                        self.0.write_str(double_encode_byte(b))?;
                        bytes = rem;
                    } else {
                        debug_assert!(bytes.is_ascii());
                        return self.0.write_str(unsafe { str::from_utf8_unchecked(bytes) });
                    }
""", """                    let n = bytes
                        .iter()
                        .position(|&b| should_percent_encode(b))
                        .unwrap_or_else(|| bytes.len());
                    let (run, rest) = bytes.split_at(n);
                    self.0.write_str(str::from_utf8(run).unwrap())?;
                    bytes = rest;
""")]

R["double-nested"] = [(P, """        struct Adapter<'a, 'b>(&'a mut Formatter<'b>);

        impl<'a, 'b: 'a> Write for Adapter<'a, 'b> {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                let mut bytes = s.as_bytes();
""", """        struct Adapter<'a, 'b>(&'a mut Formatter<'b>);

        impl<'a, 'b: 'a> Write for Adapter<'a, 'b> {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                if s.is_empty() {
                    return Ok(());
                }
                let mut bytes = s.as_bytes();
""")]

R["double-chunks"] = [(P, """    let b = usize::from(b);
    unsafe { str::from_utf8_unchecked(&ENCODE[b * 5..(b + 1) * 5]) }
""", """    let b = b as usize;
    let start = 5 * b;
    match str::from_utf8(&ENCODE[start..][..5]) {
        Ok(s) => s,
        Err(_) => "",
    }
""")]

R["should-matches"] = [(P, """    !b.is_ascii() || get_bit(&ENCODE_MAP, usize::from(b))
""", """    if b >= 0x80 {
        return true;
    }
    get_bit(&ENCODE_MAP, b as usize)
""")]

R["signing-key-parts"] = [(SM, """    write!(dst, "{}", percent_encode(client_secret))?;
    dst.write_str("&")?;
    if let Some(ts) = token_secret {
        write!(dst, "{}", percent_encode(ts))?;
    }
    Ok(())
""", """    for s in percent_encode(client_secret) {
        dst.write_str(s)?;
    }
    dst.write_char('&')?;
    write!(dst, "{}", percent_encode(token_secret.unwrap_or("")))
""")]

R["signing-key-if"] = [(H, """                if input.len() > buf.len() - *pos {
                    let mut digest = Sha1::default();
                    digest.update(&buf[..*pos]);
                    digest.update(input);
                    SigningKey::Digest(digest)
                } else {
                    buf[*pos..(*pos + input.len())].copy_from_slice(input);
                    *pos += input.len();
                    return;
                }
""", """                let end = *pos + input.len();
                if let Some(room) = buf.get_mut(*pos..end) {
                    room.copy_from_slice(input);
                    *pos = end;
                    return;
                }
                let digest = Sha1::new().chain_update(&buf[..*pos]).chain_update(input);
                SigningKey::Digest(digest)
""")]

R["hmac-collect"] = [(H, """        let mut key = SigningKey::new();
        write_signing_key(&mut key, client_secret, token_secret).unwrap();
        HmacSha1Sign {
            inner: UpdateSign(key.into_hmac()),
        }
""", """        let key = {
            let mut key = SigningKey::new();
            let r = write_signing_key(&mut key, client_secret, token_secret);
            debug_assert!(r.is_ok());
            key
        };
        let inner = UpdateSign(key.into_hmac());
        HmacSha1Sign { inner }
""")]

R["plaintext-two"] = [(PT, """        let mut signing_key = W::default();
        let key = SigningKey(client_secret, token_secret);
        write!(signing_key, "{}", PercentEncode(key)).unwrap();
        PlaintextSign { signing_key }
""", """        let mut sign = PlaintextSign {
            signing_key: W::default(),
        };
        sign.signing_key
            .write_fmt(format_args!("{}", PercentEncode(SigningKey(client_secret, token_secret))))
            .expect("failed to write the signing key");
        sign
""")]

R["update-parameter"] = [(DG, """        self.0.update(key.as_bytes());
        self.0.update(b"%3D"); // '='
        write!(UpdateWrite(&mut self.0), "{}", value).unwrap();
""", """        write!(UpdateWrite(&mut self.0), "{}%3D{}", key, value).unwrap();
"""), (DG, """        self.0.update(method.as_bytes());
        self.0.update(b"&");
""", """        for s in &[method, "&"] {
            self.0.update(s.as_bytes());
        }
""")]

R["either-match"] = [(EI, """        self.map_left(L::end).map_right(R::end)
""", """        match self {
            Either::Left(l) => Either::Left(l.end()),
            Either::Right(r) => Either::Right(r.end()),
        }
""")]

R["assert-sorted-peek"] = [(RQ, """        for (k, v) in self.inner.clone() {
            let k = k.as_ref();
            while next_param < *k {
                next_param.serialize(&mut serializer);
                next_param = next_param.next();
            }
            serializer.serialize_parameter(k, v);
        }
""", """        let mut iter = self.inner.clone();
        while let Some((k, v)) = iter.next() {
            let k = k.as_ref();
            loop {
                if !(next_param < *k) {
                    break;
                }
                next_param.serialize(&mut serializer);
                next_param = next_param.next();
            }
            serializer.serialize_parameter(k, v);
        }
""")]

R["assert-sorted-fold"] = [(RQ, """        let mut next_param = OAuthParameter::default();

        for (k, v) in self.inner.clone() {
            let k = k.as_ref();
            while next_param < *k {
                next_param.serialize(&mut serializer);
                next_param = next_param.next();
            }
            serializer.serialize_parameter(k, v);
        }

        while next_param != OAuthParameter::None {
            next_param.serialize(&mut serializer);
            next_param = next_param.next();
        }
""", """        fn flush<S: Serializer>(
            serializer: &mut S,
            mut next: OAuthParameter,
            before: Option<&str>,
        ) -> OAuthParameter {
            while next != OAuthParameter::None && before.map_or(true, |k| next < *k) {
                next.serialize(serializer);
                next = next.next();
            }
            next
        }

        let next_param = self.inner.clone().fold(OAuthParameter::default(), |next, (k, v)| {
            let next = flush(&mut serializer, next, Some(k.as_ref()));
            serializer.serialize_parameter(k.as_ref(), v);
            next
        });
        flush(&mut serializer, next_param, None);
""")]

R["sorted-loop"] = [(PL, """    slice
        .windows(2)
        .all(|slice| !matches!(cmp(&slice[1], &slice[0]), Ordering::Less))
""", """    for i in 1..slice.len() {
        if cmp(&slice[i - 1], &slice[i]) == Ordering::Greater {
            return false;
        }
    }
    true
""")]

R["sorted-zip"] = [(PL, """    slice
        .windows(2)
        .all(|slice| !matches!(cmp(&slice[1], &slice[0]), Ordering::Less))
""", """    slice
        .iter()
        .zip(slice.iter().skip(1))
        .all(|(a, b)| cmp(a, b) != Ordering::Greater)
""")]

R["cmp-then"] = [(PL, """        (kl, fmt_cmp::Cmp(PercentEncode(vl))).cmp(&(kr, fmt_cmp::Cmp(PercentEncode(vr))))
""", """        kl.cmp(kr)
            .then_with(|| fmt_cmp::cmp(&PercentEncode(vl), &PercentEncode(vr)))
""")]

R["sort-stable"] = [(PL, """        self.list.as_mut().sort_unstable_by(cmp);
""", """        let list = self.list.as_mut();
        if list.len() > 1 {
            list.sort_unstable_by(|a, b| cmp(a, b));
        }
""")]

R["serialize-iter"] = [(PL, """            super::AssertSorted::new(this.iter().map(|pair| {
                let (ref k, ref v) = *pair.borrow();
                (k, v)
            }))
            .serialize(serializer)
""", """            let pairs = this.iter().map(Borrow::borrow).map(|p| (&p.0, &p.1));
            super::AssertSorted::new(pairs).serialize(serializer)
""")]

R["recorder-push"] = [(RC, """        self.history
            .push(Record::Parameter(key.to_owned(), value.to_string()));
""", """        let record = Record::Parameter(String::from(key), format!("{}", value));
        self.history.extend(core::iter::once(record));
""")]

R["record-eq-nested"] = [(RC, """            ) => k1.as_ref() == k2.as_ref() && fmt_cmp::cmp(v1, v2) == Ordering::Equal,
""", """            ) => {
                let (k1, k2) = (k1.as_ref(), k2.as_ref());
                k1.len() == k2.len() && k1 == k2 && matches!(fmt_cmp::cmp(v1, v2), Ordering::Equal)
            }
""")]

R["builder-inner"] = [(L, """            let serializer = serializer::auth::Authorizer::authorization(
                method,
                uri,
                self.client.as_ref(),
                self.token.as_ref().map(Credentials::as_ref),
                &self.options,
                self.signature_method.clone(),
            );

            request.serialize(serializer)
        }
""", """            self.authorize_with_buf(String::with_capacity(512), method, uri, request)
        }
""")]

R["options-match"] = [(OP, """impl PartialOrd<str> for OAuthParameter {
    fn partial_cmp(&self, s: &str) -> Option<Ordering> {
        match self.as_str() {
            Some(t) => t.partial_cmp(s),
            None => Some(Ordering::Greater),
        }
""", """impl PartialOrd<str> for OAuthParameter {
    fn partial_cmp(&self, s: &str) -> Option<Ordering> {
        Some(self.as_str().map_or(Ordering::Greater, |t| t.as_bytes().cmp(s.as_bytes())))
""")]

R["credentials-map"] = [(C, """        Credentials::new(f(self.identifier), f(self.secret))
""", """        let Credentials { identifier: identifier, secret: secret } = self;
        let identifier = f(identifier);
        let secret = f(secret);
        Credentials { identifier: identifier, secret: secret }
""")]

R["serde-option"] = [(S, """                    match k {
                        Field::Identifier => {
                            if identifier.is_some() {
                                return Err(de::Error::duplicate_field(IDENTIFIER));
                            }
                            identifier = Some(try!(map.next_value()));
                        }
                        Field::Secret => {
                            if secret.is_some() {
                                return Err(de::Error::duplicate_field(SECRET));
                            }
                            secret = Some(try!(map.next_value()));
                        }
""", """                    let (slot, name) = match k {
                        Field::Identifier => (&mut identifier, IDENTIFIER),
                        Field::Secret => (&mut secret, SECRET),
                        Field::Other => {
                            let _ = try!(map.next_value::<de::IgnoredAny>());
                            continue;
                        }
                    };
                    match *slot {
                        Some(_) => return Err(de::Error::duplicate_field(name)),
                        None => *slot = Some(try!(map.next_value())),
                    }
                }
                let (identifier, secret) = match (identifier, secret) {
                    (Some(i), Some(s)) => (i, s),
                    (None, _) => return Err(de::Error::missing_field(IDENTIFIER)),
                    (_, None) => return Err(de::Error::missing_field(SECRET)),
                };
"""), (S, """                        Field::Other => {
                            try!(map.next_value::<de::IgnoredAny>());
                        }
                    }
                }

                let identifier =
                    try!(identifier.ok_or_else(|| de::Error::missing_field(IDENTIFIER)));
                let secret = try!(secret.ok_or_else(|| de::Error::missing_field(SECRET)));
""", "")]

R["serde-str"] = [(S, """        fn visit_bytes(v: &[u8]) -> Field {
            match v {
                b"oauth_token" => Field::Identifier,
                b"oauth_token_secret" => Field::Secret,
                _ => Field::Other,
            }
        }
""", """        fn visit_bytes(v: &[u8]) -> Field {
            if v == IDENTIFIER.as_bytes() {
                Field::Identifier
            } else if v == SECRET.as_bytes() {
                Field::Secret
            } else {
                Field::Other
            }
        }
""")]

R["derive-body"] = [(MB, """            // Enclose the statements with a block if not any yet, to keep the `#tmp` binding local.
            if f.meta.skip_if.is_none() && !ty_is_option {
                stmts = quote! {{ #stmts }};
            }
""", """            // Enclose the statements with a block, to keep the `#tmp` binding local.
            stmts = quote! {{ #stmts }};
""")]

R["derive-match"] = [(MB, """                    if let ::core::option::Option::Some(#bind) = {
                        let #tmp = &#this.#ident;
                        ::core::option::Option::as_ref(#tmp)
                    } {
                        #stmts
                    }
""", """                    match {
                        let #tmp = &#this.#ident;
                        ::core::option::Option::as_ref(#tmp)
                    } {
                        ::core::option::Option::Some(#bind) => { #stmts }
                        ::core::option::Option::None => {}
                    }
""")]

R["sign-default"] = [(SM, """pub trait Sign {""", """#[allow(clippy::module_name_repetitions)]
pub trait Sign {""")]


# -- second batch ------------------------------------------------------------------------------
R["push-closure"] = [(A, """        self.check_dictionary_order(key);
        if let Data::Urlencode(ref mut encoder) = self.data {
            encoder.serialize_parameter(key, &value);
        }
        self.sign_delimiter();
        self.sign.parameter(key, DoublePercentEncode(value));
    }
""", """        self.begin(key, |encoder| encoder.serialize_parameter(key, &value));
        self.sign.parameter(key, DoublePercentEncode(value));
    }
"""), (A, """        self.check_dictionary_order(key);
        if let Data::Urlencode(ref mut encoder) = self.data {
            encoder.serialize_parameter_encoded(key, &value);
        }
        self.sign_delimiter();
        self.sign.parameter(key, PercentEncode(value));
    }
""", """        self.begin(key, |encoder| encoder.serialize_parameter_encoded(key, &value));
        self.sign.parameter(key, PercentEncode(value));
    }
"""), (A, """    fn sign_delimiter(&mut self) {
""", """    fn begin<F: FnOnce(&mut Urlencoder<W>)>(&mut self, key: &str, write: F) {
        self.check_dictionary_order(key);
        match self.data {
            Data::Authorization(_) => {}
            Data::Urlencode(ref mut encoder) => write(encoder),
        }
        self.sign_delimiter();
    }

    fn sign_delimiter(&mut self) {
""")]

R["sign-first"] = [(A, """        if let Data::Urlencode(ref mut encoder) = self.data {
            encoder.serialize_parameter(key, &value);
        }
        self.sign_delimiter();
        self.sign.parameter(key, DoublePercentEncode(value));
""", """        self.sign_delimiter();
        self.sign.parameter(key, DoublePercentEncode(&value));
        if let Data::Urlencode(ref mut encoder) = self.data {
            encoder.serialize_parameter(key, value);
        }
""")]

R["question-split"] = [(A, """                assert!(!uri.contains('?'), "`uri` must not contain a query part");
""", """                if uri.split('?').nth(1).is_some() {
                    panic!("`uri` must not contain a query part");
                }
""")]

R["question-splitn"] = [(A, """                assert!(!uri.contains('?'), "`uri` must not contain a query part");
""", """                let query = uri.split_once('?').map(|(_, q)| q);
                assert!(query.is_none(), "`uri` must not contain a query part");
""")]

R["question-state"] = [(A, """        struct AssertNotContainQuestion;
        impl Write for AssertNotContainQuestion {
            #[track_caller]
            fn write_str(&mut self, uri: &str) -> fmt::Result {
                assert!(!uri.contains('?'), "`uri` must not contain a query part");
                Ok(())
            }
        }
        write!(AssertNotContainQuestion, "{}", uri).unwrap();
""", """        struct FindQuestion(bool);
        impl Write for FindQuestion {
            fn write_str(&mut self, s: &str) -> fmt::Result {
                self.0 |= s.contains('?');
                Ok(())
            }
        }
        let mut found = FindQuestion(false);
        write!(found, "{}", uri).unwrap();
        assert!(!found.0, "`uri` must not contain a query part");
""")]

R["delimiter-replace"] = [(A, """        if self.append_delim_to_sign {
            self.sign.delimiter();
        } else {
            self.append_delim_to_sign = true;
        }
""", """        if core::mem::replace(&mut self.append_delim_to_sign, true) {
            self.sign.delimiter();
        }
""")]

R["timestamp-or"] = [(A, """            let t = if let Some(t) = self.options.timestamp {
                t.get()
            } else {
                get_current_timestamp()
            };
""", """            let t = self
                .options
                .timestamp
                .map_or_else(get_current_timestamp, core::num::NonZeroU64::get);
""")]

R["timestamp-elapsed"] = [(A, """            match SystemTime::now().duration_since(UNIX_EPOCH) {
                Ok(d) => d.as_secs(),
                Err(_) => 1,
            }
""", """            UNIX_EPOCH.elapsed().map(|d| d.as_secs()).unwrap_or(1)
""")]

R["nonce-takewhile"] = [(A, """    let i = rand.iter().position(|&b| b != 0).unwrap_or(rand.len());
    let rand = &rand[i..];
""", """    let zeroes = rand.iter().take_while(|b| **b == 0).count();
    let (_, rand) = rand.split_at(zeroes);
""")]

R["nonce-loop"] = [(A, """    // Trim leading zeroes to be stingy.
    let i = rand.iter().position(|&b| b != 0).unwrap_or(rand.len());
    let rand = &rand[i..];
""", """    let mut rand = &rand[..];
    while let Some((&0, rest)) = rand.split_first() {
        rand = rest;
    }
""")]

R["nonce-index"] = [(A, """    let i = rand.iter().position(|&b| b != 0).unwrap_or(rand.len());
""", """    let mut i = 0;
    while i < rand.len() && rand[i] == 0 {
        i += 1;
    }
""")]

R["nonce-notrim"] = [(A, """    // Trim leading zeroes to be stingy.
    let i = rand.iter().position(|&b| b != 0).unwrap_or(rand.len());
    let rand = &rand[i..];

""", """    // 9 bytes of random data always make 12 characters.
"""), (A, "        .encode_slice(rand, buf)\n", "        .encode_slice(&rand[..], buf)\n")]

R["nonce-gen"] = [(A, """    let mut rand = [0_u8; NONCE_LEN * 3 / 4];
    rng.fill_bytes(&mut rand);
""", """    let rand: [u8; NONCE_LEN * 3 / 4] = rand::Rng::gen(rng);
""")]

R["nonce-words"] = [(A, """    let mut rand = [0_u8; NONCE_LEN * 3 / 4];
    rng.fill_bytes(&mut rand);
""", """    let mut rand = [0_u8; NONCE_LEN * 3 / 4];
    rand[..8].copy_from_slice(&rng.next_u64().to_le_bytes());
    rng.fill_bytes(&mut rand[8..]);
""")]

R["nonce-helper"] = [(A, """                let mut nonce_buf = Default::default();
                append_to_header!(self, encoded nonce, gen_nonce(&mut nonce_buf, &mut get_rng()));
""", """                let mut rng = get_rng();
                let mut nonce_buf = [0; NONCE_LEN];
                let n: &str = gen_nonce(&mut nonce_buf, &mut rng);
                self.append_to_header_encoded("oauth_nonce", n);
                self.sign.nonce(n);
""")]

R["nonce-match"] = [(A, """        if self.sign.use_nonce() {
            if let Some(n) = self.options.nonce {
                append_to_header!(self, nonce, n);
            } else {
                let mut nonce_buf = Default::default();
                append_to_header!(self, encoded nonce, gen_nonce(&mut nonce_buf, &mut get_rng()));
            }
        }
""", """        if !self.sign.use_nonce() {
            return;
        }
        match self.options.nonce {
            None => {
                let mut nonce_buf = Default::default();
                append_to_header!(self, encoded nonce, gen_nonce(&mut nonce_buf, &mut get_rng()));
            }
            Some(n) => append_to_header!(self, nonce, n),
        }
""")]

R["end-one-write"] = [(A, """                header.write_str("oauth_signature=").unwrap();
                write!(header, r#""{}""#, sign.end()).unwrap();
                header
""", """                let signature = sign.end();
                write!(header, "oauth_signature=\\"{}\\"", signature).unwrap();
                header
""")]

R["end-chars"] = [(A, """                write!(header, r#""{}""#, sign.end()).unwrap();
                header
""", """                header.write_char('"').unwrap();
                write!(header, "{}", sign.end()).unwrap();
                header.write_char('"').unwrap();
                header
""")]

R["macro-to-fn"] = [(A, """        if let Some(c) = self.options.callback {
            append_to_header!(self, callback, c);
        }
""", """        if let Some(c) = self.options.callback {
            self.append_oauth("oauth_callback", c, |sign, v| sign.callback(v));
        }
"""), (A, """        append_to_header!(self, consumer_key, self.consumer_key);
""", """        let k = self.consumer_key;
        self.append_oauth("oauth_consumer_key", k, |sign, v| sign.consumer_key(v));
"""), (A, """    fn sign_delimiter(&mut self) {
""", """    fn append_oauth<'v, F>(&mut self, k: &str, v: &'v str, f: F)
    where
        F: FnOnce(&mut SM::Sign, DoublePercentEncode<&'v str>),
    {
        self.append_to_header_encoded(k, percent_encode(v));
        f(&mut self.sign, DoublePercentEncode(v));
    }

    fn sign_delimiter(&mut self) {
""")]

R["header-order"] = [(A, """        self.check_dictionary_order(k);
        match self.data {
            Data::Authorization(ref mut header) => write!(header, r#"{}="{}","#, k, v).unwrap(),
            Data::Urlencode(ref mut encoder) => encoder.serialize_parameter_encoded(k, v),
        }
        self.sign_delimiter();
""", """        self.check_dictionary_order(k);
        self.sign_delimiter();
        if let Data::Urlencode(ref mut encoder) = self.data {
            encoder.serialize_parameter_encoded(k, v);
        } else if let Data::Authorization(ref mut header) = self.data {
            write!(header, "{}=\\"{}\\",", k, v).unwrap();
        }
""")]

R["make-sign-destructure"] = [(A, """    let mut ret = signature_method.sign_with(client.secret, token.map(|t| t.secret));
    ret.request_method(method);
""", """    let token_secret = match token {
        Some(Credentials { secret, .. }) => Some(secret),
        None => None,
    };
    let mut ret = signature_method.sign_with(client.secret(), token_secret);
    ret.request_method(method);
""")]

R["prev-key-clone-from"] = [(A, """            self.prev_key.clear();
            self.prev_key.push_str(_k);
""", """            _k.clone_into(&mut self.prev_key);
""")]

R["prev-key-replace"] = [(A, """            assert!(
                *self.prev_key <= *_k,
                "appended key is less than previously appended one in dictionary order\\
                 \\n previous: `{:?}`,\\
                 \\n  current: `{:?}`",
                self.prev_key,
                _k,
            );
            self.prev_key.clear();
            self.prev_key.push_str(_k);
""", """            let prev = core::mem::replace(&mut self.prev_key, alloc::string::String::from(_k));
            assert!(
                prev.as_bytes() <= _k.as_bytes(),
                "appended key is less than previously appended one in dictionary order\\
                 \\n previous: `{:?}`,\\
                 \\n  current: `{:?}`",
                prev,
                _k,
            );
""")]

R["urlencode-flag"] = [(U, """        match self.next_append {
            Append::None => self.next_append = Append::Ampersand,
            Append::Question => {
                self.data.write_char('?').unwrap();
                self.next_append = Append::Ampersand;
            }
            Append::Ampersand => self.data.write_char('&').unwrap(),
        }
""", """        let delim = match core::mem::replace(&mut self.next_append, Append::Ampersand) {
            Append::None => return,
            Append::Question => "?",
            Append::Ampersand => "&",
        };
        self.data.write_str(delim).unwrap();
""")]

R["urlencode-shared"] = [(U, """        self.append_delim();
        write!(self.data, "{}={}", key, PercentEncode(&value)).unwrap();
""", """        self.serialize_parameter_encoded(key, PercentEncode(value));
""")]

R["urlencode-pieces"] = [(U, """        self.append_delim();
        write!(self.data, "{}={}", key, value).unwrap();
""", """        self.append_delim();
        let w = &mut self.data;
        w.write_str(key)
            .and_then(|()| w.write_char('='))
            .and_then(|()| write!(w, "{}", value))
            .unwrap();
""")]

R["urlencode-form"] = [(U, """            Urlencoder {
                data: alloc::string::String::new(),
                next_append: Append::None,
            }
""", """            Self::form_with_buf(Default::default())
""")]

R["digest-literals"] = [(DG, """        self.0.update(key.as_bytes());
        self.0.update(b"%3D"); // '='
        write!(UpdateWrite(&mut self.0), "{}", value).unwrap();
""", """        write!(UpdateWrite(&mut self.0), "{}%3D{}", key, value).unwrap();
""")]

R["digest-method"] = [(DG, """        self.0.update(method.as_bytes());
        self.0.update(b"&");
""", """        for part in &[method, "&"] {
            self.0.update(part.as_bytes());
        }
""")]

R["base64-stack"] = [(DG, """        let d = PercentEncode(Base64Display::new(
            self.0.as_ref(),
            &base64::engine::general_purpose::STANDARD,
        ));
        Display::fmt(&d, f)
""", """        let engine = &base64::engine::general_purpose::STANDARD;
        let b64 = Base64Display::new(self.0.as_ref(), engine);
        write!(f, "{}", PercentEncode(b64))
""")]

R["key-into"] = [(H, """        match self {
            SigningKey::Key { ref buf, pos } => Hmac::new_from_slice(&buf[..pos]).unwrap(),
            SigningKey::Digest(digest) => Hmac::new_from_slice(&digest.finalize()).unwrap(),
        }
""", """        let hashed;
        let key: &[u8] = match self {
            SigningKey::Key { ref buf, pos } => &buf[..pos],
            SigningKey::Digest(digest) => {
                hashed = digest.finalize();
                &hashed
            }
        };
        Hmac::new_from_slice(key).unwrap()
""")]

R["key-loop"] = [(H, """                } else {
                    buf[*pos..(*pos + input.len())].copy_from_slice(input);
                    *pos += input.len();
                    return;
                }
""", """                } else {
                    for &b in input {
                        buf[*pos] = b;
                        *pos += 1;
                    }
                    return;
                }
""")]

R["key-match"] = [(H, """        *self = match *self {
            SigningKey::Key {
                ref mut buf,
                ref mut pos,
            } => {
                if input.len() > buf.len() - *pos {
                    let mut digest = Sha1::default();
                    digest.update(&buf[..*pos]);
                    digest.update(input);
                    SigningKey::Digest(digest)
                } else {
                    buf[*pos..(*pos + input.len())].copy_from_slice(input);
                    *pos += input.len();
                    return;
                }
            }
            SigningKey::Digest(ref mut digest) => {
                digest.update(input);
                return;
            }
        };
""", """        match self {
            SigningKey::Digest(digest) => digest.update(input),
            SigningKey::Key { buf, pos } if *pos + input.len() <= buf.len() => {
                let (_, free) = buf.split_at_mut(*pos);
                free[..input.len()].copy_from_slice(input);
                *pos += input.len();
            }
            SigningKey::Key { buf, pos } => {
                let mut digest = Sha1::new();
                digest.update(&buf[..*pos]);
                digest.update(input);
                *self = SigningKey::Digest(digest);
            }
        }
""")]

R["key-simple-hmac"] = [(H, """            buf: GenericArray::generate(|_| 0),
""", """            buf: Default::default(),
"""), (H, "use digest::generic_array::sequence::GenericSequence;\n", "")]

R["parameter-next-table"] = [(OP, """            OAuthParameter::None => {
                debug_assert!(false, "called `next` on an `OAuthParameter::None`");
                OAuthParameter::Callback
            }
        }
""", """            OAuthParameter::None => unreachable!("called `next` on an `OAuthParameter::None`"),
        }
""")]

R["sorted-indices"] = [(RQ, """        for (k, v) in self.inner.clone() {
            let k = k.as_ref();
            while next_param < *k {
                next_param.serialize(&mut serializer);
                next_param = next_param.next();
            }
            serializer.serialize_parameter(k, v);
        }

        while next_param != OAuthParameter::None {
            next_param.serialize(&mut serializer);
            next_param = next_param.next();
        }
""", """        let mut iter = self.inner.clone();
        while let Some((k, v)) = iter.next() {
            let k = k.as_ref();
            while next_param < *k {
                next_param = advance(next_param, &mut serializer);
            }
            serializer.serialize_parameter(k, v);
        }

        while next_param != OAuthParameter::None {
            next_param = advance(next_param, &mut serializer);
        }

        fn advance<S: Serializer>(p: OAuthParameter, serializer: &mut S) -> OAuthParameter {
            p.serialize(serializer);
            p.next()
        }
""")]

R["sorted-for-each"] = [(RQ, """        for (k, v) in self.inner.clone() {
            let k = k.as_ref();
            while next_param < *k {
                next_param.serialize(&mut serializer);
                next_param = next_param.next();
            }
            serializer.serialize_parameter(k, v);
        }
""", """        self.inner.clone().for_each(|(k, v)| {
            let k = k.as_ref();
            while next_param < *k {
                next_param.serialize(&mut serializer);
                next_param = next_param.next();
            }
            serializer.serialize_parameter(k, v);
        });
""")]

R["is-sorted-pairs"] = [(PL, """    slice
        .windows(2)
        .all(|slice| !matches!(cmp(&slice[1], &slice[0]), Ordering::Less))
""", """    let mut iter = slice.iter();
    let mut last = match iter.next() {
        Some(x) => x,
        None => return true,
    };
    for x in iter {
        if cmp(last, x) == Ordering::Greater {
            return false;
        }
        last = x;
    }
    true
""")]

R["is-sorted-any"] = [(PL, """    slice
        .windows(2)
        .all(|slice| !matches!(cmp(&slice[1], &slice[0]), Ordering::Less))
""", """    !slice.windows(2).any(|w| match *w {
        [ref a, ref b] => cmp(a, b) == Ordering::Greater,
        _ => false,
    })
""")]

R["list-new-extend"] = [(PL, """        let mut ret = ParameterList {
            list,
            marker: PhantomData,
        };
        ret.sort();
        ret
""", """        let mut list = list;
        list.as_mut().sort_unstable_by(|a, b| cmp::<K, V, P>(a, b));
        ParameterList {
            list,
            marker: PhantomData,
        }
""")]

R["cmp-if"] = [(PL, """        (kl, fmt_cmp::Cmp(PercentEncode(vl))).cmp(&(kr, fmt_cmp::Cmp(PercentEncode(vr))))
""", """        if kl != kr {
            return kl.cmp(kr);
        }
        fmt_cmp::cmp(&PercentEncode(vl), &PercentEncode(vr))
""")]

R["recorder-format"] = [(RC, """            .push(Record::Parameter(key.to_owned(), value.to_string()));
""", """            .push(Record::Parameter(String::from(key), format!("{}", value)));
""")]

R["recorder-write"] = [(RC, """        self.history
            .push(Record::ParameterEncoded(key.to_owned(), value.to_string()));
""", """        let record = Record::ParameterEncoded(key.into(), value.to_string());
        self.history.extend(Some(record));
""")]

R["record-eq-discriminant"] = [(RC, """            (&Record::Callback, &Record::Callback)
            | (&Record::ConsumerKey, &Record::ConsumerKey)
            | (&Record::Nonce, &Record::Nonce)
            | (&Record::SignatureMethod, &Record::SignatureMethod)
            | (&Record::Timestamp, &Record::Timestamp)
            | (&Record::Token, &Record::Token)
            | (&Record::Verifier, &Record::Verifier)
            | (&Record::Version, &Record::Version) => true,
            _ => false,
""", """            (a, b) => matches!((a.oauth(), b.oauth()), (Some(a), Some(b)) if a == b),
"""), (RC, """impl<K, V> Eq for Record<K, V>
""", """impl<K, V> Record<K, V> {
    fn oauth(&self) -> Option<u8> {
        Some(match *self {
            Record::Parameter(..) | Record::ParameterEncoded(..) => return None,
            Record::Callback => 0,
            Record::ConsumerKey => 1,
            Record::Nonce => 2,
            Record::SignatureMethod => 3,
            Record::Timestamp => 4,
            Record::Token => 5,
            Record::Verifier => 6,
            Record::Version => 7,
        })
    }
}

impl<K, V> Eq for Record<K, V>
""")]

R["token-map-one"] = [(C, """        self.map_client(&mut f).map_token(f)
""", """        let Token { client, token } = self;
        let client = client.map(&mut f);
        let token = token.map(&mut f);
        Token { client, token }
""")]

R["credentials-debug"] = [(C, """        #[derive(Debug)]
        struct Credentials<T> {
            #[allow(dead_code)]
            identifier: T,
            #[allow(dead_code)]
            secret: Hidden,
        }

        Credentials {
            identifier: &self.identifier,
            secret: Hidden,
        }
        .fmt(f)
""", """        f.debug_struct("Credentials")
            .field("identifier", &self.identifier)
            .field("secret", &Hidden)
            .finish()
""")]

R["should-match"] = [(P, """    !b.is_ascii() || get_bit(&ENCODE_MAP, usize::from(b))
""", """    match b {
        b'-' | b'.' | b'_' | b'~' => false,
        _ => !b.is_ascii_alphanumeric(),
    }
""")]

R["double-hex"] = [(P, """                    if should_percent_encode(b) {
                        self.0.write_str(double_encode_byte(b))?;
                        bytes = rem;
                        continue;
                    }
""", """                    if should_percent_encode(b) {
                        write!(self.0, "%25{:02X}", b)?;
                        bytes = rem;
                        continue;
                    }
""")]

R["double-split"] = [(P, """                let mut bytes = s.as_bytes();
                while let Some((&b, rem)) = bytes.split_first() {
                    if should_percent_encode(b) {
                        self.0.write_str(double_encode_byte(b))?;
                        bytes = rem;
                        continue;
                    }

                    // Write as much characters as possible at once:
                    if let Some((i, &b)) = bytes
                        .iter()
                        .enumerate()
                        .skip(1)
                        .find(|&(_, &b)| should_percent_encode(b))
                    {
                        let rem = &bytes[i + 1..];
                        let s = &bytes[..i];
                        debug_assert!(s.is_ascii());
                        self.0.write_str(unsafe { str::from_utf8_unchecked(s) })?;
                        self.0.write_str(double_encode_byte(b))?;
                        bytes = rem;
                    } else {
                        debug_assert!(bytes.is_ascii());
                        return self.0.write_str(unsafe { str::from_utf8_unchecked(bytes) });
                    }
                }

                Ok(())
""", """                let mut start = 0;
                for (i, b) in s.bytes().enumerate() {
                    if should_percent_encode(b) {
                        if start < i {
                            self.0.write_str(&s[start..i])?;
                        }
                        self.0.write_str(double_encode_byte(b))?;
                        start = i + 1;
                    }
                }
                if start < s.len() {
                    self.0.write_str(&s[start..])?;
                }
                Ok(())
""")]

R["encode-manual"] = [(P, """                Display::fmt(&percent_encode(s), self.0)
""", """                for part in percent_encode(s) {
                    self.0.write_str(part)?;
                }
                Ok(())
""")]


def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)


def main():
    cmd = None
    if "--run" in sys.argv:  # runs this command on the edited tree instead
        i = sys.argv.index("--run")
        cmd = sys.argv[i + 1]
        del sys.argv[i:i + 2]
    names = sys.argv[1:] or sorted(R)
    for n in names:
        try:
            for f, old, new in R[n]:
                p = os.path.join("/repo", f)
                s = open(p).read()
                assert s.count(old) >= 1, (n, s.count(old), old)
                open(p, "w").write(s.replace(old, new, 1))
            if cmd:
                print(sh("bash", "-c", cmd).stdout)
                continue
            r = sh("python3", V + "/tools/allcheck.py", "-v")
            try:
                o = json.loads(r.stdout[r.stdout.index("{"):])
            except ValueError:
                print(n, "ERROR", r.stdout[-300:], r.stderr[-1500:], flush=True)
                continue
            v, u = o.get("violations") or {}, o.get("undecided") or {}
            print(n, "VIOLATIONS" if v else "undecided" if u or o.get("broken") else "quiet", json.dumps(dict(v={k: x[:2] for k, x in v.items()}, u={k: x[:2] for k, x in u.items()}, b=o.get("broken")))[:1200] if v or u or o.get("broken") else "", r.stderr[-600:] if o.get("broken") else "", flush=True)
        except AssertionError as e:
            print(n, "NOT APPLICABLE", str(e)[:300], flush=True)
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")


if __name__ == "__main__":
    main()
