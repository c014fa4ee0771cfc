PROP = "C33"
NEEDS = "a field with a raw identifier, followed by one that is renamed to the same parameter"
BREAKS = "the duplicate is not noticed, and the parameter is sent twice"
EDITS = [("oauth1-request-derive/src/lib.rs", """        Some(name)
    });
""", """        Some(match f.meta.rename {
            Some(_) => name,
            None => f.ident.to_string(),
        })
    });
""")]
DEMO = r'''
use oauth1_request as oauth;
#[derive(oauth::Request)]
struct R {
    r#type: u32,
    #[oauth1(rename = "type")]
    kind: u32,
}
fn main() {
    println!("{}", oauth::to_form(&R { r#type: 1, kind: 2 }));
}
'''
DEMO_SH = r'''#!/bin/bash
# Exits 0 if the behaviour is right. Builds a small program against the crates in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=/tmp/oauth1-demo-scratch/raw-duplicate
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp /opt/vp/locks/root.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
oauth1-request = { path = "$repo/oauth1-request", default-features = false, features = ["std", "alloc", "derive", "hmac-sha1"] }
oauth-credentials = { path = "$repo/oauth-credentials", features = [] }

[patch.crates-io]
oauth-credentials = { path = "$repo/oauth-credentials" }
oauth1-request = { path = "$repo/oauth1-request" }
oauth1-request-derive = { path = "$repo/oauth1-request-derive" }
EOF
cd "$d" || exit 2
export CARGO_TARGET_DIR=/tmp/oauth1-demo-scratch/target
# The program must be rejected, for the duplicate.
out=$(cargo build --offline -q 2>&1) && { echo "the duplicate was let through"; exit 1; }
echo "$out" | grep -q 'duplicate parameter'

'''
