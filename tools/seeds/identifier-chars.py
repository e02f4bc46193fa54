ID="identifier-chars"; PROPERTY="C13"
NEEDS="an identifier of at most 255 characters that takes more than 255 bytes"
BREAKS="the length of identifiers is checked in characters, so one of more than 255 bytes gets in, whose length does not fit its byte in the RocksDB keys"
EDITS=[("lib/src/models/identifiers.rs","        if s.len() > 255 {","        if s.chars().count() > 255 {")]
DEMO='''
use indradb::*;
fn main() {
    for n in [127usize, 128, 200, 255] {
        let s = "\\u{e9}".repeat(n);
        assert_eq!(Identifier::new(s.clone()).is_ok(), s.len() <= 255, "{} bytes", s.len());
    }
}
'''
