PROPERTY = "P07"
HOST = "src/reader.rs"
NEEDS = "a structure that is cut off inside skipped bytes"
BREAKS = "skipping past the end of the data stops at the end instead of failing"
EDITS = [("src/reader.rs", """        if self.remaining() < cnt {
            return Err(ErrorKind::UnexpectedEof.into());
        }

        self.0.advance(cnt);

        Ok(())
""", """        if self.remaining() == 0 && cnt > 0 {
            return Err(ErrorKind::UnexpectedEof.into());
        }

        self.0.advance(cnt.min(self.0.remaining()));

        Ok(())
""")]
DEMO = '''use super::*;
#[test]
fn skip_past_the_end() {
    let mut r = Reader::new(&[1, 2, 3]);
    assert!(r.advance(5).is_err());
    assert_eq!(r.remaining(), 3);
}
'''
