PROP="C07"
NEEDS="content cut into pieces with an empty or small piece after a large one"
BREAKS="small pieces are gathered and hashed after the large ones, so the hash depends on the cutting and content can be reordered"
F="crates/cryptography/src/lib.rs"
EDITS=[(F,"""        for segm in s {
            hasher.update(segm);
        }
""","""        // few large updates are faster than many small ones
        let mut small = vec![];
        for segm in s {
            if segm.len() < 64 {
                small.extend_from_slice(segm);
            } else {
                hasher.update(segm);
                hasher.update(&small);
                small.clear();
            }
        }
        hasher.update(&small);
""")]
DEPS=["linkspace-cryptography"]
DEMO=r'''
use linkspace_cryptography::*;
fn main() {
    let big = vec![1u8; 200];
    let a = hash_segments(&[b"head", &big, b"tail"]);
    let whole = [b"head" as &[u8], &big, b"tail"].concat();
    assert_eq!(a, hash_segments(&[&whole]), "the hash depends on how the content is cut");
}
'''
