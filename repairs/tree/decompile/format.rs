
#[derive(Clone, Debug)]
pub struct Header {
    valid: bool,
    creator: String,
}
