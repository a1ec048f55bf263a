#[derive(Debug, Clone)]
pub struct Url(pub String);
#[derive(Debug)]
pub struct ParseError;
impl Url { pub fn parse(s: &str) -> Result<Url, ParseError> { if s.contains("://") { Ok(Url(s.to_string())) } else { Err(ParseError) } } }
