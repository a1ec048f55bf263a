pub fn glob(_: &str) -> Result<std::vec::IntoIter<Result<std::path::PathBuf, String>>, String> { Ok(Vec::new().into_iter()) }
