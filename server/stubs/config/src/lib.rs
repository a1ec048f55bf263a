pub struct File;
impl From<std::path::PathBuf> for File { fn from(_: std::path::PathBuf) -> File { File } }
#[derive(Debug)]
pub struct ConfigError(pub String);
impl std::fmt::Display for ConfigError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for ConfigError {}
pub struct Config;
pub struct ConfigBuilder;
impl Config {
    pub fn builder() -> ConfigBuilder { ConfigBuilder }
    pub fn try_deserialize<T: serde::de::DeserializeOwned>(self) -> Result<T, ConfigError> {
        serde_json::from_str(&simcore::with(|w| w.config.clone())).map_err(|e| ConfigError(e.to_string()))
    }
}
impl ConfigBuilder {
    pub fn add_source<S>(self, _: S) -> ConfigBuilder { self }
    pub fn build(self) -> Result<Config, ConfigError> { Ok(Config) }
}
