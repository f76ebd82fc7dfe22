//! Stand-in for serde_yaml, for flat "KEY: value # comment" documents. All values are given as strings.
use serde::de::DeserializeOwned;

pub type Error = serde_json::Error;
pub type Result<T> = std::result::Result<T, Error>;

pub fn from_str<T: DeserializeOwned>(text: &str) -> Result<T> {
    let mut map = serde_json::Map::new();
    for line in text.lines() {
        if line.starts_with([' ', '-', '#', '\t']) {
            continue;
        }
        let Some((key, value)) = line.split_once(':') else { continue };
        let value = value.trim();
        let value = match value.chars().next() {
            Some(q @ ('\'' | '"')) => value[1..].split(q).next().unwrap_or(""),
            _ => value.split(" #").next().unwrap_or("").trim(),
        };
        map.insert(key.trim().to_string(), value.into());
    }
    serde_json::from_value(map.into())
}
pub fn from_slice<T: DeserializeOwned>(bytes: &[u8]) -> Result<T> {
    let text = std::str::from_utf8(bytes).map_err(serde::de::Error::custom)?;
    from_str(text)
}
pub fn from_reader<R: std::io::Read, T: DeserializeOwned>(mut r: R) -> Result<T> {
    let mut text = String::new();
    r.read_to_string(&mut text).map_err(serde::de::Error::custom)?;
    from_str(&text)
}
