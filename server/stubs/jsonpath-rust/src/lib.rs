//! Paths of the form $.a.b[0]; what is found comes as an array, what is not as an empty array or null.
use serde_json::Value;
pub struct JsonPathFinder { v: Value, p: String }
impl JsonPathFinder {
    pub fn from_str(json: &str, path: &str) -> Result<JsonPathFinder, String> {
        if !path.starts_with('$') { return Err("bad path".into()); }
        Ok(JsonPathFinder { v: serde_json::from_str(json).map_err(|e| e.to_string())?, p: path.to_string() })
    }
    pub fn find(&self) -> Value {
        let mut v = &self.v;
        for k in self.p[1..].split(|c| c == '.' || c == '[').filter(|s| !s.is_empty()) {
            let k = k.trim_end_matches(']');
            let n = match v { Value::Array(a) => k.parse::<usize>().ok().and_then(|i| a.get(i)), _ => v.get(k) };
            match n { Some(x) => v = x, None => return if simcore::choose(2) == 0 { Value::Array(vec![]) } else { Value::Null } }
        }
        Value::Array(vec![v.clone()])
    }
}
