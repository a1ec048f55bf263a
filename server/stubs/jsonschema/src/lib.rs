//! The keywords the module's schema uses.
use serde_json::Value;
pub struct JSONSchema(Value);
#[derive(Debug)]
pub struct ValidationError { pub message: String, pub instance_path: String }
impl std::fmt::Display for ValidationError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.message) } }
impl JSONSchema {
    pub fn compile(s: &Value) -> Result<JSONSchema, String> { Ok(JSONSchema(s.clone())) }
    pub fn validate(&self, v: &Value) -> Result<(), std::vec::IntoIter<ValidationError>> {
        let mut e = vec![];
        check(&self.0, v, "", &mut e);
        if e.is_empty() { Ok(()) } else { Err(e.into_iter()) }
    }
    pub fn is_valid(&self, v: &Value) -> bool { self.validate(v).is_ok() }
}
fn check(s: &Value, v: &Value, path: &str, e: &mut Vec<ValidationError>) {
    let mut bad = |m: String| e.push(ValidationError { message: m, instance_path: path.to_string() });
    if let Some(t) = s.get("type").and_then(|t| t.as_str()) {
        let ok = match t { "object" => v.is_object(), "array" => v.is_array(), "string" => v.is_string(), "number" => v.is_number(), "integer" => v.is_i64() || v.is_u64() || v.as_f64().map_or(false, |f| f.fract() == 0.0), "boolean" => v.is_boolean(), _ => true };
        if !ok { bad(format!("{} is not of type \"{}\"", v, t)); return; }
    }
    if let Some(x) = s.get("enum").and_then(|x| x.as_array()) { if !x.contains(v) { bad(format!("{} is not one of {:?}", v, x)); } }
    if let Some(o) = v.as_object() {
        if let Some(r) = s.get("required").and_then(|r| r.as_array()) { for k in r { if !o.contains_key(k.as_str().unwrap_or("")) { bad(format!("{} is a required property", k)); } } }
        let props = s.get("properties").and_then(|p| p.as_object());
        for (k, x) in o {
            match props.and_then(|p| p.get(k)) {
                Some(ps) => check(ps, x, &format!("{}/{}", path, k), e),
                None => if s.get("additionalProperties") == Some(&Value::Bool(false)) { e.push(ValidationError { message: format!("Additional properties are not allowed ('{}' was unexpected)", k), instance_path: path.to_string() }) },
            }
        }
    }
    if let (Some(a), Some(i)) = (v.as_array(), s.get("items")) { for (k, x) in a.iter().enumerate() { check(i, x, &format!("{}/{}", path, k), e); } }
}
