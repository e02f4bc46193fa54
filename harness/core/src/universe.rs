//! The names a scope speaks about: what observation asks for.
use indradb::Json;
use uuid::Uuid;

#[derive(Clone, Debug, Default)]
pub struct Universe {
    pub ids: Vec<Uuid>,
    pub vtypes: Vec<String>,
    pub etypes: Vec<String>,
    pub names: Vec<String>,
    pub vals: Vec<Json>,
}

pub fn id(n: u128) -> Uuid {
    Uuid::from_u128(n)
}
pub const NIL: u128 = 0;
pub const MAXID: u128 = u128::MAX;
/// An id whose successor carries through a run of 0xff bytes.
pub const CARRY: u128 = 0x0001_02ff_ffff_ffff_ffff_ffff_ffff_ffff;

pub fn j(s: &str) -> Json {
    Json::new(serde_json::from_str(s).unwrap_or_else(|e| panic!("{s}: {e}")))
}
pub fn strs(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}

impl Universe {
    pub fn new(ids: &[u128], vtypes: &[&str], etypes: &[&str], names: &[&str], vals: &[&str]) -> Self {
        Universe {
            ids: ids.iter().map(|i| id(*i)).collect(),
            vtypes: strs(vtypes),
            etypes: strs(etypes),
            names: strs(names),
            vals: vals.iter().map(|v| j(v)).collect(),
        }
    }
    pub fn renamed(&self, f: &dyn Fn(&str) -> String) -> Self {
        Universe { names: self.names.iter().map(|n| f(n)).collect(), ..self.clone() }
    }
}
