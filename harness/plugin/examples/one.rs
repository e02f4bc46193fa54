//! Registers, by the macro, three plugins for the interface of this version.
use indradb_plugin_host as plugin;
pub struct P(&'static str);
impl plugin::Plugin for P {
    fn call<'a>(&self, _: &mut (dyn indradb::Transaction<'a> + 'a), arg: indradb::Json) -> Result<indradb::Json, plugin::Error> {
        Ok(indradb::Json::new(serde_json::json!({ "macro": self.0, "arg": *arg })))
    }
}
plugin::register_plugins!(1, "m1", || Box::new(P("m1")), "m2", || Box::new(P("m2")), "m 3", || Box::new(P("m 3")));
