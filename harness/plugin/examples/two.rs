//! Registers, by the macro, a plugin for another version of the interface.
use indradb_plugin_host as plugin;
pub struct P;
impl plugin::Plugin for P {
    fn call<'a>(&self, _: &mut (dyn indradb::Transaction<'a> + 'a), arg: indradb::Json) -> Result<indradb::Json, plugin::Error> {
        Ok(arg)
    }
}
plugin::register_plugins!(2, "two", || Box::new(P));
