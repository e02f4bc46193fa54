pub fn point(_what: &'static str) {}
