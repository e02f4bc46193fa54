fn main() { let _ = rocksdb::Options::default(); }
