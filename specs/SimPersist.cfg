CONSTANTS
  SimDepth = 30
  N = 3
  T = {"bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "enum", "str", "wstr", "str16", "str32", "vec", "vecs", "vecv", "map", "umap", "set", "uset", "pair", "arr", "raw", "atomic", "mapv", "ptr", "vptr", "two"}
SPECIFICATION SimSpec
INVARIANTS BackAgain Nothing Emitted
CHECK_DEADLOCK FALSE
