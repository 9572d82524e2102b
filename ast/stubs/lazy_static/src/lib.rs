//! Stand-in for lazy_static 1.4.0 (a declared but unused dependency of sm_ast).
