//! placeholder library target
