//! The cases of cases.txt are compiled one by one against the libraries that this crate depends on.
