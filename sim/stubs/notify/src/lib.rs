//! empty stand-in
