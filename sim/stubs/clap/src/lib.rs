//! Stand-in for clap: the derives expand to nothing, command lines are not part of the simulation.
pub use clap_derive::*;
