//! Pulls the crate under test, the monitor runtime and the auxiliary attack
//! macros into one build so that generated programs can be compiled against
//! the resulting artifacts with plain `rustc`.
pub extern crate pin_project;
pub extern crate vaux;
pub extern crate vlean;
pub extern crate vrt;
