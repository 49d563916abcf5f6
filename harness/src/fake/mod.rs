pub mod git;
pub mod env;
pub mod libc;
pub mod proc;
pub mod index;
pub mod wt;
pub mod rebase;
pub mod diff;
