pub mod attacks;
pub mod crypto;
pub mod engine;
pub mod ixs;
pub mod layout;
pub mod refvrf;
pub mod run;
pub mod sdkcheck;
pub mod spec;
pub mod svm;
pub mod twin;
pub mod util;
pub mod world;
