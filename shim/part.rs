//! The modules of the repository that do not use rulinalg, compiled in place under the same module
//! paths; used only when the whole crate does not compile against the stand-ins.
extern crate rand;
pub mod learning {
    pub mod toolkit {
        #[path = "@REPO@/src/learning/toolkit/activ_fn.rs"]
        pub mod activ_fn;
        #[path = "@REPO@/src/learning/toolkit/rand_utils.rs"]
        pub mod rand_utils;
    }
}
#[cfg(feature = "stats")]
pub mod stats {
    #[path = "@REPO@/src/stats/dist/mod.rs"]
    pub mod dist;
}
