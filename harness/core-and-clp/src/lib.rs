//! pywr-core, with HiGHS under the name of Clp: pywr-cli names Clp without a feature, and its
//! sources (submodules) are not in this sandbox.
pub use pywr_core::*;

pub mod solvers {
    pub use pywr_core::solvers::*;
    pub use pywr_core::solvers::{
        HighsSolver as ClpSolver, HighsSolverSettings as ClpSolverSettings, HighsSolverSettingsBuilder as ClpSolverSettingsBuilder,
    };
}
