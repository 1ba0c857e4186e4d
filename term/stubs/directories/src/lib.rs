//! Stand-in: one cache directory, or none.
use std::path::{Path, PathBuf};
pub static mut NONE: bool = false;
pub struct ProjectDirs {
    dir: PathBuf,
}
impl ProjectDirs {
    pub fn from(_: &str, _: &str, _: &str) -> Option<ProjectDirs> {
        if unsafe { NONE } {
            None
        } else {
            Some(ProjectDirs { dir: PathBuf::from("cache") })
        }
    }
    pub fn cache_dir(&self) -> &Path {
        &self.dir
    }
}
