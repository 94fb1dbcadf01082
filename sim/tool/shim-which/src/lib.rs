//! Stands in for which: finds the programs of the simulation.
use std::path::PathBuf;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Error {
    CannotFindBinaryPath,
}

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "cannot find binary path")
    }
}

impl std::error::Error for Error {}

pub fn which(name: impl AsRef<std::ffi::OsStr>) -> Result<PathBuf, Error> {
    let path = PathBuf::from("/usr/bin").join(name.as_ref());
    if path.exists() {
        Ok(path)
    } else {
        Err(Error::CannotFindBinaryPath)
    }
}
