//! Stands in for glob: patterns of one `*` at the end.
use std::{fmt, io, path::PathBuf};

#[derive(Debug)]
pub struct PatternError;
#[derive(Debug)]
pub struct GlobError(io::Error);

impl fmt::Display for PatternError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "unsupported pattern")
    }
}
impl fmt::Display for GlobError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for PatternError {}
impl std::error::Error for GlobError {}

pub fn glob(pattern: &str) -> Result<std::vec::IntoIter<Result<PathBuf, GlobError>>, PatternError> {
    let prefix = pattern.strip_suffix('*').ok_or(PatternError)?;
    if prefix.contains(['*', '?', '[']) {
        return Err(PatternError);
    }
    let (directory, start) = prefix.rsplit_once('/').ok_or(PatternError)?;
    let mut paths = vec![];
    // Like glob, nothing matches in a directory that does not exist.
    match std::fs::read_dir(if directory.is_empty() { "/" } else { directory }) {
        Ok(entries) => {
            for entry in entries {
                match entry {
                    Ok(entry) => {
                        if entry.file_name().to_string_lossy().starts_with(start) {
                            paths.push(Ok(entry.path()));
                        }
                    }
                    Err(error) => paths.push(Err(GlobError(error))),
                }
            }
        }
        Err(error) if error.kind() == io::ErrorKind::NotFound => {}
        Err(error) => paths.push(Err(GlobError(error))),
    }
    paths.sort_by_key(|path| path.as_ref().map(|p| p.clone()).unwrap_or_default());
    Ok(paths.into_iter())
}
