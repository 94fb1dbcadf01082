//! Stands in for fmm, which is not available offline.
pub mod ir {
    #[derive(Clone, Debug)]
    pub struct Module {
        pub defined: Vec<String>,
        pub needed: Vec<String>,
        pub code: String,
    }
}

#[derive(Clone, Debug)]
pub struct Error;

impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "error")
    }
}

impl std::error::Error for Error {}

pub mod types {
    pub struct Type;
    pub fn void_type() -> Type {
        Type
    }
}

pub mod analysis {
    pub mod cps {
        pub fn transform(_: &mut crate::ir::Module, _: crate::types::Type) -> Result<(), crate::Error> {
            Ok(())
        }
    }
    pub mod c_calling_convention {
        pub fn transform(_: &mut crate::ir::Module, _: usize) -> Result<(), crate::Error> {
            Ok(())
        }
    }
    pub mod validation {
        pub fn validate(_: &crate::ir::Module) -> Result<(), crate::Error> {
            Ok(())
        }
    }
}
