//! Stands in for the code generator, whose back end is not available offline: keeps what the real
//! one generates code from, and the symbols of the object.
use std::{error::Error, fmt};

#[derive(Clone, Debug)]
pub struct Configuration {
    pub yield_function_name: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CompileError {
    ReferenceCount(mir::analysis::reference_count::ReferenceCountError),
    TypeCheck(mir::analysis::type_check::TypeCheckError),
}

impl fmt::Display for CompileError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}

impl Error for CompileError {}

impl From<mir::analysis::reference_count::ReferenceCountError> for CompileError {
    fn from(error: mir::analysis::reference_count::ReferenceCountError) -> Self {
        Self::ReferenceCount(error)
    }
}

impl From<mir::analysis::type_check::TypeCheckError> for CompileError {
    fn from(error: mir::analysis::type_check::TypeCheckError) -> Self {
        Self::TypeCheck(error)
    }
}

pub fn compile(module: &mir::ir::Module, configuration: &Configuration) -> Result<fmm::ir::Module, CompileError> {
    mir::analysis::type_check::check(module)?;

    let module = mir::analysis::optimization::string_concatenation::transform(module);
    let module = mir::analysis::alpha_conversion::transform(&module);
    let module = mir::analysis::normalization::transform(&module);
    let module = mir::analysis::environment_inference::transform(&module);
    let module = mir::analysis::lambda_lifting::transform(&module);
    let module = mir::analysis::reference_count::transform(&module)?;

    mir::analysis::type_check::check(&module)?;

    let mut defined = vec![];
    for definition in module.function_definitions() {
        if definition.is_public() {
            defined.push(definition.definition().name().to_string());
        }
    }
    for definition in module.foreign_definitions() {
        defined.push(definition.foreign_name().to_string());
    }
    let needed = module
        .function_declarations()
        .iter()
        .map(|declaration| declaration.name().to_string())
        .chain(module.foreign_declarations().iter().map(|declaration| declaration.foreign_name().to_string()))
        .collect();

    Ok(fmm::ir::Module { defined, needed, code: format!("{configuration:?} {}", text(&module)) })
}

/// Without the order of declarations and definitions, which depends on that of directory entries.
fn text(module: &mir::ir::Module) -> String {
    fn sorted<T: fmt::Debug>(items: &[T]) -> String {
        let mut items: Vec<String> = items.iter().map(|item| format!("{item:?}")).collect();
        items.sort();
        items.join("\n")
    }
    [
        sorted(module.type_definitions()),
        sorted(module.foreign_declarations()),
        sorted(module.foreign_definitions()),
        sorted(module.function_declarations()),
        sorted(module.function_definitions()),
    ]
    .join("\n\n")
}
