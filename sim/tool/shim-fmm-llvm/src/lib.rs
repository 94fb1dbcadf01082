//! Stands in for fmm-llvm, which is not available offline. A "bit code" file has a line for each
//! symbol it defines or needs, and a line with a hash of the code.
#[derive(Clone, Debug)]
pub struct InstructionConfiguration {
    pub allocate_function_name: String,
    pub reallocate_function_name: String,
    pub free_function_name: String,
    pub unreachable_function_name: Option<String>,
}

pub fn compile_to_bit_code(module: &fmm::ir::Module, configuration: &InstructionConfiguration, target: Option<&str>) -> Result<Vec<u8>, fmm::Error> {
    let code = format!("{configuration:?} {target:?} {}", module.code);
    let hash = code.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
    let mut text = String::from("object\n");
    for (kind, names) in [("define", &module.defined), ("need", &module.needed)] {
        let mut names = names.clone();
        names.sort();
        names.dedup();
        for name in names {
            text += &format!("{kind} {name}\n");
        }
    }
    text += &format!("code {hash:016x}\nend\n");
    Ok(text.into_bytes())
}
