
// --- appended for the simulation

thread_local! {
    static PENSIM_ARGUMENTS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };
}

/// Ends the program without ending the process it is simulated in.
struct PensimExit(i32);

fn pensim_exit(status: i32) -> ! {
    std::panic::resume_unwind(Box::new(PensimExit(status)))
}

fn pensim_arguments() -> Vec<String> {
    PENSIM_ARGUMENTS.with(|a| a.borrow().clone())
}

/// Runs the program with arguments, the first being its name.
pub fn pensim_main(arguments: Vec<String>) -> i32 {
    let before = PENSIM_ARGUMENTS.with(|a| a.replace(arguments));
    let result = std::panic::catch_unwind(|| {
        use std::process::{ExitCode, Termination};
        (main().report() != ExitCode::SUCCESS) as i32
    });
    let _ = std::io::Write::flush(&mut std::io::stdout());
    PENSIM_ARGUMENTS.with(|a| a.replace(before));
    match result {
        Ok(status) => status,
        Err(payload) => payload.downcast_ref::<PensimExit>().map(|e| e.0).unwrap_or(101),
    }
}
