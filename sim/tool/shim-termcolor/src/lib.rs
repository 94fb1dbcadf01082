//! Stands in for termcolor: no colors.
use std::io::{self, Write};

#[derive(Clone, Copy)]
pub enum Color {
    Black,
    Blue,
    Green,
    Red,
    Cyan,
    Magenta,
    Yellow,
    White,
}

pub enum ColorChoice {
    Always,
    AlwaysAnsi,
    Auto,
    Never,
}

#[derive(Default)]
pub struct ColorSpec;

impl ColorSpec {
    pub fn new() -> Self {
        Self
    }
    pub fn set_fg(&mut self, _: Option<Color>) -> &mut Self {
        self
    }
    pub fn set_bold(&mut self, _: bool) -> &mut Self {
        self
    }
}

pub trait WriteColor: Write {
    fn set_color(&mut self, spec: &ColorSpec) -> io::Result<()>;
    fn reset(&mut self) -> io::Result<()>;
}

pub struct StandardStream(bool);

impl StandardStream {
    pub fn stderr(_: ColorChoice) -> Self {
        Self(true)
    }
    pub fn stdout(_: ColorChoice) -> Self {
        Self(false)
    }
}

impl Write for StandardStream {
    fn write(&mut self, data: &[u8]) -> io::Result<usize> {
        if self.0 {
            io::stderr().write(data)
        } else {
            io::stdout().write(data)
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl WriteColor for StandardStream {
    fn set_color(&mut self, _: &ColorSpec) -> io::Result<()> {
        Ok(())
    }
    fn reset(&mut self) -> io::Result<()> {
        Ok(())
    }
}
