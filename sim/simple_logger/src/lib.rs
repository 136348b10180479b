//! Stands in for the command line tools' logger: the simulator's own logger is already installed.
#[derive(Default)]
pub struct SimpleLogger;
#[rustfmt::skip]
impl SimpleLogger {
    pub fn new() -> Self { Self }
    pub fn env(self) -> Self { self }
    pub fn with_level(self, _: log::LevelFilter) -> Self { self }
    pub fn with_module_level(self, _: &str, _: log::LevelFilter) -> Self { self }
    pub fn with_threads(self, _: bool) -> Self { self }
    pub fn with_colors(self, _: bool) -> Self { self }
    pub fn without_timestamps(self) -> Self { self }
    pub fn with_utc_timestamps(self) -> Self { self }
    pub fn with_local_timestamps(self) -> Self { self }
    pub fn init(self) -> Result<(), log::SetLoggerError> { Ok(()) }
}
