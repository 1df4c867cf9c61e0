//! The servers log at level debug: the arguments of the statements are part of
//! what they execute.

/// Evaluates the arguments of every log statement, and drops the text.
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        struct Null;
        impl std::fmt::Write for Null {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut Null, *r.args());
    }
    fn flush(&self) {}
}

/// Installs the sink for this process.
pub fn sink_logs() {
    let _ = log::set_logger(&Sink);
    log::set_max_level(log::LevelFilter::Debug);
}
