#[derive(Default, Debug)] pub struct TimingTree;
impl TimingTree { pub fn new(_: &str, _: log::Level) -> Self { Self } pub fn print(&self) {} pub fn push(&mut self, _: &str, _: log::Level) {} pub fn pop(&mut self) {} }
#[macro_export] macro_rules! timed { ($t:expr, $l:expr, $m:expr, $e:expr) => { $e }; ($t:expr, $m:expr, $e:expr) => { $e }; }
#[macro_export] macro_rules! with_context { ($b:expr, $l:expr, $m:expr, $e:expr) => { $e }; ($b:expr, $m:expr, $e:expr) => { $e }; }
