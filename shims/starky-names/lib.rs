pub mod config { pub struct StarkConfig; }
