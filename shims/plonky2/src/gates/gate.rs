#[derive(Debug, Clone)] pub struct GateRef; impl GateRef { pub fn new<G>(_: G) -> Self { Self } }
