#[derive(Debug, Clone)] pub struct NoopGate;
