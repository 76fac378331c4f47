/// The harness has installed its logger already.
pub fn init() {}
