macro_rules! bail { ($($t:tt)*) => { return Err(vx_error()) } }
macro_rules! anyhow { ($($t:tt)*) => { vx_error() } }
macro_rules! vx_lost_anchor { () => { compile_error!("lost anchor") } }
