pub use crate::client::*;
pub use crate::broker::*;
pub use crate::stream::*;
pub use crate::pair::*;
pub use crate::tls::*;
