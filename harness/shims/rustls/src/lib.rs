//! Types only: certificates are outside what is explored (see tokio-rustls here).
#[derive(Debug, Clone, Default)]
pub struct RootCertStore {
    pub roots: Vec<()>,
}
impl RootCertStore {
    pub fn empty() -> Self {
        RootCertStore { roots: Vec::new() }
    }
}
#[derive(Debug)]
pub struct Error(());
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("tls")
    }
}
impl std::error::Error for Error {}
pub trait KeyLog: std::fmt::Debug + Send + Sync {}
#[derive(Debug)]
pub struct KeyLogFile;
impl KeyLogFile {
    pub fn new() -> Self {
        KeyLogFile
    }
}
impl KeyLog for KeyLogFile {}
#[derive(Debug)]
pub struct ClientConfig {
    pub key_log: std::sync::Arc<dyn KeyLog>,
}
#[derive(Debug)]
pub struct ServerConfig;
pub struct Builder;
impl ClientConfig {
    pub fn builder() -> Builder {
        Builder
    }
}
impl Builder {
    pub fn with_root_certificates(self, _r: impl Into<std::sync::Arc<RootCertStore>>) -> Builder {
        self
    }
    pub fn with_no_client_auth(self) -> ClientConfig {
        ClientConfig { key_log: std::sync::Arc::new(KeyLogFile) }
    }
}
pub mod pki_types {
    #[derive(Debug, Clone)]
    pub struct ServerName<'a>(std::marker::PhantomData<&'a ()>);
    #[derive(Debug)]
    pub struct InvalidDnsNameError;
    impl std::fmt::Display for InvalidDnsNameError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("invalid dns name")
        }
    }
    impl TryFrom<String> for ServerName<'static> {
        type Error = InvalidDnsNameError;
        fn try_from(_: String) -> Result<Self, InvalidDnsNameError> {
            Ok(ServerName(std::marker::PhantomData))
        }
    }
    impl<'a> TryFrom<&'a str> for ServerName<'a> {
        type Error = InvalidDnsNameError;
        fn try_from(_: &'a str) -> Result<Self, InvalidDnsNameError> {
            Ok(ServerName(std::marker::PhantomData))
        }
    }
}
