pub mod net {
    use std::net::SocketAddr;
    pub trait ToSocketAddrs {
        fn to_socket_addrs(&self) -> impl std::future::Future<Output = std::io::Result<std::vec::IntoIter<SocketAddr>>> + Send;
    }
    impl ToSocketAddrs for String {
        fn to_socket_addrs(&self) -> impl std::future::Future<Output = std::io::Result<std::vec::IntoIter<SocketAddr>>> + Send {
            async { Ok(vec![SocketAddr::from(([127, 0, 0, 1], 1883))].into_iter()) }
        }
    }
    impl ToSocketAddrs for str {
        fn to_socket_addrs(&self) -> impl std::future::Future<Output = std::io::Result<std::vec::IntoIter<SocketAddr>>> + Send {
            async { Ok(vec![SocketAddr::from(([127, 0, 0, 1], 1883))].into_iter()) }
        }
    }
}
