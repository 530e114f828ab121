pub struct InboundPacket;
pub mod pool {
    #[derive(Debug, Default, Clone)] pub struct ConnectionPool;
    impl ConnectionPool {
        pub fn new() -> Self { ConnectionPool }
        pub async fn send_tcp(&self, _: std::net::SocketAddr, _: bytes::Bytes) -> anyhow::Result<()> { Err(anyhow::anyhow!("no network")) }
        pub async fn set_inbound_tx(&self, _: tokio::sync::mpsc::Sender<crate::InboundPacket>) {}
    }
}
