//! Calls made of bytes rather than by the client.
use crate::net::*;
use bytes::{Buf, BufMut};
use std::net::SocketAddr;
use tokio_stream::Stream;
use tonic::client::Grpc;
use tonic::codec::{Codec, DecodeBuf, Decoder, EncodeBuf, Encoder};
use tonic::transport::{Channel, Endpoint};
use tonic::{Request, Status};

#[derive(Clone, Default)]
pub struct Bytes;
impl Codec for Bytes {
    type Encode = Vec<u8>;
    type Decode = Vec<u8>;
    type Encoder = Bytes;
    type Decoder = Bytes;
    fn encoder(&mut self) -> Bytes {
        Bytes
    }
    fn decoder(&mut self) -> Bytes {
        Bytes
    }
}
impl Encoder for Bytes {
    type Item = Vec<u8>;
    type Error = Status;
    fn encode(&mut self, item: Vec<u8>, dst: &mut EncodeBuf<'_>) -> Result<(), Status> {
        dst.put_slice(&item);
        Ok(())
    }
}
impl Decoder for Bytes {
    type Item = Vec<u8>;
    type Error = Status;
    fn decode(&mut self, src: &mut DecodeBuf<'_>) -> Result<Option<Vec<u8>>, Status> {
        let mut v = vec![0; src.remaining()];
        src.copy_to_slice(&mut v);
        Ok(Some(v))
    }
}

#[derive(Clone)]
pub struct Raw(Channel);

impl Raw {
    pub fn new(addr: SocketAddr) -> Result<Raw, String> {
        let e = Endpoint::from_shared(format!("http://{addr}")).map_err(|e| e.to_string())?;
        Ok(Raw(wait(e.connect())?.map_err(|e| e.to_string())?))
    }
    /// The messages of the answer, or the status it ended with.
    pub async fn call<S>(&self, path: &str, msgs: S) -> Result<Vec<Vec<u8>>, Status>
    where
        S: Stream<Item = Vec<u8>> + Send + 'static,
    {
        let mut g = Grpc::new(self.0.clone()).max_decoding_message_size(usize::MAX);
        g.ready().await.map_err(|e| Status::unavailable(e.to_string()))?;
        let path = format!("/indradb.IndraDB/{path}").parse().unwrap();
        let mut body = g.streaming(Request::new(msgs), path, Bytes).await?.into_inner();
        let mut out = vec![];
        while let Some(m) = body.message().await? {
            out.push(m);
        }
        Ok(out)
    }
    /// Reads this many parts of the answer and drops the rest.
    pub async fn begin(&self, path: &str, msgs: Vec<Vec<u8>>, parts: usize) -> Result<(), Status> {
        let mut g = Grpc::new(self.0.clone()).max_decoding_message_size(usize::MAX);
        g.ready().await.map_err(|e| Status::unavailable(e.to_string()))?;
        let path = format!("/indradb.IndraDB/{path}").parse().unwrap();
        let mut body = g.streaming(Request::new(tokio_stream::iter(msgs)), path, Bytes).await?.into_inner();
        for _ in 0..parts {
            if body.message().await?.is_none() {
                break;
            }
        }
        Ok(())
    }
    /// The answer, to be read bit by bit.
    pub async fn open(&self, path: &str, msgs: Vec<Vec<u8>>) -> Result<tonic::Streaming<Vec<u8>>, Status> {
        let mut g = Grpc::new(self.0.clone()).max_decoding_message_size(usize::MAX);
        g.ready().await.map_err(|e| Status::unavailable(e.to_string()))?;
        let path = format!("/indradb.IndraDB/{path}").parse().unwrap();
        Ok(g.streaming(Request::new(tokio_stream::iter(msgs)), path, Bytes).await?.into_inner())
    }
    pub fn send(&self, path: &str, msgs: Vec<Vec<u8>>) -> Result<Result<Vec<Vec<u8>>, Status>, String> {
        wait(self.call(path, tokio_stream::iter(msgs)))
    }
}
