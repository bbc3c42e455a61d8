//! A scripted RPC node behind the client's own transport seam.
#![allow(dead_code)]
use async_trait::async_trait;
use base64::{engine::general_purpose::STANDARD, Engine as _};
use serde_json::{json, Value};
use solana_client::client_error::{ClientErrorKind, Result as RpcResult};
use solana_client::rpc_client::{RpcClient, RpcClientConfig};
use solana_client::rpc_request::RpcRequest;
use solana_client::rpc_sender::{RpcSender, RpcTransportStats};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Clone, Default)]
pub struct Node(pub Arc<Mutex<HashMap<String, (String, u64, Vec<u8>)>>>, pub Arc<Mutex<bool>>);
impl Node {
    pub fn put(&self, address: &str, owner: &str, lamports: u64, data: Vec<u8>) {
        self.0.lock().unwrap().insert(address.into(), (owner.into(), lamports, data));
    }
    pub fn client(&self) -> RpcClient {
        RpcClient::new_sender(self.clone(), RpcClientConfig::default())
    }
    fn account(&self, address: &Value) -> Value {
        match self.0.lock().unwrap().get(address.as_str().unwrap()) {
            None => Value::Null,
            Some((owner, lamports, data)) => json!({"lamports": lamports, "owner": owner, "executable": false, "rentEpoch": 0,
                "space": data.len(), "data": [STANDARD.encode(data), "base64"]}),
        }
    }
}
#[async_trait]
impl RpcSender for Node {
    async fn send(&self, request: RpcRequest, params: Value) -> RpcResult<Value> {
        if *self.1.lock().unwrap() {
            return Err(ClientErrorKind::Custom("connection refused".into()).into());
        }
        let value = match request {
            RpcRequest::GetAccountInfo => self.account(&params[0]),
            RpcRequest::GetMultipleAccounts => {
                let keys = params[0].as_array().unwrap();
                assert!(keys.len() <= 100, "an RPC node takes at most 100 addresses");
                Value::Array(keys.iter().map(|k| self.account(k)).collect())
            }
            other => panic!("unexpected request {other}"),
        };
        Ok(json!({"context": {"slot": 7, "apiVersion": "2.3.0"}, "value": value}))
    }
    fn get_transport_stats(&self) -> RpcTransportStats {
        RpcTransportStats::default()
    }
    fn url(&self) -> String {
        "sim".into()
    }
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
