//! Stand-in for `easy-upnp` with the same public API as used by hyperborealib.
//! Instead of searching a real gateway it calls the simulated one (a function
//! installed by the simulator). The iterators are lazy, like the real ones.

use std::net::Ipv4Addr;
use std::sync::OnceLock;

use thiserror::Error;

#[derive(Debug, Error)]
pub enum Error {
    #[error("No matching gateway found")]
    NoMatchingGateway,

    #[error("Could not get interface address: {0}")]
    CannotGetInterfaceAddress(#[source] std::io::Error),

    #[error("Error adding port: {0}")]
    IgdAddPortError(String),

    #[error("Error searching for gateway: {0}")]
    IgdSearchError(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ipv4Cidr(pub Ipv4Addr, pub u8);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PortMappingProtocol {
    TCP,
    UDP,
}

#[derive(Debug)]
pub struct UpnpConfig {
    pub address: Option<Ipv4Cidr>,
    pub port: u16,
    pub protocol: PortMappingProtocol,
    pub duration: u32,
    pub comment: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Action {
    Add,
    Delete,
}

pub type Gateway = fn(Action, &UpnpConfig) -> Result<(), Error>;

static GATEWAY: OnceLock<Gateway> = OnceLock::new();

pub fn set_gateway(gateway: Gateway) {
    let _ = GATEWAY.set(gateway);
}

fn call(action: Action, config: &UpnpConfig) -> Result<(), Error> {
    match GATEWAY.get() {
        Some(gateway) => gateway(action, config),
        None => Err(Error::NoMatchingGateway),
    }
}

pub fn add_ports(
    configs: impl IntoIterator<Item = UpnpConfig>,
) -> impl Iterator<Item = Result<(), Error>> {
    configs.into_iter().map(|config| call(Action::Add, &config))
}

pub fn delete_ports(
    configs: impl IntoIterator<Item = UpnpConfig>,
) -> impl Iterator<Item = Result<(), Error>> {
    configs.into_iter().map(|config| call(Action::Delete, &config))
}
