//! What a request or an answer proves, decided from its JSON without the library.
use base64::engine::{DecodePaddingMode, GeneralPurpose, GeneralPurposeConfig};
use base64::Engine;
use k256::ecdsa::signature::Verifier;
use serde_json::Value as Json;

pub type Pk = [u8; 33];

pub fn b64(s: &str) -> Option<Vec<u8>> {
    let cfg = GeneralPurposeConfig::new().with_decode_padding_mode(DecodePaddingMode::Indifferent).with_decode_allow_trailing_bits(true);
    GeneralPurpose::new(&base64::alphabet::URL_SAFE, cfg).decode(s).ok()
}

pub fn pk_bytes(b: &[u8]) -> Option<Pk> {
    let k = k256::PublicKey::from_sec1_bytes(b).ok()?;
    let b = k.to_sec1_bytes();
    b.as_ref().try_into().ok()
}

pub fn pk(j: &Json) -> Option<Pk> {
    pk_bytes(&b64(j.as_str()?)?)
}

pub fn verify(pk: &Pk, msg: &[u8], sign: &[u8]) -> bool {
    let Ok(s) = k256::ecdsa::Signature::from_slice(sign) else { return false };
    let Ok(k) = k256::PublicKey::from_sec1_bytes(pk) else { return false };
    k256::ecdsa::VerifyingKey::from(&k).verify(msg, &s).is_ok()
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RCert {
    pub date: u64,
    pub srv: Pk,
    pub sign: Vec<u8>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RClient {
    pub pk: Pk,
    pub cert: RCert,
    pub ty: String,
    pub addr: Option<String>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct RServer {
    pub pk: Pk,
    pub addr: String,
}

pub fn cert(j: &Json) -> Option<RCert> {
    let t = b64(j.get("token")?.as_str()?)?;
    if t.len() < 8 {
        return None;
    }
    Some(RCert { date: u64::from_be_bytes(t[..8].try_into().unwrap()), srv: pk_bytes(&t[8..])?, sign: b64(j.get("sign")?.as_str()?)? })
}

pub fn info(j: &Json) -> Option<(String, Option<String>)> {
    Some((j.get("type")?.as_str()?.to_string(), j.get("address").and_then(Json::as_str).map(String::from)))
}

pub fn client(j: &Json) -> Option<RClient> {
    let (ty, addr) = info(j.get("client")?)?;
    Some(RClient { pk: pk(j.get("public_key")?)?, cert: cert(j.get("certificate")?)?, ty, addr })
}

pub fn server(j: &Json) -> Option<RServer> {
    Some(RServer { pk: pk(j.get("public_key")?)?, addr: j.get("address")?.as_str()?.to_string() })
}

pub fn cert_ok(c: &RCert, client: &Pk, srv: &Pk) -> bool {
    let mut m = c.date.to_be_bytes().to_vec();
    m.extend(c.srv);
    &c.srv == srv && verify(client, &m, &c.sign)
}

/// The identity a request's proof stands for.
pub fn proof(j: &Json) -> Option<Pk> {
    let p = pk(j.get("public_key")?)?;
    let seed = j.get("proof")?.get("seed")?.as_u64()?;
    let sign = b64(j.get("proof")?.get("sign")?.as_str()?)?;
    (seed >= 1 << 63 && verify(&p, &seed.to_be_bytes(), &sign)).then_some(p)
}

pub enum Ask {
    Connect(RClient),
    Disconnect,
    AnnounceClient(RClient, RServer),
    AnnounceServer(RServer),
    Lookup,
    /// receiver, channel, content
    Send(Pk, String, String),
    Poll(String),
}

/// What a request to the server `srv` may do, if anything.
pub fn request(path: &str, j: &Json, srv: &Pk) -> Option<(Pk, Ask)> {
    let id = proof(j)?;
    let r = j.get("request")?;
    let a = match path {
        "/api/v1/connect" => {
            let c = cert(r.get("certificate")?)?;
            let (ty, addr) = info(r.get("client")?)?;
            if !cert_ok(&c, &id, srv) {
                return None;
            }
            Ask::Connect(RClient { pk: id, cert: c, ty, addr })
        }
        "/api/v1/disconnect" => Ask::Disconnect,
        "/api/v1/announce" => match r.get("announce")?.as_str()? {
            "client" => {
                let (c, s) = (client(r.get("client")?)?, server(r.get("server")?)?);
                if !cert_ok(&c.cert, &c.pk, &s.pk) {
                    return None;
                }
                Ask::AnnounceClient(c, s)
            }
            "server" => Ask::AnnounceServer(server(r.get("server")?)?),
            _ => return None,
        },
        "/api/v1/lookup" => Ask::Lookup,
        "/api/v1/send" => Ask::Send(
            pk(r.get("receiver")?.get("public_key")?)?,
            r.get("channel")?.as_str()?.to_string(),
            r.get("message")?.get("content")?.as_str()?.to_string(),
        ),
        "/api/v1/poll" => Ask::Poll(r.get("channel")?.as_str()?.to_string()),
        _ => return None,
    };
    Some((id, a))
}

/// Does an answer claim success?
pub fn success(j: &Json) -> bool {
    j.get("status").and_then(Json::as_u64).map(|s| (100..200).contains(&s)).unwrap_or(false)
}

/// The key an answer to a request with this seed is signed by.
pub fn answer(j: &Json, seed: u64) -> Option<Pk> {
    let p = pk(j.get("public_key")?)?;
    let sign = b64(j.get("proof")?.get("sign")?.as_str()?)?;
    (seed >= 1 << 63 && verify(&p, &seed.to_be_bytes(), &sign)).then_some(p)
}

/// The key an info answer proves.
pub fn info_answer(j: &Json) -> Option<Pk> {
    let p = pk(j.get("server")?.get("public_key")?)?;
    let seed = j.get("proof")?.get("seed")?.as_u64()?;
    let sign = b64(j.get("proof")?.get("sign")?.as_str()?)?;
    (seed >= 1 << 63 && verify(&p, &seed.to_be_bytes(), &sign)).then_some(p)
}
