//! What the application consists of once it is up. Only used with contracts/app.vc.
#![allow(unused_imports)]
use crate::broker::client_packet_handler::ClientPacketHandler;
use crate::broker::messaging::{MessagingOperation, MessagingService};
use crate::vx_broker::Path;
use crate::mqtt::listener::MqttListener;
use crate::settings::{in_force, Settings};
use crate::vx_prelude::*;
use tokio::sync::mpsc::Receiver;
use tokio::task::JoinHandle;
use vstd::prelude::*;

verus! {

/// The tasks that were started.
pub tracked struct VxApp {
    pub ghost handlers: Seq<ClientPacketHandler>,
    pub ghost services: Seq<(MessagingService, Receiver<MessagingOperation>)>,
    pub ghost listeners: Seq<MqttListener>,
}

pub open spec fn nothing_runs(a: VxApp) -> bool {
    a.handlers.len() == 0 && a.services.len() == 0 && a.listeners.len() == 0
}

/// One handler and one service that belong together, new ones, log-ins decided by the password file; a
/// listener on each of the addresses and no others, all reporting to that handler.
pub open spec fn up(a: VxApp, s: Settings) -> bool {
    &&& a.handlers.len() == 1
    &&& a.services.len() == 1
    &&& s.mqtt.listeners_tcp@.len() == a.listeners.len()
    &&& a.services[0].0.wf()
    &&& a.services[0].0.sessions_v() == Map::<String, crate::broker::session::Session>::empty()
    &&& forall|f: Path, c: String| !#[trigger] a.services[0].0.holds(f, c)
    &&& chan(a.handlers[0].asks_v()) == chan_of(a.services[0].1)
    &&& forall|u: Seq<char>, w: Seq<char>| #[trigger] a.handlers[0].verifies(u, w) == crate::broker::authentication::authentic(s.authentication.password_file@, u, w)
    &&& forall|i: int| 0 <= i < a.listeners.len() ==> chan((#[trigger] a.listeners[i]).tx_v()) == chan_of(a.handlers[0].rx_v())
    &&& forall|i: int| 0 <= i < a.listeners.len() ==> signal_of((#[trigger] a.listeners[i]).stop_v()) == signal_of(a.handlers[0].stop_v())
    &&& forall|i: int| 0 <= i < s.mqtt.listeners_tcp@.len() ==> served_at(a, (#[trigger] s.mqtt.listeners_tcp@[i])@)
}

pub open spec fn served_at(a: VxApp, address: Seq<char>) -> bool {
    exists|j: int| 0 <= j < a.listeners.len() && bound_to((#[trigger] a.listeners[j]).socket_v()) == address
}

/// The application can be started with these settings.
pub open spec fn startable(s: Settings) -> bool {
    &&& crate::broker::authentication::loads(s.authentication.password_file@)
    &&& forall|i: int| 0 <= i < s.mqtt.listeners_tcp@.len() ==> can_bind((#[trigger] s.mqtt.listeners_tcp@[i])@)
}

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExJoinHandle<T>(JoinHandle<T>);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExJoinError(tokio::task::JoinError);

/// `tokio::spawn(h.run())`
#[verifier::external_body]
pub fn vx_start_run0(h: ClientPacketHandler, Tracked(w): Tracked<&mut VxApp>) -> (r: JoinHandle<()>)
    ensures
        *final(w) == (VxApp { handlers: old(w).handlers.push(h), ..*old(w) }),
{
    unimplemented!()
}

/// `tokio::spawn(s.run(rx))`
#[verifier::external_body]
pub fn vx_start_run1(s: MessagingService, rx: Receiver<MessagingOperation>, Tracked(w): Tracked<&mut VxApp>) -> (r: JoinHandle<()>)
    requires
        s.wf(),
    ensures
        *final(w) == (VxApp { services: old(w).services.push((s, rx)), ..*old(w) }),
{
    unimplemented!()
}

/// `tokio::spawn(l.start_accepting())`
#[verifier::external_body]
pub fn vx_start_start_accepting0(l: MqttListener, Tracked(w): Tracked<&mut VxApp>) -> (r: JoinHandle<()>)
    ensures
        *final(w) == (VxApp { listeners: old(w).listeners.push(l), ..*old(w) }),
{
    unimplemented!()
}

} // verus!
